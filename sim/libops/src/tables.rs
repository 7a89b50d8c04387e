// Erased tables of the memory-facing, formatting, hashing and folding APIs.

#[derive(Copy, Clone)]
pub struct SliceTy {
    pub name: &'static str,
    pub esz: usize,
    pub ealign: usize,
    pub lanes: usize,
    pub valign: usize,
    /// kind: 0 aligned, 1 unaligned, 2 aligned_unchecked, 3 unaligned_unchecked
    pub load: unsafe fn(u8, *const u8, usize, *mut u8),
    pub store: unsafe fn(u8, *const u8, *mut u8, usize),
}
impl SliceTy {
    pub fn bytes(&self) -> usize {
        self.esz * self.lanes
    }
}
macro_rules! slice_ty {
    ($v:ident, $t:ty, $e:ty, $n:expr) => {{
        #[inline(never)]
        unsafe fn load(kind: u8, p: *const u8, len: usize, out: *mut u8) {
            let s = std::slice::from_raw_parts(p as *const $e, len);
            let x = match kind {
                0 => <$t>::from_slice_aligned(s),
                1 => <$t>::from_slice_unaligned(s),
                2 => <$t>::from_slice_aligned_unchecked(s),
                _ => <$t>::from_slice_unaligned_unchecked(s),
            };
            std::ptr::write_unaligned(out as *mut $t, x);
        }
        #[inline(never)]
        unsafe fn store(kind: u8, x: *const u8, p: *mut u8, len: usize) {
            let s = std::slice::from_raw_parts_mut(p as *mut $e, len);
            let x = std::ptr::read_unaligned(x as *const $t);
            match kind {
                0 => x.write_to_slice_aligned(s),
                1 => x.write_to_slice_unaligned(s),
                2 => x.write_to_slice_aligned_unchecked(s),
                _ => x.write_to_slice_unaligned_unchecked(s),
            }
        }
        $v.push(SliceTy {
            name: stringify!($t),
            esz: std::mem::size_of::<$e>(),
            ealign: std::mem::align_of::<$e>(),
            lanes: $n,
            valign: std::mem::align_of::<$t>(),
            load,
            store,
        });
    }};
}

#[derive(Copy, Clone)]
pub struct IndexTy {
    pub name: &'static str,
    pub lanes: usize,
    pub vsz: usize,
    pub esz: usize,
    pub mask: bool,
    pub extract: unsafe fn(*const u8, usize, *mut u8),
    pub replace: unsafe fn(*const u8, usize, *const u8, *mut u8),
}
macro_rules! index_ty {
    ($v:ident, $t:ty, $e:ty, $n:expr) => {{
        #[inline(never)]
        unsafe fn extract(x: *const u8, k: usize, out: *mut u8) {
            let x = std::ptr::read_unaligned(x as *const $t);
            std::ptr::write_unaligned(out as *mut $e, x.extract(k));
        }
        #[inline(never)]
        unsafe fn replace(x: *const u8, k: usize, e: *const u8, out: *mut u8) {
            let x = std::ptr::read_unaligned(x as *const $t);
            let e = std::ptr::read_unaligned(e as *const $e);
            std::ptr::write_unaligned(out as *mut $t, x.replace(k, e));
        }
        $v.push(IndexTy {
            name: stringify!($t),
            lanes: $n,
            vsz: std::mem::size_of::<$t>(),
            esz: std::mem::size_of::<$t>() / $n,
            mask: stringify!($e) == "bool",
            extract,
            replace,
        });
    }};
}

#[derive(Copy, Clone)]
pub struct GsTy {
    pub name: &'static str,
    pub mask: &'static str,
    pub esz: usize,
    pub ealign: usize,
    pub msz: usize,
    pub lanes: usize,
    pub read_c: unsafe fn(*const u8, *const u8, *const u8, *mut u8),
    pub read_m: unsafe fn(*const u8, *const u8, *const u8, *mut u8),
    pub write: unsafe fn(*const u8, *const u8, *const u8),
}
macro_rules! gs_ty {
    ($v:ident, $t:ident, $e:ident, $n:expr, $c:ident, $m:ident, [$($k:ident),*]) => { $( {
        #[inline(never)]
        unsafe fn read_c(p: *const u8, m: *const u8, d: *const u8, out: *mut u8) {
            let p = std::ptr::read_unaligned(p as *const $c<$e>);
            let m = std::ptr::read_unaligned(m as *const $k);
            let d = std::ptr::read_unaligned(d as *const $t);
            std::ptr::write_unaligned(out as *mut $t, p.read(m, d));
        }
        #[inline(never)]
        unsafe fn read_m(p: *const u8, m: *const u8, d: *const u8, out: *mut u8) {
            let p = std::ptr::read_unaligned(p as *const $m<$e>);
            let m = std::ptr::read_unaligned(m as *const $k);
            let d = std::ptr::read_unaligned(d as *const $t);
            std::ptr::write_unaligned(out as *mut $t, p.read(m, d));
        }
        #[inline(never)]
        unsafe fn write(p: *const u8, m: *const u8, x: *const u8) {
            let p = std::ptr::read_unaligned(p as *const $m<$e>);
            let m = std::ptr::read_unaligned(m as *const $k);
            let x = std::ptr::read_unaligned(x as *const $t);
            p.write(m, x);
        }
        $v.push(GsTy {
            name: stringify!($t),
            mask: stringify!($k),
            esz: std::mem::size_of::<$e>(),
            ealign: std::mem::align_of::<$e>(),
            msz: std::mem::size_of::<$k>() / $n,
            lanes: $n,
            read_c,
            read_m,
            write,
        });
    } )* };
}

#[derive(Copy, Clone)]
pub struct FmtTy {
    pub name: &'static str,
    pub lanes: usize,
    pub vsz: usize,
    /// 0 int, 1 float, 2 mask, 3 ptr
    pub kind: u8,
    pub nstyles: u8,
    pub fmt: unsafe fn(u8, *const u8, &mut dyn std::fmt::Write, usize, usize) -> std::fmt::Result,
    /// reference: formats lane `k` alone with the same style
    pub lane: unsafe fn(u8, *const u8, usize, &mut dyn std::fmt::Write, usize, usize) -> std::fmt::Result,
}
pub const DBG_STYLES: u8 = 12;
pub const RADIX_STYLES: u8 = 24;
pub const INT_STYLES: u8 = DBG_STYLES + RADIX_STYLES;
pub fn style_dbg<T: std::fmt::Debug>(
    s: u8, x: &T, o: &mut dyn std::fmt::Write, w: usize, p: usize,
) -> std::fmt::Result {
    match s {
        0 => write!(o, "{:?}", x),
        1 => write!(o, "{:#?}", x),
        2 => write!(o, "{:+?}", x),
        3 => write!(o, "{:1$?}", x, w),
        4 => write!(o, "{:<1$?}", x, w),
        5 => write!(o, "{:*^1$?}", x, w),
        6 => write!(o, "{:01$?}", x, w),
        7 => write!(o, "{:.1$?}", x, p),
        8 => write!(o, "{:#>1$.2$?}", x, w, p),
        9 => write!(o, "{:+01$.2$?}", x, w, p),
        10 => write!(o, "{:x?}", x),
        _ => write!(o, "{:#1$X?}", x, w),
    }
}
pub fn style_int<T: std::fmt::LowerHex + std::fmt::UpperHex + std::fmt::Octal + std::fmt::Binary>(
    s: u8, x: &T, o: &mut dyn std::fmt::Write, w: usize,
) -> std::fmt::Result {
    match s - DBG_STYLES {
        0 => write!(o, "{:x}", x),
        1 => write!(o, "{:#x}", x),
        2 => write!(o, "{:#01$x}", x, w),
        3 => write!(o, "{:->1$x}", x, w),
        4 => write!(o, "{:X}", x),
        5 => write!(o, "{:#X}", x),
        6 => write!(o, "{:01$X}", x, w),
        7 => write!(o, "{:_<1$X}", x, w),
        8 => write!(o, "{:o}", x),
        9 => write!(o, "{:#o}", x),
        10 => write!(o, "{:#01$o}", x, w),
        11 => write!(o, "{:^1$o}", x, w),
        12 => write!(o, "{:b}", x),
        13 => write!(o, "{:#b}", x),
        14 => write!(o, "{:01$b}", x, w),
        15 => write!(o, "{:+#1$b}", x, w),
        16 => write!(o, "{:1$x}", x, w),
        17 => write!(o, "{:1$X}", x, w),
        18 => write!(o, "{:1$o}", x, w),
        19 => write!(o, "{:1$b}", x, w),
        20 => write!(o, "{:<+1$x}", x, w),
        21 => write!(o, "{:^+#1$X}", x, w),
        22 => write!(o, "{:é>1$o}", x, w),
        _ => write!(o, "{:→<#1$b}", x, w),
    }
}
macro_rules! fmt_int {
    ($v:ident, $t:ident, $e:ident, $n:expr) => {{
        unsafe fn fmt(s: u8, x: *const u8, o: &mut dyn std::fmt::Write, w: usize, p: usize) -> std::fmt::Result {
            let x = std::ptr::read_unaligned(x as *const $t);
            if s < DBG_STYLES { style_dbg(s, &x, o, w, p) } else { style_int(s, &x, o, w) }
        }
        unsafe fn lane(s: u8, x: *const u8, k: usize, o: &mut dyn std::fmt::Write, w: usize, p: usize) -> std::fmt::Result {
            let x = std::ptr::read_unaligned((x as *const $e).add(k));
            if s < DBG_STYLES { style_dbg(s, &x, o, w, p) } else { style_int(s, &x, o, w) }
        }
        $v.push(FmtTy { name: stringify!($t), lanes: $n, vsz: std::mem::size_of::<$t>(), kind: 0,
                        nstyles: INT_STYLES, fmt, lane });
    }};
}
macro_rules! fmt_dbg {
    ($v:ident, $t:ident, bool, $n:expr) => {{
        unsafe fn fmt(s: u8, x: *const u8, o: &mut dyn std::fmt::Write, w: usize, p: usize) -> std::fmt::Result {
            let x = std::ptr::read_unaligned(x as *const $t);
            style_dbg(s, &x, o, w, p)
        }
        unsafe fn lane(s: u8, x: *const u8, k: usize, o: &mut dyn std::fmt::Write, w: usize, p: usize) -> std::fmt::Result {
            let b: bool = *x.add(k * (std::mem::size_of::<$t>() / $n)) != 0;
            style_dbg(s, &b, o, w, p)
        }
        $v.push(FmtTy { name: stringify!($t), lanes: $n, vsz: std::mem::size_of::<$t>(), kind: 2,
                        nstyles: DBG_STYLES, fmt, lane });
    }};
    ($v:ident, $t:ident, $e:ident, $n:expr) => {{
        unsafe fn fmt(s: u8, x: *const u8, o: &mut dyn std::fmt::Write, w: usize, p: usize) -> std::fmt::Result {
            let x = std::ptr::read_unaligned(x as *const $t);
            style_dbg(s, &x, o, w, p)
        }
        unsafe fn lane(s: u8, x: *const u8, k: usize, o: &mut dyn std::fmt::Write, w: usize, p: usize) -> std::fmt::Result {
            let x = std::ptr::read_unaligned((x as *const $e).add(k));
            style_dbg(s, &x, o, w, p)
        }
        $v.push(FmtTy { name: stringify!($t), lanes: $n, vsz: std::mem::size_of::<$t>(), kind: 1,
                        nstyles: DBG_STYLES, fmt, lane });
    }};
}
macro_rules! fmt_ptr {
    ($v:ident, $t:ident, $name:expr, $e:ty, $n:expr) => {{
        unsafe fn fmt(s: u8, x: *const u8, o: &mut dyn std::fmt::Write, w: usize, p: usize) -> std::fmt::Result {
            let x = std::ptr::read_unaligned(x as *const $t<u32>);
            style_dbg(s, &x, o, w, p)
        }
        unsafe fn lane(s: u8, x: *const u8, k: usize, o: &mut dyn std::fmt::Write, w: usize, p: usize) -> std::fmt::Result {
            let x = std::ptr::read_unaligned((x as *const $e).add(k));
            style_dbg(s, &x, o, w, p)
        }
        $v.push(FmtTy { name: $name, lanes: $n, vsz: 8 * $n, kind: 3, nstyles: DBG_STYLES, fmt, lane });
    }};
}

#[derive(Copy, Clone)]
pub struct HashTy {
    pub name: &'static str,
    pub vsz: usize,
    pub lanes: usize,
    pub hash: unsafe fn(*const u8, &mut dyn Hasher),
    pub reference: unsafe fn(*const u8, &mut dyn Hasher),
}
macro_rules! hash_ty {
    ($v:ident, $name:ident, $t:ty, $e:ident, $n:expr) => {{
        unsafe fn hash(x: *const u8, mut h: &mut dyn Hasher) {
            let x = std::ptr::read_unaligned(x as *const $t);
            Hash::hash(&x, &mut h)
        }
        unsafe fn reference(x: *const u8, mut h: &mut dyn Hasher) {
            let x = std::ptr::read_unaligned(x as *const [$e; $n]);
            Hash::hash(&x, &mut h)
        }
        $v.push(HashTy { name: stringify!($name), vsz: std::mem::size_of::<$t>(), lanes: $n, hash, reference });
    }};
}

/// A caller-supplied iterator: `next` is under the simulator's control and
/// yields an index into `items`.
pub struct SimIter<'a, T> {
    pub items: &'a [T],
    pub next: &'a mut dyn FnMut() -> Option<usize>,
    pub hint: (usize, Option<usize>),
}
impl<'a, T> Iterator for SimIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        (self.next)().map(|k| &self.items[k])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
#[derive(Copy, Clone)]
pub struct FoldTy {
    pub name: &'static str,
    pub vsz: usize,
    pub esz: usize,
    pub lanes: usize,
    pub float: bool,
    /// kind: 0 sum by value, 1 sum by ref, 2 product by value, 3 product by ref
    pub fold: unsafe fn(u8, *const u8, usize, &mut dyn FnMut() -> Option<usize>, (usize, Option<usize>), *mut u8),
    /// reference: left fold of the listed items, lane by lane, in scalar code
    pub reference: unsafe fn(u8, *const u8, &[usize], *mut u8),
    /// lane equality (NaN equals NaN, +0 equals -0)
    pub same: unsafe fn(*const u8, *const u8) -> bool,
}
macro_rules! fold_body {
    ($t:ident) => {
        unsafe fn fold(kind: u8, items: *const u8, n: usize, next: &mut dyn FnMut() -> Option<usize>,
                       hint: (usize, Option<usize>), out: *mut u8) {
            let items = std::slice::from_raw_parts(items as *const $t, n);
            let it = SimIter { items, next, hint };
            let r: $t = match kind {
                0 => it.copied().sum::<$t>(),
                1 => it.sum::<$t>(),
                2 => it.copied().product::<$t>(),
                _ => it.product::<$t>(),
            };
            std::ptr::write_unaligned(out as *mut $t, r);
        }
    };
}
macro_rules! fold_int {
    ($v:ident, $t:ident, $e:ident, $n:expr) => {{
        fold_body!($t);
        unsafe fn reference(kind: u8, items: *const u8, seq: &[usize], out: *mut u8) {
            let mut acc = [(kind / 2) as $e; $n];
            for &k in seq {
                let x = std::ptr::read_unaligned((items as *const [$e; $n]).add(k));
                for l in 0..$n {
                    acc[l] = if kind < 2 { acc[l].wrapping_add(x[l]) } else { acc[l].wrapping_mul(x[l]) };
                }
            }
            std::ptr::write_unaligned(out as *mut [$e; $n], acc);
        }
        unsafe fn same(a: *const u8, b: *const u8) -> bool {
            std::ptr::read_unaligned(a as *const [$e; $n]) == std::ptr::read_unaligned(b as *const [$e; $n])
        }
        $v.push(FoldTy { name: stringify!($t), vsz: std::mem::size_of::<$t>(), esz: std::mem::size_of::<$e>(),
                         lanes: $n, float: false, fold, reference, same });
    }};
}
macro_rules! fold_float {
    ($v:ident, $t:ident, $e:ident, $n:expr) => {{
        fold_body!($t);
        unsafe fn reference(kind: u8, items: *const u8, seq: &[usize], out: *mut u8) {
            let mut acc = [(kind / 2) as $e; $n];
            for &k in seq {
                let x = std::ptr::read_unaligned((items as *const [$e; $n]).add(k));
                for l in 0..$n {
                    acc[l] = if kind < 2 { acc[l] + x[l] } else { acc[l] * x[l] };
                }
            }
            std::ptr::write_unaligned(out as *mut [$e; $n], acc);
        }
        unsafe fn same(a: *const u8, b: *const u8) -> bool {
            let a = std::ptr::read_unaligned(a as *const [$e; $n]);
            let b = std::ptr::read_unaligned(b as *const [$e; $n]);
            (0..$n).all(|l| a[l] == b[l] || (a[l].is_nan() && b[l].is_nan()))
        }
        $v.push(FoldTy { name: stringify!($t), vsz: std::mem::size_of::<$t>(), esz: std::mem::size_of::<$e>(),
                         lanes: $n, float: true, fold, reference, same });
    }};
}
