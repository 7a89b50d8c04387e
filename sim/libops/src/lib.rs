//! Registry of every library operation the concurrency checks drive.
//!
//! An operation is a function from an operand block (`In`) to an output
//! buffer (`Out`); it calls only public packed_simd API.
#![allow(dead_code)]
pub mod rng;
use packed_simd::*;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

pub const SLOT: usize = 64;
pub const IN_SLOTS: usize = 11;
pub const IN_BYTES: usize = SLOT * IN_SLOTS;
pub const OUT_BYTES: usize = 8192;

#[derive(Copy, Clone)]
pub struct In(pub *const u8);
impl In {
    #[inline(always)]
    pub fn rd<T: Copy>(self, slot: usize) -> T {
        unsafe { std::ptr::read_unaligned(self.0.add(slot * SLOT) as *const T) }
    }
    #[inline(always)]
    pub fn src<T: Copy + Src>(self) -> T {
        self.rd(T::SLOT)
    }
    #[inline(always)]
    pub fn idx(self, n: usize) -> usize {
        self.rd::<u64>(6) as usize % n
    }
    /// formatting style, width and precision
    #[inline(always)]
    pub fn shape(self) -> (u8, usize, usize) {
        let b = self.rd::<[u8; 16]>(6);
        let style = if b[8] < 80 { 0 } else { b[8] };
        let w = if b[10] < 24 { b[11] as usize % 120 } else { b[9] as usize % 24 };
        let p = if b[10] > 240 { b[12] as usize % 40 } else { b[12] as usize % 8 };
        (style, w, p)
    }
}
pub struct Out {
    pub p: *mut u8,
    pub n: usize,
    /// when not null: the class of every output byte (0 other, 1 mask, 4/8 float of that size)
    pub tags: *mut u8,
}
#[inline(never)]
fn tag_bytes<T>(p: *mut u8) {
    let t = std::any::type_name::<T>();
    let c = if t.contains("f32") { 4 } else if t.contains("f64") { 8 } else if t.contains("masks::") { 1 } else { 0 };
    unsafe { std::ptr::write_bytes(p, c, std::mem::size_of::<T>()) }
}
impl Out {
    #[inline(always)]
    pub fn put<T: Copy>(&mut self, x: T) {
        if !self.tags.is_null() {
            unsafe { tag_bytes::<T>(self.tags.add(self.n)) }
        }
        unsafe {
            std::ptr::write_unaligned(self.p.add(self.n) as *mut T, x);
        }
        self.n += std::mem::size_of::<T>();
    }
}
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        if self.n + b.len() > OUT_BYTES {
            return Err(std::fmt::Error);
        }
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(self.n), b.len()) }
        self.n += b.len();
        Ok(())
    }
}
/// A hasher that keeps every byte it is fed.
impl Hasher for Out {
    fn finish(&self) -> u64 {
        self.n as u64
    }
    fn write(&mut self, b: &[u8]) {
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(self.n), b.len()) }
        self.n += b.len();
    }
}

/// Slot from which a conversion source of this type is read.
pub trait Src {
    const SLOT: usize;
}

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Kind {
    Int,
    Float,
    Mask,
    Ptr,
}

#[derive(Copy, Clone)]
pub struct Op {
    pub ty: &'static str,
    pub op: &'static str,
    pub f: fn(In, &mut Out),
    pub kind: Kind,
    pub esz: u8,
    pub lanes: u8,
    /// expected to be long (formatting): stepped less often
    pub heavy: bool,
}
impl Op {
    pub fn name(&self) -> String {
        format!("{}.{}", self.ty, self.op)
    }
}

macro_rules! op {
    ($t:ident, $name:expr, |$i:ident, $o:ident| $b:block) => {{
        #[inline(never)]
        #[allow(unused_variables)]
        fn f($i: In, $o: &mut Out) {
            $b
        }
        Op { ty: stringify!($t), op: $name, f, kind: Kind::Int, esz: 0, lanes: 0, heavy: false }
    }};
}

macro_rules! binform {
    ($v:ident, $t:ident, $e:ident, $name:expr, $op:tt, $opa:tt, $bslot:expr) => {
        $v.push(op!($t, $name, |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd($bslot);
            let s: $e = i.rd($bslot);
            let s0: $e = i.rd(0);
            o.put(a $op b);
            o.put(a $op s);
            o.put(s0 $op b);
            let mut c = a;
            c $opa b;
            o.put(c);
            let mut c = a;
            c $opa s;
            o.put(c);
        }));
    };
}

macro_rules! common_ops {
    ($v:ident, $t:ident, $e:ident, $n:expr, $m:ident, $u:ident) => {
        $v.push(op!($t, "shuffle1_dyn", |i, o| {
            let a: $t = i.rd(0);
            let x: $u = i.rd(4);
            o.put(a.shuffle1_dyn(x));
        }));
        $v.push(op!($t, "eq", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            o.put((a == b) as u8);
            o.put((a != b) as u8);
            o.put((a == a) as u8);
        }));
        $v.push(op!($t, "lanecmp", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            o.put(a.eq(b));
            o.put(a.ne(b));
            o.put(a.lt(b));
            o.put(a.le(b));
            o.put(a.gt(b));
            o.put(a.ge(b));
        }));
        $v.push(op!($t, "array", |i, o| {
            let a: $t = i.rd(0);
            let arr: [$e; $n] = a.into();
            o.put(arr);
            let b: $t = $t::from(arr);
            o.put(b);
            o.put($t::default());
        }));
        $v.push(op!($t, "select", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            let m: $m = i.rd(5);
            o.put(m.select(a, b));
        }));
        $v.push(op!($t, "slice", |i, o| {
            let a: [$e; $n] = i.rd(0);
            let x = $t::from_slice_unaligned(&a);
            let mut b: [$e; $n] = i.rd(1);
            o.put(x);
            x.write_to_slice_unaligned(&mut b);
            o.put(b);
            #[repr(align(64))]
            struct Al([$e; $n]);
            let mut c = Al(i.rd(1));
            let y = $t::from_slice_aligned(&c.0);
            x.write_to_slice_aligned(&mut c.0);
            o.put(y);
            o.put(c.0);
        }));
    };
}

macro_rules! elem_ops {
    ($v:ident, $t:ident, $e:ident, $n:expr) => {
        $v.push(op!($t, "extract", |i, o| {
            let a: $t = i.rd(0);
            let s: $e = i.rd(1);
            let k = i.idx($n);
            o.put(a.extract(k));
            o.put(a.replace(k, s));
            o.put(unsafe { a.extract_unchecked(k) });
            o.put(unsafe { a.replace_unchecked(k, s) });
            o.put($t::splat(s));
        }));
        $v.push(op!($t, "iter_sum", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            let xs = [a, b, a];
            o.put(xs.iter().sum::<$t>());
            o.put(xs.iter().copied().sum::<$t>());
        }));
        $v.push(op!($t, "iter_product", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            let xs = [a, b, a];
            o.put(xs.iter().product::<$t>());
            o.put(xs.iter().copied().product::<$t>());
        }));
        $v.push(heavy(op!($t, "debug", |i, o| {
            let a: $t = i.rd(0);
            let (s, w, p) = i.shape();
            let _ = style_dbg(s % DBG_STYLES, &a, o, w, p);
        })));
    };
}

pub fn heavy(mut o: Op) -> Op {
    o.heavy = true;
    o
}

macro_rules! tag {
    ($v:ident, $from:expr, $k:ident, $t:ident, $n:expr) => {
        for x in $v[$from..].iter_mut() {
            x.kind = Kind::$k;
            x.esz = (std::mem::size_of::<$t>() / $n) as u8;
            x.lanes = $n;
        }
    };
}

macro_rules! int_ops {
    ($v:ident, $t:ident, $e:ident, $n:expr, $m:ident, $u:ident) => {
        let from = $v.len();
        binform!($v, $t, $e, "add", +, +=, 1);
        binform!($v, $t, $e, "sub", -, -=, 1);
        binform!($v, $t, $e, "mul", *, *=, 1);
        binform!($v, $t, $e, "div", /, /=, 2);
        binform!($v, $t, $e, "rem", %, %=, 2);
        binform!($v, $t, $e, "bitand", &, &=, 1);
        binform!($v, $t, $e, "bitor", |, |=, 1);
        binform!($v, $t, $e, "bitxor", ^, ^=, 1);
        $v.push(op!($t, "not", |i, o| {
            let a: $t = i.rd(0);
            o.put(!a);
        }));
        $v.push(op!($t, "shl", |i, o| {
            let a: $t = i.rd(0);
            let s: $t = i.rd(3);
            let k: u32 = i.rd::<u8>(3) as u32;
            o.put(a << s);
            o.put(a << k);
            let mut c = a;
            c <<= s;
            o.put(c);
            let mut c = a;
            c <<= k;
            o.put(c);
        }));
        $v.push(op!($t, "shr", |i, o| {
            let a: $t = i.rd(0);
            let s: $t = i.rd(3);
            let k: u32 = i.rd::<u8>(3) as u32;
            o.put(a >> s);
            o.put(a >> k);
            let mut c = a;
            c >>= s;
            o.put(c);
            let mut c = a;
            c >>= k;
            o.put(c);
        }));
        $v.push(op!($t, "rotate_left", |i, o| {
            let a: $t = i.rd(0);
            let s: $t = i.rd(3);
            let any: $t = i.rd(1);
            o.put(a.rotate_left(s));
            o.put(a.rotate_left(any));
        }));
        $v.push(op!($t, "rotate_right", |i, o| {
            let a: $t = i.rd(0);
            let s: $t = i.rd(3);
            let any: $t = i.rd(1);
            o.put(a.rotate_right(s));
            o.put(a.rotate_right(any));
        }));
        $v.push(op!($t, "min", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            o.put(a.min(b));
        }));
        $v.push(op!($t, "max", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            o.put(a.max(b));
        }));
        $v.push(op!($t, "wrapping_sum", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.wrapping_sum());
        }));
        $v.push(op!($t, "wrapping_product", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.wrapping_product());
        }));
        $v.push(op!($t, "min_element", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.min_element());
        }));
        $v.push(op!($t, "max_element", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.max_element());
        }));
        $v.push(op!($t, "red_and", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.and());
        }));
        $v.push(op!($t, "red_or", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.or());
        }));
        $v.push(op!($t, "red_xor", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.xor());
        }));
        $v.push(op!($t, "swap_bytes", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.swap_bytes());
        }));
        $v.push(op!($t, "endian", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.to_le());
            o.put(a.to_be());
            o.put($t::from_le(a));
            o.put($t::from_be(a));
        }));
        $v.push(op!($t, "count_ones", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.count_ones());
            o.put(a.count_zeros());
        }));
        $v.push(op!($t, "leading_zeros", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.leading_zeros());
        }));
        $v.push(op!($t, "trailing_zeros", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.trailing_zeros());
        }));
        $v.push(op!($t, "bitmask", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.bitmask());
        }));
        $v.push(op!($t, "partial_lex", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            let (x, y) = (a.partial_lex_ord(), b.partial_lex_ord());
            o.put((x < y) as u8);
            o.put((x <= y) as u8);
            o.put((x > y) as u8);
            o.put((x >= y) as u8);
            o.put((x == y) as u8);
            o.put((x != y) as u8);
            o.put(x.partial_cmp(&y).map_or(7i8, |c| c as i8));
        }));
        $v.push(op!($t, "lex", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            o.put(a.lex_ord().cmp(&b.lex_ord()) as i8);
            o.put((a.lex_ord() < b.lex_ord()) as u8);
        }));
        $v.push(op!($t, "hash", |i, o| {
            let a: $t = i.rd(0);
            a.hash(o);
        }));
        $v.push(heavy(op!($t, "fmt_int", |i, o| {
            let a: $t = i.rd(0);
            let (s, w, _) = i.shape();
            if s == 0 {
                let _ = write!(o, "{:x}{:X}{:o}{:b}", a, a, a, a);
            } else {
                let _ = style_int(DBG_STYLES + s % RADIX_STYLES, &a, o, w);
            }
        })));
        common_ops!($v, $t, $e, $n, $m, $u);
        elem_ops!($v, $t, $e, $n);
        tag!($v, from, Int, $t, $n);
    };
}

macro_rules! neg_ops {
    ($v:ident, $t:ident) => {
        let l = $v[$v.len() - 1];
        $v.push(op!($t, "neg", |i, o| {
            let a: $t = i.rd(0);
            o.put(-a);
        }));
        let k = $v.len() - 1;
        $v[k].kind = l.kind;
        $v[k].esz = l.esz;
        $v[k].lanes = l.lanes;
    };
}

macro_rules! un {
    ($v:ident, $t:ident, $($f:ident),*) => { $(
        $v.push(op!($t, stringify!($f), |i, o| {
            let a: $t = i.rd(0);
            o.put(a.$f());
        }));
    )* }
}

macro_rules! float_ops {
    ($v:ident, $t:ident, $e:ident, $n:expr, $m:ident, $u:ident) => {
        let from = $v.len();
        binform!($v, $t, $e, "add", +, +=, 1);
        binform!($v, $t, $e, "sub", -, -=, 1);
        binform!($v, $t, $e, "mul", *, *=, 1);
        binform!($v, $t, $e, "div", /, /=, 2);
        binform!($v, $t, $e, "rem", %, %=, 2);
        $v.push(op!($t, "neg", |i, o| {
            let a: $t = i.rd(0);
            o.put(-a);
        }));
        $v.push(op!($t, "min", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            o.put(a.min(b));
        }));
        $v.push(op!($t, "max", |i, o| {
            let a: $t = i.rd(0);
            let b: $t = i.rd(1);
            o.put(a.max(b));
        }));
        un!($v, $t, sum, product, min_element, max_element, abs, cos, cos_pi, exp, ln, recpre,
            rsqrte, sin, sin_pi, sqrt, sqrte, tanh);
        $v.push(op!($t, "sin_cos_pi", |i, o| {
            let a: $t = i.rd(0);
            let (s, c) = a.sin_cos_pi();
            o.put(s);
            o.put(c);
        }));
        $v.push(op!($t, "mul_add", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.mul_add(i.rd(1), i.rd(2)));
        }));
        $v.push(op!($t, "mul_adde", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.mul_adde(i.rd(1), i.rd(2)));
        }));
        $v.push(op!($t, "powf", |i, o| {
            let a: $t = i.rd(2);
            o.put(a.powf(i.rd(1)));
        }));
        $v.push(op!($t, "category", |i, o| {
            let a: $t = i.rd(0);
            o.put(a.is_nan());
            o.put(a.is_infinite());
            o.put(a.is_finite());
        }));
        common_ops!($v, $t, $e, $n, $m, $u);
        elem_ops!($v, $t, $e, $n);
        tag!($v, from, Float, $t, $n);
    };
}

macro_rules! mask_ops {
    ($v:ident, $t:ident, $e:ident, $n:expr, $u:ident, [$($x:ident),*]) => {
        let from = $v.len();
        $v.push(op!($t, "reduce", |i, o| {
            let a: $t = i.rd(5);
            o.put(a.all() as u8);
            o.put(a.any() as u8);
            o.put(a.none() as u8);
            o.put(a.and() as u8);
            o.put(a.or() as u8);
            o.put(a.xor() as u8);
        }));
        $v.push(op!($t, "bitops", |i, o| {
            let a: $t = i.rd(5);
            let b: $t = i.rd(7);
            let s = i.idx(2) != 0;
            o.put(a & b);
            o.put(a | b);
            o.put(a ^ b);
            o.put(!a);
            o.put(a & s);
            o.put(a | s);
            o.put(a ^ s);
            o.put(s & a);
            o.put(s | a);
            o.put(s ^ a);
            let mut c = a;
            c &= b;
            o.put(c);
            c |= b;
            o.put(c);
            c ^= b;
            o.put(c);
            c &= s;
            c ^= !s;
            c |= s;
            o.put(c);
        }));
        $v.push(op!($t, "bitmask", |i, o| {
            let a: $t = i.rd(5);
            o.put(a.bitmask());
        }));
        $v.push(op!($t, "extract", |i, o| {
            let a: $t = i.rd(5);
            let k = i.idx($n);
            o.put(a.extract(k) as u8);
            o.put(a.replace(k, true));
            o.put(a.replace(k, false));
            o.put($t::splat(i.idx(2) != 0));
        }));
        $v.push(op!($t, "cmp", |i, o| {
            let a: $t = i.rd(5);
            let b: $t = i.rd(7);
            o.put((a == b) as u8);
            o.put((a != b) as u8);
            o.put(a.eq(b));
            o.put(a.ne(b));
            o.put(a.lt(b));
            o.put(a.le(b));
            o.put(a.gt(b));
            o.put(a.ge(b));
        }));
        $v.push(op!($t, "lex", |i, o| {
            let a: $t = i.rd(5);
            let b: $t = i.rd(7);
            o.put(a.lex_ord().cmp(&b.lex_ord()) as i8);
            o.put((a.partial_lex_ord() <= b.partial_lex_ord()) as u8);
        }));
        $v.push(op!($t, "shuffle1_dyn", |i, o| {
            let a: $t = i.rd(5);
            let x: $u = i.rd(4);
            o.put(a.shuffle1_dyn(x));
        }));
        $v.push(op!($t, "array", |i, o| {
            let a: $t = i.rd(5);
            let arr: [$e; $n] = a.into();
            o.put(arr);
            o.put($t::from(arr));
            o.put($t::default());
        }));
        $v.push(op!($t, "select_all", |i, o| {
            let m: $t = i.rd(5);
            $( { let a: $x = i.src(); let b: $x = $x::default(); o.put(m.select(a, b)); } )*
        }));
        $v.push(heavy(op!($t, "debug", |i, o| {
            let a: $t = i.rd(5);
            let (s, w, p) = i.shape();
            let _ = style_dbg(s % DBG_STYLES, &a, o, w, p);
        })));
        tag!($v, from, Mask, $t, $n);
    };
}

macro_rules! from_ops {
    ($v:ident, $t:ident, [$($x:ident),*]) => {
        conv_ops!($v, $t, "from", [$($x),*], |a| <$t>::from(a));
    };
}
macro_rules! cast_ops {
    ($v:ident, $t:ident, [$($x:ident),*]) => {
        conv_ops!($v, $t, "cast", [$($x),*], |a| { let r: $t = a.cast(); r });
    };
}
macro_rules! bits_ops {
    ($v:ident, $t:ident, [$($x:ident),*]) => {
        conv_ops!($v, $t, "into_bits", [$($x),*], |a| { let r: $t = a.into_bits(); r });
    };
}
macro_rules! conv_ops {
    ($v:ident, $t:ident, $name:expr, [$($x:ident),*], |$a:ident| $e:expr) => {
        let l = $v[$v.len() - 1];
        let from = $v.len();
        $v.push(op!($t, $name, |i, o| {
            $( { let $a: $x = i.src(); let r: $t = $e; o.put(r); } )*
        }));
        for k in from..$v.len() {
            $v[k].kind = l.kind;
            $v[k].esz = l.esz;
            $v[k].lanes = l.lanes;
        }
    };
}

macro_rules! ptr_ops {
    ($v:ident, $t:ident, $e:ty, $n:expr, $u:ident, $i:ident, $m:ident) => {
        let from = $v.len();
        $v.push(op!($t, "arith", |i, o| {
            let a: $t<u32> = i.rd(0);
            let c: $i = i.rd(1);
            let u: $u = i.rd(1);
            o.put(a.wrapping_offset(c));
            o.put(a.wrapping_add(u));
            o.put(a.wrapping_sub(u));
        }));
        $v.push(op!($t, "cmp", |i, o| {
            let a: $t<u32> = i.rd(0);
            let b: $t<u32> = i.rd(1);
            o.put(a.eq(b));
            o.put(a.ne(b));
            o.put(a.lt(b));
            o.put(a.le(b));
            o.put(a.gt(b));
            o.put(a.ge(b));
            o.put(a.is_null());
            o.put((a == b) as u8);
        }));
        $v.push(op!($t, "elem", |i, o| {
            let a: $t<u32> = i.rd(0);
            let s: $e = i.rd(1);
            let k = i.idx($n);
            o.put(a.extract(k));
            o.put(a.replace(k, s));
            o.put($t::<u32>::splat(s));
            o.put($t::<u32>::null());
            let arr: [$e; $n] = a.into();
            o.put(arr);
            o.put($t::<u32>::from(arr));
        }));
        $v.push(op!($t, "shuffle1_dyn", |i, o| {
            let a: $t<u32> = i.rd(0);
            let x: $u = i.rd(4);
            o.put(a.shuffle1_dyn(x));
        }));
        $v.push(op!($t, "slice", |i, o| {
            let a: [$e; $n] = i.rd(0);
            let x = $t::<u32>::from_slice_unaligned(&a);
            let mut b: [$e; $n] = i.rd(1);
            o.put(x);
            x.write_to_slice_unaligned(&mut b);
            o.put(b);
        }));
        $v.push(op!($t, "hash", |i, o| {
            let a: $t<u32> = i.rd(0);
            a.hash(o);
        }));
        $v.push(op!($t, "gather", |i, o| {
            let mem: [u32; 16] = i.rd(10);
            let m: $m = i.rd(5);
            let mut p = $t::<u32>::null();
            for k in 0..$n {
                p = p.replace(k, &mem[(k * 5 + i.idx(16)) % 16] as *const u32 as _);
            }
            let d: Simd<[u32; $n]> = i.rd(1);
            o.put(unsafe { p.read(m, d) });
        }));
        $v.push(heavy(op!($t, "debug", |i, o| {
            let a: $t<u32> = i.rd(0);
            let (s, w, p) = i.shape();
            let _ = style_dbg(s % DBG_STYLES, &a, o, w, p);
        })));
        for x in $v[from..].iter_mut() {
            x.kind = Kind::Ptr;
            x.esz = 8;
            x.lanes = $n;
        }
    };
}

include!("tables.rs");
include!("ops_gen.rs");

/// Fills an operand block for `op` from (base, variant): the same base with a
/// different variant differs from it in only a few lanes.
pub fn gen_operand(op: &Op, base: u64, variant: u64, buf: &mut [u8; IN_BYTES]) {
    use crate::rng::Rng;
    let mut r = Rng::new(base ^ 0x6f70);
    let esz = (op.esz as usize).max(1);
    let lanes = (op.lanes as usize).max(1);
    for b in buf.iter_mut() {
        *b = r.next() as u8;
    }
    let fill = |buf: &mut [u8; IN_BYTES], slot: usize, lane: usize, esz: usize, v: u128| {
        let o = slot * SLOT + lane * esz;
        if o + esz <= (slot + 1) * SLOT {
            buf[o..o + esz].copy_from_slice(&v.to_le_bytes()[..esz]);
        }
    };
    let nl = SLOT / esz;
    let interesting = r.next() % 4;
    for l in 0..nl {
        // A, B
        for s in 0..2 {
            if op.kind == Kind::Float {
                let v = fval(&mut r, interesting == 0);
                fill(buf, s, l, esz, fbits(v, esz));
            } else {
                let v = match r.next() % 8 {
                    0 => 0u128,
                    1 => !0u128,
                    2 => 1,
                    3 => 1u128 << (esz * 8 - 1),
                    _ => (r.next() as u128) << 64 | r.next() as u128,
                };
                fill(buf, s, l, esz, v);
            }
        }
        // C: divisors
        if op.kind == Kind::Float {
            let v = 0.25 + (r.next() % 4096) as f64 / 512.0;
            fill(buf, 2, l, esz, fbits(v, esz));
        } else {
            let top = esz * 8 - 1;
            let v = ((r.next() as u128) << 64 | r.next() as u128) & ((1u128 << top) - 1) | 1;
            fill(buf, 2, l, esz, v);
        }
        fill(buf, 3, l, esz, (r.next() % (esz as u64 * 8)) as u128);
        fill(buf, 4, l, esz, (r.next() % lanes as u64) as u128);
        fill(buf, 5, l, esz, if r.next() % 2 == 0 { 0 } else { !0 });
    }
    // degenerate operands: all lanes alike, equal operands, uniform masks
    let copy = |buf: &mut [u8; IN_BYTES], from: usize, to: usize, n: usize| buf.copy_within(from..from + n, to);
    match r.next() % 12 {
        0 => (1..nl).for_each(|l| copy(buf, 0, l * esz, esz)),
        1 => (0..nl).for_each(|l| copy(buf, SLOT, SLOT + l * esz, esz)),
        2 => copy(buf, 0, SLOT, SLOT),
        3 => {
            // equal but for one lane
            copy(buf, 0, SLOT, SLOT);
            let l = r.next() as usize % lanes;
            buf[SLOT + l * esz + esz - 1] ^= 0x80;
        }
        _ => {}
    }
    match r.next() % 6 {
        0 => buf[5 * SLOT..6 * SLOT].fill(0),
        1 => buf[5 * SLOT..6 * SLOT].fill(0xff),
        2 => {
            let v = r.next() as u8 & 1;
            buf[5 * SLOT..6 * SLOT].fill(if v == 1 { 0xff } else { 0 });
            let l = r.next() as usize % lanes;
            buf[5 * SLOT + l * esz..5 * SLOT + (l + 1) * esz].iter_mut().for_each(|b| *b = !*b);
        }
        _ => {}
    }
    if r.next() % 8 == 0 {
        (1..nl).for_each(|l| copy(buf, 4 * SLOT, 4 * SLOT + l * esz, esz));
    }
    for g in 0..4 {
        let v = if r.next() % 2 == 0 { 0u8 } else { 0xff };
        for b in &mut buf[7 * SLOT + g * 16..7 * SLOT + g * 16 + 16] {
            *b = v;
        }
    }
    let wild = r.next() % 3;
    for l in 0..16 {
        let v = csrc(&mut r, wild);
        fill(buf, 8, l, 4, fbits(v, 4));
    }
    for l in 0..8 {
        let v = csrc(&mut r, wild);
        fill(buf, 9, l, 8, fbits(v, 8));
    }
    if variant != 0 {
        // perturb a few lanes of A/B (and sometimes the mask / index / shifts)
        let mut r = Rng::new(variant ^ base.rotate_left(17));
        let k = 1 + r.next() % 3;
        for _ in 0..k {
            let l = (r.next() % lanes as u64) as usize;
            let s = (r.next() % 11) as usize;
            let s = if op.kind == Kind::Mask && r.next() % 2 == 0 { 6 } else { s };
            let l2 = (r.next() % lanes as u64) as usize;
            match s {
                8 if l != l2 => {
                    // two lanes trade places: same sum, same set
                    let sl = SLOT * (r.next() & 1) as usize;
                    for k in 0..esz {
                        buf.swap(sl + l * esz + k, sl + l2 * esz + k);
                    }
                }
                9 => {
                    // same magnitude, other sign (0.0 and -0.0 compare equal)
                    let sl = SLOT * (r.next() & 1) as usize;
                    buf[sl + l * esz + esz - 1] ^= 0x80;
                }
                10 if op.kind == Kind::Float => {
                    let v = fval(&mut r, true);
                    fill(buf, (s & 1) as usize, l, esz, fbits(v, esz));
                }
                0..=3 => {
                    let sl = (s & 1) as usize;
                    if op.kind == Kind::Float {
                        let v = fval(&mut r, false);
                        fill(buf, sl, l, esz, fbits(v, esz));
                    } else {
                        let v = (r.next() as u128) << 64 | r.next() as u128;
                        fill(buf, sl, l, esz, v);
                    }
                }
                4 => fill(buf, 3, l, esz, (r.next() % (esz as u64 * 8)) as u128),
                5 => fill(buf, 4, l, esz, (r.next() % lanes as u64) as u128),
                6 => {
                    let o = 5 * SLOT + l * esz;
                    for b in &mut buf[o..o + esz] {
                        *b = !*b;
                    }
                }
                _ => {
                    let x = r.next();
                    buf[6 * SLOT..6 * SLOT + 8].copy_from_slice(&x.to_le_bytes());
                }
            }
        }
        // cross-type sources also differ
        let o = 10 * SLOT + (r.next() % 64) as usize;
        buf[o] ^= 1 << (r.next() % 8);
        let l = (r.next() % 16) as usize;
        fill(buf, 8, l, 4, fbits(((r.next() % 4001) as f64 - 2000.0) / 16.0, 4));
        let l = (r.next() % 8) as usize;
        fill(buf, 9, l, 8, fbits(((r.next() % 4001) as f64 - 2000.0) / 16.0, 8));
    }
}

fn fbits(v: f64, esz: usize) -> u128 {
    if esz == 4 {
        (v as f32).to_bits() as u128
    } else {
        v.to_bits() as u128
    }
}

/// A float to be converted: moderate, or anywhere in and beyond the integers.
fn csrc(r: &mut crate::rng::Rng, wild: u64) -> f64 {
    if wild == 0 && r.next() % 2 == 0 {
        let b = (1u128 << (r.next() % 66)) as f64;
        match r.next() % 6 {
            0 => fval(r, true),
            1 => -b,
            2 => b - 0.5,
            3 => -b - 0.5,
            4 => b * 1e20,
            _ => b,
        }
    } else {
        ((r.next() % 4001) as f64 - 2000.0) / 16.0
    }
}

fn fval(r: &mut crate::rng::Rng, special: bool) -> f64 {
    if special && r.next() % 3 == 0 {
        match r.next() % 9 {
            7 => 5e-310,
            8 => f64::MIN_POSITIVE,
            0 => 0.0,
            1 => -0.0,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            4 => f64::NAN,
            5 => 1e-40,
            _ => 3e38,
        }
    } else {
        (r.next() % 65536) as f64 / 4096.0 - 8.0
    }
}
