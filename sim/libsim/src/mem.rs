//! C04 (slice stores), C05 (slice loads), C06 (gather), C07 (scatter) and C08
//! (rejected calls): real library code against a simulated memory whose other
//! owners act between any two of its instructions.
use libops::*;
use crate::plan::*;
use libops::rng::*;
use crate::run::*;
use crate::sys::*;
use libc::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PAGE: usize = 4096;
pub const NPAGE: usize = 4;
pub const DATA: usize = ARENA + PAGE;
pub const DLEN: usize = NPAGE * PAGE;

pub struct Tables {
    pub slices: Vec<SliceTy>,
    pub gs: Vec<GsTy>,
    pub index: Vec<IndexTy>,
}
pub static mut TABLES: Option<Tables> = None;
pub fn tables() -> &'static Tables {
    unsafe { TABLES.as_ref().unwrap() }
}
pub unsafe fn init() {
    let mut t = Tables { slices: vec![], gs: vec![], index: vec![] };
    all_slices(&mut t.slices);
    all_gs(&mut t.gs);
    all_index(&mut t.index);
    TABLES = Some(t);
}

// lane address codes of gather/scatter items: offset into the data pages, or
pub const L_NULL: u64 = 1 << 40;
pub const L_GUARD: u64 = 2 << 40;
pub const L_NONCANON: u64 = 3 << 40;
pub const L_PAGE3: u64 = 4 << 40; // last data page, unmapped by an event
fn lane_addr(c: u64) -> usize {
    match c >> 40 {
        0 => DATA + c as usize,
        1 => (c & 0xfff) as usize,
        2 => ARENA + (c & 0xff8) as usize,
        3 => (0xdead_0000_0000_0000u64 | (c & 0xfff8)) as usize,
        _ => DATA + 3 * PAGE + (c & 0xff8) as usize,
    }
}

struct Mem {
    prop: String,
    model: Vec<u8>,
    prot: [u8; NPAGE], // 0 rw, 1 read-only, 2 none
    /// bytes the operation in flight is entitled to write
    own: Vec<(usize, usize)>,
    /// bytes other owners must leave alone while it runs (its whole slice / active lanes)
    keep: Vec<(usize, usize)>,
    key: u64,
    step: u64,
    depth: usize,
    rng: Rng,
    explicit: Option<Vec<Ev>>,
    pwrite: u64,
    pnest: u64,
    pprot: u64,
    nests: Vec<Item>,
    focus: usize,
    maxev: u64,
    nev: u64,
    protectable: Vec<usize>,
    panicking: bool,
    limit: u64,
}
static mut MEM: Option<Mem> = None;
fn mem() -> &'static mut Mem {
    unsafe { MEM.as_mut().unwrap() }
}
pub fn on_panic() {
    unsafe {
        if let Some(m) = MEM.as_mut() {
            m.panicking = true;
        }
    }
}

pub fn gen(prop: &str, seed: u64, i: u64, _dbg: bool) -> Plan {
    let mut r = Rng::new(seed ^ mix(i) ^ hash_str(prop));
    let mut p = Plan { prop: prop.into(), ..Plan::default() };
    p.set("mseed", r.next());
    p.set("eseed", r.next());
    let dense = r.chance(1, 3);
    p.set("pwrite", if dense { 1 << 20 } else { (1 << 20) / (1 << r.below(6)) });
    let mut id = 0;
    let mut push = |p: &mut Plan, kind: &str, name: String, n: Vec<u64>| {
        p.items.push(Item { id, kind: kind.into(), name, n });
        id += 1;
    };
    let t = tables();
    match prop {
        "C04" | "C05" => {
            let ns = t.slices.len() as u64;
            let k = 1 + r.below(2);
            for j in 0..k {
                let sx = if j == 0 { &t.slices[(i % ns) as usize] } else { r.pick(&t.slices) };
                let kind = if j == 0 { (i / ns) % 4 } else { r.below(4) };
                let (off, len) = place(&mut r, sx, kind % 2 == 0);
                let ro = (prop == "C05" && r.chance(1, 2)) as u64;
                push(&mut p, if prop == "C04" { "store" } else { "load" }, sx.name.into(),
                     vec![kind, off as u64, len as u64, r.next(), ro]);
            }
            p.set("pnest", if r.chance(1, 2) { (1 << 20) / (4 << r.below(5)) } else { 0 });
            p.set("pprot", if prop == "C05" && r.chance(1, 3) { (1 << 20) / 16 } else { 0 });
            nest_items(&mut p, &mut r, &mut push, t);
        }
        "C06" | "C07" => {
            let ng = t.gs.len() as u64;
            let k = 1 + r.below(2);
            for j in 0..k {
                let g = if j == 0 { &t.gs[(i % ng) as usize] } else { r.pick(&t.gs) };
                let mut lanes = vec![];
                let maskbits = match r.below(8) {
                    0 => 0,
                    1 => (1u64 << g.lanes) - 1,
                    _ => r.below(1 << g.lanes),
                };
                let pattern = r.below(12);
                let base = (match r.below(3) { 0 => 0, 1 => DLEN - g.esz * g.lanes * 2, _ => r.below((DLEN - 1024) as u64) as usize }) / g.ealign * g.ealign;
                let odd = r.below(g.lanes as u64) as usize;
                for l in 0..g.lanes {
                    let span = DLEN - g.esz;
                    let line = |k: usize| base + k * g.esz;
                    let off = match if pattern < 7 { 100 + pattern } else { r.below(6) } {
                        // regular shapes, and shapes that look regular at their ends
                        100 => line(l),
                        101 => line(g.lanes - 1 - l),
                        102 => line(if l == odd { g.lanes } else { l }),
                        103 => line(if l == 0 || l + 1 == g.lanes { l } else { g.lanes - 1 - l }),
                        104 => line(if l == odd { l + 1 } else { 0 }),
                        105 => line(l / 2),
                        106 => line(l * 2),
                        0 => DLEN - g.esz,
                        1 => 0,
                        2 if l > 0 && lanes[0] < DLEN as u64 => lanes[r.below(l as u64) as usize] as usize,
                        3 => (1 + r.below(NPAGE as u64 - 1) as usize) * PAGE - g.esz,
                        4 => r.below(16) as usize * g.esz, // dense neighbourhood
                        _ => r.below(span as u64) as usize,
                    };
                    let off = if off > DLEN { 0 } else { off } / g.ealign * g.ealign;
                    let active = maskbits >> l & 1 == 1;
                    let code = if active || r.chance(1, 4) {
                        off as u64
                    } else {
                        match r.below(5) {
                            0 => L_NULL,
                            1 => L_GUARD | r.below(512) * 8,
                            2 => L_NONCANON | r.below(4096) * 8,
                            3 => L_PAGE3 | r.below(500) * 8,
                            _ => off as u64 | 1, // in range, but not aligned
                        }
                    };
                    lanes.push(if !active && code >> 40 == 0 && code as usize + 16 > DLEN { L_NULL } else { code });
                }
                let mut n = vec![r.below(2), maskbits, r.next()];
                n.extend(lanes);
                push(&mut p, if prop == "C06" { "gather" } else { "scatter" },
                     format!("{}:{}", g.name, g.mask), n);
            }
            p.set("pnest", if r.chance(1, 3) { (1 << 20) / (4 << r.below(5)) } else { 0 });
            p.set("pprot", if r.chance(1, 2) { (1 << 20) / (2 << r.below(4)) } else { 0 });
            nest_items(&mut p, &mut r, &mut push, t);
        }
        _ => {
            // C08
            let ns = t.slices.len() as u64;
            let nx = t.index.len() as u64;
            if i % 2 == 0 {
                let sx = &t.slices[((i / 2) % ns) as usize];
                let store = r.chance(2, 3);
                let kind = r.below(2);
                let bytes = sx.bytes();
                let misaligned = kind == 0 && sx.valign > sx.ealign && r.chance(1, 2);
                let len = if misaligned && r.chance(3, 4) { sx.lanes + r.below(4) as usize }
                          else { match r.below(3) { 0 => 0, 1 => sx.lanes - 1, _ => r.below(sx.lanes as u64) as usize } };
                let b = len * sx.esz;
                let al = if kind == 0 { sx.valign } else { sx.ealign };
                let mut off = match r.below(3) {
                    0 => DLEN - b.max(sx.ealign),
                    1 => 0,
                    _ => r.below((DLEN - bytes * 4) as u64) as usize,
                };
                if misaligned {
                    off = off / sx.valign * sx.valign;
                    if off + sx.valign + b > DLEN {
                        off = off.saturating_sub(2 * sx.valign + b) / sx.valign * sx.valign;
                    }
                    let steps = sx.valign / sx.ealign;
                    off += sx.ealign
                        * if r.chance(1, 2) { 1 << r.below(steps.trailing_zeros() as u64) }
                          else { 1 + r.below((steps - 1) as u64) as usize };
                } else if r.chance(2, 3) {
                    off = off / al * al;
                } else {
                    off = off / sx.ealign * sx.ealign;
                }
                let hide = r.chance(1, 3) as u64;
                push(&mut p, if store { "rstore" } else { "rload" }, sx.name.into(),
                     vec![kind, off as u64, len as u64, r.next(), hide]);
            } else {
                let x = &t.index[((i / 2) % nx) as usize];
                let l = x.lanes as u64;
                let idx = match r.below(9) {
                    0 => l,
                    1 => l + 1,
                    2 => l + r.below(l + 1),
                    3 => u64::MAX,
                    4 => (1u64 << 32) + r.below(l),
                    5 => (r.below(1 << 31) << 32) | r.below(l),
                    6 => (1u64 << 63) | r.below(l),
                    7 => u64::MAX - r.below(l),
                    _ => (1 << r.below(64)) | l,
                };
                let idx = if idx < l { l } else { idx };
                push(&mut p, if r.chance(1, 2) { "rextract" } else { "rreplace" }, x.name.into(),
                     vec![0, idx, 0, r.next(), 0]);
            }
            p.set("pnest", 0);
            p.set("pprot", 0);
        }
    }
    p
}

fn nest_items(p: &mut Plan, r: &mut Rng, push: &mut dyn FnMut(&mut Plan, &str, String, Vec<u64>), t: &Tables) {
    if p.h("pnest") == 0 {
        return;
    }
    // real library stores of another thread right next to the main operation
    let (mut lo, mut hi) = (usize::MAX, 0usize);
    for it in &p.items {
        if let Some((a, b)) = item_span(it) {
            lo = lo.min(a);
            hi = hi.max(b);
        }
    }
    if lo > hi {
        return;
    }
    for k in 0..2 {
        let sx = r.pick(&t.slices);
        let b = sx.bytes();
        let off = if k == 0 { (hi + sx.ealign - 1) / sx.ealign * sx.ealign }
                  else { lo.saturating_sub(b) / sx.ealign * sx.ealign };
        if off + b <= DLEN {
            push(p, "nst", sx.name.into(), vec![1, off as u64, sx.lanes as u64, r.next(), 0]);
        }
    }
}
/// byte span of the addresses an item may touch
fn item_span(it: &Item) -> Option<(usize, usize)> {
    let t = tables();
    match it.kind.as_str() {
        "store" | "load" | "nst" => {
            let s = t.slices.iter().find(|s| s.name.replace(' ', "_") == it.name.replace(' ', "_"))?;
            Some((it.n[1] as usize, it.n[1] as usize + it.n[2] as usize * s.esz))
        }
        _ => None,
    }
}

fn place(r: &mut Rng, s: &SliceTy, aligned: bool) -> (usize, usize) {
    let al = if aligned { s.valign } else { s.ealign };
    let len = s.lanes + match r.below(4) { 0 => 1 + r.below(3) as usize, 1 => r.below(40) as usize, 2 if r.chance(1, 3) => r.below((DLEN / s.esz - s.lanes) as u64) as usize, _ => 0 };
    let b = len * s.esz;
    let off = match r.below(6) {
        0 | 1 => DLEN - b,
        2 => 0,
        3 => {
            let pg = (1 + r.below(NPAGE as u64 - 1) as usize) * PAGE;
            pg - (1 + r.below(s.bytes() as u64) as usize)
        }
        4 => {
            // straddling a cache line
            let c = 64 * (8 + r.below(100) as usize);
            c - 1 - r.below(s.bytes() as u64) as usize
        }
        _ => r.below((DLEN - b) as u64) as usize,
    };
    let off = off.min(DLEN - b) / al * al;
    (off, len)
}

unsafe fn setup(plan: &Plan) {
    map_fixed(ARENA, DLEN + 2 * PAGE, PROT_NONE, false);
    mprotect(DATA as *mut c_void, DLEN, PROT_READ | PROT_WRITE);
    let mut r = Rng::new(plan.h("mseed"));
    for w in 0..DLEN / 8 {
        *((DATA + w * 8) as *mut u64) = r.next();
    }
    let model = std::slice::from_raw_parts(DATA as *const u8, DLEN).to_vec();
    MEM = Some(Mem {
        prop: plan.prop.clone(),
        model,
        prot: [0; NPAGE],
        own: vec![],
        keep: vec![],
        key: 0,
        step: 0,
        depth: 0,
        rng: Rng::new(plan.h("eseed")),
        explicit: plan.events.clone().map(|mut e| {
            e.sort_by_key(|x| x.at);
            e
        }),
        pwrite: plan.h("pwrite"),
        pnest: plan.h("pnest"),
        pprot: plan.h("pprot"),
        nests: plan.items.iter().filter(|i| i.kind == "nst").cloned().collect(),
        focus: 0,
        maxev: 4000,
        nev: 0,
        protectable: vec![],
        panicking: false,
        limit: 400_000,
    });
    install_step(step);
    install_segv();
}

extern "C" fn on_segv(sig: c_int, info: *mut siginfo_t, _uc: *mut c_void) {
    unsafe {
        let a = (*info).si_addr() as usize;
        let m = mem();
        let wh = if (DATA..DATA + DLEN).contains(&a) {
            format!("data offset {:#x} (page protection {})", a - DATA, m.prot[(a - DATA) / PAGE])
        } else if (ARENA..DATA + DLEN + PAGE).contains(&a) {
            "the guard page next to the data".into()
        } else {
            format!("address {:#x}", a)
        };
        violate(&m.prop.clone(), "touched-foreign-memory",
                &format!("signal {} in item {} at instruction {}: access to {}", sig, m.key, m.step, wh));
    }
}
unsafe fn install_segv() {
    // on an alternate stack, so that it works whatever the operation did
    let st = mmap(std::ptr::null_mut(), 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    let ss = stack_t { ss_sp: st, ss_flags: 0, ss_size: 1 << 16 };
    sigaltstack(&ss, std::ptr::null_mut());
    let mut sa: sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_segv as usize;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, std::ptr::null_mut());
    sigaction(SIGBUS, &sa, std::ptr::null_mut());
}

fn inside(v: &[(usize, usize)], i: usize) -> bool {
    v.iter().any(|x| i >= x.0 && i < x.1)
}

/// Every byte outside the operation's own destination equals the model.
unsafe fn compare(lo: usize, hi: usize, when: &str) {
    let m = mem();
    sh().stats[29] += 1;
    let d = DATA as *const u8;
    for pg in lo / PAGE..=(hi - 1) / PAGE {
        if m.prot[pg] == 2 {
            continue;
        }
        let (a, b) = (lo.max(pg * PAGE), hi.min((pg + 1) * PAGE));
        if memcmp(d.add(a) as *const c_void, m.model.as_ptr().add(a) as *const c_void, b - a) == 0 {
            continue;
        }
        for i in a..b {
            if *d.add(i) != m.model[i] && !inside(&m.own, i) {
                violate(&m.prop.clone(), "foreign-byte-changed", &format!(
                    "item {} {}: byte at data offset {:#x} is {:#04x}, its owner last wrote {:#04x}; the operation may write only {:x?}",
                    m.key, when, i, *d.add(i), m.model[i], m.own));
            }
        }
    }
}

unsafe fn protect(pg: usize, p: u8) {
    mem().prot[pg] = p;
    let pr = match p { 0 => PROT_READ | PROT_WRITE, 1 => PROT_READ, _ => PROT_NONE };
    mprotect((DATA + pg * PAGE) as *mut c_void, PAGE, pr);
}

unsafe fn step(uc: *mut ucontext_t) {
    let m = mem();
    if m.panicking {
        clear_tf(uc);
        return;
    }
    m.step += 1;
    if m.step > m.limit {
        clear_tf(uc);
        return;
    }
    compare(0, DLEN, "in flight");
    let at = [m.depth as u64, m.key, m.step];
    let mut act = [0u64; 4];
    if let Some(ev) = &m.explicit {
        if let Ok(k) = ev.binary_search_by(|x| x.at.cmp(&at)) {
            act = ev[k].act;
        }
    } else if m.nev < m.maxev {
        if m.pnest > 0 && m.depth == 0 && !m.nests.is_empty() && m.rng.chance(m.pnest, 1 << 20) {
            let k = m.rng.below(m.nests.len() as u64) as usize;
            act = [2, m.nests[k].id, 0, 0];
        } else if m.pprot > 0 && !m.protectable.is_empty() && m.rng.chance(m.pprot, 1 << 20) {
            let k = m.rng.below(m.protectable.len() as u64) as usize;
            act = [3, m.protectable[k] as u64, if m.rng.chance(2, 3) { 2 } else { 0 }, 0];
        } else if m.pwrite > 0 && m.rng.chance(m.pwrite, 1 << 20) {
            // another owner updates its bytes: usually right at the edge
            let len = 1 + m.rng.below(8) as usize;
            let off = if m.rng.chance(7, 8) && !m.keep.is_empty() {
                let k = m.rng.below(m.keep.len() as u64) as usize;
                let (a, b) = m.keep[k];
                let span = if m.rng.chance(1, 2) { 1 } else { 64 };
                let d = m.rng.below(span) as usize;
                if m.rng.chance(1, 2) { b + d } else { a.wrapping_sub(len + d) }
            } else {
                m.rng.below(DLEN as u64) as usize
            };
            act = [1, off as u64, len as u64, m.rng.next()];
        }
    }
    match act[0] {
        1 => {
            let (off, len) = (act[1] as usize, act[2] as usize);
            if off < DLEN && off + len <= DLEN {
                let mut v = act[3];
                let mut done = false;
                for i in off..off + len {
                    if m.prot[i / PAGE] == 0 && !inside(&m.keep, i) && !inside(&m.own, i) {
                        v = mix(v);
                        *((DATA + i) as *mut u8) = v as u8;
                        m.model[i] = v as u8;
                        done = true;
                    }
                }
                if done {
                    m.nev += 1;
                    sh().stats[8] += 1;
                    record(at, act);
                }
            }
        }
        2 => {
            if let Some(it) = m.nests.iter().find(|i| i.id == act[1]).cloned() {
                let t = tables();
                let s = t.slices.iter().find(|s| s.name.replace(' ', "_") == it.name.replace(' ', "_")).unwrap();
                let (off, b) = (it.n[1] as usize, s.bytes());
                let clash = (off..off + b).any(|i| inside(&m.keep, i) || inside(&m.own, i) || m.prot[i / PAGE] != 0);
                if !clash {
                    m.nev += 1;
                    bump("neighbour_lib_stores");
                    record(at, act);
                    let mut v = [0u8; 64];
                    fill(it.n[3] ^ m.step, &mut v);
                    (s.store)(1, v.as_ptr(), (DATA + off) as *mut u8, it.n[2] as usize);
                    m.model[off..off + b].copy_from_slice(&v[..b]);
                    compare(off.saturating_sub(64), (off + b + 64).min(DLEN), "after a neighbour's store");
                }
            }
        }
        3 => {
            let pg = act[1] as usize;
            if m.protectable.contains(&pg) {
                m.nev += 1;
                bump("unmaps");
                record(at, act);
                protect(pg, act[2] as u8);
            }
        }
        _ => {}
    }
}
fn fill(seed: u64, b: &mut [u8]) {
    let mut r = Rng::new(seed);
    for x in b.iter_mut() {
        *x = r.next() as u8;
    }
}

/// Lane values of a store: random, degenerate, special, or nearly what memory
/// already holds (a store that compares first must not be fooled).
fn values(seed: u64, esz: usize, old: &[u8], v: &mut [u8]) {
    fill(seed, v);
    let n = old.len();
    let mut r = Rng::new(seed ^ 0x76616c);
    let one = |r: &mut Rng, c: &mut [u8]| {
        let k = r.below(8);
        c.fill(if k == 1 { 0xff } else { 0 });
        match k {
            2 => c[0] = 1,
            3 => c[esz - 1] = 0x80,
            4 => {
                // a quiet NaN of the size
                c[esz - 1] = 0x7f;
                if esz > 1 {
                    c[esz - 2] = if esz == 4 { 0xc0 } else { 0xf8 };
                }
                c[0] = r.next() as u8;
            }
            5 => {
                c.fill(0xff);
                c[esz - 1] = 0x7f;
            }
            6 => c[0] = r.next() as u8,
            _ => {}
        }
    };
    match r.below(8) {
        0 => (0..n / esz).for_each(|l| one(&mut r, &mut v[l * esz..(l + 1) * esz])),
        1 => {
            one(&mut r, &mut v[..esz]);
            (1..n / esz).for_each(|l| v.copy_within(0..esz, l * esz));
        }
        2 => {
            v[..n].copy_from_slice(old);
            for _ in 0..r.below(3) {
                let l = r.below((n / esz) as u64) as usize;
                match r.below(3) {
                    0 => v[l * esz + esz - 1] ^= 0x80,
                    1 => v[l * esz] ^= 1,
                    _ => one(&mut r, &mut v[l * esz..(l + 1) * esz]),
                }
            }
        }
        _ => {}
    }
}

#[inline(never)]
unsafe fn stepped(f: &mut dyn FnMut()) {
    tf_on();
    f();
    tf_off();
}

unsafe fn pages(lo: usize, hi: usize) -> Vec<usize> {
    (lo / PAGE..=(hi.max(lo + 1) - 1) / PAGE).collect()
}

unsafe fn begin(it: &Item, own: Vec<(usize, usize)>, keep: Vec<(usize, usize)>, focus: usize) {
    let m = mem();
    m.key = it.id;
    m.step = 0;
    m.own = own;
    m.keep = keep;
    m.focus = focus;
    m.panicking = false;
    let mut used = vec![];
    for (a, b) in m.keep.iter().chain(m.own.iter()) {
        used.extend(pages(*a, *b));
    }
    m.protectable = (0..NPAGE).filter(|p| !used.contains(p)).collect();
}
unsafe fn end() {
    let m = mem();
    m.protectable.clear();
    m.own.clear();
    m.keep.clear();
    for pg in 0..NPAGE {
        if m.prot[pg] != 0 {
            protect(pg, 0);
        }
    }
    compare(0, DLEN, "after it finished");
}

pub fn exec(plan: &Plan) {
    unsafe {
        setup(plan);
        for it in &plan.items {
            mixsig(hash_str(&it.name) ^ hash_str(&it.kind) ^ it.n[0]);
            match it.kind.as_str() {
                "store" | "load" => slice_op(it),
                "gather" | "scatter" => gs_op(it),
                "rstore" | "rload" => reject_slice(it),
                "rextract" | "rreplace" => reject_index(it),
                _ => {}
            }
        }
        sh().stats[0] = TOTAL_STEPS;
    }
}

fn find_slice(it: &Item) -> &'static SliceTy {
    match tables().slices.iter().find(|s| s.name.replace(' ', "_") == it.name.replace(' ', "_")) {
        Some(s) => s,
        None => skip("unknown type"),
    }
}

unsafe fn slice_op(it: &Item) {
    let s = find_slice(it);
    let (kind, off, len) = (it.n[0] as u8, it.n[1] as usize, it.n[2] as usize);
    let b = s.bytes();
    let al = if kind % 2 == 0 { s.valign } else { s.ealign };
    if len < s.lanes || off + len * s.esz > DLEN || (DATA + off) % al != 0 {
        skip("not a valid call");
    }
    bump("calls");
    if off == 0 || off + len * s.esz == DLEN {
        bump("guard_flush");
    }
    if off / PAGE != (off + b - 1) / PAGE {
        bump("page_cross");
    }
    if off % s.valign != 0 {
        bump("unaligned");
    }
    let p = (DATA + off) as *mut u8;
    let end_ = off + len * s.esz;
    let prop = mem().prop.clone();
    if it.n[3] % 5 == 0 {
        // the memory itself holds degenerate values
        let mut old = [0u8; 64];
        values(it.n[3] ^ 99, s.esz, &[0x55; 64][..b], &mut old);
        std::ptr::copy_nonoverlapping(old.as_ptr(), p, b);
        mem().model[off..off + b].copy_from_slice(&old[..b]);
    }
    if it.kind == "store" {
        let mut v = [0u8; 64];
        values(it.n[3], s.esz, &mem().model[off..off + b].to_vec(), &mut v);
        begin(it, vec![(off, off + b)], vec![(off, end_)], off);
        let r = catch_unwind(AssertUnwindSafe(|| {
            stepped(&mut || (s.store)(kind, v.as_ptr(), p, len));
        }));
        if r.is_err() {
            violate(&prop, "unexpected-panic", &format!("{} kind {} refused a valid slice (offset {:#x} len {})", it.name, kind, off, len));
        }
        let m = mem();
        m.model[off..off + b].copy_from_slice(&v[..b]);
        m.own.clear();
        let got = std::slice::from_raw_parts(p, b);
        if got != &v[..b] {
            violate(&prop, "lanes-not-stored", &format!("{} kind {} offset {:#x} len {}: memory holds {:02x?}, vector was {:02x?}", it.name, kind, off, len, got, &v[..b]));
        }
        end();
    } else {
        begin(it, vec![], vec![(off, end_)], off);
        if it.n[4] != 0 {
            bump("readonly_maps");
            for pg in pages(off, end_) {
                protect(pg, 1);
            }
        }
        let mut out = [0u8; 128];
        fill(it.n[3], &mut out);
        let pat = out;
        let o = out.as_mut_ptr();
        let r = catch_unwind(AssertUnwindSafe(|| {
            stepped(&mut || (s.load)(kind, p, len, o.add(32)));
        }));
        if r.is_err() {
            violate(&prop, "unexpected-panic", &format!("{} kind {} refused a valid slice (offset {:#x} len {})", it.name, kind, off, len));
        }
        let m = mem();
        if out[32..32 + b] != m.model[off..off + b] {
            violate(&prop, "wrong-lanes", &format!("{} kind {} offset {:#x} len {}: loaded {:02x?}, memory holds {:02x?}", it.name, kind, off, len, &out[32..32 + b], &m.model[off..off + b]));
        }
        if out[..32] != pat[..32] || out[32 + b..] != pat[32 + b..] {
            violate(&prop, "result-overrun", &format!("{}: bytes around the result changed", it.name));
        }
        end();
    }
}

unsafe fn gs_op(it: &Item) {
    let g = match tables().gs.iter().find(|g| format!("{}:{}", g.name, g.mask) == it.name) {
        Some(g) => g,
        None => skip("unknown type"),
    };
    bump("calls");
    let bits = it.n[1];
    let n = g.lanes;
    let prop = mem().prop.clone();
    let mut ptrs = [0u64; 8];
    let mut mask = [0u8; 128];
    let mut keep = vec![];
    let mut focus = 0;
    for l in 0..n {
        let c = it.n[3 + l];
        let a = lane_addr(c);
        ptrs[l] = a as u64;
        let on = bits >> l & 1 == 1;
        if on {
            if c >> 40 != 0 || c as usize + g.esz > DLEN || a % g.ealign != 0 {
                skip("not a valid call");
            }
            for k in 0..g.msz {
                mask[l * g.msz + k] = 0xff;
            }
            let o = c as usize;
            if inside(&keep, o) {
                bump("overlap_lanes");
            }
            keep.push((o, o + g.esz));
            focus = o;
        } else if c >> 40 != 0 {
            bump("masked_dangling");
        } else if focus == 0 {
            focus = c as usize;
        }
    }
    // partially overlapping lanes would be misaligned accesses: not generated
    match bits {
        0 => bump("empty_mask"),
        b if b == (1u64 << n) - 1 => bump("full_mask"),
        _ => bump("partial_mask"),
    }
    let mut val = [0u8; 128];
    let mut old = vec![0x33u8; n * g.esz];
    for l in 0..n {
        if bits >> l & 1 == 1 {
            let o = it.n[3 + l] as usize;
            old[l * g.esz..(l + 1) * g.esz].copy_from_slice(&mem().model[o..o + g.esz]);
        }
    }
    values(it.n[2], g.esz, &old, &mut val);
    let pp = ptrs.as_ptr() as *const u8;
    if it.kind == "gather" {
        begin(it, vec![], keep.clone(), focus);
        let pages_used: Vec<usize> = keep.iter().flat_map(|k| pages(k.0, k.1)).collect();
        if it.n[2] % 2 == 0 {
            bump("readonly_maps");
            for pg in pages_used {
                protect(pg, 1);
            }
        }
        let mut out = [0u8; 256];
        fill(!it.n[2], &mut out);
        let pat = out;
        let o = out.as_mut_ptr();
        let f = if it.n[0] == 0 { g.read_c } else { g.read_m };
        let r = catch_unwind(AssertUnwindSafe(|| {
            stepped(&mut || f(pp, mask.as_ptr(), val.as_ptr(), o.add(64)));
        }));
        if r.is_err() {
            violate(&prop, "unexpected-panic", &format!("{} gather panicked", it.name));
        }
        let m = mem();
        let mut want = [0u8; 128];
        for l in 0..n {
            let w = &mut want[l * g.esz..(l + 1) * g.esz];
            if bits >> l & 1 == 1 {
                let o = it.n[3 + l] as usize;
                w.copy_from_slice(&m.model[o..o + g.esz]);
            } else {
                w.copy_from_slice(&val[l * g.esz..(l + 1) * g.esz]);
            }
        }
        let b = n * g.esz;
        if out[64..64 + b] != want[..b] {
            violate(&prop, "wrong-lanes", &format!("{} gather mask {:#b} lanes {:x?}: got {:02x?}, want {:02x?}", it.name, bits, &it.n[3..], &out[64..64 + b], &want[..b]));
        }
        if out[..64] != pat[..64] || out[64 + b..] != pat[64 + b..] {
            violate(&prop, "result-overrun", &format!("{}: bytes around the result changed", it.name));
        }
        end();
    } else {
        begin(it, keep.clone(), keep.clone(), focus);
        let r = catch_unwind(AssertUnwindSafe(|| {
            stepped(&mut || (g.write)(pp, mask.as_ptr(), val.as_ptr()));
        }));
        if r.is_err() {
            violate(&prop, "unexpected-panic", &format!("{} scatter panicked", it.name));
        }
        let m = mem();
        for l in 0..n {
            if bits >> l & 1 == 1 {
                let o = it.n[3 + l] as usize;
                m.model[o..o + g.esz].copy_from_slice(&val[l * g.esz..(l + 1) * g.esz]);
            }
        }
        for (a, b) in keep {
            let got = std::slice::from_raw_parts((DATA + a) as *const u8, b - a);
            if got != &m.model[a..b] {
                violate(&prop, "wrong-element", &format!("{} scatter mask {:#b} lanes {:x?}: element at {:#x} is {:02x?}, want {:02x?}", it.name, bits, &it.n[3..], a, got, &m.model[a..b]));
            }
        }
        end();
    }
}

unsafe fn reject_slice(it: &Item) {
    let s = find_slice(it);
    let (kind, off, len) = (it.n[0] as u8, it.n[1] as usize, it.n[2] as usize);
    if off + len * s.esz > DLEN || (DATA + off) % s.ealign != 0 || kind > 1 {
        skip("not a valid call");
    }
    let short = len < s.lanes;
    let mis = kind == 0 && (DATA + off) % s.valign != 0;
    if !short && !mis {
        skip("a valid call");
    }
    bump("calls");
    if short {
        bump("short_slice");
    }
    if mis {
        bump("misaligned");
    }
    let p = (DATA + off) as *mut u8;
    let mut v = [0u8; 64];
    fill(it.n[3], &mut v);
    let mut out = [0u8; 128];
    fill(!it.n[3], &mut out);
    let pat = out;
    let o = out.as_mut_ptr();
    // nobody may write anything: no own range; the caller's slice must keep its value
    begin(it, vec![], vec![(off, off + len * s.esz)], off.min(DLEN - 1));
    if it.n[4] != 0 {
        // the caller's slice itself is inaccessible: a refused call must not look at it
        bump("unmaps");
        for pg in pages(off.min(DLEN - 1), (off + len * s.esz).max(1)) {
            if pg < NPAGE {
                protect(pg, 2);
            }
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        if it.kind == "rstore" {
            stepped(&mut || (s.store)(kind, v.as_ptr(), p, len));
        } else {
            stepped(&mut || (s.load)(kind, p, len, o.add(32)));
        }
    }));
    tf_off();
    let what = format!("{} {} kind {} offset {:#x} (vector alignment {}) len {} of {} lanes", it.name, it.kind, kind, off, s.valign, len, s.lanes);
    if r.is_ok() {
        violate("C08", "not-rejected", &format!("accepted an invalid call: {}", what));
    }
    bump("panics");
    if out != pat {
        violate("C08", "result-written", &format!("a rejected call wrote its result: {}", what));
    }
    end();
    // the library stays usable: a valid call right after
    bump("valid_after_reject");
    let ok = DATA + 2 * PAGE + 64 * (it.n[3] % 16) as usize;
    let r = catch_unwind(AssertUnwindSafe(|| {
        (s.store)(0, v.as_ptr(), ok as *mut u8, s.lanes);
        (s.load)(0, ok as *const u8, s.lanes, o.add(32));
    }));
    let b = s.bytes();
    let m = mem();
    m.model[ok - DATA..ok - DATA + b].copy_from_slice(&v[..b]);
    if r.is_err() || out[32..32 + b] != v[..b] {
        violate("C08", "unusable-after-reject", &format!("a valid call failed after a rejected one: {}", what));
    }
    compare(0, DLEN, "after a valid call following a rejection");
}

unsafe fn reject_index(it: &Item) {
    let x = match tables().index.iter().find(|x| x.name.replace(' ', "_") == it.name.replace(' ', "_")) {
        Some(x) => x,
        None => skip("unknown type"),
    };
    let idx = it.n[1] as usize;
    if idx < x.lanes {
        skip("a valid call");
    }
    bump("calls");
    bump("bad_index");
    let mut v = [0u8; 64];
    fill(it.n[3], &mut v);
    if x.mask {
        for l in 0..x.lanes {
            let on = it.n[3] >> (l % 60) & 1 == 1;
            for k in 0..x.esz {
                v[l * x.esz + k] = if on { 0xff } else { 0 };
            }
        }
    }
    let e = [(it.n[3] & 1) as u8; 16];
    let mut out = [0u8; 192];
    fill(!it.n[3], &mut out);
    let pat = out;
    let o = out.as_mut_ptr();
    begin(it, vec![], vec![], 0);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if it.kind == "rextract" {
            stepped(&mut || (x.extract)(v.as_ptr(), idx, o.add(64)));
        } else {
            stepped(&mut || (x.replace)(v.as_ptr(), idx, e.as_ptr(), o.add(64)));
        }
    }));
    tf_off();
    let what = format!("{} {} index {:#x} of {} lanes", it.name, it.kind, idx, x.lanes);
    if r.is_ok() {
        violate("C08", "not-rejected", &format!("accepted an invalid call: {}", what));
    }
    bump("panics");
    if out != pat {
        violate("C08", "result-written", &format!("a rejected call wrote its result: {}", what));
    }
    end();
    bump("valid_after_reject");
    let k = (it.n[3] % x.lanes as u64) as usize;
    let r = catch_unwind(AssertUnwindSafe(|| (x.replace)(v.as_ptr(), k, e.as_ptr(), o.add(64))));
    if r.is_err() {
        violate("C08", "unusable-after-reject", &format!("a valid call failed after a rejected one: {}", what));
    }
    for l in 0..x.lanes {
        let got = &out[64 + l * x.esz..64 + (l + 1) * x.esz];
        let good = if l != k {
            got == &v[l * x.esz..(l + 1) * x.esz]
        } else if x.mask {
            got.iter().all(|b| *b == if e[0] & 1 == 1 { 0xff } else { 0 })
        } else {
            got == &e[..x.esz]
        };
        if !good {
            violate("C08", "unusable-after-reject", &format!("a valid replace after a rejected call gave a wrong lane {}: {}", l, what));
        }
    }
}
