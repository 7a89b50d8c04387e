//! C09 (formatting into caller sinks), C10 (hashing into caller hashers) and
//! C11 (sums and products over caller iterators): the library calls back into
//! simulated callers that fail, unwind, re-enter the library or are preempted.
use libops::*;
use crate::plan::*;
use libops::rng::*;
use crate::run::*;
use crate::sys::*;
use libc::*;
use std::fmt::Write as _;
use std::hash::Hasher;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub struct Tables {
    pub fmt: Vec<FmtTy>,
    pub hash: Vec<HashTy>,
    pub fold: Vec<FoldTy>,
}
static mut TABLES: Option<Tables> = None;
fn tables() -> &'static Tables {
    unsafe { TABLES.as_ref().unwrap() }
}
pub unsafe fn init() {
    let mut t = Tables { fmt: vec![], hash: vec![], fold: vec![] };
    all_fmt(&mut t.fmt);
    all_hash(&mut t.hash);
    all_fold(&mut t.fold);
    TABLES = Some(t);
}

const CAP: usize = 24 << 10;
const MAXSEQ: usize = 320;
/// One record per (task, depth): what the simulated caller has seen so far.
/// All in fixed memory: a callback never allocates.
#[repr(C)]
struct Rec {
    buf: [u8; CAP],
    len: usize,
    calls: u64,
    failed: u8, // 1 returned an error, 2 panicked
    want: [u8; CAP],
    wlen: usize,
    seq: [usize; MAXSEQ],
    nseq: usize,
    pos: usize,
    ended: bool,
    fused: bool,
    vec: [u8; 64],
    items: [u8; 64 * 32],
    clean: bool,
    tf_at: u64,
    fault_at: u64,
}
struct Sim {
    prop: String,
    rng: Rng,
    explicit: Option<Vec<Ev>>,
    pcb: u64,
    one: bool,
    pstep: u64,
    lists: Vec<Vec<Item>>,
    nests: Vec<Item>,
    depth: [usize; MAX_TASKS],
    key: [[u64; 2]; MAX_TASKS],
    step: [[u64; 2]; MAX_TASKS],
    in_cb: [bool; MAX_TASKS],
    off: [bool; MAX_TASKS],
    tfon: [bool; MAX_TASKS],
    nested: u64,
    faults: u64,
    use_tf: bool,
}
static mut SIM: Option<Sim> = None;
fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap() }
}
fn rec(t: usize, d: usize) -> &'static mut Rec {
    unsafe { &mut *((BUFS + (t * 2 + d) * ((std::mem::size_of::<Rec>() + 4095) & !4095)) as *mut Rec) }
}
struct Boom;

// item numbers: [task, style/kind, width, precision, data seed, count, hint, tail, tf_at]
pub fn gen(prop: &str, seed: u64, i: u64, _dbg: bool) -> Plan {
    let mut r = Rng::new(seed ^ mix(i) ^ hash_str(prop));
    let mut p = Plan { prop: prop.into(), ..Plan::default() };
    p.set("eseed", r.next());
    let nt = match r.below(4) { 0 | 1 => 1, 2 => 2, _ => 3 };
    let quiet = r.chance(1, 8);
    p.set("pcb", if quiet { 0 } else { (1 << 20) / (2 << r.below(6)) });
    // instead: exactly one fault, at a callback chosen uniformly
    p.set("one", (!quiet && r.chance(1, 3)) as u64);
    let tf = r.chance(1, 3);
    p.set("tf", tf as u64);
    p.set("pstep", if tf { (1 << 20) / (8 << r.below(7)) } else { 0 });
    let t = tables();
    let mut id = 0;
    let mut mk = |p: &mut Plan, r: &mut Rng, task: u64, kind: &str, first: bool| {
        let shared = r.chance(1, 3);
        let dseed = if shared { mix(i ^ seed) } else { r.next() };
        let tf_at = if r.chance(1, 2) { 0 } else { r.below(40) };
        let (name, style, cnt) = match prop {
            "C09" => {
                let x = if first { &t.fmt[(i % t.fmt.len() as u64) as usize] } else { r.pick(&t.fmt) };
                let st = if first { (i / t.fmt.len() as u64) % x.nstyles as u64 } else { r.below(x.nstyles as u64) };
                (x.name, st, 0)
            }
            "C10" => {
                let x = if first { &t.hash[(i % t.hash.len() as u64) as usize] } else { r.pick(&t.hash) };
                (x.name, 0, 0)
            }
            _ => {
                let x = if first { &t.fold[(i % t.fold.len() as u64) as usize] } else { r.pick(&t.fold) };
                let st = if first { (i / t.fold.len() as u64) % 4 } else { r.below(4) };
                let c = match r.below(5) { 0 => r.below(2), 1 => 2 + r.below(2), 2 => 4 + r.below(5), 3 if r.chance(1, 3) => r.below(300), _ => r.below(40) };
                (x.name, st, c)
            }
        };
        let width = if r.chance(1, 8) { r.below(120) } else { r.below(20) };
        let prec = if r.chance(1, 8) { r.below(40) } else { r.below(8) };
        let n = vec![task, style, width, prec, dseed, cnt, r.below(8), r.below(3), tf_at, r.next() >> 32];
        p.items.push(Item { id, kind: kind.into(), name: name.into(), n });
        id += 1;
    };
    for task in 0..nt {
        for k in 0..1 + r.below(3) {
            mk(&mut p, &mut r, task, "call", task == 0 && k == 0);
        }
    }
    for _ in 0..r.below(3) {
        mk(&mut p, &mut r, 0, "nest", false);
    }
    p
}

pub fn exec(plan: &Plan) {
    unsafe {
        SIM = Some(Sim {
            prop: plan.prop.clone(),
            rng: Rng::new(plan.h("eseed")),
            explicit: plan.events.clone().map(|mut e| {
                e.sort_by_key(|x| x.at);
                e
            }),
            pcb: plan.h("pcb"),
            one: plan.h("one") != 0,
            pstep: plan.h("pstep"),
            lists: vec![vec![]; MAX_TASKS],
            nests: vec![],
            depth: [0; MAX_TASKS],
            key: [[0; 2]; MAX_TASKS],
            step: [[0; 2]; MAX_TASKS],
            in_cb: [true; MAX_TASKS],
            off: [true; MAX_TASKS],
            tfon: [false; MAX_TASKS],
            nested: 0,
            faults: 0,
            use_tf: plan.h("tf") != 0,
        });
        for it in &plan.items {
            mixsig(hash_str(&it.name) ^ hash_str(&it.kind) ^ it.n[0] ^ it.n[1] << 8);
            if it.kind == "nest" {
                sim().nests.push(it.clone());
            } else {
                sim().lists[it.n[0] as usize % MAX_TASKS].push(it.clone());
            }
        }
        let nt = MAX_TASKS - sim().lists.iter().rev().take_while(|c| c.is_empty()).count();
        install_step(step);
        run_tasks(nt.max(1), task);
        sh().stats[0] = TOTAL_STEPS;
        sh().stats[1] = SWITCHES;
    }
}
fn task(t: usize) {
    let n = sim().lists[t].len();
    for k in 0..n {
        let it = &sim().lists[t][k] as *const Item;
        unsafe { call(t, 0, &*it) }
    }
}

unsafe fn find_ev(at: [u64; 3]) -> Option<[u64; 4]> {
    let s = sim();
    let ev = s.explicit.as_ref().unwrap();
    ev.binary_search_by(|x| x.at.cmp(&at)).ok().map(|k| ev[k].act)
}

/// One instruction of library code has been executed by the current task.
unsafe fn step(uc: *mut ucontext_t) {
    let s = sim();
    let t = cur_task();
    if s.off[t] {
        clear_tf(uc);
        return;
    }
    if s.in_cb[t] {
        return;
    }
    let d = s.depth[t];
    s.step[t][d] += 1;
    let st = s.step[t][d];
    if st > 30_000 {
        s.tfon[t] = false;
        clear_tf(uc);
        return;
    }
    let at = [(t * 4 + d * 2 + 1) as u64, s.key[t][d], st];
    let mut act = [0u64; 4];
    if s.explicit.is_some() {
        if let Some(a) = find_ev(at) {
            act = a;
        }
    } else if s.rng.chance(s.pstep, 1 << 20) {
        if d == 0 && !s.nests.is_empty() && s.nested < 30 && s.rng.chance(1, 2) {
            act = [3, s.nests[s.rng.below(s.nests.len() as u64) as usize].id, 0, 0];
        } else if SWITCHES < 300 {
            act = [4, s.rng.below(NTASKS as u64), 0, 0];
        }
    }
    if act[0] != 0 {
        act_common(t, d, at, act);
    }
}
unsafe fn act_common(t: usize, d: usize, at: [u64; 3], act: [u64; 4]) {
    let s = sim();
    match act[0] {
        3 => {
            if d == 0 {
                if let Some(k) = s.nests.iter().position(|x| x.id == act[1]) {
                    record(at, act);
                    s.nested += 1;
                    bump("sink_reentry");
                    let it = &s.nests[k] as *const Item;
                    let (cb, off, tfon) = (s.in_cb[t], s.off[t], s.tfon[t]);
                    call(t, 1, &*it);
                    s.in_cb[t] = cb;
                    s.off[t] = off;
                    s.tfon[t] = tfon;
                    s.depth[t] = 0;
                }
            }
        }
        4 => {
            let u = act[1] as usize;
            if u != t && u < NTASKS && !DONE[u] {
                record(at, act);
                switch_to(u);
            }
        }
        _ => {}
    }
}

/// The library has called back: decide what this caller does.  0 go on,
/// 1 fail, 2 unwind.
unsafe fn callback(t: usize, d: usize, can_fail: bool) -> [u64; 4] {
    let s = sim();
    let r = rec(t, d);
    let at = [(t * 4 + d * 2) as u64, s.key[t][d], r.calls];
    bump("sink_calls");
    let mut act = [0u64; 4];
    if r.clean {
        // the verification pass after a fault: no faults
    } else if s.explicit.is_some() {
        if let Some(a) = find_ev(at) {
            act = a;
        }
    } else if s.one {
        if r.calls == r.fault_at {
            act = [if can_fail && s.rng.chance(2, 3) { 1 } else { 2 }, s.rng.next() % 64, 0, 0];
        }
    } else if s.rng.chance(s.pcb, 1 << 20) {
        let k = s.rng.below(8);
        act = if k < 2 && can_fail {
            [1, s.rng.next() % 64, 0, 0]
        } else if k < 3 {
            [2, 0, 0, 0]
        } else if k < 6 && d == 0 && !s.nests.is_empty() && s.nested < 30 {
            [3, s.nests[s.rng.below(s.nests.len() as u64) as usize].id, 0, 0]
        } else if SWITCHES < 300 {
            [4, s.rng.below(NTASKS as u64), 0, 0]
        } else {
            act
        };
    }
    match act[0] {
        1 | 2 => {
            record(at, act);
            s.faults += 1;
        }
        0 => {}
        _ => {
            if act[0] == 4 {
                bump("preempt_in_callback");
            }
            act_common(t, d, at, act);
        }
    }
    act
}
unsafe fn enter(t: usize, d: usize) {
    tf_off(); // the caller's own code is not stepped
    let s = sim();
    s.in_cb[t] = true;
    let r = rec(t, d);
    if r.failed != 0 {
        s.off[t] = true;
        violate(&s.prop.clone(), "called-after-failure", &format!(
            "the library called the caller again (callback {}) after it had {}", r.calls,
            if r.failed == 1 { "returned an error" } else { "unwound" }));
    }
    r.calls += 1;
}
unsafe fn leave(t: usize, d: usize) {
    let s = sim();
    let r = rec(t, d);
    if s.use_tf && !s.off[t] && r.tf_at > 0 && r.calls == r.tf_at {
        s.tfon[t] = true;
    }
    s.in_cb[t] = false;
    if s.tfon[t] && !s.off[t] {
        tf_on();
    }
}
unsafe fn boom(t: usize, d: usize) -> ! {
    sim().off[t] = true;
    rec(t, d).failed = 2;
    tf_off();
    resume_unwind(Box::new(Boom))
}
unsafe fn take(t: usize, d: usize, b: &[u8]) {
    let r = rec(t, d);
    if r.len + b.len() > CAP {
        sim().off[t] = true;
        violate(&sim().prop.clone(), "endless-output", "the library keeps writing beyond any valid output");
    }
    r.buf[r.len..r.len + b.len()].copy_from_slice(b);
    r.len += b.len();
}

struct Sink {
    t: usize,
    d: usize,
}
impl std::fmt::Write for Sink {
    #[inline(never)]
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        unsafe {
            let (t, d) = (self.t, self.d);
            enter(t, d);
            let a = callback(t, d, true);
            match a[0] {
                1 => {
                    // a short write: some bytes arrive, then the error
                    let n = (a[1] as usize).min(x.len().saturating_sub(1));
                    take(t, d, &x.as_bytes()[..n]);
                    bump("sink_errors");
                    rec(t, d).failed = 1;
                    leave(t, d);
                    Err(std::fmt::Error)
                }
                2 => {
                    bump("sink_panics");
                    boom(t, d)
                }
                _ => {
                    take(t, d, x.as_bytes());
                    leave(t, d);
                    Ok(())
                }
            }
        }
    }
}
impl Hasher for Sink {
    fn finish(&self) -> u64 {
        0
    }
    #[inline(never)]
    fn write(&mut self, b: &[u8]) {
        unsafe {
            let (t, d) = (self.t, self.d);
            enter(t, d);
            if callback(t, d, false)[0] == 2 {
                bump("hash_panics");
                boom(t, d);
            }
            take(t, d, b);
            leave(t, d);
        }
    }
}
struct Plain {
    p: *mut u8,
    n: usize,
}
impl std::fmt::Write for Plain {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        if self.n + x.len() > CAP {
            die("a reference text is too long");
        }
        unsafe { std::ptr::copy_nonoverlapping(x.as_ptr(), self.p.add(self.n), x.len()) }
        self.n += x.len();
        Ok(())
    }
}
impl Hasher for Plain {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        if self.n + b.len() > CAP {
            die("a reference stream is too long");
        }
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(self.n), b.len()) }
        self.n += b.len();
    }
}

fn lanes(seed: u64, kind: u8, esz: usize, out: &mut [u8]) {
    let mut r = Rng::new(seed);
    let n = out.len() / esz;
    let same = r.chance(1, 6);
    let s0 = r.next();
    for l in 0..n {
        let mut q = if same { Rng::new(s0) } else { r.clone() };
        r.next();
        let c = &mut out[l * esz..(l + 1) * esz];
        match kind {
            2 => {
                let on = q.chance(1, 2);
                for b in c.iter_mut() {
                    *b = if on { 0xff } else { 0 };
                }
            }
            1 => {
                if esz == 4 {
                    let f = special(&mut q) as f32;
                    c.copy_from_slice(&f.to_bits().to_le_bytes());
                } else {
                    c.copy_from_slice(&special(&mut q).to_bits().to_le_bytes());
                }
            }
            _ => {
                let style = q.below(6);
                for (k, b) in c.iter_mut().enumerate() {
                    *b = match style {
                        0 => 0,
                        1 => 0xff,
                        2 => if k == 0 { q.next() as u8 & 15 } else { 0 },
                        3 => if k + 1 == esz { 0x80 } else { 0 },
                        _ => q.next() as u8,
                    };
                }
            }
        }
    }
}
fn special(q: &mut Rng) -> f64 {
    match q.below(14) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::NAN,
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => 1.0,
        6 => -1.5,
        7 => 1e30,
        8 => f64::MIN_POSITIVE,
        9 => 0.1,
        10 => (q.next() as i64) as f64,
        11 => 1e-5 * q.below(100000) as f64,
        12 => 16777217.0 * q.below(9) as f64,
        _ => (q.below(2000) as f64 - 1000.0) / 8.0,
    }
}

#[inline(never)]
unsafe fn guarded(t: usize, d: usize, f: &mut dyn FnMut()) -> bool {
    let s = sim();
    s.step[t][d] = 0;
    let tf = s.use_tf && d == 0 && rec(t, d).tf_at == 0 && !rec(t, d).clean;
    s.tfon[t] = tf;
    s.off[t] = !s.use_tf || d != 0 || rec(t, d).clean;
    let r = catch_unwind(AssertUnwindSafe(|| {
        s.in_cb[t] = false;
        if tf {
            tf_on();
        }
        f();
        tf_off();
    }));
    s.off[t] = true;
    s.in_cb[t] = true;
    match r {
        Ok(()) => false,
        Err(e) => {
            if !e.is::<Boom>() || rec(t, d).failed != 2 {
                violate(&s.prop.clone(), "unexpected-panic", "the library itself panicked");
            }
            std::mem::forget(e);
            true
        }
    }
}

unsafe fn call(t: usize, d: usize, it: &Item) {
    let s = sim();
    s.depth[t] = d;
    s.key[t][d] = if d == 0 { it.id } else { (s.key[t][0] + 1) << 40 | rec(t, 0).calls << 20 | s.step[t][0] };
    bump("calls");
    attempt(t, d, it, false);
    if d == 0 && rec(t, d).failed != 0 {
        // a failing caller leaves no trace: the same call again must succeed
        bump("valid_after_reject");
        attempt(t, d, it, true);
    }
}

unsafe fn attempt(t: usize, d: usize, it: &Item, clean: bool) {
    let r = rec(t, d);
    r.len = 0;
    r.calls = 0;
    r.failed = 0;
    r.clean = clean;
    r.tf_at = it.n[8];
    // n[9] is a fraction of the expected number of callbacks
    let expect = match sim().prop.as_str() {
        "C09" => 4 + 3 * tables().fmt.iter().find(|x| x.name == it.name).map_or(0, |x| x.lanes as u64),
        "C10" => 4,
        _ => it.n[5] + 2,
    };
    r.fault_at = if d == 0 { 1 + it.n[9] % expect } else { 0 };
    r.wlen = 0;
    match sim().prop.as_str() {
        "C09" => fmt_call(t, d, it),
        "C10" => hash_call(t, d, it),
        _ => fold_call(t, d, it),
    }
    r.clean = false;
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(600)]).into_owned()
}

unsafe fn fmt_call(t: usize, d: usize, it: &Item) {
    let x = match tables().fmt.iter().find(|x| x.name == it.name) {
        Some(x) => x,
        None => skip("unknown type"),
    };
    let r = rec(t, d);
    let (style, w, p) = (it.n[1] as u8 % x.nstyles, it.n[2] as usize, it.n[3] as usize);
    lanes(it.n[4], x.kind, x.vsz / x.lanes, &mut r.vec[..x.vsz]);
    let v = r.vec.as_ptr();
    let mut pl = Plain { p: r.want.as_mut_ptr(), n: 0 };
    let _ = write!(pl, "{}(", x.name);
    for k in 0..x.lanes {
        if k > 0 {
            let _ = pl.write_str(", ");
        }
        if (x.lane)(style, v, k, &mut pl, w, p).is_err() {
            die("a reference failed");
        }
    }
    let _ = pl.write_str(")");
    r.wlen = pl.n;
    let mut res = Ok(());
    let mut sink = Sink { t, d };
    let unwound = guarded(t, d, &mut || res = (x.fmt)(style, v, &mut sink, w, p));
    let r = rec(t, d);
    let (got, want) = (&r.buf[..r.len], &r.want[..r.wlen]);
    let what = format!("{} style {} width {} precision {}", it.name, style, w, p);
    match r.failed {
        0 => {
            if res.is_err() {
                violate("C09", "spurious-error", &format!("{}: formatting failed although the sink accepted everything", what));
            }
            if got != want {
                violate("C09", "wrong-text", &format!("{}: sink received {:?}, lanes read {:?}", what, text(got), text(want)));
            }
        }
        1 => {
            if res.is_ok() {
                violate("C09", "swallowed-error", &format!("{}: the sink failed at write {} but formatting reported success", what, r.calls));
            }
            if !want.starts_with(got) {
                violate("C09", "not-a-prefix", &format!("{}: before its error the sink received {:?}, not a prefix of {:?}", what, text(got), text(want)));
            }
        }
        _ => {
            if !unwound {
                violate("C09", "swallowed-panic", &format!("{}: the sink's panic did not reach the caller", what));
            }
            if !want.starts_with(got) {
                violate("C09", "not-a-prefix", &format!("{}: before its panic the sink received {:?}, not a prefix of {:?}", what, text(got), text(want)));
            }
        }
    }
}

unsafe fn hash_call(t: usize, d: usize, it: &Item) {
    let x = match tables().hash.iter().find(|x| x.name == it.name) {
        Some(x) => x,
        None => skip("unknown type"),
    };
    let r = rec(t, d);
    let kind = if x.name.starts_with('m') && !x.name.starts_with("mptr") { 2 } else { 0 };
    lanes(it.n[4], kind, x.vsz / x.lanes, &mut r.vec[..x.vsz]);
    let v = r.vec.as_ptr();
    let mut pl = Plain { p: r.want.as_mut_ptr(), n: 0 };
    (x.reference)(v, &mut pl);
    r.wlen = pl.n;
    let mut sink = Sink { t, d };
    let unwound = guarded(t, d, &mut || (x.hash)(v, &mut sink));
    let r = rec(t, d);
    let (got, want) = (&r.buf[..r.len], &r.want[..r.wlen]);
    if r.failed == 0 {
        if got != want {
            violate("C10", "wrong-stream", &format!("{}: hasher was fed {:02x?}, the array of lanes feeds {:02x?}", it.name, got, want));
        }
    } else {
        if !unwound {
            violate("C10", "swallowed-panic", &format!("{}: the hasher's panic did not reach the caller", it.name));
        }
        if !want.starts_with(got) {
            violate("C10", "not-a-prefix", &format!("{}: before its panic the hasher was fed {:02x?}, not a prefix of {:02x?}", it.name, got, want));
        }
    }
}

unsafe fn fold_call(t: usize, d: usize, it: &Item) {
    let x = match tables().fold.iter().find(|x| x.name == it.name) {
        Some(x) => x,
        None => skip("unknown type"),
    };
    let kind = it.n[1] as u8 % 4;
    let n = (it.n[5] as usize).min(MAXSEQ - 8);
    let r = rec(t, d);
    let pool = 1 + n.min(12);
    let al = r.items.as_mut_ptr();
    let al = al.add(al.align_offset(64)); // the items are vectors: aligned
    let buf = std::slice::from_raw_parts_mut(al, pool * x.vsz);
    lanes(it.n[4], if x.float { 1 } else { 0 }, x.esz, buf);
    let mut q = Rng::new(it.n[4] ^ 5);
    let tail = it.n[7] as usize; // items a non-fused iterator would give after its end
    r.nseq = n + tail;
    for k in 0..r.nseq {
        r.seq[k] = q.below(pool as u64) as usize;
    }
    r.pos = 0;
    r.ended = false;
    let hint = match it.n[6] {
        0 => (0, None),
        1 => (n, Some(n)),
        2 => (usize::MAX, None),
        3 => (0, Some(0)),
        4 => (n + 7, Some(n + 7)),
        5 => (0, Some(usize::MAX)),
        6 => (usize::MAX, Some(0)),
        _ => (n / 2, Some(n * 2)),
    };
    if it.n[6] > 1 && it.n[6] != 7 && it.n[6] != 5 {
        bump("iter_lying_hint");
    }
    if tail > 0 {
        bump("iter_nonfused");
    }
    let mut out = [0u8; 64];
    let mut want = [0u8; 64];
    let seq: [usize; MAXSEQ] = r.seq;
    (x.reference)(kind, al, &seq[..n], want.as_mut_ptr());
    let mut next = || -> Option<usize> {
        enter(t, d);
        if callback(t, d, false)[0] == 2 {
            bump("iter_panics");
            boom(t, d);
        }
        let r = rec(t, d);
        let res;
        if r.pos == n && !r.ended {
            r.ended = true;
            res = None;
        } else if r.pos >= r.nseq {
            r.ended = true;
            res = None;
        } else {
            if r.ended {
                sim().off[t] = true;
                violate("C11", "read-past-end", "an item after the iterator's end was consumed");
            }
            res = Some(r.seq[r.pos]);
            r.pos += 1;
        }
        leave(t, d);
        res
    };
    let what = format!("{} {} of {} items", it.name, ["sum", "sum by reference", "product", "product by reference"][kind as usize], n);
    let unwound = guarded(t, d, &mut || (x.fold)(kind, al, pool, &mut next, hint, out.as_mut_ptr()));
    let r = rec(t, d);
    if r.failed == 0 {
        if !r.ended || r.pos != n {
            violate("C11", "not-consumed", &format!("{}: stopped after {} items", what, r.pos));
        }
        if !(x.same)(out.as_ptr(), want.as_ptr()) {
            violate("C11", "wrong-result", &format!("{}: got {:02x?}, left-to-right fold gives {:02x?}", what, &out[..x.vsz], &want[..x.vsz]));
        }
    } else if !unwound {
        violate("C11", "swallowed-panic", &format!("{}: the iterator's panic did not reach the caller", what));
    }
}
