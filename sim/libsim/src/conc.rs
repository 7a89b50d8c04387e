//! C01 (independence), C02 (progress without resources), C03 (environment):
//! caller threads and signal handlers running real library operations,
//! preempted between any two machine instructions.
use libops::*;
use crate::plan::*;
use libops::rng::*;
use crate::run::*;
use crate::sys::*;
use libc::*;
use std::sync::atomic::{AtomicBool, Ordering::*};

pub static mut OPS: Vec<Op> = Vec::new();
pub fn ops() -> &'static [Op] {
    unsafe { &OPS }
}
static mut BY_NAME: Option<std::collections::BTreeMap<String, usize>> = None;
pub fn index_ops() {
    unsafe { BY_NAME = Some(ops().iter().enumerate().map(|(i, o)| (o.name(), i)).collect()) }
}
pub fn op_index(name: &str) -> Option<usize> {
    unsafe { BY_NAME.as_ref().and_then(|m| m.get(name).copied()) }
}

const ENTRY: usize = OUT_BYTES + 64; // len u64, steps u64, bytes
fn entry(i: usize) -> *mut u8 {
    (SHARED + SOLO_OFF + i * ENTRY) as *mut u8
}
const MAX_SOLO: usize = 400;

/// set while a library operation is executing (outside simulator code)
pub static IN_OP: AtomicBool = AtomicBool::new(false);
pub static mut WATCH_ALLOC: bool = false;

#[derive(Clone, Copy)]
struct Call {
    id: u64,
    op: usize,
    inp: usize,
    solo: usize,
    burst: u64,
    dirty: u64,
    mxcsr: u32,
    item: usize,
}
#[derive(Clone, Copy, Default)]
struct Frame {
    key: u64,
    step: u64,
    limit: u64,
}
struct Sim {
    prop: u8, // 1, 2, 3
    stepping: bool,
    nstep: bool,
    stall: bool,
    pnest: u64,
    pswitch: u64,
    rng: Rng,
    explicit: Option<Vec<Ev>>, // sorted by at
    calls: Vec<Vec<Call>>,
    nests: Vec<Call>,
    frame: [[Frame; 4]; MAX_TASKS],
    depth: [usize; MAX_TASKS],
    nested_done: u64,
    max_nested: u64,
    max_switch: u64,
    stalled: bool,
    variants: Vec<usize>, // operand blocks used by bursts
}
static mut SIM: Option<Sim> = None;
fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap() }
}

fn outbuf(task: usize, depth: usize) -> *mut u8 {
    (BUFS + (2 << 20) + (task * 4 + depth) * (OUT_BYTES + 256)) as *mut u8
}

pub fn gen(prop: &str, seed: u64, i: u64, heavy_build: bool) -> Plan {
    let n = ops().len() as u64;
    let mut r = Rng::new(seed ^ mix(i) ^ hash_str(prop));
    // walk all operations round-robin in a seed-dependent order
    let mut stride = 1 + mix(seed ^ 77) % (n - 1);
    while gcd(stride, n) != 1 {
        stride = 1 + stride % (n - 1);
    }
    let mut x = ((i % n) * stride + mix(seed) % n) % n;
    if prop == "C02" {
        // formatting runs to 10^5 instructions per call: keep it a minority
        while ops()[x as usize].heavy && r.chance(9, 10) {
            x = (x + stride) % n;
        }
    }
    let xo = &ops()[x as usize];
    let mut p = Plan { prop: prop.into(), ..Plan::default() };
    let round = i / n; // first round: dense nesting of every operation
    let mode = if prop == "C01" && round == 0 && !xo.heavy {
        0
    } else {
        match r.below(if prop == "C01" { 12 } else { 8 }) {
            7 if prop != "C01" => 4,
            10..=11 => 4,
            0..=1 => 0,
            2 => 1,
            3..=6 => 2,
            _ => 3,
        }
    };
    let base = r.next();
    p.set("mode", mode);
    p.set("eseed", r.next());
    let mxcsr = |r: &mut Rng| -> u64 {
        if prop == "C03" && r.chance(3, 4) {
            // rounding mode, FTZ, DAZ; exceptions stay masked
            (0x1f80 | (r.below(4) << 13) | (r.below(2) << 15) | (r.below(2) << 6)) as u64
        } else {
            0x1f80
        }
    };
    let pick_op = |r: &mut Rng| -> usize {
        match r.below(20) {
            0..=13 => x as usize,
            14..=15 => {
                // another operation of the same type
                let c: Vec<usize> = (0..ops().len()).filter(|k| ops()[*k].ty == xo.ty).collect();
                *r.pick(&c)
            }
            16..=18 => {
                // the same operation of another type
                let c: Vec<usize> = (0..ops().len()).filter(|k| ops()[*k].op == xo.op).collect();
                *r.pick(&c)
            }
            _ => r.below(n) as usize,
        }
    };
    let mut id = 0;
    let mut item = |p: &mut Plan, kind: &str, op: usize, nums: Vec<u64>| {
        p.items.push(Item { id, kind: kind.into(), name: ops()[op].name(), n: nums });
        id += 1;
    };
    // [task, base, variant, burst, dirty, mxcsr]
    match mode {
        0 | 1 => {
            let d = if r.chance(2, 3) { r.next() } else { 0 };
            let m = mxcsr(&mut r);
            item(&mut p, "call", x as usize, vec![0, base, 0, 0, d, m]);
            if r.chance(1, 3) {
                let o = pick_op(&mut r);
                let (v, m) = (r.below(4), mxcsr(&mut r));
                item(&mut p, "call", o, vec![0, base, v, 0, 0, m]);
            }
            for k in 0..1 + r.below(3) {
                let o = if k == 0 { x as usize } else { pick_op(&mut r) };
                let b = if r.chance(1, 4) { r.next() } else { base };
                let (v, m) = (r.below(4) + (k == 0) as u64, mxcsr(&mut r));
                item(&mut p, "nest", o, vec![0, b, v, 0, 0, m]);
            }
            p.set("pnest", if mode == 0 { 1 << 20 } else { (1 << 20) / (2 << r.below(6)) });
            p.set("nstep", (mode == 1 && r.chance(1, 3)) as u64);
            p.set("step", 1);
            p.set("maxnest", if mode == 0 { 3000 } else { 40 });
        }
        2 => {
            let nt = 2 + r.below(2);
            for t in 0..nt {
                for k in 0..1 + r.below(2) {
                    let o = if k == 0 && t < 2 { x as usize } else { pick_op(&mut r) };
                    let b = if r.chance(1, 5) { r.next() } else { base };
                    let v = r.below(4) + (t == 1) as u64;
                    let d = if r.chance(1, 3) { r.next() } else { 0 };
                    let m = mxcsr(&mut r);
                    item(&mut p, "call", o, vec![t, b, v, 0, d, m]);
                }
            }
            p.set("pswitch", (1 << 20) / (1 << r.below(7)));
            p.set("step", 1);
            p.set("maxswitch", 400);
        }
        4 => {
            // a long undisturbed history: groups of calls of one operation
            // whose operands differ in a few lanes
            p.set("perm", r.next());
            let groups = if prop == "C01" { 12 + r.below(30) } else { 30 + r.below(90) };
            for k in 0..groups {
                let o = match k {
                    0 => x as usize,
                    _ if r.chance(1, 4) => pick_op(&mut r),
                    _ if prop == "C02" && r.chance(1, 2) => {
                        let mut o = r.below(n) as usize;
                        while !ops()[o].heavy {
                            o = (o + 1) % n as usize;
                        }
                        o
                    }
                    _ => r.below(n) as usize,
                };
                let b = if r.chance(1, 2) { r.next() } else { base };
                let m = mxcsr(&mut r);
                if prop == "C01" {
                    for _ in 0..2 + r.below(if heavy_build { 6 } else { 12 }) {
                        let v = r.below(12);
                        let d = if r.chance(1, 4) { r.next() } else { 0 };
                        item(&mut p, "hist", o, vec![0, b, v, 1, d, m]);
                    }
                } else {
                    let c = if heavy_build { 6 } else { 24 };
                    let d = if r.chance(1, 4) { r.next() } else { 0 };
                    item(&mut p, "hist", o, vec![0, b, 0, c, d, m]);
                }
            }
        }
        _ => {
            let k = 4 + r.below(24);
            for _ in 0..k {
                let o = pick_op(&mut r);
                let b = if r.chance(1, 6) { r.next() } else { base };
                let heavy = ops()[o].heavy;
                let burst = if heavy {
                    r.below(8)
                } else if r.chance(1, 3) {
                    1 << r.below(if heavy_build { 9 } else { 12 })
                } else {
                    0
                };
                let burst = if !heavy && !heavy_build && r.chance(1, 200) { 70_000 } else { burst };
                let v = r.below(6);
                let d = if r.chance(1, 2) { r.next() } else { 0 };
                let m = mxcsr(&mut r);
                item(&mut p, "call", o, vec![0, b, v, burst, d, m]);
            }
        }
    }
    if prop == "C02" {
        p.set("nstep", 1);
        p.set("step", 1);
        if mode == 2 {
            p.set("stall", 1);
        }
        if mode == 0 {
            // nested operations are themselves stepped: bound their number
            p.set("maxnest", 60);
            p.set("pnest", (1 << 20) / (1 << r.below(5)));
        }
    }
    p
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

static mut SOLO_STEPS: u64 = 0;
unsafe fn solo_step(_uc: *mut ucontext_t) {
    SOLO_STEPS += 1;
    if SOLO_STEPS > 4_000_000 {
        violate("C02", "no-progress", "an operation run alone did not finish within 4000000 instructions");
    }
}

#[inline(never)]
unsafe fn call_native(op: &Op, inp: usize, o: &mut Out) {
    (op.f)(In(inp as *const u8), o);
}
#[inline(never)]
unsafe fn call_stepped(op: &Op, inp: usize, o: &mut Out) {
    let f = op.f;
    tf_on();
    f(In(inp as *const u8), o);
    tf_off();
}

/// Runs an operation alone in its own process: the reference.
unsafe fn solo(i: usize, op: &Op, inp: usize, stepped: bool) -> bool {
    let e = entry(i);
    bump("solo_runs");
    let pid = fork();
    if pid == 0 {
        alarm(if stepped { 60 } else { 5 });
        let mut o = Out { p: e.add(16), n: 0, tags: std::ptr::null_mut() };
        if stepped {
            install_step(solo_step);
            IN_OP.store(true, SeqCst);
            call_stepped(op, inp, &mut o);
            IN_OP.store(false, SeqCst);
        } else {
            call_native(op, inp, &mut o);
        }
        *(e as *mut u64) = o.n as u64;
        *(e.add(8) as *mut u64) = SOLO_STEPS;
        _exit(0);
    }
    if pid < 0 {
        die("fork failed");
    }
    let mut st = 0;
    while waitpid(pid, &mut st, 0) < 0 {}
    WIFEXITED(st) && WEXITSTATUS(st) == 0
}

const HIST_MAX: usize = 1024;
fn hist_slot(pass: usize, i: usize) -> *mut [u64; 2] {
    (SHARED + SOLO_OFF + (pass * HIST_MAX + i) * 16) as *mut [u64; 2]
}
fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
/// Runs the calls of a history at full speed, in the given order.
unsafe fn history(prop: u8, pass: usize, order: &[usize], calls: &[(usize, &Item)]) {
    let inp = BUFS;
    WATCH_ALLOC = prop == 2;
    for &k in order {
        let (op, it) = calls[k];
        let op = &ops()[op];
        if it.n[4] != 0 {
            bump("dirty_frames");
            dirty(it.n[4]);
        }
        for v in 0..it.n[3] {
            bump("calls");
            gen_operand(op, it.n[1], it.n[2] + v, &mut *(inp as *mut [u8; IN_BYTES]));
            let mut o = Out { p: outbuf(0, 0), n: 0, tags: std::ptr::null_mut() };
            let x0 = x87_env();
            set_mxcsr(it.n[5] as u32);
            let m0 = get_mxcsr();
            IN_OP.store(true, SeqCst);
            call_native(op, inp, &mut o);
            IN_OP.store(false, SeqCst);
            let m1 = get_mxcsr();
            set_mxcsr(0x1f80);
            if it.n[5] != 0x1f80 {
                bump("mxcsr_nondefault");
            }
            if prop == 3 {
                let x1 = x87_env();
                if m0 & !0x3f != m1 & !0x3f || x0 != x1 {
                    env_or_violate(&op.name(), (m0, x0), (m1, x1), "after the call");
                }
            }
            if prop == 1 {
                *hist_slot(pass, k) = [o.n as u64, digest(std::slice::from_raw_parts(o.p, o.n))];
            }
        }
    }
    WATCH_ALLOC = false;
}
/// The same calls in two fresh processes, in two orders: every call must give
/// the same result in both.
unsafe fn exec_history(plan: &Plan, prop: u8) {
    let mut calls = vec![];
    for it in plan.items.iter().filter(|x| x.kind == "hist") {
        match op_index(&it.name) {
            Some(k) => calls.push((k, it)),
            None => skip("unknown operation"),
        }
        mixsig(hash_str(&it.name) ^ it.n[1] ^ it.n[2]);
    }
    calls.truncate(HIST_MAX);
    if calls.is_empty() {
        skip("empty plan");
    }
    let first: Vec<usize> = (0..calls.len()).collect();
    bump("histories");
    if prop != 1 {
        return history(prop, 0, &first, &calls);
    }
    let mut second = first.clone();
    let perm = plan.h("perm");
    second.sort_by_key(|k| mix(perm ^ mix(calls[*k].1.id)));
    for (pass, order) in [(0, &first), (1, &second)] {
        for k in 0..calls.len() {
            *hist_slot(pass, k) = [u64::MAX; 2];
        }
        let pid = fork();
        if pid == 0 {
            alarm(60);
            history(prop, pass, order, &calls);
            _exit(0);
        }
        if pid < 0 {
            die("fork failed");
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if sh().status == 2 {
            _exit(0);
        }
        if !(WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            let k = order.iter().find(|k| *hist_slot(pass, **k) == [u64::MAX; 2]);
            let name = k.map_or("?".into(), |k| calls[*k].1.name.clone());
            violate("C01", "crash", &format!("{} ended the process in the middle of a history of calls", name));
        }
    }
    for k in 0..calls.len() {
        if *hist_slot(0, k) != *hist_slot(1, k) {
            violate(
                "C01",
                "wrong-result",
                &format!(
                    "{} (call {}): the same call on the same operands gives different results after different histories of {} other calls",
                    calls[k].1.name, calls[k].1.id, calls.len() - 1
                ),
            );
        }
    }
}

pub fn exec(plan: &Plan) {
    unsafe {
        let prop = plan.prop.as_bytes()[2] - b'0';
        if plan.h("mode") == 4 {
            return exec_history(plan, prop);
        }
        let mut s = Sim {
            prop,
            stepping: plan.h("step") != 0,
            nstep: plan.h("nstep") != 0,
            stall: plan.h("stall") != 0,
            pnest: plan.h("pnest"),
            pswitch: plan.h("pswitch"),
            rng: Rng::new(plan.h("eseed")),
            explicit: plan.events.clone().map(|mut e| {
                e.sort_by_key(|x| x.at);
                e
            }),
            calls: vec![vec![]; MAX_TASKS],
            nests: vec![],
            frame: Default::default(),
            depth: [0; MAX_TASKS],
            nested_done: 0,
            max_nested: plan.h("maxnest"),
            max_switch: plan.h("maxswitch"),
            stalled: false,
            variants: vec![],
        };
        // operands and references
        let mut seen: Vec<(usize, u64, u64, usize, usize)> = vec![];
        let mut nbuf = 0;
        for (ii, it) in plan.items.iter().enumerate() {
            let op = match op_index(&it.name) {
                Some(k) => k,
                None => skip("unknown operation"),
            };
            let (base, var) = (it.n[1], it.n[2]);
            let found = seen.iter().find(|x| x.0 == op && x.1 == base && x.2 == var).copied();
            let (inp, sl) = match found {
                Some(f) => (f.3, f.4),
                None => {
                    if seen.len() >= MAX_SOLO {
                        skip("too many operations");
                    }
                    // operand blocks at varying alignment
                    let off = (base ^ var) as usize % 64 & !0;
                    let addr = BUFS + nbuf * (IN_BYTES + 128) + off;
                    nbuf += 1;
                    let mut b = [0u8; IN_BYTES];
                    gen_operand(&ops()[op], base, var, &mut b);
                    std::ptr::copy_nonoverlapping(b.as_ptr(), addr as *mut u8, IN_BYTES);
                    let sl = seen.len();
                    if prop != 3 && !solo(sl, &ops()[op], addr, prop == 2) {
                        if sh().status == 2 {
                            _exit(0);
                        }
                        if prop == 2 {
                            violate("C02", "solo-crash", &format!("{} does not complete when run alone", it.name));
                        }
                        skip("an operation does not complete when run alone");
                    }
                    seen.push((op, base, var, addr, sl));
                    s.variants.push(addr);
                    (addr, sl)
                }
            };
            let c = Call {
                id: it.id,
                op,
                inp,
                solo: sl,
                burst: it.n[3],
                dirty: it.n[4],
                mxcsr: it.n[5] as u32,
                item: ii,
            };
            if it.kind == "nest" {
                s.nests.push(c);
            } else {
                s.calls[(it.n[0] as usize).min(MAX_TASKS - 1)].push(c);
            }
        }
        if s.explicit.is_none() && s.calls.iter().all(|c| c.is_empty()) {
            skip("empty plan");
        }
        let nt = MAX_TASKS - s.calls.iter().rev().take_while(|c| c.is_empty()).count();
        for (ii, it) in plan.items.iter().enumerate() {
            let _ = ii;
            mixsig(hash_str(&it.name) ^ it.n[0]);
        }
        SIM = Some(s);
        install_step(step);
        if prop == 2 {
            WATCH_ALLOC = true;
        }
        run_tasks(nt.max(1), task);
        WATCH_ALLOC = false;
        sh().stats[0] = TOTAL_STEPS;
        sh().stats[1] = SWITCHES;
    }
}

fn hex(p: *const u8, n: usize) -> String {
    (0..n.min(96)).map(|i| unsafe { format!("{:02x}", *p.add(i)) }).collect()
}

unsafe fn verify(c: &Call, o: &Out, how: &str) {
    let e = entry(c.solo);
    let n = *(e as *const u64) as usize;
    let got = std::slice::from_raw_parts(o.p, o.n);
    let want = std::slice::from_raw_parts(e.add(16), n);
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
        violate(
            "C01",
            "wrong-result",
            &format!(
                "{} ({}): result differs from the same operation run alone, first at output byte {}: got {} want {}",
                ops()[c.op].name(), how, at, hex(got[at..].as_ptr(), got.len() - at),
                hex(want[at..].as_ptr(), want.len().saturating_sub(at))
            ),
        );
    }
}

type Env = (u32, (u16, u16, bool));
unsafe fn check_env(c: &Call, before: Env, after: Env, how: &str) {
    env_or_violate(&ops()[c.op].name(), before, after, how)
}
unsafe fn env_or_violate(name: &str, before: Env, after: Env, how: &str) {
    // control bits only: the sticky exception flags (0x3f) may be raised
    if before.0 & !0x3f != after.0 & !0x3f || before.1 != after.1 {
        IN_OP.store(false, SeqCst);
        set_mxcsr(0x1f80);
        violate(
            "C03",
            "environment",
            &format!(
                "{} ({}): floating-point environment before: mxcsr={:#x} x87/df={:?}, after: mxcsr={:#x} x87/df={:?}",
                name, how, before.0, before.1, after.0, after.1
            ),
        );
    }
}

fn task(t: usize) {
    unsafe {
        let s = sim();
        for ci in 0..s.calls[t].len() {
            let c = s.calls[t][ci];
            let op = &ops()[c.op];
            bump("calls");
            if c.burst > 0 {
                bump("bursts");
                let mut o = Out { p: outbuf(t, 0), n: 0, tags: std::ptr::null_mut() };
                for k in 0..c.burst {
                    o.n = 0;
                    // operands of any type are plain bytes; only blocks made
                    // for the same element shape are valid for this operation
                    let v = s.calls[t][(k as usize) % s.calls[t].len()];
                    let inp = if v.op == c.op { v.inp } else { c.inp };
                    call_native(op, inp, &mut o);
                }
            }
            if c.dirty != 0 {
                bump("dirty_frames");
                dirty(c.dirty);
            }
            let mut o = Out { p: outbuf(t, 0), n: 0, tags: std::ptr::null_mut() };
            s.depth[t] = 0;
            s.frame[t][0] = Frame { key: c.id, step: 0, limit: limit(&c) };
            let x0 = x87_env();
            set_mxcsr(c.mxcsr);
            if c.mxcsr != 0x1f80 {
                bump("mxcsr_nondefault");
            }
            let m0 = get_mxcsr();
            IN_OP.store(true, SeqCst);
            if s.stepping {
                call_stepped(op, c.inp, &mut o);
            } else {
                call_native(op, c.inp, &mut o);
            }
            IN_OP.store(false, SeqCst);
            let m1 = get_mxcsr();
            set_mxcsr(0x1f80);
            let x1 = x87_env();
            if s.prop == 3 {
                check_env(&c, (m0, x0), (m1, x1), "after the call");
            }
            if s.prop == 1 {
                verify(&c, &o, &format!("task {} call {}", t, c.id));
            }
        }
    }
}

fn limit(c: &Call) -> u64 {
    if sim().prop != 2 {
        return u64::MAX;
    }
    unsafe { 30_000 + 20 * *(entry(c.solo).add(8) as *const u64) }
}

/// One instruction of the current task has been executed.
unsafe fn step(uc: *mut ucontext_t) {
    let s = sim();
    let was = IN_OP.swap(false, SeqCst);
    let t = cur_task();
    let d = s.depth[t];
    let key = s.frame[t][d].key;
    s.frame[t][d].step += 1;
    let st = s.frame[t][d].step;
    if s.prop != 2 && TOTAL_STEPS > if d > 0 { 300_000 } else { 600_000 } {
        // bounded runs: finish at full speed
        clear_tf(uc);
        IN_OP.store(was, SeqCst);
        return;
    }
    if s.prop == 2 {
        if st > s.frame[t][d].limit {
            violate(
                "C02",
                "no-progress",
                &format!(
                    "task {} (depth {}): an operation did not finish within {} of its own instructions (20x + 30000 of a solo run) while {}",
                    t, d, s.frame[t][d].limit,
                    if d > 0 { "the operation it interrupted was suspended" } else { "other tasks were suspended" }
                ),
            );
        }
        let rip = (*uc).uc_mcontext.gregs[GREG_RIP] as *const u8;
        let r = rip as usize;
        if r == malloc as usize || r == calloc as usize || r == realloc as usize || r == posix_memalign as usize {
            violate("C02", "heap", "an operation allocates heap memory");
        }
        let (b0, b1) = (*rip, *rip.add(1));
        if (b0 == 0x0f && (b1 == 0x05 || b1 == 0x34)) || (b0 == 0xcd && b1 == 0x80) {
            violate("C02", "syscall", "an operation calls into the operating system");
        }
    }
    let at = [(t * 16 + d) as u64, key, st];
    let mut act = [0u64; 4];
    if let Some(ev) = &s.explicit {
        if let Ok(k) = ev.binary_search_by(|x| x.at.cmp(&at)) {
            act = ev[k].act;
            record(at, act);
        }
    } else if TOTAL_STEPS < 600_000 && (d == 0 || s.rng.chance(1, 8)) {
        if s.pnest > 0 && !s.nests.is_empty() && d < 2 && s.nested_done < s.max_nested && s.rng.chance(s.pnest, 1 << 20) {
            act = [1, s.rng.below(s.nests.len() as u64), 0, 0];
            act[2] = s.nests[act[1] as usize].id;
        } else if s.pswitch > 0 && SWITCHES < s.max_switch && !s.stalled && s.rng.chance(s.pswitch, 1 << 20) {
            let u = s.rng.below(NTASKS as u64);
            if u as usize != t && !DONE[u as usize] {
                act = [2, u, 0, 0];
            }
        }
        if act[0] != 0 {
            record(at, act);
        }
    }
    match act[0] {
        1 => {
            if let Some(c) = s.nests.iter().find(|c| c.id == act[2]).copied() {
                s.nested_done += 1;
                bump("nested_ops");
                let op = &ops()[c.op];
                s.depth[t] = d + 1;
                s.frame[t][d + 1] = Frame { key: (key + 1) << 32 | st, step: 0, limit: limit(&c) };
                let mut o = Out { p: outbuf(t, d + 1), n: 0, tags: std::ptr::null_mut() };
                let x0 = x87_env();
                set_mxcsr(c.mxcsr);
                if c.mxcsr != 0x1f80 {
                    bump("mxcsr_nondefault");
                }
                let m0 = get_mxcsr();
                IN_OP.store(true, SeqCst);
                if s.nstep {
                    call_stepped(op, c.inp, &mut o);
                } else {
                    call_native(op, c.inp, &mut o);
                }
                IN_OP.store(false, SeqCst);
                let m1 = get_mxcsr();
                set_mxcsr(0x1f80);
                let x1 = x87_env();
                s.depth[t] = d;
                if s.prop == 3 {
                    check_env(&c, (m0, x0), (m1, x1), "in a signal handler");
                }
                if s.prop == 1 {
                    verify(&c, &o, &format!("in a signal handler interrupting task {} call {} at instruction {}", t, key, st));
                }
            }
        }
        2 => {
            if s.stall {
                // t stays suspended until every other task has finished
                s.stalled = true;
                bump("stalls");
            }
            switch_to(act[1] as usize);
        }
        _ => {}
    }
    IN_OP.store(was, SeqCst);
}
