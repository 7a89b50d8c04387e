//! C12: a simulated cluster whose nodes run the library compiled for different
//! instruction sets and optimisation levels.  A job (a chain of operations)
//! migrates between nodes, is re-executed after crashes, and is delivered
//! twice or late; every execution of a step has to agree.
use libops::*;
use crate::plan::*;
use libops::rng::*;
use crate::conc::ops;
use crate::run::*;
use crate::sys::*;
use libc::*;

type ExecFn = unsafe extern "C" fn(usize, *const u8, *mut u8, *mut u8) -> isize;
struct Node {
    name: String,
    exec: ExecFn,
}
static mut NODES: Vec<Node> = Vec::new();

/// name=path,name=path
pub fn load(list: &str) {
    unsafe {
        for x in list.split(',') {
            let (name, path) = x.split_once('=').unwrap_or_else(|| die("bad --nodes"));
            let c = std::ffi::CString::new(path).unwrap();
            let h = dlopen(c.as_ptr(), RTLD_NOW | RTLD_LOCAL);
            if h.is_null() {
                die("cannot load a node");
            }
            let i = dlsym(h, b"node_init\0".as_ptr() as *const c_char);
            let e = dlsym(h, b"node_exec\0".as_ptr() as *const c_char);
            if i.is_null() || e.is_null() {
                die("not a node");
            }
            let i: unsafe extern "C" fn() -> usize = std::mem::transmute(i);
            if i() != ops().len() {
                die("a node has another set of operations");
            }
            NODES.push(Node { name: name.into(), exec: std::mem::transmute::<_, ExecFn>(e) });
        }
    }
}
fn nodes() -> &'static [Node] {
    unsafe { &NODES }
}

pub fn gen(prop: &str, seed: u64, i: u64, _dbg: bool) -> Plan {
    let n = ops().len() as u64;
    let mut r = Rng::new(seed ^ mix(i) ^ hash_str(prop));
    let mut p = Plan { prop: prop.into(), ..Plan::default() };
    p.set("eseed", r.next());
    p.set("pfault", (1 << 20) / (1 << r.below(4)));
    let k = 16;
    let stride = 1009; // coprime with the number of operations or not: + i keeps moving
    for j in 0..k {
        // half the steps walk through all operations, half stay with the
        // type of the step before, so that results feed further operations
        let x = if j % 2 == 0 || p.items.is_empty() {
            ((i * (k / 2) + j / 2) * stride + mix(seed) + (i * (k / 2) + j / 2) / n) % n
        } else {
            let last = ops().iter().find(|o| o.name() == p.items[p.items.len() - 1].name).unwrap();
            let c: Vec<u64> = (0..n).filter(|q| ops()[*q as usize].ty == last.ty).collect();
            *r.pick(&c)
        };
        let o = &ops()[x as usize];
        let carry = if r.chance(1, 2) { 1 + r.below(3) } else { 0 };
        p.items.push(Item { id: j, kind: "step".into(), name: o.name(), n: vec![r.next(), r.below(3), carry] });
    }
    p
}

#[derive(Clone)]
struct Res {
    node: usize,
    n: isize,
    out: Vec<u8>,
    tags: Vec<u8>,
}
unsafe fn run_on(node: usize, op: usize, block: &[u8; IN_BYTES]) -> Res {
    // operands at a fixed, unaligned address
    let inp = (BUFS + 8) as *mut u8;
    let out = BUFS + 65536;
    let tags = BUFS + 131072;
    std::ptr::copy_nonoverlapping(block.as_ptr(), inp, IN_BYTES);
    memset(out as *mut c_void, 0x5a, OUT_BYTES);
    memset(tags as *mut c_void, 0, OUT_BYTES);
    let n = (nodes()[node].exec)(op, inp, out as *mut u8, tags as *mut u8);
    sh().stats[7] += 1;
    let len = n.max(0) as usize;
    Res {
        node,
        n,
        out: std::slice::from_raw_parts(out as *const u8, len).to_vec(),
        tags: std::slice::from_raw_parts(tags as *const u8, len).to_vec(),
    }
}

/// What the library leaves open: estimates and fusing,
/// NaN bits, which zero a minimum of zeros is.
fn unspecified(o: &Op) -> bool {
    o.kind == Kind::Float && matches!(o.op, "recpre" | "rsqrte" | "sqrte" | "mul_adde")
}
fn agree(o: &Op, a: &Res, b: &Res) -> bool {
    if a.n != b.n {
        return false;
    }
    if unspecified(o) {
        return true;
    }
    if a.out == b.out {
        return true;
    }
    let zeros = o.op.starts_with("min") || o.op.starts_with("max");
    let mut i = 0;
    while i < a.out.len() {
        let t = a.tags[i] as usize;
        if (t == 4 || t == 8) && i + t <= a.out.len() {
            let (x, y) = (&a.out[i..i + t], &b.out[i..i + t]);
            if x != y {
                let f = |x: &[u8]| {
                    if t == 4 { f32::from_bits(u32::from_le_bytes(x.try_into().unwrap())) as f64 }
                    else { f64::from_bits(u64::from_le_bytes(x.try_into().unwrap())) }
                };
                let (x, y) = (f(x), f(y));
                if !((x.is_nan() && y.is_nan()) || (zeros && x == 0.0 && y == 0.0)) {
                    return false;
                }
            }
            i += t;
        } else {
            if a.out[i] != b.out[i] {
                return false;
            }
            i += 1;
        }
    }
    true
}

pub fn exec(plan: &Plan) {
    unsafe {
        let nn = nodes().len();
        if nn < 2 {
            die("no nodes");
        }
        let mut rng = Rng::new(plan.h("eseed"));
        let pf = plan.h("pfault");
        let explicit = plan.events.clone();
        let mut at = (plan.h("eseed") >> 20) as usize % nn;
        // the durable log: operand block and committed result of every step
        let mut log: Vec<(usize, [u8; IN_BYTES], Res)> = vec![];
        let check = |step: u64, op: usize, block: &[u8; IN_BYTES], a: &Res, b: &Res, when: &str| {
            if !agree(&ops()[op], a, b) {
                let d = a.out.iter().zip(&b.out).position(|(x, y)| x != y).unwrap_or(0);
                let cut = |v: &Vec<u8>| v[d / 16 * 16..(d / 16 * 16 + 32).min(v.len())].to_vec();
                violate("C12", "nodes-disagree", &format!(
                    "step {} {} ({}): node {} and node {} differ at output byte {} (lengths {} and {}): {:02x?} and {:02x?}; operands A {:02x?} B {:02x?}",
                    step, ops()[op].name(), when, nodes()[a.node].name, nodes()[b.node].name, d, a.n, b.n, cut(&a.out), cut(&b.out),
                    &block[..SLOT], &block[SLOT..2 * SLOT]));
            }
        };
        for it in &plan.items {
            let op = match ops().iter().position(|o| o.name() == it.name) {
                Some(k) => k,
                None => skip("unknown operation"),
            };
            let o = &ops()[op];
            let mut block = [0u8; IN_BYTES];
            gen_operand(o, it.n[0], it.n[1], &mut block);
            carry(o, it.n[2], log.last(), &mut block);
            mixsig(hash_str(&it.name) ^ it.n[0]);
            let mut tries = 0;
            loop {
                let key = [it.id, tries, 0];
                let mut act = [0u64; 4];
                match &explicit {
                    Some(ev) => {
                        if let Some(e) = ev.iter().find(|e| e.at == key) {
                            act = e.act;
                        }
                    }
                    None => {
                        if rng.chance(pf, 1 << 20) && tries < 4 {
                            act = [1 + rng.below(4), rng.below(nn as u64), rng.next(), 0];
                        }
                    }
                }
                let other = act[1] as usize % nn;
                tries += 1;
                match act[0] {
                    1 => {
                        // the job moves
                        record(key, act);
                        bump("migrations");
                        at = other;
                        continue;
                    }
                    2 => {
                        // the node executes the step and dies before it is
                        // acknowledged; the result survives only in what the
                        // node had already shown to a client
                        record(key, act);
                        bump("node_crashes");
                        let lost = run_on(at, op, &block);
                        at = other;
                        let again = run_on(at, op, &block);
                        check(it.id, op, &block, &lost, &again, "re-executed after a crash");
                        continue;
                    }
                    3 => {
                        record(key, act);
                        bump("duplicates");
                        let a = run_on(at, op, &block);
                        let b = run_on(other, op, &block);
                        check(it.id, op, &block, &a, &b, "delivered twice");
                        continue;
                    }
                    4 if !log.is_empty() => {
                        record(key, act);
                        bump("redeliveries");
                        let k = act[2] as usize % log.len();
                        let (lop, lb, lr) = &log[k];
                        let b = run_on(other, *lop, lb);
                        check(k as u64, *lop, lb, lr, &b, "redelivered late");
                        continue;
                    }
                    _ => {}
                }
                break;
            }
            let r = run_on(at, op, &block);
            log.push((op, block, r));
        }
        // every node catches up from the durable log
        for n in 0..nn {
            for (k, (op, block, r)) in log.iter().enumerate() {
                bump("audited");
                let b = run_on(n, *op, block);
                check(plan.items[k].id, *op, block, r, &b, "catching up");
            }
        }
        sh().stats[0] = sh().stats[7];
    }
}

/// The result of the step before becomes an operand of this one.
fn carry(o: &Op, how: u64, last: Option<&(usize, [u8; IN_BYTES], Res)>, block: &mut [u8; IN_BYTES]) {
    let (_, _, r) = match last {
        Some(x) if how > 0 => x,
        _ => return,
    };
    let n = (o.esz as usize * o.lanes as usize).min(SLOT);
    // a window of the output with one suitable class
    let fits = |t: &[u8]| match o.kind {
        Kind::Float => t.iter().all(|x| *x == o.esz),
        Kind::Int => true,
        _ => false,
    };
    let k = (how as usize - 1) * n;
    if n == 0 || r.out.len() < k + n || !fits(&r.tags[k..k + n]) {
        return;
    }
    let slot = if how == 2 { SLOT } else { 0 };
    block[slot..slot + n].copy_from_slice(&r.out[k..k + n]);
}
