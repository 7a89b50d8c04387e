#![allow(dead_code)]
mod cb;
mod cluster;
mod conc;
mod mem;
use libops as ops;
mod plan;
pub use libops::rng;
mod run;
mod sys;

use plan::Plan;
use run::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering::SeqCst;

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if conc::WATCH_ALLOC && conc::IN_OP.load(SeqCst) {
            conc::IN_OP.store(false, SeqCst);
            conc::WATCH_ALLOC = false;
            violate("C02", "heap", "an operation allocates heap memory");
        }
        if run::BUMP != 0 {
            // inside a run: no dependence on the heap history of the driver
            let a = (run::BUMP + l.align() - 1) & !(l.align() - 1);
            run::BUMP = a + l.size();
            if run::BUMP > sys::HEAP + sys::HEAP_LEN {
                sys::die("the heap of a run is full");
            }
            return a as *mut u8;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if run::BUMP == 0 {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static G: A = A;

type Gen = fn(&str, u64, u64, bool) -> Plan;
fn scenario(prop: &str) -> (Gen, fn(&Plan)) {
    match prop {
        "C01" | "C02" | "C03" => (conc::gen, conc::exec),
        "C12" => (cluster::gen, cluster::exec),
        "C09" | "C10" | "C11" => (cb::gen, cb::exec),
        "C04" | "C05" | "C06" | "C07" | "C08" => (mem::gen, mem::exec),
        _ => sys::die("unknown property"),
    }
}

struct Args {
    prop: String,
    seed: u64,
    runs: u64,
    secs: f64,
    workers: u64,
    out: String,
    first: u64,
    hashes: bool,
    build: String,
}
fn args(a: &[String]) -> Args {
    let g = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    Args {
        prop: g("--prop", ""),
        seed: g("--seed", "1").parse().unwrap_or(1),
        runs: g("--runs", "1000").parse().unwrap(),
        secs: g("--secs", "60").parse().unwrap(),
        workers: g("--workers", "8").parse().unwrap(),
        out: g("--out", "/dev/stdout"),
        first: g("--first", "0").parse().unwrap(),
        hashes: a.iter().any(|x| x == "--hashes"),
        build: g("--build", "?"),
    }
}

fn map_shared() {
    unsafe { sys::map_fixed(sys::SHARED, sys::SHARED_LEN, libc::PROT_READ | libc::PROT_WRITE, true) }
}

#[repr(C)]
struct Board {
    stop: std::sync::atomic::AtomicU32,
    runs: [u64; 64],
    skips: [u64; 64],
    stats: [[u64; NSTAT]; 64],
    hit: [[u64; NSTAT]; 64],
    viol_run: [u64; 64], // run index + 1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    sys::no_aslr();
    unsafe {
        conc::OPS = Vec::new();
        ops::all_ops(&mut conc::OPS);
        conc::index_ops();
        sys::map_fixed(sys::BUFS, sys::BUFS_LEN, libc::PROT_READ | libc::PROT_WRITE, false);
        sys::map_fixed(sys::HEAP, sys::HEAP_LEN, libc::PROT_READ | libc::PROT_WRITE, false);
    }
    unsafe {
        mem::init();
        cb::init();
    }
    if let Some(k) = a.iter().position(|x| x == "--nodes") {
        cluster::load(&a[k + 1]);
    }
    std::panic::set_hook(Box::new(|_| mem::on_panic()));
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run_check(args(&a[2..])),
        Some("replay") => replay(&a[2]),
        Some("ops") => {
            for o in conc::ops() {
                println!("{}", o.name());
            }
        }
        _ => {
            eprintln!("usage: libsim run --prop ID ... | replay FILE");
            std::process::exit(2);
        }
    }
}

fn run_check(a: Args) {
    let (gen, exec) = scenario(&a.prop);
    let dbg = cfg!(debug_assertions);
    let t0 = sys::now();
    let board = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(), std::mem::size_of::<Board>(), libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        );
        &mut *(p as *mut Board)
    };
    let scratch = format!("{}.w", a.out);
    let w = a.workers.min(64);
    let mut pids = vec![];
    for k in 0..w {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                sys::pin_cpu(k as usize);
            }
            map_shared();
            let mut sigs: Vec<u8> = vec![];
            let mut i = k;
            while i < a.runs {
                if board.stop.load(SeqCst) != 0 || sys::now() - t0 > a.secs {
                    break;
                }
                let idx = a.first + i;
                let plan = gen(&a.prop, a.seed, idx, dbg);
                let o = run_plan(&plan, exec, false);
                let kk = k as usize;
                board.runs[kk] += 1;
                for j in 0..NSTAT {
                    board.stats[kk][j] += o.stats[j];
                    board.hit[kk][j] += (o.stats[j] > 0) as u64;
                }
                if o.status == 3 {
                    board.skips[kk] += 1;
                }
                if a.hashes {
                    println!("{} {:016x} {} {}", idx, o.sig, o.status, o.stats[0]);
                }
                sigs.extend_from_slice(&o.sig.to_le_bytes());
                if o.violation() && o.prop == a.prop {
                    board.viol_run[kk] = idx + 1;
                    board.stop.store(1, SeqCst);
                    break;
                }
                i += w;
            }
            std::fs::write(format!("{}{}", scratch, k), &sigs).unwrap_or_else(|_| sys::die("cannot write"));
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
        if st != 0 {
            bad = true;
        }
    }
    if bad {
        sys::die("a worker failed");
    }
    let mut distinct = std::collections::HashSet::new();
    for k in 0..w {
        let f = format!("{}{}", scratch, k);
        if let Ok(b) = std::fs::read(&f) {
            for c in b.chunks(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let _ = std::fs::remove_file(&f);
    }
    let runs: u64 = board.runs.iter().sum();
    let wall = sys::now() - t0;
    let mut viol = String::from("null");
    if let Some(vr) = board.viol_run.iter().filter(|x| **x > 0).min() {
        map_shared();
        let mut plan = gen(&a.prop, a.seed, vr - 1, dbg);
        let o = run_plan(&plan, exec, true);
        if !o.violation() {
            eprintln!("run {}", vr - 1);
            sys::die("a violation did not reproduce: the simulation is not deterministic");
        }
        plan.events = Some(o.events.clone());
        let o2 = run_plan(&plan, exec, true);
        if !o2.violation() || o2.class != o.class {
            sys::die("a violation did not reproduce from its explicit trace");
        }
        let before = (plan.items.len(), o.events.len());
        let (min, tries) = minimise(&plan, exec, &o.class, sys::now() + 60.0);
        let o3 = run_plan(&min, exec, false);
        let text = format!(
            "libsim-replay 1\nbuild {}\nseed {}\nrun {}\nclass {}\nmessage {}\nminimised items {}->{} decisions {}->{} tries {}\n{}",
            a.build, a.seed, vr - 1, o.class, o3.msg, before.0, min.items.len(), before.1,
            min.events.as_ref().map_or(0, |e| e.len()), tries, min.to_text()
        );
        let f = format!("{}.replay", a.out);
        std::fs::write(&f, text).unwrap();
        viol = format!("{{\"run\":{},\"class\":{:?},\"msg\":{:?},\"replay\":{:?}}}", vr - 1, o.class, o3.msg, f);
    }
    let mut js = format!(
        "{{\"build\":{:?},\"runs\":{},\"skips\":{},\"distinct\":{},\"wall\":{:.3},\"ops\":{},\"stats\":{{",
        a.build, runs, board.skips.iter().sum::<u64>(), distinct.len(), wall, conc::ops().len()
    );
    let mut first = true;
    for j in 0..NSTAT {
        let s: u64 = board.stats.iter().map(|x| x[j]).sum();
        let h: u64 = board.hit.iter().map(|x| x[j]).sum();
        if s > 0 {
            if !first {
                js += ",";
            }
            first = false;
            js += &format!("\"{}\":[{},{}]", STATS[j], s, h);
        }
    }
    js += "},\"samples\":[";
    for k in 0..3u64 {
        let p = gen(&a.prop, a.seed, a.first + k * 7919 % a.runs.max(1), dbg);
        js += &format!("{}{:?}", if k > 0 { "," } else { "" }, p.to_text().chars().take(700).collect::<String>());
    }
    js += &format!("],\"violation\":{}}}\n", viol);
    std::fs::write(&a.out, js).unwrap_or_else(|_| sys::die("cannot write the result"));
}

fn replay(f: &str) {
    let t = std::fs::read_to_string(f).unwrap_or_else(|_| sys::die("cannot read the replay file"));
    let p = Plan::from_text(&t).unwrap_or_else(|| sys::die("bad replay file"));
    let (_, exec) = scenario(&p.prop);
    map_shared();
    let o = run_plan(&p, exec, true);
    if o.violation() {
        println!("reproduced: property={} class={} {}", o.prop, o.class, o.msg);
        std::process::exit(1);
    }
    println!("not reproduced (status {} {})", o.status, o.msg);
}
