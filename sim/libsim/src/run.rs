//! Executing one plan in its own forked process, and reporting back through a
//! shared page.
use crate::plan::*;
use crate::sys::*;
use libc::*;

/// Non-zero inside a run: next free byte of the run's own heap.
pub static mut BUMP: usize = 0;

pub const NSTAT: usize = 48;
pub const MAX_EV: usize = 100_000;
pub const SOLO_OFF: usize = 12 << 20;

#[repr(C)]
pub struct Shared {
    pub status: u32, // 0 not finished, 1 ok, 2 violation, 3 skipped
    pub nev: u64,
    pub sig: u64,
    pub stats: [u64; NSTAT],
    pub prop: [u8; 8],
    pub class: [u8; 128],
    pub msg: [u8; 4096],
    pub ev: [Ev; MAX_EV],
}
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *(SHARED as *mut Shared) }
}

/// Names of the counters (fault kinds, probes) a run may bump.
pub const STATS: [&str; NSTAT] = [
    "steps", "switches", "nested_ops", "stalls", "bursts", "dirty_frames", "solo_runs", "calls",
    "neighbour_writes", "neighbour_lib_stores", "unmaps", "readonly_maps", "guard_flush", "masked_dangling",
    "overlap_lanes", "misaligned", "short_slice", "bad_index", "panics", "sink_errors", "sink_panics",
    "sink_reentry", "iter_panics", "iter_nonfused", "iter_lying_hint", "hash_panics", "mxcsr_nondefault",
    "alloc_denied", "syscalls_seen", "mem_checks", "page_cross", "unaligned", "full_mask", "empty_mask",
    "partial_mask", "valid_after_reject", "sink_calls", "preempt_in_callback", "migrations", "node_crashes", "duplicates", "redeliveries",
    "audited", "histories", "s44", "s45", "s46", "s47",
];
pub fn bump(name: &str) {
    add(name, 1)
}
pub fn add(name: &str, n: u64) {
    for (i, s) in STATS.iter().enumerate() {
        if *s == name {
            sh().stats[i] += n;
            return;
        }
    }
    die("unknown counter");
}
pub fn mixsig(x: u64) {
    let s = sh();
    s.sig = crate::rng::mix(s.sig ^ x.wrapping_mul(0x9e3779b97f4a7c15));
}
pub fn record(at: [u64; 3], act: [u64; 4]) -> bool {
    let s = sh();
    if s.nev as usize >= MAX_EV {
        return false;
    }
    s.ev[s.nev as usize] = Ev { at, act };
    s.nev += 1;
    mixsig(at[0] ^ at[1].rotate_left(8) ^ at[2].rotate_left(24) ^ act[0].rotate_left(40) ^ act[1].rotate_left(48));
    true
}
fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|x| *x == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}
/// Ends the run with a violation of `prop`.
pub fn violate(prop: &str, class: &str, msg: &str) -> ! {
    let s = sh();
    if s.status != 2 {
        put(&mut s.prop, prop);
        put(&mut s.class, class);
        put(&mut s.msg, msg);
        s.status = 2;
    }
    unsafe { _exit(0) }
}
pub fn finish_ok() -> ! {
    sh().status = 1;
    unsafe { _exit(0) }
}
pub fn skip(why: &str) -> ! {
    let s = sh();
    put(&mut s.msg, why);
    s.status = 3;
    unsafe { _exit(0) }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub status: u32,
    pub prop: String,
    pub class: String,
    pub msg: String,
    pub sig: u64,
    pub stats: Vec<u64>,
    pub events: Vec<Ev>,
}
impl Outcome {
    pub fn violation(&self) -> bool {
        self.status == 2
    }
}

/// Runs one plan in a fresh child.  `secs` is only a watchdog against a child
/// that never ends; it decides nothing else.
pub fn run_plan(plan: &Plan, exec: fn(&Plan), want_events: bool) -> Outcome {
    let mut o = run_once(plan, exec, want_events, 6);
    if o.class == "hang" {
        o = run_once(plan, exec, want_events, 25);
    }
    o
}
fn run_once(plan: &Plan, exec: fn(&Plan), want_events: bool, secs: u32) -> Outcome {
    unsafe {
        let s = sh();
        s.status = 0;
        s.nev = 0;
        s.sig = 0;
        s.stats = [0; NSTAT];
        s.prop[0] = 0;
        s.class[0] = 0;
        s.msg[0] = 0;
        let pid = fork();
        if pid < 0 {
            die("fork failed");
        }
        if pid == 0 {
            setpgid(0, 0);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            alarm(secs);
            BUMP = HEAP;
            exec(plan);
            finish_ok();
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        kill(-pid, SIGKILL); // stray grandchildren of a child that died
        let mut o = Outcome {
            status: s.status,
            prop: get(&s.prop),
            class: get(&s.class),
            msg: get(&s.msg),
            sig: s.sig,
            stats: s.stats.to_vec(),
            events: vec![],
        };
        if WIFSIGNALED(st) && o.status != 2 {
            let sg = WTERMSIG(st);
            o.status = 2;
            o.prop = plan.prop.clone();
            if sg == SIGALRM {
                o.class = "hang".into();
                o.msg = format!("the run never ended (watchdog after {} s)", secs);
            } else if sg == SIGKILL {
                die("a run was killed (out of memory?)");
            } else {
                o.class = format!("crash-signal-{}", sg);
                o.msg = format!("the simulated process died with signal {}", sg);
            }
        } else if o.status == 0 {
            if WIFEXITED(st) && WEXITSTATUS(st) == 3 {
                die("harness error inside a run");
            }
            o.status = 2;
            o.prop = plan.prop.clone();
            o.class = "exit".into();
            o.msg = format!("the simulated process exited early (wait status {:#x})", st);
        }
        if want_events {
            o.events = s.ev[..s.nev as usize].to_vec();
        }
        o
    }
}

/// Delta-debugging of the decisions, then of the items.
pub fn minimise(plan: &Plan, exec: fn(&Plan), class: &str, deadline: f64) -> (Plan, u64) {
    let mut tries = 0u64;
    let mut best = plan.clone();
    let mut fails = |p: &Plan| -> bool {
        tries += 1;
        let o = run_plan(p, exec, false);
        o.violation() && o.class == class && o.prop == p.prop
    };
    // items first (coarse), then events
    let mut changed = true;
    while changed && now() < deadline {
        changed = false;
        let mut i = 0;
        while i < best.items.len() && now() < deadline {
            if best.items.len() == 1 {
                break;
            }
            let mut c = best.clone();
            c.items.remove(i);
            if fails(&c) {
                best = c;
                changed = true;
            } else {
                i += 1;
            }
        }
        if let Some(ev) = best.events.clone() {
            let mut cur = ev;
            let mut chunk = (cur.len() + 1) / 2;
            // try none at all
            if !cur.is_empty() {
                let mut c = best.clone();
                c.events = Some(vec![]);
                if fails(&c) {
                    cur = vec![];
                    best = c;
                    changed = true;
                }
            }
            while chunk >= 1 && !cur.is_empty() && now() < deadline {
                let mut i = 0;
                while i < cur.len() && now() < deadline {
                    let mut c = best.clone();
                    let mut e = cur.clone();
                    let end = (i + chunk).min(e.len());
                    e.drain(i..end);
                    c.events = Some(e.clone());
                    if fails(&c) {
                        cur = e;
                        best = c;
                        changed = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk + 1) / 2;
            }
        }
    }
    (best, tries)
}
