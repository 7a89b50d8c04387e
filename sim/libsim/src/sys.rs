//! OS layer of the simulator: fixed-address memory, fork-per-run, the
//! single-step (trap flag) preemption seam and baton-passed virtual threads.
use libc::*;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::*};

pub const ARENA: usize = 0x5000_0000_0000;
pub const ARENA_LEN: usize = 1 << 20; // simulated memory of the memory scenarios
pub const SHARED: usize = 0x5100_0000_0000;
pub const SHARED_LEN: usize = 16 << 20;
pub const STACKS: usize = 0x5200_0000_0000;
pub const STACK_LEN: usize = 1 << 20;
pub const BUFS: usize = 0x5300_0000_0000;
pub const BUFS_LEN: usize = 4 << 20;
pub const HEAP: usize = 0x5400_0000_0000;
pub const HEAP_LEN: usize = 1 << 30;
pub const MAX_TASKS: usize = 4;

pub unsafe fn map_fixed(addr: usize, len: usize, prot: i32, shared: bool) {
    let flags = MAP_FIXED_NOREPLACE | MAP_ANONYMOUS | if shared { MAP_SHARED } else { MAP_PRIVATE };
    let p = mmap(addr as *mut c_void, len, prot, flags, -1, 0);
    if p as usize != addr {
        die("mmap of a fixed simulator region failed");
    }
}

pub fn die(msg: &str) -> ! {
    eprintln!("libsim: {}", msg);
    unsafe { _exit(3) }
}

/// Re-executes the program without address randomisation, so that a replay in
/// a fresh process sees the same addresses.  Falls back silently.
pub fn no_aslr() {
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur != -1 && cur & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("LIBSIM_REEXEC").is_none() {
            if personality((cur | ADDR_NO_RANDOMIZE) as c_ulong) != -1 {
                std::env::set_var("LIBSIM_REEXEC", "1");
                use std::os::unix::process::CommandExt;
                let args: Vec<_> = std::env::args_os().skip(1).collect();
                let _ = std::process::Command::new("/proc/self/exe").args(args).exec();
            }
        }
    }
}

// ---------------------------------------------------------------- stepping

pub type StepFn = unsafe fn(uc: *mut ucontext_t);
static mut STEP_FN: Option<StepFn> = None;
/// when false the handler clears TF on return (stop stepping this frame)
pub static mut STEPPING: bool = false;
pub static mut TOTAL_STEPS: u64 = 0;

pub const GREG_RIP: usize = 16;
pub const GREG_EFL: usize = 17;

extern "C" fn on_trap(_s: c_int, _i: *mut siginfo_t, uc: *mut c_void) {
    unsafe {
        let e = *__errno_location();
        let uc = uc as *mut ucontext_t;
        TOTAL_STEPS += 1;
        if let Some(f) = STEP_FN {
            f(uc);
        }
        *__errno_location() = e;
    }
}

pub unsafe fn clear_tf(uc: *mut ucontext_t) {
    (*uc).uc_mcontext.gregs[GREG_EFL] &= !0x100;
}

pub unsafe fn install_step(f: StepFn) {
    STEP_FN = Some(f);
    let mut sa: sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_trap as usize;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, std::ptr::null_mut());
}

#[inline(always)]
pub unsafe fn tf_on() {
    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop");
}
#[inline(always)]
pub unsafe fn tf_off() {
    std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
}

pub fn get_mxcsr() -> u32 {
    let mut x = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut x) }
    x
}
pub fn set_mxcsr(x: u32) {
    unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &x) }
}
/// (x87 control word, x87 tag word, direction flag)
pub fn x87_env() -> (u16, u16, bool) {
    let mut env = [0u8; 28];
    let mut fl: u64;
    unsafe {
        std::arch::asm!("fnstenv [{0}]", "fldenv [{0}]", in(reg) env.as_mut_ptr());
        std::arch::asm!("pushfq", "pop {}", out(reg) fl);
    }
    fl &= 0x400;
    (u16::from_le_bytes([env[0], env[1]]), u16::from_le_bytes([env[8], env[9]]), fl != 0)
}

/// Overwrites the dead part of the stack below the caller and the caller-saved
/// vector registers with seeded garbage (stale data a new frame may see).
#[inline(never)]
pub fn dirty(seed: u64) {
    let mut buf = std::mem::MaybeUninit::<[u64; 1024]>::uninit();
    let p = buf.as_mut_ptr() as *mut u64;
    let mut x = seed | 1;
    unsafe {
        for i in 0..1024 {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            std::ptr::write_volatile(p.add(i), x);
        }
        dirty_regs(p);
    }
}
#[inline(always)]
unsafe fn dirty_regs(p: *const u64) {
    std::arch::asm!(
        "movups xmm0, [{0}]", "movups xmm1, [{0}+16]", "movups xmm2, [{0}+32]",
        "movups xmm3, [{0}+48]", "movups xmm4, [{0}+64]", "movups xmm5, [{0}+80]",
        "movups xmm6, [{0}+96]", "movups xmm7, [{0}+112]", "movups xmm8, [{0}+128]",
        "movups xmm9, [{0}+144]", "movups xmm10, [{0}+160]", "movups xmm11, [{0}+176]",
        "movups xmm12, [{0}+192]", "movups xmm13, [{0}+208]", "movups xmm14, [{0}+224]",
        "movups xmm15, [{0}+240]",
        in(reg) p,
        out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _,
        out("xmm6") _, out("xmm7") _, out("xmm8") _, out("xmm9") _, out("xmm10") _, out("xmm11") _,
        out("xmm12") _, out("xmm13") _, out("xmm14") _, out("xmm15") _,
    );
}

// ---------------------------------------------------------------- tasks

static BATON: [AtomicU32; MAX_TASKS + 1] =
    [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)];
pub static CUR: AtomicI32 = AtomicI32::new(-1);
pub static mut DONE: [bool; MAX_TASKS] = [false; MAX_TASKS];
pub static mut NTASKS: usize = 0;
pub static mut SWITCHES: u64 = 0;
static mut TASK_FN: Option<fn(usize)> = None;
const MAIN: usize = MAX_TASKS;

unsafe fn wake(i: usize) {
    BATON[i].store(1, SeqCst);
    syscall(SYS_futex, &BATON[i] as *const _ as usize, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
unsafe fn park(i: usize) {
    while BATON[i].swap(0, SeqCst) == 0 {
        syscall(SYS_futex, &BATON[i] as *const _ as usize, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0usize);
    }
}
/// Passes the baton to task `u` and waits until it comes back.
pub unsafe fn switch_to(u: usize) {
    let me = CUR.load(SeqCst) as usize;
    if u == me || u >= NTASKS || DONE[u] {
        return;
    }
    SWITCHES += 1;
    CUR.store(u as i32, SeqCst);
    wake(u);
    park(me);
}
extern "C" fn task_main(arg: *mut c_void) -> *mut c_void {
    unsafe {
        let me = arg as usize;
        park(me);
        TASK_FN.unwrap()(me);
        DONE[me] = true;
        // hand over to the lowest unfinished task, or back to the driver
        for u in 0..NTASKS {
            if !DONE[u] {
                CUR.store(u as i32, SeqCst);
                wake(u);
                return std::ptr::null_mut();
            }
        }
        CUR.store(-1, SeqCst);
        wake(MAIN);
    }
    std::ptr::null_mut()
}
pub fn cur_task() -> usize {
    CUR.load(SeqCst) as usize
}
/// Runs `n` virtual threads to completion; exactly one executes at any time
/// and only the simulator decides which.
pub unsafe fn run_tasks(n: usize, f: fn(usize)) {
    NTASKS = n;
    TASK_FN = Some(f);
    for i in 0..n {
        DONE[i] = false;
    }
    let mut th: [pthread_t; MAX_TASKS] = [0; MAX_TASKS];
    for i in 0..n {
        let mut at: pthread_attr_t = std::mem::zeroed();
        pthread_attr_init(&mut at);
        let base = STACKS + i * 2 * STACK_LEN;
        map_fixed(base, STACK_LEN, PROT_READ | PROT_WRITE, false);
        pthread_attr_setstack(&mut at, base as *mut c_void, STACK_LEN);
        if pthread_create(&mut th[i], &at, task_main, i as *mut c_void) != 0 {
            die("pthread_create failed");
        }
    }
    CUR.store(0, SeqCst);
    wake(0);
    park(MAIN);
    for i in 0..n {
        pthread_join(th[i], std::ptr::null_mut());
    }
}

pub unsafe fn pin_cpu(k: usize) {
    let mut set: cpu_set_t = std::mem::zeroed();
    let mut avail: cpu_set_t = std::mem::zeroed();
    sched_getaffinity(0, std::mem::size_of::<cpu_set_t>(), &mut avail);
    let cpus: Vec<usize> = (0..1024).filter(|&c| CPU_ISSET(c, &avail)).collect();
    if cpus.is_empty() {
        return;
    }
    CPU_SET(cpus[k % cpus.len()], &mut set);
    sched_setaffinity(0, std::mem::size_of::<cpu_set_t>(), &set);
}

pub fn now() -> f64 {
    unsafe {
        let mut t: timespec = std::mem::zeroed();
        clock_gettime(CLOCK_MONOTONIC, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}
