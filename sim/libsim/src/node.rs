//! One node of the simulated cluster (C12): this build's library operations
//! behind a C entry point.
use libops::*;

static mut OPS: Vec<Op> = Vec::new();

#[no_mangle]
pub unsafe extern "C" fn node_init() -> usize {
    OPS.clear();
    all_ops(&mut OPS);
    std::panic::set_hook(Box::new(|_| ()));
    OPS.len()
}
/// Returns the number of output bytes, or -1 if the operation panicked.
#[no_mangle]
pub unsafe extern "C" fn node_exec(op: usize, inp: *const u8, out: *mut u8, tags: *mut u8) -> isize {
    let f = OPS[op].f;
    match std::panic::catch_unwind(|| {
        let mut o = Out { p: out, n: 0, tags };
        f(In(inp), &mut o);
        o.n
    }) {
        Ok(n) => n as isize,
        Err(e) => {
            std::mem::forget(e);
            -1
        }
    }
}
