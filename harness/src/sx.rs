//! Interface between the harness and the symbolic executor (or, when a path
//! is replayed natively, the replay driver): both provide these symbols.
extern "C" {
    fn sx_u8() -> u8;
    fn sx_u16() -> u16;
    fn sx_u32() -> u32;
    fn sx_u64() -> u64;
    fn sx_bool() -> bool;
    fn sx_choose(n: u64) -> u64;
    fn sx_below(n: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, p: *const u8, n: usize);
    fn sx_reach(p: *const u8, n: usize);
    fn sx_observe(v: u64);
    fn sx_concretize(v: u64) -> u64;
    fn sx_heap_live() -> i64;
    fn sx_expect_panic(on: bool);
    fn sx_catch(d: i32);
    fn sx_end();
    fn sx_engine() -> i32;
    fn sx_fault(v: u64);
    fn sx_fault_bg(v: u64);
    fn sx_fault_off() -> bool;
    fn sx_threads(n: u64);
    fn sx_yield();
    fn sx_settle();
    fn sx_tid() -> u64;
}
/// Any byte.
pub fn u8() -> u8 { unsafe { sx_u8() } }
pub fn u16() -> u16 { unsafe { sx_u16() } }
pub fn u32() -> u32 { unsafe { sx_u32() } }
pub fn u64() -> u64 { unsafe { sx_u64() } }
pub fn any_bool() -> bool { unsafe { sx_bool() } }
/// Any value below `n`; every one of them becomes a path of its own.
pub fn choose(n: usize) -> usize { unsafe { sx_choose(n as u64) as usize } }
/// Any value below `n`, kept symbolic.
pub fn below(n: usize) -> usize { unsafe { sx_below(n as u64) as usize } }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
/// The assertion: it has to hold for every value of the symbolic inputs.
pub fn ck(c: bool, m: &str) { unsafe { sx_check(c, m.as_ptr(), m.len()) } }
/// Reachability marker: a required one that no path reaches makes the check fail.
pub fn reach(m: &str) { unsafe { sx_reach(m.as_ptr(), m.len()) } }
/// Value compared between the symbolic path and its native replay.
pub fn obs(v: u64) { unsafe { sx_observe(v) } }
pub fn conc(v: u64) -> u64 { unsafe { sx_concretize(v) } }
pub fn heap_live() -> i64 { unsafe { sx_heap_live() } }
/// From here on the path has to end in a panic.
pub fn expect_panic() { unsafe { sx_expect_panic(true) } }
pub fn end() { unsafe { sx_end() } }
pub fn engine() -> bool { unsafe { sx_engine() != 0 } }
/// Runs `f`; returns true if it panicked (the real unwinding machinery runs).
pub fn catches<F: FnOnce()>(f: F) -> bool {
    unsafe { sx_catch(1) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    unsafe { sx_catch(-1) };
    r
}
/// The v-th file operation from now on that may fail does.
pub fn fault(v: u64) { unsafe { sx_fault(v) } }
/// The same for the file operations of the other threads.
pub fn fault_bg(v: u64) { unsafe { sx_fault_bg(v) } }
/// Ends the fault; true if it struck.
pub fn fault_off() -> bool { unsafe { sx_fault_off() } }
/// From here on the scheduler picks arbitrarily among the runnable threads, with up to `n` preemptions.
pub fn threads(n: usize) { unsafe { sx_threads(n as u64) } }
/// A point at which another thread may run.
#[no_mangle]
pub extern "C" fn vh_yield() { unsafe { sx_yield() } }
/// Every other thread runs as far as it can.
pub fn settle() { unsafe { sx_settle() } }
pub fn tid() -> u64 { unsafe { sx_tid() } }
/// 0/1 from a condition without a branch.
pub fn bit(c: bool) -> u32 { c as u32 }
/// `if c { a } else { b }` without a branch.
pub fn sel(c: bool, a: u32, b: u32) -> u32 {
    let m = (c as u32).wrapping_neg();
    (a & m) | (b & !m)
}
