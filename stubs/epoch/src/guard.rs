//! Only one thread runs at a time (the executor's scheduler, and the hooks of a replay, see to it), and it can only be
//! interrupted at `vh_yield`, so plain statics do.
use std::mem;
extern "C" {
    fn vh_yield();
    fn sx_tid() -> u64;
}
type F = Option<Box<dyn FnOnce()>>;
const NONE: F = None;
const MAX: usize = 64;
/// the pinned guards, and the thread of each
static mut PINNED: u64 = 0;
static mut OWNER: [u64; MAX] = [0; MAX];
static mut WAITS: [u64; MAX] = [0; MAX];
static mut DEFERRED: [F; MAX] = [NONE; MAX];

/// Index of a pinned guard, MAX: unprotected.
pub struct Guard { id: usize }
unsafe fn acquire() -> usize {
    let id = (!PINNED).trailing_zeros() as usize;
    assert!(id < MAX, "too many guards");
    PINNED |= 1 << id;
    OWNER[id] = sx_tid();
    id
}
unsafe fn release(id: usize) {
    vh_yield();
    PINNED &= !(1 << id);
    for i in 0..MAX {
        if DEFERRED[i].is_some() {
            WAITS[i] &= !(1 << id);
            if WAITS[i] == 0 { (DEFERRED[i].take().unwrap())() }
        }
    }
    vh_yield();
}
impl Guard {
    pub unsafe fn defer<G, R>(&self, f: G) where G: FnOnce() -> R {
        if self.id == MAX { drop(f()); return; }
        let b: Box<dyn FnOnce() + '_> = Box::new(move || drop(f()));
        for i in 0..MAX {
            if DEFERRED[i].is_none() {
                DEFERRED[i] = Some(mem::transmute(b));
                WAITS[i] = PINNED;
                return;
            }
        }
        panic!("too many deferred functions");
    }
    pub fn flush(&self) {}
    pub fn repin(&mut self) {
        if self.id == MAX { return; }
        unsafe {
            release(self.id);
            self.id = acquire();
        }
    }
    pub fn repin_after<G, R>(&mut self, f: G) -> R where G: FnOnce() -> R {
        if self.id == MAX { return f(); }
        unsafe {
            release(self.id);
            let r = f();
            self.id = acquire();
            r
        }
    }
}
impl Drop for Guard {
    fn drop(&mut self) { if self.id != MAX { unsafe { release(self.id) } } }
}
impl Clone for Guard {
    fn clone(&self) -> Guard { if self.id == MAX { Guard { id: MAX } } else { pin() } }
}
pub fn pin() -> Guard { unsafe { Guard { id: acquire() } } }
pub fn is_pinned() -> bool { unsafe { (0..MAX).any(|i| PINNED >> i & 1 == 1 && OWNER[i] == sx_tid()) } }
pub unsafe fn unprotected() -> &'static Guard {
    static UNPROTECTED: Guard = Guard { id: MAX };
    &UNPROTECTED
}
/// There is one collector.
#[derive(Clone)]
pub struct Collector;
#[derive(Clone)]
pub struct Handle;
impl Collector {
    pub fn new() -> Collector { Collector }
    pub fn handle(&self) -> Handle { Handle }
}
impl Handle {
    pub fn pin(&self) -> Guard { pin() }
    pub fn is_pinned(&self) -> bool { is_pinned() }
}
pub fn default_handle() -> Handle { Handle }
