//! TypedArena handles.
use crate::sx::*;
use extended_collections::arena::{Entry, TypedArena};

const N: usize = 12;
struct C {
    a: TypedArena<u32>,
    h: [Option<Entry>; N],
    live: [bool; N],
    val: [u32; N],
    n: usize,
}
impl C {
    fn new(chunk: usize) -> C { C { a: TypedArena::new(chunk), h: [None; N], live: [false; N], val: [0; N], n: 0 } }
    fn alloc(&mut self) {
        let v = u32();
        let e = self.a.allocate(v);
        let freed = |s: &C| { // is there a slot of a freed handle no live handle uses
            let mut r = false;
            for i in 0..s.n {
                if !s.live[i] {
                    let mut used = false;
                    for j in 0..s.n { used |= s.live[j] && s.h[j] == s.h[i]; }
                    r |= !used;
                }
            }
            r
        };
        let mut reused = false;
        for i in 0..self.n {
            ck(!(self.live[i] && self.h[i] == Some(e)), "a new handle differs from every live handle");
            reused |= self.h[i] == Some(e);
        }
        if freed(self) { ck(reused, "a freed slot is reused before the arena grows"); reach("slot reused"); }
        self.h[self.n] = Some(e);
        self.live[self.n] = true;
        self.val[self.n] = v;
        self.n += 1;
    }
    /// Is the slot of handle i in use (possibly by a later handle)?
    fn holder(&self, i: usize) -> Option<usize> {
        for j in 0..self.n { if self.live[j] && self.h[j] == self.h[i] { return Some(j); } }
        None
    }
    fn free(&mut self, i: usize) {
        let e = self.h[i].unwrap();
        let r = self.a.free(&e);
        ck(r == self.val[i], "free returns the stored value");
        self.live[i] = false;
    }
    fn verify(&mut self) {
        for i in 0..self.n {
            let e = self.h[i].unwrap();
            match self.holder(i) {
                Some(j) => {
                    ck(self.a.get(&e).map(|v| *v) == Some(self.val[j]), "a live handle reaches its own value");
                    ck(self.a[e] == self.val[j], "the index expression reaches the value");
                    ck(self.a.get_mut(&e).map(|v| *v) == Some(self.val[j]), "a live handle reaches its own value mutably");
                    obs(self.val[j] as u64);
                }
                None => {
                    ck(self.a.get(&e).is_none(), "a freed handle is not found");
                    ck(self.a.get_mut(&e).is_none(), "a freed handle is not found mutably");
                    reach("freed handle");
                }
            }
        }
    }
    fn op(&mut self, kinds: usize) {
        match choose(kinds) {
            0 => self.alloc(),
            1 => {
                let i = conc(below(self.n.max(1)) as u64) as usize;
                if i < self.n && self.live[i] { self.free(i); }
            }
            k => {
                let i = conc(below(self.n.max(1)) as u64) as usize;
                if i < self.n && self.live[i] {
                    let v = u32();
                    let e = self.h[i].unwrap();
                    if k == 2 { *self.a.get_mut(&e).unwrap() = v; } else { self.a[e] = v; }
                    self.val[i] = v;
                }
            }
        }
    }
}
/// Any chunk size below `maxchunk`, `pre` allocations, then `n` arbitrary operations.
#[no_mangle]
pub extern "C" fn h_arena(maxchunk: usize, pre: usize, n: usize, kinds: usize) {
    let mut c = C::new(below(maxchunk));
    for _ in 0..pre { c.alloc(); }
    for _ in 0..n { c.op(kinds); }
    c.verify();
    reach("end");
}
/// A freed or foreign handle is refused and leaves the arena as it was.
#[no_mangle]
pub extern "C" fn x_arena(maxchunk: usize, pre: usize, n: usize) {
    let chunk = below(maxchunk);
    let mut c = C::new(chunk);
    for _ in 0..pre { c.alloc(); }
    for _ in 0..n { c.op(2); }
    // a handle of another arena, with another geometry
    let mut other = TypedArena::new(below(maxchunk));
    let k = choose(6);
    let mut e = other.allocate(0u32);
    for _ in 0..k { e = other.allocate(0); }
    let mut stale = false;
    if c.n > 0 && choose(2) == 1 {
        let i = conc(below(c.n) as u64) as usize;
        e = c.h[i].unwrap();
        stale = true;
    }
    let mut known = false;
    for i in 0..c.n { known |= c.live[i] && c.h[i] == Some(e); }
    if !known {
        ck(c.a.get(&e).is_none(), "an invalid handle is not found");
        ck(c.a.get_mut(&e).is_none(), "an invalid handle is not found mutably");
        let a = &mut c.a;
        let p = match choose(3) {
            0 => catches(|| { a.free(&e); }),
            1 => catches(|| { a[e]; }),
            _ => catches(|| { a[e] = 1; }),
        };
        ck(p, "an invalid handle is refused");
        reach(if stale { "stale handle" } else { "foreign handle" });
    }
    c.verify();
    c.alloc();
    c.alloc();
    c.verify();
    reach("end");
}
