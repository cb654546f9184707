//! The oracle: a map kept as an append-only table of entries, evaluated without
//! branching on symbolic data, so that it adds no paths of its own.
use crate::sx::*;
use std::cmp::Ordering;

/// Keys of the maps under test: ordered by `k`; `t` identifies the instance.
#[derive(Clone, Copy, Debug)]
pub struct K {
    pub k: u8,
    pub t: u8,
}
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.k == o.k } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.k.cmp(&o.k) } }

pub static mut TOUCH: u64 = 0;
/// Like `K`, but records which stored keys a lookup compares against the probe (tag 63).
#[derive(Clone, Copy, Debug)]
pub struct CK {
    pub k: u8,
    pub t: u8,
}
pub const PROBE: u8 = 63;
impl PartialEq for CK { fn eq(&self, o: &CK) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for CK {}
impl PartialOrd for CK { fn partial_cmp(&self, o: &CK) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for CK {
    fn cmp(&self, o: &CK) -> Ordering {
        unsafe {
            TOUCH |= 1 << (self.t & 63) | 1 << (o.t & 63);
        }
        self.k.cmp(&o.k)
    }
}
pub fn touched() -> u32 { unsafe { (TOUCH & !(1 << PROBE)).count_ones() } }
pub fn touch_reset() { unsafe { TOUCH = 0 } }

/// Every boxed token ever made, and how often it was dropped.
pub static mut MADE: u32 = 0;
pub static mut DROPS: [u8; 256] = [0; 256];
/// A heap-owning key or value: a double drop is a double free, a missing one a leak.
#[derive(Debug)]
pub struct Tok {
    pub id: u32,
    pub b: Box<u8>,
}
impl Tok {
    pub fn new(k: u8) -> Tok {
        unsafe {
            let id = MADE;
            MADE += 1;
            Tok { id, b: Box::new(k) }
        }
    }
}
impl Clone for Tok { fn clone(&self) -> Tok { Tok::new(*self.b) } }
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe {
            DROPS[self.id as usize & 255] += 1;
            ck(DROPS[self.id as usize & 255] == 1, "a value is dropped twice");
        }
    }
}
pub fn toks_all_dropped() {
    unsafe {
        for i in 0..MADE as usize {
            ck(DROPS[i] == 1, "a value handed to the collection is never dropped");
        }
    }
}
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { *self.b == *o.b } }
impl Eq for Tok {}
impl PartialOrd for Tok { fn partial_cmp(&self, o: &Tok) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Tok { fn cmp(&self, o: &Tok) -> Ordering { (*self.b).cmp(&*o.b) } }

pub const CAP: usize = 40;
/// `NONE` stands for "no such entry".
pub const NONE: u32 = 0xffff;

#[derive(Clone)]
pub struct Model {
    pub n: usize,
    pub key: [u8; CAP],
    pub tag: [u8; CAP],
    pub val: [u32; CAP],
    pub live: [bool; CAP],
}
impl Model {
    pub fn new() -> Model { Model { n: 0, key: [0; CAP], tag: [0; CAP], val: [0; CAP], live: [false; CAP] } }
    fn drop_key(&mut self, k: u8) -> (u32, u32) {
        let (mut t, mut v) = (NONE, NONE);
        for i in 0..self.n {
            let hit = self.live[i] & (self.key[i] == k);
            t = sel(hit, self.tag[i] as u32, t);
            v = sel(hit, self.val[i], v);
            self.live[i] &= !hit;
        }
        (t, v)
    }
    /// Returns (tag, value) of the entry replaced, or `NONE`s.
    pub fn insert(&mut self, k: u8, t: u8, v: u32) -> (u32, u32) {
        let r = self.drop_key(k);
        self.key[self.n] = k;
        self.tag[self.n] = t;
        self.val[self.n] = v;
        self.live[self.n] = true;
        self.n += 1;
        r
    }
    pub fn remove(&mut self, k: u8) -> (u32, u32) { self.drop_key(k) }
    pub fn clear(&mut self) { self.live = [false; CAP]; }
    pub fn get(&self, k: u8) -> u32 {
        let mut v = NONE;
        for i in 0..self.n {
            v = sel(self.live[i] & (self.key[i] == k), self.val[i], v);
        }
        v
    }
    pub fn tag_of(&self, k: u8) -> u32 {
        let mut v = NONE;
        for i in 0..self.n {
            v = sel(self.live[i] & (self.key[i] == k), self.tag[i] as u32, v);
        }
        v
    }
    pub fn set(&mut self, k: u8, v: u32) {
        for i in 0..self.n {
            self.val[i] = sel(self.live[i] & (self.key[i] == k), v, self.val[i]);
        }
    }
    pub fn has(&self, k: u8) -> bool {
        let mut r = false;
        for i in 0..self.n {
            r |= self.live[i] & (self.key[i] == k);
        }
        r
    }
    pub fn len(&self) -> u32 {
        let mut r = 0;
        for i in 0..self.n {
            r += self.live[i] as u32;
        }
        r
    }
    /// Greatest live key <= k, or `NONE`.
    pub fn floor(&self, k: u8) -> u32 {
        let mut r = NONE;
        for i in 0..self.n {
            let c = self.live[i] & (self.key[i] <= k) & ((r == NONE) | (self.key[i] as u32 >= r));
            r = sel(c, self.key[i] as u32, r);
        }
        r
    }
    /// Least live key >= k, or `NONE`.
    pub fn ceil(&self, k: u8) -> u32 {
        let mut r = NONE;
        for i in 0..self.n {
            let c = self.live[i] & (self.key[i] >= k) & (self.key[i] as u32 <= r);
            r = sel(c, self.key[i] as u32, r);
        }
        r
    }
    pub fn min(&self) -> u32 { self.ceil(0) }
    pub fn max(&self) -> u32 { self.floor(255) }
}
/// One ascending pass over a collection, checked against the model entry by entry.
pub struct Walk {
    last: u32,
    n: u32,
}
impl Walk {
    pub fn new() -> Walk { Walk { last: NONE, n: 0 } }
    pub fn step(&mut self, m: &Model, k: u8, t: u32, v: u32) {
        ck((self.last == NONE) | ((k as u32) > self.last), "iteration is strictly ascending");
        ck(m.has(k), "iteration yields only stored keys");
        ck(m.get(k) == v, "iteration yields the stored value");
        ck((t == NONE) | (m.tag_of(k) == t), "iteration yields the stored key instance");
        self.last = k as u32;
        self.n += 1;
        ck(self.n <= CAP as u32, "iteration ends");
        if self.n > CAP as u32 { end(); }
    }
    pub fn done(&self, m: &Model) { ck(self.n == m.len(), "iteration yields every stored key"); }
}
