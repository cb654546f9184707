//! Radix map and set over byte strings against the model.
use crate::sx::*;
use extended_collections::radix::{RadixMap, RadixSet};

pub const L: usize = 5;
const CAP: usize = 10;
const NONE: u32 = 0xffff;
#[derive(Clone, Copy)]
pub struct Key {
    pub b: [u8; L],
    pub n: usize,
}
impl Key {
    pub fn any(max: usize) -> Key {
        let n = choose(max + 1);
        let mut b = [0; L];
        for i in 0..n { b[i] = u8(); }
        Key { b, n }
    }
    pub fn s(&self) -> &[u8] { &self.b[..self.n] }
}
/// Comparisons without branches on the (symbolic) bytes; lengths are concrete.
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for i in 0..a.len() { r &= a[i] == b[i]; }
    r
}
fn less(a: &[u8], b: &[u8]) -> bool {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut r = a.len() < b.len();
    for i in (0..n).rev() { r = (a[i] < b[i]) | ((a[i] == b[i]) & r); }
    r
}
/// The first `j` bytes of both exist and are the same.
fn share(a: &[u8], b: &[u8], j: usize) -> bool {
    if a.len() < j || b.len() < j { return false; }
    let mut r = true;
    for i in 0..j { r &= a[i] == b[i]; }
    r
}
fn osb(s: &[u8]) { obs(s.len() as u64); for i in 0..s.len() { obs(s[i] as u64); } }
pub struct Model {
    n: usize,
    key: [Key; CAP],
    val: [u32; CAP],
    live: [bool; CAP],
}
impl Model {
    fn new() -> Model { Model { n: 0, key: [Key { b: [0; L], n: 0 }; CAP], val: [0; CAP], live: [false; CAP] } }
    fn remove(&mut self, k: &[u8]) -> u32 {
        let mut v = NONE;
        for i in 0..self.n {
            let hit = self.live[i] & eq(self.key[i].s(), k);
            v = sel(hit, self.val[i], v);
            self.live[i] &= !hit;
        }
        v
    }
    fn insert(&mut self, k: &Key, v: u32) -> u32 {
        let r = self.remove(k.s());
        self.key[self.n] = *k;
        self.val[self.n] = v;
        self.live[self.n] = true;
        self.n += 1;
        r
    }
    fn get(&self, k: &[u8]) -> u32 {
        let mut v = NONE;
        for i in 0..self.n { v = sel(self.live[i] & eq(self.key[i].s(), k), self.val[i], v); }
        v
    }
    fn has(&self, k: &[u8]) -> bool {
        let mut v = false;
        for i in 0..self.n { v |= self.live[i] & eq(self.key[i].s(), k); }
        v
    }
    fn set(&mut self, k: &[u8], v: u32) { for i in 0..self.n { self.val[i] = sel(self.live[i] & eq(self.key[i].s(), k), v, self.val[i]); } }
    fn len(&self) -> u32 {
        let mut r = 0;
        for i in 0..self.n { r += self.live[i] as u32; }
        r
    }
}
pub trait Radix: Sized {
    const SET: bool;
    fn new() -> Self;
    fn insert(&mut self, k: &[u8], v: u32) -> Option<(Vec<u8>, u32)>;
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, u32)>;
    fn contains(&self, k: &[u8]) -> bool;
    fn get(&self, k: &[u8]) -> Option<u32>;
    fn get_mut(&mut self, k: &[u8]) -> Option<&mut u32>;
    fn at(&self, k: &[u8]) -> u32;
    fn at_mut(&mut self, k: &[u8]) -> &mut u32;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn min(&self) -> Option<Vec<u8>>;
    fn max(&self) -> Option<Vec<u8>>;
    fn prefix(&self, k: &[u8]) -> Vec<Vec<u8>>;
    fn each(&self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool;
    fn each_ref(&self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool;
    fn each_mut(&mut self, f: &mut dyn FnMut(Vec<u8>, &mut u32)) -> bool;
    fn each_mut_ref(&mut self, f: &mut dyn FnMut(Vec<u8>, &mut u32)) -> bool;
    fn consume(self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool;
}
macro_rules! drive {
    ($it:expr, $b:expr) => {{
        let mut it = $it;
        let mut n = 0;
        loop {
            match it.next() {
                Some(e) => $b(e),
                None => break it.next().is_none(),
            }
            n += 1;
            if n > 2 * CAP { break false; }
        }
    }};
}
impl Radix for RadixMap<u32> {
    const SET: bool = false;
    fn new() -> Self { RadixMap::new() }
    fn insert(&mut self, k: &[u8], v: u32) -> Option<(Vec<u8>, u32)> { RadixMap::insert(self, k, v) }
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, u32)> { RadixMap::remove(self, k) }
    fn contains(&self, k: &[u8]) -> bool { RadixMap::contains_key(self, k) }
    fn get(&self, k: &[u8]) -> Option<u32> { RadixMap::get(self, k).map(|v| *v) }
    fn get_mut(&mut self, k: &[u8]) -> Option<&mut u32> { RadixMap::get_mut(self, k) }
    fn at(&self, k: &[u8]) -> u32 { self[k] }
    fn at_mut(&mut self, k: &[u8]) -> &mut u32 { &mut self[k] }
    fn len(&self) -> usize { RadixMap::len(self) }
    fn is_empty(&self) -> bool { RadixMap::is_empty(self) }
    fn clear(&mut self) { RadixMap::clear(self) }
    fn min(&self) -> Option<Vec<u8>> { RadixMap::min(self) }
    fn max(&self) -> Option<Vec<u8>> { RadixMap::max(self) }
    fn prefix(&self, k: &[u8]) -> Vec<Vec<u8>> { RadixMap::get_longest_prefix(self, k) }
    fn each(&self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool { drive!(self.iter(), |e: (Vec<u8>, &u32)| f(e.0, *e.1)) }
    fn each_ref(&self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool { drive!((&*self).into_iter(), |e: (Vec<u8>, &u32)| f(e.0, *e.1)) }
    fn each_mut(&mut self, f: &mut dyn FnMut(Vec<u8>, &mut u32)) -> bool { drive!(self.iter_mut(), |e: (Vec<u8>, &mut u32)| f(e.0, e.1)) }
    fn each_mut_ref(&mut self, f: &mut dyn FnMut(Vec<u8>, &mut u32)) -> bool { drive!((&mut *self).into_iter(), |e: (Vec<u8>, &mut u32)| f(e.0, e.1)) }
    fn consume(self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool { drive!(self.into_iter(), |e: (Vec<u8>, u32)| f(e.0, e.1)) }
}
impl Radix for RadixSet {
    const SET: bool = true;
    fn new() -> Self { RadixSet::new() }
    fn insert(&mut self, k: &[u8], _v: u32) -> Option<(Vec<u8>, u32)> { RadixSet::insert(self, k).map(|k| (k, NONE)) }
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, u32)> { RadixSet::remove(self, k).map(|k| (k, NONE)) }
    fn contains(&self, k: &[u8]) -> bool { RadixSet::contains(self, k) }
    fn get(&self, _k: &[u8]) -> Option<u32> { None }
    fn get_mut(&mut self, _k: &[u8]) -> Option<&mut u32> { None }
    fn at(&self, _k: &[u8]) -> u32 { 0 }
    fn at_mut(&mut self, _k: &[u8]) -> &mut u32 { unreachable!() }
    fn len(&self) -> usize { RadixSet::len(self) }
    fn is_empty(&self) -> bool { RadixSet::is_empty(self) }
    fn clear(&mut self) { RadixSet::clear(self) }
    fn min(&self) -> Option<Vec<u8>> { RadixSet::min(self) }
    fn max(&self) -> Option<Vec<u8>> { RadixSet::max(self) }
    fn prefix(&self, k: &[u8]) -> Vec<Vec<u8>> { RadixSet::get_longest_prefix(self, k) }
    fn each(&self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool { drive!(self.iter(), |e: Vec<u8>| f(e, NONE)) }
    fn each_ref(&self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool { drive!((&*self).into_iter(), |e: Vec<u8>| f(e, NONE)) }
    fn each_mut(&mut self, _f: &mut dyn FnMut(Vec<u8>, &mut u32)) -> bool { true }
    fn each_mut_ref(&mut self, _f: &mut dyn FnMut(Vec<u8>, &mut u32)) -> bool { true }
    fn consume(self, f: &mut dyn FnMut(Vec<u8>, u32)) -> bool { drive!(self.into_iter(), |e: Vec<u8>| f(e, NONE)) }
}
pub struct Ctx<M> {
    pub m: M,
    pub o: Model,
    pub next: u32,
    pub max: usize,
}
struct Walk { last: Option<Vec<u8>>, n: u32 }
impl Walk {
    fn new() -> Walk { Walk { last: None, n: 0 } }
    fn step(&mut self, o: &Model, k: &[u8], v: u32) {
        if let Some(l) = &self.last { ck(less(l, k), "iteration is strictly ascending in lexicographic order"); }
        ck(o.has(k), "iteration yields only stored keys");
        ck((v == NONE) | (o.get(k) == v), "iteration yields the stored value");
        self.last = Some(k.to_vec());
        self.n += 1;
    }
    fn done(&self, o: &Model, ended: bool) { ck(ended & (self.n == o.len()), "iteration yields every stored key once and ends"); }
}
impl<M: Radix> Ctx<M> {
    pub fn new(max: usize) -> Self { Ctx { m: M::new(), o: Model::new(), next: 0, max } }
    pub fn lens(&self) {
        ck(self.m.len() as u32 == self.o.len(), "len is the number of live keys");
        ck(self.m.is_empty() == (self.o.len() == 0), "is_empty agrees with the content");
    }
    pub fn insert(&mut self, k: Key) {
        self.next += 1;
        let r = self.m.insert(k.s(), self.next);
        let e = self.o.insert(&k, self.next);
        match r {
            None => ck(e == NONE, "insert reports no replaced entry only if the key was absent"),
            Some((rk, rv)) => { ck(eq(&rk, k.s()) & (e != NONE) & ((rv == e) | M::SET), "insert returns the entry it replaced"); reach("insert replaces"); }
        }
        self.lens();
    }
    pub fn remove(&mut self, k: Key) {
        let r = self.m.remove(k.s());
        let e = self.o.remove(k.s());
        match r {
            None => { ck(e == NONE, "remove finds every stored key"); reach("remove misses"); }
            Some((rk, rv)) => { ck(eq(&rk, k.s()) & (e != NONE) & ((rv == e) | M::SET), "remove returns the whole entry it removed"); reach("remove hits"); }
        }
        self.lens();
    }
    pub fn clear(&mut self) {
        self.m.clear();
        self.o = Model::new();
        self.lens();
    }
    fn lookups(&mut self) {
        self.lens();
        let p = Key::any(self.max);
        let e = p.s();
        let want = self.o.get(e);
        ck(self.m.contains(p.s()) == (want != NONE), "containment is exact");
        if !M::SET {
            let g = self.m.get(p.s()).unwrap_or(NONE);
            ck(g == want, "get returns the stored value");
            obs(g as u64);
            match self.m.get_mut(p.s()) {
                Some(v) => { ck(*v == want, "get_mut reaches the stored value"); *v = 777; reach("get_mut hits"); }
                None => ck(want == NONE, "get_mut finds every stored key"),
            }
            self.o.set(e, 777);
            if self.m.contains(p.s()) {
                ck(self.m.at(p.s()) == 777, "a value written through get_mut is read back");
                *self.m.at_mut(p.s()) = 888;
                self.o.set(e, 888);
            }
            ck(self.m.get(p.s()).unwrap_or(NONE) == self.o.get(e), "later reads return the written value");
        }
    }
    fn iter(&self) {
        let o = &self.o;
        let mut w = Walk::new();
        let e = self.m.each(&mut |k, v| { w.step(o, &k, v); osb(&k); });
        w.done(o, e);
    }
    fn extremes(&self) {
        let o = &self.o;
        match (self.m.min(), self.m.max()) {
            (None, None) => ck(o.len() == 0, "min and max find something unless the collection is empty"),
            (Some(a), Some(b)) => {
                ck(o.has(&a) & o.has(&b), "min and max are stored keys");
                for i in 0..o.n {
                    ck(!o.live[i] | !less(o.key[i].s(), &a), "no key is less than min");
                    ck(!o.live[i] | !less(&b, o.key[i].s()), "no key is greater than max");
                }
                osb(&a);
                osb(&b);
            }
            _ => ck(false, "min and max agree on emptiness"),
        }
    }
    fn prefix(&self) {
        let p = Key::any(self.max);
        let o = &self.o;
        let r = self.m.prefix(p.s());
        // best[j]: some live key shares the first j bytes of the probe
        let mut best = [false; L + 1];
        for j in 1..=L { for i in 0..o.n { best[j] |= o.live[i] & share(p.s(), o.key[i].s(), j); } }
        let due = |k: &[u8]| {
            let mut d = best[1] | (p.n == 0);
            for j in 1..=L { d &= !best[j] | share(p.s(), k, j); }
            d
        };
        let mut cnt = 0;
        for i in 0..o.n { cnt += (o.live[i] & due(o.key[i].s())) as u32; }
        ck(r.len() as u32 == cnt, "the longest-prefix query returns every key sharing it and no other");
        for (i, k) in r.iter().enumerate() {
            ck(o.has(k), "the longest-prefix query returns only stored keys");
            ck(due(k), "the longest-prefix query returns keys that share the longest common prefix");
            if i > 0 { ck(less(&r[i - 1], k), "the longest-prefix query answers in lexicographic order"); }
            osb(k);
        }
        if r.len() > 1 { reach("several keys share the prefix"); }
        if r.is_empty() { reach("no key shares a prefix"); }
    }
    fn writes(mut self) {
        let o = &mut self.o;
        let m = &mut self.m;
        if !M::SET {
            let mut w = Walk::new();
            let e = m.each_mut(&mut |k, v| { w.step(o, &k, *v); *v += 1000; });
            w.done(o, e);
            for i in 0..o.n { o.val[i] += 1000; }
            let mut w = Walk::new();
            let e = m.each_mut_ref(&mut |k, v| w.step(o, &k, *v));
            w.done(o, e);
        }
        let mut w = Walk::new();
        let e = m.each_ref(&mut |k, v| { w.step(o, &k, v); osb(&k); });
        w.done(o, e);
        let mut w = Walk::new();
        let e = self.m.consume(&mut |k, v| w.step(o, &k, v));
        w.done(o, e);
    }
}
/// `n` operations (mask: 1 insert, 2 remove, 4 clear) on keys of at most `max` bytes; the first
/// `pre` of them are insertions.
pub fn history<M: Radix>(pre: usize, n: usize, mask: usize, max: usize) -> Ctx<M> {
    let mut c = Ctx::<M>::new(max);
    for _ in 0..pre { c.insert(Key::any(max)); }
    let mut ks = [0; 3];
    let mut nk = 0;
    for b in 0..3 { if mask >> b & 1 == 1 { ks[nk] = b; nk += 1; } }
    for _ in 0..n {
        match ks[choose(nk)] {
            0 => c.insert(Key::any(max)),
            1 => c.remove(Key::any(max)),
            _ => c.clear(),
        }
    }
    c
}
fn run<M: Radix>(pre: usize, n: usize, mask: usize, max: usize) {
    let mut c = history::<M>(pre, n, mask, max);
    c.lookups();
    reach("end");
}
fn ordered<M: Radix>(pre: usize, n: usize, mask: usize, max: usize, what: usize) {
    let c = history::<M>(pre, n, mask, max);
    if what & 1 != 0 { c.iter(); c.extremes(); }
    if what & 2 != 0 { c.prefix(); }
    if what & 4 != 0 { c.writes(); }
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_radix_map(pre: usize, n: usize, mask: usize, max: usize) { run::<RadixMap<u32>>(pre, n, mask, max) }
#[no_mangle]
pub extern "C" fn h_radix_set(pre: usize, n: usize, mask: usize, max: usize) { run::<RadixSet>(pre, n, mask, max) }
#[no_mangle]
pub extern "C" fn o_radix_map(pre: usize, n: usize, mask: usize, max: usize, what: usize) { ordered::<RadixMap<u32>>(pre, n, mask, max, what) }
#[no_mangle]
pub extern "C" fn o_radix_set(pre: usize, n: usize, mask: usize, max: usize, what: usize) { ordered::<RadixSet>(pre, n, mask, max, what) }
