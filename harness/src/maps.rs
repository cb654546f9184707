//! Ordered maps and sets (AVL, red-black, splay, treap, skip list) against the model.
use crate::model::*;
use crate::rng;
use crate::sx::*;
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapMap, TreapSet};

/// A key type the generic histories can build and take apart.
pub trait Key: Ord {
    fn mk(k: u8, t: u8) -> Self;
    fn k(&self) -> u8;
    fn t(&self) -> u8;
}
impl Key for K {
    fn mk(k: u8, t: u8) -> K { K { k, t } }
    fn k(&self) -> u8 { self.k }
    fn t(&self) -> u8 { self.t }
}
impl Key for CK {
    fn mk(k: u8, t: u8) -> CK { CK { k, t } }
    fn k(&self) -> u8 { self.k }
    fn t(&self) -> u8 { self.t }
}

pub trait Map<T: Key> {
    const SET: bool = false;
    fn new() -> Self;
    fn insert(&mut self, k: T, v: u32) -> Option<(T, u32)>;
    fn remove(&mut self, k: &T) -> Option<(T, u32)>;
    fn contains(&self, k: &T) -> bool;
    fn get(&self, k: &T) -> Option<u32>;
    fn get_mut(&mut self, k: &T) -> Option<&mut u32>;
    fn index(&self, k: &T) -> u32;
    fn index_mut(&mut self, k: &T) -> &mut u32;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn floor(&self, k: &T) -> Option<&T>;
    fn ceil(&self, k: &T) -> Option<&T>;
    fn min(&self) -> Option<&T>;
    fn max(&self) -> Option<&T>;
    fn each(&self, f: &mut dyn FnMut(&T, u32));
    fn each_ref(&self, f: &mut dyn FnMut(&T, u32));
    fn each_mut(&mut self, f: &mut dyn FnMut(&T, &mut u32));
    fn each_mut_ref(&mut self, f: &mut dyn FnMut(&T, &mut u32));
    fn consume(self, limit: usize, f: &mut dyn FnMut(T, u32)) -> bool;
}
/// Asks an exhausted iterator again: it has to keep saying `None`.
macro_rules! drive {
    ($it:expr, $n:ident, $body:expr) => {{
        let mut it = $it;
        let mut $n = 0;
        while let Some(e) = it.next() {
            $body(e);
            $n += 1;
            if $n > CAP { ck(false, "iteration ends"); end(); }
        }
        ck(it.next().is_none(), "an exhausted iterator stays exhausted");
    }};
}
macro_rules! map_impl {
    ($m:ident) => {
        impl<T: Key> Map<T> for $m<T, u32> {
            fn new() -> Self { $m::new() }
            fn insert(&mut self, k: T, v: u32) -> Option<(T, u32)> { $m::insert(self, k, v) }
            fn remove(&mut self, k: &T) -> Option<(T, u32)> { $m::remove(self, k) }
            fn contains(&self, k: &T) -> bool { $m::contains_key(self, k) }
            fn get(&self, k: &T) -> Option<u32> { $m::get(self, k).map(|v| *v) }
            fn get_mut(&mut self, k: &T) -> Option<&mut u32> { $m::get_mut(self, k) }
            fn index(&self, k: &T) -> u32 { self[k] }
            fn index_mut(&mut self, k: &T) -> &mut u32 { &mut self[k] }
            fn len(&self) -> usize { $m::len(self) }
            fn is_empty(&self) -> bool { $m::is_empty(self) }
            fn clear(&mut self) { $m::clear(self) }
            fn floor(&self, k: &T) -> Option<&T> { $m::floor(self, k) }
            fn ceil(&self, k: &T) -> Option<&T> { $m::ceil(self, k) }
            fn min(&self) -> Option<&T> { $m::min(self) }
            fn max(&self) -> Option<&T> { $m::max(self) }
            fn each(&self, f: &mut dyn FnMut(&T, u32)) { drive!(self.iter(), n, |e: (&T, &u32)| f(e.0, *e.1)) }
            fn each_ref(&self, f: &mut dyn FnMut(&T, u32)) { drive!((&*self).into_iter(), n, |e: (&T, &u32)| f(e.0, *e.1)) }
            fn each_mut(&mut self, f: &mut dyn FnMut(&T, &mut u32)) { drive!(self.iter_mut(), n, |e: (&T, &mut u32)| f(e.0, e.1)) }
            fn each_mut_ref(&mut self, f: &mut dyn FnMut(&T, &mut u32)) { drive!((&mut *self).into_iter(), n, |e: (&T, &mut u32)| f(e.0, e.1)) }
            fn consume(self, limit: usize, f: &mut dyn FnMut(T, u32)) -> bool {
                let mut it = self.into_iter();
                for _ in 0..limit {
                    match it.next() {
                        Some((k, v)) => f(k, v),
                        None => {
                            ck(it.next().is_none(), "an exhausted iterator stays exhausted");
                            return true;
                        }
                    }
                }
                false
            }
        }
    };
}
macro_rules! set_impl {
    ($m:ident) => {
        impl<T: Key> Map<T> for $m<T> {
            const SET: bool = true;
            fn new() -> Self { $m::new() }
            fn insert(&mut self, k: T, _v: u32) -> Option<(T, u32)> { $m::insert(self, k).map(|k| { let t = k.t() as u32; (k, t) }) }
            fn remove(&mut self, k: &T) -> Option<(T, u32)> { $m::remove(self, k).map(|k| { let t = k.t() as u32; (k, t) }) }
            fn contains(&self, k: &T) -> bool { $m::contains(self, k) }
            fn get(&self, k: &T) -> Option<u32> { if $m::contains(self, k) { Some(NONE) } else { None } }
            fn get_mut(&mut self, _k: &T) -> Option<&mut u32> { None }
            fn index(&self, _k: &T) -> u32 { 0 }
            fn index_mut(&mut self, _k: &T) -> &mut u32 { unreachable!() }
            fn len(&self) -> usize { $m::len(self) }
            fn is_empty(&self) -> bool { $m::is_empty(self) }
            fn clear(&mut self) { $m::clear(self) }
            fn floor(&self, k: &T) -> Option<&T> { $m::floor(self, k) }
            fn ceil(&self, k: &T) -> Option<&T> { $m::ceil(self, k) }
            fn min(&self) -> Option<&T> { $m::min(self) }
            fn max(&self) -> Option<&T> { $m::max(self) }
            fn each(&self, f: &mut dyn FnMut(&T, u32)) { drive!(self.iter(), n, |e: &T| f(e, e.t() as u32)) }
            fn each_ref(&self, f: &mut dyn FnMut(&T, u32)) { drive!((&*self).into_iter(), n, |e: &T| f(e, e.t() as u32)) }
            fn each_mut(&mut self, _f: &mut dyn FnMut(&T, &mut u32)) {}
            fn each_mut_ref(&mut self, _f: &mut dyn FnMut(&T, &mut u32)) {}
            fn consume(self, limit: usize, f: &mut dyn FnMut(T, u32)) -> bool {
                let mut it = self.into_iter();
                for _ in 0..limit {
                    match it.next() {
                        Some(k) => { let t = k.t() as u32; f(k, t) }
                        None => {
                            ck(it.next().is_none(), "an exhausted iterator stays exhausted");
                            return true;
                        }
                    }
                }
                false
            }
        }
    };
}
map_impl!(AvlMap);
map_impl!(RedBlackMap);
map_impl!(SplayMap);
map_impl!(TreapMap);
map_impl!(SkipMap);
set_impl!(AvlSet);
set_impl!(RedBlackSet);
set_impl!(SplaySet);
set_impl!(TreapSet);
set_impl!(SkipSet);

pub struct Ctx<M> {
    pub m: M,
    pub o: Model,
    pub next: u8,
}
fn opt<T: Key>(r: &Option<&T>) -> u32 { match r { Some(k) => k.k() as u32, None => NONE } }

impl<M> Ctx<M> {
    pub fn new<T: Key>() -> Ctx<M> where M: Map<T> { Ctx { m: M::new(), o: Model::new(), next: 0 } }
    pub fn tag(&mut self) -> u8 { let t = self.next; self.next += 1; t }
    pub fn insert<T: Key>(&mut self, k: u8) where M: Map<T> {
        let t = self.tag();
        let r = self.m.insert(T::mk(k, t), t as u32);
        let (et, ev) = self.o.insert(k, t, t as u32);
        match r {
            None => ck(et == NONE, "insert reports no replaced entry only if the key was absent"),
            Some((rk, rv)) => {
                ck(et != NONE, "insert reports a replaced entry only if the key was present");
                ck((rk.k() == k) & (rk.t() as u32 == et) & (rv == ev), "insert returns the entry it replaced");
                reach("insert replaces");
            }
        }
        self.o_len();
    }
    fn o_len<T: Key>(&self) where M: Map<T> {
        ck(self.m.len() as u32 == self.o.len(), "len is the number of live keys");
    }
    pub fn remove<T: Key>(&mut self, k: u8) where M: Map<T> {
        let r = self.m.remove(&T::mk(k, PROBE));
        let (et, ev) = self.o.remove(k);
        match r {
            None => { ck(et == NONE, "remove finds every stored key"); reach("remove misses"); }
            Some((rk, rv)) => {
                ck((rk.k() == k) & (rk.t() as u32 == et) & (rv == ev), "remove returns the entry it removed");
                reach("remove hits");
            }
        }
        self.o_len();
    }
    pub fn clear<T: Key>(&mut self) where M: Map<T> {
        self.m.clear();
        self.o.clear();
        ck(self.m.is_empty(), "clear empties the collection");
        self.o_len();
    }
    pub fn get<T: Key>(&mut self, p: u8) where M: Map<T> {
        let g = match self.m.get(&T::mk(p, PROBE)) { Some(v) => v, None => NONE };
        if M::SET { return; }
        ck(g == self.o.get(p), "get returns the stored value");
        obs(g as u64);
    }
    pub fn contains<T: Key>(&mut self, p: u8) where M: Map<T> {
        let c = self.m.contains(&T::mk(p, PROBE));
        ck(c == self.o.has(p), "containment is exact");
    }
    pub fn floor<T: Key>(&mut self, p: u8) where M: Map<T> {
        let pk = T::mk(p, PROBE);
        let r = self.m.floor(&pk);
        ck(opt(&r) == self.o.floor(p), "floor is the greatest key <= the probe");
        if let Some(k) = r { ck(k.t() as u32 == self.o.tag_of(k.k()), "floor returns the stored key"); }
    }
    pub fn ceil<T: Key>(&mut self, p: u8) where M: Map<T> {
        let pk = T::mk(p, PROBE);
        let r = self.m.ceil(&pk);
        ck(opt(&r) == self.o.ceil(p), "ceil is the least key >= the probe");
        if let Some(k) = r { ck(k.t() as u32 == self.o.tag_of(k.k()), "ceil returns the stored key"); }
    }
    pub fn extremes<T: Key>(&mut self) where M: Map<T> {
        let a = opt(&self.m.min());
        let b = opt(&self.m.max());
        ck(a == self.o.min(), "min is the smallest key");
        ck(b == self.o.max(), "max is the largest key");
        obs(a as u64);
        obs(b as u64);
    }
    pub fn iter<T: Key>(&mut self) where M: Map<T> {
        let mut w = Walk::new();
        let o = &self.o;
        self.m.each(&mut |k, v| { w.step(o, k.k(), k.t() as u32, v); obs(k.k() as u64); obs(v as u64); });
        w.done(o);
    }
    /// Every query, with one arbitrary probe.
    pub fn queries<T: Key>(&mut self) where M: Map<T> {
        self.o_len::<T>();
        ck(self.m.is_empty() == (self.o.len() == 0), "is_empty agrees with the content");
        obs(self.m.len() as u64);
        self.iter::<T>();
        self.extremes::<T>();
        let p = u8();
        self.get::<T>(p);
        self.contains::<T>(p);
        self.floor::<T>(p);
        self.ceil::<T>(p);
        self.get::<T>(p);
    }
    /// All iterators agree, writes through the mutable accessors persist.
    pub fn writes<T: Key>(mut self) where M: Map<T> {
        let m = &mut self.m;
        let o = &mut self.o;
        if !M::SET {
            let mut w = Walk::new();
            m.each_mut(&mut |k, v| { w.step(o, k.k(), k.t() as u32, *v); *v += 1000; });
            w.done(o);
            for i in 0..o.n { o.val[i] += 1000; }
            let mut w = Walk::new();
            m.each(&mut |k, v| w.step(o, k.k(), k.t() as u32, v));
            w.done(o);
            let p = u8();
            let pk = T::mk(p, PROBE);
            match m.get_mut(&pk) {
                Some(v) => {
                    ck(*v == o.get(p), "get_mut reaches the stored value");
                    *v = 5000;
                    reach("get_mut hits");
                }
                None => { ck(!o.has(p), "get_mut finds every stored key"); reach("get_mut misses"); }
            }
            o.set(p, 5000);
            if m.contains(&pk) {
                ck(m.index(&pk) == 5000, "a value written through get_mut is read back");
                *m.index_mut(&pk) = 6000;
                o.set(p, 6000);
                ck(m.index(&pk) == 6000, "a value written through the index is read back");
            }
            ck(m.get(&pk).unwrap_or(NONE) == o.get(p), "later reads return the written value");
            let mut w = Walk::new();
            m.each_mut_ref(&mut |k, v| w.step(o, k.k(), k.t() as u32, *v));
            w.done(o);
        }
        let mut w = Walk::new();
        m.each_ref(&mut |k, v| w.step(o, k.k(), k.t() as u32, v));
        w.done(o);
        let mut w = Walk::new();
        let full = self.m.consume(CAP, &mut |k, v| w.step(o, k.k(), k.t() as u32, v));
        ck(full, "the consuming iterator ends");
        w.done(o);
    }
}

/// Inserts n keys with arbitrary values k1 < k2 < ... < kn in one of several orders.
pub fn prefix<T: Key, M: Map<T>>(c: &mut Ctx<M>, n: usize, orders: usize) -> [u8; CAP] {
    let mut ks = [0u8; CAP];
    if n == 0 { return ks; }
    for i in 0..n {
        ks[i] = u8();
        if i > 0 { assume(ks[i - 1] < ks[i]); }
    }
    let ord = choose(orders);
    for i in 0..n {
        let j = match ord {
            0 => i,
            1 => n - 1 - i,
            2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
            3 => (i * 2) % n + if n % 2 == 0 && i * 2 >= n { 1 } else { 0 },
            _ => { // bit reversal
                let bits = usize::BITS - (n - 1).leading_zeros();
                let mut seen = 0;
                let mut r = 0;
                for x in 0..(1usize << bits) {
                    let y = x.reverse_bits() >> (usize::BITS - bits);
                    if y < n { if seen == i { r = y; break; } seen += 1; }
                }
                r
            }
        };
        c.insert::<T>(ks[j]);
    }
    ks
}
/// Removes every one of the first n keys that lies in an arbitrary interval, from one end of it.
fn drain<T: Key, M: Map<T>>(c: &mut Ctx<M>, ks: &[u8; CAP], n: usize) {
    let (lo, hi) = (u8(), u8());
    let down = choose(2) == 1;
    for i in 0..n {
        let k = if down { ks[n - 1 - i] } else { ks[i] };
        if (lo <= k) & (k <= hi) { c.remove::<T>(k); }
    }
    reach("drained");
}
/// `pre` ordered keys (with `orders` + 16, an arbitrary interval of them removed again), then `n` operations, each of an arbitrary kind with an arbitrary key.
/// kinds: bit 0 insert, 1 remove, 2 clear, 3 get, 4 contains, 5 floor, 6 ceil, 7 min/max, 8 iter.
fn kinds_of(mask: usize) -> ([usize; 16], usize) {
    let mut ks = [0; 16];
    let mut n = 0;
    for b in 0..9 { if mask >> b & 1 == 1 { ks[n] = b; n += 1; } }
    (ks, n)
}
pub fn history<T: Key, M: Map<T>>(pre: usize, orders: usize, n: usize, mask: usize) -> Ctx<M> {
    let mut c = Ctx::<M>::new::<T>();
    let sorted = prefix::<T, M>(&mut c, pre, orders & 15);
    if orders >= 16 { drain::<T, M>(&mut c, &sorted, pre); }
    let (ks, nk) = kinds_of(mask);
    for _ in 0..n {
        match ks[choose(nk)] {
            0 => c.insert::<T>(u8()),
            1 => c.remove::<T>(u8()),
            2 => c.clear::<T>(),
            3 => c.get::<T>(u8()),
            4 => c.contains::<T>(u8()),
            5 => c.floor::<T>(u8()),
            6 => c.ceil::<T>(u8()),
            7 => c.extremes::<T>(),
            _ => c.iter::<T>(),
        }
    }
    c
}
fn model_run<M: Map<K>>(pre: usize, orders: usize, n: usize, mask: usize, heights: usize) {
    rng::set(heights);
    let mut c = history::<K, M>(pre, orders, n, mask);
    c.queries::<K>();
    reach("end");
}
fn iter_run<M: Map<K>>(pre: usize, orders: usize, n: usize, mask: usize, heights: usize) {
    rng::set(heights);
    let c = history::<K, M>(pre, orders, n, mask);
    c.writes::<K>();
    reach("end");
}
/// A lookup compares the probe with at most `bound(len)` distinct stored keys.
fn depth_run<M: Map<CK>>(pre: usize, orders: usize, n: usize, mask: usize, bound: fn(usize) -> u32) {
    let c = history::<CK, M>(pre, orders, n, mask);
    let p = u8();
    let b = bound(c.m.len());
    let pk = CK::mk(p, PROBE);
    touch_reset();
    let hit = c.m.contains(&pk);
    ck(touched() <= b, "containment stays within the height bound");
    if hit { reach("lookup hits"); } else { reach("lookup misses"); }
    touch_reset();
    c.m.get(&pk);
    ck(touched() <= b, "get stays within the height bound");
    touch_reset();
    c.m.floor(&pk);
    ck(touched() <= b, "floor stays within the height bound");
    touch_reset();
    c.m.ceil(&pk);
    ck(touched() <= b, "ceil stays within the height bound");
    obs(touched() as u64);
    reach("end");
}
/// Height of the tallest AVL tree with n nodes.
fn avl_bound(n: usize) -> u32 {
    let (mut a, mut b, mut h) = (0usize, 1usize, 0);
    while b <= n {
        let c = a + b + 1;
        a = b;
        b = c;
        h += 1;
    }
    h
}
/// floor(2 * log2(n + 1))
fn rb_bound(n: usize) -> u32 {
    let sq = (n + 1) * (n + 1);
    usize::BITS - 1 - sq.leading_zeros()
}

macro_rules! entries {
    ($($m:ident, $name:ident, $iname:ident;)*) => { $(
        #[cfg(feature = "maps")]
        #[no_mangle]
        pub extern "C" fn $name(pre: usize, orders: usize, n: usize, mask: usize, heights: usize) { model_run::<$m!()>(pre, orders, n, mask, heights) }
        #[cfg(feature = "maps")]
        #[no_mangle]
        pub extern "C" fn $iname(pre: usize, orders: usize, n: usize, mask: usize, heights: usize) { iter_run::<$m!()>(pre, orders, n, mask, heights) }
    )* };
}
macro_rules! avl_map { () => { AvlMap<K, u32> } }
macro_rules! avl_set { () => { AvlSet<K> } }
macro_rules! rb_map { () => { RedBlackMap<K, u32> } }
macro_rules! rb_set { () => { RedBlackSet<K> } }
macro_rules! splay_map { () => { SplayMap<K, u32> } }
macro_rules! splay_set { () => { SplaySet<K> } }
macro_rules! treap_map { () => { TreapMap<K, u32> } }
macro_rules! treap_set { () => { TreapSet<K> } }
macro_rules! skip_map { () => { SkipMap<K, u32> } }
macro_rules! skip_set { () => { SkipSet<K> } }
entries! {
    avl_map, h_avl_map, i_avl_map;
    avl_set, h_avl_set, i_avl_set;
    rb_map, h_rb_map, i_rb_map;
    rb_set, h_rb_set, i_rb_set;
    splay_map, h_splay_map, i_splay_map;
    splay_set, h_splay_set, i_splay_set;
    treap_map, h_treap_map, i_treap_map;
    treap_set, h_treap_set, i_treap_set;
    skip_map, h_skip_map, i_skip_map;
    skip_set, h_skip_set, i_skip_set;
}
#[cfg(feature = "maps")]
#[no_mangle]
pub extern "C" fn d_avl_map(pre: usize, orders: usize, n: usize, mask: usize) { depth_run::<AvlMap<CK, u32>>(pre, orders, n, mask, avl_bound) }
#[cfg(feature = "maps")]
#[no_mangle]
pub extern "C" fn d_avl_set(pre: usize, orders: usize, n: usize, mask: usize) { depth_run::<AvlSet<CK>>(pre, orders, n, mask, avl_bound) }
#[cfg(feature = "maps")]
#[no_mangle]
pub extern "C" fn d_rb_map(pre: usize, orders: usize, n: usize, mask: usize) { depth_run::<RedBlackMap<CK, u32>>(pre, orders, n, mask, rb_bound) }
#[cfg(feature = "maps")]
#[no_mangle]
pub extern "C" fn d_rb_set(pre: usize, orders: usize, n: usize, mask: usize) { depth_run::<RedBlackSet<CK>>(pre, orders, n, mask, rb_bound) }
