//! Ownership: every key and value is dropped exactly once and no memory stays behind.
use crate::model::*;
use crate::rng;
use crate::sx::*;
use extended_collections::arena::TypedArena;
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::radix::{RadixMap, RadixSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use std::alloc::{GlobalAlloc, Layout, System};

pub static mut LIVE: i64 = 0;
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE += 1; System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE -= 1; System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { LIVE += 1; System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

pub trait Own: Sized {
    fn new() -> Self;
    /// How many kinds of operation and of ways to end there are.
    const OPS: usize;
    const ENDS: usize;
    fn op(&mut self, kind: usize, len: usize);
    fn size(&self) -> usize;
    /// Consumes the collection in way `e` (0 drops it, 1 takes `k` items from its iterator, ...).
    fn finish(self, e: usize, other: Self, k: usize);
}
/// Ways to end a collection: 0 dropped; 1 iterator partly consumed; 2 assigned over; 3.. specific.
macro_rules! tree_own {
    ($t:ty, $kinds:expr, |$c:ident, $k:ident| $ins:expr, $rem:expr, $get:expr; $ends:expr, |$a:ident, $b:ident, $e:ident| $fin:expr) => {
        impl Own for $t {
            const OPS: usize = $kinds;
            const ENDS: usize = $ends;
            fn new() -> Self { <$t>::new() }
            fn op(&mut self, kind: usize, _len: usize) {
                let $c = self;
                match kind {
                    0 => { let $k = Tok::new(u8()); $ins; }
                    1 => { let $k = Tok::new(u8()); $rem; reach("removal"); }
                    2 => $c.clear(),
                    _ => { let $k = Tok::new(u8()); $get; }
                }
            }
            fn size(&self) -> usize { self.len() }
            fn finish(self, $e: usize, $b: Self, k: usize) {
                match $e {
                    0 => {}
                    1 => {
                        let mut it = self.into_iter();
                        for _ in 0..k { it.next(); }
                        reach("iterator dropped");
                    }
                    2 => { let mut s = self; s = $b; drop(s); }
                    _ => { let $a = self; $fin; reach("combined"); }
                }
            }
        }
    };
}
fn val() -> Tok { Tok::new(1) }
tree_own!(AvlMap<Tok, Tok>, 4, |c, k| c.insert(k, val()), c.remove(&k), c.get(&k); 3, |_a, _b, _e| ());
tree_own!(AvlSet<Tok>, 4, |c, k| c.insert(k), c.remove(&k), c.contains(&k); 3, |_a, _b, _e| ());
tree_own!(RedBlackMap<Tok, Tok>, 4, |c, k| c.insert(k, val()), c.remove(&k), c.get(&k); 3, |_a, _b, _e| ());
tree_own!(RedBlackSet<Tok>, 4, |c, k| c.insert(k), c.remove(&k), c.contains(&k); 3, |_a, _b, _e| ());
tree_own!(SplayMap<Tok, Tok>, 4, |c, k| c.insert(k, val()), c.remove(&k), c.get(&k); 3, |_a, _b, _e| ());
tree_own!(SplaySet<Tok>, 4, |c, k| c.insert(k), c.remove(&k), c.contains(&k); 3, |_a, _b, _e| ());
macro_rules! alg {
    ($t:ident, $a:ident, $b:ident, $e:ident) => {
        match $e {
            3 => drop($t::union($a, $b)),
            4 => drop($t::intersection($a, $b)),
            5 => drop($t::difference($a, $b)),
            6 => drop($t::symmetric_difference($a, $b)),
            7 => drop($a + $b),
            _ => drop($a - $b),
        }
    };
}
macro_rules! split {
    ($t:ident, $a:ident, $b:ident, $e:ident) => {
        if $e < 9 { alg!($t, $a, $b, $e) } else {
            let mut l = $a;
            let p = Tok::new(u8());
            let r = l.split_off(&p, $e == 9);
            if choose(2) == 0 { drop(l); drop(r); } else { drop(r); drop(l); }
        }
    };
}
tree_own!(TreapMap<Tok, Tok>, 4, |c, k| c.insert(k, val()), c.remove(&k), c.get(&k); 11, |a, b, e| split!(TreapMap, a, b, e));
tree_own!(TreapSet<Tok>, 4, |c, k| c.insert(k), c.remove(&k), c.contains(&k); 11, |a, b, e| split!(TreapSet, a, b, e));
tree_own!(SkipMap<Tok, Tok>, 4, |c, k| c.insert(k, val()), c.remove(&k), c.get(&k); 9, |a, b, e| alg!(SkipMap, a, b, e));
tree_own!(SkipSet<Tok>, 4, |c, k| c.insert(k), c.remove(&k), c.contains(&k); 9, |a, b, e| alg!(SkipSet, a, b, e));

macro_rules! list_own {
    ($t:ident) => {
        impl Own for $t<Tok> {
            const OPS: usize = 5;
            const ENDS: usize = 4;
            fn new() -> Self { $t::new() }
            fn op(&mut self, kind: usize, len: usize) {
                match kind {
                    0 => self.insert(below(len + 1), val()),
                    1 => if len > 0 { self.remove(below(len)); reach("removal"); },
                    2 => self.clear(),
                    3 => if len > 0 { if choose(2) == 0 { self.pop_front(); } else { self.pop_back(); } },
                    _ => if len > 0 { self[below(len)] = val(); },
                }
            }
            fn size(&self) -> usize { self.len() }
            fn finish(self, e: usize, other: Self, k: usize) {
                match e {
                    0 => {}
                    1 => {
                        let mut it = self.into_iter();
                        for _ in 0..k { it.next(); }
                        reach("iterator dropped");
                    }
                    2 => { let mut s = self; s = other; drop(s); }
                    _ => { drop(self + other); reach("combined"); }
                }
            }
        }
    };
}
list_own!(TreapList);
list_own!(SkipList);

fn key() -> ([u8; 3], usize) {
    let n = choose(3);
    let mut b = [0; 3];
    for i in 0..n { b[i] = u8(); }
    (b, n)
}
impl Own for RadixMap<Tok> {
    const OPS: usize = 4;
    const ENDS: usize = 3;
    fn new() -> Self { RadixMap::new() }
    fn op(&mut self, kind: usize, _len: usize) {
        let (b, n) = key();
        match kind {
            0 => { self.insert(&b[..n], val()); }
            1 => { self.remove(&b[..n]); reach("removal"); }
            2 => self.clear(),
            _ => if let Some(v) = self.get_mut(&b[..n]) { *v = val(); },
        }
    }
    fn size(&self) -> usize { self.len() }
    fn finish(self, e: usize, other: Self, k: usize) {
        match e {
            0 => {}
            1 => {
                let mut it = self.into_iter();
                for _ in 0..k { it.next(); }
                reach("iterator dropped");
            }
            _ => { let mut s = self; s = other; drop(s); }
        }
    }
}
impl Own for RadixSet {
    const OPS: usize = 3;
    const ENDS: usize = 3;
    fn new() -> Self { RadixSet::new() }
    fn op(&mut self, kind: usize, _len: usize) {
        let (b, n) = key();
        match kind {
            0 => { self.insert(&b[..n]); }
            1 => { self.remove(&b[..n]); reach("removal"); }
            _ => self.clear(),
        }
    }
    fn size(&self) -> usize { self.len() }
    fn finish(self, e: usize, other: Self, k: usize) {
        match e {
            0 => {}
            1 => {
                let mut it = self.into_iter();
                for _ in 0..k { it.next(); }
                reach("iterator dropped");
            }
            _ => { let mut s = self; s = other; drop(s); }
        }
    }
}
fn run<T: Own>(pre: usize, n: usize, ops: usize, other: usize, h: usize) {
    rng::set(h);
    let base = unsafe { LIVE };
    {
        let mut c = T::new();
        for _ in 0..pre { let l = c.size(); c.op(0, l); }
        let k = if ops < T::OPS { ops } else { T::OPS };
        for _ in 0..n { let l = c.size(); c.op(choose(k), l); }
        let mut o = T::new();
        for _ in 0..other { let l = o.size(); o.op(0, l); }
        let len = c.size();
        obs(len as u64);
        let e = choose(T::ENDS);
        let k = if e == 1 { choose(len + 2) } else { 0 };
        c.finish(e, o, k);
    }
    toks_all_dropped();
    obs(unsafe { MADE } as u64);
    ck(unsafe { LIVE } == base, "memory stays allocated after the collection is gone");
    reach("end");
}
/// The arena: values in freed and live slots, overwritten through handles.
#[no_mangle]
pub extern "C" fn t_arena(chunk: usize, n: usize) {
    let base = unsafe { LIVE };
    {
        let mut a = TypedArena::new(chunk);
        let mut h = Vec::new();
        for _ in 0..n {
            match choose(3) {
                0 => h.push(a.allocate(val())),
                1 => if !h.is_empty() { let e = h.swap_remove(conc(below(h.len()) as u64) as usize); drop(a.free(&e)); reach("removal"); },
                _ => if !h.is_empty() { let i = conc(below(h.len()) as u64) as usize; *a.get_mut(&h[i]).unwrap() = val(); },
            }
        }
    }
    toks_all_dropped();
    ck(unsafe { LIVE } == base, "memory stays allocated after the collection is gone");
    reach("end");
}
macro_rules! entries {
    ($($n:ident, $t:ty;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(pre: usize, n: usize, ops: usize, other: usize, h: usize) { run::<$t>(pre, n, ops, other, h) }
    )* };
}
entries! {
    t_avl_map, AvlMap<Tok, Tok>;
    t_avl_set, AvlSet<Tok>;
    t_rb_map, RedBlackMap<Tok, Tok>;
    t_rb_set, RedBlackSet<Tok>;
    t_splay_map, SplayMap<Tok, Tok>;
    t_splay_set, SplaySet<Tok>;
    t_treap_map, TreapMap<Tok, Tok>;
    t_treap_set, TreapSet<Tok>;
    t_skip_map, SkipMap<Tok, Tok>;
    t_skip_set, SkipSet<Tok>;
    t_treap_list, TreapList<Tok>;
    t_skip_list, SkipList<Tok>;
    t_radix_map, RadixMap<Tok>;
    t_radix_set, RadixSet;
}
