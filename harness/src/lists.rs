//! TreapList and SkipList against a growable array.
use crate::rng;
use crate::sx::*;
use extended_collections::skiplist::SkipList;
use extended_collections::treap::TreapList;

pub trait List: Sized {
    fn new() -> Self;
    fn insert(&mut self, i: usize, v: u32);
    fn remove(&mut self, i: usize) -> u32;
    fn push_front(&mut self, v: u32);
    fn push_back(&mut self, v: u32);
    fn pop_front(&mut self) -> u32;
    fn pop_back(&mut self) -> u32;
    fn get(&self, i: usize) -> Option<&u32>;
    fn get_mut(&mut self, i: usize) -> Option<&mut u32>;
    fn at(&self, i: usize) -> u32;
    fn at_mut(&mut self, i: usize) -> &mut u32;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn add(self, o: Self) -> Self;
    fn each(&self, f: &mut dyn FnMut(u32)) -> bool;
    fn each_ref(&self, f: &mut dyn FnMut(u32)) -> bool;
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut u32)) -> bool;
    fn each_mut_ref(&mut self, f: &mut dyn FnMut(&mut u32)) -> bool;
    fn consume(self, f: &mut dyn FnMut(u32)) -> bool;
}
macro_rules! drive {
    ($it:expr, $b:expr) => {{
        let mut it = $it;
        let mut n = 0;
        loop {
            match it.next() {
                Some(e) => $b(e),
                None => break it.next().is_none(),
            }
            n += 1;
            if n > 40 { break false; }
        }
    }};
}
macro_rules! list_impl {
    ($m:ident) => {
        impl List for $m<u32> {
            fn new() -> Self { $m::new() }
            fn insert(&mut self, i: usize, v: u32) { $m::insert(self, i, v) }
            fn remove(&mut self, i: usize) -> u32 { $m::remove(self, i) }
            fn push_front(&mut self, v: u32) { $m::push_front(self, v) }
            fn push_back(&mut self, v: u32) { $m::push_back(self, v) }
            fn pop_front(&mut self) -> u32 { $m::pop_front(self) }
            fn pop_back(&mut self) -> u32 { $m::pop_back(self) }
            fn get(&self, i: usize) -> Option<&u32> { $m::get(self, i) }
            fn get_mut(&mut self, i: usize) -> Option<&mut u32> { $m::get_mut(self, i) }
            fn at(&self, i: usize) -> u32 { self[i] }
            fn at_mut(&mut self, i: usize) -> &mut u32 { &mut self[i] }
            fn len(&self) -> usize { $m::len(self) }
            fn is_empty(&self) -> bool { $m::is_empty(self) }
            fn clear(&mut self) { $m::clear(self) }
            fn add(self, o: Self) -> Self { self + o }
            fn each(&self, f: &mut dyn FnMut(u32)) -> bool { drive!(self.iter(), |e: &u32| f(*e)) }
            fn each_ref(&self, f: &mut dyn FnMut(u32)) -> bool { drive!((&*self).into_iter(), |e: &u32| f(*e)) }
            fn each_mut(&mut self, f: &mut dyn FnMut(&mut u32)) -> bool { drive!(self.iter_mut(), |e: &mut u32| f(e)) }
            fn each_mut_ref(&mut self, f: &mut dyn FnMut(&mut u32)) -> bool { drive!((&mut *self).into_iter(), |e: &mut u32| f(e)) }
            fn consume(self, f: &mut dyn FnMut(u32)) -> bool { drive!(self.into_iter(), |e: u32| f(e)) }
        }
    };
}
list_impl!(TreapList);
list_impl!(SkipList);

struct C<L> {
    l: L,
    m: Vec<u32>,
    next: u32,
}
impl<L: List> C<L> {
    fn new(next: u32) -> C<L> { C { l: L::new(), m: Vec::new(), next } }
    fn val(&mut self) -> u32 { self.next += 1; self.next }
    fn op(&mut self, kind: usize) {
        let n = self.m.len();
        match kind {
            0 => {
                let v = self.val();
                let i = below(n + 1);
                self.l.insert(i, v);
                self.m.insert(conc(i as u64) as usize, v);
            }
            1 => if n > 0 {
                let i = below(n);
                let r = self.l.remove(i);
                ck(r == self.m.remove(conc(i as u64) as usize), "remove returns the value at the index");
                reach("removed");
            },
            2 => { let v = self.val(); self.l.push_front(v); self.m.insert(0, v); }
            3 => { let v = self.val(); self.l.push_back(v); self.m.push(v); }
            4 => if n > 0 { ck(self.l.pop_front() == self.m.remove(0), "pop_front returns the first value"); },
            5 => if n > 0 { ck(self.l.pop_back() == self.m.pop().unwrap(), "pop_back returns the last value"); },
            6 => { self.l.clear(); self.m.clear(); }
            7 => if n > 0 {
                let v = self.val();
                let i = below(n);
                match self.l.get_mut(i) {
                    Some(r) => *r = v,
                    None => ck(false, "get_mut finds every index below the length"),
                }
                self.m[conc(i as u64) as usize] = v;
            },
            _ => {}
        }
        ck(self.l.len() == self.m.len(), "len is the number of values");
    }
    fn concat(&mut self, len: usize, rm: bool) {
        // the other operand: pushed to `len` values, possibly after one more was removed again
        let mut o = C::<L>::new(self.next + 100);
        for _ in 0..len { o.op(3); }
        if rm { o.op(3); o.op(1); }
        let l = std::mem::replace(&mut self.l, L::new());
        if choose(2) == 0 {
            self.l = l.add(o.l);
            self.m.extend(o.m);
        } else {
            self.l = o.l.add(l);
            o.m.extend(self.m.iter());
            self.m = o.m;
        }
        ck(self.l.len() == self.m.len(), "len of a concatenation is the sum");
        reach("concatenated");
    }
    fn verify(&mut self) {
        let n = self.m.len();
        ck(self.l.len() == n, "len is the number of values");
        ck(self.l.is_empty() == (n == 0), "is_empty agrees with the content");
        for i in 0..n {
            ck(self.l.get(i).map(|v| *v) == Some(self.m[i]), "get returns the value at the index");
            ck(self.l.at(i) == self.m[i], "the index expression returns the value at the index");
            obs(self.m[i] as u64);
        }
        let out = u64() as usize;
        assume(out >= n);
        ck(self.l.get(out).is_none(), "get past the end finds nothing");
        let mut i = 0;
        let m = &self.m;
        let e = self.l.each(&mut |v| { ck(i < n && m[i] == v, "iteration yields the values in order"); i += 1; });
        ck(e && i == n, "iteration yields every value and ends");
    }
    fn writes(mut self) {
        let n = self.m.len();
        let m = &mut self.m;
        let mut i = 0;
        let e = self.l.each_mut(&mut |v| { ck(i < n && m[i] == *v, "mutable iteration yields the values in order"); *v += 1000; if i < n { m[i] += 1000; } i += 1; });
        ck(e && i == n, "mutable iteration yields every value and ends");
        if n > 0 {
            let j = below(n);
            let r = self.l.at_mut(j);
            let c = conc(j as u64) as usize;
            ck(*r == m[c], "the mutable index reaches the value at the index");
            *r = 7777;
            m[c] = 7777;
            ck(self.l.at(c) == 7777, "a write through the mutable index is read back");
        }
        let mut i = 0;
        let e = self.l.each_mut_ref(&mut |v| { ck(i < n && m[i] == *v, "mutable iteration yields the written values"); i += 1; });
        ck(e && i == n, "mutable iteration yields every value and ends");
        let mut i = 0;
        let e = self.l.each_ref(&mut |v| { ck(i < n && m[i] == v, "iteration yields the written values"); obs(v as u64); i += 1; });
        ck(e && i == n, "iteration yields every value and ends");
        let mut i = 0;
        let e = self.l.consume(&mut |v| { ck(i < n && m[i] == v, "consuming iteration yields the values in order"); i += 1; });
        ck(e && i == n, "consuming iteration yields every value and ends");
    }
}
fn history<L: List>(pre: usize, n: usize, mask: usize, cat: usize, h: usize) -> C<L> {
    rng::set(h);
    let mut c = C::<L>::new(0);
    for _ in 0..pre { c.op(3); }
    let mut ks = [0; 8];
    let mut nk = 0;
    for b in 0..8 { if mask >> b & 1 == 1 { ks[nk] = b; nk += 1; } }
    // `cat` > 0: one concatenation at any point of the history with a list of up to cat-1 values
    let at = if cat > 0 { choose(n + 1) } else { n + 1 };
    for i in 0..=n {
        if i == at { let len = choose(cat); c.concat(len, len > 0 && choose(2) == 1); }
        if i < n { c.op(ks[choose(nk)]); }
    }
    c
}
fn run<L: List>(pre: usize, n: usize, mask: usize, cat: usize, h: usize) {
    let mut c = history::<L>(pre, n, mask, cat, h);
    c.verify();
    reach("end");
}
fn iters<L: List>(pre: usize, n: usize, mask: usize, cat: usize, h: usize) {
    let c = history::<L>(pre, n, mask, cat, h);
    c.writes();
    reach("end");
}
/// A position out of range is refused and leaves the list as it was.
fn reject<L: List>(pre: usize, n: usize, mask: usize, h: usize) {
    let mut c = history::<L>(pre, n, mask, 0, h);
    let n = c.m.len();
    let i = u64() as usize;
    let l = &mut c.l;
    let p = match choose(7) {
        0 => { assume(i > n); catches(|| l.insert(i, 1)) }
        1 => { assume(i >= n); catches(|| { l.remove(i); }) }
        2 => { assume(i >= n); catches(|| { l.at(i); }) }
        3 => { assume(i >= n); catches(|| { l.at_mut(i); }) }
        4 => { assume(i >= n); let mut r = false; ck(!catches(|| { r = l.get_mut(i).is_none() && l.get(i).is_none(); }), "a checked accessor does not panic"); r }
        5 => { assume(n == 0); catches(|| { l.pop_front(); }) }
        _ => { assume(n == 0); catches(|| { l.pop_back(); }) }
    };
    ck(p, "an invalid position is refused");
    c.verify();
    c.op(0);
    c.op(1);
    c.verify();
    reach("end");
}
macro_rules! entries {
    ($($t:ident, $r:ident, $i:ident, $x:ident;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $r(pre: usize, n: usize, mask: usize, cat: usize, h: usize) { run::<$t<u32>>(pre, n, mask, cat, h) }
        #[no_mangle]
        pub extern "C" fn $i(pre: usize, n: usize, mask: usize, cat: usize, h: usize) { iters::<$t<u32>>(pre, n, mask, cat, h) }
        #[no_mangle]
        pub extern "C" fn $x(pre: usize, n: usize, mask: usize, h: usize) { reject::<$t<u32>>(pre, n, mask, h) }
    )* };
}
entries! {
    TreapList, h_treap_list, i_treap_list, x_treap_list;
    SkipList, h_skip_list, i_skip_list, x_skip_list;
}
