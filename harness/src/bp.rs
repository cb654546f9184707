//! The on-disk B+ tree map against the model.
use crate::model::*;
use crate::sx::*;
use extended_collections::bp_tree::{BpMap, Result};
use serde_derive::{Deserialize, Serialize};
use std::cmp::Ordering;

/// Key ordered by `k`; `t` identifies the instance. Serialized size 2.
#[derive(Clone, Copy, Serialize, Deserialize)]
pub struct BK {
    pub k: u8,
    pub t: u8,
}
impl PartialEq for BK { fn eq(&self, o: &BK) -> bool { self.k == o.k } }
impl Eq for BK {}
impl PartialOrd for BK { fn partial_cmp(&self, o: &BK) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for BK { fn cmp(&self, o: &BK) -> Ordering { self.k.cmp(&o.k) } }

pub const FILE: &str = "bp.db";
pub fn ok<T>(r: Result<T>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => { ck(false, "no operation fails while the disk works"); end(); unreachable!() }
    }
}
fn file_len() -> u64 { std::fs::metadata(FILE).unwrap().len() }

pub struct Bp {
    m: BpMap<BK, u32>,
    o: Model,
    next: u8,
}
impl Bp {
    fn new(leaf: usize, internal: usize) -> Bp { Bp { m: ok(BpMap::with_degrees(FILE, 2, 4, leaf, internal)), o: Model::new(), next: 0 } }
    fn insert(&mut self, k: u8) {
        let t = self.next;
        self.next += 1;
        let r = ok(self.m.insert(BK { k, t }, t as u32 + 0x01020300));
        let (et, ev) = self.o.insert(k, t, t as u32 + 0x01020300);
        match r {
            None => ck(et == NONE, "insert reports no replaced entry only if the key was absent"),
            Some((rk, rv)) => {
                ck(et != NONE, "insert reports a replaced entry only if the key was present");
                ck((rk.k == k) & (rk.t as u32 == et) & (rv == ev), "insert returns the entry it replaced");
                reach("insert replaces");
            }
        }
        self.len();
    }
    fn remove(&mut self, k: u8) {
        let r = ok(self.m.remove(&BK { k, t: PROBE }));
        let (et, ev) = self.o.remove(k);
        match r {
            None => { ck(et == NONE, "remove finds every stored key"); reach("remove misses"); }
            Some((rk, rv)) => {
                ck((rk.k == k) & (rk.t as u32 == et) & (rv == ev), "remove returns the entry it removed");
                reach("remove hits");
            }
        }
        self.len();
    }
    fn clear(&mut self) {
        ok(self.m.clear());
        self.o.clear();
        self.len();
    }
    fn len(&self) {
        ck(self.m.len() as u32 == self.o.len(), "len is the number of live keys");
        ck(self.m.is_empty() == (self.o.len() == 0), "is_empty agrees with the content");
    }
    fn get(&mut self, k: u8) {
        let g = ok(self.m.get(&BK { k, t: PROBE })).unwrap_or(NONE);
        ck(g == self.o.get(k), "get returns the stored value");
        obs(g as u64);
    }
    fn has(&mut self, k: u8) { ck(ok(self.m.contains_key(&BK { k, t: PROBE })) == self.o.has(k), "containment is exact"); }
    fn extremes(&mut self) {
        let a = ok(self.m.min()).map_or(NONE, |k| k.k as u32);
        let b = ok(self.m.max()).map_or(NONE, |k| k.k as u32);
        ck(a == self.o.min(), "min is the smallest key");
        ck(b == self.o.max(), "max is the largest key");
        obs(a as u64);
        obs(b as u64);
    }
    fn iter(&mut self) {
        let mut w = Walk::new();
        let mut it = ok(self.m.iter_mut());
        while let Some(r) = it.next() {
            let (k, v) = ok(r);
            w.step(&self.o, k.k, k.t as u32, v);
            obs(k.k as u64);
        }
        ck(it.next().is_none(), "an exhausted iterator stays exhausted");
        drop(it);
        w.done(&self.o);
    }
    /// The map that was closed, opened again.
    fn reopen(self) -> Bp {
        drop(self.m);
        Bp { m: ok(BpMap::open(FILE)), o: self.o, next: self.next }
    }
    fn queries(&mut self) {
        self.len();
        obs(self.m.len() as u64);
        self.iter();
        self.extremes();
        let p = u8();
        self.get(p);
        self.has(p);
    }
}
/// `pre` ordered keys in one of `orders` orders, optionally an arbitrary interval removed again (+16).
fn prefix(b: &mut Bp, pre: usize, orders: usize) -> [u8; CAP] {
    let mut ks = [0u8; CAP];
    if pre == 0 { return ks; }
    for i in 0..pre {
        ks[i] = u8();
        if i > 0 { assume(ks[i - 1] < ks[i]); }
    }
    let ord = choose(orders & 15);
    for i in 0..pre {
        let j = match ord {
            0 => i,
            1 => pre - 1 - i,
            2 => if i % 2 == 0 { i / 2 } else { pre - 1 - i / 2 },
            _ => (i * 2) % pre + if pre % 2 == 0 && i * 2 >= pre { 1 } else { 0 },
        };
        b.insert(ks[j]);
    }
    if orders >= 16 {
        let (lo, hi) = (u8(), u8());
        let down = choose(2) == 1;
        for i in 0..pre {
            let k = if down { ks[pre - 1 - i] } else { ks[i] };
            if (lo <= k) & (k <= hi) { b.remove(k); }
        }
        reach("drained");
    }
    ks
}
fn op(mut b: Bp, mask: usize) -> Bp {
    let mut ks = [0; 8];
    let mut nk = 0;
    for i in 0..8 { if mask >> i & 1 == 1 { ks[nk] = i; nk += 1; } }
    match ks[choose(nk)] {
        0 => b.insert(u8()),
        1 => b.remove(u8()),
        2 => b.clear(),
        3 => { let k = u8(); b.get(k); b.has(k) }
        4 => b.extremes(),
        5 => b.iter(),
        _ => return b.reopen(),
    }
    b
}
/// Node degrees: a multiple of 100 plus d stands for any of d, d+1, ..., d + (hundreds).
pub fn degree(d: usize) -> usize { d % 100 + choose(d / 100 + 1) }

/// kinds: 1 insert, 2 remove, 4 clear, 8 get/contains, 16 min/max, 32 iterate, 64 close and open. re: 1 closed and opened at the end, 2 also changed afterwards.
#[cfg(feature = "bp")]
#[no_mangle]
pub extern "C" fn h_bp(leaf: usize, internal: usize, pre: usize, orders: usize, n: usize, mask: usize, re: usize) {
    let mut b = Bp::new(degree(leaf), degree(internal));
    prefix(&mut b, pre, orders);
    for _ in 0..n { b = op(b, mask); }
    if re == 0 { b.queries(); } else {
        let mut b = b.reopen();
        if re == 2 && choose(2) == 1 {
            if choose(2) == 0 { b.insert(u8()) } else { b.remove(u8()) }
            if choose(2) == 1 { b = b.reopen(); }
        }
        b.queries();
    }
    reach("end");
}

/// The most pages a tree that never held more than n entries can need.
fn page_bound(n: u32, leaf: usize, internal: usize) -> u64 {
    let minl = ((leaf as u32) + 1) / 2;
    let minc = std::cmp::max(2, ((internal as u32) + 1) / 2);
    let mut level = std::cmp::max(1, n / minl);
    let mut total = level;
    while level > 1 {
        level = std::cmp::max(1, level / minc);
        total += level;
    }
    total as u64
}
/// The file stays within what its largest content needs; emptying and refilling does not grow it.
#[cfg(feature = "bp")]
#[no_mangle]
pub extern "C" fn f_bp(leaf: usize, internal: usize, pre: usize, orders: usize, n: usize, mask: usize, refill: usize) {
    let (leaf, internal) = (degree(leaf), degree(internal));
    let mut b = Bp::new(leaf, internal);
    let empty = file_len();
    let mut page = 0;
    let mut peak = 0;
    let mut grown = empty;
    let mut check = |b: &Bp| {
        let l = file_len();
        // the first growth is a root split: one new sibling, one new root
        if page == 0 && l > empty { page = (l - empty) / 2; }
        peak = std::cmp::max(peak, b.m.len() as u32);
        ck(l >= grown || (b.m.len() == 0 && l == empty), "the file keeps every page in use");
        if b.m.len() == 0 && l == empty { grown = empty; }
        if l > grown {
            ck(l == grown + page || l == grown + 2 * page || l == grown + 3 * page || l == grown + 4 * page, "the file grows by whole pages");
        }
        if page != 0 { ck((l - empty) / page + 1 <= page_bound(peak, leaf, internal), "the file stays within the size its largest content needs"); }
        grown = l;
    };
    let mut ks = [0u8; CAP];
    for i in 0..pre {
        ks[i] = u8();
        if i > 0 { assume(ks[i - 1] < ks[i]); }
    }
    let ord = choose(orders);
    let at = |i: usize| match ord { 0 => i, 1 => pre - 1 - i, _ => if i % 2 == 0 { i / 2 } else { pre - 1 - i / 2 } };
    for i in 0..pre { b.insert(ks[at(i)]); check(&b); }
    let full = file_len();
    for _ in 0..n { b = op(b, mask); check(&b); }
    b.iter();
    if refill > 0 {
        // remove everything in one of several orders, then fill again as before
        let ro = choose(refill);
        for i in 0..pre {
            let j = match ro { 0 => i, 1 => pre - 1 - i, _ => if i % 2 == 0 { pre / 2 + i / 2 } else { pre / 2 - 1 - i / 2 } };
            b.remove(ks[j % pre]);
            check(&b);
        }
        if n == 0 {
            ck(b.m.is_empty(), "everything was removed");
            for i in 0..pre { b.insert(ks[at(i)]); check(&b); }
            ck(file_len() == full, "refilling an emptied map does not grow the file");
        }
        b.iter();
    }
    obs(file_len() - empty);
    // cleared with pages on the free list, and filled again
    if refill > 0 && n == 0 {
        let (lo, hi) = (choose(2) * (pre / 2), pre - choose(2) * (pre / 4));
        for i in lo..hi { b.remove(ks[i]); check(&b); }
    }
    b.clear();
    check(&b);
    ck(file_len() == empty, "clearing the map returns the file to the size of an empty one");
    b.queries();
    if n == 0 {
        b.o = Model::new();
        for i in 0..pre { b.insert(ks[at(i)]); check(&b); }
        ck(file_len() == full, "refilling a cleared map does not grow the file");
        b.iter();
    } else {
        b.insert(u8());
        b.queries();
    }
    reach("end");
}

/// One arbitrary file operation of the last call fails: the call reports it.
#[cfg(feature = "bp")]
#[no_mangle]
pub extern "C" fn e_bp(leaf: usize, internal: usize, pre: usize, orders: usize, n: usize, mask: usize) {
    let mut b = Bp::new(degree(leaf), degree(internal));
    prefix(&mut b, pre, orders);
    for _ in 0..n { b = op(b, mask & 3); }
    let mut ks = [0; 8];
    let mut nk = 0;
    for i in 0..8 { if mask >> i & 1 == 1 { ks[nk] = i; nk += 1; } }
    let what = ks[choose(nk)];
    let v = u64();
    let k = u8();
    let has = b.o.has(k);
    let want = b.o.get(k);
    let hit;
    let failed = match what {
        0 => { fault(v); let r = b.m.insert(BK { k, t: 50 }, 7); hit = fault_off(); r.is_err() }
        1 => { fault(v); let r = b.m.remove(&BK { k, t: 50 }); hit = fault_off(); r.is_err() }
        2 => { fault(v); let r = b.m.clear(); hit = fault_off(); r.is_err() }
        3 => {
            fault(v);
            let r = b.m.get(&BK { k, t: 50 });
            hit = fault_off();
            match r { Err(_) => true, Ok(g) => { ck(g.unwrap_or(NONE) == want, "a lookup never returns a wrong value because of a fault"); false } }
        }
        4 => {
            fault(v);
            let r = b.m.contains_key(&BK { k, t: 50 });
            hit = fault_off();
            match r { Err(_) => true, Ok(g) => { ck(g == has, "a lookup never returns a wrong answer because of a fault"); false } }
        }
        5 => {
            fault(v);
            let r = if choose(2) == 0 { b.m.min() } else { b.m.max() };
            hit = fault_off();
            r.is_err()
        }
        6 => {
            fault(v);
            let mut bad = false;
            let mut n = 0;
            match b.m.iter_mut() {
                Err(_) => bad = true,
                Ok(it) => {
                    for r in it {
                        if r.is_err() { bad = true; break; }
                        n += 1;
                        if n > CAP { break; }
                    }
                }
            }
            hit = fault_off();
            if !bad { ck(n as u32 == b.o.len(), "an iteration without an error yields every entry"); }
            bad
        }
        _ => {
            drop(b.m);
            fault(v);
            let r: Result<BpMap<BK, u32>> = if choose(2) == 0 { BpMap::open(FILE) } else { BpMap::with_degrees(FILE, 2, 4, 3, 3) };
            hit = fault_off();
            reach(if hit { "fault strikes" } else { "no fault" });
            ck(r.is_err() == hit, "a failing file operation surfaces as an error of the call");
            reach("end");
            return;
        }
    };
    reach(if hit { "fault strikes" } else { "no fault" });
    ck(failed == hit, "a failing file operation surfaces as an error of the call");
    reach("end");
}
