//! The LSM map, over both compaction strategies, against the model.
use crate::model::*;
use crate::sx::*;
use extended_collections::lsm_tree::compaction::{CompactionStrategy, LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::{LsmMap, Result};

pub const DIR: &str = "lsm";
static mut FALSE_POSITIVES: usize = 0;
/// What the Bloom filter says about an item it does not hold: anything, up to the given number of false positives.
#[no_mangle]
pub extern "C" fn vh_bloom() -> bool {
    unsafe {
        if FALSE_POSITIVES == 0 || choose(2) == 0 { return false; }
        FALSE_POSITIVES -= 1;
        true
    }
}
pub fn ok<T>(r: Result<T>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => { ck(false, "no operation fails while the disk works"); end(); unreachable!() }
    }
}
/// Digits of `c`: table size in memory (0 never flushed, 1 flushed at once, 2 an arbitrary limit), number of tables kept (9 arbitrary),
/// minimal / maximal table size (0 zero, 1 huge, 2 arbitrary), bucket bounds / tables of the first level, growth factor.
pub struct Cfg { mem: u64, count: usize, size: u64, low: f64, high: f64, first: usize, growth: u64 }
fn cfg(c: usize) -> Cfg {
    let lim = |d: usize, zero: u64, one: u64| match d { 0 => zero, 1 => one, _ => u64() };
    let d = |i: u32| c / 10usize.pow(i) % 10;
    let (low, high) = [(0.5, 1.5), (0.0, 100.0), (1.0, 1.0), (0.9, 1.1)][d(3) & 3];
    Cfg { mem: lim(d(0), u64::MAX, 0), count: if d(1) == 9 { u64() as usize } else { d(1) }, size: lim(d(2), 0, 1 << 20), low, high, first: d(3), growth: d(4) as u64 }
}
pub trait Strat: CompactionStrategy<u8, u32> + Sized {
    fn make(c: &Cfg) -> Result<Self>;
    fn reopen() -> Result<Self>;
}
impl Strat for SizeTieredStrategy<u8, u32> {
    fn make(c: &Cfg) -> Result<Self> { SizeTieredStrategy::new(DIR, c.mem, c.count, c.size, c.low, c.high) }
    fn reopen() -> Result<Self> { SizeTieredStrategy::open(DIR) }
}
impl Strat for LeveledStrategy<u8, u32> {
    fn make(c: &Cfg) -> Result<Self> { LeveledStrategy::new(DIR, c.mem, c.count, c.size, c.first, c.growth) }
    fn reopen() -> Result<Self> { LeveledStrategy::open(DIR) }
}
type It = Box<dyn Iterator<Item = Result<(u8, u32)>>>;
pub struct L<S: Strat> {
    m: LsmMap<u8, u32, S>,
    o: Model,
    next: u32,
    pool: [u8; 8],
    npool: usize,
    held: Option<(It, Model)>,
}
impl<S: Strat> L<S> {
    fn new(c: &Cfg, npool: usize) -> L<S> {
        let mut pool = [0; 8];
        for i in 0..npool {
            pool[i] = u8();
            if i > 0 { assume(pool[i - 1] < pool[i]); }
        }
        L { m: LsmMap::new(ok(S::make(c))), o: Model::new(), next: 0, pool, npool, held: None }
    }
    /// 0-7 that key of the pool, 14 any key of the pool, 15 any key at all
    fn key(&self, i: usize) -> u8 {
        match i { 15 => u8(), 14 => self.pool[choose(self.npool)], _ => self.pool[i] }
    }
    fn insert(&mut self, k: u8) {
        self.next += 1;
        ok(self.m.insert(k, self.next));
        self.o.insert(k, 0, self.next);
    }
    fn remove(&mut self, k: u8) {
        ok(self.m.remove(k));
        self.o.remove(k);
    }
    fn get(&mut self, k: u8) {
        let g = ok(self.m.get(&k)).unwrap_or(NONE);
        ck(g == self.o.get(k), "a lookup returns the newest value, or nothing");
        obs(g as u64);
    }
    fn has(&mut self, k: u8) { ck(ok(self.m.contains_key(&k)) == self.o.has(k), "containment is exact"); }
    fn hint(&mut self) { ck(ok(self.m.len_hint()) >= self.o.len() as usize, "the length hint is not below the length"); }
    fn len(&mut self) {
        ck(ok(self.m.len()) as u32 == self.o.len(), "len is the number of live keys");
        ck(ok(self.m.is_empty()) == (self.o.len() == 0), "is_empty agrees with the content");
    }
    fn extremes(&mut self) {
        let a = ok(self.m.min()).map_or(NONE, |k| k as u32);
        let b = ok(self.m.max()).map_or(NONE, |k| k as u32);
        ck(a == self.o.min(), "min is the smallest live key");
        ck(b == self.o.max(), "max is the largest live key");
        obs(a as u64);
        obs(b as u64);
    }
    fn walk(it: It, o: &Model) {
        let mut it = it;
        let mut w = Walk::new();
        while let Some(r) = it.next() {
            let (k, v) = ok(r);
            w.step(o, k, NONE, v);
            obs(k as u64);
        }
        ck(it.next().is_none(), "an exhausted iterator stays exhausted");
        w.done(o);
    }
    fn iter(&mut self) {
        let it = ok(self.m.iter());
        Self::walk(it, &self.o);
    }
    fn reopen(self) -> L<S> {
        let L { mut m, o, next, pool, npool, held } = self;
        ok(m.flush());
        drop(m);
        L { m: LsmMap::new(ok(S::reopen())), o, next, pool, npool, held }
    }
    fn op(mut self, b: usize) -> L<S> {
        let k = b >> 4;
        match b & 15 {
            1 => { let k = self.key(k); self.insert(k) }
            2 => { let k = self.key(k); self.remove(k) }
            3 => { let k = self.key(k); if choose(2) == 0 { self.insert(k) } else { self.remove(k) } }
            4 => if k == 0 || choose(2) == 1 { ok(self.m.flush()) },
            5 => { ok(self.m.clear()); self.o.clear() }
            6 => { let k = self.key(k); self.get(k); self.has(k) }
            7 => match k {
                0 => self.len(),
                1 => self.extremes(),
                2 => self.iter(),
                3 => self.hint(),
                _ => { self.hint(); self.extremes(); self.iter(); self.len(); self.hint() }
            },
            // the background thread runs as far as it can
            8 => if k == 0 || choose(2) == 1 { settle() },
            // any one file operation of the background thread fails from here on
            9 => fault_bg(u64()),
            10 => if k == 0 || choose(2) == 1 { self = self.reopen() },
            11 => {
                let it = ok(self.m.iter());
                self.held = Some((it, self.o.clone()));
            }
            12 => if let Some((it, o)) = self.held.take() { Self::walk(it, &o) },
            13 => match choose(4) {
                0 => { let k = self.key(k); self.insert(k) }
                1 => { let k = self.key(k); self.remove(k) }
                2 => ok(self.m.flush()),
                _ => settle(),
            },
            14 => if let Some((it, o)) = &mut self.held {
                // one step of the open iterator
                match it.next() { None => ck(o.len() == 0, "an iterator over a non-empty map yields an entry"), Some(r) => { let (k, v) = ok(r); ck((k as u32 == o.min()) & (v == o.get(k)), "the open iterator yields the entries there were"); o.remove(k); } }
            },
            _ => {}
        }
        self
    }
    fn scripts(mut self, scripts: [u64; 3]) -> L<S> {
        for s in scripts {
            for i in 0..8 {
                let b = (s >> (8 * i) & 255) as usize;
                if b == 0 { break; }
                self = self.op(b);
            }
        }
        self
    }
    fn run(self, scripts: [u64; 3], fin: usize) {
        self.scripts(scripts).finish(fin)
    }
    fn finish(mut self, fin: usize) {
        let p = u8();
        self.get(p);
        if fin & 1 == 1 { self.has(p); }
        if fin & 2 == 2 { self.hint(); self.extremes(); }
        if fin & 4 == 4 { self.iter(); self.len(); }
        if fin & 8 == 8 {
            self = self.reopen();
            self.get(p);
            self.iter();
        }
        reach("end");
    }
}
/// strategy (0 size-tiered, 1 leveled) + 2 * false positives, parameters, keys in the pool, three scripts of eight operations, final queries, preemptions
#[no_mangle]
pub extern "C" fn h_lsm(strategy: usize, c: usize, npool: usize, s0: u64, s1: u64, s2: u64, fin: usize, preempt: usize) {
    unsafe { FALSE_POSITIVES = strategy >> 1 }
    let c = cfg(c);
    if strategy & 1 == 0 { go::<SizeTieredStrategy<u8, u32>>(&c, npool, [s0, s1, s2], fin, preempt) } else { go::<LeveledStrategy<u8, u32>>(&c, npool, [s0, s1, s2], fin, preempt) }
}
fn go<S: Strat>(c: &Cfg, npool: usize, s: [u64; 3], fin: usize, preempt: usize) {
    let l = L::<S>::new(c, npool);
    if preempt > 0 { threads(preempt); }
    l.run(s, fin);
}
/// The same parameters as `h_lsm`; after the scripts one call of any kind of `mask` during which one file operation fails
#[no_mangle]
pub extern "C" fn e_lsm(strategy: usize, c: usize, npool: usize, s0: u64, s1: u64, s2: u64, mask: usize) {
    let c = cfg(c);
    if strategy & 1 == 0 { faulty::<SizeTieredStrategy<u8, u32>>(&c, npool, [s0, s1, s2], mask) } else { faulty::<LeveledStrategy<u8, u32>>(&c, npool, [s0, s1, s2], mask) }
}
fn faulty<S: Strat>(c: &Cfg, npool: usize, s: [u64; 3], mask: usize) {
    let mut l = L::<S>::new(c, npool).scripts(s);
    let mut ks = [0; 16];
    let mut nk = 0;
    for i in 0..16 { if mask >> i & 1 == 1 { ks[nk] = i; nk += 1; } }
    let what = ks[choose(nk)];
    let v = u64();
    let k = u8();
    let has = l.o.has(k);
    let want = l.o.get(k);
    let len = l.o.len();
    let hit;
    let wrong = "no answer is wrong because of a fault";
    let failed = match what {
        0 => { fault(v); let r = l.m.insert(k, 99); hit = fault_off(); r.is_err() }
        1 => { fault(v); let r = l.m.remove(k); hit = fault_off(); r.is_err() }
        2 => { fault(v); let r = l.m.clear(); hit = fault_off(); r.is_err() }
        3 => { fault(v); let r = l.m.flush(); hit = fault_off(); r.is_err() }
        4 => { fault(v); let r = l.m.get(&k); hit = fault_off(); match r { Err(_) => true, Ok(g) => { ck(g.unwrap_or(NONE) == want, wrong); false } } }
        5 => { fault(v); let r = l.m.contains_key(&k); hit = fault_off(); match r { Err(_) => true, Ok(g) => { ck(g == has, wrong); false } } }
        6 => { fault(v); let r = l.m.min(); hit = fault_off(); match r { Err(_) => true, Ok(g) => { ck(g.map_or(NONE, |k| k as u32) == l.o.min(), wrong); false } } }
        7 => { fault(v); let r = l.m.max(); hit = fault_off(); match r { Err(_) => true, Ok(g) => { ck(g.map_or(NONE, |k| k as u32) == l.o.max(), wrong); false } } }
        8 => { fault(v); let r = l.m.len(); hit = fault_off(); match r { Err(_) => true, Ok(g) => { ck(g as u32 == len, wrong); false } } }
        9 => { fault(v); let r = l.m.is_empty(); hit = fault_off(); match r { Err(_) => true, Ok(g) => { ck(g == (len == 0), wrong); false } } }
        10 => { fault(v); let r = l.m.len_hint(); hit = fault_off(); match r { Err(_) => true, Ok(g) => { ck(g >= len as usize, wrong); false } } }
        11 => {
            fault(v);
            let mut bad = false;
            let mut n = 0;
            match l.m.iter() {
                Err(_) => bad = true,
                Ok(it) => for r in it {
                    match r { Err(_) => { bad = true; break; } Ok((k, v)) => { ck(l.o.get(k) == v, wrong); n += 1; } }
                    if n > len { break; }
                },
            }
            hit = fault_off();
            if !bad { ck(n == len, "an iteration without an error yields every entry"); }
            bad
        }
        12 => { ok(l.m.flush()); drop(l.m); fault(v); let r = S::reopen(); hit = fault_off(); return opened(hit, r, &l.o) }
        _ => { drop(l.m); ok(std::fs::remove_dir_all(DIR).map_err(Into::into)); fault(v); let r = S::make(c); hit = fault_off(); return opened(hit, r, &Model::new()) }
    };
    done(hit, failed);
    // while the disk works again: the call has changed what it was to change or nothing, and nothing else
    let p = u8();
    let g = ok(l.m.get(&p)).unwrap_or(NONE);
    let before = l.o.get(p);
    let after = match what { 0 if p == k => 99, 1 if p == k => NONE, 2 => NONE, _ => before };
    ck((g == after) | (failed & (g == before)), "after a call during which a file operation failed, a lookup finds what was stored");
    obs(g as u64);
}
/// The standard library gets by without some of the calls that opening makes: then everything has to be there.
fn opened<S: Strat>(hit: bool, r: Result<S>, o: &Model) {
    match r {
        Err(_) => done(hit, true),
        Ok(s) => {
            let it = ok(LsmMap::new(s).iter());
            L::<S>::walk(it, o);
            done(hit, hit);
        }
    }
}
fn done(hit: bool, failed: bool) {
    reach(if hit { "fault strikes" } else { "no fault" });
    ck(failed == hit, "a failing file operation surfaces as an error of the call, and only that");
    obs(failed as u64);
    reach("end");
}
