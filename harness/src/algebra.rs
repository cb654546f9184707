//! Set algebra and splitting of treaps and skip lists against the model.
use crate::maps::*;
use crate::model::*;
use crate::rng;
use crate::sx::*;
use extended_collections::skiplist::{SkipMap, SkipSet};
use extended_collections::treap::{TreapMap, TreapSet};

pub trait Algebra: Sized {
    const SPLIT: bool;
    fn union(l: Self, r: Self) -> Self;
    fn inter(l: Self, r: Self) -> Self;
    fn diff(l: Self, r: Self) -> Self;
    fn sym(l: Self, r: Self) -> Self;
    fn plus(l: Self, r: Self) -> Self;
    fn minus(l: Self, r: Self) -> Self;
    fn split(&mut self, k: &K, inclusive: bool) -> Self;
}
macro_rules! algebra {
    ($t:ty, $split:expr, |$s:ident, $k:ident, $i:ident| $e:expr) => {
        impl Algebra for $t {
            const SPLIT: bool = $split;
            fn union(l: Self, r: Self) -> Self { <$t>::union(l, r) }
            fn inter(l: Self, r: Self) -> Self { <$t>::intersection(l, r) }
            fn diff(l: Self, r: Self) -> Self { <$t>::difference(l, r) }
            fn sym(l: Self, r: Self) -> Self { <$t>::symmetric_difference(l, r) }
            fn plus(l: Self, r: Self) -> Self { l + r }
            fn minus(l: Self, r: Self) -> Self { l - r }
            fn split(&mut self, $k: &K, $i: bool) -> Self { let $s = self; $e }
        }
    };
}
algebra!(TreapMap<K, u32>, true, |s, k, i| s.split_off(k, i));
algebra!(TreapSet<K>, true, |s, k, i| s.split_off(k, i));
algebra!(SkipMap<K, u32>, false, |_s, _k, _i| unreachable!());
algebra!(SkipSet<K>, false, |_s, _k, _i| unreachable!());

/// The model of an operation on two operands.
fn combine(op: usize, a: &Model, b: &Model) -> Model {
    let mut r = Model::new();
    for i in 0..a.n {
        let inb = b.has(a.key[i]);
        r.key[r.n] = a.key[i];
        r.tag[r.n] = a.tag[i];
        r.val[r.n] = a.val[i];
        r.live[r.n] = a.live[i] & match op {
            0 | 4 => true,
            1 => inb,
            2 | 5 => !inb,
            _ => !inb,
        };
        r.n += 1;
    }
    if op == 0 || op == 4 || op == 3 {
        for i in 0..b.n {
            let ina = a.has(b.key[i]);
            r.key[r.n] = b.key[i];
            r.tag[r.n] = b.tag[i];
            r.val[r.n] = b.val[i];
            r.live[r.n] = b.live[i] & !ina;
            r.n += 1;
        }
    }
    r
}
/// `na` and `nb` symbolic keys (insertion order arbitrary if `asc` is 0), the operation picked
/// from `ops` (bit set), then `after` operations on the result.
fn run<M: Map<K> + Algebra>(na: usize, nb: usize, asc: usize, ops: usize, after: usize, heights: usize) {
    rng::set(heights);
    let mut ab = [na, nb];
    if asc >= 2 { // any sizes up to the given ones
        ab = [choose(na + 1), choose(nb + 1)];
    }
    let mut a = Ctx::<M>::new::<K>();
    let mut b = Ctx::<M>::new::<K>();
    b.next = 20;
    if asc == 0 || asc == 3 {
        for _ in 0..ab[0] { a.insert::<K>(u8()); }
        for _ in 0..ab[1] { b.insert::<K>(u8()); }
    } else {
        prefix::<K, M>(&mut a, ab[0], 1);
        prefix::<K, M>(&mut b, ab[1], 1);
    }
    let mut list = [0; 8];
    let mut n = 0;
    for i in 0..6 { if ops >> i & 1 == 1 { list[n] = i; n += 1; } }
    let op = list[choose(n)];
    let mut c = Ctx::<M> { o: combine(op, &a.o, &b.o), next: 40, m: match op {
        0 => M::union(a.m, b.m),
        1 => M::inter(a.m, b.m),
        2 => M::diff(a.m, b.m),
        3 => M::sym(a.m, b.m),
        4 => M::plus(a.m, b.m),
        _ => M::minus(a.m, b.m),
    } };
    c.iter::<K>();
    ck(c.m.len() as u32 == c.o.len(), "the result has the right length");
    later(&mut c, after);
    reach("end");
}
fn later<M: Map<K>>(c: &mut Ctx<M>, after: usize) {
    for _ in 0..after {
        match choose(2) {
            0 => c.insert::<K>(u8()),
            _ => c.remove::<K>(u8()),
        }
    }
    c.queries::<K>();
    reach("used afterwards");
}
fn split<M: Map<K> + Algebra>(n: usize, asc: usize, after: usize, heights: usize) {
    rng::set(heights);
    let mut a = Ctx::<M>::new::<K>();
    if asc == 0 {
        for _ in 0..n { a.insert::<K>(u8()); }
    } else {
        prefix::<K, M>(&mut a, n, 1);
    }
    let p = u8();
    let incl = choose(2) == 1;
    let right = a.m.split(&K { k: p, t: PROBE }, incl);
    let mut b = Ctx::<M> { m: right, o: a.o.clone(), next: 40 };
    for i in 0..a.o.n {
        let k = a.o.key[i];
        let left = (k < p) | ((k == p) & incl);
        a.o.live[i] &= left;
        b.o.live[i] &= !left;
    }
    a.next = 20;
    a.iter::<K>();
    b.iter::<K>();
    ck(a.m.len() as u32 == a.o.len(), "the left part has the right length");
    ck(b.m.len() as u32 == b.o.len(), "the right part has the right length");
    if choose(2) == 0 { later(&mut a, after); b.iter::<K>(); } else { later(&mut b, after); a.iter::<K>(); }
    reach("end");
}
#[no_mangle]
pub extern "C" fn a_treap_map(na: usize, nb: usize, asc: usize, ops: usize, after: usize, h: usize) { run::<TreapMap<K, u32>>(na, nb, asc, ops, after, h) }
#[no_mangle]
pub extern "C" fn a_treap_set(na: usize, nb: usize, asc: usize, ops: usize, after: usize, h: usize) { run::<TreapSet<K>>(na, nb, asc, ops, after, h) }
#[no_mangle]
pub extern "C" fn a_skip_map(na: usize, nb: usize, asc: usize, ops: usize, after: usize, h: usize) { run::<SkipMap<K, u32>>(na, nb, asc, ops, after, h) }
#[no_mangle]
pub extern "C" fn a_skip_set(na: usize, nb: usize, asc: usize, ops: usize, after: usize, h: usize) { run::<SkipSet<K>>(na, nb, asc, ops, after, h) }
#[no_mangle]
pub extern "C" fn s_treap_map(n: usize, asc: usize, after: usize, h: usize) { split::<TreapMap<K, u32>>(n, asc, after, h) }
#[no_mangle]
pub extern "C" fn s_treap_set(n: usize, asc: usize, after: usize, h: usize) { split::<TreapSet<K>>(n, asc, after, h) }
