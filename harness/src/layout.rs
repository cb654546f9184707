//! Key and value types of every shape in the pages of a B+ tree.
use crate::bp::*;
use crate::model::*;
use crate::sx::*;
use extended_collections::bp_tree::BpMap;
use serde::de::DeserializeOwned;
use serde::ser::Serialize;

/// A key or value type of the page-layout property: built from a byte and read back.
pub trait Data: Clone + Serialize + DeserializeOwned {
    /// The largest serialized size of the values `mk` makes.
    const SIZE: u64;
    fn mk(b: u8) -> Self;
    fn rd(&self) -> u8;
}
macro_rules! data { ($t:ty, $size:expr, |$b:ident| $mk:expr, |$s:ident| $rd:expr) => { impl Data for $t { const SIZE: u64 = $size; fn mk($b: u8) -> $t { $mk } fn rd(&self) -> u8 { let $s = self; $rd } } } }
data!(u8, 1, |b| b, |s| *s);
data!(u16, 2, |b| (b as u16) << 8 | 0xff, |s| (*s >> 8) as u8);
data!(u64, 8, |b| (b as u64) << 56 | 1, |s| (*s >> 56) as u8);
data!(Option<u8>, 2, |b| Some(b), |s| s.unwrap());
data!(Vec<u8>, 10, |b| vec![b, 0xff], |s| s[0]);
data!(Box<[u8]>, 9, |b| Box::new([b]), |s| s[0]);
data!((), 0, |b| { let _ = b; }, |s| { let _ = s; 0 });
/// Byte that only takes 0..=254, so that `Option` of it needs no room of its own.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Niche(std::num::NonZeroU8);
impl Serialize for Niche { fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> { s.serialize_u8(self.0.get()) } }
impl<'a> serde::Deserialize<'a> for Niche {
    fn deserialize<D: serde::Deserializer<'a>>(d: D) -> std::result::Result<Niche, D::Error> {
        let v = <u8 as serde::Deserialize>::deserialize(d)?;
        Ok(Niche(std::num::NonZeroU8::new(v | (v == 0) as u8).unwrap()))
    }
}
data!(Niche, 1, |b| Niche(std::num::NonZeroU8::new(b | (b == 0) as u8).unwrap()), |s| s.0.get());

/// Any key and value types: full nodes fit their pages.
fn layout<T: Data + Ord, U: Data>(leaf: usize, internal: usize, pre: usize, n: usize) {
    let mut m: BpMap<T, U> = if leaf == 0 { ok(BpMap::new(FILE, T::SIZE, U::SIZE)) } else { ok(BpMap::with_degrees(FILE, T::SIZE, U::SIZE, degree(leaf), degree(internal))) };
    let mut o = Model::new();
    let v = |k: u8| U::mk(k ^ 0x55);
    let mut ks = [0u8; CAP];
    for i in 0..pre {
        ks[i] = u8();
        assume(ks[i] != 0);
        if i > 0 { assume(ks[i - 1] < ks[i]); }
    }
    let down = choose(2) == 1;
    for i in 0..pre {
        let k = if down { ks[pre - 1 - i] } else { ks[i] };
        ck(ok(m.insert(T::mk(k), v(k))).is_none(), "insert reports no replaced entry only if the key was absent");
        o.insert(k, 0, 0);
    }
    for _ in 0..n {
        let k = u8();
        assume(k != 0);
        if choose(2) == 0 {
            let r = ok(m.insert(T::mk(k), v(k))).is_some();
            ck((o.insert(k, 0, 0).0 != NONE) == r, "insert reports whether the key was present");
        } else {
            let r = ok(m.remove(&T::mk(k))).is_some();
            ck((o.remove(k).0 != NONE) == r, "remove reports whether the key was present");
        }
    }
    ck(m.len() as u32 == o.len(), "len is the number of live keys");
    let mut m: BpMap<T, U> = if choose(2) == 0 { m } else { drop(m); ok(BpMap::open(FILE)) };
    let mut w = Walk::new();
    for r in ok(m.iter_mut()) {
        let (k, x) = ok(r);
        w.step(&o, k.rd(), NONE, 0);
        ck(x.rd() == v(k.rd()).rd(), "every stored value is read back");
    }
    w.done(&o);
    let p = u8();
    assume(p != 0);
    match ok(m.get(&T::mk(p))) {
        Some(x) => ck(o.has(p) & (x.rd() == v(p).rd()), "get returns the stored value"),
        None => ck(!o.has(p), "get finds every stored key"),
    }
    reach("end");
}
/// kind: which key and value types; leaf 0: the degrees the constructor derives from the block size.
#[no_mangle]
pub extern "C" fn p_bp(kind: usize, leaf: usize, internal: usize, pre: usize, n: usize) {
    match kind {
        0 => layout::<u8, u8>(leaf, internal, pre, n),
        1 => layout::<u8, ()>(leaf, internal, pre, n),
        2 => layout::<u64, u8>(leaf, internal, pre, n),
        3 => layout::<u8, Option<u8>>(leaf, internal, pre, n),
        4 => layout::<Option<u8>, u8>(leaf, internal, pre, n),
        5 => layout::<Vec<u8>, u8>(leaf, internal, pre, n),
        6 => layout::<u8, Vec<u8>>(leaf, internal, pre, n),
        7 => layout::<Box<[u8]>, ()>(leaf, internal, pre, n),
        8 => layout::<Niche, ()>(leaf, internal, pre, n),
        9 => layout::<Niche, u8>(leaf, internal, pre, n),
        _ => layout::<u8, Niche>(leaf, internal, pre, n),
    }
}
/// Keys and values of `ksize`/`vsize` bytes on disk, so that a block holds only a few of them.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Big<const N: usize>(u8);
impl<const N: usize> Serialize for Big<N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(N)?;
        for _ in 0..N { t.serialize_element(&self.0)?; }
        t.end()
    }
}
impl<'a, const N: usize> serde::Deserialize<'a> for Big<N> {
    fn deserialize<D: serde::Deserializer<'a>>(d: D) -> std::result::Result<Big<N>, D::Error> {
        struct Vis<const N: usize>;
        impl<'a, const N: usize> serde::de::Visitor<'a> for Vis<N> {
            type Value = Big<N>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("tuple") }
            fn visit_seq<A: serde::de::SeqAccess<'a>>(self, mut a: A) -> std::result::Result<Big<N>, A::Error> {
                let first: u8 = a.next_element()?.unwrap();
                let mut diff = 0;
                for _ in 1..N { let x: u8 = a.next_element()?.unwrap(); diff |= x ^ first; }
                ck(diff == 0, "every byte of a stored key or value is read back");
                Ok(Big(first))
            }
        }
        d.deserialize_tuple(N, Vis::<N>)
    }
}
impl<const N: usize> Data for Big<N> { const SIZE: u64 = N as u64; fn mk(b: u8) -> Self { Big(b) } fn rd(&self) -> u8 { self.0 } }
#[no_mangle]
pub extern "C" fn p_bp_big(kind: usize, pre: usize, n: usize) {
    match kind {
        0 => layout::<Big<1000>, u8>(0, 0, pre, n),
        1 => layout::<u8, Big<1000>>(0, 0, pre, n),
        2 => layout::<Big<1010>, Big<1>>(0, 0, pre, n),
        _ => layout::<Big<1344>, Big<1>>(0, 0, pre, n),
    }
}

/// Node sizes derived from the block size: `n` fixed keys in ascending or descending order, every other one removed again.
fn full<T: Data + Ord, U: Data>(n: usize) {
    let mut m: BpMap<Wide<T>, U> = ok(BpMap::new(FILE, 2 + T::SIZE, U::SIZE));
    let down = choose(2) == 1;
    for i in 0..n {
        let k = if down { n - 1 - i } else { i };
        ck(ok(m.insert(Wide(k as u16, T::mk(3)), U::mk(k as u8 | 1))).is_none(), "insert reports no replaced entry only if the key was absent");
    }
    ck(m.len() == n, "len is the number of live keys");
    for i in 0..n / 4 { ck(ok(m.remove(&Wide(i as u16 * 2, T::mk(3)))).is_some(), "remove finds every stored key"); }
    let mut m: BpMap<Wide<T>, U> = if choose(2) == 0 { m } else { drop(m); ok(BpMap::open(FILE)) };
    let mut at = 0;
    for r in ok(m.iter_mut()) {
        let (k, x) = ok(r);
        if at < n / 4 * 2 && at % 2 == 0 { at += 1; }
        ck(k.0 as usize == at && k.1.rd() == T::mk(3).rd(), "iteration yields the keys ascending");
        ck(x.rd() == U::mk(at as u8 | 1).rd(), "every stored value is read back");
        at += 1;
    }
    ck(at == n, "iteration yields every stored key");
    let p = u16();
    let present = ((p as usize) < n) & !(((p as usize) < n / 4 * 2) & (p % 2 == 0));
    match ok(m.get(&Wide(p, T::mk(3)))) {
        Some(x) => ck(present & (x.rd() == U::mk(p as u8 | 1).rd()), "get returns the stored value"),
        None => ck(!present, "get finds every stored key"),
    }
    reach("end");
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Wide<T>(u16, T);
impl<T: Serialize> Serialize for Wide<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> { (self.0, &self.1).serialize(s) } }
impl<'a, T: serde::Deserialize<'a>> serde::Deserialize<'a> for Wide<T> {
    fn deserialize<D: serde::Deserializer<'a>>(d: D) -> std::result::Result<Wide<T>, D::Error> { <(u16, T)>::deserialize(d).map(|(a, b)| Wide(a, b)) }
}
#[no_mangle]
pub extern "C" fn p_bp_full(kind: usize, n: usize) {
    match kind {
        0 => full::<(), ()>(n),
        1 => full::<u64, u64>(n),
        _ => full::<Niche, u8>(n),
    }
}
