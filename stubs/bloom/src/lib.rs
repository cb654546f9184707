pub mod bloom {
    use serde_derive::{Deserialize, Serialize};
    use std::borrow::Borrow;
    use std::hash::{Hash, Hasher};
    use std::marker::PhantomData;

    extern "C" {
        /// Whether an item that was never inserted is reported as contained all the same.
        fn vh_bloom() -> bool;
    }
    /// Identifies an item by the bytes it feeds to the hasher.
    struct Bytes(u64, u32);
    impl Hasher for Bytes {
        fn write(&mut self, b: &[u8]) {
            for x in b {
                assert!(self.1 < 8, "items of up to eight hashed bytes");
                self.0 |= (*x as u64) << (8 * self.1);
                self.1 += 1;
            }
        }
        fn finish(&self) -> u64 { self.0 }
    }
    fn id<U: Hash + ?Sized>(x: &U) -> u64 {
        let mut h = Bytes(0, 0);
        x.hash(&mut h);
        h.finish()
    }

    #[derive(Clone, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct BloomFilter<T> {
        hint: usize,
        items: Vec<u64>,
        _marker: PhantomData<T>,
    }
    impl<T> BloomFilter<T> {
        pub fn new(item_count: usize, _fpp: f64) -> Self {
            BloomFilter { hint: item_count, items: Vec::new(), _marker: PhantomData }
        }
        pub fn insert<U>(&mut self, item: &U) where T: Borrow<U>, U: Hash + ?Sized {
            // the real filter has no bit to set and divides by zero
            assert!(self.hint != 0, "a filter for no items");
            self.items.push(id(item));
        }
        pub fn contains<U>(&self, item: &U) -> bool where T: Borrow<U>, U: Hash + ?Sized {
            let x = id(item);
            let mut r = false;
            for i in &self.items { r |= *i == x; }
            r || unsafe { vh_bloom() }
        }
    }
}
