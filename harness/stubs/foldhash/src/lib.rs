//! Stand-in for the hash function of `hashbrown`: every key hashes alike, so
//! that looking up symbolic keys compares keys instead of inverting a hash.
//! A map then iterates in a fixed order; nothing may depend on that order.
pub mod fast {
    use core::hash::{BuildHasher, Hasher};
    #[derive(Copy, Clone, Default, Debug)]
    pub struct RandomState;
    #[derive(Copy, Clone, Default, Debug)]
    pub struct Alike;
    impl Hasher for Alike {
        #[inline(always)]
        fn finish(&self) -> u64 {
            0
        }
        #[inline(always)]
        fn write(&mut self, _: &[u8]) {}
    }
    impl BuildHasher for RandomState {
        type Hasher = Alike;
        #[inline(always)]
        fn build_hasher(&self) -> Alike {
            Alike
        }
    }
}
