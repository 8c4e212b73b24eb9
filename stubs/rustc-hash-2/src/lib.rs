//! Stand-in for rustc-hash 2.0.0 used only in the encoding (see rustc-hash-1).
use core::hash::{BuildHasher, Hasher};
use std::collections::{HashMap, HashSet};
pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = HashSet<V, FxBuildHasher>;
#[derive(Clone)]
pub struct FxHasher { hash: usize }
const K: usize = 0xf1357aea2e62a9c5;
impl FxHasher {
    pub const fn with_seed(seed: usize) -> FxHasher { FxHasher { hash: seed } }
    pub const fn default() -> FxHasher { FxHasher { hash: 0 } }
    #[inline] fn add(&mut self, i: usize) { self.hash = self.hash.wrapping_add(i).wrapping_mul(K); }
}
impl Default for FxHasher { #[inline] fn default() -> FxHasher { FxHasher { hash: 0 } } }
impl Hasher for FxHasher {
    #[inline] fn write(&mut self, bytes: &[u8]) { self.add(bytes.len() + 1); }
    #[inline] fn write_u8(&mut self, i: u8) { self.add(i as usize); }
    #[inline] fn write_u16(&mut self, i: u16) { self.add(i as usize); }
    #[inline] fn write_u32(&mut self, i: u32) { self.add(i as usize); }
    #[inline] fn write_u64(&mut self, i: u64) { self.add(i as usize); }
    #[inline] fn write_usize(&mut self, i: usize) { self.add(i); }
    #[inline] fn finish(&self) -> u64 { self.hash.rotate_left(20) as u64 }
}
#[derive(Copy, Clone, Default)]
pub struct FxBuildHasher;
impl BuildHasher for FxBuildHasher { type Hasher = FxHasher; fn build_hasher(&self) -> FxHasher { FxHasher::default() } }
