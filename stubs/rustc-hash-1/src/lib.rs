//! Stand-in for rustc-hash 1.1.0 used only in the encoding: byte slices hash to a
//! function of their length, so that hashing symbolic text never yields symbolic hashes.
//! (Any deterministic function is a legal `Hasher`; equality is still decided on the text.)
use core::hash::{BuildHasherDefault, Hasher};
use std::collections::{HashMap, HashSet};
pub type FxHashMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;
pub type FxHashSet<V> = HashSet<V, BuildHasherDefault<FxHasher>>;
#[derive(Default, Clone)]
pub struct FxHasher { hash: usize }
const K: usize = 0x517cc1b727220a95;
impl FxHasher { #[inline] fn add(&mut self, i: usize) { self.hash = (self.hash.rotate_left(5) ^ i).wrapping_mul(K); } }
impl Hasher for FxHasher {
    #[inline] fn write(&mut self, bytes: &[u8]) { self.add(bytes.len()); }
    #[inline] fn write_u8(&mut self, i: u8) { self.add(i as usize); }
    #[inline] fn write_u16(&mut self, i: u16) { self.add(i as usize); }
    #[inline] fn write_u32(&mut self, i: u32) { self.add(i as usize); }
    #[inline] fn write_u64(&mut self, i: u64) { self.add(i as usize); }
    #[inline] fn write_usize(&mut self, i: usize) { self.add(i); }
    #[inline] fn finish(&self) -> u64 { self.hash as u64 }
}
