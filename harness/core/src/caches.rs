//! Uniform construction of every provided cache combination.
use sequential_storage::cache::key_pointers::*;
use sequential_storage::cache::page_pointers::*;
use sequential_storage::cache::page_states::*;
use sequential_storage::cache::*;
use sequential_storage::map::Key;

/// makes a cache of this type for `pages` pages
pub trait Mk<K>: CacheImpl<K> {
    fn mk(pages: usize) -> Self;
}
pub trait MkS: PageStatesCache {
    fn mk(pages: usize) -> Self;
}
pub trait MkP: PagePointersCache {
    fn mk(pages: usize) -> Self;
}
pub trait MkK<K>: KeyPointersCache<K> {
    fn mk() -> Self;
}
impl MkS for Uncached {
    fn mk(_: usize) -> Self {
        Uncached
    }
}
impl MkP for Uncached {
    fn mk(_: usize) -> Self {
        Uncached
    }
}
impl<K> MkK<K> for Uncached {
    fn mk() -> Self {
        Uncached
    }
}
impl MkS for CalculatedPageStates {
    fn mk(p: usize) -> Self {
        CalculatedPageStates::new(p)
    }
}
impl<const N: usize> MkS for ArrayPageStates<N> {
    fn mk(_: usize) -> Self {
        ArrayPageStates::new()
    }
}
impl MkS for HeapPageStates {
    fn mk(p: usize) -> Self {
        HeapPageStates::new(p)
    }
}
impl<const N: usize> MkP for ArrayPagePointers<N> {
    fn mk(_: usize) -> Self {
        ArrayPagePointers::new()
    }
}
impl MkP for HeapPagePointers {
    fn mk(p: usize) -> Self {
        HeapPagePointers::new(p)
    }
}
impl<K: Key, const N: usize> MkK<K> for ArrayKeyPointers<K, N> {
    fn mk() -> Self {
        ArrayKeyPointers::new()
    }
}
/// heap key cache with two slots
impl<K: Key> MkK<K> for HeapKeyPointers<K> {
    fn mk() -> Self {
        HeapKeyPointers::new(2)
    }
}
impl<K, S: MkS, P: MkP, Y: MkK<K>> Mk<K> for Cache<S, P, Y, K> {
    fn mk(pages: usize) -> Self {
        Cache::new(S::mk(pages), P::mk(pages), Y::mk())
    }
}
pub type NoC<K = ()> = Cache<Uncached, Uncached, Uncached, K>;
