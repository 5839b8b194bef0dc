//! C20: encodings of keys and values.
use crate::sym::*;
use crate::*;
use alloc::{string::String as AString, vec::Vec as AVec};
use arrayvec::{ArrayString, ArrayVec};
use sequential_storage::map::{Key, PostcardValue, SerializationError, Value};
use serde::{Deserialize, Serialize};

/// types of which any value can be made
pub trait Sy: Sized {
    fn any(max: usize) -> Self;
    fn same(&self, o: &Self) -> bool;
}
macro_rules! num {
    ($($t:ty : $e:expr),*) => { $(impl Sy for $t {
        fn any(_: usize) -> Self { $e as $t }
        fn same(&self, o: &Self) -> bool { self == o }
    })* };
}
fn u128() -> u128 {
    (u64() as u128) << 64 | u64() as u128
}
num!(u8: u8(), u16: u16(), u32: u32(), u64: u64(), u128: u128(), i8: u8(), i16: u16(), i32: u32(), i64: u64(), i128: u128());
impl Sy for f32 {
    fn any(_: usize) -> Self {
        f32::from_bits(u32())
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Sy for f64 {
    fn any(_: usize) -> Self {
        f64::from_bits(u64())
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Sy for bool {
    fn any(_: usize) -> Self {
        u8() & 1 == 1
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Sy for () {
    fn any(_: usize) -> Self {}
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl<T: Sy, const N: usize> Sy for [T; N] {
    fn any(m: usize) -> Self {
        core::array::from_fn(|_| T::any(m))
    }
    fn same(&self, o: &Self) -> bool {
        (0..N).all(|i| self[i].same(&o[i]))
    }
}
impl<T: Sy> Sy for Option<T> {
    fn any(m: usize) -> Self {
        if flip() { Some(T::any(m)) } else { None }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
const MAX: usize = 8;
fn bytes(b: &mut [u8; MAX], max: usize) -> &[u8] {
    let n = choose(max.min(MAX) + 1);
    for x in &mut b[..n] {
        *x = u8();
    }
    &b[..n]
}
fn text(b: &mut [u8; MAX], max: usize) -> &str {
    match core::str::from_utf8(bytes(b, max)) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            ""
        }
    }
}
macro_rules! cont {
    ($([$($g:tt)*] $t:ty, $cap:expr, $how:ident, $make:expr);* $(;)?) => { $(impl<$($g)*> Sy for $t {
        fn any(max: usize) -> Self {
            let mut b = [0; MAX];
            let s = $how(&mut b, max.min($cap));
            let f: fn(_) -> Self = $make;
            f(s)
        }
        fn same(&self, o: &Self) -> bool {
            let (a, b): (&[u8], &[u8]) = (self.as_ref(), o.as_ref());
            a.len() == b.len() && (0..a.len()).all(|i| a[i] == b[i])
        }
    })* };
}
cont! {
    [] AVec<u8>, MAX, bytes, |s: &[u8]| AVec::from(s);
    [] AString, MAX, text, |s: &str| AString::from(s);
    [const C: usize] ArrayVec<u8, C>, C, bytes, |s: &[u8]| ArrayVec::try_from(s).unwrap();
    [const C: usize] heapless::Vec<u8, C>, C, bytes, |s: &[u8]| heapless::Vec::from_slice(s).unwrap();
    [const C: usize] heapless::String<C>, C, text, |s: &str| heapless::String::try_from(s).unwrap();
    [L: heapless_09::LenType, const C: usize] heapless_09::Vec<u8, C, L>, C, bytes, |s: &[u8]| heapless_09::Vec::from_slice(s).unwrap();
    [L: heapless_09::LenType, const C: usize] heapless_09::String<C, L>, C, text, |s: &str| heapless_09::String::try_from(s).unwrap();
}
impl<const C: usize> Sy for ArrayString<C> {
    fn any(max: usize) -> Self {
        let mut b = [0; MAX];
        ArrayString::from(text(&mut b, max.min(C))).unwrap()
    }
    fn same(&self, o: &Self) -> bool {
        self.as_str() == o.as_str()
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy)]
pub enum Mode {
    Off,
    On(u8),
    Blink { a: u16, b: i16 },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy)]
pub struct Pc {
    a: u16,
    b: bool,
    c: Option<i8>,
    d: Mode,
    e: [u8; 2],
}
impl PostcardValue<'_> for Pc {}
impl Sy for Pc {
    fn any(m: usize) -> Self {
        let d = match choose(3) {
            0 => Mode::Off,
            1 => Mode::On(u8()),
            _ => Mode::Blink { a: u16(), b: u16() as i16 },
        };
        Pc { a: u16(), b: u8() & 1 == 1, c: Option::any(m), d, e: [u8(), u8()] }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy)]
pub struct Ps<'a> {
    n: u8,
    s: &'a str,
    b: &'a [u8],
}
impl<'a> PostcardValue<'a> for Ps<'a> {}

const B: usize = 64;
const TOO: SerializationError = SerializationError::BufferTooSmall;
fn dirty() -> [u8; B] {
    [0xa5; B]
}

/// value -> bytes -> value, and every too small buffer
fn key<K: Key + Sy>(max: usize) {
    let v = K::any(max);
    let mut b = dirty();
    let n = match v.serialize_into(&mut b) {
        Ok(n) => n,
        Err(_) => fail(F_REJECT),
    };
    check(n <= B, F_COUNT);
    cover(0);
    // exactly the reported size, or a little more: the same
    let m = choose(n + 3);
    let mut c = dirty();
    match v.serialize_into(&mut c[..m]) {
        Ok(k) => {
            check(m >= n, F_OK);
            check(k == n && (0..n).all(|i| b[i] == c[i]), F_DIFF);
            // a value follows the key
            for x in &mut c[n..m] {
                *x = u8();
            }
            match K::deserialize_from(&c[..m]) {
                Ok((w, k)) => {
                    check(w.same(&v) && w == v, F_DECODE);
                    check(k == n, F_COUNT);
                }
                Err(_) => fail(F_REJECT),
            }
            check(K::get_len(&c[..m]) == Ok(n), F_COUNT);
        }
        Err(e) => {
            check(m < n, F_REJECT);
            check(e == TOO, F_WHICHERR);
            cover(1);
            // a truncated key is not a key
            check(K::deserialize_from(&b[..m]).is_err(), F_ACCEPT);
            if let Ok(k) = K::get_len(&b[..m]) {
                check(k == n, F_COUNT);
            }
        }
    }
}
fn value<V: for<'a> Value<'a> + Sy>(max: usize, delimited: bool) {
    let v = V::any(max);
    let mut b = dirty();
    let n = match v.serialize_into(&mut b) {
        Ok(n) => n,
        Err(_) => fail(F_REJECT),
    };
    check(n <= B, F_COUNT);
    cover(0);
    let m = choose(n + 2);
    let mut c = dirty();
    match v.serialize_into(&mut c[..m]) {
        Ok(k) => {
            check(m >= n, F_OK);
            check(k == n && (0..n).all(|i| b[i] == c[i]), F_DIFF);
            match V::deserialize_from(&c[..n]) {
                Ok((w, k)) => {
                    check(w.same(&v), F_DECODE);
                    check(k == n, F_COUNT);
                }
                Err(_) => fail(F_REJECT),
            }
        }
        Err(e) => {
            check(m < n, F_REJECT);
            check(e == TOO, F_WHICHERR);
            cover(1);
            if delimited {
                check(V::deserialize_from(&b[..m]).is_err(), F_ACCEPT);
            } else {
                let _ = V::deserialize_from(&b[..m]);
            }
        }
    }
}
/// any bytes -> error, or value -> the same bytes
fn raw_key<K: Key + Sy>(max: usize) {
    let mut b = [0; MAX];
    let b = bytes(&mut b, max);
    let l = K::get_len(b);
    match K::deserialize_from(b) {
        Ok((k, n)) => {
            check(n <= b.len() && l == Ok(n), F_COUNT);
            let mut c = dirty();
            match k.serialize_into(&mut c) {
                Ok(m) => check(m == n && (0..n).all(|i| b[i] == c[i]), F_DECODE),
                Err(_) => fail(F_REJECT),
            }
            cover(0);
        }
        Err(_) => {
            cover(1);
        }
    }
}
fn raw_value<V: for<'a> Value<'a> + Sy>(max: usize) {
    let mut b = [0; MAX];
    let b = bytes(&mut b, max);
    match V::deserialize_from(b) {
        Ok((v, n)) => {
            check(n <= b.len(), F_COUNT);
            let mut c = dirty();
            match v.serialize_into(&mut c) {
                Ok(m) => {
                    check(m <= B, F_COUNT);
                    match V::deserialize_from(&c[..m]) {
                        Ok((w, k)) => check(k == m && w.same(&v), F_DECODE),
                        Err(_) => fail(F_REJECT),
                    }
                }
                Err(_) => fail(F_REJECT),
            }
            cover(0);
        }
        Err(_) => {
            cover(1);
        }
    }
}

macro_rules! keys {
    ($a:ident, $($n:literal: $t:ty),* $(,)?) => {
        match ($a & 0xff, $a >> 18) {
            $(($n, 0) => key::<$t>(($a >> 8 & 15) as usize), ($n, _) => raw_key::<$t>(($a >> 8 & 15) as usize),)*
            _ => fail(0),
        }
    };
}
pub fn c20k(a: u64) {
    keys!(a,
        0: u8, 1: u16, 2: u32, 3: u64, 4: u128, 5: i8, 6: i16, 7: i32, 8: i64, 9: i128, 10: (), 11: [u8; 0], 12: [u8; 1], 13: [u8; 5],
        14: ArrayVec<u8, 4>, 15: ArrayVec<u8, 0>, 16: ArrayString<4>, 17: heapless::Vec<u8, 4>, 18: heapless::String<4>, 19: heapless_09::Vec<u8, 4, u8>,
        20: heapless_09::Vec<u8, 4>, 21: heapless_09::String<4, u8>, 22: heapless_09::String<4>, 23: AVec<u8>, 24: AString)
}
macro_rules! values {
    ($a:ident, $($n:literal: $t:ty, $d:literal);* $(;)?) => {
        match ($a & 0xff, $a >> 18) {
            $(($n, 0) => value::<$t>(($a >> 8 & 15) as usize, $d), ($n, _) => raw_value::<$t>(($a >> 8 & 15) as usize),)*
            (255, 0) => slice(($a >> 8 & 15) as usize),
            (254, 0) => borrowed(($a >> 8 & 15) as usize),
            (254, _) => raw_borrowed(($a >> 8 & 15) as usize),
            _ => fail(0),
        }
    };
}
pub fn c20v(a: u64) {
    values!(a,
        0: u8, true; 1: u16, true; 2: u32, true; 3: u64, true; 4: u128, true; 5: i8, true; 6: i16, true; 7: i32, true; 8: i64, true; 9: i128, true;
        10: f32, true; 11: f64, true; 12: bool, true; 13: [u8; 3], true; 14: [u16; 2], true; 15: [i32; 2], true; 16: [f32; 1], true; 17: [u128; 2], true;
        18: [u64; 0], true; 19: [f64; 2], true; 20: Option<u8>, true; 21: Option<u32>, true; 22: Option<bool>, true; 23: Option<Option<i16>>, true;
        24: Option<[u16; 2]>, true; 25: Option<f64>, true; 26: Pc, true; 27: Option<Pc>, true;
        28: heapless::Vec<u8, 4>, false; 29: heapless::String<4>, false; 30: heapless_09::Vec<u8, 4, u8>, false; 31: heapless_09::Vec<u8, 4>, false;
        32: heapless_09::String<4, u8>, false; 33: heapless_09::String<4>, false; 34: AVec<u8>, false; 35: AString, false;
        36: Option<heapless::String<4>>, false; 37: Option<AVec<u8>>, false; 38: Option<heapless_09::Vec<u8, 4>>, false; 39: [i8; 2], true; 40: [i16; 2], true; 41: [i64; 2], true; 42: [i128; 1], true; 43: [u32; 2], true)
}
/// byte slices, and optional ones
fn slice(max: usize) {
    let mut s = [0; MAX];
    let v = bytes(&mut s, max);
    let o = match choose(3) {
        0 => None,
        1 => Some(None),
        _ => Some(Some(v)),
    };
    let mut b = dirty();
    let m = choose(v.len() + 3);
    match o {
        None => match Value::serialize_into(&v, &mut b[..m]) {
            Ok(n) => {
                check(m >= v.len(), F_OK);
                match <&[u8]>::deserialize_from(&b[..n]) {
                    Ok((w, k)) => check(k == n && w == v, F_DECODE),
                    Err(_) => fail(F_REJECT),
                }
                cover(0);
            }
            Err(e) => {
                check(m < v.len(), F_REJECT);
                check(e == TOO, F_WHICHERR);
                cover(1);
            }
        },
        Some(o) => match Value::serialize_into(&o, &mut b[..m]) {
            Ok(n) => match <Option<&[u8]>>::deserialize_from(&b[..n]) {
                Ok((w, k)) => check(k == n && w == o, F_DECODE),
                Err(_) => fail(F_REJECT),
            },
            Err(e) => {
                check(e == TOO && m < 1 + o.map_or(0, |x| x.len()), F_WHICHERR);
            }
        },
    }
}
/// postcard type that borrows
fn borrowed(max: usize) {
    let (mut x, mut y) = ([0; MAX], [0; MAX]);
    let v = Ps { n: u8(), s: text(&mut x, max), b: bytes(&mut y, max) };
    let mut b = dirty();
    let n = match v.serialize_into(&mut b) {
        Ok(n) => n,
        Err(_) => fail(F_REJECT),
    };
    cover(0);
    let m = choose(n + 1);
    let mut c = dirty();
    match v.serialize_into(&mut c[..m]) {
        Ok(k) => {
            check(m == n && k == n, F_OK);
            match Ps::deserialize_from(&c[..n]) {
                Ok((w, k)) => check(k == n && w == v, F_DECODE),
                Err(_) => fail(F_REJECT),
            }
        }
        Err(e) => {
            check(m < n, F_REJECT);
            check(e == TOO, F_WHICHERR);
            check(Ps::deserialize_from(&b[..m]).is_err(), F_ACCEPT);
            cover(1);
        }
    }
}
fn raw_borrowed(max: usize) {
    let mut b = [0; MAX];
    let b = bytes(&mut b, max);
    match Ps::deserialize_from(b) {
        Ok((v, n)) => {
            check(n <= b.len(), F_COUNT);
            check(1 + v.s.len() + v.b.len() < b.len(), F_COUNT);
            cover(0);
        }
        Err(_) => cover(1),
    }
}
/// around the biggest key
pub fn c20l(a: u64) {
    let n = 65533 + choose(5);
    let mut v = alloc::vec![0x41u8; n];
    v[0] = u8();
    v[n - 1] = u8();
    assume(v[0] < 128 && v[n - 1] < 128);
    let mut b = alloc::vec![0u8; 65540];
    let r = if a == 0 {
        v.serialize_into_key(&mut b)
    } else {
        AString::from_utf8(v.clone()).unwrap().serialize_into_key(&mut b)
    };
    match r {
        Ok(k) => {
            check(n <= 65535 && k == n + 2, F_OK);
            let (x, y) = (v[0], v[n - 1]);
            let ok = |w: &[u8], k2: usize| w.len() == n && w[0] == x && w[n - 1] == y && k2 == k;
            if a == 0 {
                match <AVec<u8> as Key>::deserialize_from(&b) {
                    Ok((w, k)) => check(ok(&w, k), F_DECODE),
                    Err(_) => fail(F_REJECT),
                }
                check(<AVec<u8> as Key>::get_len(&b) == Ok(k), F_COUNT);
            } else {
                match <AString as Key>::deserialize_from(&b) {
                    Ok((w, k)) => check(ok(w.as_bytes(), k), F_DECODE),
                    Err(_) => fail(F_REJECT),
                }
                check(<AString as Key>::get_len(&b) == Ok(k), F_COUNT);
            }
            cover(0);
        }
        Err(_) => {
            check(n > 65535, F_REJECT);
            cover(1);
        }
    }
}
trait AsKey: Key {
    fn serialize_into_key(&self, b: &mut [u8]) -> Result<usize, SerializationError> {
        Key::serialize_into(self, b)
    }
}
impl<K: Key> AsKey for K {}

// ---------------------------------------------------------------- keys of every type in a map
use crate::caches::*;
use crate::flash::*;
use crate::geo::*;
use sequential_storage::cache::key_pointers::*;
use sequential_storage::cache::page_pointers::*;
use sequential_storage::cache::page_states::*;
use sequential_storage::cache::*;
use sequential_storage::map::{MapConfig, MapStorage};

type Gm = Flash<4, 4, 96, 96, 192, 384>;
type Km<K, const N: usize> = Cache<ArrayPageStates<2>, ArrayPagePointers<2>, ArrayKeyPointers<K, N>, K>;
type Kh<K> = Cache<HeapPageStates, HeapPagePointers, HeapKeyPointers<K>, K>;

struct T<K: Key + Sy, C: Mk<K>> {
    st: Option<MapStorage<K, Gm, C>>,
    k: [K; 3],
    /// what is stored under the i-th key, under the lowest index of equal keys
    v: [Option<u16>; 3],
    seq: u16,
}
impl<K: Key + Sy, C: Mk<K>> T<K, C> {
    fn open(f: Gm) -> Option<MapStorage<K, Gm, C>> {
        match MapConfig::try_new(Gm::range()) {
            Ok(c) => Some(MapStorage::new(f, c, C::mk(Gm::PAGES))),
            Err(_) => fail(F_REJECT),
        }
    }
    fn q(&mut self) -> &mut MapStorage<K, Gm, C> {
        match &mut self.st {
            Some(s) => s,
            None => fail(F_ERR),
        }
    }
    fn slot(&self, i: usize) -> usize {
        (0..i).find(|&j| self.k[j].same(&self.k[i])).unwrap_or(i)
    }
    fn store(&mut self, i: usize) {
        let k = self.k[i].clone();
        self.seq += 1;
        let v = self.seq.wrapping_mul(0x1d37);
        let mut b = [0; 32];
        check(block_on(self.q().store_item(&mut b, &k, &v)).is_ok(), F_ERR);
        let s = self.slot(i);
        self.v[s] = Some(v);
    }
    fn remove(&mut self, i: usize) {
        let k = self.k[i].clone();
        let mut b = [0; 32];
        check(block_on(self.q().remove_item(&mut b, &k)).is_ok(), F_ERR);
        let s = self.slot(i);
        self.v[s] = None;
    }
    fn all(&mut self) {
        for i in 0..3 {
            let k = self.k[i].clone();
            let mut b = [0; 32];
            let want = self.v[self.slot(i)];
            match block_on(self.q().fetch_item::<u16>(&mut b, &k)) {
                Ok(got) => check(got == want, F_ORDER),
                Err(_) => fail(F_ERR),
            }
        }
    }
    fn iter(&mut self) {
        let mut seen = [None; 3];
        let k = self.k.clone();
        let slots = [0, self.slot(1), self.slot(2)];
        let mut b = [0; 32];
        let mut n = 0;
        match block_on(self.q().fetch_all_items(&mut b)) {
            Ok(mut it) => loop {
                let mut b = [0; 32];
                match block_on(it.next::<u16>(&mut b)) {
                    Ok(Some((key, v))) => match (0..3).find(|&i| k[i].same(&key)) {
                        Some(i) => seen[slots[i]] = Some(v),
                        None => fail(F_EXTRA),
                    },
                    Ok(None) => break,
                    Err(_) => fail(F_ERR),
                }
                n += 1;
                check(n < 64, F_NONTERM);
            },
            Err(_) => fail(F_ERR),
        }
        check(seen == self.v, F_LOST);
    }
}
fn fixed<K: Key>(i: usize) -> K {
    match K::deserialize_from(&[1, 0, b'a' + i as u8, 0, 0, 0, 0, 0]) {
        Ok((k, _)) => k,
        Err(_) => fail(F_REJECT),
    }
}
fn typed<K: Key + Sy, C: Mk<K>>(a: A) {
    let mut t: T<K, C> = T { st: T::<K, C>::open(Gm::new()), k: core::array::from_fn(|i| if i <= a.var { K::any(a.pre) } else { fixed(i) }), v: [None; 3], seq: 0 };
    if t.slot(2) < 2 || t.slot(1) < 1 {
        cover(0);
    } else {
        cover(1);
    }
    for i in 0..3 {
        t.store(i);
    }
    for _ in 0..a.steps {
        match choose(4) {
            0 => t.store(0),
            1 => t.remove(1),
            2 => t.iter(),
            _ => {
                let f = t.q().flash().clone();
                t.st = T::<K, C>::open(f);
            }
        }
    }
    t.all();
    t.iter();
    // around both pages
    for i in 0..9 {
        t.store(i % 2);
    }
    t.all();
    for i in 0..2 {
        t.store(i);
    }
    t.iter();
    t.remove(2);
    t.all();
}
pub fn c06t(a: u64) {
    let (g, a) = arg(a);
    match g {
        0 => typed::<u16, Km<u16, 2>>(a),
        1 => typed::<i32, NoC<i32>>(a),
        2 => typed::<[u8; 3], Km<[u8; 3], 1>>(a),
        3 => typed::<(), Km<(), 2>>(a),
        4 => typed::<ArrayVec<u8, 2>, Km<ArrayVec<u8, 2>, 8>>(a),
        5 => typed::<ArrayString<2>, Km<ArrayString<2>, 2>>(a),
        6 => typed::<heapless::Vec<u8, 2>, NoC<heapless::Vec<u8, 2>>>(a),
        7 => typed::<heapless::String<2>, Kh<heapless::String<2>>>(a),
        8 => typed::<heapless_09::Vec<u8, 2>, Km<heapless_09::Vec<u8, 2>, 2>>(a),
        9 => typed::<heapless_09::String<2, u8>, NoC<heapless_09::String<2, u8>>>(a),
        10 => typed::<AVec<u8>, Kh<AVec<u8>>>(a),
        11 => typed::<AString, Km<AString, 1>>(a),
        _ => fail(0),
    }
}
