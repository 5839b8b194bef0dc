//! Harnesses: each entry drives the real crate with symbolic inputs and asserts one property.
#![no_std]
extern crate alloc;
pub mod caches;
pub mod flash;
pub mod sym;

pub mod dec;
pub mod geo;

#[cfg(feature = "queue")]
#[macro_use]
pub mod q;
#[cfg(feature = "queue")]
pub mod q2;
#[cfg(feature = "queue")]
pub mod q3;
#[cfg(feature = "map")]
#[macro_use]
pub mod m;
#[cfg(feature = "map")]
pub mod m2;
#[cfg(feature = "map")]
pub mod m3;

#[cfg(feature = "ring")]
pub mod ring;
#[cfg(feature = "codec")]
pub mod codec;
#[cfg(feature = "codec")]
pub mod conf;

macro_rules! codes {
    ($($n:ident = $v:literal : $t:literal),* $(,)?) => {
        $(pub const $n: u32 = $v;)*
        pub fn fail_name(c: u32) -> &'static str {
            match c { $($v => $t,)* _ => "?" }
        }
    };
}
codes! {
    F_NONTERM = 1: "an operation did not end within the flash access bound",
    F_PENDING = 2: "an operation stayed pending although every flash access completed",
    F_ERR = 3: "an operation failed although it must succeed",
    F_ORDER = 4: "wrong item returned",
    F_NONE = 5: "None returned although an item is stored, or an item returned although none is",
    F_CHANGED = 6: "contents changed by an operation that must not change them",
    F_LOST = 7: "a stored item is missing",
    F_EXTRA = 8: "an item appears that should not be there",
    F_OK = 9: "an operation succeeded although it must fail",
    F_WHICHERR = 10: "an operation failed with the wrong error",
    F_RULE = 11: "flash access outside the rules",
    F_COUNT = 12: "wrong number reported",
    F_DIFF = 13: "results or flash contents differ from the reference object",
    F_TORN = 14: "a partial or invented value appears",
    F_OLD = 15: "an older value reappears",
    F_WEAR = 16: "pages are not erased cyclically",
    F_FORMAT = 17: "flash contents do not follow the documented layout",
    F_DECODE = 18: "decoded value differs from the encoded one",
    F_ACCEPT = 19: "invalid input accepted",
    F_REJECT = 20: "valid input rejected",
    F_CRC = 21: "data returned without a valid checksum in flash",
    F_WAKE = 22: "a waiting task was not woken",
}

pub type Entry = (&'static str, fn(u64));
macro_rules! entries {
    ($($(#[$m:meta])* $n:ident = $f:path),* $(,)?) => {
        $($(#[$m])* #[unsafe(no_mangle)] pub extern "C" fn $n(a: u64) { $f(a) })*
        pub const ENTRIES: &[Entry] = &[$($(#[$m])* (stringify!($n), $f as fn(u64)),)*];
    };
}
entries! {
    #[cfg(feature = "queue")] c01 = q::c01,
    #[cfg(feature = "queue")] c02 = q::c02,
    #[cfg(feature = "queue")] c03 = q::c03,
    #[cfg(feature = "queue")] c04 = q::c04,
    #[cfg(feature = "queue")] c14q = q::c14q,
    #[cfg(feature = "queue")] c05 = q2::c05,
    #[cfg(feature = "queue")] c12 = q2::c12,
    #[cfg(feature = "queue")] c15q = q2::c15q,
    #[cfg(feature = "queue")] c18q = q2::c18q,
    #[cfg(feature = "queue")] c19q = q2::c19q,
    #[cfg(feature = "queue")] c23q = q2::c23q,
    #[cfg(feature = "queue")] c23i = q2::c23i,
    #[cfg(feature = "queue")] c25q = q2::c25q,
    #[cfg(feature = "queue")] c26q = q2::c26q,
    #[cfg(feature = "queue")] c16q = q3::c16q,
    #[cfg(feature = "queue")] c17q = q3::c17q,
    #[cfg(feature = "codec")] c20k = codec::c20k,
    #[cfg(feature = "codec")] c20v = codec::c20v,
    #[cfg(feature = "codec")] c20l = codec::c20l,
    #[cfg(feature = "ring")] c21 = ring::c21,
    #[cfg(feature = "ring")] c24 = ring::c24,
    #[cfg(feature = "ring")] c24w = ring::c24w,
    #[cfg(feature = "ring")] c24s = ring::c24s,
    #[cfg(feature = "codec")] c22 = conf::c22,
    #[cfg(feature = "codec")] c06t = codec::c06t,
    #[cfg(feature = "map")] c06 = m::c06,
    #[cfg(feature = "map")] c07 = m::c07,
    #[cfg(feature = "map")] c08 = m::c08,
    #[cfg(feature = "map")] c09 = m::c09,
    #[cfg(feature = "map")] c10 = m::c10,
    #[cfg(feature = "map")] c11 = m::c11,
    #[cfg(feature = "map")] c13 = m::c13,
    #[cfg(feature = "map")] c14m = m::c14m,
    #[cfg(feature = "map")] c15m = m2::c15m,
    #[cfg(feature = "map")] c18m = m2::c18m,
    #[cfg(feature = "map")] c19m = m2::c19m,
    #[cfg(feature = "map")] c23m = m2::c23m,
    #[cfg(feature = "map")] c23n = m2::c23n,
    #[cfg(feature = "map")] c25m = m2::c25m,
    #[cfg(feature = "map")] c26m = m2::c26m,
    #[cfg(feature = "map")] c16m = m3::c16m,
    #[cfg(feature = "map")] c17m = m3::c17m,
}
