//! Interface to the symbolic executor (or to the native replayer).
macro_rules! ext {
    ($abi:literal) => {
        unsafe extern $abi {
            fn sym_u8() -> u8;
            fn sym_u16() -> u16;
            fn sym_u32() -> u32;
            fn sym_u64() -> u64;
            fn sym_concretize(v: u64) -> u64;
            fn sym_assume(c: bool);
            fn sym_fail(code: u32) -> !;
            fn sym_cover(i: u32);
            fn sym_observe(v: u64);
            fn sym_select8(c: bool, a: u8, b: u8) -> u8;
        }
    };
}
#[cfg(panic = "abort")]
ext!("C");
#[cfg(not(panic = "abort"))]
ext!("C-unwind");
pub fn u8() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { sym_u64() }
}
/// one path per feasible value
pub fn conc(v: usize) -> usize {
    unsafe { sym_concretize(v as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// report a violation of the property
#[cold]
#[inline(never)]
pub fn fail(code: u32) -> ! {
    unsafe { sym_fail(code) }
}
#[inline(always)]
pub fn check(c: bool, code: u32) {
    if !c {
        fail(code)
    }
}
/// a situation the check must be able to reach (evidence against vacuity)
pub fn cover(i: u32) {
    unsafe { sym_cover(i) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn select8(c: bool, a: u8, b: u8) -> u8 {
    unsafe { sym_select8(c, a, b) }
}
/// a symbolic choice in 0..n, one path per choice
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let x = u8();
    assume((x as usize) < n);
    conc(x as usize)
}
/// a symbolic bool, one path per value
pub fn flip() -> bool {
    choose(2) == 1
}
