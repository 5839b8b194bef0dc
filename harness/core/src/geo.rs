//! Items, geometries and caches shared by the harnesses.
use crate::flash::*;
use crate::sym::*;
use sequential_storage::cache::page_pointers::*;
use sequential_storage::cache::page_states::*;
use sequential_storage::cache::*;
pub use crate::caches::NoC;

pub const BUF: usize = 104;

/// one item of the reference model
#[derive(Clone, Copy)]
pub struct It {
    pub len: u16,
    pub seed: u8,
    /// symbolic bytes mixed into the first positions
    pub s: [u8; 2],
}
impl It {
    pub const fn new(len: usize, seed: usize) -> It {
        It { len: len as u16, seed: seed as u8, s: [0; 2] }
    }
    pub fn byte(&self, i: usize) -> u8 {
        let b = self.seed.wrapping_mul(29).wrapping_add((i as u8).wrapping_mul(7)).wrapping_add(3);
        if i < 2 { b ^ self.s[i] } else { b }
    }
    pub fn fill(&self, b: &mut [u8; BUF]) -> usize {
        let mut i = 0;
        while i < self.len as usize {
            b[i] = self.byte(i);
            i += 1;
        }
        self.len as usize
    }
    pub fn is(&self, d: &[u8]) -> bool {
        if d.len() != self.len as usize {
            return false;
        }
        let mut x = 0u8;
        let mut i = 0;
        while i < d.len() {
            x |= d[i] ^ self.byte(i);
            i += 1;
        }
        x == 0
    }
}

// geometries: write size, read size, page size, range start, range length, device size
pub type GA = Flash<4, 4, 32, 32, 96, 160>;
pub type GB = Flash<1, 1, 24, 0, 96, 96>;
pub type GC = Flash<8, 1, 64, 64, 128, 256>;
pub type GD = Flash<4, 4, 48, 48, 48, 144>;
pub type GE = Flash<4, 16, 96, 0, 192, 192>;
pub type GF = Flash<32, 4, 192, 0, 384, 384>;
pub type GG = Flash<2, 1, 40, 40, 80, 160>;

pub type CA<K = ()> = Cache<ArrayPageStates<4>, ArrayPagePointers<4>, Uncached, K>;
pub type CC<K = ()> = Cache<CalculatedPageStates, Uncached, Uncached, K>;
pub type CH<K = ()> = Cache<HeapPageStates, HeapPagePointers, Uncached, K>;
pub type CP<K = ()> = Cache<Uncached, ArrayPagePointers<4>, Uncached, K>;
pub type CX<K = ()> = Cache<CalculatedPageStates, ArrayPagePointers<4>, Uncached, K>;
pub type CS<K = ()> = Cache<ArrayPageStates<4>, Uncached, Uncached, K>;

/// largest item that fits a page
pub fn max_len<F: Fl>() -> usize {
    F::PAGE - 2 * F::WORD - 8usize.next_multiple_of(F::WORD)
}

/// decoded argument of an entry
#[derive(Clone, Copy)]
pub struct A {
    pub steps: usize,
    pub pre: usize,
    pub var: usize,
}
pub fn arg(a: u64) -> (u64, A) {
    (a & 0xff, A { steps: (a >> 8 & 15) as usize, pre: (a >> 12 & 63) as usize, var: (a >> 18 & 63) as usize })
}

/// one symbolic item read returns up to three flipped bits in the length field (header reads)
/// or in the data
pub fn arm_glitch<F: Fl>(f: &mut F, wide: bool) {
    let c = f.ctl();
    c.mode = Mode::Glitch;
    c.seen = 0;
    c.hit = false;
    c.at = u8() as u32;
    c.glitch_mask = [u8(), u8(), 0, 0];
    if wide {
        c.glitch_mask[2] = u8();
        c.glitch_mask[3] = u8();
    }
    let m = c.glitch_mask;
    let n = m[0].count_ones() + m[1].count_ones() + m[2].count_ones() + m[3].count_ones();
    assume(n >= 1 && n <= 3);
}

/// one to three flipped bits among the bytes `at(0)..at(n)`: every choice of bytes, symbolic masks
fn flip_bits<F: Fl>(f: &mut F, n: usize, at: impl Fn(usize) -> usize) {
    let mut from = 0;
    let mut bits = 0;
    for _ in 0..3 {
        // n stands for "no further byte"
        let i = from + choose(n - from + 1);
        if i >= n {
            break;
        }
        let x = u8();
        assume(x != 0);
        bits += x.count_ones();
        f.mem_mut()[at(i)] ^= x;
        from = i + 1;
        if from >= n {
            break;
        }
    }
    assume(bits >= 1 && bits <= 3);
}
/// up to three flipped bits in the data and checksum (kind 0), the length field (kind 1) or the
/// length field and its checksum (kind 3) of the item at `at`
pub fn flip_item<F: Fl>(f: &mut F, at: usize, len: usize, kind: usize) {
    let h = 8usize.next_multiple_of(F::WORD);
    match kind {
        0 => flip_bits(f, 4 + len, |i| if i < 4 { at + i } else { at + h + i - 4 }),
        _ => flip_bits(f, if kind == 3 { 4 } else { 2 }, |i| at + 4 + i),
    }
}
/// up to three flipped bits in one of the markers
pub fn flip_marker<F: Fl>(f: &mut F) {
    let at = F::START + choose(F::PAGES) * F::PAGE + if flip() { F::PAGE - F::WORD } else { 0 };
    flip_bits(f, F::WORD, |i| at + i);
}

/// arbitrary flash contents. var 0: every byte symbolic; var 1: markers of every page as one of
/// the four states, items chosen from a few forms (2: not on pages without a start marker);
/// 4: the first page's markers and first item fully symbolic
pub fn soup<F: Fl>(f: &mut F, var: usize) {
    let (s, e) = (F::START, F::START + F::PAGE * F::PAGES);
    f.ctl().max_ops = 3000;
    if var == 0 {
        for i in s..e {
            f.mem_mut()[i] = u8();
        }
        return;
    }
    for p in 0..F::PAGES {
        let b = s + p * F::PAGE;
        if p == 0 && var & 4 != 0 {
            // markers of any value, an item with any header and data, the rest erased
            let w = F::WORD;
            for i in 0..w {
                f.mem_mut()[b + i] = u8();
                f.mem_mut()[b + F::PAGE - w + i] = u8();
            }
            for i in 0..(8usize.next_multiple_of(w) + 4).min(F::PAGE - 2 * w) {
                f.mem_mut()[b + w + i] = u8();
            }
            continue;
        }
        let st = choose(4);
        let w = F::WORD;
        let m = f.mem_mut();
        if st & 1 != 0 {
            for i in 0..w {
                m[b + i] = 0;
            }
        }
        if st & 2 != 0 {
            for i in 0..w {
                m[b + F::PAGE - 1 - i] = 0;
            }
        }
        if st & 1 == 0 && var & 2 != 0 {
            continue;
        }
        match choose(4) {
            0 => {}
            1 => {
                crate::dec::put_item::<F>(m, b + w, &[7, 1], false);
            }
            2 => {
                crate::dec::put_item::<F>(m, b + w, &[7, 2], true);
            }
            _ => {
                // checksum does not fit
                let at = b + w;
                crate::dec::put_item::<F>(m, at, &[7, 3], false);
                m[at] = 0x11;
            }
        }
    }
}
/// the flash holds an item with these bytes and a valid checksum
pub fn backed<F: Fl>(f: &F, d: &[u8]) {
    let w = F::WORD;
    let h = 8usize.next_multiple_of(w);
    let m = f.mem();
    let crc = crate::dec::item_crc(d).to_le_bytes();
    let l = (d.len() as u16).to_le_bytes();
    let lc = crate::dec::c16(d.len() as u16).to_le_bytes();
    let mut ok = false;
    for p in 0..F::PAGES {
        let b = F::START + p * F::PAGE;
        let mut at = b + w;
        while at + h + d.len() <= b + F::PAGE - w {
            let mut x = 0u8;
            for i in 0..4 {
                x |= m[at + i] ^ crc[i];
            }
            for i in 0..2 {
                x |= m[at + 4 + i] ^ l[i];
                x |= m[at + 6 + i] ^ lc[i];
            }
            for i in 0..d.len() {
                x |= m[at + h + i] ^ d[i];
            }
            ok |= x == 0;
            at += w;
        }
    }
    check(ok, crate::F_CRC);
}
