//! Independent encoder and decoder of the documented flash layout.
use crate::flash::Fl;

pub fn up(n: usize, w: usize) -> usize {
    n.div_ceil(w) * w
}
/// reflected CRC, one byte at a time, most significant step first written as polynomial division
pub fn c32(data: &[u8]) -> u32 {
    let mut r: u32 = 0xEEEE_EEEE;
    for b in data {
        let mut x = (r ^ *b as u32) & 0xff;
        r >>= 8;
        let mut add = 0u32;
        // remainder of x * t^32
        for _ in 0..8 {
            let low = add ^ x;
            add = (add >> 1) ^ (0x82F6_3B78 & (0u32.wrapping_sub(low & 1)));
            x >>= 1;
        }
        r ^= add;
    }
    r ^ 0xFFFF_FFFF
}
pub fn item_crc(data: &[u8]) -> u32 {
    let v = c32(data);
    let low = v as u8;
    if v == 0 {
        1
    } else if low == 0 || low == 0xff {
        v ^ 1
    } else {
        v
    }
}
pub fn c16(len: u16) -> u16 {
    let mut r: u16 = 0xffff;
    for b in [len as u8, (len >> 8) as u8] {
        r ^= b as u16;
        for _ in 0..8 {
            let m = 0u16.wrapping_sub(r & 1);
            r = (r >> 1) ^ (0x1a2e & m);
        }
    }
    let r = !r;
    if r == 0xffff { 0xfffe } else { r }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Open,
    Partial,
    Closed,
    Torn,
}
fn zeros(b: &[u8]) -> u32 {
    let mut n = 0;
    for x in b {
        n += x.count_zeros();
    }
    n
}
pub fn page_start<F: Fl>(p: usize) -> usize {
    F::START + p * F::PAGE
}
pub fn state<F: Fl>(m: &[u8], p: usize) -> St {
    let s = page_start::<F>(p);
    let a = zeros(&m[s..s + F::RD]) >= 4;
    let b = zeros(&m[s + F::PAGE - F::RD..s + F::PAGE]) >= 4;
    match (a, b) {
        (false, false) => St::Open,
        (true, false) => St::Partial,
        (true, true) => St::Closed,
        (false, true) => St::Torn,
    }
}
#[derive(Clone, Copy)]
pub struct Rec {
    pub at: usize,
    pub len: usize,
    pub erased: bool,
    /// the data has the checksum the header says
    pub ok: bool,
}
/// walks the items of a page (intact headers only); `page_end` is the first free address
pub struct Walk {
    pub at: usize,
    pub end: usize,
}
impl Walk {
    pub fn new<F: Fl>(p: usize) -> Walk {
        let s = page_start::<F>(p);
        Walk { at: s + F::WORD, end: s + F::PAGE - F::WORD }
    }
    pub fn next<F: Fl>(&mut self, m: &[u8]) -> Option<Rec> {
        let h = up(8, F::WORD);
        loop {
            if self.at + h > self.end {
                return None;
            }
            let at = self.at;
            let x = &m[at..at + h];
            let mut all = 0xffu8;
            for b in x {
                all &= *b;
            }
            if all == 0xff {
                return None;
            }
            let len = u16::from_le_bytes([x[4], x[5]]);
            let crc = u32::from_le_bytes([x[0], x[1], x[2], x[3]]);
            let next = at + h + up(len as usize, F::WORD);
            if u16::from_le_bytes([x[6], x[7]]) != c16(len) || next > self.end {
                self.at += F::WORD;
                continue;
            }
            self.at = next;
            let ok = crc == item_crc(&m[at + h..at + h + len as usize]);
            return Some(Rec { at, len: len as usize, erased: crc == 0, ok });
        }
    }
}
/// pages from the oldest to the one being written
pub fn order<F: Fl>(m: &[u8]) -> ([usize; 8], usize) {
    let mut st = [St::Open; 8];
    for p in 0..F::PAGES {
        st[p] = state::<F>(m, p);
    }
    // the page being written, or the first open page after the closed ones
    let mut y = 0;
    let mut found = false;
    for p in 0..F::PAGES {
        if st[p] == St::Partial {
            y = p;
            found = true;
        }
    }
    if !found {
        for p in 0..F::PAGES {
            if st[p] == St::Open && st[(p + F::PAGES - 1) % F::PAGES] == St::Closed {
                y = p;
            }
        }
    }
    let mut o = [0; 8];
    let mut n = 0;
    for k in 1..=F::PAGES {
        let p = (y + k) % F::PAGES;
        if st[p] == St::Closed || p == y {
            o[n] = p;
            n += 1;
        }
    }
    (o, n)
}

/// writes one item at `at`, returns the next address
pub fn put_item<F: Fl>(m: &mut [u8], at: usize, data: &[u8], erased: bool) -> usize {
    let h = up(8, F::WORD);
    for b in m[at..at + h].iter_mut() {
        *b = 0xff;
    }
    let c = if erased { 0 } else { item_crc(data) };
    m[at..at + 4].copy_from_slice(&c.to_le_bytes());
    let l = data.len() as u16;
    m[at + 4..at + 6].copy_from_slice(&l.to_le_bytes());
    m[at + 6..at + 8].copy_from_slice(&c16(l).to_le_bytes());
    let n = up(data.len(), F::WORD);
    for i in 0..n {
        m[at + h + i] = if i < data.len() { data[i] } else { 0 };
    }
    at + h + n
}
pub fn mark<F: Fl>(m: &mut [u8], p: usize, s: St) {
    let a = page_start::<F>(p);
    if s != St::Open {
        for b in m[a..a + F::WORD].iter_mut() {
            *b = 0;
        }
    }
    if s == St::Closed {
        for b in m[a + F::PAGE - F::WORD..a + F::PAGE].iter_mut() {
            *b = 0;
        }
    }
}
/// is `o..o + n` exactly the data of an item?
pub fn is_body<F: Fl>(m: &[u8], o: usize, n: usize) -> bool {
    let p = (o - F::START) / F::PAGE;
    if n == 0 {
        return false;
    }
    let mut w = Walk::new::<F>(p);
    while let Some(r) = w.next::<F>(m) {
        if r.at + up(8, F::WORD) == o && up(r.len, F::WORD) == n {
            return true;
        }
    }
    false
}
