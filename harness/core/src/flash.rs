//! Flash model: NOR semantics, access-rule recording, crash / fault injection.
use crate::sym;
use core::cell::Cell;
use core::future::Future;
use core::pin::{Pin, pin};
use core::task::{Context, Poll, Waker};
use embedded_storage_async::nor_flash::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FErr {
    /// power was lost or the access failed
    Fault,
    /// access outside the device or misaligned (recorded in `rule`)
    Rule,
}
impl NorFlashError for FErr {
    fn kind(&self) -> NorFlashErrorKind {
        match self {
            FErr::Fault => NorFlashErrorKind::Other,
            FErr::Rule => NorFlashErrorKind::NotAligned,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    None,
    /// after `fuel` more written or erased bytes the power is lost
    Crash,
    /// like Crash, but only that one access fails: the device works afterwards
    FailOnce,
    /// power is lost; every access fails
    Dead,
    /// access number `at` (counted from arming) fails without effect
    FailOp,
    /// read number `at` returns one flipped-bits result, once
    Glitch,
    /// the access number `at` does not complete: the future stays pending
    /// (even: before the effect, odd: after the effect)
    Stall,
}

#[derive(Clone, Copy)]
pub struct Ctl {
    pub mode: Mode,
    pub fuel: u32,
    pub used: u32,
    pub at: u32,
    pub seen: u32,
    pub ops: u32,
    pub max_ops: u32,
    /// first broken access rule (0 = none)
    pub rule: u32,
    pub erases: [u16; 8],
    pub glitch_mask: [u8; 4],
    pub glitch_pos: usize,
    pub hit: bool,
    pub log_erase: u32,
    /// check that pages are erased one after the other and never when blank
    pub wear: bool,
    pub wear_bad: u32,
    pub last: usize,
    pub track: bool,
    /// power was lost before: the marker of a page may be written again
    pub torn: bool,
    pub hook: Option<fn()>,
    pub reads: u32,
    pub writes: u32,
}
pub const CTL0: Ctl = Ctl {
    mode: Mode::None,
    fuel: 0,
    used: 0,
    at: 0,
    seen: 0,
    ops: 0,
    max_ops: 100_000,
    rule: 0,
    erases: [0; 8],
    glitch_mask: [0; 4],
    glitch_pos: 0,
    hit: false,
    log_erase: 0,
    wear: false,
    wear_bad: 0,
    last: usize::MAX,
    track: false,
    torn: false,
    hook: None,
    reads: 0,
    writes: 0,
};

pub const R_READ_ALIGN: u32 = 1;
pub const R_READ_RANGE: u32 = 2;
pub const R_WRITE_ALIGN: u32 = 3;
pub const R_WRITE_RANGE: u32 = 4;
pub const R_ERASE_ALIGN: u32 = 5;
pub const R_ERASE_RANGE: u32 = 6;
pub const R_REWRITE: u32 = 7;
pub const R_EMPTY: u32 = 8;

/// W: write size, R: read size, PS: page (erase) size, OFF: start of the storage
/// range, LEN: length of the range, N: device size
#[derive(Clone)]
pub struct Flash<const W: usize, const R: usize, const PS: usize, const OFF: usize, const LEN: usize, const N: usize> {
    pub d: [u8; N],
    /// per byte: 0 erased, 1 written once, 2 rewritten
    pub wr: [u8; N],
    pub c: Ctl,
}

/// What the harness needs to know about a flash.
pub trait Fl: NorFlash<Error = FErr> + MultiwriteNorFlash + Clone {
    const WORD: usize;
    const RD: usize;
    const PAGE: usize;
    const PAGES: usize;
    const START: usize;
    const SIZE: usize;
    fn new() -> Self;
    fn mem(&self) -> &[u8];
    fn mem_mut(&mut self) -> &mut [u8];
    fn ctl(&mut self) -> &mut Ctl;
    fn ctlr(&self) -> &Ctl;
    fn range() -> core::ops::Range<u32> {
        Self::START as u32..(Self::START + Self::PAGE * Self::PAGES) as u32
    }
    /// stop injecting faults
    fn heal(&mut self) {
        let c = self.ctl();
        c.mode = Mode::None;
        c.hit = false;
    }
    fn revived(&self) -> Self {
        let mut f = self.clone();
        f.heal();
        f
    }
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (self.mem(), o.mem());
        let mut i = 0;
        let mut d = 0u8;
        while i < Self::SIZE {
            d |= a[i] ^ b[i];
            i += 1;
        }
        d == 0
    }
}

impl<const W: usize, const R: usize, const PS: usize, const OFF: usize, const LEN: usize, const N: usize> Fl for Flash<W, R, PS, OFF, LEN, N> {
    const WORD: usize = if W > R { W } else { R };
    const RD: usize = R;
    const PAGE: usize = PS;
    const PAGES: usize = LEN / PS;
    const START: usize = OFF;
    const SIZE: usize = N;
    fn new() -> Self {
        Flash { d: [0xff; N], wr: [0; N], c: CTL0 }
    }
    fn mem(&self) -> &[u8] {
        &self.d
    }
    fn mem_mut(&mut self) -> &mut [u8] {
        &mut self.d
    }
    fn ctl(&mut self) -> &mut Ctl {
        &mut self.c
    }
    fn ctlr(&self) -> &Ctl {
        &self.c
    }
}

struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}

impl<const W: usize, const R: usize, const PS: usize, const OFF: usize, const LEN: usize, const N: usize> Flash<W, R, PS, OFF, LEN, N> {
    fn broken(&mut self, r: u32) -> Result<(), FErr> {
        if self.c.rule == 0 {
            self.c.rule = r;
        }
        Err(FErr::Rule)
    }
    /// a second write may only zero the checksum of an item header, once
    fn erasing(&self, o: usize, b: &[u8]) -> bool {
        let w = if W > R { W } else { R };
        if b.len() != 8usize.next_multiple_of(w) || crate::dec::c16(u16::from_le_bytes([b[4], b[5]])) != u16::from_le_bytes([b[6], b[7]]) {
            return false;
        }
        let mut i = 0;
        while i < b.len() {
            if self.wr[o + i] != 1 {
                return false;
            }
            if b[i] != if i < 4 { 0 } else { self.d[o + i] } {
                return false;
            }
            i += 1;
        }
        true
    }
    /// start of an access; true when the access stalls after its effect
    async fn begin(&mut self) -> Result<bool, FErr> {
        self.c.ops += 1;
        if self.c.ops > self.c.max_ops {
            sym::fail(crate::F_NONTERM);
        }
        if let Some(h) = self.c.hook {
            h();
        }
        match self.c.mode {
            Mode::Dead => return Err(FErr::Fault),
            Mode::FailOp => {
                if self.c.seen == self.c.at {
                    self.c.hit = true;
                    self.c.mode = Mode::None;
                    return Err(FErr::Fault);
                }
                self.c.seen += 1;
            }
            Mode::Stall => {
                if self.c.seen == self.c.at {
                    self.c.hit = true;
                    Never.await;
                }
                self.c.seen += 1;
                if self.c.seen == self.c.at {
                    return Ok(true);
                }
                self.c.seen += 1;
            }
            _ => {}
        }
        Ok(false)
    }
    async fn end(&mut self, stall: bool) {
        if stall {
            self.c.hit = true;
            Never.await;
        }
        if let Some(h) = self.c.hook {
            h();
        }
    }
    /// how many of the n bytes to be programmed or erased are still reached before the power
    /// goes (one path per byte position)
    fn reach(&mut self, n: usize) -> usize {
        if self.c.mode == Mode::Crash || self.c.mode == Mode::FailOnce {
            let u = self.c.used;
            self.c.used += n as u32;
            if self.c.fuel < self.c.used {
                self.c.hit = true;
                self.c.mode = if self.c.mode == Mode::Crash { Mode::Dead } else { Mode::None };
                return sym::conc((self.c.fuel - u) as usize);
            }
        }
        n
    }
}

impl<const W: usize, const R: usize, const PS: usize, const OFF: usize, const LEN: usize, const N: usize> ErrorType for Flash<W, R, PS, OFF, LEN, N> {
    type Error = FErr;
}
impl<const W: usize, const R: usize, const PS: usize, const OFF: usize, const LEN: usize, const N: usize> ReadNorFlash for Flash<W, R, PS, OFF, LEN, N> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), FErr> {
        let stall = self.begin().await?;
        self.c.reads += 1;
        let (o, n) = (offset as usize, bytes.len());
        if o % R != 0 || n % R != 0 {
            return self.broken(R_READ_ALIGN);
        }
        if n == 0 {
            return self.broken(R_EMPTY);
        }
        if o < OFF || o > OFF + LEN || n > OFF + LEN - o {
            return self.broken(R_READ_RANGE);
        }
        bytes.copy_from_slice(&self.d[o..o + n]);
        if self.c.mode == Mode::Glitch {
            let (w, h) = (Self::WORD, 8usize.next_multiple_of(Self::WORD));
            let rel = (o - OFF) % PS;
            // page marker reads are left alone; header reads start at an intact header
            let marker = rel < w || rel >= PS - w;
            let header = n == h
                && crate::dec::c16(u16::from_le_bytes([bytes[4], bytes[5]])) == u16::from_le_bytes([bytes[6], bytes[7]]);
            let body = crate::dec::is_body::<Self>(&self.d, o, n);
            if !marker && (header || body) {
                if self.c.at == self.c.seen {
                    self.c.hit = true;
                    self.c.mode = Mode::None;
                    let m = self.c.glitch_mask;
                    if body {
                        let p = if n > 4 { sym::choose(n - 3) } else { 0 };
                        self.c.glitch_pos = 8 + p;
                        for i in 0..4 {
                            if p + i < n {
                                bytes[p + i] ^= m[i];
                            }
                        }
                    } else {
                        self.c.glitch_pos = 4;
                        bytes[4] ^= m[0];
                        bytes[5] ^= m[1];
                    }
                } else {
                    self.c.seen += 1;
                }
            }
        }
        self.end(stall).await;
        Ok(())
    }
    fn capacity(&self) -> usize {
        N
    }
}
impl<const W: usize, const R: usize, const PS: usize, const OFF: usize, const LEN: usize, const N: usize> NorFlash for Flash<W, R, PS, OFF, LEN, N> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = PS;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), FErr> {
        let stall = self.begin().await?;
        let (f, t) = (from as usize, to as usize);
        if f % PS != 0 || t % PS != 0 || f > t {
            return self.broken(R_ERASE_ALIGN);
        }
        if f < OFF || t > OFF + LEN {
            return self.broken(R_ERASE_RANGE);
        }
        if self.c.wear {
            let p = (f - OFF) / PS;
            let n = LEN / PS;
            if t - f != PS || p != (if self.c.last == usize::MAX { 0 } else { (self.c.last + 1) % n }) {
                self.c.wear_bad = 1;
            }
            let mut x = 0xffu8;
            for b in &self.d[f..t] {
                x &= *b;
            }
            if x == 0xff {
                self.c.wear_bad = 2;
            }
            self.c.last = p;
        }
        let k = self.reach(t - f);
        let mut a = f;
        while a < f + k {
            self.d[a] = 0xff;
            self.wr[a] = 0;
            a += 1;
        }
        let mut p = (f - OFF) / PS;
        while p < (t - OFF) / PS && p < 8 {
            self.c.erases[p] += 1;
            p += 1;
        }
        self.c.log_erase += 1;
        if k < t - f {
            return Err(FErr::Fault);
        }
        self.end(stall).await;
        Ok(())
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), FErr> {
        let stall = self.begin().await?;
        self.c.writes += 1;
        let (o, n) = (offset as usize, bytes.len());
        if o % W != 0 || n % W != 0 {
            return self.broken(R_WRITE_ALIGN);
        }
        if n == 0 {
            return self.broken(R_EMPTY);
        }
        if o < OFF || o > OFF + LEN || n > OFF + LEN - o {
            return self.broken(R_WRITE_RANGE);
        }
        if self.c.track && self.c.rule == 0 {
            let mut used = false;
            for x in &self.wr[o..o + n] {
                used |= *x != 0;
            }
            let w = Self::WORD;
            let rel = (o - OFF) % PS;
            let marker = self.c.torn && (rel < w || rel >= PS - w) && n <= w;
            if used && !marker && !self.erasing(o, bytes) {
                self.c.rule = R_REWRITE;
            }
        }
        let k = self.reach(n);
        let mut i = 0;
        while i < k {
            let a = o + i;
            // an erased byte left as it was by a write that was cut off is still unwritten
            if k == n || bytes[i] != 0xff {
                self.wr[a] += 1;
            }
            self.d[a] &= bytes[i];
            i += 1;
        }
        if k < n {
            return Err(FErr::Fault);
        }
        self.end(stall).await;
        Ok(())
    }
}
impl<const W: usize, const R: usize, const PS: usize, const OFF: usize, const LEN: usize, const N: usize> MultiwriteNorFlash for Flash<W, R, PS, OFF, LEN, N> {}

/// run a future to completion; a future that stays pending is a hang
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => v,
        Poll::Pending => sym::fail(crate::F_PENDING),
    }
}
/// poll once and drop the future if it did not complete
pub fn poll_once<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

/// number of accesses so far, shared by harness hooks
pub struct Counter(pub Cell<u32>);
unsafe impl Sync for Counter {}

/// one access fails half-way (0), fails without effect (1) or never completes (2)
pub fn fault(c: &mut Ctl, kind: usize) {
    c.used = 0;
    c.seen = 0;
    match kind {
        0 => {
            c.mode = Mode::FailOnce;
            c.fuel = sym::u16() as u32;
        }
        k => {
            c.mode = if k == 1 { Mode::FailOp } else { Mode::Stall };
            c.at = sym::u8() as u32;
        }
    }
}
