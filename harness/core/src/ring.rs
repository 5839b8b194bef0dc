//! C21 and C24: the RAM ring in front of the queue.
use crate::caches::*;
use crate::dec;
use crate::flash::*;
use crate::geo::*;
use crate::sym::*;
use crate::*;
use embedded_storage_async::nor_flash::*;
use sequential_storage::Error;
use sequential_storage::queue::buffered::*;
use sequential_storage::queue::*;

/// a flash the harness can look at while the storage owns it
pub struct P<F>(*mut F);
impl<F: Fl> P<F> {
    fn f(&mut self) -> &mut F {
        unsafe { &mut *self.0 }
    }
}
impl<F: Fl> ErrorType for P<F> {
    type Error = FErr;
}
impl<F: Fl> ReadNorFlash for P<F> {
    const READ_SIZE: usize = F::READ_SIZE;
    async fn read(&mut self, o: u32, b: &mut [u8]) -> Result<(), FErr> {
        self.f().read(o, b).await
    }
    fn capacity(&self) -> usize {
        F::SIZE
    }
}
impl<F: Fl> NorFlash for P<F> {
    const WRITE_SIZE: usize = F::WRITE_SIZE;
    const ERASE_SIZE: usize = F::ERASE_SIZE;
    async fn erase(&mut self, a: u32, b: u32) -> Result<(), FErr> {
        self.f().erase(a, b).await
    }
    async fn write(&mut self, o: u32, b: &[u8]) -> Result<(), FErr> {
        self.f().write(o, b).await
    }
}
impl<F: Fl> MultiwriteNorFlash for P<F> {}
fn queue<F: Fl, C: Mk<()>>(f: *mut F) -> QueueStorage<P<F>, C> {
    match QueueConfig::try_new(F::range()) {
        Ok(c) => QueueStorage::new(P(f), c, C::mk(F::PAGES)),
        Err(_) => fail(F_REJECT),
    }
}
const NF: usize = 32;
const NR: usize = 32;
/// position and length of every live item in flash, oldest first
fn live<F: Fl>(mem: &[u8]) -> ([(usize, usize); NF], usize) {
    let mut v = [(0, 0); NF];
    let mut n = 0;
    let (o, np) = dec::order::<F>(mem);
    for p in &o[..np] {
        let mut w = dec::Walk::new::<F>(*p);
        while let Some(r) = w.next::<F>(mem) {
            if !r.erased && r.ok {
                check(n < NF, F_FORMAT);
                v[n] = (r.at + 8usize.next_multiple_of(F::WORD), r.len);
                n += 1;
            }
        }
    }
    (v, n)
}

// ---------------------------------------------------------------- C21
struct B<'f, F: Fl, C: Mk<()>, const N: usize> {
    q: BufferedQueue<P<F>, C, N>,
    flash: *mut F,
    f: [It; NF],
    nf: usize,
    r: [It; NR],
    nr: usize,
    seq: usize,
    s: [u8; 2],
    _l: core::marker::PhantomData<&'f ()>,
}
fn drop_first(a: &mut [It], n: &mut usize) {
    a.copy_within(1..*n, 0);
    *n -= 1;
}
impl<F: Fl, C: Mk<()>, const N: usize> B<'_, F, C, N> {
    fn fl(&mut self) -> &mut F {
        unsafe { &mut *self.flash }
    }
    fn used(&self) -> usize {
        self.r[..self.nr].iter().map(|i| 2 + i.len as usize).sum()
    }
    fn counts(&mut self) {
        let u = self.used();
        check(self.q.ram_pending_count() == self.nr, F_COUNT);
        check(self.q.ram_bytes_used() == u && self.q.ram_free_bytes() == N - u, F_COUNT);
        check(BufferedQueue::<P<F>, C, N>::ram_capacity_bytes() == N, F_COUNT);
    }
    /// the flash holds what the model says, except that the oldest may have been overwritten
    fn stored(&mut self, ow: bool) {
        let (v, n) = live::<F>(unsafe { (*self.flash).mem() });
        check(n <= self.nf && (ow || n == self.nf), F_LOST);
        let k = self.nf - n;
        for i in 0..n {
            let (at, len) = v[i];
            let it = self.f[k + i];
            check(it.is(&self.fl().mem()[at..at + len]), F_ORDER);
        }
        self.f.copy_within(k..self.nf, 0);
        self.nf = n;
    }
    fn enqueue(&mut self, len: usize, p: OverflowPolicy) -> bool {
        self.seq += 1;
        let mut it = It::new(len, self.seq);
        it.s = core::mem::replace(&mut self.s, [0; 2]);
        let mut b = [0; BUF];
        let n = it.fill(&mut b);
        let r = self.q.enqueue(&b[..n], p).is_ok();
        let fits = match p {
            OverflowPolicy::Err => self.used() + 2 + len <= N,
            OverflowPolicy::DiscardOldest => 2 + len <= N,
        };
        check(!(r && !fits), F_OK);
        check(!(fits && !r), F_REJECT);
        if r {
            while self.used() + 2 + len > N {
                drop_first(&mut self.r, &mut self.nr);
                cover(2);
            }
            self.r[self.nr] = it;
            self.nr += 1;
        }
        observe(r as u64);
        self.counts();
        r
    }
    fn drain(&mut self, ow: bool, fault: bool) -> bool {
        let mut b = [0; BUF];
        let r = block_on(self.q.drain_one(&mut b, ow));
        match r {
            Ok(true) => {
                check(self.nr > 0, F_EXTRA);
                self.f[self.nf] = self.r[0];
                self.nf += 1;
                drop_first(&mut self.r, &mut self.nr);
                self.counts();
                self.stored(ow);
                check(self.nf > 0, F_LOST);
                cover(0);
                return true;
            }
            Ok(false) => check(self.nr == 0, F_LOST),
            Err(Error::FullStorage) => check(!ow && self.nr > 0 && self.nf > 0, F_ERR),
            Err(Error::ItemTooBig) => check(self.nr > 0 && self.r[0].len as usize > max_len::<F>(), F_ERR),
            Err(Error::Storage { .. }) => check(fault && self.fl().ctl().hit, F_ERR),
            Err(_) => fail(F_ERR),
        }
        if r.is_err() {
            cover(3);
        }
        self.counts();
        if fault {
            self.fl().heal();
            // a write that failed can have left the complete item in flash
            if r.is_err() && live::<F>(self.fl().mem()).1 == self.nf + 1 {
                self.f[self.nf] = self.r[0];
                self.nf += 1;
            }
        }
        self.stored(ow);
        false
    }
    fn all(&mut self, ow: bool) {
        let mut b = [0; BUF];
        let r = block_on(self.q.drain_all(&mut b, ow));
        let left = self.q.ram_pending_count();
        check(left <= self.nr, F_COUNT);
        match r {
            Ok(()) => check(left == 0, F_LOST),
            Err(Error::FullStorage) => check(!ow && left > 0, F_ERR),
            Err(Error::ItemTooBig) => check(left > 0 && self.r[self.nr - left].len as usize > max_len::<F>(), F_ERR),
            Err(_) => fail(F_ERR),
        }
        while self.nr > left {
            self.f[self.nf] = self.r[0];
            self.nf += 1;
            drop_first(&mut self.r, &mut self.nr);
        }
        self.counts();
        self.stored(ow);
    }
    /// take or look at the oldest item; a buffer that is too small must be reported
    fn get(&mut self, pop: bool, cap: usize) -> bool {
        let mut b = [0; BUF];
        let (has, want) = if self.nf > 0 {
            (true, self.f[0])
        } else if self.nr > 0 {
            (true, self.r[0])
        } else {
            (false, It::new(0, 0))
        };
        let cap = cap.min(BUF);
        let r = if pop { block_on(self.q.pop(&mut b[..cap])) } else { block_on(self.q.peek(&mut b[..cap])) };
        let mut took = false;
        match r {
            Ok(Some(d)) => {
                check(has, F_NONE);
                check(want.is(d), F_ORDER);
                took = pop;
            }
            Ok(None) => check(!has, F_NONE),
            Err(Error::BufferTooSmall(n)) => {
                check(has && n > cap, F_ERR);
                check(n >= want.len as usize && n <= (want.len as usize).next_multiple_of(F::WORD), F_COUNT);
                cover(4);
            }
            Err(_) => fail(F_ERR),
        }
        if took {
            if self.nf > 0 {
                drop_first(&mut self.f, &mut self.nf);
            } else {
                drop_first(&mut self.r, &mut self.nr);
                cover(1);
            }
        }
        self.counts();
        self.stored(false);
        took
    }
}
fn buffered<F: Fl, C: Mk<()>, const N: usize>(a: A) {
    let mut f = F::new();
    let fp: *mut F = &mut f;
    let mut q: B<F, C, N> = B { q: BufferedQueue::new(queue(fp)), flash: fp, f: [It::new(0, 0); NF], nf: 0, r: [It::new(0, 0); NR], nr: 0, seq: 0, s: [0; 2], _l: core::marker::PhantomData };
    use OverflowPolicy::*;
    let mx = max_len::<F>();
    // every ring position
    let p = choose(N.max(1));
    if p == 1 && N > 4 {
        q.enqueue(1, Err);
        q.get(true, BUF);
        q.enqueue(N - 4, Err);
        q.get(true, BUF);
    } else if p > 1 {
        q.enqueue(p - 2, Err);
        q.get(true, BUF);
    }
    // something in flash
    for i in 0..choose(a.pre + 1) {
        q.enqueue((i * 5 % 7).min(mx).min(N.saturating_sub(2)), DiscardOldest);
        q.all(false);
    }
    q.s = [u8(), u8()];
    for k in 0..a.steps {
        match choose(if a.var == 1 { 11 } else { 10 }) {
            0 => {
                // any length
                let l = choose(N + 1);
                q.enqueue(l, if k % 2 == 0 { DiscardOldest } else { Err });
            }
            1 => {
                q.enqueue(0, Err);
            }
            2 => {
                q.enqueue(3, Err);
            }
            3 => {
                q.enqueue(N / 2, DiscardOldest);
            }
            4 => {
                q.drain(false, false);
            }
            5 => {
                q.drain(true, false);
            }
            6 => q.all(k % 2 == 1),
            7 => {
                q.get(true, BUF);
            }
            8 => {
                q.get(false, BUF);
            }
            9 => {
                let c = [0, 2][choose(2)];
                q.get(flip(), c);
            }
            _ => {
                q.fl().ctl().mode = Mode::FailOp;
                q.fl().ctl().at = u8() as u32;
                q.fl().ctl().seen = 0;
                q.drain(false, true);
                q.fl().heal();
            }
        }
    }
    // a few fill up the ring, everything comes out in order
    if N >= 6 {
        q.enqueue(1, Err);
        q.enqueue(2, DiscardOldest);
    }
    while q.get(true, BUF) {}
    check(q.nr == 0 && q.nf == 0, F_LOST);
}
pub fn c21(a: u64) {
    let (g, a) = arg(a);
    match g {
        0 => buffered::<GA, NoC, 12>(a),
        1 => buffered::<GB, CA, 7>(a),
        2 => buffered::<GC, CC, 16>(a),
        3 => buffered::<GD, CP, 9>(a),
        4 => buffered::<GG, CX, 24>(a),
        5 => buffered::<GB, NoC, 2>(a),
        6 => buffered::<GB, NoC, 1>(a),
        7 => buffered::<GB, CC, 0>(a),
        8 => buffered::<GB, CH, 33>(a),
        9 => buffered::<GA, CX, 5>(a),
        _ => fail(0),
    }
}

// ---------------------------------------------------------------- C24
/// what interrupts, one global as the interrupt handler would have
struct Isr {
    /// interrupts that can still happen
    left: usize,
    depth: usize,
    busy: bool,
    ring: *const (),
    run: fn(),
    woken: usize,
}
static mut ISR: Isr = Isr { left: 0, depth: 0, busy: false, ring: core::ptr::null(), run: none, woken: 0 };
fn none() {}
fn isr() -> &'static mut Isr {
    unsafe { &mut *(&raw mut ISR) }
}
/// a point at which interrupts are possible
fn point() {
    let i = isr();
    while i.left > 0 && i.depth == 0 && !i.busy && flip() {
        i.left -= 1;
        i.busy = true;
        (i.run)();
        i.busy = false;
    }
}
#[unsafe(no_mangle)]
unsafe fn _critical_section_1_0_acquire() {
    point();
    isr().depth += 1;
}
#[unsafe(no_mangle)]
unsafe fn _critical_section_1_0_release(_: ()) {
    isr().depth -= 1;
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Is {
    Ring,
    Flash,
    /// thrown away while a drain was running: may have reached the flash
    Evicted,
    Gone,
}
const NI: usize = 24;
struct W {
    it: [It; NI],
    is: [Is; NI],
    n: usize,
    /// the first item that is still in the ring
    first: usize,
    /// a drain is running
    call: bool,
    accepted: usize,
    kinds: usize,
    s: [u8; 2],
}
static mut W0: W = W { it: [It::new(0, 0); NI], is: [Is::Gone; NI], n: 0, first: 0, call: false, accepted: 0, kinds: 4, s: [0; 2] };
fn w() -> &'static mut W {
    unsafe { &mut *(&raw mut W0) }
}
impl W {
    fn count(&self) -> usize {
        self.n - self.first
    }
    fn used(&self) -> usize {
        self.it[self.first..self.n].iter().map(|i| 2 + i.len as usize).sum()
    }
    /// the ring has shrunk: those items must be in flash now
    fn sync(&mut self, count: usize) {
        check(count <= self.count(), F_EXTRA);
        while self.count() > count {
            self.is[self.first] = Is::Flash;
            self.first += 1;
        }
    }
}
fn ring<const N: usize>() -> &'static SharedRamRing<N> {
    unsafe { &*(isr().ring as *const SharedRamRing<N>) }
}
fn counts<const N: usize>() {
    let (r, w) = (ring::<N>(), w());
    check(r.ram_pending_count() == w.count(), F_COUNT);
    check(r.ram_free_bytes() == N - w.used(), F_COUNT);
    check(r.oldest_ram_item_len() == if w.count() > 0 { Some(w.it[w.first].len as usize) } else { None }, F_ORDER);
}
/// one enqueue, from the interrupt or from the task
fn enqueue<const N: usize>(kind: usize) {
    let (r, w) = (ring::<N>(), w());
    let b0 = isr().busy;
    isr().busy = true;
    w.sync(r.ram_pending_count());
    use OverflowPolicy::*;
    let (len, p) = match kind {
        0 => (1, DiscardOldest),
        1 => (2, Err),
        2 => (N - 2, DiscardOldest),
        3 => (N / 2, DiscardOldest),
        4 => (N - 2, Err),
        _ => (N - 1, DiscardOldest),
    };
    let mut it = It::new(len, w.n + 1);
    it.s = core::mem::replace(&mut w.s, [0; 2]);
    // the first byte is the number of the item
    it.s[0] = 0;
    let mut b = [0; BUF];
    let n = it.fill(&mut b);
    let ok = r.enqueue(&b[..n], p).is_ok();
    let fits = if p == Err { w.used() } else { 0 } + 2 + len <= N;
    check(!(ok && !fits), F_OK);
    check(!(fits && !ok), F_REJECT);
    if ok {
        while w.used() + 2 + len > N {
            w.is[w.first] = if w.call { Is::Evicted } else { Is::Gone };
            w.first += 1;
            cover(1);
        }
        w.it[w.n] = it;
        w.is[w.n] = Is::Ring;
        w.n += 1;
        w.accepted += 1;
    }
    counts::<N>();
    isr().busy = b0;
}
fn interrupt<const N: usize>() {
    enqueue::<N>(choose(w().kinds));
    cover(0);
}
struct Z<F: Fl, C: Mk<()>, const N: usize> {
    q: QueueStorage<P<F>, C>,
    flash: *mut F,
}
impl<F: Fl, C: Mk<()>, const N: usize> Z<F, C, N> {
    fn before(&mut self) -> usize {
        w().call = true;
        unsafe { (*self.flash).ctl().hook = Some(point) };
        w().n
    }
    /// compare the flash with what was drained; `popped`: the number of the item a pop returned
    fn after(&mut self, popped: Option<usize>) {
        unsafe { (*self.flash).ctl().hook = None };
        isr().busy = true;
        let w = w();
        w.call = false;
        w.sync(ring::<N>().ram_pending_count());
        counts::<N>();
        let mem = unsafe { (*self.flash).mem() };
        let (v, n) = live::<F>(mem);
        let mut next = 0;
        if let Some(p) = popped {
            check(p < w.n && (w.is[p] == Is::Flash || w.is[p] == Is::Evicted), F_EXTRA);
            for k in 0..p {
                check(w.is[k] != Is::Flash, F_ORDER);
            }
            w.is[p] = Is::Gone;
            next = p + 1;
        }
        for (at, len) in v[..n].iter().copied() {
            let d = &mem[at..at + len];
            let mut k = next;
            while k < w.n && !(w.it[k].byte(0) == d[0]) {
                check(w.is[k] != Is::Flash, F_LOST);
                k += 1;
            }
            check(k < w.n, F_ORDER);
            check(w.it[k].is(d), F_ORDER);
            check(w.is[k] == Is::Flash || w.is[k] == Is::Evicted, F_EXTRA);
            w.is[k] = Is::Flash;
            next = k + 1;
        }
        for k in next..w.n {
            check(w.is[k] != Is::Flash, F_LOST);
        }
        for k in 0..w.n {
            if w.is[k] == Is::Evicted {
                w.is[k] = Is::Gone;
            }
        }
        isr().busy = false;
    }
    fn count(&self) -> usize {
        (0..w().n).filter(|&k| w().is[k] == Is::Flash).count()
    }
    /// one call of the drain side; n: the items accepted before it
    fn step(&mut self, kind: usize) {
        let had = self.count();
        let n = self.before();
        let mut b = [0; BUF];
        let r = ring::<N>();
        let mut popped = None;
        let mut empty = false;
        match kind {
            0 => match block_on(r.drain_one(&mut self.q, &mut b, false)) {
                Ok(true) => {
                    self.after(None);
                    check(self.count() == had + 1, F_LOST);
                    cover(2);
                    return;
                }
                Ok(false) => empty = true,
                Err(Error::FullStorage) => {
                    self.after(None);
                    check(self.count() == had && had > 0, F_EXTRA);
                    cover(3);
                    return;
                }
                Err(_) => fail(F_ERR),
            },
            1 => match block_on(r.drain_all(&mut self.q, &mut b, false)) {
                Ok(()) => empty = true,
                Err(Error::FullStorage) => {}
                Err(_) => fail(F_ERR),
            },
            2 => match block_on(r.pop(&mut self.q, &mut b, false)) {
                Ok(Some(d)) => {
                    let d: &[u8] = d;
                    let k = (0..w().n).find(|&k| w().it[k].byte(0) == d[0]);
                    check(k.is_some_and(|k| w().it[k].is(d)), F_ORDER);
                    popped = k;
                    empty = true;
                    cover(4);
                }
                Ok(None) => {
                    empty = true;
                    self.after(None);
                    check(self.count() == 0, F_NONE);
                }
                Err(Error::FullStorage) => {}
                Err(_) => fail(F_ERR),
            },
            _ => match block_on(r.peek(&mut self.q, &mut b, false)) {
                Ok(Some(d)) => {
                    let d: &[u8] = d;
                    self.after(None);
                    empty = true;
                    match (0..w().n).find(|&k| w().is[k] == Is::Flash) {
                        Some(k) => check(w().it[k].is(d), F_ORDER),
                        None => fail(F_EXTRA),
                    }
                }
                Ok(None) => {
                    empty = true;
                    self.after(None);
                    check(self.count() == 0, F_NONE);
                }
                Err(Error::FullStorage) => {}
                Err(_) => fail(F_ERR),
            },
        }
        self.after(popped);
        if empty {
            // everything accepted before the call has left the ring
            check(w().first >= n, F_LOST);
        }
    }
}
fn start<F: Fl, C: Mk<()>, const N: usize>(f: *mut F, r: *const SharedRamRing<N>, left: usize) -> Z<F, C, N> {
    *isr() = Isr { left: 0, depth: 0, busy: false, ring: r as *const (), run: interrupt::<N>, woken: 0 };
    *w() = W { it: [It::new(0, 0); NI], is: [Is::Gone; NI], n: 0, first: 0, call: false, accepted: 0, kinds: if left > 1 { 4 } else { 6 }, s: [0; 2] };
    Z { q: queue(f), flash: f }
}
fn shared<F: Fl, C: Mk<()>, const N: usize>(a: A) {
    let mut f = F::new();
    let r = SharedRamRing::<N>::new();
    let left = 1 + a.var;
    let mut z: Z<F, C, N> = start(&mut f, &r, left);
    // filled before
    for i in 0..choose(a.pre + 1) {
        enqueue::<N>(if i % 3 == 1 { 1 } else { 0 });
        if i == 1 {
            z.step(0);
        }
    }
    w().s = [0, u8()];
    for k in 0..a.steps {
        if k == 0 {
            isr().left = left;
        }
        z.step(choose(4));
    }
    isr().left = 0;
    // out of the ring and out of the flash
    while w().count() > 0 || z.count() > 0 {
        let had = (w().count(), z.count());
        z.step(2);
        while w().count() > 0 && z.count() > 0 && (z.count() > 3 || had == (w().count(), z.count())) {
            // the flash may be full: take from it directly
            let mut b = [0; BUF];
            match block_on(z.q.pop(&mut b)) {
                Ok(Some(d)) => {
                    let d: &[u8] = d;
                    match (0..w().n).find(|&k| w().is[k] == Is::Flash) {
                        Some(k) => {
                            check(w().it[k].is(d), F_ORDER);
                            w().is[k] = Is::Gone;
                        }
                        None => fail(F_EXTRA),
                    }
                }
                _ => fail(F_LOST),
            }
        }
    }
}
pub fn c24(a: u64) {
    let (g, a) = arg(a);
    match g {
        0 => shared::<GA, NoC, 12>(a),
        1 => shared::<GB, CA, 7>(a),
        2 => shared::<GC, CC, 16>(a),
        3 => shared::<GD, CP, 9>(a),
        4 => shared::<GG, CX, 10>(a),
        5 => shared::<GB, NoC, 8>(a),
        _ => fail(0),
    }
}

use core::future::Future;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
fn wake(_: *const ()) {
    isr().woken += 1;
}
fn cl(_: *const ()) -> RawWaker {
    RawWaker::new(core::ptr::null(), &VT)
}
fn nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(cl, wake, wake, nop);
/// the drain task: sleeps only while there is nothing to drain, and is woken
fn waiting<F: Fl, C: Mk<()>, const N: usize>(a: A) {
    let mut f = F::new();
    let r = SharedRamRing::<N>::new();
    let mut z: Z<F, C, N> = start(&mut f, &r, 1 + a.var);
    let waker = unsafe { Waker::from_raw(cl(core::ptr::null())) };
    let mut cx = Context::from_waker(&waker);
    let mut b = [0; BUF];
    isr().left = 1 + a.var;
    for _ in 0..a.steps {
        let n = z.before();
        let done = {
            let mut t = core::pin::pin!(ring::<N>().wait_and_drain_all(&mut z.q, &mut b, false));
            let mut polls = 0;
            loop {
                let (acc, woken) = (w().accepted, isr().woken);
                match t.as_mut().poll(&mut cx) {
                    Poll::Ready(x) => break Some(x),
                    Poll::Pending => {
                        // asleep
                        isr().busy = true;
                        check(ring::<N>().ram_pending_count() == 0 || isr().woken > woken, F_WAKE);
                        isr().busy = false;
                        check(isr().woken > woken || w().accepted == acc, F_WAKE);
                        let (acc, woken) = (w().accepted, isr().woken);
                        point();
                        if w().accepted == acc {
                            break None;
                        }
                        check(isr().woken > woken, F_WAKE);
                        cover(2);
                    }
                }
                polls += 1;
                check(polls < 9, F_NONTERM);
            }
        };
        z.after(None);
        match done {
            Some(Ok(())) => {
                check(w().first >= n, F_LOST);
                cover(3);
            }
            Some(Err(Error::FullStorage)) => {}
            Some(Err(_)) => fail(F_ERR),
            None => {}
        }
    }
    isr().left = 0;
}
pub fn c24w(a: u64) {
    let (g, a) = arg(a);
    match g {
        0 => waiting::<GA, NoC, 12>(a),
        1 => waiting::<GB, CA, 7>(a),
        2 => waiting::<GC, CC, 16>(a),
        _ => fail(0),
    }
}

/// `wait` completes exactly when an enqueue was accepted since it last did
fn signal<F: Fl, C: Mk<()>, const N: usize>(a: A) {
    let mut f = F::new();
    let r = SharedRamRing::<N>::new();
    let mut z: Z<F, C, N> = start(&mut f, &r, 1 + a.var);
    let waker = unsafe { Waker::from_raw(cl(core::ptr::null())) };
    let mut cx = Context::from_waker(&waker);
    // the enqueues that the last completed wait may have seen, and certainly has seen
    let (mut lo, mut hi) = (0, 0);
    // asleep since: the enqueues and wake-ups up to then
    let mut sleep = None;
    let mut t = core::pin::pin!(Some(ring::<N>().wait()));
    isr().left = a.var;
    for _ in 0..a.steps {
        match choose(6) {
            k @ 0..2 => enqueue::<N>(k),
            2 => enqueue::<N>(3),
            3 => z.step(0),
            4 => z.step(1),
            _ => {
                let (acc, woken) = (w().accepted, isr().woken);
                if sleep.is_some() && w().accepted == acc && sleep == Some((acc, isr().woken)) {
                    // nothing has happened, not polled again
                    continue;
                }
                match t.as_mut().as_pin_mut().unwrap().poll(&mut cx) {
                    Poll::Ready(()) => {
                        check(w().accepted > lo, F_EXTRA);
                        (lo, hi) = (acc, w().accepted);
                        t.set(Some(ring::<N>().wait()));
                        sleep = None;
                        cover(0);
                    }
                    Poll::Pending => {
                        check(acc <= hi, F_WAKE);
                        // taken in during the call at the latest
                        lo = lo.max(hi);
                        sleep = Some((acc, woken));
                        cover(1);
                    }
                }
            }
        }
        if let Some((acc, woken)) = sleep {
            check(w().accepted == acc || isr().woken > woken, F_WAKE);
            if w().accepted > acc {
                cover(2);
            }
        }
    }
    isr().left = 0;
}
pub fn c24s(a: u64) {
    let (g, a) = arg(a);
    match g {
        0 => signal::<GA, NoC, 12>(a),
        1 => signal::<GB, CA, 7>(a),
        2 => signal::<GC, CC, 16>(a),
        _ => fail(0),
    }
}
