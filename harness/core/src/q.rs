//! Queue harnesses: model, operations and the properties C01..C05, C14.
use crate::caches::*;
use crate::flash::*;
use crate::geo::*;
use crate::sym::*;
use crate::*;
use sequential_storage::Error;
use sequential_storage::queue::*;

pub const MAXI: usize = 40;
/// how an item of the model may have fared in an interrupted operation
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Fate {
    Must,
    May,
    /// may be missing, but only together with everything older
    Pre,
}
#[derive(Clone, Copy)]
pub struct Model {
    pub it: [It; MAXI],
    pub fate: [Fate; MAXI],
    pub n: usize,
}
impl Model {
    pub fn new() -> Model {
        Model { it: [It::new(0, 0); MAXI], fate: [Fate::Must; MAXI], n: 0 }
    }
    pub fn push(&mut self, i: It, f: Fate) {
        self.it[self.n] = i;
        self.fate[self.n] = f;
        self.n += 1;
    }
    pub fn remove(&mut self, k: usize) {
        let mut i = k;
        while i + 1 < self.n {
            self.it[i] = self.it[i + 1];
            self.fate[i] = self.fate[i + 1];
            i += 1;
        }
        self.n -= 1;
    }
}

pub fn cfg<F: Fl>() -> QueueConfig<F> {
    match QueueConfig::try_new(F::range()) {
        Ok(c) => c,
        Err(_) => fail(F_REJECT),
    }
}
pub fn open<F: Fl, C: Mk<()>>(f: F) -> QueueStorage<F, C> {
    QueueStorage::new(f, cfg::<F>(), C::mk(F::PAGES))
}

/// what a fresh uncached object reads: for every item the set of equal model items
pub fn read_all<F: Fl>(f: &F, m: &Model) -> ([u64; MAXI], usize) {
    let mut q: QueueStorage<F, NoC> = open(f.revived());
    let mut got = [0u64; MAXI];
    let mut n = 0;
    let mut buf = [0u8; BUF];
    let mut it = match block_on(q.iter()) {
        Ok(i) => i,
        Err(_) => fail(F_ERR),
    };
    loop {
        let r = block_on(it.next(&mut buf));
        match r {
            Ok(Some(e)) => {
                check(n < MAXI, F_EXTRA);
                let mut k = 0;
                while k < m.n {
                    if m.it[k].len as usize == e.len() && m.it[k].is(&e) {
                        got[n] |= 1 << k;
                    }
                    k += 1;
                }
                check(got[n] != 0, F_TORN);
                n += 1;
            }
            Ok(None) => break,
            Err(_) => fail(F_ERR),
        }
    }
    (got, n)
}
/// assignment of what was read to the model items, respecting their fates
fn fit(got: &[u64; MAXI], n: usize, m: &Model, gi: usize, ei: usize, any: bool, keep: &mut u64) -> bool {
    if ei == m.n {
        return gi == n;
    }
    if gi < n && got[gi] >> ei & 1 == 1 {
        *keep |= 1 << ei;
        if fit(got, n, m, gi + 1, ei + 1, true, keep) {
            return true;
        }
        *keep &= !(1 << ei);
    }
    let skip = match m.fate[ei] {
        Fate::Must => false,
        Fate::May => true,
        Fate::Pre => !any,
    };
    skip && fit(got, n, m, gi, ei + 1, any, keep)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Push(usize, bool),
    Pop,
    Peek,
    /// iterate and pop the items whose bit is set
    Iter(u32),
    Info,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Res {
    Ok,
    Full,
    /// a flash access failed or the future was dropped
    Cut,
}

pub struct Q<F: Fl, C: Mk<()>> {
    pub st: Option<QueueStorage<F, C>>,
    pub m: Model,
    pub seq: usize,
    /// symbolic bytes of the next item
    pub s: [u8; 2],
    /// an operation was interrupted: a torn item may take up space
    pub torn: bool,
    /// a corrupted item may take up space
    pub corrupt: bool,
    /// iteration goes on after this many errors
    pub resume: u32,
}
fn cut<F: Fl>(f: &mut F) -> Res {
    check(f.ctlr().hit, F_ERR);
    Res::Cut
}
impl<F: Fl, C: Mk<()>> Q<F, C> {
    pub fn new() -> Self {
        Q { st: Some(open(F::new())), m: Model::new(), seq: 0, s: [0; 2], torn: false, corrupt: false, resume: 0 }
    }
    pub fn q(&mut self) -> &mut QueueStorage<F, C> {
        match &mut self.st {
            Some(s) => s,
            None => fail(F_ERR),
        }
    }
    pub fn flash(&mut self) -> &mut F {
        self.q().flash()
    }
    pub fn item(&mut self, len: usize) -> It {
        self.seq += 1;
        let mut i = It::new(len, self.seq);
        i.s = core::mem::replace(&mut self.s, [0; 2]);
        i
    }
    /// run one operation, check its result against the model and update the model.
    /// Any error that is not an injected fault fails the property.
    pub fn op(&mut self, o: Op) -> Res {
        let mut b = [0u8; BUF];
        match o {
            Op::Push(len, ow) => {
                let it = self.item(len);
                let n = it.fill(&mut b);
                let r = poll_once(self.q().push(&b[..n], ow));
                match r {
                    Some(Ok(())) => {
                        if ow {
                            let mut k = 0;
                            while k < self.m.n {
                                self.m.fate[k] = Fate::Pre;
                                k += 1;
                            }
                        }
                        self.m.push(it, Fate::Must);
                        if ow {
                            self.settle();
                        }
                        observe(1);
                        Res::Ok
                    }
                    Some(Err(Error::FullStorage)) => {
                        check(!ow, F_ERR);
                        // everything popped: any fitting item must be accepted
                        check(self.m.n > 0 || (self.torn && F::PAGES == 1) || self.corrupt, F_ERR);
                        observe(2);
                        Res::Full
                    }
                    r => {
                        check(matches!(r, None | Some(Err(Error::Storage { .. }))), F_ERR);
                        if ow {
                            let mut k = 0;
                            while k < self.m.n {
                                self.m.fate[k] = Fate::Pre;
                                k += 1;
                            }
                        }
                        self.m.push(it, Fate::May);
                        cut(self.flash())
                    }
                }
            }
            Op::Pop => {
                let r = poll_once(self.st.as_mut().unwrap().pop(&mut b));
                match r {
                    Some(Ok(Some(d))) => {
                        check(self.m.n > 0, F_NONE);
                        check(self.m.it[0].is(d), F_ORDER);
                        observe(d.len() as u64);
                        self.m.remove(0);
                        Res::Ok
                    }
                    Some(Ok(None)) => {
                        observe(99);
                        check(self.m.n == 0, F_NONE);
                        Res::Ok
                    }
                    r => {
                        check(matches!(r, None | Some(Err(Error::Storage { .. }))), F_ERR);
                        self.m.fate[0] = Fate::May;
                        cut(self.flash())
                    }
                }
            }
            Op::Peek => {
                let r = poll_once(self.st.as_mut().unwrap().peek(&mut b));
                match r {
                    Some(Ok(Some(d))) => {
                        check(self.m.n > 0, F_NONE);
                        check(self.m.it[0].is(d), F_ORDER);
                        Res::Ok
                    }
                    Some(Ok(None)) => {
                        check(self.m.n == 0, F_NONE);
                        Res::Ok
                    }
                    r => {
                        check(matches!(r, None | Some(Err(Error::Storage { .. }))), F_ERR);
                        cut(self.flash())
                    }
                }
            }
            Op::Iter(mask) => {
                let mut pos = 0; // position in the model
                let mut no = 0;
                let m = &mut self.m;
                let st = self.st.as_mut().unwrap();
                let r = {
                    let it = poll_once(st.iter());
                    match it {
                        Some(Ok(mut it)) => loop {
                            let e = poll_once(it.next(&mut b));
                            match e {
                                Some(Ok(Some(e))) => {
                                    check(pos < m.n, F_EXTRA);
                                    check(m.it[pos].is(&e), F_ORDER);
                                    if mask >> no & 1 == 1 {
                                        let r = poll_once(e.pop());
                                        match r {
                                            Some(Ok(d)) => {
                                                check(m.it[pos].is(d), F_ORDER);
                                                m.remove(pos);
                                            }
                                            r => {
                                                check(matches!(r, None | Some(Err(Error::Storage { .. }))), F_ERR);
                                                m.fate[pos] = Fate::May;
                                                if self.resume > 0 {
                                                    self.resume -= 1;
                                                    pos += 1;
                                                } else {
                                                    break Res::Cut;
                                                }
                                            }
                                        }
                                    } else {
                                        pos += 1;
                                    }
                                    no += 1;
                                }
                                Some(Ok(None)) => {
                                    check(pos == m.n, F_LOST);
                                    break Res::Ok;
                                }
                                r => {
                                    check(matches!(r, None | Some(Err(Error::Storage { .. }))), F_ERR);
                                    if self.resume > 0 {
                                        self.resume -= 1;
                                    } else {
                                        break Res::Cut;
                                    }
                                }
                            }
                        },
                        Some(Err(Error::Storage { .. })) | None => Res::Cut,
                        _ => fail(F_ERR),
                    }
                };
                observe(no as u64);
                if r == Res::Cut {
                    return cut(self.flash());
                }
                r
            }
            Op::Info => {
                let r = poll_once(self.q().space_left());
                if !matches!(r, Some(Ok(_))) {
                    check(matches!(r, None | Some(Err(Error::Storage { .. }))), F_ERR);
                    return cut(self.flash());
                }
                let r = poll_once(self.q().find_max_fit());
                if !matches!(r, Some(Ok(_))) {
                    check(matches!(r, None | Some(Err(Error::Storage { .. }))), F_ERR);
                    return cut(self.flash());
                }
                Res::Ok
            }
        }
    }
    /// compare the flash with the model and drop from the model what was legitimately removed;
    /// returns how many items were
    pub fn settle(&mut self) -> usize {
        let m = self.m;
        let (got, n) = read_all(self.flash(), &m);
        let mut keep = 0u64;
        if !fit(&got, n, &m, 0, 0, false, &mut keep) {
            fail(F_LOST)
        }
        self.m.n = 0;
        let mut k = 0;
        while k < m.n {
            if keep >> k & 1 == 1 {
                self.m.push(m.it[k], Fate::Must);
            }
            k += 1;
        }
        m.n - self.m.n
    }
    /// new storage object on the same flash, cold cache
    pub fn reopen(&mut self) {
        let (mut f, _) = self.st.take().unwrap().destroy();
        f.heal();
        self.st = Some(open(f));
    }
    pub fn must(&mut self, o: Op) {
        check(self.op(o) == Res::Ok, F_ERR);
    }
    /// every live item comes out in order, then None
    pub fn drain(&mut self) {
        let n = self.m.n;
        for _ in 0..n {
            self.must(Op::Pop);
        }
        self.must(Op::Pop);
        self.must(Op::Peek);
    }
    /// the queue is fully usable: takes a big item, gives everything back, then accepts a
    /// big item without permission
    pub fn finish(&mut self) {
        let mx = max_len::<F>();
        self.must(Op::Push(mx, true));
        self.drain();
        self.must(Op::Push(mx, self.torn && F::PAGES == 1));
        self.must(Op::Push(mx / 4, true));
        self.drain();
    }
    pub fn step(&mut self) {
        let l = lens::<F>();
        match choose(5) {
            0 => {
                self.op(Op::Push(l[1], false));
            }
            1 => self.must(Op::Push(l[2], true)),
            2 => self.must(Op::Pop),
            3 => self.must(Op::Iter(2)),
            _ => self.must(Op::Info),
        }
    }
    /// symbolic number of pushes and pops of varying lengths to reach wrapped states
    pub fn prelude(&mut self, lens: &[usize], max: usize) {
        let n = choose(max + 1);
        let lag = if n > 0 { choose(4) } else { 0 };
        self.fill_with(lens, n, lag);
    }
    pub fn fill_with(&mut self, lens: &[usize], n: usize, lag: usize) {
        for i in 0..n {
            let l = lens[i % lens.len()];
            if self.op(Op::Push(l, false)) == Res::Full {
                self.must(Op::Pop);
            }
            // keep at most `lag` items, or fill up completely for lag 3
            if lag < 3 && self.m.n > lag {
                self.must(Op::Pop);
            }
        }
    }
}

macro_rules! geos {
    ($a:expr, $f:ident) => {{
        let (g, a) = arg($a);
        match g {
            0 => $f::<GA, NoC>(a),
            1 => $f::<GB, CA>(a),
            2 => $f::<GC, CC>(a),
            3 => $f::<GD, CP>(a),
            4 => $f::<GE, CX>(a),
            5 => $f::<GF, CH>(a),
            6 => $f::<GG, CX>(a),
            7 => $f::<GA, CX>(a),
            8 => $f::<GA, CA>(a),
            9 => $f::<GD, NoC>(a),
            10 => $f::<GD, CX>(a),
            11 => $f::<GB, NoC>(a),
            12 => $f::<GC, NoC>(a),
            13 => $f::<GB, CC>(a),
            _ => fail(F_REJECT),
        }
    }};
}

pub fn lens<F: Fl>() -> [usize; 3] {
    let mx = max_len::<F>();
    [0, mx / 3, mx]
}
pub fn plens<F: Fl>() -> [usize; 3] {
    let mx = max_len::<F>();
    [mx / 3, 0, mx / 2]
}

// ---------------------------------------------------------------- C01
fn fifo<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    for k in 0..a.steps {
        match choose(6) {
            c @ 0..=2 => {
                if k == 0 {
                    q.s = [u8(), u8()];
                }
                match q.op(Op::Push(l[c], false)) {
                    Res::Ok => cover(0),
                    _ => cover(1),
                }
            }
            3 => q.must(Op::Pop),
            4 => q.must(Op::Peek),
            _ => q.reopen(),
        }
    }
    if q.m.n > 1 {
        cover(2);
    }
    q.drain();
    q.must(Op::Push(l[1], false));
    q.must(Op::Pop);
}
pub fn c01(a: u64) {
    geos!(a, fifo)
}

// ---------------------------------------------------------------- C02
fn full<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    for k in 0..a.steps {
        let c = choose(8);
        if c == 7 {
            q.must(Op::Pop);
            continue;
        }
        if c == 6 {
            // too big: refused, nothing changes
            let b = [0u8; BUF];
            let n = max_len::<F>() + 1;
            if n <= BUF {
                let ow = flip();
                match block_on(q.q().push(&b[..n], ow)) {
                    Err(Error::ItemTooBig) => {}
                    Ok(()) => fail(F_OK),
                    Err(_) => fail(F_WHICHERR),
                }
                check(q.settle() == 0, F_LOST);
            }
            continue;
        }
        let (len, ow) = (l[c % 3], c >= 3);
        if k == 0 {
            q.s = [u8(), u8()];
        }
        if ow {
            // would it have fitted without permission?
            let f = q.flash().revived();
            let mut p: QueueStorage<F, NoC> = open(f);
            let b = [7u8; BUF];
            let room = block_on(p.push(&b[..len], false)).is_ok();
            let before = q.m;
            q.must(Op::Push(len, true));
            let gone = before.n + 1 - q.m.n;
            if room {
                check(gone == 0, F_LOST);
                cover(0);
            } else {
                // only what one page can hold may go
                cover(1);
                let (mut sum, mut i) = (0, 0);
                while i < gone {
                    sum += 8usize.next_multiple_of(F::WORD) + (before.it[i].len as usize).next_multiple_of(F::WORD);
                    i += 1;
                }
                check(sum <= F::PAGE - 2 * F::WORD, F_LOST);
            }
        } else {
            match q.op(Op::Push(len, false)) {
                Res::Ok => cover(2),
                _ => cover(3),
            }
            check(q.settle() == 0, F_LOST);
        }
    }
    q.drain();
    // empty: anything that fits goes in without permission
    q.must(Op::Push(l[choose(3)], false));
    check(q.settle() == 0, F_LOST);
}
pub fn c02(a: u64) {
    geos!(a, full)
}

// ---------------------------------------------------------------- C03
fn iterate<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    for k in 0..a.steps {
        if k == 0 {
            q.s = [u8(), u8()];
        }
        match choose(5) {
            0 | 1 => {
                // pop any subset of the live items
                let mut mask = 0;
                let n = q.m.n.min(6);
                for b in 0..n {
                    if flip() {
                        mask |= 1 << b;
                        if b > 0 && mask & 1 == 0 {
                            cover(0);
                        }
                    }
                }
                q.must(Op::Iter(mask));
                check(q.settle() == 0, F_LOST);
            }
            2 => {
                q.op(Op::Push(l[1], false));
            }
            3 => {
                q.op(Op::Push(l[2], true));
            }
            _ => q.must(Op::Pop),
        }
    }
    if a.var & 1 != 0 {
        // one access fails or is cancelled, the iteration goes on
        let mut mask = 0;
        for b in 0..q.m.n.min(4) {
            if flip() {
                mask |= 1 << b;
            }
        }
        let kind = choose(3);
        fault(q.flash().ctl(), kind);
        q.resume = 1;
        let r = q.op(Op::Iter(mask));
        if q.flash().ctlr().hit {
            check(r == Res::Cut || q.resume == 0, F_LOST);
            cover(1 + kind as u32);
        }
        q.resume = 0;
        q.flash().heal();
        q.settle();
    }
    q.must(Op::Iter(0));
    q.drain();
}
pub fn c03(a: u64) {
    geos!(a, iterate)
}

// ---------------------------------------------------------------- C04 / C14
pub fn pick<F: Fl>(n: usize) -> Op {
    let l = lens::<F>();
    match choose(8) {
        0 => Op::Push(l[1], false),
        1 => Op::Push(l[2], false),
        2 => Op::Push(l[1], true),
        3 => Op::Push(l[2], true),
        4 => Op::Pop,
        5 => Op::Iter(if n > 1 { 2 } else { 1 }),
        6 => Op::Iter(0x3f),
        _ => Op::Info,
    }
}
fn crash<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    for _ in 0..1 + (a.var & 1) {
        if a.var & 2 != 0 {
            q.s = [u8(), u8()];
            q.op(Op::Push(l[1], true));
        }
        let op = pick::<F>(q.m.n);
        if a.var & 4 != 0 {
            q.s = [u8(), u8()];
        }
        let c = q.flash().ctl();
        c.mode = Mode::Crash;
        c.used = 0;
        c.fuel = u16() as u32;
        if q.op(op) == Res::Cut {
            cover(0);
            q.torn = true;
        } else {
            cover(1);
        }
        q.reopen();
        let gone = q.settle();
        if gone > 1 {
            cover(2);
        }
        check(matches!(op, Op::Push(_, _)) || gone <= 1, F_LOST);
    }
    for _ in 0..a.steps {
        q.step();
    }
    q.finish();
}
pub fn c04(a: u64) {
    geos!(a, crash)
}

/// one access of an operation fails or never completes; the same object is used on
fn poison<F: Fl, C: Mk<()>>(a: A) {
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    let op = pick::<F>(q.m.n);
    let kind = choose(3);
    fault(q.flash().ctl(), kind);
    let r = q.op(op);
    q.flash().heal();
    q.settle();
    if r == Res::Cut {
        q.torn = true;
        cover(kind as u32);
    }
    for _ in 0..a.steps {
        q.step();
        check(q.settle() == 0, F_LOST);
    }
    q.finish();
}
pub fn c14q(a: u64) {
    geos!(a, poison)
}
