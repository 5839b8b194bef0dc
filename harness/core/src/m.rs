//! Map harnesses: model, operations and the properties C06..C11, C13, C14.
use crate::caches::*;
use crate::flash::*;
use crate::geo::*;
use crate::sym::*;
use crate::*;
use sequential_storage::Error;
use sequential_storage::cache::key_pointers::*;
use sequential_storage::cache::page_pointers::*;
use sequential_storage::cache::page_states::*;
use sequential_storage::cache::*;
use sequential_storage::map::*;

/// number of keys
pub const NK: usize = 3;
pub const KEYS: [u8; NK] = [0, 7, 0xff];
pub const MAXH: usize = 64;

#[derive(Clone, Copy)]
pub struct Model {
    pub v: [Option<It>; NK],
    /// what an interrupted operation may have made of it
    pub alt: [Option<It>; NK],
    pub amb: u32,
    /// everything stored since the key was last removed
    pub h: [(u8, It); MAXH],
    pub n: usize,
}
impl Model {
    pub fn new() -> Model {
        Model { v: [None; NK], alt: [None; NK], amb: 0, h: [(0, It::new(0, 0)); MAXH], n: 0 }
    }
    fn stored(&mut self, k: usize, i: It) {
        self.h[self.n] = (k as u8, i);
        self.n += 1;
    }
    fn removed(&mut self, k: usize) {
        let mut o = 0;
        for i in 0..self.n {
            if self.h[i].0 as usize != k {
                self.h[o] = self.h[i];
                o += 1;
            }
        }
        self.n = o;
    }
    pub fn put(&mut self, k: usize, i: It) {
        self.v[k] = Some(i);
        self.stored(k, i);
    }
    pub fn gone(&mut self, k: usize) {
        self.v[k] = None;
        self.removed(k);
    }
    pub fn live(&self) -> usize {
        let mut n = 0;
        for k in 0..NK {
            n += self.v[k].is_some() as usize;
        }
        n
    }
    /// bytes taken by the live items
    pub fn size<F: Fl>(&self) -> usize {
        let mut n = 0;
        for k in 0..NK {
            if let Some(i) = &self.v[k] {
                n += size::<F>(i.len as usize);
            }
        }
        n
    }
}
/// flash bytes of an item with a value of `len` bytes
pub fn size<F: Fl>(len: usize) -> usize {
    8usize.next_multiple_of(F::WORD) + (len + 1).next_multiple_of(F::WORD)
}
pub fn cfg<F: Fl>() -> MapConfig<F> {
    match MapConfig::try_new(F::range()) {
        Ok(c) => c,
        Err(_) => fail(F_REJECT),
    }
}
pub fn open<F: Fl, C: Mk<u8>>(f: F) -> MapStorage<u8, F, C> {
    MapStorage::new(f, cfg::<F>(), C::mk(F::PAGES))
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Store(usize, usize),
    Fetch(usize),
    Remove(usize),
    RemoveAll,
    Iter,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Res {
    Ok,
    Full,
    Cut,
}
fn same(a: &Option<It>, d: &Option<&[u8]>) -> bool {
    match (a, d) {
        (None, None) => true,
        (Some(i), Some(d)) => i.is(d),
        _ => false,
    }
}

pub struct M<F: Fl, C: Mk<u8>> {
    pub st: Option<MapStorage<u8, F, C>>,
    pub m: Model,
    pub seq: usize,
    pub s: [u8; 2],
    /// at most this many versions ago iteration may show values of a key removed by an
    /// interrupted removal
    pub loose: bool,
    /// iteration goes on after this many errors
    pub resume: u32,
}
fn cut<F: Fl>(f: &mut F) -> Res {
    check(f.ctlr().hit, F_ERR);
    Res::Cut
}
fn storage<T>(r: &Option<Result<T, Error<FErr>>>) -> bool {
    matches!(r, None | Some(Err(Error::Storage { .. })))
}
impl<F: Fl, C: Mk<u8>> M<F, C> {
    pub fn new() -> Self {
        M { st: Some(open(F::new())), m: Model::new(), seq: 0, s: [0; 2], loose: false, resume: 0 }
    }
    pub fn q(&mut self) -> &mut MapStorage<u8, F, C> {
        match &mut self.st {
            Some(s) => s,
            None => fail(F_ERR),
        }
    }
    pub fn flash(&mut self) -> &mut F {
        self.q().flash()
    }
    pub fn item(&mut self, len: usize) -> It {
        self.seq += 1;
        let mut i = It::new(len, self.seq);
        i.s = core::mem::replace(&mut self.s, [0; 2]);
        i
    }
    pub fn op(&mut self, o: Op) -> Res {
        let mut b = [0u8; BUF];
        match o {
            Op::Store(k, len) => {
                let it = self.item(len);
                let mut vb = [0u8; BUF];
                let n = it.fill(&mut vb);
                let fits = self.m.size::<F>() + size::<F>(len) <= F::PAGE - 2 * F::WORD;
                let r = poll_once(self.q().store_item(&mut b, &KEYS[k], &&vb[..n]));
                match r {
                    Some(Ok(())) => {
                        self.m.v[k] = Some(it);
                        self.m.stored(k, it);
                        observe(1);
                        Res::Ok
                    }
                    Some(Err(Error::FullStorage)) => {
                        check(!fits, F_ERR);
                        observe(2);
                        Res::Full
                    }
                    r => {
                        check(storage(&r), F_ERR);
                        self.m.alt = self.m.v;
                        self.m.alt[k] = Some(it);
                        self.m.amb = 1 << k;
                        self.m.stored(k, it);
                        cut(self.flash())
                    }
                }
            }
            Op::Fetch(k) => {
                let r = poll_once(self.st.as_mut().unwrap().fetch_item::<&[u8]>(&mut b, &KEYS[k]));
                match r {
                    Some(Ok(d)) => {
                        observe(d.map_or(99, |d| d.len() as u64));
                        check(d.is_some() == self.m.v[k].is_some(), F_NONE);
                        check(same(&self.m.v[k], &d), F_OLD);
                        Res::Ok
                    }
                    r => {
                        check(storage(&r), F_ERR);
                        cut(self.flash())
                    }
                }
            }
            Op::Remove(k) => {
                let r = poll_once(self.q().remove_item(&mut b, &KEYS[k]));
                match r {
                    Some(Ok(())) => {
                        self.m.v[k] = None;
                        self.m.removed(k);
                        Res::Ok
                    }
                    r => {
                        check(storage(&r), F_ERR);
                        self.m.alt = self.m.v;
                        self.m.alt[k] = None;
                        self.m.amb = 1 << k;
                        self.loose = true;
                        cut(self.flash())
                    }
                }
            }
            Op::RemoveAll => {
                let r = poll_once(self.q().remove_all_items(&mut b));
                match r {
                    Some(Ok(())) => {
                        self.m.v = [None; NK];
                        self.m.n = 0;
                        Res::Ok
                    }
                    r => {
                        check(storage(&r), F_ERR);
                        self.m.alt = [None; NK];
                        self.m.amb = (1 << NK) - 1;
                        self.loose = true;
                        cut(self.flash())
                    }
                }
            }
            Op::Iter => {
                let m = &self.m;
                let st = self.st.as_mut().unwrap();
                let mut last: [usize; NK] = [usize::MAX; NK];
                let mut cur = [false; NK];
                let r = {
                    let it = poll_once(st.fetch_all_items(&mut b));
                    match it {
                        Some(Ok(mut it)) => loop {
                            let e = poll_once(it.next::<&[u8]>(&mut b));
                            match e {
                                Some(Ok(Some((key, d)))) => {
                                    let k = match key {
                                        0 => 0,
                                        7 => 1,
                                        0xff => 2,
                                        _ => fail(F_TORN),
                                    };
                                    let mut hit = false;
                                    let mut i = 0;
                                    while i < m.n {
                                        if m.h[i].0 as usize == k && m.h[i].1.len as usize == d.len() && m.h[i].1.is(d) {
                                            hit = true;
                                        }
                                        i += 1;
                                    }
                                    check(hit, F_TORN);
                                    cur[k] = same(&m.v[k], &Some(d));
                                    last[k] = d.len();
                                }
                                Some(Ok(None)) => {
                                    let mut k = 0;
                                    while k < NK {
                                        check((last[k] != usize::MAX) == m.v[k].is_some(), F_LOST);
                                        check(m.v[k].is_none() || cur[k], F_OLD);
                                        k += 1;
                                    }
                                    break Res::Ok;
                                }
                                r => {
                                    check(storage(&r), F_ERR);
                                    if self.resume > 0 {
                                        self.resume -= 1;
                                        continue;
                                    }
                                    break Res::Cut;
                                }
                            }
                        },
                        r => {
                            check(storage(&r), F_ERR);
                            Res::Cut
                        }
                    }
                };
                if r == Res::Cut {
                    return cut(self.flash());
                }
                r
            }
        }
    }
    /// read every key with a fresh uncached object on a copy of the flash; resolves what an
    /// interrupted operation left open
    pub fn settle(&mut self) {
        let mut p: MapStorage<u8, F, NoC<u8>> = open(self.flash().revived());
        let mut b = [0u8; BUF];
        for k in 0..NK {
            match block_on(p.fetch_item::<&[u8]>(&mut b, &KEYS[k])) {
                Ok(d) => {
                    if !same(&self.m.v[k], &d) {
                        check(self.m.amb >> k & 1 == 1, if d.is_some() { F_OLD } else { F_LOST });
                        check(same(&self.m.alt[k], &d), F_TORN);
                        self.m.v[k] = self.m.alt[k];
                    }
                }
                Err(_) => fail(F_ERR),
            }
        }
        self.m.amb = 0;
    }
    pub fn reopen(&mut self) {
        let (mut f, _) = self.st.take().unwrap().destroy();
        f.heal();
        self.st = Some(open(f));
    }
    pub fn must(&mut self, o: Op) {
        check(self.op(o) == Res::Ok, F_ERR);
    }
    pub fn all(&mut self) {
        for k in 0..NK {
            self.must(Op::Fetch(k));
        }
    }
    /// wraps around the pages once with small stores and checks every key on the way;
    /// `one`: only one key is stored
    pub fn finish(&mut self, one: Option<usize>) {
        let l = ml::<F>()[0];
        let per = (F::PAGE - 2 * F::WORD) / size::<F>(l);
        for i in 0..(F::PAGES + 1) * per {
            let k = match one {
                Some(k) => k,
                None => if i % 4 == 3 { 1 } else { 0 },
            };
            self.op(Op::Store(k, l));
            if one.is_some() {
                // a stale cache entry is only seen before the key is stored again
                self.must(Op::Fetch(0));
            } else if i % per == 0 {
                self.must(Op::Fetch(2));
                self.must(Op::Fetch(1));
            }
        }
        self.all();
        self.must(Op::Iter);
        self.settle();
        self.must(Op::Remove(0));
        self.must(Op::Remove(2));
        self.op(Op::Store(2, l));
        self.all();
        self.settle();
    }
    pub fn prelude(&mut self, max: usize) {
        let n = choose(max + 1);
        let pol = if n > 1 { choose(4) } else { 0 };
        self.fill_with(n, pol);
    }
    /// only the policies with several keys
    pub fn prelude2(&mut self, max: usize) {
        let n = choose(max + 1);
        let pol = if n > 1 { 1 + choose(2) } else { 1 };
        self.fill_with(n, pol);
    }
    pub fn fill_with(&mut self, n: usize, pol: usize) {
        let l = ml::<F>();
        for i in 0..n {
            let (k, len) = match pol {
                // one key only, small values
                0 => (0, l[0]),
                // a cold key, then one hot key
                1 => (if i == 0 { 1 } else { 0 }, l[0]),
                // all keys in turn, growing and shrinking values
                2 => (i % NK, l[i % 2]),
                // two keys, values of different sizes
                _ => ((i + 1) % 2, l[(i / 2) % 2]),
            };
            self.op(Op::Store(k, len));
        }
    }
}

/// lengths of map values: small, medium, the largest that fits a page
pub fn ml<F: Fl>() -> [usize; 3] {
    let mx = max_len::<F>() - 1;
    [mx / 6, mx / 3, mx]
}

pub type GJ = Flash<1, 1, 40, 0, 120, 120>;
pub type GK = Flash<4, 4, 64, 0, 128, 128>;

pub type KC1 = Cache<Uncached, Uncached, ArrayKeyPointers<u8, 1>, u8>;
pub type KC0 = Cache<Uncached, Uncached, ArrayKeyPointers<u8, 0>, u8>;
pub type KC2 = Cache<CalculatedPageStates, Uncached, ArrayKeyPointers<u8, 2>, u8>;
pub type KC8 = Cache<ArrayPageStates<4>, ArrayPagePointers<4>, ArrayKeyPointers<u8, 8>, u8>;
pub type KCH = Cache<HeapPageStates, HeapPagePointers, HeapKeyPointers<u8>, u8>;
pub type KCX = Cache<CalculatedPageStates, ArrayPagePointers<4>, HeapKeyPointers<u8>, u8>;

#[macro_export]
macro_rules! mgeos {
    ($a:expr, $f:ident) => {{
        let (g, a) = arg($a);
        match g {
            0 => $f::<GA, NoC<u8>>(a),
            1 => $f::<GB, KC8>(a),
            2 => $f::<GC, KC2>(a),
            3 => $f::<GJ, CP<u8>>(a),
            4 => $f::<GE, KCX>(a),
            5 => $f::<GF, KCH>(a),
            6 => $f::<GG, CX<u8>>(a),
            7 => $f::<GK, KC1>(a),
            8 => $f::<GJ, KC8>(a),
            9 => $f::<GJ, NoC<u8>>(a),
            10 => $f::<GJ, KCX>(a),
            11 => $f::<GK, NoC<u8>>(a),
            12 => $f::<GA, KCH>(a),
            13 => $f::<GB, CC<u8>>(a),
            14 => $f::<GG, KC1>(a),
            15 => $f::<GJ, KC0>(a),
            _ => fail(F_REJECT),
        }
    }};
}

// ---------------------------------------------------------------- C06
fn pick(l: &[usize; 3]) -> Op {
    match choose(7) {
        0 => Op::Store(0, l[0]),
        1 => Op::Store(1, l[1]),
        2 => Op::Store(2, l[0]),
        3 => Op::Store(0, l[2]),
        4 => Op::Remove(0),
        5 => Op::Remove(1),
        _ => Op::RemoveAll,
    }
}
fn last<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let mut q: M<F, C> = M::new();
    q.prelude(a.pre);
    for k in 0..a.steps {
        if k == 0 {
            q.s = [u8(), u8()];
        }
        match choose(8) {
            x @ 0..=2 => {
                if q.op(Op::Store(x, l[0])) == Res::Ok {
                    cover(0);
                }
            }
            3 => {
                q.op(Op::Store(1, l[1]));
            }
            4 => {
                q.op(Op::Store(0, l[2]));
            }
            5 => {
                q.op(Op::Store(2, 0));
            }
            6 => q.reopen(),
            _ => q.all(),
        }
        if k == 0 {
            q.s = [0; 2];
        }
    }
    if q.m.live() == NK {
        cover(1);
    }
    if q.flash().ctlr().log_erase > 0 {
        cover(2);
    }
    q.settle();
    q.all();
    q.finish([None, Some(1)][choose(2)]);
}
pub fn c06(a: u64) {
    mgeos!(a, last)
}

// ---------------------------------------------------------------- C07
fn failing<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let mut q: M<F, C> = M::new();
    q.prelude(a.pre);
    for _ in 0..a.steps {
        let vb = [9u8; BUF + 4];
        let mut b = [0u8; BUF];
        let n;
        match choose(6) {
            0 => {
                // too big for a page
                n = l[2] + 1 + choose(2);
                if n + 1 > BUF {
                    continue;
                }
                match block_on(q.q().store_item(&mut b, &KEYS[0], &&vb[..n])) {
                    Err(Error::ItemTooBig) => cover(0),
                    Ok(()) => fail(F_OK),
                    Err(_) => fail(F_WHICHERR),
                }
            }
            1 => {
                // value does not fit the buffer
                n = l[1];
                let k = choose(n + 1);
                match block_on(q.q().store_item(&mut b[..k], &KEYS[1], &&vb[..n])) {
                    Err(Error::SerializationError(SerializationError::BufferTooSmall)) | Err(Error::BufferTooSmall(_)) => cover(1),
                    Ok(()) => fail(F_OK),
                    Err(_) => fail(F_WHICHERR),
                }
            }
            2 => {
                if q.op(Op::Store(2, l[2])) == Res::Full {
                    cover(2);
                }
            }
            3 => {
                if q.op(Op::Store(1, l[2] / 2)) == Res::Full {
                    cover(2);
                }
            }
            4 => {
                q.op(Op::Store(0, l[0]));
            }
            _ => {
                // an unserialisable value
                match block_on(q.q().store_item(&mut b, &KEYS[0], &Bad)) {
                    Err(Error::SerializationError(SerializationError::InvalidData)) => cover(3),
                    _ => fail(F_WHICHERR),
                }
            }
        }
        q.settle();
        q.all();
    }
    // as long as everything fits a page, stores go on
    q.op(Op::Store(0, l[0]));
    q.all();
    q.must(Op::Remove(1));
    q.must(Op::Remove(2));
    q.must(Op::Remove(0));
    q.must(Op::Store(1, l[2]));
    q.settle();
    q.all();
}
pub struct Bad;
impl<'a> Value<'a> for Bad {
    fn serialize_into(&self, b: &mut [u8]) -> Result<usize, SerializationError> {
        if !b.is_empty() {
            b[0] = 1;
        }
        Err(SerializationError::InvalidData)
    }
    fn deserialize_from(_: &'a [u8]) -> Result<(Self, usize), SerializationError> {
        Err(SerializationError::InvalidData)
    }
}
pub fn c07(a: u64) {
    mgeos!(a, failing)
}

// ---------------------------------------------------------------- C08
fn removal<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let mut q: M<F, C> = M::new();
    q.prelude(a.pre);
    for k in 0..a.steps {
        match choose(7) {
            x @ 0..=2 => {
                if q.m.v[x].is_some() {
                    cover(0);
                }
                q.must(Op::Remove(x));
                q.all();
            }
            3 => {
                q.must(Op::RemoveAll);
                cover(1);
            }
            4 => {
                if k == 0 {
                    q.s = [u8(), u8()];
                }
                q.op(Op::Store(1, l[0]));
            }
            5 => {
                q.op(Op::Store(0, l[1]));
            }
            _ => q.reopen(),
        }
        q.s = [0; 2];
        q.settle();
    }
    q.all();
    q.must(Op::Iter);
    q.finish([None, Some(1)][choose(2)]);
}
pub fn c08(a: u64) {
    mgeos!(a, removal)
}

// ---------------------------------------------------------------- C09
fn iterate<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let mut q: M<F, C> = M::new();
    q.prelude(a.pre);
    for k in 0..a.steps {
        if k == 0 {
            q.s = [u8(), u8()];
        }
        let op = pick(&l);
        q.op(op);
        q.s = [0; 2];
    }
    let f = q.flash().clone();
    q.must(Op::Iter);
    check(q.flash().same(&f), F_CHANGED);
    if q.m.live() > 1 {
        cover(0);
    }
    q.all();
    if a.var & 1 != 0 {
        // a failing access is reported
        // ... or is cancelled, or an interrupted page erase is repeated
        let kind = if a.var & 2 != 0 { choose(3) } else { 1 };
        fault(q.flash().ctl(), kind);
        q.resume = a.var as u32 >> 1 & 1;
        let r = q.op(Op::Iter);
        if q.flash().ctlr().hit {
            // reported, and nothing is left out when the iteration goes on
            check(r == Res::Cut || a.var & 2 != 0 && q.resume == 0, F_LOST);
            cover(if r == Res::Cut { 1 } else { 2 });
        }
        q.resume = 0;
        q.flash().heal();
        q.must(Op::Iter);
        q.all();
    }
}
pub fn c09(a: u64) {
    mgeos!(a, iterate)
}

// ---------------------------------------------------------------- C10 / C11
/// var: bit 0 a second power loss, bit 1 symbolic bytes in an item stored before, bit 2 in the
/// interrupted one
fn crash<F: Fl, C: Mk<u8>>(a: A, remove: bool) {
    let l = ml::<F>();
    let mut q: M<F, C> = M::new();
    q.prelude2(a.pre);
    if a.var & 8 != 0 {
        q.must(Op::Remove(0));
    }
    for i in 0..1 + (a.var & 1) {
        if a.var & 2 != 0 {
            q.s = [u8(), u8()];
            q.op(Op::Store(1, l[0]));
        }
        let c = if a.var & 1 == 1 && i == 0 { choose(7) } else { choose(if remove { 4 } else { 3 }) + if remove { 3 } else { 0 } };
        let op = match c {
            0 => Op::Store(0, l[0]),
            1 => Op::Store(1, l[1]),
            2 => Op::Store(2, l[0]),
            3 => Op::Remove(0),
            4 => Op::Remove(1),
            5 => Op::Remove(2),
            _ => Op::RemoveAll,
        };
        if a.var & 4 != 0 {
            q.s = [u8(), u8()];
        }
        let c = q.flash().ctl();
        c.mode = Mode::Crash;
        c.used = 0;
        c.fuel = u16() as u32;
        if q.op(op) == Res::Cut {
            cover(0);
        } else {
            cover(1);
        }
        q.s = [0; 2];
        q.reopen();
        q.settle();
        if remove && i as usize == a.var & 1 {
            if choose(2) == 1 {
                // running the removal again completes it
                q.must(op);
                q.settle();
                cover(2);
            }
        }
    }
    q.all();
    for _ in 0..a.steps {
        match choose(5) {
            0 => {
                q.op(Op::Store(0, l[1]));
            }
            1 => {
                q.op(Op::Store(2, l[0]));
            }
            2 => q.must(Op::Remove(1)),
            3 => {
                let h = q.loose;
                if !h {
                    q.must(Op::Iter);
                }
            }
            _ => q.must(Op::Remove(0)),
        }
        q.all();
        q.settle();
    }
    q.loose = false;
    tail(&mut q);
}
/// as `finish`, but iteration may still show values whose removal was interrupted
fn tail<F: Fl, C: Mk<u8>>(q: &mut M<F, C>) {
    let l = ml::<F>();
    let big = if q.m.size::<F>() + size::<F>(l[1]) <= F::PAGE - 2 * F::WORD { l[1] } else { l[0] };
    let per = (F::PAGE - 2 * F::WORD) / size::<F>(big);
    for i in 0..F::PAGES * per + 1 {
        q.op(Op::Store(0, big));
        if i % per == 0 {
            q.must(Op::Fetch(1));
        }
    }
    q.all();
    q.settle();
    q.must(Op::RemoveAll);
    q.must(Op::Iter);
    q.must(Op::Store(2, l[0]));
    q.must(Op::Store(1, l[2] / 3));
    q.all();
    q.must(Op::Iter);
}
fn crash_store<F: Fl, C: Mk<u8>>(a: A) {
    crash::<F, C>(a, false)
}
fn crash_remove<F: Fl, C: Mk<u8>>(a: A) {
    crash::<F, C>(a, true)
}
pub fn c10(a: u64) {
    mgeos!(a, crash_store)
}
pub fn c11(a: u64) {
    mgeos!(a, crash_remove)
}

// ---------------------------------------------------------------- C13
fn twin<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let mut p: M<F, NoC<u8>> = M::new();
    let mut q: M<F, C> = M::new();
    let n = choose(a.pre + 1);
    let pol = if n > 1 { choose(4) } else { 0 };
    p.fill_with(n, pol);
    q.fill_with(n, pol);
    check(p.flash().same(q.flash()), F_DIFF);
    for _ in 0..a.steps {
        let op = match choose(9) {
            0 => Op::Store(0, l[0]),
            1 => Op::Store(1, l[1]),
            2 => Op::Store(2, l[2]),
            3 => Op::Fetch(0),
            4 => Op::Fetch(1),
            5 => Op::Remove(0),
            6 => Op::RemoveAll,
            7 => Op::Iter,
            _ => {
                let (f, c) = q.st.take().unwrap().destroy();
                q.st = Some(MapStorage::new(f, cfg::<F>(), c));
                cover(0);
                continue;
            }
        };
        let x = p.op(op);
        let y = q.op(op);
        check(x == y, F_DIFF);
        check(p.flash().same(q.flash()), F_DIFF);
    }
    let one = [None, Some(1), Some(2)][choose(3)];
    p.finish(one);
    q.finish(one);
    check(p.flash().same(q.flash()), F_DIFF);
}
pub fn c13(a: u64) {
    mgeos!(a, twin)
}

// ---------------------------------------------------------------- C14
fn poison<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let mut q: M<F, C> = M::new();
    q.prelude2(a.pre);
    let op = match choose(8) {
        0 => Op::Store(0, l[0]),
        1 => Op::Store(1, l[1]),
        2 => Op::Store(2, l[0]),
        3 => Op::Remove(0),
        4 => Op::Remove(1),
        5 => Op::RemoveAll,
        6 => Op::Fetch(0),
        _ => Op::Iter,
    };
    let kind = choose(3);
    fault(q.flash().ctl(), kind);
    let r = q.op(op);
    q.flash().heal();
    q.settle();
    if r == Res::Cut {
        cover(kind as u32);
    }
    // the next operation on the same object, of any kind
    for _ in 0..1 + a.steps {
        match choose(4) {
            0 => q.must(Op::Remove(1)),
            1 => {
                q.op(Op::Store(2, l[1]));
            }
            2 => q.must(Op::RemoveAll),
            _ => {
                if !q.loose {
                    q.must(Op::Iter)
                }
            }
        }
        q.all();
        q.settle();
    }
    tail(&mut q);
}
pub fn c14m(a: u64) {
    mgeos!(a, poison)
}
