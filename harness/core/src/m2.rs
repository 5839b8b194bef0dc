//! Map harnesses for C15, C18, C19, C23, C25, C26.
use crate::caches::*;
use crate::dec;
use crate::flash::*;
use crate::geo::*;
use crate::m::*;
use crate::sym::*;
use crate::*;
use sequential_storage::Error;
use sequential_storage::map::*;

fn pick<F: Fl>() -> Op {
    let l = ml::<F>();
    match choose(9) {
        0 => Op::Store(0, l[0]),
        1 => Op::Store(1, l[1]),
        2 => Op::Store(2, l[0]),
        3 => Op::Store(0, l[2]),
        4 => Op::Remove(0),
        5 => Op::Remove(1),
        6 => Op::RemoveAll,
        7 => Op::Fetch(1),
        _ => Op::Iter,
    }
}

// ---------------------------------------------------------------- C15 / C19
fn rules<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let mut q: M<F, C> = M::new();
    let c = q.flash().ctl();
    c.track = a.var & 1 == 0;
    c.wear = a.var & 1 == 1;
    q.prelude(a.pre);
    if a.var & 2 != 0 {
        let op = pick::<F>();
        let c = q.flash().ctl();
        c.mode = Mode::Crash;
        c.used = 0;
        c.fuel = u16() as u32;
        c.torn = true;
        if q.op(op) == Res::Cut {
            cover(1);
        }
        q.reopen();
        q.settle();
    }
    for _ in 0..a.steps {
        let op = pick::<F>();
        if q.op(op) == Res::Full {
            cover(2);
        }
    }
    // twice around the pages
    let per = (F::PAGE - 2 * F::WORD) / size::<F>(l[1]);
    if q.loose || q.m.size::<F>() + size::<F>(l[1]) > F::PAGE - 2 * F::WORD {
        q.must(Op::RemoveAll);
    }
    for _ in 0..2 * F::PAGES * per + 1 {
        q.op(Op::Store(0, l[1]));
    }
    q.all();
    q.must(Op::Iter);
    let c = q.flash().ctlr();
    if a.var & 1 == 0 {
        check(c.rule == 0, F_RULE);
        cover(0);
    } else {
        check(c.wear_bad == 0, F_WEAR);
        let (mut lo, mut hi) = (u16::MAX, 0);
        for p in 0..F::PAGES {
            lo = lo.min(c.erases[p]);
            hi = hi.max(c.erases[p]);
        }
        observe(hi as u64);
        check(hi - lo <= 1, F_WEAR);
        if lo > 0 {
            cover(0);
        }
    }
}
pub fn c15m(a: u64) {
    mgeos!(a, rules)
}
pub fn c19m(a: u64) {
    mgeos!(a | 1 << 18, rules)
}

// ---------------------------------------------------------------- C18
pub type GN = Flash<4, 4, 65792, 0, 131584, 131584>;
pub type GO = Flash<8, 1, 65568, 0, 131136, 131136>;
static mut BIG: [u8; 65552] = [0x5a; 65552];
static mut BIG2: [u8; 65552] = [0x5a; 65552];
fn big<F: Fl>(a: A) {
    let mut q: MapStorage<u8, F, NoC<u8>> = open(F::new());
    let buf: &mut [u8; 65552] = unsafe { &mut *core::ptr::addr_of_mut!(BIG) };
    let tmp: &mut [u8; 65552] = unsafe { &mut *core::ptr::addr_of_mut!(BIG2) };
    let max = max_len::<F>().min(65535) - 1;
    let n = match a.var {
        0 => max,
        1 => max + 1,
        _ => max - 1 - choose(4),
    };
    for b in buf.iter_mut() {
        *b = 0x5a;
    }
    let (x, y) = (u8(), u8());
    buf[0] = x;
    buf[n - 1] = y;
    let key = u8();
    match block_on(q.store_item(&mut tmp[..], &key, &&buf[..n])) {
        Ok(()) => check(n <= max, F_OK),
        Err(Error::ItemTooBig) => {
            check(n > max, F_REJECT);
            cover(1);
            match block_on(q.fetch_item::<&[u8]>(&mut tmp[..], &key)) {
                Ok(None) => return,
                _ => fail(F_EXTRA),
            }
        }
        Err(_) => fail(F_ERR),
    }
    match block_on(q.fetch_item::<&[u8]>(&mut tmp[..], &key)) {
        Ok(Some(d)) => {
            check(d.len() == n, F_ORDER);
            let mut bad = (d[0] ^ x) | (d[n - 1] ^ y);
            for b in &d[1..n - 1] {
                bad |= *b ^ 0x5a;
            }
            check(bad == 0, F_ORDER);
            cover(0);
        }
        _ => fail(F_LOST),
    }
}
fn sizes<F: Fl, C: Mk<u8>>(a: A) {
    let max = max_len::<F>() - 1;
    let mut q: M<F, C> = M::new();
    q.prelude(a.pre);
    let n = choose(max + 3);
    if n <= max {
        q.s = [u8(), u8()];
        // alone in a page it always fits
        q.must(Op::RemoveAll);
        q.must(Op::Store(1, n));
        cover(0);
        q.settle();
        q.all();
        return;
    }
    let vb = [1u8; BUF + 4];
    let mut b = [0u8; BUF + 4];
    match block_on(q.q().store_item(&mut b, &KEYS[2], &&vb[..n])) {
        Err(Error::ItemTooBig) => cover(1),
        Ok(()) => fail(F_OK),
        Err(_) => fail(F_WHICHERR),
    }
    q.settle();
    q.all();
    q.must(Op::Iter);
}
pub fn c18m(a: u64) {
    let (g, x) = arg(a);
    match g {
        32 => big::<GN>(x),
        33 => big::<GO>(x),
        _ => mgeos!(a, sizes),
    }
}

// ---------------------------------------------------------------- C23
/// the independent decoder finds the current value of every key as its newest item, and
/// nothing that was not stored
fn decode<F: Fl>(m: &[u8], mo: &Model) {
    let (o, n) = dec::order::<F>(m);
    let h = dec::up(8, F::WORD);
    let mut cur = [false; NK];
    let mut any = [false; NK];
    for p in &o[..n] {
        let s = dec::state::<F>(m, *p);
        let b = dec::page_start::<F>(*p);
        let mut x = 0u8;
        if s != dec::St::Open {
            for v in &m[b..b + F::WORD] {
                x |= *v;
            }
        }
        if s == dec::St::Closed {
            for v in &m[b + F::PAGE - F::WORD..b + F::PAGE] {
                x |= *v;
            }
        }
        check(x == 0, F_FORMAT);
        let mut w = dec::Walk::new::<F>(*p);
        while let Some(r) = w.next::<F>(m) {
            let mut bad = 0u8;
            for v in &m[r.at + 8..r.at + h] {
                bad |= !*v;
            }
            let d = r.at + h;
            for v in &m[d + r.len..d + dec::up(r.len, F::WORD)] {
                bad |= *v;
            }
            check(bad == 0, F_FORMAT);
            if r.erased {
                continue;
            }
            check(r.ok && r.len > 0, F_FORMAT);
            let k = match m[d] {
                0 => 0,
                7 => 1,
                0xff => 2,
                _ => fail(F_FORMAT),
            };
            let v = &m[d + 1..d + r.len];
            let mut hit = false;
            for i in 0..mo.n {
                if mo.h[i].0 as usize == k && mo.h[i].1.len as usize == v.len() && mo.h[i].1.is(v) {
                    hit = true;
                }
            }
            check(hit, F_FORMAT);
            any[k] = true;
            cur[k] = matches!(&mo.v[k], Some(i) if i.is(v));
        }
        let end = if s == dec::St::Closed { w.end } else { b + F::PAGE };
        let mut ones = 0xffu8;
        for v in &m[w.at..end] {
            ones &= *v;
        }
        check(ones == 0xff, F_FORMAT);
    }
    for k in 0..NK {
        check(any[k] == mo.v[k].is_some(), F_FORMAT);
        check(!any[k] || cur[k], F_FORMAT);
    }
}
fn format<F: Fl, C: Mk<u8>>(a: A) {
    let mut q: M<F, C> = M::new();
    q.prelude(a.pre);
    for k in 0..a.steps {
        if k == 0 {
            q.s = [u8(), u8()];
        }
        let op = pick::<F>();
        q.op(op);
    }
    let f = q.flash().clone();
    decode::<F>(f.mem(), &q.m);
    cover(0);
    if q.m.live() > 2 {
        cover(1);
    }
}
/// an image laid out by the independent encoder is read back as its last values
fn image<F: Fl, C: Mk<u8>>(a: A) {
    let mut q: M<F, C> = M::new();
    let mut f = F::new();
    let young = choose(F::PAGES);
    let closed = choose(F::PAGES);
    let sym = [u8(), u8()];
    let mut first = true;
    for k in 0..=closed {
        let p = (young + F::PAGES - closed + k) % F::PAGES;
        let partial = k == closed;
        // one page always stays open
        if partial && closed > 0 && (closed + 1 == F::PAGES || (young == closed && flip())) {
            break;
        }
        let mut at = dec::page_start::<F>(p) + F::WORD;
        let end = dec::page_start::<F>(p) + F::PAGE - F::WORD;
        let ni = choose(a.steps + 1);
        for _ in 0..ni {
            let mx = max_len::<F>() - 1;
            let len = [mx / 6, 0, mx / 3][choose(if a.var & 1 == 1 { 3 } else { 2 })];
            if at + dec::up(8, F::WORD) + dec::up(len + 1, F::WORD) > end {
                break;
            }
            let kind = choose(3);
            if first && len > 1 {
                q.s = sym;
                first = false;
            }
            let it = q.item(len);
            let mut b = [0u8; BUF];
            let n = it.fill(&mut b);
            let mut d = [0u8; BUF + 1];
            let key = if kind == 2 { 1 } else { 0 };
            d[0] = KEYS[key];
            d[1..=n].copy_from_slice(&b[..n]);
            at = dec::put_item::<F>(f.mem_mut(), at, &d[..=n], kind == 1);
            if kind != 1 {
                q.m.put(key, it);
            }
        }
        dec::mark::<F>(f.mem_mut(), p, if partial { dec::St::Partial } else { dec::St::Closed });
    }
    q.st = Some(open(f));
    q.all();
    q.must(Op::Iter);
    if q.m.live() > 1 {
        cover(0);
    }
    // live items of a made up image need not fit one page
    q.op(Op::Store(2, 0));
    q.all();
    q.must(Op::Remove(0));
    q.all();
    q.must(Op::Iter);
}
pub fn c23m(a: u64) {
    mgeos!(a, format)
}
pub fn c23n(a: u64) {
    mgeos!(a, image)
}

// ---------------------------------------------------------------- C25
fn glitch<F: Fl, C: Mk<u8>>(a: A) {
    let mut q: M<F, C> = M::new();
    q.prelude2(a.pre);
    for _ in 0..a.steps {
        let op = match choose(6) {
            0 => Op::Fetch(0),
            1 => Op::Fetch(1),
            2 => Op::Store(1, ml::<F>()[0]),
            3 => Op::Store(0, ml::<F>()[1]),
            4 => Op::Remove(0),
            _ => Op::Iter,
        };
        // the same without a misread
        let mut p: M<F, NoC<u8>> = M::new();
        p.st = Some(open(q.flash().revived()));
        p.m = q.m;
        p.seq = q.seq;
        let x = p.op(op);
        arm_glitch(q.flash(), a.var & 1 == 1);
        let y = q.op(op);
        if q.flash().ctlr().hit {
            cover(0);
            if q.flash().ctlr().glitch_pos >= 8 {
                cover(1);
            }
        }
        q.flash().heal();
        check(x == y, F_DIFF);
        check(p.flash().same(q.flash()), F_DIFF);
    }
    q.settle();
    q.all();
}
pub fn c25m(a: u64) {
    mgeos!(a, glitch)
}

// ---------------------------------------------------------------- C26
fn small<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let mut q: M<F, C> = M::new();
    q.prelude2(a.pre);
    q.s = [u8(), u8()];
    q.op(Op::Store(1, l[1]));
    let max = max_len::<F>() + F::WORD;
    let n = choose(max.min(BUF));
    let mut b = [0u8; BUF];
    let op = choose(6);
    let mut len = n;
    let mut tries = 0;
    loop {
        let it = It::new(l[2 * (op & 1)], 99);
        let mut vb = [0u8; BUF];
        let vn = it.fill(&mut vb);
        let mut need = None;
        let mut iter_err = false;
        match op {
            0 | 1 => {
                let fits = q.m.size::<F>() + size::<F>(vn) <= F::PAGE - 2 * F::WORD;
                match block_on(q.q().store_item(&mut b[..len], &KEYS[0], &&vb[..vn])) {
                    Ok(()) => q.m.put(0, it),
                    Err(Error::BufferTooSmall(x)) => need = Some(x),
                    Err(Error::SerializationError(SerializationError::BufferTooSmall)) => {
                        check(len < vn + 1, F_WHICHERR);
                        need = Some(vn + 1);
                    }
                    Err(Error::FullStorage) => check(!fits, F_WHICHERR),
                    Err(_) => fail(F_WHICHERR),
                }
            }
            2 => match block_on(q.st.as_mut().unwrap().fetch_item::<&[u8]>(&mut b[..len], &KEYS[1])) {
                Ok(d) => check(eq(&q.m.v[1], &d), F_TORN),
                Err(Error::BufferTooSmall(x)) => need = Some(x),
                Err(_) => fail(F_WHICHERR),
            },
            3 => match block_on(q.q().remove_item(&mut b[..len], &KEYS[0])) {
                Ok(()) => q.m.gone(0),
                Err(Error::BufferTooSmall(x)) => {
                    need = Some(x);
                    // may have removed some of the older values
                    q.loose = true;
                }
                Err(_) => fail(F_WHICHERR),
            },
            4 => match block_on(q.q().remove_all_items(&mut b[..len])) {
                Ok(()) => {
                    for k in 0..NK {
                        q.m.gone(k);
                    }
                }
                Err(Error::BufferTooSmall(x)) => {
                    need = Some(x);
                    q.loose = true;
                }
                Err(_) => fail(F_WHICHERR),
            },
            _ => {
                // the iterator goes on with the same item after the error
                let m = &q.m;
                let mut it = match block_on(q.st.as_mut().unwrap().fetch_all_items(&mut b[..len])) {
                    Ok(i) => i,
                    Err(_) => fail(F_ERR),
                };
                let mut cur = [false; NK];
                let mut any = [false; NK];
                let mut sz = len;
                loop {
                    let r = block_on(it.next::<&[u8]>(&mut b[..sz]));
                    match r {
                        Ok(Some((key, d))) => {
                            let k = if key == 0 { 0 } else if key == 7 { 1 } else { 2 };
                            cur[k] = eq(&m.v[k], &Some(d));
                            any[k] = true;
                            sz = len;
                        }
                        Ok(None) => break,
                        Err(Error::BufferTooSmall(x)) => {
                            check(x > sz, F_COUNT);
                            sz = x;
                            iter_err = true;
                        }
                        Err(_) => fail(F_WHICHERR),
                    }
                }
                for k in 0..NK {
                    check(any[k] == m.v[k].is_some(), F_LOST);
                    check(!any[k] || cur[k], F_OLD);
                }
            }
        }
        if iter_err {
            cover(1);
        }
        match need {
            None => break,
            Some(x) => {
                // the size of a stored item, too big for the buffer
                check(x > len, F_COUNT);
                let mut hit = x == vn + 1 && op < 2;
                for i in 0..q.m.n {
                    hit |= dec::up(q.m.h[i].1.len as usize + 1, F::WORD) == x;
                }
                check(hit, F_COUNT);
                cover(0);
                if op == 3 || op == 4 {
                    q.m.alt = q.m.v;
                    for k in 0..NK {
                        if op == 4 || k == 0 {
                            q.m.alt[k] = None;
                            q.m.amb |= 1 << k;
                        }
                    }
                }
                q.settle();
                len = x;
            }
        }
        tries += 1;
        check(tries < 8, F_COUNT);
    }
    q.settle();
    q.all();
    q.op(Op::Store(0, l[0]));
    q.all();
}
fn eq(a: &Option<It>, d: &Option<&[u8]>) -> bool {
    match (a, d) {
        (None, None) => true,
        (Some(i), Some(d)) => i.is(d),
        _ => false,
    }
}
pub fn c26m(a: u64) {
    mgeos!(a, small)
}
