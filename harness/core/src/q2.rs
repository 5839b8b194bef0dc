//! Queue harnesses for C05, C12, C15, C18, C19, C23, C25, C26.
use crate::caches::*;
use crate::dec;
use crate::flash::*;
use crate::geo::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
use sequential_storage::Error;
use sequential_storage::cache::page_pointers::*;
use sequential_storage::cache::page_states::*;
use sequential_storage::cache::*;
use sequential_storage::queue::*;

type CA5 = Cache<ArrayPageStates<6>, ArrayPagePointers<5>, Uncached, ()>;
type CS5 = Cache<ArrayPageStates<5>, Uncached, Uncached, ()>;
type CP5 = Cache<Uncached, ArrayPagePointers<6>, Uncached, ()>;
type CX5 = Cache<CalculatedPageStates, ArrayPagePointers<5>, Uncached, ()>;
pub type GH = Flash<4, 4, 32, 0, 160, 160>;

// ---------------------------------------------------------------- C05
/// free bytes according to the layout
fn free_bytes<F: Fl>(m: &[u8]) -> usize {
    let area = F::PAGE - 2 * F::WORD;
    let mut sum = 0;
    for p in 0..F::PAGES {
        let s = dec::state::<F>(m, p);
        let mut w = dec::Walk::new::<F>(p);
        let mut live = false;
        if s != dec::St::Open {
            while let Some(r) = w.next::<F>(m) {
                live |= !r.erased;
            }
        }
        let rest = w.end - w.at;
        sum += match s {
            dec::St::Open => area,
            dec::St::Closed => {
                if live {
                    0
                } else {
                    area
                }
            }
            _ => {
                // a page with no room for another item is free again once everything is popped
                if !live && rest < dec::up(8, F::WORD) { area } else { rest }
            }
        };
    }
    sum
}
fn capacity<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    for _ in 0..a.steps {
        match choose(6) {
            c @ 0..=2 => {
                let before = free_bytes::<F>(q.flash().mem());
                if q.op(Op::Push(l[c], false)) == Res::Ok {
                    let after = free_bytes::<F>(q.flash().mem());
                    let size = dec::up(8, F::WORD) + dec::up(l[c], F::WORD);
                    // what the rest of the left page was worth is at most a page
                    check(after >= before || before - after < size + F::PAGE - 2 * F::WORD, F_COUNT);
                }
            }
            3 => q.must(Op::Push(l[1], true)),
            4 => q.must(Op::Pop),
            _ => q.must(Op::Iter(2)),
        }
    }
    let f0 = q.flash().clone();
    let free = match block_on(q.q().space_left()) {
        Ok(n) => n as usize,
        Err(_) => fail(F_ERR),
    };
    observe(free as u64);
    check(free == free_bytes::<F>(f0.mem()), F_COUNT);
    let fit = match block_on(q.q().find_max_fit()) {
        Ok(x) => x,
        Err(_) => fail(F_ERR),
    };
    check(q.flash().same(&f0), F_CHANGED);
    // every length is accepted exactly when it is at most the reported one
    let n = choose(max_len::<F>() + 1);
    match fit {
        Some(m) => {
            cover(0);
            observe(m as u64);
            check(m as usize <= max_len::<F>(), F_COUNT);
            if n <= m as usize {
                q.must(Op::Push(n, false));
            } else {
                check(q.op(Op::Push(n, false)) == Res::Full, F_OK);
                cover(1);
            }
        }
        None => {
            cover(2);
            check(q.op(Op::Push(n, false)) == Res::Full, F_OK);
        }
    }
    q.drain();
    q.must(Op::Info);
}
pub fn c05(a: u64) {
    geos!(a, capacity)
}

// ---------------------------------------------------------------- C12
fn twin<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut p: Q<F, NoC> = Q::new();
    let mut q: Q<F, C> = Q::new();
    let n = choose(a.pre + 1);
    let lag = if n > 0 { choose(4) } else { 0 };
    p.fill_with(&plens::<F>(), n, lag);
    q.fill_with(&plens::<F>(), n, lag);
    check(p.flash().same(q.flash()), F_DIFF);
    for _ in 0..a.steps {
        let op = match choose(8) {
            0 => Op::Push(l[1], false),
            1 => Op::Push(l[2], false),
            2 => Op::Push(l[2], true),
            3 => Op::Pop,
            4 => Op::Iter(2),
            5 => Op::Iter(0x3f),
            6 => Op::Peek,
            _ => {
                // same flash, same cache, new storage object
                let (f, c) = q.st.take().unwrap().destroy();
                q.st = Some(QueueStorage::new(f, cfg::<F>(), c));
                cover(0);
                continue;
            }
        };
        let x = p.op(op);
        let y = q.op(op);
        check(x == y, F_DIFF);
        check(p.flash().same(q.flash()), F_DIFF);
        let (x, y) = (block_on(p.q().space_left()), block_on(q.q().space_left()));
        check(x.is_ok() && x == y, F_DIFF);
        let (x, y) = (block_on(p.q().find_max_fit()), block_on(q.q().find_max_fit()));
        check(x.is_ok() && x == y, F_DIFF);
    }
    p.drain();
    q.drain();
    check(p.flash().same(q.flash()), F_DIFF);
}
pub fn c12(a: u64) {
    let (g, x) = arg(a);
    match g {
        14 => twin::<GH, CC>(x),
        15 => twin::<GH, CX5>(x),
        16 => twin::<GH, CA5>(x),
        17 => twin::<GH, CH>(x),
        18 => twin::<GH, CP5>(x),
        19 => twin::<GH, CS5>(x),
        20 => twin::<GA, CC>(x),
        21 => twin::<GA, CH>(x),
        22 => twin::<GA, CP>(x),
        _ => geos!(a, twin),
    }
}

// ---------------------------------------------------------------- C15 / C19
fn rules<F: Fl, C: Mk<()>>(a: A) {
    let mut q: Q<F, C> = Q::new();
    let c = q.flash().ctl();
    c.track = a.var & 1 == 0;
    c.wear = a.var & 1 == 1;
    q.prelude(&plens::<F>(), a.pre);
    if a.var & 2 != 0 {
        // an interrupted operation first
        let op = pick::<F>(q.m.n);
        let c = q.flash().ctl();
        c.mode = Mode::Crash;
        c.used = 0;
        c.fuel = u16() as u32;
        c.torn = true;
        q.torn = q.op(op) == Res::Cut;
        q.reopen();
        q.settle();
    }
    for _ in 0..a.steps {
        let op = pick::<F>(q.m.n);
        q.op(op);
    }
    q.finish();
    let c = q.flash().ctlr();
    if a.var & 1 == 0 {
        check(c.rule == 0, F_RULE);
        if c.writes > 20 {
            cover(0);
        }
    } else {
        check(c.wear_bad == 0, F_WEAR);
        let (mut lo, mut hi) = (u16::MAX, 0);
        for p in 0..F::PAGES {
            lo = lo.min(c.erases[p]);
            hi = hi.max(c.erases[p]);
        }
        observe(hi as u64);
        check(hi - lo <= 1, F_WEAR);
        if hi > 1 {
            cover(0);
        }
    }
}
pub fn c15q(a: u64) {
    geos!(a, rules)
}
pub fn c19q(a: u64) {
    geos!(a | 1 << 18, rules)
}

// ---------------------------------------------------------------- C18
pub type GL = Flash<4, 4, 65792, 0, 65792, 65792>;
pub type GM = Flash<8, 8, 65568, 0, 65568, 65568>;
static mut BIG: [u8; 65552] = [0x5a; 65552];
fn big<F: Fl>(a: A) {
    let mut q: QueueStorage<F, NoC> = open(F::new());
    let buf: &mut [u8; 65552] = unsafe { &mut *core::ptr::addr_of_mut!(BIG) };
    let max = max_len::<F>().min(65535);
    // two symbolic bytes at the end, the rest fixed
    let n = match a.var {
        0 => max,
        1 => max + 1,
        _ => max - 1 - choose(4),
    };
    for b in buf.iter_mut() {
        *b = 0x5a;
    }
    let (x, y) = (u8(), u8());
    buf[0] = x;
    if n > 0 {
        buf[n - 1] = y;
    }
    let w0 = q.flash().ctlr().writes;
    let ow = choose(2) == 1;
    match block_on(q.push(&buf[..n], ow)) {
        Ok(()) => check(n <= max, F_OK),
        Err(Error::ItemTooBig) => {
            check(n > max, F_REJECT);
            let c = q.flash().ctlr();
            check(c.writes == w0 && c.log_erase == 0, F_CHANGED);
            cover(1);
            return;
        }
        Err(_) => fail(F_ERR),
    }
    for b in buf.iter_mut() {
        *b = 0;
    }
    match block_on(q.pop(&mut buf[..])) {
        Ok(Some(d)) => {
            check(d.len() == n, F_ORDER);
            let mut bad = (d[0] ^ x) | (d[n - 1] ^ y);
            for b in &d[1..n - 1] {
                bad |= *b ^ 0x5a;
            }
            check(bad == 0, F_ORDER);
            cover(0);
        }
        _ => fail(F_LOST),
    }
}
fn sizes<F: Fl, C: Mk<()>>(a: A) {
    let max = max_len::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    let n = choose(max + 3);
    let ow = flip();
    if n <= max {
        q.s = [u8(), u8()];
        if q.op(Op::Push(n, ow)) == Res::Ok {
            check(q.m.it[q.m.n - 1].len as usize == n, F_LOST);
            cover(0);
        }
        q.settle();
        q.drain();
        return;
    }
    let b = [1u8; BUF + 2];
    let f = q.flash().clone();
    match block_on(q.q().push(&b[..n], ow)) {
        Err(Error::ItemTooBig) => cover(1),
        Ok(()) => fail(F_OK),
        Err(_) => fail(F_WHICHERR),
    }
    check(q.flash().same(&f), F_CHANGED);
    q.drain();
}
pub fn c18q(a: u64) {
    let (g, x) = arg(a);
    match g {
        32 => big::<GL>(x),
        33 => big::<GM>(x),
        _ => geos!(a, sizes),
    }
}

// ---------------------------------------------------------------- C23
/// the independent decoder finds exactly the live items of the model, oldest first
fn decode<F: Fl>(m: &[u8], mo: &Model) {
    let (o, n) = dec::order::<F>(m);
    let mut k = 0;
    for p in &o[..n] {
        let s = dec::state::<F>(m, *p);
        let b = dec::page_start::<F>(*p);
        let mut x = 0u8;
        if s == dec::St::Partial || s == dec::St::Closed {
            for v in &m[b..b + F::WORD] {
                x |= *v;
            }
        }
        if s == dec::St::Closed {
            for v in &m[b + F::PAGE - F::WORD..b + F::PAGE] {
                x |= *v;
            }
        }
        check(x == 0, F_FORMAT);
        let mut w = dec::Walk::new::<F>(*p);
        let h = dec::up(8, F::WORD);
        while let Some(r) = w.next::<F>(m) {
            // padding: header with ones, data with zeros
            let mut bad = 0u8;
            for v in &m[r.at + 8..r.at + h] {
                bad |= !*v;
            }
            let d = r.at + h;
            for v in &m[d + r.len..d + dec::up(r.len, F::WORD)] {
                bad |= *v;
            }
            check(bad == 0, F_FORMAT);
            if !r.erased {
                check(r.ok, F_FORMAT);
                check(k < mo.n, F_FORMAT);
                check(mo.it[k].is(&m[d..d + r.len]), F_FORMAT);
                k += 1;
            }
        }
        // nothing behind the last item
        let end = if s == dec::St::Closed { w.end } else { b + F::PAGE };
        let mut ones = 0xffu8;
        for v in &m[w.at..end] {
            ones &= *v;
        }
        check(ones == 0xff, F_FORMAT);
    }
    check(k == mo.n, F_FORMAT);
}
fn format<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    for k in 0..a.steps {
        if k == 0 {
            q.s = [u8(), u8()];
        }
        match choose(6) {
            c @ 0..=2 => {
                q.op(Op::Push(l[c], false));
            }
            3 => q.must(Op::Push(l[2], true)),
            4 => q.must(Op::Pop),
            _ => q.must(Op::Iter(2)),
        }
    }
    let f = q.flash().clone();
    decode::<F>(f.mem(), &q.m);
    cover(0);
    if q.m.n > 2 {
        cover(1);
    }
}
/// an image laid out by the independent encoder is read back as its items
fn image<F: Fl, C: Mk<()>>(a: A) {
    let mut q: Q<F, C> = Q::new();
    let mut f = F::new();
    let young = choose(F::PAGES);
    // number of closed pages before the one being written
    let closed = choose(F::PAGES);
    let sym = [u8(), u8()];
    let mut first = true;
    for k in 0..=closed {
        let p = (young + F::PAGES - closed + k) % F::PAGES;
        let partial = k == closed;
        // the page after the last closed one may still be open
        if partial && closed > 0 && flip() {
            break;
        }
        let mut at = dec::page_start::<F>(p) + F::WORD;
        let end = dec::page_start::<F>(p) + F::PAGE - F::WORD;
        let ni = choose(a.steps + 1);
        for _ in 0..ni {
            let mx = max_len::<F>();
            let len = [mx / 3, 0, 1, mx / 2][choose(if a.var & 1 == 1 { 4 } else { 2 })];
            if at + dec::up(8, F::WORD) + dec::up(len, F::WORD) > end {
                break;
            }
            let erased = flip();
            if first && len > 1 {
                q.s = sym;
                first = false;
            }
            let it = q.item(len);
            let mut b = [0u8; BUF];
            let n = it.fill(&mut b);
            at = dec::put_item::<F>(f.mem_mut(), at, &b[..n], erased);
            if !erased {
                q.m.push(it, Fate::Must);
            }
        }
        dec::mark::<F>(f.mem_mut(), p, if partial { dec::St::Partial } else { dec::St::Closed });
    }
    q.st = Some(open(f));
    q.must(Op::Iter(0));
    if q.m.n > 0 {
        cover(0);
    }
    let mx = max_len::<F>();
    q.must(Op::Push(mx, true));
    q.drain();
}
pub fn c23q(a: u64) {
    geos!(a, format)
}
pub fn c23i(a: u64) {
    geos!(a, image)
}

// ---------------------------------------------------------------- C25
fn glitch<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    for _ in 0..a.steps {
        let op = match choose(6) {
            0 => Op::Push(l[1], false),
            1 => Op::Push(l[2], true),
            2 => Op::Pop,
            3 => Op::Peek,
            4 => Op::Iter(2),
            _ => Op::Info,
        };
        // the same without a misread
        let mut p: Q<F, NoC> = Q::new();
        p.st = Some(open(q.flash().revived()));
        p.m = q.m;
        p.seq = q.seq;
        let x = p.op(op);
        arm_glitch(q.flash(), a.var & 1 == 1);
        let y = q.op(op);
        if q.flash().ctlr().hit {
            cover(0);
            if q.flash().ctlr().glitch_pos >= 8 {
                cover(1);
            }
        }
        q.flash().heal();
        check(x == y, F_DIFF);
        check(p.flash().same(q.flash()), F_DIFF);
    }
    q.settle();
    q.drain();
}
pub fn c25q(a: u64) {
    geos!(a, glitch)
}

// ---------------------------------------------------------------- C26
fn small<F: Fl, C: Mk<()>>(a: A) {
    let l = lens::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    q.s = [u8(), u8()];
    q.op(Op::Push(l[1 + choose(2)], true));
    let mut b = [0u8; BUF];
    let need = dec::up(q.m.it[0].len as usize, F::WORD);
    let n = choose(max_len::<F>() + 1);
    let kind = choose(3);
    let mut err = None;
    match kind {
        0 => match block_on(q.st.as_mut().unwrap().peek(&mut b[..n])) {
            Ok(Some(d)) => check(q.m.it[0].is(d), F_ORDER),
            Ok(None) => fail(F_NONE),
            Err(Error::BufferTooSmall(k)) => err = Some(k),
            Err(_) => fail(F_WHICHERR),
        },
        1 => match block_on(q.st.as_mut().unwrap().pop(&mut b[..n])) {
            Ok(Some(d)) => {
                check(q.m.it[0].is(d), F_ORDER);
                q.m.remove(0);
            }
            Ok(None) => fail(F_NONE),
            Err(Error::BufferTooSmall(k)) => err = Some(k),
            Err(_) => fail(F_WHICHERR),
        },
        _ => {
            // an iterator goes on with the same item after the error
            let mut it = match block_on(q.st.as_mut().unwrap().iter()) {
                Ok(i) => i,
                Err(_) => fail(F_ERR),
            };
            for k in 0..q.m.n {
                let need = dec::up(q.m.it[k].len as usize, F::WORD);
                let sz;
                let e = block_on(it.next(&mut b[..n]));
                if let Err(Error::BufferTooSmall(k)) = &e {
                    check(*k == need && n < need, F_COUNT);
                    sz = *k;
                } else if let Ok(Some(e)) = &e {
                    check(n >= need && q.m.it[k].is(e), F_ORDER);
                    continue;
                } else {
                    fail(F_WHICHERR);
                }
                drop(e);
                cover(1);
                match block_on(it.next(&mut b[..sz])) {
                    Ok(Some(e)) => check(q.m.it[k].is(&e), F_ORDER),
                    _ => fail(F_LOST),
                }
            }
            check(matches!(block_on(it.next(&mut b)), Ok(None)), F_EXTRA);
        }
    }
    if kind < 2 {
        if let Some(k) = err {
            cover(0);
            check(k == need && n < need, F_COUNT);
            check(q.settle() == 0, F_LOST);
            match block_on(q.st.as_mut().unwrap().pop(&mut b[..k])) {
                Ok(Some(d)) => check(q.m.it[0].is(d), F_ORDER),
                _ => fail(F_LOST),
            }
            q.m.remove(0);
        } else {
            check(n >= need, F_TORN);
        }
    }
    // buffers of the largest stored size never fail
    let mut big = 0;
    for k in 0..q.m.n {
        big = big.max(dec::up(q.m.it[k].len as usize, F::WORD));
    }
    while q.m.n > 0 {
        match block_on(q.st.as_mut().unwrap().pop(&mut b[..big])) {
            Ok(Some(d)) => check(q.m.it[0].is(d), F_ORDER),
            _ => fail(F_ERR),
        }
        q.m.remove(0);
    }
    q.drain();
}
pub fn c26q(a: u64) {
    geos!(a, small)
}
