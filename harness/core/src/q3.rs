//! Queue harnesses for C16 and C17.
use crate::caches::*;
use crate::dec;
use crate::flash::*;
use crate::geo::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
use sequential_storage::queue::*;

// ---------------------------------------------------------------- C17
fn flipped<F: Fl, C: Mk<()>>(a: A) {
    let mx = max_len::<F>();
    let mut q: Q<F, C> = Q::new();
    q.prelude(&plens::<F>(), a.pre);
    let kind = a.var & 3;
    if kind == 0 && a.var & 4 != 0 {
        // item with symbolic bytes
        q.s = [u8(), u8()];
    }
    q.op(Op::Push(if kind == 0 { mx.min(8) } else { mx / 3 }, true));
    let warm = flip();
    if warm {
        q.must(Op::Peek);
    }
    let mut f = q.flash().clone();
    if kind == 2 {
        flip_marker(&mut f);
        cover(0);
    } else {
        let k = choose(q.m.n);
        // the flash address of the k-th live item
        let (o, n) = dec::order::<F>(f.mem());
        let mut i = 0;
        let mut at = usize::MAX;
        let mut len = 0;
        for p in &o[..n] {
            let mut w = dec::Walk::new::<F>(*p);
            while let Some(r) = w.next::<F>(f.mem()) {
                if !r.erased {
                    if i == k {
                        at = r.at;
                        len = r.len;
                    }
                    i += 1;
                }
            }
        }
        check(at != usize::MAX, F_FORMAT);
        flip_item::<F>(&mut f, at, len, kind);
        q.m.fate[k] = Fate::May;
        q.corrupt = true;
        cover(0);
    }
    if warm {
        // the object keeps running, the cache knows nothing of the flips
        *q.flash() = f;
    } else {
        q.st = Some(open(f));
    }
    q.settle();
    if q.m.n > 1 {
        cover(1);
    }
    q.must(Op::Iter(0));
    for k in 0..a.steps {
        match choose(5) {
            0 => {
                q.op(Op::Push(mx / 3, false));
            }
            1 => q.must(Op::Push(mx / 2, true)),
            2 => q.must(Op::Pop),
            3 => q.must(Op::Iter(2)),
            _ => q.must(Op::Info),
        }
        if k + 1 == a.steps {
            q.settle();
        }
    }
    q.drain();
    for k in 0..F::PAGES + 1 {
        q.must(Op::Push(mx - k, true));
    }
    q.drain();
    q.op(Op::Push(mx, false));
    q.settle();
    q.drain();
}
pub fn c17q(a: u64) {
    geos!(a, flipped)
}

// ---------------------------------------------------------------- C16
/// is there an item header in the flash with a valid checksum for these bytes?
fn op16<F: Fl, C: Mk<()>>(q: &mut QueueStorage<F, C>, data: bool) {
    let mut b = [0u8; BUF];
    match choose(8) {
        0 => {
            let r = block_on(q.push(&[1, 2, 3], false));
            observe(r.is_ok() as u64);
        }
        1 => {
            let r = block_on(q.push(&[1, 2, 3, 4, 5, 6, 7, 8], true));
            observe(r.is_ok() as u64);
        }
        2 => {
            let f0 = q.flash().clone();
            if let Ok(Some(d)) = block_on(q.pop(&mut b)) {
                if data {
                    backed(&f0, d);
                }
                cover(0);
            }
        }
        3 => {
            let f0 = q.flash().clone();
            if let Ok(Some(d)) = block_on(q.peek(&mut b)) {
                if data {
                    backed(&f0, d);
                }
                cover(0);
            }
        }
        4 => {
            let r = block_on(q.space_left());
            if let Ok(n) = r {
                check(n as usize <= F::PAGE * F::PAGES, F_COUNT);
            }
        }
        5 => {
            let r = block_on(q.find_max_fit());
            if let Ok(Some(n)) = r {
                check(n as usize <= max_len::<F>(), F_COUNT);
            }
        }
        x => {
            let f0 = q.flash().clone();
            let mut n = 0;
            if let Ok(mut it) = block_on(q.iter()) {
                loop {
                    n += 1;
                    check(n < 4 * F::PAGE * F::PAGES, F_NONTERM);
                    match block_on(it.next(&mut b)) {
                        Ok(Some(e)) => {
                            if data {
                                backed(&f0, &e);
                            }
                            cover(0);
                            if x == 6 {
                                if block_on(e.pop()).is_err() {
                                    break;
                                }
                            }
                        }
                        Ok(None) => break,
                        Err(_) => break,
                    }
                }
            }
        }
    }
}
fn any<F: Fl, C: Mk<()>>(a: A) {
    let mut f = F::new();
    soup(&mut f, a.var);
    let mut q: QueueStorage<F, C> = open(f);
    for _ in 0..a.steps {
        op16(&mut q, a.var & 5 == 1);
    }
    let c = q.flash().ctlr();
    check(c.rule == 0, F_RULE);
    cover(1);
}
type S1 = Flash<4, 4, 24, 0, 24, 24>;
type S2 = Flash<4, 4, 28, 28, 56, 112>;
type S3 = Flash<8, 1, 32, 0, 32, 32>;
type S4 = Flash<1, 1, 12, 0, 12, 12>;
type L4 = Flash<4, 4, 32, 32, 128, 192>;
type L3 = Flash<1, 1, 24, 0, 72, 72>;
pub fn c16q(a: u64) {
    let (g, x) = arg(a);
    match g {
        0 => any::<S1, NoC>(x),
        1 => any::<S2, NoC>(x),
        2 => any::<S2, CX>(x),
        3 => any::<S3, CC>(x),
        4 => any::<S4, CH>(x),
        5 => any::<L4, CC>(x),
        6 => any::<L4, CX>(x),
        7 => any::<L4, CA>(x),
        8 => any::<L3, CH>(x),
        9 => any::<L4, NoC>(x),
        _ => fail(F_REJECT),
    }
}
