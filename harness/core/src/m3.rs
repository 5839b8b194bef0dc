//! Map harnesses for C16 and C17.
use crate::caches::*;
use crate::dec;
use crate::flash::*;
use crate::geo::*;
use crate::m::*;
use crate::sym::*;
use crate::*;
use sequential_storage::map::*;

// ---------------------------------------------------------------- C17
fn flipped<F: Fl, C: Mk<u8>>(a: A) {
    let l = ml::<F>();
    let h = 8usize.next_multiple_of(F::WORD);
    let mut q: M<F, C> = M::new();
    let kind = a.var & 3;
    q.prelude(a.pre);
    q.op(Op::Store(2, l[0]));
    if a.var & 4 != 0 {
        q.s = [u8(), u8()];
    }
    q.op(Op::Store(choose(2), l[1]));
    let warm = flip();
    if warm {
        q.all();
    }
    let mut f = q.flash().clone();
    if kind == 2 {
        flip_marker(&mut f);
        cover(0);
    } else {
        // every stored item, oldest page first
        let mut at = [(0usize, 0usize, 0u8); 24];
        let mut n = 0;
        let (o, np) = dec::order::<F>(f.mem());
        for p in &o[..np] {
            let mut w = dec::Walk::new::<F>(*p);
            while let Some(r) = w.next::<F>(f.mem()) {
                if !r.erased && n < 24 {
                    at[n] = (r.at, r.len, f.mem()[r.at + h]);
                    n += 1;
                }
            }
        }
        check(n > 0, F_FORMAT);
        // one of the five newest
        let x = n - 1 - choose(n.min(5));
        let (hit, len, key) = at[x];
        let mut newest = true;
        for i in x + 1..n {
            newest &= at[i].2 != key;
        }
        if newest {
            // an older version may take its place
            cover(1);
            let mut k = 0;
            while KEYS[k] != key {
                k += 1;
            }
            q.m.alt = q.m.v;
            q.m.alt[k] = None;
            q.m.amb = 1 << k;
            let mut i = x;
            while i > 0 {
                i -= 1;
                if at[i].2 == key {
                    let d = &f.mem()[at[i].0 + h + 1..at[i].0 + h + at[i].1];
                    for j in 0..q.m.n {
                        if q.m.h[j].0 as usize == k && q.m.h[j].1.len as usize == d.len() && q.m.h[j].1.is(d) {
                            q.m.alt[k] = Some(q.m.h[j].1);
                        }
                    }
                    check(q.m.alt[k].is_some(), F_FORMAT);
                    cover(2);
                    break;
                }
            }
        }
        flip_item::<F>(&mut f, hit, len, kind);
        cover(0);
    }
    if warm {
        *q.flash() = f;
    } else {
        q.st = Some(open(f));
    }
    q.settle();
    q.all();
    q.must(Op::Iter);
    for _ in 0..a.steps {
        match choose(6) {
            0 => {
                q.op(Op::Store(0, l[0]));
            }
            1 => {
                q.op(Op::Store(1, l[1]));
            }
            2 => q.must(Op::Remove(0)),
            3 => q.must(Op::Remove(1)),
            4 => q.must(Op::RemoveAll),
            _ => q.must(Op::Iter),
        }
    }
    q.all();
    q.settle();
    // once around
    let per = (F::PAGE - 2 * F::WORD) / size::<F>(l[0]);
    for i in 0..F::PAGES * per + 1 {
        q.op(Op::Store(0, l[0]));
        if i % per == 0 {
            q.must(Op::Fetch(1));
            q.must(Op::Fetch(2));
        }
    }
    q.all();
    q.must(Op::Iter);
    q.settle();
}
pub fn c17m(a: u64) {
    mgeos!(a, flipped)
}

// ---------------------------------------------------------------- C16
fn item<F: Fl>(f: &F, k: u8, v: &[u8], on: bool) {
    cover(0);
    if !on {
        return;
    }
    let mut d = [0u8; BUF];
    d[0] = k;
    d[1..1 + v.len()].copy_from_slice(v);
    backed(f, &d[..1 + v.len()]);
}
fn op16<F: Fl, C: Mk<u8>>(q: &mut MapStorage<u8, F, C>, data: bool) {
    let mut b = [0u8; BUF];
    match choose(8) {
        0 => {
            let r = block_on(q.store_item(&mut b, &7, &&[1u8, 2][..]));
            observe(r.is_ok() as u64);
        }
        1 => {
            let r = block_on(q.store_item(&mut b, &9, &&[1u8, 2, 3, 4, 5, 6][..]));
            observe(r.is_ok() as u64);
        }
        2 => {
            let f0 = q.flash().clone();
            if let Ok(Some(v)) = block_on(q.fetch_item::<&[u8]>(&mut b, &7)) {
                item(&f0, 7, v, data);
            }
        }
        3 => {
            let f0 = q.flash().clone();
            if let Ok(Some(v)) = block_on(q.fetch_item::<&[u8]>(&mut b, &9)) {
                item(&f0, 9, v, data);
            }
        }
        4 => {
            let r = block_on(q.remove_item(&mut b, &7));
            observe(r.is_ok() as u64);
        }
        5 => {
            let r = block_on(q.remove_all_items(&mut b));
            observe(r.is_ok() as u64);
        }
        6 => {
            let r = block_on(q.erase_all());
            check(r.is_ok(), F_ERR);
        }
        _ => {
            let mut n = 0;
            let f0 = q.flash().clone();
            if let Ok(mut it) = block_on(q.fetch_all_items(&mut b)) {
                loop {
                    n += 1;
                    check(n < 4 * F::PAGE * F::PAGES, F_NONTERM);
                    match block_on(it.next::<&[u8]>(&mut b)) {
                        Ok(Some((k, v))) => item(&f0, k, v, data),
                        Ok(None) => break,
                        Err(_) => break,
                    }
                }
            }
        }
    }
}
fn any<F: Fl, C: Mk<u8>>(a: A) {
    let mut f = F::new();
    soup(&mut f, a.var);
    let mut q: MapStorage<u8, F, C> = open(f);
    for _ in 0..a.steps {
        op16(&mut q, a.var & 5 == 1);
    }
    let c = q.flash().ctlr();
    check(c.rule == 0, F_RULE);
    cover(1);
}
type T1 = Flash<4, 4, 20, 0, 40, 40>;
type S2 = Flash<4, 4, 28, 28, 56, 112>;
type T3 = Flash<8, 1, 32, 32, 64, 96>;
type L4 = Flash<4, 4, 32, 32, 128, 192>;
type L3 = Flash<1, 1, 24, 0, 72, 72>;
pub fn c16m(a: u64) {
    let (g, x) = arg(a);
    match g {
        0 => any::<T1, NoC<u8>>(x),
        1 => any::<S2, NoC<u8>>(x),
        2 => any::<S2, KC8>(x),
        3 => any::<T3, KC2>(x),
        4 => any::<T3, KCH>(x),
        5 => any::<L4, CC<u8>>(x),
        6 => any::<L4, KCX>(x),
        7 => any::<L4, KC8>(x),
        8 => any::<L3, KCH>(x),
        9 => any::<L4, NoC<u8>>(x),
        10 => any::<L3, KC1>(x),
        _ => fail(F_REJECT),
    }
}
