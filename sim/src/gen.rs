//! Draws one scenario from (property, seed, index).
use crate::pool::{Pool, GROUPS};
use crate::rng::{mix, Rng};
use crate::rt::{Env, Policy};
use crate::scen::*;

pub fn run_seed(prop: u8, seed: u64, index: u64) -> u64 { mix(mix(seed, index), prop as u64 ^ 0xabc0) }

fn env(r: &mut Rng) -> Env {
    Env {
        rand_seed: r.u64(),
        clock_base: r.u64() >> r.range(2, 24),
        tick: *r.pick(&[0, 1, 10, 1000, 1_000_000, 100_000_000]),
        junk: r.u64(),
        arena_off: r.below(1 << 20),
        entropy_faults: r.p(0.2) as u64,
        tid_shift: if r.p(0.2) { r.range(1, 7) } else { 0 },
        envvar: if r.p(0.1) { r.u64() } else { 0 },
        jump: *r.pick(&[0, 0, 50, 500]),
    }
}
fn policy(r: &mut Rng, s: &mut Scen) {
    if s.threads.len() < 2 || s.sequential { return; }
    s.policy = match r.below(10) {
        0..=5 => Policy::Rand(*r.pick(&[4, 16, 64, 256, 1024, 8192])),
        6..=8 => Policy::Pct(r.range(1, 4)),
        _ => Policy::Serial,
    };
    s.hotp = *r.pick(&[0.0, 0.0, 0.1, 0.3, 0.7]);
    s.boundp = *r.pick(&[0.1, 0.3, 0.7]);
}

// ------------------------------------------------------------------ caches
#[derive(Clone)]
struct Cfg {
    w: Vec<u32>,   // weight per K
    denyp: f64,
    bad: bool,     // predicate panics, writer errors, huge requests
    nomem: bool,
    reenter: bool,
    last: std::cell::Cell<u64>,
}
const DEF: &[(K, u32)] = &[
    (K::New, 3), (K::Drop, 1), (K::Lookup, 40), (K::Get, 6), (K::Contains, 6), (K::Len, 2), (K::IsEmpty, 1), (K::Clear, 3),
    (K::Shrink, 3), (K::Reserve, 3), (K::Retain, 5), (K::Clone, 4), (K::CloneFrom, 3), (K::Eq, 3), (K::Swap, 2), (K::Fmt, 2), (K::Audit, 3),
    (K::Clock, 2), (K::NoMem, 2), (K::UnwindLookup, 1), (K::FillNoMem, 2), (K::Bulk, 1), (K::Call, 1),
];
fn cfg(r: &mut Rng, boost: &[(K, u32)]) -> Cfg {
    let mut w = vec![0u32; 40];
    for &(k, x) in DEF { w[k as usize] = x * 4; }
    for &(k, x) in boost { w[k as usize] = x * 4; }
    for (i, x) in w.iter_mut().enumerate() {
        if i == K::Lookup as usize || boost.iter().any(|b| b.0 as usize == i) { continue; }
        *x = *x * *r.pick(&[0, 4, 4, 12]) / 4;
    }
    let nomem = w[K::NoMem as usize] > 0 && r.p(0.5);
    if !nomem { w[K::NoMem as usize] = 0; }
    Cfg { w, denyp: *r.pick(&[0.0, 0.0, 0.1, 0.3]), bad: r.p(0.7), nomem, reenter: r.p(0.2), last: std::cell::Cell::new(0) }
}
fn cap(r: &mut Rng) -> u64 {
    match r.below(9) { 0 => 0, 1 => r.range(1, 3), 2 => *r.pick(&[4, 7, 8, 14, 15, 28, 29, 56, 57]), 3 => r.range(1, 60), 4 => r.range(60, 400), 5 => *r.pick(&[112, 113, 224, 225, 448, 449, 896, 897, 1792, 1793]), _ => r.range(1, 20) }
}
fn huge(r: &mut Rng) -> u64 { *r.pick(&[u64::MAX, u64::MAX / 2, 1 << 60, 1 << 63, (1 << 59) - 1, 1 << 33, 1 << 58]) }
fn bulk_args(r: &mut Rng) -> (u64, u64, u64) {
    let nu = *r.pick(&[0.0f64, 0.5, 1.0, 1.5, 2.25, 3.0, 0.1]);
    let x0 = *r.pick(&[0.5f64, 1.0, 1.25, 1.9]);
    // strides that vary the low bits, the f32-visible bits, or the high bits; the largest keeps x below 3
    let stride = *r.pick(&[1u64, 3, 1 << 8, 1 << 20, (1 << 29) + 1, 1 << 32]);
    (nu.to_bits(), x0.to_bits(), stride)
}
fn dny(r: &mut Rng, c: &Cfg) -> u64 { if r.p(c.denyp) { deny(*r.pick(&[0, 0, 0, 1, 2]), r.p(0.3)) } else { 0 } }

/// One operation on slots `rw` (own or lock-guarded) and `ro` (only read).
fn cache_op(r: &mut Rng, c: &Cfg, rw: &[u64], ro: &[u64], kinds: &[u64], npairs: u64, ncalls: u64) -> Op {
    let all: Vec<u64> = rw.iter().chain(ro).copied().collect();
    loop {
        let k = KN[r.weighted(&c.w)].0;
        let any = *r.pick(&all);
        if rw.is_empty() && !matches!(k, K::Get | K::Contains | K::Len | K::IsEmpty | K::Eq | K::Fmt | K::Audit | K::Call | K::Clock) { continue; }
        let s = if rw.is_empty() { any } else { *r.pick(rw) };
        let pr = if r.p(0.25) { c.last.get().min(npairs.saturating_sub(1)) } else { r.below(npairs.max(1)) };
        c.last.set(pr);
        return match k {
            K::Call => { if ncalls == 0 { continue; } op(k, &[r.below(ncalls), dny(r, c)]) }
            K::New => {
                let mode = r.below(3);
                let n = if c.bad && r.p(0.08) { huge(r) } else { cap(r) };
                op(k, &[s, kinds[s as usize], mode, if mode == 2 { n } else { 0 }, if mode == 2 { dny(r, c) } else { 0 }])
            }
            K::Drop => op(k, &[s]),
            K::Lookup => op(k, &[s, pr, dny(r, c)]),
            K::UnwindLookup => op(k, &[s, pr, 0]),
            K::Get => op(k, &[any, pr, match r.below(40) { 0 => r.range(9, 150), 1..=10 => r.range(1, 8), _ => 0 }]),
            K::Contains => op(k, &[any, pr]),
            K::Len | K::IsEmpty | K::Audit => op(k, &[any]),
            K::Clear => op(k, &[s]),
            K::Shrink => op(k, &[s, dny(r, c)]),
            K::Reserve => op(k, &[s, if c.bad && r.p(0.2) { huge(r) } else { cap(r) }, dny(r, c)]),
            K::Retain => {
                let mode = *r.pick(&[0, 1, 2, 2, 3, 5, 2]);
                let pa = if c.bad && r.p(0.3) { *r.pick(&[1, 1, 2, 3, 4, 6, 10, 30]) } else { 0 };
                let re = if c.reenter && r.p(0.5) {
                    if ncalls > 0 && r.p(0.5) { 1 + r.below(ncalls) } else { (1 + pr) | 1 << 32 | r.below(4) << 33 }
                } else { 0 };
                op(k, &[s, mode, r.below(1 << 30), pa, re])
            }
            K::Clone => {
                // the source must come before or be lockable: source any, target own
                if any == s { continue; }
                op(k, &[any, s, dny(r, c)])
            }
            K::Swap => { let o = *r.pick(rw); if o == s || kinds[o as usize] != kinds[s as usize] { if r.p(0.5) { continue; } return op(K::Audit, &[s]); } op(k, &[s, o]) }
            K::CloneFrom => { if any == s || kinds[any as usize] != kinds[s as usize] { continue; } op(k, &[any, s, dny(r, c)]) }
            K::Eq => { let o = *r.pick(&all); if kinds[o as usize] != kinds[any as usize] { continue; } op(k, &[any, o]) }
            K::Fmt => op(k, &[any, if c.bad && r.p(0.4) { r.range(1, 120) } else { 0 }, r.p(0.3) as u64, if c.reenter && r.p(0.5) { if npairs > 0 && r.p(0.3) { reads(r, npairs) } else { inside(r, npairs, ncalls) } } else { 0 }]),
            K::Irq => irq(r, npairs, ncalls),
            K::Clock => op(k, &[if r.p(0.8) { 10u64.pow(r.range(3, 17) as u32) } else { 0 }, if r.p(0.3) { r.u64() >> r.range(6, 40) } else { 0 }]),
            K::NoMem => op(k, &[r.p(0.6) as u64]),
            K::FillNoMem => { let (nu, x, st) = bulk_args(r); op(k, &[s, nu, x, st, r.range(1, 500)]) }
            K::Bulk => { let (nu, x, st) = bulk_args(r); op(k, &[s, nu, x, st, match r.below(6) { 0 => r.range(30, 300), _ => r.range(2, 30) }]) }
            _ => continue,
        };
    }
}
/// Some of the operations many times over.
fn again(r: &mut Rng, v: &mut Vec<Op>, p: f64) {
    if v.is_empty() || !r.p(p) { return; }
    let n = match r.below(40) { 0 => r.range(60_000, 70_000), 1 | 2 => r.range(1000, 9000), 3..=16 => r.range(250, 600), 17..=28 => r.range(100, 250), _ => r.range(10, 100) };
    let i = 1 + r.below(v.len() as u64) as usize;
    v.insert(i, op(K::Again, &[n, *r.pick(&[1, 1, 1, 2, 2, 3, 5])]));
}
/// So many threads that tables of them run over.
fn visitors(r: &mut Rng, ncalls: u64) -> Op {
    let n = match r.below(20) { 0 => r.range(1000, 1100), 1..=4 => r.range(240, 270), 5..=8 => r.range(120, 135), 9..=13 => r.range(60, 68), 14..=15 => r.range(28, 36), _ => r.range(3, 20) };
    op(K::Visitors, &[n, r.below(ncalls.max(1)), if r.p(0.7) { 1 } else { r.range(1, ncalls.max(1)) }, r.u64() >> 20])
}
/// Unusually many threads.
fn throng(r: &mut Rng) -> u64 { if r.p(0.15) { if r.p(0.5) { r.range(65, 70) } else { r.range(25, 64) } } else { r.range(8, 24) } }
/// So many caches that counts of them run over.
fn crowd(r: &mut Rng, slot: u64, npairs: u64) -> Op {
    let n = match r.below(20) { 0 => r.range(65_530, 66_000), 1 => r.range(1000, 1100), 2 => r.range(4090, 4100), 3..=9 => r.range(255, 300), 10..=12 => r.range(126, 140), 13..=15 => r.range(60, 68), _ => r.range(3, 40) };
    op(K::Crowd, &[slot, n, r.below(npairs), r.below(4), r.u64() >> 20])
}
/// Caches made, used and dropped while the thread unwinds or exits.
fn unusual(r: &mut Rng, v: &mut Vec<Op>, npairs: u64, p: f64) {
    if npairs == 0 || !r.p(p) { return; }
    for _ in 0..r.range(1, 3) {
        let code = (1 + r.below(npairs)) | 1 << 32 | r.below(4) << 33 | r.below(8) << 35;
        let at = r.below(v.len() as u64 + 1) as usize;
        v.insert(at, op(if r.p(0.5) { K::Unwind } else { K::Teardown }, &[0, code]));
    }
}
/// Reads of a cache in the middle of other reads of it.
fn reads(r: &mut Rng, npairs: u64) -> u64 { (1 + r.below(npairs)) | 1 << 32 | 1 << 44 }
/// A library call to be made in the middle of another one.
fn inside(r: &mut Rng, npairs: u64, ncalls: u64) -> u64 {
    if ncalls > 0 && (npairs == 0 || r.p(0.7)) { 1 + r.below(ncalls) } else if npairs > 0 && r.p(0.15) { reads(r, npairs) } else if npairs > 0 { (1 + r.below(npairs)) | 1 << 32 | r.below(4) << 33 | r.below(8) << 35 | if r.p(0.04) { r.range(1, 15) << 40 } else { 0 } } else { 0 }
}
fn irq(r: &mut Rng, npairs: u64, ncalls: u64) -> Op {
    let mode = *r.pick(&[0u64, 0, 0, 0, 0, 0, 0, 0, 1, 1, 2]);
    let k = match mode { 0 => *r.pick(&[1u64, 10, 100, 1000, 10_000]), 1 => 2, _ => 1 };
    let at = if mode == 1 && r.p(0.4) { 1 } else { r.below(k * 4) + (mode != 0) as u64 };
    op(K::Irq, &[mode, at, inside(r, npairs, ncalls)])
}
fn kinds(r: &mut Rng, n: usize) -> Vec<u64> {
    let k = r.below(4);
    let mixed = r.p(0.3);
    (0..n).map(|_| if mixed { r.below(4) } else { k }).collect()
}
fn add_pairs(s: &mut Scen, r: &mut Rng, pool: &Pool, n: usize, bad_only: bool) {
    let nf = r.range(1, 3);
    let fams: Vec<usize> = (0..nf).map(|_| r.below(pool.pairs.len() as u64) as usize).collect();
    let mut tries = 0;
    while s.pairs.len() < n && tries < 200 {
        tries += 1;
        let f = &pool.pairs[*r.pick(&fams)];
        let p = r.pick(f).clone();
        if bad_only && tries < 100 && p.exp.iter().all(|e| e.st == 0) && r.p(0.5) { continue; }
        if s.pairs.iter().any(|q| (q.nu, q.x) == (p.nu, p.x)) { continue; }
        s.pairs.push(p);
    }
}
fn cache_scen(prop: u8, r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(prop, seed);
    s.env = env(r);
    let nth = match prop { 7 => (if r.p(0.03) { throng(r) } else { r.range(2, 4) }) as usize, 6 => *r.pick(&[1, 1, 2, 3]), 5 => *r.pick(&[1, 1, 1, 1, 2]), _ => *r.pick(&[1, 1, 1, 2, 2, 3]) };
    let np = r.range(3, 10) as usize;
    add_pairs(&mut s, r, pool, np, prop == 2 || prop == 1);
    if r.p(0.3) { add_calls(&mut s, r, pool, 3, false); }
    s.slots = if r.p(0.03) { r.range(8, 40) } else if prop == 6 { r.range(2, 5) } else { r.range(1, 4) } as usize;
    let ks = kinds(r, s.slots);
    let boost: &[(K, u32)] = match prop {
        1 => &[(K::Lookup, 60), (K::Retain, 6), (K::UnwindLookup, 3), (K::Bulk, 2)],
        2 => &[(K::Reserve, 6), (K::Retain, 6), (K::Fmt, 4), (K::NoMem, 4), (K::New, 4)],
        3 => &[(K::Audit, 6), (K::Contains, 8), (K::Get, 8), (K::Clear, 4), (K::Bulk, 2), (K::Clock, 4)],
        4 => &[(K::Retain, 25), (K::Bulk, 4)],
        5 => &[(K::FillNoMem, 15), (K::NoMem, 8), (K::Reserve, 10), (K::Clear, 8), (K::Shrink, 8), (K::New, 8), (K::Bulk, 5), (K::Retain, 5)],
        6 => &[(K::Clone, 15), (K::CloneFrom, 10), (K::Eq, 10)],
        7 => &[(K::Get, 15), (K::Contains, 10), (K::Len, 5), (K::Eq, 5), (K::Fmt, 4), (K::Clone, 6)],
        _ => &[],
    };
    let mut c = cfg(r, boost);
    if prop == 2 { c.bad = true; c.denyp = *r.pick(&[0.1, 0.3, 0.5]); }
    if prop == 4 { c.bad = r.p(0.8); }
    // faults off altogether in some runs
    if r.p(0.15) { c.denyp = 0.0; c.bad = false; c.w[K::NoMem as usize] = 0; }
    // setup
    for i in 0..s.slots as u64 {
        if r.p(0.9) {
            let mode = r.below(3);
            s.setup.push(op(K::New, &[i, ks[i as usize], mode, if mode == 2 { cap(r) } else { 0 }, 0]));
            let fill = r.p(if prop == 7 { 0.9 } else { 0.4 });
            if fill { for _ in 0..r.range(1, 8) { s.setup.push(op(K::Lookup, &[i, r.below(s.pairs.len().max(1) as u64), 0])); } }
            if (prop == 4 && r.p(0.5)) || (prop == 5 && r.p(0.3)) || r.p(0.03) {
                let (nu, x, st) = bulk_args(r);
                let n = match r.below(12) { 0 => r.range(500, 2500), 1..=3 => r.range(60, 500), _ => r.range(4, 60) };
                s.setup.push(op(K::Bulk, &[i, nu, x, st, n]));
            }
        }
    }
    let allslots: Vec<u64> = (0..s.slots as u64).collect();
    let nops = match r.below(5) { 0 => r.range(1, 4), 4 => r.range(30, 80), _ => r.range(4, 30) };
    // how the threads use the caches: lock-guarded sharing, or separate caches plus read-only sharing
    let separate = nth > 1 && r.p(0.5);
    let nshared = if separate { r.below(s.slots as u64 + 1) } else { 0 };
    for t in 0..nth as u64 {
        let (rw, ro): (Vec<u64>, Vec<u64>) = if separate {
            (allslots.iter().copied().filter(|i| *i >= nshared && i % nth as u64 == t).collect(), allslots.iter().copied().filter(|i| *i < nshared).collect())
        } else { (allslots.clone(), vec![]) };
        if rw.is_empty() && ro.is_empty() { s.threads.push(vec![]); continue; }
        let n = 1 + nops / nth as u64;
        let mut v: Vec<Op> = (0..n).map(|_| cache_op(r, &c, &rw, &ro, &ks, s.pairs.len() as u64, s.calls.len() as u64)).collect();
        let np = s.pairs.len() as u64;
        unusual(r, &mut v, np, 0.1);
        again(r, &mut v, 0.06);
        if !rw.is_empty() && np > 0 && r.p(if matches!(prop, 1 | 6) { 0.04 } else { 0.015 }) {
            let at = r.below(v.len() as u64 + 1) as usize;
            let at_slot = *r.pick(&rw);
            let o = crowd(r, at_slot, np);
            v.insert(at, o);
        }
        s.threads.push(v);
    }
    let _ = c.nomem;
    policy(r, &mut s);
    if nth >= 8 && r.p(0.5) {
        // all of them in the same operation of the same cache at once
        let i = r.below(s.slots as u64);
        if s.setup.iter().any(|o| o.k == K::New && o.p[0] == i) {
            let pr = r.below(s.pairs.len().max(1) as u64);
            let mut o = op(*r.pick(&[K::Fmt, K::Fmt, K::Eq, K::Get, K::Contains, K::Len]), &[i]);
            match o.k { K::Eq => o.p[1] = i, K::Get | K::Contains => o.p[1] = pr, _ => {} }
            for t in s.threads.iter_mut() { for _ in 0..r.range(1, 3) { t.insert(0, o); } }
            s.policy = Policy::Rand(*r.pick(&[4, 16, 64]));
        }
    }
    s
}
/// Two or three caches of one kind with the same or nearly the same contents, built in different ways, and compared.
fn eq_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(6, seed);
    s.env = env(r);
    let n = r.range(3, 12) as usize;
    add_pairs(&mut s, r, pool, n, false);
    let kind = r.below(4);
    // a failed lookup adds nothing: keep mostly what can be held
    let good: Vec<u64> = (0..s.pairs.len() as u64).filter(|&i| s.pairs[i as usize].exp[kind as usize].st == 0).collect();
    s.slots = r.range(2, 3) as usize;
    let np = s.pairs.len() as u64;
    let mut a: Vec<u64> = good.iter().copied().filter(|_| r.p(0.6)).collect();
    let mut b = a.clone();
    let out: Vec<u64> = good.iter().copied().filter(|i| !a.contains(i)).collect();
    // pairs that can be exchanged crosswise: {(p,x),(q,y)} against {(p,y),(q,x)}
    let mut cross = vec![];
    for &i in &good { for &j in &good { if i < j {
        let (p, q) = (&s.pairs[i as usize], &s.pairs[j as usize]);
        let f = |nu: u64, x: u64| good.iter().copied().find(|&k| s.pairs[k as usize].nu == nu && s.pairs[k as usize].x == x);
        if p.nu != q.nu && p.x != q.x { if let (Some(k), Some(l)) = (f(p.nu, q.x), f(q.nu, p.x)) { cross.push([i, j, k, l]); } }
    } } }
    match r.below(8) {
        0 | 1 => {}
        2 => { if !b.is_empty() { let i = r.below(b.len() as u64) as usize; b.remove(i); } }
        3 => { if !out.is_empty() { b.push(*r.pick(&out)); } }
        4 if cross.is_empty() => { if !out.is_empty() && !b.is_empty() { let i = r.below(b.len() as u64) as usize; b[i] = *r.pick(&out); } }
        _ if !cross.is_empty() => {
            let c = *r.pick(&cross);
            a.retain(|i| !c.contains(i));
            b = a.clone();
            a.extend(&c[..2]);
            b.extend(&c[2..]);
        }
        4 | 5 => { if !out.is_empty() && !b.is_empty() { let i = r.below(b.len() as u64) as usize; b[i] = *r.pick(&out); } }
        6 => b.clear(),
        _ => b = good.iter().copied().filter(|_| r.p(0.5)).collect(),
    }
    let big = if r.p(0.2) { let (nu, x, st) = bulk_args(r); Some([nu, x, st, if r.p(0.1) { r.range(200, 4500) } else { r.range(20, 200) }]) } else { None };
    let ops = |r: &mut Rng, slot: u64, want: &Vec<u64>| -> Vec<Op> {
        let mut v = vec![];
        let mode = r.below(3);
        v.push(op(K::New, &[slot, kind, mode, if mode == 2 { cap(r) } else { 0 }, 0]));
        let mut w = want.clone();
        for i in (1..w.len()).rev() { let j = r.below(i as u64 + 1) as usize; w.swap(i, j); }
        if r.p(0.3) { // something else first, thrown away
            for _ in 0..r.range(1, 20) { v.push(op(K::Lookup, &[slot, r.below(np.max(1)), 0])); }
            v.push(if r.p(0.5) { op(K::Clear, &[slot]) } else { op(K::Retain, &[slot, 1, 0, 0, 0]) });
        }
        if let Some(g) = big {
            // the same pairs, in order, in reverse order or in two parts
            match r.below(3) {
                0 => v.push(op(K::Bulk, &[slot, g[0], g[1], g[2], g[3]])),
                1 => v.push(op(K::Bulk, &[slot, g[0], g[1].wrapping_add((g[3] - 1).wrapping_mul(g[2])), g[2].wrapping_neg(), g[3]])),
                _ => {
                    let h = r.below(g[3]);
                    v.push(op(K::Bulk, &[slot, g[0], g[1].wrapping_add(h.wrapping_mul(g[2])), g[2], g[3] - h]));
                    v.push(op(K::Bulk, &[slot, g[0], g[1], g[2], h]));
                }
            }
        }
        for i in w {
            v.push(op(K::Lookup, &[slot, i, 0]));
            if r.p(0.1) { v.push(op(K::Reserve, &[slot, cap(r), 0])); }
            if r.p(0.1) { v.push(op(K::Shrink, &[slot, 0])); }
            if r.p(0.1) { v.push(op(K::Lookup, &[slot, i, 0])); }
            if r.p(0.05) { v.push(op(K::Retain, &[slot, 0, 0, 0, 0])); }
        }
        v
    };
    let mut v = ops(r, 0, &a);
    v.extend(ops(r, 1, &b));
    if s.slots == 3 { v.push(op(if r.p(0.5) { K::Clone } else { K::CloneFrom }, &[r.below(2), 2, 0])); if v.last().unwrap().k == K::CloneFrom { v.insert(0, op(K::New, &[2, kind, 0, 0, 0])); } }
    v.push(op(K::Eq, &[0, 1]));
    v.push(op(K::Eq, &[1, 0]));
    if s.slots == 3 {
        v.push(op(K::Eq, &[0, 2]));
        v.push(op(K::Eq, &[2, 1]));
        if !out.is_empty() { v.push(op(K::Lookup, &[2, *r.pick(&out), 0])); v.push(op(K::Eq, &[2, 0])); v.push(op(K::Eq, &[1, 2])); }
    }
    let c = cfg(r, &[(K::Eq, 40), (K::Lookup, 20)]);
    let ks = vec![kind; s.slots];
    let rw: Vec<u64> = (0..s.slots as u64).collect();
    for _ in 0..r.below(12) { v.push(cache_op(r, &c, &rw, &[], &ks, np, 0)); }
    s.threads.push(v);
    s
}
/// One cache with very many entries.
fn big_scen(prop: u8, r: &mut Rng, seed: u64, n: u64, kind: Option<u64>) -> Scen {
    let mut s = Scen::empty(prop, seed);
    s.env = env(r);
    s.slots = 2;
    let k = kind.unwrap_or_else(|| r.below(4));
    let (nu, x, st) = if n > 20_000 { (0.5f64.to_bits(), 1.0f64.to_bits(), *r.pick(&[1u64, 3, 1 << 20, (1 << 29) + 1])) } else { bulk_args(r) };
    let mut v = vec![op(K::New, &[0, k, r.below(3), if prop == 5 { n } else { 0 }, 0])];
    if prop == 5 {
        v[0].p[2] = 2;
        v[0].p[3] = if n > 20_000 { n } else { r.range(n / 2, n) };
        v.push(op(K::FillNoMem, &[0, nu, x, st, n]));
        v.push(op(K::Clear, &[0]));
        v.push(op(K::FillNoMem, &[0, nu, x, st, n]));
        v.push(op(K::Reserve, &[0, r.range(1, n), 0]));
        v.push(op(K::FillNoMem, &[0, 0.75f64.to_bits(), x, st, n]));
        v.push(op(K::Retain, &[0, 1 + r.below(4), r.u64() >> 30, 0, 0]));
        v.push(op(K::Shrink, &[0, 0]));
    } else {
        v.push(op(K::Bulk, &[0, nu, x, st, n]));
        if r.p(0.5) { v.push(op(K::Clone, &[0, 1, 0])); v.push(op(K::Eq, &[0, 1])); }
        match r.below(5) {
            0 => v.push(op(K::Retain, &[0, *r.pick(&[2, 3, 100]), 77, 0, 0])),
            1 => v.push(op(K::Retain, &[0, *r.pick(&[2, 3, 100]), 78, r.range(1, n), 0])),
            2 => v.push(op(K::Clear, &[0])),
            3 => v.push(op(K::Shrink, &[0, 0])),
            _ => v.push(op(K::Clock, &[10u64.pow(r.range(9, 17) as u32), 0])),
        }
        v.push(op(K::BulkCheck, &[0, nu, x, st, n]));
        v.push(op(K::Bulk, &[0, nu, x, st, n / 2]));
        v.push(op(K::BulkCheck, &[0, nu, x, st, n]));
        v.push(op(K::BulkCheck, &[1, nu, x, st, n]));
    }
    s.setup = v;
    s
}

// ------------------------------------------------------------------ functions
fn add_calls(s: &mut Scen, r: &mut Rng, pool: &Pool, n: usize, alloc: bool) {
    let g = if alloc { 0 } else { *r.pick(&[0usize, 0, 1, 2, 2, 3, 3, 4, 4, 5, 6]) };
    let mixed = r.p(0.15);
    let nf = r.range(1, 3);
    let mut fams: Vec<usize> = vec![];
    for _ in 0..nf {
        let grp = if mixed { GROUPS[r.below(7) as usize] } else { GROUPS[g] };
        let f = *r.pick(grp);
        if pool.by_f[f as usize].is_empty() { continue; }
        fams.push(*r.pick(&pool.by_f[f as usize]));
        if r.p(0.3) { fams.push(*r.pick(&pool.by_f[f as usize])); }
    }
    if fams.is_empty() { return; }
    for _ in 0..n * 3 {
        if s.calls.len() >= n { break; }
        let fi = *r.pick(&fams);
        let c = r.pick(&pool.fams[fi].v).clone();
        if !s.calls.iter().any(|q| q.f == c.f && q.a == c.a) { s.calls.push(c); }
    }
}
fn call_ops(r: &mut Rng, s: &Scen, n: u64, denyp: f64, unw: f64) -> Vec<Op> {
    let nc = s.calls.len() as u64;
    let mut last = 0;
    (0..n).map(|_| {
        let i = if r.p(0.25) { last } else { r.below(nc) };
        last = i;
        if r.p(unw) { op(K::Unwind, &[i]) } else { op(K::Call, &[i, if r.p(denyp) { deny(*r.pick(&[0, 0, 1]), r.p(0.3)) } else { 0 }]) }
    }).collect()
}
/// So many calls of one function that counters of a byte or two run over.
fn marathon_scen(r: &mut Rng, pool: &Pool, seed: u64, f: usize, spray: bool, thorough: bool) -> Scen {
    let mut s = Scen::empty(8, seed);
    s.env = env(r);
    let mut all: Vec<CallSpec> = pool.by_f[f].iter().flat_map(|&i| pool.fams[i].v.iter().cloned()).filter(|c| c.exp.st == 0).collect();
    all.sort_by_key(|c| c.exp.steps);
    if all.is_empty() { return s; }
    // the cheapest, some of the cheaper half, and a few of any price
    if !spray {
        let cheap: Vec<CallSpec> = all.iter().filter(|c| c.exp.steps <= all[0].exp.steps * 3 / 2 + 20).cloned().collect();
        for _ in 0..6 { let c = r.pick(&cheap).clone(); if s.calls.len() < 3 && !s.calls.contains(&c) { s.calls.push(c); } }
    }
    let easy = s.calls.len().max(1) as u64;
    let half = all.len() / 2 + 1;
    while s.calls.len() < 3.min(all.len()) {
        let c = all[r.below(half as u64) as usize].clone();
        if !s.calls.contains(&c) { s.calls.push(c); }
    }
    for _ in 0..8 { let c = r.pick(&all).clone(); if !s.calls.contains(&c) { s.calls.push(c); } }
    let nc = s.calls.len() as u64;
    let k = r.range(1, 3).min(nc);
    let avg = s.calls[..k as usize].iter().map(|c| c.exp.steps).sum::<u64>() / k + 30;
    let (many, cap) = if thorough { (1 << 21, 1_000_000_000) } else { (140_000, 60_000_000) };
    let mut v = vec![];
    if spray {
        let sig = sut::SIGS[f].as_bytes();
        let fl: Vec<u64> = (0..sig.len() as u64).filter(|&k| sig[k as usize] == b'f').collect();
        if !fl.is_empty() { v.push(op(K::Spray, &[0, *r.pick(&fl), *r.pick(&[1u64, 3, 1 << 20, (1 << 29) + 1, 1 << 32]), (cap / (s.calls[0].exp.steps + 30)).min(many / 2)])); }
        v.push(op(K::Burst, &[0, nc, 300, r.u64() >> 20]));
    } else {
        v.push(op(K::Burst, &[0, easy, (if crate::checked_build() || thorough { cap * 4 } else { cap * 13 } / (all[0].exp.steps * 5 / 4 + 30)).min(many * 8), r.u64() >> 20]));
        v.push(op(K::Burst, &[0, k, (cap / avg).min(many), r.u64() >> 20]));
        v.push(op(K::Burst, &[0, nc, 100, r.u64() >> 20]));
    }
    s.threads.push(v);
    s
}
/// More operations of one kind on one cache than most counters can count.
fn marathon_cache(prop: u8, r: &mut Rng, pool: &Pool, seed: u64, i: u64, thorough: bool) -> Scen {
    let mut s = Scen::empty(prop, seed);
    s.env = env(r);
    add_pairs(&mut s, r, pool, 12, false);
    s.pairs.sort_by_key(|q| q.exp.iter().map(|e| if e.st == 0 { e.steps } else { 1 << 40 }).max());
    s.pairs.truncate(4);
    s.slots = 1;
    let n = if thorough { 1 << 22 } else { 1_060_000 };
    let np = s.pairs.len().max(1) as u64;
    let (a, b) = (0, if np > 1 { 1 + r.below(np - 1) } else { 0 });
    let long = if thorough { 4_000 } else { 600 };
    let mut v = vec![op(K::New, &[0, i % 4, r.below(2), 0, 0]), op(K::Lookup, &[0, b, 0]), op(K::Lookup, &[0, a, 0])];
    if i < 4 {
        v.push(op(K::Again, &[n, 1, long]));
        v.push(op(K::Get, &[0, a]));
        v.push(op(K::Contains, &[0, b]));
        v.push(op(K::Again, &[n / 4, 2, long]));
    } else {
        v.push(op(K::Clear, &[0]));
        v.push(op(K::Again, &[n / 8, 2, long]));
        v.push(op(K::Lookup, &[0, a, 0]));
        v.push(op(K::Retain, &[0, 3, r.u64() >> 30, 0, 0]));
        v.push(op(K::Shrink, &[0, 0]));
        v.push(op(K::Again, &[n / 8, 3, long]));
    }
    v.push(op(K::Lookup, &[0, b, 0]));
    v.push(op(K::Audit, &[0]));
    s.threads.push(v);
    s
}
/// Two calls a counted number of other calls apart, around the numbers at which small counters run over.
fn gap_scen(r: &mut Rng, pool: &Pool, seed: u64, f: usize, thorough: bool) -> Scen {
    let mut s = Scen::empty(8, seed);
    s.env = env(r);
    let mut all: Vec<CallSpec> = pool.by_f[f].iter().flat_map(|&i| pool.fams[i].v.iter().cloned()).filter(|c| c.exp.st == 0).collect();
    all.sort_by_key(|c| c.exp.steps);
    let sig = sut::SIGS[f].as_bytes();
    let fl: Vec<u64> = (0..sig.len() as u64).filter(|&k| sig[k as usize] == b'f').collect();
    if all.is_empty() || fl.is_empty() { return s; }
    let mut v = vec![];
    let mut left = if thorough { 400_000_000i64 } else { 30_000_000 };
    for round in 0..40 {
        // between them the cheapest of a few, around it the dearest of a few
        let a = (0..3).map(|_| r.below(all.len() as u64)).min().unwrap() as usize;
        let mut b = || (0..3).map(|_| r.below(all.len() as u64)).max().unwrap() as usize;
        let (b1, b2) = (b(), b());
        let price = all[a].exp.steps as i64 + 30;
        let idx = |s: &mut Scen, i: usize| match s.calls.iter().position(|c| *c == all[i]) { Some(k) => k as u64, None => { s.calls.push(all[i].clone()); s.calls.len() as u64 - 1 } };
        let (a, b1, b2) = (idx(&mut s, a), idx(&mut s, b1), idx(&mut s, b2));
        let (i, step) = (*r.pick(&fl), *r.pick(&[1u64, 3, 1 << 20, (1 << 29) + 1, 1 << 32]));
        let at = if round == 0 { 256 } else { *r.pick(&[256u64, 256, 256, 256, 128, 64, 100, 512, 1000, 1024, 4096, 65_536]) };
        let around = if at > 4000 { 3 } else { *r.pick(&[3u64, 5, 5, 9]) };
        let need = price * ((at + 2) * (2 * around + 1)) as i64;
        if need > left { if round > 0 { continue } else { break } }
        left -= need;
        for g in at.saturating_sub(around).max(1)..=at + around {
            v.push(op(K::Call, &[b1, 0]));
            v.push(op(K::Spray, &[a, i, step, g]));
            v.push(op(K::Call, &[b2, 0]));
        }
        if v.len() > 600 { break; }
    }
    s.threads.push(v);
    s
}
fn func_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(8, seed);
    s.env = env(r);
    let kind = r.weighted(&[50, 25, 12, 6, 9]);
    let n = r.range(2, if kind == 1 { 30 } else { 8 }) as usize;
    let al = r.p(0.15);
    add_calls(&mut s, r, pool, n, al);
    if kind == 1 && r.p(0.5) { add_calls(&mut s, r, pool, 2 * n, false); }
    if s.calls.is_empty() { return s; }
    let nc = s.calls.len() as u64;
    let denyp = *r.pick(&[0.0, 0.0, 0.15, 0.4]);
    let unw = *r.pick(&[0.0, 0.0, 0.1, 0.3]);
    match kind {
        0 => {
            let nth = if r.p(0.06) { throng(r) } else { *r.pick(&[2, 2, 2, 3, 3, 4, 6]) };
            for _ in 0..nth { let m = r.range(1, if nth > 6 { 3 } else { 6 }); let v = call_ops(r, &s, m, denyp, unw); s.threads.push(v); }
            if r.p(0.2) { let m = r.range(1, 3); s.setup = call_ops(r, &s, m, denyp, unw); }
            if r.p(0.02) { let v = visitors(r, nc); let at = r.below(s.threads[0].len() as u64 + 1) as usize; s.threads[0].insert(at, v); }
            if r.p(0.02) { s.setup.push(visitors(r, nc)); }
        }
        1 => {
            let m = r.range(10, 150);
            let v = call_ops(r, &s, m, denyp, unw);
            s.threads.push(v);
        }
        2 => { // thread restarts and thread exits
            s.sequential = r.p(0.5);
            for _ in 0..r.range(2, 4) {
                let m = r.range(1, 5);
                let mut v = call_ops(r, &s, m, denyp, unw);
                for _ in 0..r.range(1, 3) { v.push(op(K::Teardown, &[r.below(nc)])); }
                s.threads.push(v);
            }
        }
        3 if r.p(0.4) => { // two threads that a counted number of others lie between
            let dear = (0..nc).map(|i| s.calls[i as usize].exp.steps).sum::<u64>() / nc + 200;
            let n = *r.pick(&[7u64, 15, 15, 31, 31, 63, 63, 63, 127, 127, 255, 9, 99, 62, 64]);
            let one = r.p(0.5);
            let first = r.below(nc);
            let k = if one { 1 } else { nc };
            let m = (r.range(n, 3 * n) * 2).min(6_000_000 / dear + 1);
            s.threads.push(vec![op(K::Call, &[first, 0]), op(K::Burst, &[r.below(nc), r.range(1, nc), m, r.u64() >> 20])]);
            s.threads.push(vec![op(K::Visitors, &[n, first, k, r.u64() >> 20]), op(K::Burst, &[r.below(nc), r.range(1, nc), m / 2 + 1, r.u64() >> 20])]);
            if r.p(0.3) { let m = r.range(1, 5); s.threads.push(call_ops(r, &s, m, 0.0, 0.0)); }
        }
        3 => { // very many calls
            for _ in 0..*r.pick(&[1, 1, 2]) {
                let cnt = *r.pick(&[300u64, 1100, 1100, 4500, 9000, 20_000, 70_000]);
                let k = if r.p(0.4) { r.range(1, 3).min(nc) } else { nc };
                let first = r.below(nc);
                let avg = (0..k).map(|i| s.calls[((first + i) % nc) as usize].exp.steps).sum::<u64>() / k + 1;
                let cnt = cnt.min(3_000_000 / avg + 1);
                s.threads.push(vec![op(K::Burst, &[first, k, cnt, r.u64() >> 20])]);
            }
        }
        _ => { // mixed with caches
            add_pairs(&mut s, r, pool, 5, true);
            s.slots = 2;
            let ks = kinds(r, 2);
            for i in 0..2 { s.setup.push(op(K::New, &[i, ks[i as usize], 0, 0, 0])); }
            let mut c = cfg(r, &[(K::Call, 40)]);
            c.denyp = denyp;
            for t in 0..*r.pick(&[1u64, 2, 2]) {
                let m = r.range(4, 30);
                let mut v = (0..m).map(|_| cache_op(r, &c, &[t], &[], &ks, s.pairs.len() as u64, nc)).collect();
                unusual(r, &mut v, s.pairs.len() as u64, 0.3);
                s.threads.push(v);
            }
            // direct calls with exactly the arguments the caches see
            for p in s.pairs.clone() {
                for k in 0..4 { if r.p(0.3) { s.calls.push(CallSpec { f: sut::KIND_F[k], a: [p.nu, p.x, 0], exp: p.exp[k] }); } }
            }
        }
    }
    policy(r, &mut s);
    s
}
/// What calls may cost: histories of expensive lookups, and very long histories of calls.
fn cost_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(12, seed);
    s.env = env(r);
    if r.p(0.65) && !pool.dear.is_empty() {
        let np = r.range(2, 8) as usize;
        for _ in 0..np * 3 {
            if s.pairs.len() >= np { break; }
            let p = r.pick(&pool.dear).clone();
            if !s.pairs.iter().any(|q| (q.nu, q.x) == (p.nu, p.x)) { s.pairs.push(p); }
        }
        if r.p(0.3) { add_pairs(&mut s, r, pool, np + 3, true); }
        if r.p(0.3) { add_calls(&mut s, r, pool, 3, false); }
        let nth = *r.pick(&[1u64, 1, 1, 1, 2, 3]);
        s.slots = r.range(nth, nth + 2) as usize;
        let ks = kinds(r, s.slots);
        let mut c = cfg(r, &[(K::Lookup, 50), (K::UnwindLookup, 3), (K::Clone, 6), (K::CloneFrom, 4), (K::Get, 8), (K::Contains, 8), (K::FillNoMem, 0)]);
        if r.p(0.3) { c.denyp = 0.0; c.bad = false; }
        let all: Vec<u64> = (0..s.slots as u64).collect();
        for i in 0..s.slots as u64 {
            let mode = r.below(3);
            let roomy = r.p(0.03);
            s.setup.push(op(K::New, &[i, ks[i as usize], if roomy { 2 } else { mode }, if roomy { r.range(1 << 16, 1 << 20) } else if mode == 2 { cap(r) } else { 0 }, 0]));
            if r.p(0.2) { let (nu, x, st) = bulk_args(r); let n = match r.below(5) { 0 => r.range(200, 1000), _ => r.range(5, 100) }; s.setup.push(op(K::Bulk, &[i, nu, x, st, n])); }
            if roomy && r.p(0.5) { s.setup.push(op(K::Retain, &[i, r.below(5), r.below(1 << 30), 0, 0])); }
        }
        let m = r.range(4, 40);
        let big = r.p(0.06);
        if big { add_pairs(&mut s, r, pool, np + 4, false); }
        for _ in 0..nth { let mut v = (0..1 + m / nth).map(|_| cache_op(r, &c, &all, &[], &ks, s.pairs.len() as u64, s.calls.len() as u64)).collect(); again(r, &mut v, 0.06); if big { let mut o = crowd(r, *all.first().unwrap(), np as u64); if r.p(0.3) { o.p[1] = r.range(400, 5000); } v.push(o); } s.threads.push(v); }
        policy(r, &mut s);
        return s;
    }
    let n = r.range(1, 10) as usize;
    let al = r.p(0.15);
    add_calls(&mut s, r, pool, n, al);
    if s.calls.is_empty() { return s; }
    let nc = s.calls.len() as u64;
    let mut v = vec![];
    let denyp = *r.pick(&[0.0, 0.0, 0.2]);
    for _ in 0..r.range(1, 4) {
        let cnt = *r.pick(&[10u64, 50, 300, 1100, 1100, 4500, 9000, 20_000]);
        let i = r.below(nc);
        if r.p(0.4) {
            let sig = sut::SIGS[s.calls[i as usize].f as usize].as_bytes();
            let j = r.below(sig.len() as u64);
            let st = if sig[j as usize] == b'f' { *r.pick(&[1u64, 3, 1 << 20, (1 << 29) + 1, 1 << 32]) } else { 1 };
            let cnt = cnt.min(1_500_000 / (s.calls[i as usize].exp.steps + 30) + 1);
            if sig[j as usize] == b'f' || cnt < 100 { v.push(op(K::Spray, &[i, j, st, cnt])); }
        } else {
            let k = if r.p(0.4) { r.range(1, 3).min(nc) } else { nc };
            let avg = (0..k).map(|j| s.calls[((i + j) % nc) as usize].exp.steps).sum::<u64>() / k + 30;
            v.push(op(K::Burst, &[i, k, cnt.min(1_500_000 / avg + 1), r.u64() >> 20]));
        }
        let m = r.range(1, 8);
        v.extend(call_ops(r, &s, m, denyp, 0.1));
    }
    s.threads.push(v);
    if r.p(0.1) { let w = call_ops(r, &s, 10, denyp, 0.1); s.threads.push(w); policy(r, &mut s); }
    s
}
/// Calls of every kind, mostly ones that fail or take rare paths, watched for effects on the outside world.
fn effect_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(13, seed);
    s.env = env(r);
    if r.p(0.5) { s.env.envvar = r.u64() | 1; }
    let n = r.range(2, 24) as usize;
    let al = r.p(0.15);
    add_calls(&mut s, r, pool, n, al);
    add_calls(&mut s, r, pool, 2 * n, false);
    let bad = r.p(0.6); add_pairs(&mut s, r, pool, 6, bad);
    let caches = r.p(0.5);
    let nth = *r.pick(&[1u64, 1, 2, 3]);
    s.slots = if caches { nth as usize + 1 } else { 0 };
    let ks = kinds(r, s.slots);
    for i in 0..s.slots as u64 {
        s.setup.push(op(K::New, &[i, ks[i as usize], r.below(2), 0, 0]));
        if r.p(0.15) { let (nu, x, st) = bulk_args(r); let n = if r.p(0.12) { r.range(1200, 20_000) } else { r.range(10, 1200) }; s.setup.push(op(K::Bulk, &[i, nu, x, st, n])); }
    }
    if s.calls.is_empty() { return s; }
    let mut c = cfg(r, &[(K::Call, 60), (K::UnwindLookup, 2)]);
    c.denyp = *r.pick(&[0.0, 0.1, 0.4]);
    let nc = s.calls.len() as u64;
    for t in 0..nth {
        let m = r.range(2, 60);
        let mut v: Vec<Op> = if caches { (0..m).map(|_| cache_op(r, &c, &[t], &[nth], &ks, s.pairs.len() as u64, nc)).collect() } else { call_ops(r, &s, m, c.denyp, 0.1) };
        if r.p(0.1) {
            let avg = s.calls.iter().map(|c| c.exp.steps).sum::<u64>() / nc + 30;
            v.push(op(K::Burst, &[0, nc, (*r.pick(&[300u64, 1100, 5000])).min(800_000 / avg + 1), r.u64() >> 20]));
        }
        if r.p(0.1) { v.push(op(K::Teardown, &[r.below(nc)])); }
        if r.p(0.4) {
            for _ in 0..r.range(1, 4) {
                let mut q = irq(r, 0, 0);
                q.p[0] %= 2;
                q.p[2] = crate::run::PROBE;
                let at = r.below(v.len() as u64 + 1) as usize;
                if q.p[0] == 0 { if let Some(o) = v.get(at) { q.p[1] = r.below(op_steps(&s, o).max(4)); } }
                v.insert(at, q);
            }
        }
        if !caches && r.p(0.3) { // callers that have set other roundings, or subnormals to zero
            for _ in 0..r.range(1, 3) {
                let m = *r.pick(&[0x8040u64, 0x8000, 0x40, 0x2000, 0x4000, 0x6000, 0xe040, 0x0c00_0000, 0x0400_0000, 0x0800_8040, 0]);
                let at = r.below(v.len() as u64 + 1) as usize;
                v.insert(at, op(K::FpMode, &[m]));
            }
        }
        let np = s.pairs.len() as u64;
        unusual(r, &mut v, np, 0.1);
        again(r, &mut v, 0.06);
        s.threads.push(v);
    }
    policy(r, &mut s);
    s
}
/// Calls made in the middle of other calls of the same thread.
fn inside_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(14, seed);
    s.env = env(r);
    let n = r.range(1, 8) as usize;
    let al = r.p(0.25);
    add_calls(&mut s, r, pool, n, al);
    let caches = r.p(0.35);
    if caches || r.p(0.2) { let bad = r.p(0.3); add_pairs(&mut s, r, pool, 5, bad); }
    if s.calls.is_empty() { return s; }
    let nth = *r.pick(&[1u64, 1, 1, 1, 1, 2, 2, 3]);
    s.slots = if caches { nth as usize } else { 0 };
    let ks = kinds(r, s.slots);
    for i in 0..s.slots as u64 { s.setup.push(op(K::New, &[i, ks[i as usize], r.below(2), 0, 0])); }
    let (np, nc) = (s.pairs.len() as u64, s.calls.len() as u64);
    let mut c = cfg(r, &[(K::Call, 30), (K::Fmt, 4), (K::Retain, 6), (K::UnwindLookup, 2)]);
    c.denyp = *r.pick(&[0.0, 0.0, 0.2]);
    c.w[K::NoMem as usize] = 0; // memory running out in another thread while a panic hook uses the library
    c.w[K::FillNoMem as usize] = 0;
    c.reenter = true;
    let many = r.p(0.3);
    for t in 0..nth {
        let m = r.range(1, 12);
        let mut v = vec![];
        for _ in 0..m {
            let o = if caches { cache_op(r, &c, &[t], &[], &ks, np, nc) } else { call_ops(r, &s, 1, c.denyp, 0.05).remove(0) };
            let len = op_steps(&s, &o).max(4);
            for _ in 0..if many { r.range(0, 3) } else { r.p(0.7) as u64 } {
                let mut q = irq(r, np, nc);
                if q.p[0] == 0 { match r.below(4) { 0 => q.p[1] = r.below(len.min(60)), 1 => q.p[1] = r.below(2 * len), _ => q.p[1] = r.below(len) } }
                // the same call again, as often as another one
                if o.k == K::Call && r.p(0.4) { q.p[2] = 1 + o.p[0]; }
                // or a cache of the same kind, at the same point of its history
                else if caches && o.k != K::Call && np > 0 && r.p(0.4) { q.p[2] = (1 + r.below(np)) | 1 << 32 | ks[t as usize] << 33 | r.below(8) << 35; }
                if caches && np > 0 && matches!(o.k, K::Fmt | K::Eq | K::Clone | K::CloneFrom | K::Get | K::Contains | K::Len | K::IsEmpty) && r.p(0.4) { q.p[2] = reads(r, np); }
                if q.p[0] != 2 && matches!(o.k, K::New | K::Reserve | K::Clone | K::CloneFrom | K::Shrink | K::Bulk) && r.p(0.5) { (q.p[0], q.p[1]) = (1, r.range(1, 2)); }
                v.push(q);
            }
            if r.p(0.02) && nc > 0 {
                // one inside the other, deep
                let (gap, from, same) = (r.range(1, 40), r.below(20), r.p(0.6));
                let code = inside(r, np, nc);
                for j in 0..r.range(5, 18) { let q = if same { code } else { inside(r, np, nc) }; v.push(op(K::Irq, &[0, from + j * gap, q])); }
            }
            v.push(o);
        }
        s.threads.push(v);
    }
    policy(r, &mut s);
    s
}
/// How much stack and memory calls take: large arguments, caches filled in every order, calls inside others.
fn space_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(15, seed);
    s.env = env(r);
    let n = r.range(1, 10) as usize;
    let al = r.p(0.2);
    add_calls(&mut s, r, pool, n, al);
    let caches = r.p(0.45);
    if caches { let bad = r.p(0.3); add_pairs(&mut s, r, pool, 5, bad); }
    if s.calls.is_empty() { return s; }
    let nth = *r.pick(&[1u64, 1, 1, 2, 3]);
    s.slots = if caches { nth as usize + r.below(2) as usize } else { 0 };
    let ks = kinds(r, s.slots);
    let all: Vec<u64> = (0..s.slots as u64).collect();
    for i in 0..s.slots as u64 {
        let mode = r.below(3);
        s.setup.push(op(K::New, &[i, ks[i as usize], mode, if mode == 2 { cap(r) } else { 0 }, 0]));
        for _ in 0..r.range(0, 2) { // many entries: in ascending, descending or alternating order
            let (nu, x, st) = bulk_args(r);
            let m = match r.below(40) { 0 => r.range(5000, 30_000), 1..=4 => r.range(1500, 5000), 5..=14 => r.range(200, 1500), _ => r.range(5, 200) };
            if r.p(0.5) { s.setup.push(op(K::Bulk, &[i, nu, x, st, m])); } else { s.setup.push(op(K::Bulk, &[i, nu, x.wrapping_add((m - 1) * st), st.wrapping_neg(), m])); }
        }
    }
    let (np, nc) = (s.pairs.len() as u64, s.calls.len() as u64);
    let mut c = cfg(r, &[(K::Lookup, 20), (K::UnwindLookup, 3), (K::Clone, 8), (K::CloneFrom, 5), (K::Eq, 8), (K::Fmt, 5), (K::Retain, 8), (K::Drop, 4), (K::Call, 10)]);
    if r.p(0.5) { c.denyp = 0.0; }
    c.w[K::NoMem as usize] = 0; // as in C14
    c.w[K::FillNoMem as usize] = 0;
    for t in 0..nth {
        let own: Vec<u64> = if nth == 1 { all.clone() } else if caches { vec![t] } else { vec![] };
        let m = r.range(2, 25);
        let mut v = vec![];
        for _ in 0..m {
            let o = if caches { cache_op(r, &c, &own, &[], &ks, np, nc) } else { call_ops(r, &s, 1, c.denyp, 0.1).remove(0) };
            if r.p(0.1) { let len = op_steps(&s, &o).max(4); let mut q = irq(r, np, nc); if q.p[0] == 0 { q.p[1] = r.below(len); } v.push(q); }
            v.push(o);
        }
        if r.p(0.1) { v.push(op(K::Teardown, &[r.below(nc)])); }
        unusual(r, &mut v, np, 0.1);
        again(r, &mut v, 0.05);
        s.threads.push(v);
    }
    policy(r, &mut s);
    s
}
fn op_steps(s: &Scen, o: &Op) -> u64 {
    match o.k {
        K::Call | K::Unwind => s.calls.get(o.p[0] as usize).map_or(0, |c| c.exp.steps),
        K::Lookup => s.pairs.get(o.p[1] as usize).map_or(0, |p| p.exp[0].steps + 100),
        _ => 100,
    }
}
fn stall_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(9, seed);
    s.env = env(r);
    let crowd = r.p(0.1);
    let nth = if crowd { r.range(5, 12).max(throng(r) * r.below(2)) } else { *r.pick(&[2u64, 2, 3, 4]) };
    let caches = r.p(if crowd { 0.1 } else { 0.35 });
    let al = r.p(0.15);
    let nc = r.range(1, 5) as usize;
    add_calls(&mut s, r, pool, nc, al);
    let mut ks = vec![];
    if caches {
        add_pairs(&mut s, r, pool, 5, false);
        s.slots = nth as usize + 1;
        ks = kinds(r, s.slots);
        for i in 0..s.slots as u64 {
            s.setup.push(op(K::New, &[i, ks[i as usize], 0, 0, 0]));
            for _ in 0..3 { s.setup.push(op(K::Lookup, &[i, r.below(s.pairs.len().max(1) as u64), 0])); }
        }
    }
    if s.calls.is_empty() && !caches { return s; }
    let mut c = cfg(r, &[(K::Call, 20), (K::NoMem, 0), (K::Lookup, 30), (K::Get, 10), (K::Contains, 10)]);
    c.w[K::NoMem as usize] = 0;
    c.denyp = *r.pick(&[0.0, 0.0, 0.2]);
    let shared = nth;
    for t in 0..nth {
        let m = r.range(1, 6);
        let v = if caches { (0..m).map(|_| cache_op(r, &c, &[t], &[shared], &ks, s.pairs.len() as u64, s.calls.len() as u64)).collect() }
            else { call_ops(r, &s, m, c.denyp, 0.05) };
        s.threads.push(v);
    }
    policy(r, &mut s);
    // suspend all but at least one thread at random points inside their calls
    let k = if crowd && r.p(0.8) { nth - r.range(1, 2) } else { r.range(1, nth - 1) };
    let mut ids: Vec<u64> = (0..nth).collect();
    for _ in 0..k {
        let i = r.below(ids.len() as u64) as usize;
        let t = ids.swap_remove(i) as usize;
        let mut at = 0;
        let j = r.below(s.threads[t].len() as u64) as usize;
        for o in &s.threads[t][..j] { at += op_steps(&s, o) + 1; }
        at += r.below(op_steps(&s, &s.threads[t][j]).max(1)) + 1;
        if r.p(0.35) {
            s.stalls.push((t, u64::MAX, match r.below(3) { 0 => r.range(1, 3), 1 => r.range(1, 12), _ => r.range(1, 60) }));
        } else {
            s.stalls.push((t, at, u64::MAX));
        }
    }
    s.resume = r.p(0.6);
    s
}
fn leak_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(10, seed);
    s.env = env(r);
    let al = r.p(0.5);
    let nc = r.range(1, 8) as usize;
    add_calls(&mut s, r, pool, nc, al);
    add_pairs(&mut s, r, pool, 6, true);
    s.slots = r.range(1, 3) as usize;
    let ks = kinds(r, s.slots);
    let mut c = cfg(r, &[(K::Call, 40), (K::Clone, 8), (K::Retain, 8)]);
    c.w[K::NoMem as usize] = 0;
    c.denyp = *r.pick(&[0.0, 0.2, 0.5]);
    if r.p(0.3) { for k in DEF { if k.0 != K::Call { c.w[k.0 as usize] = 0; } } }
    if s.calls.is_empty() { c.w[K::Lookup as usize] = 40; }
    let rw: Vec<u64> = (0..s.slots as u64).collect();
    let mut v = vec![];
    for i in 0..s.slots as u64 { v.push(op(K::New, &[i, ks[i as usize], 0, 0, 0])); }
    for _ in 0..r.range(2, 20) { v.push(cache_op(r, &c, &rw, &[], &ks, s.pairs.len() as u64, s.calls.len() as u64)); }
    if r.p(0.04) { let (n, k) = (r.range(100, 1500), r.range(1, 2)); v.push(op(K::Again, &[n, k])); }
    if r.p(0.1) && !s.calls.is_empty() { v.push(op(K::Unwind, &[0])); }
    if r.p(0.4) && !s.calls.is_empty() { // many different arguments, other ones in every repetition
        let i = r.below(s.calls.len() as u64);
        let sig = sut::SIGS[s.calls[i as usize].f as usize].as_bytes();
        let fl: Vec<u64> = (0..sig.len() as u64).filter(|&k| sig[k as usize] == b'f').collect();
        if !fl.is_empty() {
            let n = r.range(5, 300).min(2_000_000 / (s.calls[i as usize].exp.steps + 1) / 50 + 1);
            v.push(op(K::Spray, &[i, *r.pick(&fl), *r.pick(&[1u64, 3, 1 << 20, (1 << 29) + 1, 1 << 32]), n]));
        }
    }
    if r.p(0.3) { // a cache filled and emptied with other pairs each time
        for sl in 0..s.slots as u64 {
            let (nu, x, st) = bulk_args(r);
            v.push(op(K::Bulk, &[sl, nu, x, st, r.range(5, 60)]));
            v.push(if r.p(0.5) { op(K::Clear, &[sl]) } else { op(K::Retain, &[sl, 1, 0, 0, 0]) });
        }
    }
    for i in 0..s.slots as u64 { v.push(op(K::Drop, &[i])); }
    if r.p(0.2) { // several threads at once, after one pass as a warm-up
        for t in 0..r.range(2, 3) {
            let mut w = v.clone();
            for i in (1..w.len()).rev() { let j = r.below(i as u64 + 1) as usize; if w[i].k == K::Call && w[j].k == K::Call { w.swap(i, j); } }
            if t == 0 { s.setup = v.clone(); s.setup.retain(|o| o.k != K::Teardown); }
            s.threads.push(w);
        }
        s.loops = r.range(2, 6);
        policy(r, &mut s);
        return s;
    }
    if r.p(0.25) {
        s.sequential = true;
        let n = r.range(4, 8);
        if r.p(0.5) && !s.calls.is_empty() { v.push(op(K::Teardown, &[0])); }
        s.threads = vec![v; n as usize];
    } else {
        s.threads = vec![v];
        s.loops = *r.pick(&[10, 10, 20, 50]);
    }
    s
}
fn twin_scen(r: &mut Rng, pool: &Pool, seed: u64) -> Scen {
    let mut s = Scen::empty(11, seed);
    s.env = env(r);
    let mut e2 = env(r);
    e2.tid_shift = r.below(64);
    e2.envvar = r.u64() | 1;
    if r.p(0.3) { // change a single thing
        let mut e = s.env.clone();
        match r.below(9) { 0 | 1 => e.rand_seed = e2.rand_seed, 2 => e.clock_base = e2.clock_base, 3 => e.junk = e2.junk, 4 => e.arena_off = e2.arena_off, 5 => e.tid_shift = e2.tid_shift, 6 => e.envvar = e2.envvar, 7 => e.jump = 500, _ => e.tick = e2.tick + 1 }
        e2 = e;
    }
    s.env2 = Some(e2);
    let caches = r.p(0.6);
    let al = r.p(0.3);
    let nc = r.range(1, 10) as usize;
    add_calls(&mut s, r, pool, nc, al);
    let nth = *r.pick(&[1u64, 1, 2, 3]);
    let mut ks = vec![];
    if caches {
        add_pairs(&mut s, r, pool, 8, false);
        s.slots = r.range(1, 4) as usize;
        ks = kinds(r, s.slots);
        for i in 0..s.slots as u64 { s.setup.push(op(K::New, &[i, ks[i as usize], 0, 0, 0])); }
        if r.p(0.2) {
            let (nu, x, st) = bulk_args(r);
            let n = match r.below(10) { 0 => r.range(300, 3000), _ => r.range(10, 200) };
            s.setup.push(op(K::Bulk, &[0, nu, x, st, n]));
        }
    }
    if s.calls.is_empty() && !caches { return s; }
    let mut c = cfg(r, &[(K::Call, 20), (K::Clock, 6)]);
    c.denyp = 0.0;
    c.bad = false;
    c.w[K::NoMem as usize] = 0;
    c.w[K::FillNoMem as usize] = 0;
    let rw: Vec<u64> = (0..s.slots as u64).collect();
    for _ in 0..nth {
        let m = r.range(3, 40);
        let mut v: Vec<Op> = if caches { (0..m).map(|_| cache_op(r, &c, &rw, &[], &ks, s.pairs.len() as u64, s.calls.len() as u64)).collect() }
            else { call_ops(r, &s, m, 0.0, 0.1) };
        again(r, &mut v, 0.05);
        for o in &mut v { if o.k == K::Again { o.p[0] = o.p[0].min(400); } }
        s.threads.push(v);
    }
    s
}

pub fn scenario(prop: u8, seed: u64, index: u64, thorough: bool, pool: &Pool) -> Scen {
    let rs = run_seed(prop, seed, index);
    let mut r = Rng::new(rs);
    let r = &mut r;
    match prop {
        8 if index < 64 => marathon_scen(r, pool, rs, index as usize % 32, index >= 32, thorough),
        8 if index < 192 => gap_scen(r, pool, rs, index as usize % 32, thorough),
        8 => func_scen(r, pool, rs),
        9 => stall_scen(r, pool, rs),
        10 => leak_scen(r, pool, rs),
        11 => twin_scen(r, pool, rs),
        12 if index < 4 => big_scen(12, r, rs, 30_000, Some(index)),
        12 if index % 300 == 77 => { let n = r.range(300, 5_000); big_scen(12, r, rs, n, None) }
        12 => cost_scen(r, pool, rs),
        13 => effect_scen(r, pool, rs),
        14 => inside_scen(r, pool, rs),
        15 if index < 4 => { let n = r.range(60_000, 140_000); big_scen(15, r, rs, n, Some(index)) }
        15 => space_scen(r, pool, rs),
        _ => {
            // a few very large caches first, some medium ones throughout
            let n = match index {
                i if i < 4 && prop == 3 => Some(r.range(1_050_000, 1_200_000)),
                0..=3 => Some(r.range(280_000, 560_000)),
                4..=11 => Some(r.range(5_000, 40_000)),
                20..=48 if thorough => Some(r.range(60_000, 300_000)),
                i if i % 500 == 77 => Some(r.range(300, 5_000)),
                _ => None,
            };
            if let (Some(n), true) = (n, matches!(prop, 1 | 3 | 4 | 5 | 6)) { return big_scen(prop, r, rs, n, if index < 4 { Some(index) } else { None }); }
            if matches!(prop, 1 | 3) && (12..20).contains(&index) { return marathon_cache(prop, r, pool, rs, index - 12, thorough); }
            if prop == 6 && r.p(0.2) { return eq_scen(r, pool, rs); }
            cache_scen(prop, r, pool, rs)
        }
    }
}
