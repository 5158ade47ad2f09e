//! Arguments to call the library with, and the pristine result of each: what the call gives when it is
//! the only library call ever made in a freshly started process.
use crate::rng::{mix, Rng};
use crate::run;
use crate::scen::{CallSpec, PairSpec, Res};
use sut::{F, ALL, KIND_F};

pub const GROUPS: [&[F]; 7] = [
    &[F::Gamma, F::LnGamma, F::Gammp, F::Gammq, F::InvGammp],
    &[F::Beta, F::Betai, F::InvBetai, F::LnGamma],
    &[F::Erf, F::Erfc, F::Erfcx, F::InvErf, F::InvErfc, F::Dawson, F::Faddeeva],
    &[F::BesselJY, F::BesselIK, F::JnuYnu, F::InuKnu],
    &[F::Jn, F::Yn, F::In, F::Kn],
    &[F::LambertW, F::LambertW0, F::LambertWm1, F::SpLambertW0, F::SpLambertWm1],
    &[F::Factorial, F::Frexp, F::Ldexp, F::Sign],
];
pub const CALL_CAP: u64 = 400_000;

/// A family: calls of one function with closely related arguments.
pub struct Family { pub v: Vec<CallSpec> }
pub struct Pool {
    pub fams: Vec<Family>,
    /// families by function
    pub by_f: Vec<Vec<usize>>,
    pub pairs: Vec<Vec<PairSpec>>,
    /// pairs that take many steps to compute
    pub dear: Vec<PairSpec>,
}

fn logu(r: &mut Rng, lo: f64, hi: f64) -> f64 { (lo.ln() + r.f() * (hi.ln() - lo.ln())).exp() }
fn uni(r: &mut Rng, lo: f64, hi: f64) -> f64 { lo + r.f() * (hi - lo) }
fn special(r: &mut Rng) -> f64 {
    *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-300, -1e-300, 5e-324, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 100.0, 1e-17, 3.0, -2.0, 0.25])
}
fn b(x: f64) -> u64 { x.to_bits() }
fn sgn(r: &mut Rng, p: f64, x: f64) -> f64 { if r.p(p) { -x } else { x } }
fn prob(r: &mut Rng) -> f64 {
    match r.below(5) { 0 => logu(r, 1e-12, 0.1), 1 => 1.0 - logu(r, 1e-12, 0.1), _ => uni(r, 0.02, 0.98) }
}
fn shape(r: &mut Rng) -> f64 {
    match r.below(9) { 0 | 1 => logu(r, 0.01, 1.5), 2 | 3 => logu(r, 1.0, 100.0), 4 | 5 => logu(r, 100.0, 3e3), 6 => logu(r, 1e-6, 1e7), _ => r.range(1, 200) as f64 }
}
fn order(r: &mut Rng) -> f64 {
    match r.below(7) {
        6 => *r.pick(&[0.0, 0.5, 0.5, 1.0, 1.5, 2.0, 2.5, 1.0 / 3.0, 2.0 / 3.0, 0.25, 3.0, 4.5]),
        0 => r.range(0, 30) as f64, 1 => r.range(0, 30) as f64 + 0.5, 2 => uni(r, 0.0, 1.0), 3 => { let h = if r.p(0.2) { 4900.0 } else { 400.0 }; logu(r, 20.0, h) }, _ => uni(r, 0.0, 30.0) }
}
fn barg(r: &mut Rng) -> f64 {
    match r.below(6) { 0 => logu(r, 1e-6, 1.0), 1 => uni(r, 1.0, 2.0), 2 => r.range(1, 40) as f64, 3 => { let h = if r.p(0.1) { 9.9e4 } else { 800.0 }; logu(r, 40.0, h) }, _ => uni(r, 0.05, 40.0) }
}

fn sample(f: F, r: &mut Rng) -> [u64; 3] {
    let r = &mut *r;
    match f {
        F::Gamma => {
            let x = match r.below(7) {
                6 => -(r.range(1, 400) as f64), 0 => uni(r, 0.0, 3.0), 1 => uni(r, 2.0, 30.0), 2 => uni(r, 30.0, 172.0), 3 => -uni(r, 0.0, 180.0),
                4 => r.range(0, 340) as f64 * 0.5 * if r.p(0.3) { -1.0 } else { 1.0 }, _ => { let x = logu(r, 1e-310, 1e-3); sgn(r, 0.3, x) }
            };
            [b(x), 0, 0]
        }
        F::LnGamma => { let x = match r.below(3) { 0 => { let h = if r.p(0.3) { 1e300 } else { 1e8 }; logu(r, 1e-4, h) }, 1 => r.range(1, 400) as f64 * 0.5, _ => uni(r, 0.1, 200.0) }; [b(x), 0, 0] }
        F::Gammp | F::Gammq => {
            let a = shape(r);
            let x = match r.below(6) { 5 => logu(r, 1e-6, 1e5), 0 => 0.0, 1 => a + uni(r, -1.5, 1.5) * a.sqrt(), 2 => a + 1.0, _ => a * logu(r, 0.1, 5.0) };
            [b(a), b(x.max(0.0)), 0]
        }
        F::InvGammp => { let p = if r.p(0.1) { logu(r, 1e-300, 1e-12) } else { prob(r) }; [b(p), b(shape(r)), 0] }
        F::Beta => { let h = if r.p(0.2) { 1e7 } else { 500.0 }; let x = logu(r, 0.01, h); [b(x), b(logu(r, 0.01, h)), 0] }
        F::Betai => {
            let (p, q) = match r.below(5) { 4 => (logu(r, 2e3, 1e6), logu(r, 2e3, 1e6)), 3 => (logu(r, 1e-4, 1e6), logu(r, 1e-4, 1e6)), 0 => (logu(r, 3000.0, 2e4), logu(r, 3000.0, 2e4)), 1 => (r.range(1, 50) as f64, r.range(1, 50) as f64), _ => (logu(r, 0.05, 200.0), logu(r, 0.05, 200.0)) };
            let x = match r.below(5) { 4 => *r.pick(&[0.0, 1.0, 1.0 - 1e-16, 1e-300]), 0 => p / (p + q), 1 => (p / (p + q) + uni(r, -0.01, 0.01)).clamp(0.0, 1.0), _ => prob(r) };
            [b(p), b(q), b(x)]
        }
        F::InvBetai => { let p = if r.p(0.1) { logu(r, 1e-300, 1e-12) } else { prob(r) }; let h = match r.below(4) { 0 => 1e4, 1 => 1000.0, _ => 50.0 }; let l = if r.p(0.3) { 0.004 } else { 0.1 }; let q = logu(r, l, h); [b(p), b(q), b(logu(r, l, h))] }
        F::Erf | F::Erfc => { let x = match r.below(3) { 0 => logu(r, 1e-10, 1.0), 1 => uni(r, 0.0, 6.0), _ => logu(r, 1.0, 30.0) }; [b(sgn(r, 0.4, x)), 0, 0] }
        F::Erfcx => { let x = match r.below(4) { 0 => logu(r, 1e-10, 0.2), 1 => uni(r, 0.0, 30.0), 2 => uni(r, 0.1, 6.0), _ => logu(r, 10.0, 1e8) }; [b(sgn(r, 0.4, x)), 0, 0] }
        F::InvErf => { let x = prob(r); [b(sgn(r, 0.4, x)), 0, 0] }
        F::InvErfc => { let x = prob(r) * 2.0; [b(x), 0, 0] }
        F::Dawson => { let x = match r.below(3) { 0 => logu(r, 1e-8, 0.3), _ => uni(r, 0.1, 50.0) }; [b(sgn(r, 0.4, x)), 0, 0] }
        F::Faddeeva => {
            let g = |r: &mut Rng| match r.below(12) { 0 | 1 => 0.0, 2 | 3 => logu(r, 1e-10, 1.0), 4 | 5 => uni(r, 0.0, 8.0), 6 | 7 => logu(r, 1.0, 100.0), 8 | 9 => logu(r, 1.0, 1e9), 10 => logu(r, 1e6, 1e300), _ => special(r) };
            let (mut x, mut y) = (g(r), g(r));
            if r.p(0.25) { // both of much the same size
                let s = match r.below(3) { 0 => logu(r, 1e-4, 1.0), 1 => logu(r, 1.0, 1e8), _ => logu(r, 1e7, 1e160) };
                (x, y) = (s, s * logu(r, 1e-6, 1.0));
                if r.p(0.5) { std::mem::swap(&mut x, &mut y); }
            }
            let x = sgn(r, 0.4, x);
            [b(x), b(sgn(r, 0.3, y)), 0]
        }
        F::BesselJY | F::BesselIK | F::JnuYnu | F::InuKnu => { let n = order(r); [b(n), b(barg(r)), 0] }
        F::Jn | F::Yn | F::In | F::Kn => {
            let n = match r.below(9) { 0 | 1 => r.below(2), 2 | 3 => r.range(2, 12), 4 | 5 => r.range(10, 120), 6 => r.range(100, 2000), _ => r.range(2, 40) };
            let x = match r.below(5) { 0 => { let l = if r.p(0.2) { 1e-300 } else { 1e-6 }; logu(r, l, 1.0) }, 1 => uni(r, 0.0, 8.5), 2 => uni(r, 7.0, 60.0), 3 => { let h = if r.p(0.1) { 1e6 } else { 600.0 }; logu(r, 20.0, h) }, _ => r.range(1, 40) as f64 };
            [n, b(if matches!(f, F::Jn | F::In) { sgn(r, 0.3, x) } else { x }), 0]
        }
        F::LambertW => { let k = r.range(0, 8) as i64 - 4; let x = uni(r, -10.0, 10.0); [k as u64, b(x), b(uni(r, -10.0, 10.0))] }
        F::LambertW0 | F::SpLambertW0 => { let x = match r.below(3) { 0 => -logu(r, 1e-6, 0.3678), 1 => uni(r, 0.0, 10.0), _ => logu(r, 1.0, 1e20) }; [b(x), 0, 0] }
        F::LambertWm1 | F::SpLambertWm1 => { let x = logu(r, 1e-12, 0.3678); [b(-x), 0, 0] }
        F::Factorial => [r.range(0, 190), 0, 0],
        F::Frexp => { let x = match r.below(4) { 0 => special(r), 1 => logu(r, 1e-323, 1e-300), _ => logu(r, 1e-300, 1e300) }; [b(sgn(r, 0.4, x)), 0, 0] }
        F::Ldexp => { let x = match r.below(5) { 0 => special(r), 1 => logu(r, 1e-300, 1e300), _ => logu(r, 1e-50, 1e50) }; let e = if r.p(0.3) { r.range(0, 4400) as i64 - 2200 } else { r.range(0, 400) as i64 - 200 }; [b(sgn(r, 0.4, x)), e as u64, 0] }
        F::Sign => { let x = special(r); [b(uni(r, -10.0, 10.0)), b(x), 0] }
    }
}

/// Change one argument into something easily confused with it.
fn confuse(x: u64, r: &mut Rng) -> u64 {
    let v = f64::from_bits(x);
    let pm = if r.p(0.5) { 1.0 } else { -1.0 };
    match r.below(13) {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        2 => b(v * (1.0 + pm * 10f64.powi(-(r.range(5, 15) as i32)))),
        3 => b(v as f32 as f64),
        4 => b(-v),
        5 => x ^ (1 << r.below(52)),
        6 => x ^ r.below(1 << 32),
        7 => b(v + pm),
        8 => b(v * 2.0),
        9 => b(v.trunc()),
        10 => b((v * 1e6).round() / 1e6),
        11 => b(v + pm * 1e-9),
        _ => x ^ (1 << r.range(44, 52)),
    }
}
fn limit(f: F, a: &mut [u64; 3]) {
    // keep orders within what terminates soon (termination for absurd orders is a property of its own)
    match f {
        F::BesselJY | F::BesselIK | F::JnuYnu | F::InuKnu => { if f64::from_bits(a[0]).abs() > 5000.0 { a[0] = b(37.5); } if f64::from_bits(a[1]).abs() > 1e5 { a[1] = b(1e5); } }
        F::Jn | F::Yn | F::In | F::Kn => { a[0] %= 2000; }
        F::Factorial => a[0] %= 400,
        F::LambertW => a[0] = ((a[0] as i64 as i32) % 50) as i64 as u64,
        F::Ldexp => a[1] = ((a[1] as i64 as i32) % 3000) as i64 as u64,
        _ => {}
    }
}
/// Arguments as people write them: whole, half, tenth.
fn round(f: F, a: &mut [u64; 3], r: &mut Rng) {
    for (i, s) in sut::SIGS[f as usize].bytes().enumerate() {
        if s != b'f' || r.p(0.3) { continue; }
        let v = f64::from_bits(a[i]);
        let k = *r.pick(&[1.0, 2.0, 2.0, 4.0, 10.0, 100.0]);
        let w = (v * k).round() / k;
        if v.abs() < 1e9 && (w != 0.0 || r.p(0.3)) { a[i] = b(w); }
    }
}
fn family(f: F, r: &mut Rng, n: usize) -> Vec<[u64; 3]> {
    let sig = sut::SIGS[f as usize].as_bytes();
    let mut base = sample(f, r);
    if r.p(0.35) { round(f, &mut base, r); limit(f, &mut base); }
    let mut v = vec![base];
    if r.p(0.2) { // a table: one argument in equal steps
        let i = r.below(sig.len() as u64) as usize;
        let x = f64::from_bits(base[i]);
        let h = *r.pick(&[1.0, 1.0, 0.5, 0.1, 0.01, x * 0.01, x * 1e-4]);
        let k = r.range(1, 3);
        for j in 1..n as u64 * 3 / 4 {
            let mut a = base;
            a[i] = if sig[i] == b'f' { b(x + j as f64 * h) } else { a[i].wrapping_add(j * k) };
            limit(f, &mut a);
            v.push(a);
        }
    }
    while v.len() < n {
        let mut a = *r.pick(&v);
        match r.below(10) {
            0 => { // probably unacceptable
                let i = r.below(sig.len() as u64) as usize;
                a[i] = if sig[i] == b'f' { match r.below(3) { 0 => b(-f64::from_bits(a[i]).abs()), 1 => b(special(r)), _ => b(f64::NAN) } } else { r.below(500) };
            }
            1 => { a = sample(f, r); if r.p(0.35) { round(f, &mut a, r); } }
            2 if sig.len() > 1 => {
                // same bits in one argument, a fresh other one
                let fresh = sample(f, r);
                let i = r.below(sig.len() as u64) as usize;
                a[i] = fresh[i];
            }
            3 if sig.len() > 1 && sig[0] == sig[1] => a.swap(0, 1),
            _ => {
                let i = r.below(sig.len() as u64) as usize;
                a[i] = if sig[i] == b'f' { confuse(a[i], r) } else { match r.below(4) { 0 => a[i].wrapping_add(1), 1 => a[i].saturating_sub(1), 2 => a[i] * 2, _ => a[i].wrapping_add(r.below(64)) } };
            }
        }
        limit(f, &mut a);
        v.push(a);
    }
    v
}
/// Argument pairs for the caches, including every kind of near-collision.
fn pair_family(r: &mut Rng, n: usize, dear: bool) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = vec![(b(order(r)), b(if dear { logu(r, 500.0, 10_000.0) } else { barg(r) }))];
    if dear { v.push((b(logu(r, 4000.0, 40_000.0)), b(logu(r, 0.05, 100.0)))); v.push((b((r.range(8000, 60_000) as f64) * 0.5), v[1].1)); }
    let neg = 1u64 << 63;
    if !dear && r.p(0.15) { // a table: consecutive orders for a few arguments, or one order for arguments in equal steps
        let (nu, x) = (f64::from_bits(v[0].0), f64::from_bits(v[0].1));
        let (nu, h) = if r.p(0.7) { (if r.p(0.3) { (nu * 2.0).round() * 0.5 } else { nu }, *r.pick(&[1.0, 1.0, 1.0, 0.5, 0.1])) } else { (nu, 0.0) };
        let hx = *r.pick(&[0.0, 1.0, 0.25, 0.1, x * 0.01]);
        v[0].0 = b(nu);
        for j in 0..n as u64 - 3 {
            let p = (b(nu + (j % 6) as f64 * h), b(x + if h == 0.0 { j as f64 * 0.1 } else { (j / 6) as f64 * hx }));
            if !v.contains(&p) { v.push(p); }
        }
    }
    while v.len() < n {
        let (mut nu, mut x) = *r.pick(&v);
        match r.below(20) {
            16 => { // both zeros with the same other argument
                if v.contains(&(b(0.0), x)) || v.contains(&(b(-0.0), x)) { continue; }
                v.push((b(0.0), x));
                nu = b(-0.0);
            }
            17 | 18 => { // crosswise
                let (p, q) = *r.pick(&v);
                if p == nu || q == x { continue; }
                if !v.contains(&(p, x)) { v.push((p, x)); }
                x = q;
            }
            19 => { // equal after a rotation of one part
                let (d, k) = if r.p(0.5) { (r.below(1 << 20) << r.below(12), r.range(1, 31)) } else { (r.below(1 << 20), *r.pick(&[32, 32, 16, 24, 5, 7, 29, 31, 33, 37, 40])) };
                let k = k as u32;
                nu ^= d;
                x ^= d.rotate_left(k);
            }
            0 => { nu = b(0.0); }
            1 => { nu = b(-0.0); }
            2 => { std::mem::swap(&mut nu, &mut x); }
            3 => { let d = r.below(1 << 40); nu ^= d; x ^= d; }            // equal under XOR of the parts
            4 => { let d = r.below(1 << 40); nu = nu.wrapping_add(d); x = x.wrapping_sub(d); } // equal under addition
            5 => { let d = r.below(1 << 20); nu = nu.wrapping_add(d); x = x.wrapping_sub(d.wrapping_mul(31)); } // equal under 31*nu + x
            6 => { x ^= neg; }                                           // rejected
            7 => { nu ^= neg; }
            8 => { let k = r.below(1 << 51) | 1; if r.p(0.5) { nu = 0x7ff8_0000_0000_0000 | k } else { x = 0x7ff8_0000_0000_0000 | k } }
            9 => { if r.p(0.5) { x = b(*r.pick(&[0.0, -0.0, f64::INFINITY, 5e-324, 1e-310, 1e7, 9e4])) } else { nu = b(*r.pick(&[f64::INFINITY, 5e-324, 1e-310, 2e-16])) } }
            10 => { nu = b(order(r)); }
            11 => { x = b(barg(r)); if r.p(0.3) { x = b((f64::from_bits(x) * 4.0).ceil() * 0.25); } }
            12 => { nu = b(order(r)); x = b(barg(r)); }
            _ => if r.p(0.5) { nu = confuse(nu, r) } else { x = confuse(x, r) },
        }
        if f64::from_bits(nu).abs() > if dear { 70_000.0 } else { 2000.0 } && f64::from_bits(nu).is_finite() { nu = b(17.25); }
        if !v.contains(&(nu, x)) { v.push((nu, x)); }
    }
    v
}

/// Calls that take long because an argument is large.
fn steep(f: F, r: &mut Rng) -> [u64; 3] {
    match f {
        F::Factorial => [r.range(500, 60_000), 0, 0],
        F::Jn | F::Yn | F::In | F::Kn => { let x = if r.p(0.5) { logu(r, 1e-2, 10.0) } else { logu(r, 10.0, 1e5) }; [r.range(1000, 30_000), b(x), 0] }
        _ => { let n = logu(r, 1000.0, 30_000.0); let n = if r.p(0.3) { (n * 2.0).round() * 0.5 } else { n }; let x = if r.p(0.5) { logu(r, 0.05, 10.0) } else { logu(r, 10.0, 1e4) }; [b(n), b(x), 0] }
    }
}
pub fn generate(seed: u64, scale: usize, far: bool) -> Pool {
    let mut r = Rng::new(mix(seed, 0x9001));
    let mut fams = vec![];
    let mut by_f = vec![vec![]; ALL.len()];
    for &f in ALL {
        let heavy = if matches!(f, F::Gammp | F::Gammq | F::InvGammp | F::Faddeeva | F::BesselJY | F::BesselIK | F::Betai) { 3 } else { 1 };
        for _ in 0..8 * scale * heavy {
            let v = family(f, &mut r, 8).into_iter().map(|a| CallSpec { f, a, exp: Res { st: 2, ..Default::default() } }).collect();
            by_f[f as usize].push(fams.len());
            fams.push(Family { v });
        }
    }
    if far { for f in [F::Factorial, F::Jn, F::Yn, F::In, F::Kn, F::BesselJY, F::BesselIK, F::JnuYnu, F::InuKnu] {
        for _ in 0..6 * scale {
            by_f[f as usize].push(fams.len());
            fams.push(Family { v: (0..4).map(|_| CallSpec { f, a: steep(f, &mut r), exp: Res { st: 2, ..Default::default() } }).collect() });
        }
    } }
    let mk = |(nu, x)| PairSpec { nu, x, exp: [Res { st: 2, ..Default::default() }; 4] };
    let pairs = (0..60 * scale).map(|_| pair_family(&mut r, 16, false).into_iter().map(mk).collect()).collect();
    let dear = (0..10 * scale).flat_map(|_| pair_family(&mut r, 12, true)).map(mk).collect();
    Pool { fams, by_f, pairs, dear }
}
impl Pool {
    fn tasks(&self) -> Vec<(F, [u64; 3])> {
        let mut t: Vec<(F, [u64; 3])> = self.fams.iter().flat_map(|f| f.v.iter().map(|c| (c.f, c.a))).collect();
        for p in self.pairs.iter().flatten().chain(&self.dear) {
            for f in KIND_F { t.push((f, [p.nu, p.x, 0])); }
        }
        t
    }
    pub fn evaluate(&mut self, workers: usize, with_calls: bool, with_pairs: bool) -> u64 {
        let nc: usize = self.fams.iter().map(|f| f.v.len()).sum();
        let tasks = self.tasks();
        let mut done = 0;
        let mut want = vec![false; tasks.len()];
        for (i, w) in want.iter_mut().enumerate() { *w = if i < nc { with_calls } else { with_pairs }; done += *w as u64; }
        let res = crate::pristine_many(&tasks, &want, workers);
        let mut it = res.into_iter();
        for c in self.fams.iter_mut().flat_map(|f| f.v.iter_mut()) { c.exp = it.next().unwrap(); }
        for p in self.pairs.iter_mut().flatten().chain(&mut self.dear) { for k in 0..4 { p.exp[k] = it.next().unwrap(); } }
        // leave out what cannot be used
        for f in &mut self.fams { f.v.retain(|c| c.exp.st != 2); }
        for p in &mut self.pairs { p.retain(|p| p.exp.iter().all(|e| e.st != 2)); }
        let cheap: Vec<PairSpec> = self.pairs.iter().flatten().cloned().collect();
        self.dear.extend(cheap);
        self.dear.retain(|p| p.exp.iter().all(|e| e.st != 2) && p.exp.iter().any(|e| e.steps > 4000));
        for v in &mut self.by_f { let fams = &self.fams; v.retain(|&i| !fams[i].v.is_empty()); }
        self.pairs.retain(|p| p.len() >= 3);
        done
    }
}
#[allow(dead_code)]
pub fn pristine(f: F, a: [u64; 3]) -> Res { run_one(f, a) }
pub fn run_one(f: F, a: [u64; 3]) -> Res {
    match crate::fork_run(|| run::pristine_child(f, a, CALL_CAP)) {
        crate::Ended::Status => run::out().res,
        _ => Res { st: 2, ..Default::default() },
    }
}
