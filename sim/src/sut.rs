//! Thin, non-generic adapter over the whole public API of puruspe.  It is compiled with the same
//! instrumentation as puruspe itself, so that generic and `#[inline]` code instantiated here has
//! scheduling points too.  It contains no logic of its own.
use puruspe::*;
use std::fmt::Write;

pub type Bits = [u64; 4];

macro_rules! fns {
    ($($v:ident $n:literal $s:literal $a:literal),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum F { $($v),* }
        pub const ALL: &[F] = &[$(F::$v),*];
        /// signature string: one letter per argument, f = f64, i = integer
        pub const SIGS: &[&str] = &[$($s),*];
        pub const NAMES: &[&str] = &[$($n),*];
        /// allocates scratch memory? (informational only)
        pub const ALLOCS: &[bool] = &[$($a),*];
    };
}
fns! {
    Gamma "gamma" "f" false, LnGamma "ln_gamma" "f" false, Gammp "gammp" "ff" true, Gammq "gammq" "ff" true,
    InvGammp "invgammp" "ff" true, Beta "beta" "ff" false, Betai "betai" "fff" false, InvBetai "invbetai" "fff" false,
    Erf "erf" "f" false, Erfc "erfc" "f" false, Erfcx "erfcx" "f" false, InvErf "inverf" "f" false, InvErfc "inverfc" "f" false,
    Dawson "dawson" "f" false, Faddeeva "faddeeva" "ff" false,
    BesselJY "besseljy" "ff" false, BesselIK "besselik" "ff" false, JnuYnu "Jnu_Ynu" "ff" false, InuKnu "Inu_Knu" "ff" false,
    Jn "Jn" "if" false, Yn "Yn" "if" false, In "In" "if" false, Kn "Kn" "if" false,
    LambertW "lambert_w" "iff" false, LambertW0 "lambert_w0" "f" false, LambertWm1 "lambert_wm1" "f" false,
    SpLambertW0 "sp_lambert_w0" "f" false, SpLambertWm1 "sp_lambert_wm1" "f" false,
    Factorial "factorial" "i" false, Frexp "frexp" "f" false, Ldexp "ldexp" "fi" false, Sign "sign" "ff" false,
}

#[inline]
fn b(x: f64) -> u64 {
    if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() }
}
fn r1(x: f64) -> Bits { [b(x), 0, 0, 0] }
fn r2(x: (f64, f64)) -> Bits { [b(x.0), b(x.1), 0, 0] }
fn r4(x: (f64, f64, f64, f64)) -> Bits { [b(x.0), b(x.1), b(x.2), b(x.3)] }

pub fn call(f: F, a: &[u64; 3]) -> Bits {
    let x = f64::from_bits(a[0]);
    let y = f64::from_bits(a[1]);
    let z = f64::from_bits(a[2]);
    match f {
        F::Gamma => r1(gamma(x)),
        F::LnGamma => r1(ln_gamma(x)),
        F::Gammp => r1(gammp(x, y)),
        F::Gammq => r1(gammq(x, y)),
        F::InvGammp => r1(invgammp(x, y)),
        F::Beta => r1(beta(x, y)),
        F::Betai => r1(betai(x, y, z)),
        F::InvBetai => r1(invbetai(x, y, z)),
        F::Erf => r1(erf(x)),
        F::Erfc => r1(erfc(x)),
        F::Erfcx => r1(erfcx(x)),
        F::InvErf => r1(inverf(x)),
        F::InvErfc => r1(inverfc(x)),
        F::Dawson => r1(dawson(x)),
        F::Faddeeva => r2(faddeeva(x, y)),
        F::BesselJY => r4(besseljy(x, y)),
        F::BesselIK => r4(besselik(x, y)),
        F::JnuYnu => r2(Jnu_Ynu(x, y)),
        F::InuKnu => r2(Inu_Knu(x, y)),
        F::Jn => r1(Jn(a[0] as u32, y)),
        F::Yn => r1(Yn(a[0] as u32, y)),
        F::In => r1(In(a[0] as u32, y)),
        F::Kn => r1(Kn(a[0] as u32, y)),
        F::LambertW => r2(lambert_w(a[0] as i64 as i32, y, z)),
        F::LambertW0 => r1(lambert_w0(x)),
        F::LambertWm1 => r1(lambert_wm1(x)),
        F::SpLambertW0 => r1(sp_lambert_w0(x)),
        F::SpLambertWm1 => r1(sp_lambert_wm1(x)),
        F::Factorial => r1(utils::factorial(a[0] as usize)),
        F::Frexp => {
            let (m, e) = utils::frexp(x);
            [b(m), e as i64 as u64, 0, 0]
        }
        F::Ldexp => r1(utils::ldexp(x, a[1] as i64 as i32)),
        F::Sign => r1(utils::sign(x, y)),
    }
}

/// 0 = besseljy, 1 = besselik, 2 = Jnu_Ynu, 3 = Inu_Knu
pub const KIND_F: [F; 4] = [F::BesselJY, F::BesselIK, F::JnuYnu, F::InuKnu];
pub const KIND_NAMES: [&str; 4] = ["CachedBesselJY", "CachedBesselIK", "CachedJnuYnu", "CachedInuKnu"];

pub enum Cache {
    JY(CachedBesselJY),
    IK(CachedBesselIK),
    J(CachedJnuYnu),
    I(CachedInuKnu),
}
macro_rules! on {
    ($s:expr, $c:ident => $e:expr) => {
        match $s { Cache::JY($c) => $e, Cache::IK($c) => $e, Cache::J($c) => $e, Cache::I($c) => $e }
    };
}
impl Cache {
    pub fn new(kind: u64) -> Cache {
        match kind {
            0 => Cache::JY(CachedBesselJY::new()),
            1 => Cache::IK(CachedBesselIK::new()),
            2 => Cache::J(CachedJnuYnu::new()),
            _ => Cache::I(CachedInuKnu::new()),
        }
    }
    pub fn default(kind: u64) -> Cache {
        match kind {
            0 => Cache::JY(Default::default()),
            1 => Cache::IK(Default::default()),
            2 => Cache::J(Default::default()),
            _ => Cache::I(Default::default()),
        }
    }
    pub fn with_capacity(kind: u64, n: usize) -> Cache {
        match kind {
            0 => Cache::JY(CachedBesselJY::with_capacity(n)),
            1 => Cache::IK(CachedBesselIK::with_capacity(n)),
            2 => Cache::J(CachedJnuYnu::with_capacity(n)),
            _ => Cache::I(CachedInuKnu::with_capacity(n)),
        }
    }
    pub fn kind(&self) -> u64 {
        match self { Cache::JY(_) => 0, Cache::IK(_) => 1, Cache::J(_) => 2, Cache::I(_) => 3 }
    }
    pub fn lookup(&mut self, nu: f64, x: f64) -> Bits {
        match self {
            Cache::JY(c) => r4(c.besseljy(nu, x)),
            Cache::IK(c) => r4(c.besselik(nu, x)),
            Cache::J(c) => r2(c.Jnu_Ynu(nu, x)),
            Cache::I(c) => r2(c.Inu_Knu(nu, x)),
        }
    }
    pub fn get(&self, nu: f64, x: f64) -> Option<Bits> {
        match self {
            Cache::JY(c) => c.get(nu, x).map(|&v| r4(v)),
            Cache::IK(c) => c.get(nu, x).map(|&v| r4(v)),
            Cache::J(c) => c.get(nu, x).map(|&v| r2(v)),
            Cache::I(c) => c.get(nu, x).map(|&v| r2(v)),
        }
    }
    /// What the reference that `get` gives refers to, before and after `then`.
    pub fn hold(&self, nu: f64, x: f64, then: &mut dyn FnMut()) -> Option<(Bits, Bits)> {
        macro_rules! twice { ($c:expr, $r:ident) => { $c.get(nu, x).map(|v| {
            let a = $r(unsafe { std::ptr::read_volatile(v) });
            then();
            (a, $r(unsafe { std::ptr::read_volatile(v) }))
        }) } }
        match self {
            Cache::JY(c) => twice!(c, r4),
            Cache::IK(c) => twice!(c, r4),
            Cache::J(c) => twice!(c, r2),
            Cache::I(c) => twice!(c, r2),
        }
    }
    pub fn contains(&self, nu: f64, x: f64) -> bool { on!(self, c => c.contains(nu, x)) }
    pub fn len(&self) -> usize { on!(self, c => c.len()) }
    pub fn is_empty(&self) -> bool { on!(self, c => c.is_empty()) }
    pub fn clear(&mut self) { on!(self, c => c.clear()) }
    pub fn shrink(&mut self) { on!(self, c => c.shrink_to_fit()) }
    pub fn reserve(&mut self, n: usize) { on!(self, c => c.reserve(n)) }
    pub fn retain(&mut self, f: &mut dyn FnMut(u64, u64, Bits) -> bool) {
        match self {
            Cache::JY(c) => c.retain(|(n, x), v| f(n.to_bits(), x.to_bits(), r4(v))),
            Cache::IK(c) => c.retain(|(n, x), v| f(n.to_bits(), x.to_bits(), r4(v))),
            Cache::J(c) => c.retain(|(n, x), v| f(n.to_bits(), x.to_bits(), r2(v))),
            Cache::I(c) => c.retain(|(n, x), v| f(n.to_bits(), x.to_bits(), r2(v))),
        }
    }
    pub fn dup(&self) -> Cache {
        match self {
            Cache::JY(c) => Cache::JY(c.clone()),
            Cache::IK(c) => Cache::IK(c.clone()),
            Cache::J(c) => Cache::J(c.clone()),
            Cache::I(c) => Cache::I(c.clone()),
        }
    }
    /// `dst.clone_from(src)`; both must be of the same kind.
    pub fn dup_from(&mut self, src: &Cache) {
        match (self, src) {
            (Cache::JY(d), Cache::JY(s)) => d.clone_from(s),
            (Cache::IK(d), Cache::IK(s)) => d.clone_from(s),
            (Cache::J(d), Cache::J(s)) => d.clone_from(s),
            (Cache::I(d), Cache::I(s)) => d.clone_from(s),
            _ => unreachable!(),
        }
    }
    pub fn same(&self, o: &Cache) -> bool {
        match (self, o) {
            (Cache::JY(d), Cache::JY(s)) => d == s,
            (Cache::IK(d), Cache::IK(s)) => d == s,
            (Cache::J(d), Cache::J(s)) => d == s,
            (Cache::I(d), Cache::I(s)) => d == s,
            _ => unreachable!(),
        }
    }
    pub fn fmt(&self, w: &mut dyn Write, alt: bool) -> std::fmt::Result {
        if alt { on!(self, c => write!(w, "{:#?}", c)) } else { on!(self, c => write!(w, "{:?}", c)) }
    }
}

/// Compile-time facts: may a cache be moved to / shared with another thread?
pub mod auto {
    use super::*;
    use std::marker::PhantomData;
    pub struct W<T>(PhantomData<T>);
    pub trait Fallback { const SEND: bool = false; const SYNC: bool = false; }
    impl<T> Fallback for W<T> {}
    pub struct WS<T>(PhantomData<T>);
    impl<T> Fallback for WS<T> {}
    impl<T: Send> W<T> { pub const SEND: bool = true; }
    impl<T: Sync> WS<T> { pub const SYNC: bool = true; }
    pub fn facts() -> [(bool, bool); 4] {
        [
            (W::<CachedBesselJY>::SEND, WS::<CachedBesselJY>::SYNC),
            (W::<CachedBesselIK>::SEND, WS::<CachedBesselIK>::SYNC),
            (W::<CachedJnuYnu>::SEND, WS::<CachedJnuYnu>::SYNC),
            (W::<CachedInuKnu>::SEND, WS::<CachedInuKnu>::SYNC),
        ]
    }
}

pub fn drop_cache(c: Cache) {
    drop(c)
}
