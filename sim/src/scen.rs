//! Scenarios: everything one simulated run does, as plain data.  A replay file is a printed scenario.
use crate::rt::{Dec, Env, Policy};
use sut::F;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Res {
    /// 0 = returned, 1 = panicked, 2 = excluded (too long / crashed)
    pub st: u8,
    pub bits: [u64; 4],
    pub steps: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct CallSpec {
    pub f: F,
    pub a: [u64; 3],
    pub exp: Res,
}
#[derive(Clone, Debug, PartialEq)]
pub struct PairSpec {
    pub nu: u64,
    pub x: u64,
    pub exp: [Res; 4],
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum K {
    Call, Unwind, Teardown, Burst, New, Drop, Lookup, Bulk, Get, Contains, Len, IsEmpty, Clear, Shrink, Reserve,
    Retain, Clone, CloneFrom, Eq, Fmt, Audit, Clock, NoMem, UnwindLookup, BulkCheck, FillNoMem, Spray, Irq, Again, Visitors, Swap, FpMode, Crowd,
}
pub const KN: &[(K, &str)] = &[
    (K::Call, "call"), (K::Unwind, "call-while-unwinding"), (K::Teardown, "call-at-thread-exit"), (K::Burst, "burst"),
    (K::New, "new"), (K::Drop, "drop"), (K::Lookup, "lookup"), (K::Bulk, "bulk-lookup"), (K::Get, "get"),
    (K::Contains, "contains"), (K::Len, "len"), (K::IsEmpty, "is_empty"), (K::Clear, "clear"), (K::Shrink, "shrink_to_fit"),
    (K::Reserve, "reserve"), (K::Retain, "retain"), (K::Clone, "clone"), (K::CloneFrom, "clone_from"), (K::Eq, "eq"),
    (K::Fmt, "fmt"), (K::Audit, "audit"), (K::Clock, "clock-jump"), (K::NoMem, "memory"), (K::UnwindLookup, "lookup-while-unwinding"),
    (K::BulkCheck, "bulk-check"), (K::FillNoMem, "fill-without-memory"), (K::Spray, "many-different-calls"), (K::Irq, "interrupt"), (K::Again, "repeat"), (K::Visitors, "short-lived-threads"),
    (K::Swap, "swap"), (K::FpMode, "floating-point-mode"), (K::Crowd, "crowd"),
];
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub p: [u64; 5],
}
pub fn op(k: K, p: &[u64]) -> Op {
    let mut q = [0; 5];
    q[..p.len()].copy_from_slice(p);
    Op { k, p: q }
}
/// refuse the k-th allocation from now on (and, if sticky, all later ones of the operation)
pub fn deny(k: u64, sticky: bool) -> u64 { (k + 1) | ((sticky as u64) << 32) }

#[derive(Clone, Debug, PartialEq)]
pub struct Scen {
    pub prop: u8,
    pub seed: u64,
    pub calls: Vec<CallSpec>,
    pub pairs: Vec<PairSpec>,
    pub slots: usize,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    /// (thread, step, n): suspend it inside a call at or after that step, or at its n-th access to static memory
    pub stalls: Vec<(usize, u64, u64)>,
    pub resume: bool,
    /// threads run one after another, each fully exiting before the next starts
    pub sequential: bool,
    /// every thread performs its operations this many times (leak checks)
    pub loops: u64,
    pub policy: Policy,
    pub hotp: f64,
    pub boundp: f64,
    pub env: Env,
    /// second environment (twin runs)
    pub env2: Option<Env>,
    pub decs: Vec<Dec>,
}
impl Scen {
    pub fn empty(prop: u8, seed: u64) -> Scen {
        Scen {
            prop, seed, calls: vec![], pairs: vec![], slots: 0, setup: vec![], threads: vec![], stalls: vec![], resume: true,
            sequential: false, loops: 1, policy: Policy::Serial, hotp: 0.0, boundp: 0.3,
            env: Env { tick: 1, ..Default::default() }, env2: None, decs: vec![],
        }
    }
    pub fn nops(&self) -> usize { self.setup.len() + self.threads.iter().map(|t| t.len()).sum::<usize>() }
}

fn fargs(f: F, a: &[u64; 3]) -> String {
    sut::SIGS[f as usize].bytes().enumerate()
        .map(|(i, c)| if c == b'i' { format!("{}", a[i] as i64) } else { format!("{:?}", f64::from_bits(a[i])) })
        .collect::<Vec<_>>().join(", ")
}
pub fn show_call(c: &CallSpec) -> String { format!("{}({})", sut::NAMES[c.f as usize], fargs(c.f, &c.a)) }
pub fn show_pair(p: &PairSpec) -> String { format!("(nu={:?}, x={:?})", f64::from_bits(p.nu), f64::from_bits(p.x)) }
pub fn kname(k: K) -> &'static str { KN.iter().find(|e| e.0 == k).unwrap().1 }

pub fn show_op(s: &Scen, o: &Op) -> String {
    let mut r = kname(o.k).to_string();
    let pair = |i: u64| s.pairs.get(i as usize).map(show_pair).unwrap_or_default();
    match o.k {
        K::Visitors => r += &format!(" {} of them, each making one of {} calls from {} on", o.p[0], o.p[2], o.p[1]),
        K::Spray => if let Some(c) = s.calls.get(o.p[0] as usize) { r += &format!(" {} and {} more, argument {} advancing by {:#x} bits", show_call(c), o.p[3], o.p[1], o.p[2]) },
        K::Irq => {
            r += &match o.p[0] { 0 => format!(" the calls that follow after {} steps", o.p[1]), 1 => format!(" at allocation {}", o.p[1]), _ => " when a panic is reported".into() };
            let i = (o.p[2] & 0xffff).wrapping_sub(1) as usize;
            if o.p[2] == crate::run::PROBE { r += ", to see whether the panic hook is in place" }
            else if o.p[2] >> 32 == 0 { if let Some(c) = s.calls.get(i) { r += &format!(", to call {}", show_call(c)) } }
            else if o.p[2] >> 44 & 1 != 0 { r += &format!(", to read the cache that is being read, and {} in it", pair(i as u64)) }
            else { r += &format!(", to look up {} in a fresh {}", pair(i as u64), sut::KIND_NAMES[(o.p[2] >> 33 & 3) as usize]) }
        }
        K::Unwind | K::Teardown if o.p[1] != 0 => r += &format!(", of a fresh {} with {}", sut::KIND_NAMES[(o.p[1] >> 33 & 3) as usize], pair((o.p[1] & 0xffff).wrapping_sub(1))),
        K::Call | K::Unwind | K::Teardown => if let Some(c) = s.calls.get(o.p[0] as usize) { r += &format!(" {}", show_call(c)) },
        K::Get if o.p[2] != 0 => r += &format!(" slot{} {}, keeping the reference during other reads", o.p[0], pair(o.p[1])),
        K::Lookup | K::UnwindLookup | K::Get | K::Contains => r += &format!(" slot{} {}", o.p[0], pair(o.p[1])),
        K::Again => r += &format!(" the last {} operation(s) {} more times", o.p[1].max(1), o.p[0]),
        K::Crowd => r += &format!(" of {} {} slot{}, {}", o.p[1], if o.p[3] & 2 != 0 { "clones of the cache in" } else { "new caches of the kind in" }, o.p[0], if o.p[3] & 1 != 0 { "all alive together" } else { "one after another" }),
        K::FpMode => r += &format!(" of the calls that follow: control bits {:#x}, x87 {:#x}", o.p[0] & 0xffff, o.p[0] >> 16),
        K::Clock | K::NoMem | K::Burst => r += &format!(" {:?}", o.p),
        _ => r += &format!(" slot{} {:?}", o.p[0], &o.p[1..]),
    }
    r
}

fn env_line(n: &str, e: &Env) -> String {
    format!("{} {:x} {:x} {:x} {:x} {:x} {:x} {:x} {:x} {:x}\n", n, e.rand_seed, e.clock_base, e.tick, e.junk, e.arena_off, e.entropy_faults, e.tid_shift, e.envvar, e.jump)
}
pub fn print(s: &Scen, note: &str) -> String {
    let mut o = String::new();
    o += "psim-replay 1\n";
    if crate::checked_build() { o += "build checked\n"; }
    for l in note.lines() { o += &format!("# {}\n", l); }
    o += &format!("property C{:02}\nseed {:x}\nslots {}\nresume {}\nsequential {}\nloops {}\n", s.prop, s.seed, s.slots, s.resume as u8, s.sequential as u8, s.loops);
    let pol = match s.policy { Policy::Rand(m) => format!("rand {}", m), Policy::Pct(m) => format!("pct {}", m), Policy::Serial => "serial 0".into(), Policy::Replay => "replay 0".into() };
    o += &format!("policy {}\nhotp {:x}\nboundp {:x}\n", pol, s.hotp.to_bits(), s.boundp.to_bits());
    o += &env_line("env", &s.env);
    if let Some(e) = &s.env2 { o += &env_line("env2", e); }
    for c in &s.calls { o += &format!("call {} {:x} {:x} {:x}  # {}\n", sut::NAMES[c.f as usize], c.a[0], c.a[1], c.a[2], show_call(c)); }
    for p in &s.pairs { o += &format!("pair {:x} {:x}  # {}\n", p.nu, p.x, show_pair(p)); }
    for (t, st, h) in &s.stalls { o += &format!("stall {} {} {}\n", t, st, h); }
    let ops = |o: &mut String, v: &[Op]| for q in v {
        *o += &format!(" {} {:x} {:x} {:x} {:x} {:x}  # {}\n", kname(q.k), q.p[0], q.p[1], q.p[2], q.p[3], q.p[4], show_op(s, q));
    };
    o += "setup\n";
    ops(&mut o, &s.setup);
    for t in &s.threads { o += "thread\n"; ops(&mut o, t); }
    for d in &s.decs { o += &format!("switch {} {} {}\n", d.t, d.step, d.to); }
    o
}
pub fn parse(txt: &str) -> Result<Scen, String> {
    let mut s = Scen::empty(0, 0);
    let mut cur: Option<usize> = None; // None = setup
    for (ln, l) in txt.lines().enumerate() {
        let code = l.split('#').next().unwrap();
        let w: Vec<&str> = code.split_whitespace().collect();
        if w.is_empty() { continue; }
        let bad = || format!("line {}: {}", ln + 1, l);
        let h = |i: usize| -> Result<u64, String> { u64::from_str_radix(w.get(i).ok_or_else(bad)?, 16).map_err(|_| bad()) };
        let d = |i: usize| -> Result<u64, String> { w.get(i).ok_or_else(bad)?.parse::<u64>().map_err(|_| bad()) };
        if code.starts_with(' ') {
            let k = KN.iter().find(|e| e.1 == w[0]).ok_or_else(bad)?.0;
            let o = Op { k, p: [h(1)?, h(2)?, h(3)?, h(4)?, h(5)?] };
            match cur { None => s.setup.push(o), Some(t) => s.threads[t].push(o) }
            continue;
        }
        let env = || -> Result<Env, String> { Ok(Env { rand_seed: h(1)?, clock_base: h(2)?, tick: h(3)?, junk: h(4)?, arena_off: h(5)?, entropy_faults: h(6)?, tid_shift: h(7)?, envvar: h(8)?, jump: if w.len() > 9 { h(9)? } else { 0 } }) };
        match w[0] {
            "psim-replay" | "build" => {}
            "property" => s.prop = w[1][1..].parse().map_err(|_| bad())?,
            "seed" => s.seed = h(1)?,
            "slots" => s.slots = d(1)? as usize,
            "resume" => s.resume = d(1)? != 0,
            "sequential" => s.sequential = d(1)? != 0,
            "loops" => s.loops = d(1)?,
            "policy" => s.policy = match w[1] { "rand" => Policy::Rand(d(2)?), "pct" => Policy::Pct(d(2)?), "serial" => Policy::Serial, _ => Policy::Replay },
            "hotp" => s.hotp = f64::from_bits(h(1)?),
            "boundp" => s.boundp = f64::from_bits(h(1)?),
            "env" => s.env = env()?,
            "env2" => s.env2 = Some(env()?),
            "call" => {
                let f = sut::NAMES.iter().position(|n| *n == w[1]).ok_or_else(bad)?;
                s.calls.push(CallSpec { f: sut::ALL[f], a: [h(2)?, h(3)?, h(4)?], exp: Res::default() });
            }
            "pair" => s.pairs.push(PairSpec { nu: h(1)?, x: h(2)?, exp: Default::default() }),
            "stall" => s.stalls.push((d(1)? as usize, d(2)?, d(3)?)),
            "setup" => cur = None,
            "thread" => { s.threads.push(vec![]); cur = Some(s.threads.len() - 1); }
            "switch" => s.decs.push(Dec { t: d(1)? as u32, step: d(2)?, to: d(3)? as u32 }),
            _ => return Err(bad()),
        }
    }
    Ok(s)
}
