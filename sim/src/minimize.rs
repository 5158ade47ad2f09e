//! Shrinks a failing scenario and writes the replay file.
use crate::rng::mix;
use crate::rt::{Policy, DEC_CAP};
use crate::run;
use crate::scen::*;
use crate::{judge, Cfg, Verdict};
use std::time::{Duration, Instant};

const DIR: &str = "/verif/replays";

pub struct Min { class: String, until: Instant, tests: u64 }
impl Min {
    fn left(&self) -> bool { Instant::now() < self.until }
    fn fails(&mut self, s: &Scen) -> Option<String> {
        self.tests += 1;
        match judge(s) { Verdict::Viol { class, msg } if class == self.class => Some(msg), _ => None }
    }
    /// Fails as it stands (a recorded schedule), or under some fresh schedule, which is then recorded.
    fn fails_somehow(&mut self, s: &Scen, pol: &Policy, tries: u64) -> Option<Scen> {
        if self.fails(s).is_some() { return Some(s.clone()); }
        if s.threads.len() < 2 || s.env2.is_some() { return None; }
        let mut t = s.clone();
        t.policy = pol.clone();
        t.decs.clear();
        for k in 0..tries {
            if !self.left() { return None; }
            t.seed = mix(s.seed, k + 1);
            if self.fails(&t).is_some() {
                let r = recorded(&t);
                if self.fails(&r).is_some() { return Some(r); }
                return Some(t);
            }
        }
        None
    }
}
/// The scenario with the schedule of the run just made as its recorded schedule.
fn recorded(s: &Scen) -> Scen {
    let o = run::out();
    let mut t = s.clone();
    if s.env2.is_some() || o.ndec as usize >= DEC_CAP { return t; }
    t.policy = Policy::Replay;
    t.decs = o.decs[..o.ndec as usize].to_vec();
    t
}
/// Which parameter names the library call made from inside the operation.
fn inner_at(k: K) -> usize { match k { K::Retain => 4, K::Irq => 2, K::Unwind | K::Teardown => 1, _ => 3 } }
fn inner(o: &Op) -> Option<&u64> { o.p.get(inner_at(o.k)) }
fn remap(s: &mut Scen) {
    // drop calls that no operation refers to
    let uses_all = s.threads.iter().chain([&s.setup]).flatten().any(|o| matches!(o.k, K::Burst | K::Spray | K::Visitors));
    if !uses_all {
        let mut used = vec![false; s.calls.len()];
        for o in s.threads.iter().chain([&s.setup]).flatten() {
            match o.k {
                K::Call | K::Unwind | K::Teardown => if let Some(u) = used.get_mut(o.p[0] as usize) { *u = true },
                K::Retain | K::Irq | K::Fmt => if let Some(u) = inner(o).filter(|c| **c != 0 && **c >> 32 == 0).and_then(|c| used.get_mut((*c & 0xffff) as usize - 1)) { *u = true },
                _ => {}
            }
        }
        let mut map = vec![0u64; s.calls.len()];
        let mut n = 0;
        for i in 0..used.len() { map[i] = n; n += used[i] as u64; }
        let mut i = 0;
        s.calls.retain(|_| { i += 1; used[i - 1] });
        for o in s.threads.iter_mut().flatten().chain(s.setup.iter_mut()) {
            match o.k {
                K::Call | K::Unwind | K::Teardown => if let Some(m) = map.get(o.p[0] as usize) { o.p[0] = *m },
                K::Retain | K::Irq | K::Fmt => {
                    let j = inner_at(o.k);
                    if o.p[j] != 0 && o.p[j] >> 32 == 0 { if let Some(m) = map.get((o.p[j] & 0xffff) as usize - 1) { o.p[j] = *m + 1 } }
                }
                _ => {}
            }
        }
    }
}
fn drop_pair(s: &Scen, i: usize) -> Option<Scen> {
    let mut t = s.clone();
    t.pairs.remove(i);
    for o in t.threads.iter_mut().flatten().chain(t.setup.iter_mut()) {
        match o.k {
            K::Lookup | K::UnwindLookup | K::Get | K::Contains => {
                if o.p[1] == i as u64 { return None; }
                if o.p[1] > i as u64 { o.p[1] -= 1; }
            }
            K::Crowd => return None,
            K::Retain | K::Irq | K::Fmt | K::Unwind | K::Teardown if inner(o).map_or(false, |c| *c >> 32 != 0 && *c != crate::run::PROBE) => return None,
            _ => {}
        }
    }
    Some(t)
}
fn ops(s: &mut Scen, t: usize) -> &mut Vec<Op> { if t == 0 { &mut s.setup } else { &mut s.threads[t - 1] } }

fn shrink(m: &mut Min, mut s: Scen, pol: Policy) -> Scen {
    let mut again = true;
    let mut round = 0;
    while again && round < 6 && m.left() {
        again = false;
        round += 1;
        // whole threads
        for t in 0..s.threads.len() {
            if s.threads[t].is_empty() { continue; }
            let mut c = s.clone();
            c.threads[t].clear();
            if let Some(x) = m.fails_somehow(&c, &pol, 15) { s = x; again = true; }
        }
        // chunks of operations
        for t in 0..=s.threads.len() {
            let mut size = ops(&mut s, t).len().max(1);
            while size >= 1 && m.left() {
                let mut i = 0;
                while i < ops(&mut s, t).len() && m.left() {
                    let mut c = s.clone();
                    let n = ops(&mut c, t).len();
                    ops(&mut c, t).drain(i..(i + size).min(n));
                    match m.fails_somehow(&c, &pol, 15) { Some(x) => { s = x; again = true; } None => i += size }
                }
                if size == 1 { break; }
                size /= 2;
            }
        }
        // simpler operations
        for t in 0..=s.threads.len() {
            for i in 0..ops(&mut s, t).len() {
                let o = ops(&mut s, t)[i];
                let cand: Vec<(usize, u64)> = match o.k {
                    K::Call => vec![(1, 0)],
                    K::Lookup => vec![(2, 0)],
                    K::New => vec![(4, 0), (2, 0)],
                    K::Shrink => vec![(1, 0)],
                    K::Reserve | K::Clone | K::CloneFrom => vec![(2, 0)],
                    K::Retain => vec![(4, 0), (3, 0), (2, 0)],
                    K::Fmt => vec![(2, 0), (3, 0)],
                    K::Irq => vec![(1, 0), (1, o.p[1] / 2), (1, o.p[1].saturating_sub(1))],
                    K::Again => vec![(0, o.p[0] / 2), (0, o.p[0] * 3 / 4), (0, o.p[0].saturating_sub(1)), (1, 1)],
                    K::Crowd => vec![(1, o.p[1] / 2), (1, o.p[1] * 3 / 4), (1, o.p[1].saturating_sub(1)), (4, 0)],
                    K::Visitors => vec![(0, o.p[0] / 2), (0, o.p[0] * 3 / 4), (0, o.p[0].saturating_sub(1)), (2, 1)],
                    K::Spray => vec![(3, 1), (3, o.p[3] / 2)],
                    K::Burst => vec![(2, o.p[2] / 2), (2, o.p[2] * 3 / 4), (2, o.p[2].saturating_sub(1)), (1, 1), (1, o.p[1] / 2)],
                    K::Bulk | K::FillNoMem | K::BulkCheck => vec![(4, o.p[4] / 2), (4, o.p[4] * 3 / 4), (4, o.p[4].saturating_sub(1))],
                    _ => vec![],
                };
                for (j, v) in cand {
                    loop {
                        let cur = ops(&mut s, t)[i].p[j];
                        let v = if matches!(o.k, K::Again | K::Crowd | K::Visitors | K::Burst | K::Bulk | K::FillNoMem | K::BulkCheck) && v > 1 && o.p[j] > 0 { (cur as u128 * v as u128 / o.p[j] as u128) as u64 } else { v };
                        if cur == v || !m.left() { break; }
                        let mut c = s.clone();
                        ops(&mut c, t)[i].p[j] = v;
                        match m.fails_somehow(&c, &pol, 5) { Some(x) => { s = x; again = true; } None => break }
                    }
                }
            }
        }
        // environment and faults
        let mut cands: Vec<Scen> = vec![];
        for i in 0..s.stalls.len() { let mut c = s.clone(); c.stalls.remove(i); cands.push(c); }
        for f in [|e: &mut crate::rt::Env| e.entropy_faults = 0, |e: &mut crate::rt::Env| e.tid_shift = 0, |e: &mut crate::rt::Env| e.envvar = 0, |e: &mut crate::rt::Env| e.arena_off = 0,
            |e: &mut crate::rt::Env| e.clock_base = 0, |e: &mut crate::rt::Env| e.tick = 0, |e: &mut crate::rt::Env| e.junk = 0, |e: &mut crate::rt::Env| e.rand_seed = 0, |e: &mut crate::rt::Env| e.jump = 0] {
            let mut c = s.clone();
            f(&mut c.env);
            if c != s { cands.push(c); }
        }
        if let Some(e2) = &s.env2 {
            let (a, b) = (s.env.clone(), e2.clone());
            let mk = |e: crate::rt::Env| { let mut c = s.clone(); c.env2 = Some(e); c };
            cands.push(mk(crate::rt::Env { rand_seed: a.rand_seed, ..b.clone() }));
            cands.push(mk(crate::rt::Env { clock_base: a.clock_base, ..b.clone() }));
            cands.push(mk(crate::rt::Env { tick: a.tick, ..b.clone() }));
            cands.push(mk(crate::rt::Env { junk: a.junk, ..b.clone() }));
            cands.push(mk(crate::rt::Env { arena_off: a.arena_off, ..b.clone() }));
            cands.push(mk(crate::rt::Env { tid_shift: a.tid_shift, ..b.clone() }));
            cands.push(mk(crate::rt::Env { jump: a.jump, ..b.clone() }));
            cands.push(mk(crate::rt::Env { envvar: a.envvar, ..b }));
        }
        if s.loops > 10 { let mut c = s.clone(); c.loops = 10; cands.push(c); }
        for c in cands {
            if !m.left() { break; }
            // apply the same change to the current scenario
            let mut d = s.clone();
            if c.stalls.len() < d.stalls.len() { d.stalls = c.stalls.clone(); } else if c.loops != d.loops { d.loops = c.loops }
            else if c.env2 != d.env2 { 
                // one field at a time
                let (x, y) = (c.env2.clone().unwrap(), d.env2.clone().unwrap());
                let e = d.env.clone();
                let z = crate::rt::Env {
                    rand_seed: if x.rand_seed == e.rand_seed { x.rand_seed } else { y.rand_seed },
                    clock_base: if x.clock_base == e.clock_base { x.clock_base } else { y.clock_base },
                    tick: if x.tick == e.tick { x.tick } else { y.tick },
                    junk: if x.junk == e.junk { x.junk } else { y.junk },
                    arena_off: if x.arena_off == e.arena_off { x.arena_off } else { y.arena_off },
                    tid_shift: if x.tid_shift == e.tid_shift { x.tid_shift } else { y.tid_shift },
                    envvar: if x.envvar == e.envvar { x.envvar } else { y.envvar },
                    jump: if x.jump == e.jump { x.jump } else { y.jump },
                    entropy_faults: y.entropy_faults,
                };
                d.env2 = Some(z);
            } else { d.env = merge(&d.env, &c.env); }
            if d == s { continue; }
            if let Some(x) = m.fails_somehow(&d, &pol, 3) { s = x; again = true; }
        }
        // argument pairs that are only audited
        let mut i = 0;
        while i < s.pairs.len() && m.left() {
            match drop_pair(&s, i).and_then(|c| m.fails_somehow(&c, &pol, 3)) { Some(x) => { s = x; again = true; } None => i += 1 }
        }
        // the schedule
        if s.policy == Policy::Replay {
            let mut size = (s.decs.len() / 2).max(1);
            while m.left() {
                let mut i = 0;
                while i < s.decs.len() && m.left() {
                    let mut c = s.clone();
                    let n = c.decs.len();
                    c.decs.drain(i..(i + size).min(n));
                    if m.fails(&c).is_some() { s = c; again = true; } else { i += size; }
                }
                if size == 1 { break; }
                size /= 2;
            }
        }
    }
    s
}
fn merge(a: &crate::rt::Env, c: &crate::rt::Env) -> crate::rt::Env {
    let z = |x: u64, y: u64| if y == 0 { 0 } else { x };
    crate::rt::Env {
        rand_seed: z(a.rand_seed, c.rand_seed), clock_base: z(a.clock_base, c.clock_base), tick: z(a.tick, c.tick), junk: z(a.junk, c.junk),
        arena_off: z(a.arena_off, c.arena_off), entropy_faults: z(a.entropy_faults, c.entropy_faults), tid_shift: z(a.tid_shift, c.tid_shift), envvar: z(a.envvar, c.envvar), jump: z(a.jump, c.jump),
    }
}

pub fn report(c: &Cfg, s: Scen, index: u64, seen: &str) -> (String, String) {
    let mut class = String::new();
    let mut msg = String::new();
    let mut rec = s.clone();
    for _ in 0..40 {
        if let Verdict::Viol { class: k, msg: m } = judge(&s) { class = k; msg = m; rec = recorded(&s); break; }
    }
    if class.is_empty() {
        // what the library did was judged as it happened; something outside the simulator's control decides whether it happens
        let note = format!("C{:02} violated: {}\nVERIF_SEED {} run {} (run seed {:#x})\nwarning: it did not fail again in 40 repetitions, so the library depends on something that is not simulated (such as a processor's own clock or identity); not shrunk",
            c.prop, seen, c.seed, index, crate::gen::run_seed(c.prop, c.seed, index));
        let _ = std::fs::create_dir_all(DIR);
        let path = format!("{}/C{:02}-{:016x}.txt", DIR, c.prop, crate::gen::run_seed(c.prop, c.seed, index));
        if let Err(e) = std::fs::write(&path, print(&s, &note)) { crate::die(&format!("{}: {}", path, e)); }
        return (path, note);
    }
    let secs = if c.thorough { 60 } else { 25 };
    let mut m = Min { class: class.clone(), until: Instant::now() + Duration::from_secs(secs), tests: 0 };
    let before = s.nops();
    let pol = s.policy.clone();
    let start = if rec != s && m.fails(&rec).is_some() { rec } else { s.clone() };
    let mut t = shrink(&mut m, start, pol);
    if !t.threads.iter().chain([&t.setup]).flatten().any(|o| matches!(o.k, K::Burst | K::Spray | K::Visitors)) {
        let mut d = t.clone();
        remap(&mut d);
        if m.fails(&d).is_some() { t = d; }
    }
    // the file must fail the same way in a fresh process
    let fin = match judge(&t) { Verdict::Viol { class: k, msg: x } if k == class => { msg = x; t } _ => s };
    let note = format!("C{:02} violated: [{}] {}\nVERIF_SEED {} run {} (run seed {:#x}); shrunk from {} to {} operations in {} replays\nreplay: /verif/check.sh replay <this file>",
        c.prop, class, msg, c.seed, index, crate::gen::run_seed(c.prop, c.seed, index), before, fin.nops(), m.tests);
    let _ = std::fs::create_dir_all(DIR);
    let path = format!("{}/C{:02}-{:016x}.txt", DIR, c.prop, crate::gen::run_seed(c.prop, c.seed, index));
    if let Err(e) = std::fs::write(&path, print(&fin, &note)) { crate::die(&format!("{}: {}", path, e)); }
    let st = std::process::Command::new("/proc/self/exe").args(["replay", &path]).output();
    let again = matches!(&st, Ok(o) if o.status.code() == Some(1));
    let mut txt = note;
    if !again { txt += "\nwarning: a fresh process did not repeat the failure from this file"; }
    (path, txt)
}
pub fn write_fact(c: &Cfg, name: &str, f: (bool, bool)) -> String {
    let _ = std::fs::create_dir_all(DIR);
    let path = format!("{}/C{:02}-fact.txt", DIR, c.prop);
    let _ = std::fs::write(&path, format!("psim-fact 1\nproperty C{:02}\n# {} Send={} Sync={}\n", c.prop, name, f.0, f.1));
    path
}
