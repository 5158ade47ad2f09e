#![feature(alloc_error_hook)]
#![allow(static_mut_refs, dead_code)]
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod evidence;
mod gen;
mod minimize;
mod pool;
mod rng;
mod rt;
mod run;
mod scen;

use run::{Out, OUT};
use scen::{Res, Scen};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn personality(p: u64) -> i32;
    fn alarm(s: u32) -> u32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub const RUN_ALARM: u32 = 240;

pub fn shared<T>(n: usize) -> *mut T {
    let p = unsafe { mmap(std::ptr::null_mut(), n * std::mem::size_of::<T>(), 3, 0x21 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut T
}
pub enum Ended { Status, Signal(i32), Exit(i32) }
/// Run `f` in a forked child of this (single-threaded) process and wait for it.
pub fn fork_run<F: FnOnce()>(f: F) -> Ended {
    let o = run::out();
    o.status = 0;
    o.class_len = 0;
    o.msg_len = 0;
    o.ndec = 0;
    o.nobs = 0;
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            alarm(RUN_ALARM);
            rt::trap_tsc();
            run::install_hooks();
            f();
            run::exit_now(96);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if st & 0x7f != 0 { Ended::Signal(st & 0x7f) } else if run::out().status != 0 { Ended::Status } else { Ended::Exit(st >> 8) }
    }
}
/// Run `f(i)` for i in 0..n in n worker processes.
pub fn workers(n: usize, f: &dyn Fn(usize)) {
    let mut pids = vec![];
    let mut mask = [0u64; 16];
    let got = unsafe { rt::sched_getaffinity(0, 128, mask.as_mut_ptr() as *mut u8) };
    let cpus: Vec<usize> = if got == 0 { (0..1024).filter(|c| mask[c / 64] >> (c % 64) & 1 == 1).collect() } else { vec![] };
    for i in 0..n {
        unsafe {
            let pid = fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                if !cpus.is_empty() {
                    let c = cpus[i % cpus.len()];
                    let mut m = [0u64; 16];
                    m[c / 64] |= 1 << (c % 64);
                    sched_setaffinity(0, 128, m.as_ptr());
                }
                OUT = shared::<Out>(1);
                f(i);
                run::exit_now(0);
            }
            pids.push(pid);
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { while waitpid(p, &mut st, 0) != p {} }
        if st != 0 { die(&format!("worker ended with status {:#x}", st)); }
    }
}
pub fn die(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", m);
    run::exit_now(2)
}
pub fn pristine_many(tasks: &[(sut::F, [u64; 3])], want: &[bool], nw: usize) -> Vec<Res> {
    let res = shared::<Res>(tasks.len().max(1));
    workers(nw, &|w| {
        let mut i = w;
        while i < tasks.len() {
            unsafe { *res.add(i) = if want[i] { pool::run_one(tasks[i].0, tasks[i].1) } else { Res { st: 2, bits: [0; 4], steps: 0 } }; }
            i += nw;
        }
    });
    unsafe { std::slice::from_raw_parts(res, tasks.len()).to_vec() }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict { Ok, Viol { class: String, msg: String }, Foreign { class: String, msg: String } }
fn read_out(e: Ended) -> Verdict {
    let o = run::out();
    match e {
        Ended::Signal(14) => Verdict::Viol { class: "hang".into(), msg: format!("the run did not end within {} s of real time", RUN_ALARM) },
        Ended::Signal(9) => Verdict::Viol { class: "killed".into(), msg: "the process was killed from outside".into() },
        Ended::Signal(n) => Verdict::Viol { class: "crash".into(), msg: format!("the process was killed by signal {}", n) },
        Ended::Exit(97) | Ended::Exit(96) => die("the harness failed inside a run"),
        Ended::Exit(n) => Verdict::Viol { class: "exit".into(), msg: format!("the process exited with code {} in the middle of the run", n) },
        Ended::Status => {
            let class = String::from_utf8_lossy(&o.class[..o.class_len as usize]).to_string();
            let msg = String::from_utf8_lossy(&o.msg[..o.msg_len as usize]).to_string();
            match o.status { run::OK => Verdict::Ok, run::VIOL => Verdict::Viol { class, msg }, _ => Verdict::Foreign { class, msg } }
        }
    }
}
pub fn judge(s: &Scen) -> Verdict {
    let v = read_out(fork_run(|| run::child(s.clone(), false)));
    if v != Verdict::Ok || s.env2.is_none() { return v; }
    let o = run::out();
    let n = o.nobs as usize;
    let first: Vec<u64> = o.obs[..n].to_vec();
    let v = read_out(fork_run(|| run::child(s.clone(), true)));
    if v != Verdict::Ok { return v; }
    let o = run::out();
    let second = &o.obs[..o.nobs as usize];
    if let Some(i) = (0..n.max(second.len())).find(|&i| first.get(i) != second.get(i)) {
        return Verdict::Viol { class: "twin".into(), msg: format!("the same operations in two environments differ, first at observation {} of {}/{} (an observation is one result, panic, membership answer or length)", i, n, second.len()) };
    }
    Verdict::Ok
}

#[repr(C)]
pub struct Board {
    pub next: AtomicU64,
    pub min_viol: AtomicU64,
    pub runs: AtomicU64,
    pub foreign: AtomicU64,
    pub nontrivial: AtomicU64,
    pub distinct: AtomicU64,
    pub threads: AtomicU64,
    pub multi: AtomicU64,
    pub ops: [AtomicU64; 40],
    pub ev: [AtomicU64; run::NEV],
    pub cnt: [AtomicU64; 16],
    pub sim_s: AtomicU64,
    pub sim_frac: AtomicU64,
    /// runs that ended abnormally once and normally when repeated (the machine's doing)
    pub flukes: AtomicU64,
    pub found: [AtomicU64; 8],
    pub msg: [[u8; 1024]; 8],
}
const TABLE: usize = 1 << 22;
fn insert(t: *mut AtomicU64, h: u64, b: &Board) {
    let h = h | 1;
    let mut i = h as usize >> 20 & (TABLE - 1);
    for _ in 0..64 {
        let c = unsafe { &*t.add(i) };
        let v = c.load(Relaxed);
        if v == h { return; }
        if v == 0 {
            match c.compare_exchange(0, h, Relaxed, Relaxed) { Ok(_) => { b.distinct.fetch_add(1, Relaxed); return; } Err(x) if x == h => return, _ => {} }
        }
        i = (i + 1) & (TABLE - 1);
    }
}
pub const CNT_NAMES: [&str; 16] = ["preemptions_inside_calls", "context_switches", "stalls_inside_calls", "allocations_refused", "allocations", "clock_jumps", "clock_reads_by_library",
    "random_draws", "entropy_faults", "futex_blocks", "sleeps", "static_memory_accesses", "heap_accesses", "steps", "environment_variable_reads", "interruptions"];
fn nontrivial(p: u8, s: &Scen, o: &Out) -> bool {
    use run::Ev::*;
    let e = |x: run::Ev| o.ev[x as usize];
    match p {
        1 => e(lookup_hit) > 0 && e(lookup_miss) > 0,
        2 => e(lookup_panic) + e(lookup_out_of_memory) + e(capacity_failed) + e(shrink_failed) + e(clone_failed) + e(writer_error) + e(predicate_panic) > 0,
        3 => e(audit_checks) > 0 && e(lookup_miss) > 0,
        4 => e(retain_kept) + e(retain_dropped) + e(predicate_panic) > 0,
        5 => e(fills_without_memory) > 0 || o.cnt.denied > 0 || e(shrunk_bytes_checked) > 0,
        6 => e(clone_ok) > 0,
        7 => s.threads.len() > 1 && (o.cnt.preempt_in_call > 0 || e(concurrent_reads) > 0),
        8 => e(call_ok) + e(call_panic) + e(call_out_of_memory) >= 2,
        9 => o.cnt.stalls_in_call > 0,
        10 => e(loops_checked) > 0 || e(thread_restarts) > 0,
        11 => e(observations) > 1,
        12 => e(costs_checked) > 1,
        13 => e(effect_checks) > 1,
        15 => e(space_checked) > 1,
        _ => o.cnt.interrupts + e(calls_from_panic_hook) + e(calls_from_writer) + e(reentrant_calls) > 0,
    }
}

pub struct Cfg { pub prop: u8, pub seed: u64, pub thorough: bool, pub nw: usize }
fn budget(p: u8, thorough: bool) -> (u64, usize, u64) {
    // runs, pool scale, wall cap in seconds
    let n: u64 = match p { 1 => 130_000, 2 => 110_000, 3 => 100_000, 4 => 60_000, 5 => 60_000, 6 => 100_000, 7 => 130_000, 8 => 150_000, 9 => 150_000, 10 => 40_000, 11 => 80_000, 12 => 40_000, 13 => 60_000, 15 => 25_000, _ => 200_000 };
    match (thorough, checked_build()) {
        (false, false) => (n, 3, 300),
        (false, true) => (n / 5, 1, 100),
        (true, false) => (n * 12, 12, 520),
        (true, true) => (n * 3, 4, 150),
    }
}
/// The simulator is built twice; in the second build the library has the overflow checks and debug assertions of a debug build.
pub fn checked_build() -> bool {
    std::env::current_exe().map_or(false, |p| p.parent().map_or(false, |d| d.ends_with("checked")))
}
fn other_build() -> std::process::Command {
    let p = std::env::current_exe().unwrap_or_else(|e| die(&e.to_string()));
    let d = p.parent().and_then(|d| d.parent()).unwrap_or_else(|| die("no build directory"));
    std::process::Command::new(d.join("checked").join("psim"))
}
/// What the second build's seed differs by, so that it makes other runs.
const SECOND: u64 = 1 << 32;
fn groups_needed(p: u8) -> (bool, bool) { let _ = p; (true, true) }

fn check(c: &Cfg) {
    let t0 = std::time::Instant::now();
    println!("psim check C{:02}: VERIF_SEED={} tier={} workers={}", c.prop, c.seed, if c.thorough { "thorough" } else { "quick" }, c.nw);
    let (nruns, scale, wall) = budget(c.prop, c.thorough);
    let nruns = std::env::var("PSIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(nruns);
    let (wc, wp) = groups_needed(c.prop);
    let mut pl = pool::generate(c.seed, scale, c.prop == 15);
    let npris = pl.evaluate(c.nw, wc, wp);
    let pool_s = t0.elapsed().as_secs_f64();
    if pl.pairs.len() < 10 || pl.by_f.iter().any(|v| v.is_empty()) {
        // nearly nothing can be called even once in a fresh process: say so rather than explore nothing
        die("most library calls do not return or panic within the step limit even alone");
    }
    if c.prop == 7 || c.prop == 6 {
        for (k, f) in sut::auto::facts().iter().enumerate() {
            if !(f.0 && (c.prop == 6 || f.1)) {
                let path = minimize::write_fact(c, sut::KIND_NAMES[k], *f);
                println!("{} can{} be moved to another thread and can{} be shared by reference between threads", sut::KIND_NAMES[k], if f.0 { "" } else { "not" }, if f.1 { "" } else { "not" });
                println!("VIOLATION property=C{:02} replay={}", c.prop, path);
                evidence::write(c, t0.elapsed().as_secs_f64(), pool_s, npris, 0, unsafe { &*shared::<Board>(1) }, 1, &pl, "not Send/Sync", "");
                std::process::exit(1);
            }
        }
    }
    let b: &Board = unsafe { &*shared::<Board>(1) };
    b.min_viol.store(u64::MAX, Relaxed);
    let table = shared::<AtomicU64>(TABLE);
    workers(c.nw, &|w| {
        loop {
            let i = b.next.fetch_add(1, Relaxed);
            if i >= nruns || i > b.min_viol.load(Relaxed) || t0.elapsed().as_secs() >= wall { break; }
            let s = gen::scenario(c.prop, c.seed, i, c.thorough, &pl);
            let mut v = judge(&s);
            for _ in 0..2 {
                match &v {
                    // the machine, not the run, may be to blame: it counts only if it happens every time
                    Verdict::Viol { class, .. } if class == "hang" || class == "killed" => { v = judge(&s); if v == Verdict::Ok { b.flukes.fetch_add(1, Relaxed); } }
                    _ => {}
                }
            }
            if let Verdict::Viol { class, .. } = &v { if class == "killed" { die("runs are being killed from outside (no memory?)"); } }
            let o = run::out();
            b.runs.fetch_add(1, Relaxed);
            if let Verdict::Viol { class, msg } = &v {
                if b.min_viol.fetch_min(i, Relaxed) > i {
                    let t = format!("[{}] {}", class, msg);
                    let n = t.len().min(1024);
                    unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), b.msg[w % 8].as_ptr() as *mut u8, n); if n < 1024 { *(b.msg[w % 8].as_ptr() as *mut u8).add(n) = 0; } }
                    b.found[w % 8].store(i + 1, Relaxed);
                }
                continue;
            }
            if let Verdict::Foreign { .. } = v { b.foreign.fetch_add(1, Relaxed); }
            for k in 0..40 { b.ops[k].fetch_add(o.ops[k], Relaxed); }
            for k in 0..run::NEV { b.ev[k].fetch_add(o.ev[k], Relaxed); }
            let x = &o.cnt;
            for (k, v) in [x.preempt_in_call, x.switches, x.stalls_in_call, x.denied, x.allocs, x.clock_jumps, x.clock_reads, x.rand_draws, x.entropy_faults, x.futex_blocks, x.sleeps, x.hot, x.warm, x.steps, x.envreads, x.interrupts].into_iter().enumerate() {
                b.cnt[k].fetch_add(v, Relaxed);
            }
            b.sim_s.fetch_add(x.sim_ns / 1_000_000_000, Relaxed);
            b.sim_frac.fetch_add(x.sim_ns % 1_000_000_000, Relaxed);
            b.threads.fetch_add(s.threads.len() as u64, Relaxed);
            if s.threads.len() > 1 { b.multi.fetch_add(1, Relaxed); }
            if nontrivial(c.prop, &s, o) {
                b.nontrivial.fetch_add(1, Relaxed);
                insert(table, o.hash, b);
            }
        }
    });
    let bad = b.min_viol.load(Relaxed);
    if bad == u64::MAX {
        let n = b.runs.load(Relaxed);
        println!("{} runs, {} distinct and non-trivial, {} preemptions inside calls, {} allocations refused, {} stalls inside calls, {:.1} s",
            n, b.distinct.load(Relaxed), b.cnt[0].load(Relaxed), b.cnt[3].load(Relaxed), b.cnt[2].load(Relaxed), t0.elapsed().as_secs_f64());
        let f = b.foreign.load(Relaxed);
        let k = b.flukes.load(Relaxed);
        if k > 0 { println!("note: {} runs had to be repeated because the machine ended them", k); }
        if f > 0 { println!("note: {} runs were cut short by a discrepancy that contradicts other properties only", f); }
        if checked_build() {
            println!("SECOND {{\"runs\": {}, \"distinct_nontrivial\": {}, \"preemptions_inside_calls\": {}, \"allocations_refused\": {}, \"pristine_results_computed\": {}, \"wall_s\": {:.1}}}",
                n, b.distinct.load(Relaxed), b.cnt[0].load(Relaxed), b.cnt[3].load(Relaxed), npris, t0.elapsed().as_secs_f64());
            return;
        }
        // work and space are claimed for the library as shipped; a debug build may check itself at some expense
        if matches!(c.prop, 12 | 15) {
            evidence::write(c, t0.elapsed().as_secs_f64(), pool_s, npris, nruns, b, 0, &pl, "", "");
            return;
        }
        // and now the build with checks
        let o = other_build().args(&std::env::args().skip(1).collect::<Vec<_>>()).env("VERIF_SEED", (c.seed.wrapping_add(SECOND) as i64).to_string()).stderr(std::process::Stdio::inherit()).output().unwrap_or_else(|e| die(&e.to_string()));
        let txt = String::from_utf8_lossy(&o.stdout).to_string();
        let second = txt.lines().find_map(|l| l.strip_prefix("SECOND ")).unwrap_or("").to_string();
        for l in txt.lines().filter(|l| !l.starts_with("SECOND ")) { if !l.starts_with("VIOLATION") { println!("checked build: {}", l); } }
        let msg = match o.status.code() {
            Some(0) if !second.is_empty() => String::new(),
            Some(1) => txt.lines().filter(|l| !l.starts_with("VIOLATION")).collect::<Vec<_>>().join("\n"),
            _ => die("the build with checks gave no answer"),
        };
        evidence::write(c, t0.elapsed().as_secs_f64(), pool_s, npris, nruns, b, !msg.is_empty() as u64, &pl, &msg, &second);
        if !msg.is_empty() {
            if let Some(l) = txt.lines().find(|l| l.starts_with("VIOLATION")) { println!("{}", l); }
            std::process::exit(1);
        }
        return;
    }
    println!("run {} (run seed {:#x}) violates C{:02}; minimising", bad, gen::run_seed(c.prop, c.seed, bad), c.prop);
    let s = gen::scenario(c.prop, c.seed, bad, c.thorough, &pl);
    let seen = (0..8).find(|&k| b.found[k].load(Relaxed) == bad + 1).map_or(String::new(), |k| String::from_utf8_lossy(b.msg[k].split(|x| *x == 0).next().unwrap()).to_string());
    let (path, msg) = minimize::report(c, s, bad, &seen);
    if !checked_build() { evidence::write(c, t0.elapsed().as_secs_f64(), pool_s, npris, nruns, b, 1, &pl, &msg, ""); }
    println!("{}", msg);
    println!("VIOLATION property=C{:02} replay={}", c.prop, path);
    std::process::exit(1);
}

/// Fill in the pristine results of a parsed replay file.
fn pristine_of(s: &mut Scen) {
    for c in &mut s.calls { c.exp = pool::run_one(c.f, c.a); }
    for p in &mut s.pairs { for k in 0..4 { p.exp[k] = pool::run_one(sut::KIND_F[k], [p.nu, p.x, 0]); } }
}
fn replay(file: &str) {
    let txt = std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{}: {}", file, e)));
    if txt.starts_with("psim-fact") {
        let bad: Vec<_> = (0..4).filter(|&k| !(sut::auto::facts()[k].0 && sut::auto::facts()[k].1)).collect();
        if bad.is_empty() { println!("no violation"); return; }
        let id = txt.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("C07").to_string();
        println!("VIOLATION property={} replay={}", id, file);
        std::process::exit(1);
    }
    if !checked_build() && txt.lines().any(|l| l == "build checked") {
        let st = other_build().args(["replay", file]).status().unwrap_or_else(|e| die(&e.to_string()));
        std::process::exit(st.code().unwrap_or(2));
    }
    let mut s = scen::parse(&txt).unwrap_or_else(|e| die(&e));
    pristine_of(&mut s);
    match judge(&s) {
        Verdict::Ok => println!("no violation (event hash {:#x})", run::out().hash),
        Verdict::Foreign { class, msg } => println!("no violation of C{:02}; another property is contradicted [{}] {}", s.prop, class, msg),
        Verdict::Viol { class, msg } => {
            println!("[{}] {} (event hash {:#x})", class, msg, run::out().hash);
            println!("VIOLATION property=C{:02} replay={}", s.prop, file);
            std::process::exit(1);
        }
    }
}
/// Print one line per run: verdict, event hash, counters.  Two executions must print the same.
fn trace(c: &Cfg, from: u64, n: u64) {
    let mut pl = pool::generate(c.seed, budget(c.prop, false).1, c.prop == 15);
    pl.evaluate(c.nw, true, true);
    let lines = shared::<[u64; 8]>(n as usize);
    let nx: &AtomicU64 = unsafe { &*shared::<AtomicU64>(1) };
    workers(c.nw, &|_| loop {
        let i = nx.fetch_add(1, Relaxed);
        if i >= n { break; }
        let s = gen::scenario(c.prop, c.seed, from + i, c.thorough, &pl);
        let v = judge(&s);
        let o = run::out();
        let code = match v { Verdict::Ok => 0, Verdict::Viol { .. } => 1, _ => 2 };
        let dh = o.decs[..o.ndec as usize].iter().fold(0, |h, d| rng::mix(h ^ d.step, (d.t as u64) << 32 | d.to as u64));
        unsafe { *lines.add(i as usize) = [code, o.hash, o.cnt.steps, o.cnt.switches, o.ndec, dh, o.cnt.allocs, o.cnt.hot]; }
    });
    for i in 0..n as usize { println!("{} {:x?}", from + i as u64, unsafe { *lines.add(i) }); }
}

fn main() {
    unsafe {
        // identical addresses in every execution
        if std::env::var("PSIM_NOASLR").is_err() {
            let p = personality(0xffff_ffff);
            if p >= 0 && p & 0x0040000 == 0 && personality(p as u64 | 0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let a: Vec<_> = std::env::args_os().collect();
                let _ = std::process::Command::new("/proc/self/exe").args(&a[1..]).env("PSIM_NOASLR", "1").exec();
            }
        }
        rt::init_hot();
        rt::arena_init();
        OUT = shared::<Out>(1);
        rt::EDGE_MAP = shared::<u8>(rt::NGUARDS as usize + 1);
    }
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok().map(|v| v as u64)).unwrap_or(1);
    let nw = std::env::var("PSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16));
    let prop = |i: usize| a.get(i).and_then(|s| s.strip_prefix('C')).and_then(|s| s.parse::<u8>().ok()).filter(|p| (1..=15).contains(p)).unwrap_or_else(|| die("property C01..C15 expected"));
    let thorough = a.iter().any(|x| x == "--thorough") || (!a.iter().any(|x| x == "--quick") && std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&Cfg { prop: prop(2), seed, thorough, nw }),
        Some("replay") => replay(a.get(2).map(|s| s.as_str()).unwrap_or_else(|| die("file expected"))),
        Some("trace") => {
            let n = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
            trace(&Cfg { prop: prop(2), seed, thorough, nw }, n(3, 0), n(4, 200))
        }
        Some("show") => {
            let mut pl = pool::generate(seed, budget(1, false).1, false);
            pl.evaluate(nw, true, true);
            let i = a[3].parse().unwrap();
            let s = gen::scenario(prop(2), seed, i, thorough, &pl);
            print!("{}", scen::print(&s, ""));
            println!("{:?}", judge(&s));
        }
        _ => die("usage: psim check Cnn | replay FILE | trace Cnn FROM N | show Cnn INDEX"),
    }
}
