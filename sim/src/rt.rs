//! Simulation runtime: the seams (allocator, randomness, clock, sleeping, futexes, instrumented
//! scheduling points) and the scheduler that decides every interleaving.
//!
//! Client threads are real OS threads (so thread-locals are real), but exactly one of them runs at any
//! moment: the one holding the token.  Who gets the token next is decided here, at instrumented edges,
//! loads and stores of the library code, at operation boundaries, and at blocking system calls.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 72; // client threads
pub const CTRL: usize = MAXT; // the controller's slot

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Absent,
    Ready,
    Finished,
    Stalled,
    Futex { addr: usize, until: u64 },
    Sleep { until: u64 },
    Lock,
}

pub struct Th {
    pub id: usize,
    pub in_sut: bool,
    pub unwinding: bool,
    pub steps: u64,
    pub next_stop: u64,
    pub counted: u64,
    pub hot: u64,
    pub call_start: u64,
    pub call_bound: u64,
    /// floating-point control bits the caller has set
    pub fpm: u64,
    /// what the last call that panicked said
    pub msg: u64,
    pub st: St,
    pub timed_out: bool,
    pub stall_at: u64,
    pub stall_hot: u64,
    pub live: i64,
    pub allocs: u64,
    pub denied: u64,
    /// refuse the allocation after this many more (-1: none)
    pub deny_in: i64,
    pub deny_sticky: bool,
    pub prio: u64,
    pub rep_pos: usize,
    pub waited: u64,
    pub ctx_in_call: u64,
    pub op_seq: u64,
    /// steps of calls made from inside the current one, and of the call that ended last (without such calls)
    pub nested: u64,
    pub own: u64,
    /// how often the panic hook ran for the current call
    pub hooked: u64,
    /// pending interruptions (step, what to do), by step; at an allocation; when a panic is reported
    pub irq: [(u64, u64); IRQS],
    pub irq_depth: u32,
    pub alloc_irq: (u64, u64),
    pub hook_irq: u64,
    pub in_hook: bool,
    /// lowest stack pointer seen, and memory held at the start of and at most during, the current call
    pub sp_low: usize,
    /// going below this is a violation
    pub sp_floor: usize,
    pub live0: i64,
    pub live_top: i64,
    /// stack and memory that the call that ended last took
    pub stack: usize,
    pub scratch: i64,
    /// between the end of the thread\'s own code and its very end: destructors of thread-locals are running
    pub exiting: bool,
}
pub const NOIRQ: (u64, u64) = (u64::MAX, 0);
pub const IRQS: usize = 20; // interruptions that may be waiting, and how deep they may be nested
impl Th {
    pub const fn zero() -> Th {
        Th {
            id: 0, in_sut: false, unwinding: false, steps: 0, next_stop: u64::MAX, counted: 0, hot: 0,
            call_start: 0, call_bound: u64::MAX, fpm: 0, msg: 0, st: St::Absent, timed_out: false, stall_at: u64::MAX, stall_hot: u64::MAX,
            live: 0, allocs: 0, denied: 0, deny_in: -1, deny_sticky: false, prio: 0, rep_pos: 0, waited: 0,
            ctx_in_call: 0, op_seq: 0, nested: 0, own: 0, hooked: 0, irq: [NOIRQ; IRQS], irq_depth: 0, alloc_irq: (0, 0), hook_irq: 0, in_hook: false, sp_low: usize::MAX, sp_floor: 0, live0: 0, live_top: 0, stack: 0, scratch: 0, exiting: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// random preemption with the given mean burst length (steps)
    Rand(u64),
    /// random priorities with change points
    Pct(u64),
    /// switches only at operation boundaries
    Serial,
    /// recorded decisions only
    Replay,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dec {
    pub t: u32,
    pub to: u32,
    pub step: u64,
}

/// Environment knobs: everything outside the program that the simulator controls.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Env {
    pub rand_seed: u64,
    pub clock_base: u64,
    /// nanoseconds of simulated time per instrumented step
    pub tick: u64,
    pub junk: u64,
    pub arena_off: u64,
    pub entropy_faults: u64,
    pub tid_shift: u64,
    pub envvar: u64,
    /// chance (of 1024) that the clock jumps when the library reads it
    pub jump: u64,
}

#[derive(Clone, Copy, Default)]
pub struct Counters {
    pub preempt_in_call: u64,
    pub switches: u64,
    pub stalls_in_call: u64,
    pub denied: u64,
    pub allocs: u64,
    pub clock_jumps: u64,
    pub clock_reads: u64,
    pub envreads: u64,
    pub interrupts: u64,
    pub effects: u64,
    pub rand_draws: u64,
    pub entropy_faults: u64,
    pub futex_blocks: u64,
    pub sleeps: u64,
    pub hot: u64,
    pub warm: u64,
    pub steps: u64,
    pub sim_ns: u64,
}

pub struct Sim {
    pub th: [Th; MAXT + 1],
    pub n: usize,
    pub rng: Rng,
    pub env_rng: Rng,
    pub policy: Policy,
    pub hotp: f64,
    pub boundp: f64,

    pub decs: Vec<Dec>,
    pub rep: Vec<Vec<Dec>>, // per thread, sorted by step
    pub total: u64,
    pub change: Vec<u64>, // PCT change points on total steps, sorted descending
    pub low: u64,
    pub env: Env,
    /// how far the wall clock is off
    pub wall_off: u64,
    pub now: u64,
    pub nomem: bool,
    pub live: i64,
    pub live_peak: i64,
    pub resume: bool,
    pub resumed: bool,
    pub cnt: Counters,
    pub hash: u64,
    pub fail: Option<fn(&str, String) -> !>,
    pub step_cap: u64,
    /// even a bounded wait is a failure while some caller is suspended
    pub nowait: bool,
    /// what an interruption does
    pub irq_fn: Option<fn(u64)>,
    /// told about everything a call does to the world outside the process's memory
    pub effect: Option<fn(&str)>,
}
impl Sim {
    pub const fn zero() -> Sim {
        const T: Th = Th::zero();
        Sim {
            th: [T; MAXT + 1], n: 0, rng: Rng::zero(), env_rng: Rng::zero(), policy: Policy::Serial, hotp: 0.0, boundp: 0.3,
            decs: Vec::new(), rep: Vec::new(), total: 0, change: Vec::new(), low: 0,
            env: Env { rand_seed: 0, clock_base: 0, tick: 1, junk: 0, arena_off: 0, entropy_faults: 0, tid_shift: 0, envvar: 0, jump: 0 },
            wall_off: 0, now: 0, nomem: false, live: 0, live_peak: 0, resume: true, resumed: false,
            cnt: Counters { preempt_in_call: 0, switches: 0, stalls_in_call: 0, denied: 0, allocs: 0, clock_jumps: 0,
                clock_reads: 0, envreads: 0, interrupts: 0, effects: 0, rand_draws: 0, entropy_faults: 0, futex_blocks: 0, sleeps: 0, hot: 0, warm: 0, steps: 0, sim_ns: 0 },
            hash: 0, fail: None, step_cap: u64::MAX, nowait: false, irq_fn: None, effect: None,
        }
    }
    pub fn note(&mut self, x: u64) { self.hash = crate::rng::mix(self.hash ^ x, 0x51); }
    pub fn time(&self) -> u64 { self.env.clock_base.wrapping_add(self.now).wrapping_add(self.total.wrapping_mul(self.env.tick)) }
}

static mut SIM_: Sim = Sim::zero();
#[inline(always)]
pub fn sim() -> &'static mut Sim { unsafe { &mut *(&raw mut SIM_) } }

thread_local! { pub static ME: Cell<*mut Th> = const { Cell::new(null_mut()) }; }
#[inline(always)]
fn me() -> *mut Th { ME.with(|m| m.get()) }
pub fn th() -> &'static mut Th { unsafe { &mut *me() } }
pub fn registered() -> bool { !me().is_null() }
pub fn register(id: usize) {
    let s = sim();
    s.th[id].id = id;
    ME.with(|m| m.set(&mut s.th[id]));
}
pub fn unregister() { ME.with(|m| m.set(null_mut())); }

// ---------------------------------------------------------------- raw system calls (bypass the seams)
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
const SYS_FUTEX: i64 = 202;
fn fwait(w: &AtomicU32, v: u32) { unsafe { raw(SYS_FUTEX, w as *const _ as usize, 128, v as usize, 0, 0, 0); } }
fn fwake(w: &AtomicU32) { unsafe { raw(SYS_FUTEX, w as *const _ as usize, 129, 1, 0, 0, 0); } }
static WORD: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

static ARRIVED: AtomicU32 = AtomicU32::new(0);
/// A client has started up and is about to wait for the token.
pub fn arrive() {
    ARRIVED.fetch_add(1, Ordering::AcqRel);
    fwake(&ARRIVED);
}
/// The controller waits until `n` clients have started up.
pub fn all_arrived(n: u32) {
    loop {
        let v = ARRIVED.load(Ordering::Acquire);
        if v >= n { return; }
        fwait(&ARRIVED, v);
    }
}
pub fn give(to: usize) {
    WORD[to].store(1, Ordering::Release);
    fwake(&WORD[to]);
}
pub fn await_token(id: usize) {
    while WORD[id].load(Ordering::Acquire) == 0 {
        fwait(&WORD[id], 0);
    }
    WORD[id].store(0, Ordering::Relaxed);
}

pub fn fail_at(class: &str, a: std::fmt::Arguments) -> ! {
    th().in_sut = false; // everything allocated from here on is the harness's own
    let msg = a.to_string();
    (sim().fail.unwrap())(class, msg)
}
macro_rules! fail { ($c:expr, $($a:tt)*) => { crate::rt::fail_at($c, format_args!($($a)*)) } }
pub(crate) use fail;
pub const DEC_CAP: usize = 1 << 16;
/// under the priority policy a thread that keeps running inside one call loses its priority after this many steps
const SPIN: u64 = 30_000;

// ---------------------------------------------------------------- scheduler
fn account(t: &mut Th) {
    let s = sim();
    s.total += t.steps - t.counted;
    t.counted = t.steps;
}
/// Compute the step at which `t` must next enter the slow path.
fn arm(t: &mut Th) {
    let s = sim();
    let mut n = match &s.policy {
        Policy::Rand(m) => t.steps + 1 + s.rng.geom(*m as f64),
        Policy::Pct(_) => match s.change.last() {
            Some(&c) => t.steps + c.saturating_sub(s.total).max(1),
            None => u64::MAX,
        }.min(t.steps + SPIN),
        Policy::Serial => u64::MAX,
        Policy::Replay => {
            let v = &s.rep[t.id];
            while t.rep_pos < v.len() && v[t.rep_pos].step <= t.steps { t.rep_pos += 1; }
            if t.rep_pos < v.len() { v[t.rep_pos].step } else { u64::MAX }
        }
    };
    n = n.min(t.stall_at).min(t.irq[0].0).min(t.call_start.saturating_add(t.call_bound)).min(s.step_cap);
    t.next_stop = n;
}

/// Choose the thread to run next. `cur` may be chosen only if it is Ready and `forced` is false.
fn choose(cur: usize, forced: bool, step: u64) -> Option<usize> {
    let s = sim();
    let mut c = [0usize; MAXT];
    let mut k = 0;
    for i in 0..s.n {
        if s.th[i].st == St::Ready && !(i == cur && forced) {
            c[k] = i;
            k += 1;
        }
    }
    if k == 0 { return None; }
    let c = &c[..k];
    Some(match &s.policy {
        Policy::Rand(_) | Policy::Serial => {
            c[s.rng.below(k as u64) as usize]
        }
        Policy::Pct(_) => *c.iter().max_by_key(|&&i| s.th[i].prio).unwrap(),
        Policy::Replay => {
            let v = &s.rep[cur];
            let want = v.get(v.partition_point(|d| d.step < step)).filter(|d| d.step == step).map(|d| d.to as usize);
            match want {
                Some(w) if c.contains(&w) => w,
                _ => if !forced && c.contains(&cur) { cur } else { *c.iter().find(|&&i| i > cur).unwrap_or(&c[0]) },
            }
        }
    })
}

fn switch(t: &mut Th, to: usize) {
    let s = sim();
    account(t);
    if s.decs.len() < DEC_CAP { s.decs.push(Dec { t: t.id as u32, to: to as u32, step: t.steps }); }
    s.cnt.switches += 1;
    if t.in_sut && t.st != St::Finished { s.cnt.preempt_in_call += 1; t.ctx_in_call += 1; }
    s.note((t.id as u64) << 56 ^ (to as u64) << 48 ^ t.steps);
    if to != t.id {
        arm(&mut s.th[to]);
        let done = t.st == St::Finished;
        if done { unregister(); } // what the thread does from here on is none of the simulator's business
        give(to);
        if done { return; } // the token is gone: touch nothing
        await_token(t.id); // whoever gave the token back has armed this thread
    } else {
        arm(t);
    }
}

/// Have `code` done when the thread has taken `k` more steps.
pub fn interrupt_in(k: u64, code: u64) {
    let t = th();
    if t.irq[IRQS - 1] != NOIRQ { return; }
    t.irq[IRQS - 1] = (t.steps + k, code);
    t.irq.sort();
    t.next_stop = t.next_stop.min(t.irq[0].0);
}
/// The call in progress is interrupted: other library calls are made in the middle of it.
fn interrupt(t: &mut Th, code: u64) {
    let s = sim();
    s.cnt.interrupts += 1;
    s.note(0x1229 ^ t.steps << 16);
    t.irq_depth += 1;
    if let Some(f) = s.irq_fn { f(code); }
    t.irq_depth -= 1;
}

/// A voluntary scheduling point (the current thread stays Ready).
#[cold]
#[inline(never)]
fn slow(t: &mut Th, at_boundary: bool, hot: bool) {
    let s = sim();
    account(t);
    if t.steps >= s.step_cap { fail!("steps", "step cap"); }
    if t.steps >= t.irq[0].0 && t.in_sut && !t.unwinding && (t.irq_depth as usize) < IRQS {
        let code = t.irq[0].1;
        t.irq.rotate_left(1);
        t.irq[IRQS - 1] = NOIRQ;
        interrupt(t, code);
    }
    if t.id == CTRL {
        if t.in_sut && t.steps >= t.call_start.saturating_add(t.call_bound) {
            fail!("runaway", "a call made by the controller took {} steps without finishing (bound {})", t.steps - t.call_start, t.call_bound);
        }
        arm(t);
        return;
    }
    if t.in_sut && t.steps >= t.call_start.saturating_add(t.call_bound) {
        fail!("runaway", "thread {} op {}: a call has taken {} steps without finishing (bound {})", t.id, t.op_seq, t.steps - t.call_start, t.call_bound);
    }
    if t.steps >= t.stall_at {
        if t.in_sut && !t.unwinding {
            t.stall_at = u64::MAX;
            s.cnt.stalls_in_call += 1;
            t.st = St::Stalled;
            forced(t);
            return;
        } else {
            t.stall_at = t.steps + 1; // first point inside a call
        }
    }
    let do_switch = match &s.policy {
        Policy::Rand(_) => hot || t.steps >= t.next_stop || at_boundary,
        Policy::Pct(_) => {
            let due = s.change.last().map_or(false, |&c| s.total >= c);
            if hot || due || (t.in_sut && t.steps >= t.call_start + SPIN) {
                if due && !hot { s.change.pop(); }
                s.low -= 1;
                t.prio = s.low; // becomes lowest
            }
            true
        }
        Policy::Serial => hot || at_boundary,
        Policy::Replay => true,
    };
    if do_switch {
        if let Some(to) = choose(t.id, false, t.steps) {
            if to != t.id {
                switch(t, to);
                return;
            }
        }
    }
    arm(t);
}

/// The current thread cannot continue (blocked, stalled or finished).  Returns when it holds the token
/// again (never matters for Finished).
fn forced(t: &mut Th) {
    let s = sim();
    t.steps += 1;
    account(t);
    loop {
        if let Some(to) = choose(t.id, true, t.steps) {
            switch(t, to);
            return;
        }
        if t.st == St::Ready { // woken by time below
            arm(t);
            return;
        }
        // nobody is ready: advance the clock to the next deadline, if any
        let mut best = u64::MAX;
        for i in 0..s.n {
            match s.th[i].st { St::Futex { until, .. } | St::Sleep { until } => best = best.min(until), _ => {} }
        }
        let stalled = (0..s.n).any(|i| s.th[i].st == St::Stalled);
        let waiting = (0..s.n).any(|i| matches!(s.th[i].st, St::Futex { .. } | St::Sleep { .. } | St::Lock));
        if best != u64::MAX {
            let now = s.time();
            if best > now { s.now += best - now; }
            for i in 0..s.n {
                match s.th[i].st {
                    St::Futex { until, .. } if until <= best => { s.th[i].st = St::Ready; s.th[i].timed_out = true; }
                    St::Sleep { until } if until <= best => s.th[i].st = St::Ready,
                    _ => {}
                }
            }
            continue;
        }
        if waiting && stalled {
            fail!("blocked", "a call waits for a suspended caller [{}]", who(s));
        }
        if waiting {
            fail!("deadlock", "no thread can continue [{}]", who(s));
        }
        if stalled && s.resume {
            s.resumed = true;
            for i in 0..s.n {
                if s.th[i].st == St::Stalled { s.th[i].st = St::Ready; }
            }
            continue;
        }
        // all done (or the stalled ones are dead for good): hand over to the controller
        let done = t.st == St::Finished;
        if done { unregister(); }
        give(CTRL);
        if !done {
            loop { await_token(t.id); if t.st == St::Ready { return; } } // dead threads stay here
        }
        return;
    }
}
struct Who<'a>(&'a Sim);
fn who(s: &Sim) -> Who<'_> { Who(s) }
impl std::fmt::Display for Who<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for i in 0..self.0.n { write!(f, "t{}:{} ", i, kind(self.0.th[i].st))?; }
        Ok(())
    }
}
fn kind(s: St) -> &'static str {
    match s {
        St::Absent => "absent", St::Ready => "ready", St::Finished => "finished", St::Stalled => "suspended",
        St::Futex { .. } => "blocked", St::Sleep { .. } => "sleeping", St::Lock => "lock",
    }
}

/// Operation boundary: a scheduling point in harness code.
pub fn boundary() {
    let t = th();
    if t.id == CTRL { return; }
    t.steps += 1;
    let s = sim();
    let b = s.policy != Policy::Replay && s.rng.p(s.boundp);
    if b || t.steps >= t.next_stop { slow(t, b, false); }
}
/// Wait in state `Lock` until made Ready by `lock_changed`.
pub fn lock_wait() {
    let t = th();
    t.st = St::Lock;
    forced(t);
}
pub fn lock_changed() {
    let s = sim();
    for i in 0..s.n {
        if s.th[i].st == St::Lock { s.th[i].st = St::Ready; }
    }
}
pub fn finish() {
    let t = th();
    t.in_sut = false;
    t.st = St::Finished;
    t.stall_at = u64::MAX;
    forced(t);
}
/// Controller: start the clients and wait until no client can run any more.
pub fn run_clients(n: usize) {
    let s = sim();
    s.n = n;
    if n == 0 { return; }
    let first = choose(CTRL, true, 0).unwrap();
    s.decs.push(Dec { t: CTRL as u32, to: first as u32, step: 0 });
    arm(&mut s.th[first]);
    give(first);
    await_token(CTRL);
}
pub fn arm_ctrl(bound: u64) {
    let t = th();
    t.call_bound = bound;
    arm(t);
}
pub fn arm_call(bound: u64) {
    let t = th();
    t.call_start = t.steps;
    t.call_bound = bound;
    let lim = t.steps.saturating_add(bound);
    // keep the scheduled stop, only adjust the runaway limit
    if t.id == CTRL { arm(t); } else if lim < t.next_stop || t.next_stop == u64::MAX { t.next_stop = t.next_stop.min(lim); }
}

// ---------------------------------------------------------------- instrumentation call-outs
pub static mut EDGE_MAP: *mut u8 = null_mut();
pub static mut NGUARDS: u32 = 0;
static mut HOT_LO: usize = 0;
static mut HOT_HI: usize = 0;
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
pub fn init_hot() {
    unsafe {
        HOT_LO = &raw const __data_start as usize;
        HOT_HI = &raw const _end as usize;
    }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    unsafe {
        let mut p = a;
        while p < b {
            if *p == 0 {
                NGUARDS += 1;
                *p = NGUARDS;
            }
            p = p.add(1);
        }
    }
}
#[cold]
#[inline(never)]
fn deep(t: &mut Th) {
    t.sp_floor = 0;
    fail!("stack", "thread {} op {}: a call needs more stack than any call may take", t.id, t.op_seq);
}
#[inline(always)]
pub fn stack_pointer() -> usize {
    let x: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) x, options(nomem, nostack, preserves_flags)) };
    x
}
#[inline(always)]
fn step() {
    let t = me();
    if t.is_null() { return; }
    let t = unsafe { &mut *t };
    if !t.in_sut { return; }
    t.steps += 1;
    if t.steps >= t.next_stop { slow(t, false, false); }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let t = me();
    if t.is_null() { return; }
    let t = unsafe { &mut *t };
    if !t.in_sut { return; }
    unsafe { if !EDGE_MAP.is_null() { *EDGE_MAP.add(*g as usize) = 1; } }
    let sp = stack_pointer();
    if sp < t.sp_low {
        t.sp_low = sp;
        if sp < t.sp_floor { deep(t); }
    }
    t.steps += 1;
    if t.steps >= t.next_stop { slow(t, false, false); }
}
#[inline(always)]
fn touch(a: usize) {
    if a >= unsafe { HOT_LO } && a < unsafe { HOT_HI } {
        let t = me();
        if t.is_null() { return; }
        let t = unsafe { &mut *t };
        if !t.in_sut { return; }
        t.steps += 1;
        t.hot += 1;
        let s = sim();
        s.cnt.hot += 1;
        if t.hot >= t.stall_hot { t.stall_at = t.steps; t.stall_hot = u64::MAX; slow(t, false, false); return; }
        if t.id != CTRL && s.policy != Policy::Replay && s.hotp > 0.0 && s.rng.p(s.hotp) {
            slow(t, false, true);
            return;
        }
        if t.steps >= t.next_stop { slow(t, false, false); }
    } else if a >= unsafe { A_LO } && a < unsafe { A_CUR } {
        warm();
    } else {
        step();
    }
}
/// An access to heap memory of the library: possibly shared, so a likelier place to be preempted.
#[inline(never)]
fn warm() {
    let t = me();
    if t.is_null() { return; }
    let t = unsafe { &mut *t };
    if !t.in_sut { return; }
    t.steps += 1;
    let s = sim();
    s.cnt.warm += 1;
    if t.id != CTRL && s.policy != Policy::Replay && s.hotp > 0.0 && s.rng.p(s.hotp * 0.05) {
        slow(t, false, true);
        return;
    }
    if t.steps >= t.next_stop { slow(t, false, false); }
}
macro_rules! ls {
    ($($n:ident)*) => { $(#[no_mangle] extern "C" fn $n(a: *const u8) { touch(a as usize) })* };
}
ls!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------- libc seams
extern "C" {
    fn __errno_location() -> *mut i32;
}
fn errno(e: i32) { unsafe { *__errno_location() = e } }

#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if !registered() {
        let r = raw(318, buf as usize, len, flags as usize, 0, 0, 0);
        if r < 0 { errno(-r as i32); return -1; }
        return r;
    }
    let s = sim();
    s.cnt.rand_draws += 1;
    if s.env.entropy_faults > 0 && len > 0 {
        match s.env_rng.below(4) {
            0 => { s.cnt.entropy_faults += 1; errno(4); return -1; } // EINTR
            1 if len > 1 => { // short read
                s.cnt.entropy_faults += 1;
                let k = 1 + s.env_rng.below(len as u64 - 1) as usize;
                for i in 0..k { *buf.add(i) = s.env_rng.u64() as u8; }
                return k as isize;
            }
            _ => {}
        }
    }
    for i in 0..len { *buf.add(i) = s.env_rng.u64() as u8; }
    len as isize
}
#[repr(C)]
pub struct Ts { s: i64, n: i64 }
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Ts) -> i32 {
    if !registered() {
        return raw(228, id as usize, ts as usize, 0, 0, 0, 0) as i32;
    }
    let t = th();
    account(t);
    let s = sim();
    if t.in_sut {
        s.cnt.clock_reads += 1;
        if s.env.jump > 0 {
            let h = crate::rng::mix(s.env.clock_base ^ 0xc10c, s.cnt.clock_reads);
            if h % 1024 < s.env.jump {
                s.now = s.now.wrapping_add(10u64.pow(6 + (h >> 20) as u32 % 11));
                s.cnt.clock_jumps += 1;
            }
        }
    }
    let now = s.time().wrapping_add(if id == 0 { s.wall_off } else { 0 });
    (*ts).s = (now / 1_000_000_000) as i64 + if id != 0 { 1000 } else if s.env.clock_base != 0 && crate::rng::mix(s.env.clock_base, 0x1970) % 10 == 0 { -2_000_000_000 } else { 1_700_000_000 };
    (*ts).n = (now % 1_000_000_000) as i64;
    0
}
fn no_wait(t: &Th) {
    let s = sim();
    if s.nowait && t.in_sut && (0..s.n).any(|i| s.th[i].st == St::Stalled) {
        fail!("blocked", "a call waits (for a limited time) while a caller is suspended [{}]", who(s));
    }
}
unsafe fn sim_sleep(ns: u64) {
    let t = th();
    account(t);
    let s = sim();
    s.cnt.sleeps += 1;
    no_wait(t);
    t.waited += NAP;
    if t.id == CTRL { s.now += ns; return; }
    t.st = St::Sleep { until: s.time().saturating_add(ns) };
    forced(t);
}
#[no_mangle]
unsafe extern "C" fn nanosleep(rq: *const Ts, rm: *mut Ts) -> i32 {
    if !registered() { return raw(35, rq as usize, rm as usize, 0, 0, 0, 0) as i32; }
    sim_sleep((*rq).s as u64 * 1_000_000_000 + (*rq).n as u64);
    0
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, rq: *const Ts, rm: *mut Ts) -> i32 {
    if !registered() { return -(raw(230, id as usize, fl as usize, rq as usize, rm as usize, 0, 0) as i32); }
    let ns = (*rq).s as u64 * 1_000_000_000 + (*rq).n as u64;
    if fl & 1 != 0 {
        let now = sim().time() + if id == 0 { 1_700_000_000_000_000_000 } else { 1_000_000_000_000 };
        sim_sleep(ns.saturating_sub(now));
    } else { sim_sleep(ns); }
    0
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> i32 {
    if !registered() { return raw(24, 0, 0, 0, 0, 0, 0) as i32; }
    let t = th();
    if t.in_sut { t.waited += NAP; }
    if t.id != CTRL {
        t.steps += 1;
        slow(t, true, false);
    }
    0
}
/// Counted for a call that sleeps or gives up the processor by itself, as opposed to waiting for a lock.
pub const NAP: u64 = 1 << 32;
/// std's futex waits and wakes go through libc's `syscall`.
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == SYS_FUTEX && registered() {
        let op = b & 0x7f;
        let t = th();
        let s = sim();
        match op {
            0 | 9 => {
                if *(a as *const u32) != c as u32 { errno(11); return -1; }
                account(t);
                if t.id == CTRL { fail!("deadlock", "a call blocks for ever although no other thread is running"); }
                let until = if d == 0 { u64::MAX } else {
                    let ts = &*(d as *const Ts);
                    let abs = ts.s as u64 * 1_000_000_000 + ts.n as u64;
                    if op == 9 { abs.saturating_sub(1_000_000_000_000) } else { s.time().saturating_add(abs) }
                };
                s.cnt.futex_blocks += 1;
                if until != u64::MAX { no_wait(t); }
                t.waited += 1;
                t.timed_out = false;
                t.st = St::Futex { addr: a, until };
                forced(t);
                if t.timed_out { errno(110); return -1; }
                return 0;
            }
            1 | 10 => {
                let mut k = 0;
                for i in 0..s.n {
                    if k as usize >= c { break; }
                    if let St::Futex { addr, .. } = s.th[i].st {
                        if addr == a { s.th[i].st = St::Ready; k += 1; }
                    }
                }
                return k;
            }
            _ => {}
        }
    } else if registered() && th().in_sut {
        match n {
            318 => return getrandom(a as *mut u8, b, c as u32),
            228 => return clock_gettime(a as i32, b as *mut Ts) as isize,
            24 => return sched_yield() as isize,
            39 => return getpid() as isize,
            186 => return gettid() as isize,
            _ => { effect("syscall"); errno(1); return -1; }
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 { errno(-r as i32); -1 } else { r }
}

// ---------------------------------------------------------------- effects on the outside world
extern "C" {
    fn dlsym(h: *const u8, name: *const u8) -> usize;
}
/// Whether the library is executing (so that what is being called is an effect of a library call).
fn effect(what: &str) -> bool {
    let t = me();
    if t.is_null() { return false; }
    let (lib, exiting) = unsafe { ((*t).in_sut, (*t).exiting) };
    // std itself takes down its signal stack when a thread ends
    if !(lib || exiting && !what.starts_with("sig") && what != "mprotect" && what != "syscall") { return false; }
    sim().cnt.effects += 1;
    if let Some(f) = sim().effect { f(what); }
    true
}
/// Functions through which a program acts on the world.  Made by the library, the call is reported and
/// answered with `$r` (and errno EPERM) without being carried out.
macro_rules! effects {
    ($($n:ident $r:expr;)*) => { $(
        #[no_mangle]
        unsafe extern "C" fn $n(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
            if effect(stringify!($n)) {
                errno(1);
                let r: isize = $r;
                return if r == -2 { c as isize } else { r };
            }
            static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let mut p = REAL.load(Ordering::Relaxed);
            if p == 0 {
                p = dlsym(usize::MAX as *const u8, concat!(stringify!($n), "\0").as_ptr());
                if p == 0 { errno(38); return -1; }
                REAL.store(p, Ordering::Relaxed);
            }
            let g: unsafe extern "C" fn(usize, usize, usize, usize, usize, usize) -> isize = std::mem::transmute(p);
            g(a, b, c, d, e, f)
        }
    )* };
}
effects! {
    write -2; writev -1; pwrite -1; pwrite64 -1; pwritev -1; read -1; readv -1; pread -1; pread64 -1;
    open -1; open64 -1; openat -1; openat64 -1; creat -1; unlink -1; rename -1; mkdir -1; rmdir -1; ftruncate -1; ftruncate64 -1;
    socket -1; connect -1; bind -1; listen -1; send -1; sendto -1; sendmsg -1; recv -1; pipe -1; pipe2 -1; dup -1; dup2 -1;
    pthread_create 11; fork -1; execv -1; execve -1; execvp -1; execvpe -1; posix_spawn 11; posix_spawnp 11; system -1;
    sigaction -1; signal -1; sigprocmask -1; pthread_sigmask 1; sigaltstack -1; kill -1; tgkill -1; pthread_kill 1;
    setenv -1; unsetenv -1; putenv -1; clearenv -1; chdir -1; fchdir -1; setlocale 0; umask 0; setrlimit -1; setrlimit64 -1;
    setpriority -1; nice -1; sched_setscheduler -1; sched_setaffinity -1; prctl -1; pthread_setschedparam 1; pthread_setaffinity_np 1; pthread_setname_np 0;
    stat -1; stat64 -1; lstat -1; lstat64 -1; fstatat -1; fstatat64 -1; statx -1; access -1; faccessat -1; readlink -1; readlinkat -1; realpath 0;
    getcwd 0; opendir 0; fopen 0; fopen64 0; fdopen 0; freopen 0; mkdirat -1; unlinkat -1; renameat -1; symlink -1; link -1; linkat -1; chmod -1; fchmod -1;
    chown -1; truncate -1; truncate64 -1; statfs -1; statfs64 -1; utimensat -1; isatty 0; ioctl -1; poll -1; epoll_create1 -1; eventfd -1; memfd_create -1; shm_open -1;
    getaddrinfo 11; gethostname -1; accept -1; accept4 -1; recvfrom -1; shutdown -1; wait4 -1; waitpid -1; puts -1; perror -1; fwrite 0; fputs -1; fputc -1; putchar -1; fflush -1; syslog -1;
    dlopen 0; mincore -1; madvise -1; sigqueue -1; raise 1; alarm 0; setuid -1; setgid -1; sethostname -1; mount -1; ptrace -1;
    fesetround 1; feenableexcept -1; fesetenv 1; mprotect -1; mlock -1; mlockall -1; setitimer -1; timer_create -1; atexit -1;
}

extern "C" {
    static environ: *const *const u8;
}
/// Environment variables as the library sees them: in some environments any name may be set to anything.
#[no_mangle]
unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    let mut h = 0u64;
    while *name.add(n) != 0 { h = crate::rng::mix(h, *name.add(n) as u64); n += 1; }
    if registered() && th().in_sut && sim().env.envvar != 0 {
        sim().cnt.envreads += 1;
        const VALUES: [&[u8]; 20] = [b"1\0", b"0\0", b"true\0", b"8\0", b"\0", b"-1\0", b"0.5\0", b"1e-3\0", b"99999999999999999999\0", b"\xff\xfe\0",
            b"false\0", b"on\0", b"off\0", b"yes\0", b"no\0", b"debug\0", b"nan\0", b" 1\0", b"100000\0", b"full\0"];
        let v = crate::rng::mix(h, sim().env.envvar);
        if v & 7 < 2 { return null_mut(); }
        return VALUES[if v & 7 < 5 { (v >> 8) % 4 } else { (v >> 8) % 20 } as usize].as_ptr();
    }
    let mut e = environ;
    if e.is_null() { return null_mut(); }
    while !(*e).is_null() {
        let v = *e;
        let mut i = 0;
        while i < n && *v.add(i) == *name.add(i) { i += 1; }
        if i == n && *v.add(n) == b'=' { return v.add(n + 1); }
        e = e.add(1);
    }
    null_mut()
}
#[no_mangle]
unsafe extern "C" fn getpid() -> i32 {
    if registered() && th().in_sut { return 2 + (sim().env.rand_seed >> 8) as i32 % 1_000_000; }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
unsafe extern "C" fn gettid() -> i32 {
    if registered() && th().in_sut { return 2 + (sim().env.rand_seed >> 8) as i32 % 1_000_000 + th().id as i32; }
    raw(186, 0, 0, 0, 0, 0, 0) as i32
}
/// How many processors there are.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, mask: *mut u8) -> i32 {
    if registered() && th().in_sut {
        let n = 1 + (sim().env.envvar % 64) as usize;
        for i in 0..len { *mask.add(i) = 0; }
        for i in 0..n { if i / 8 < len { *mask.add(i / 8) |= 1 << (i % 8); } }
        return 0;
    }
    let r = raw(204, pid as usize, len, mask as usize, 0, 0, 0);
    if r < 0 { errno(-r as i32); return -1; }
    for i in r as usize..len { *mask.add(i) = 0; }
    0
}

// ---------------------------------------------------------------- the processor's time-stamp counter
#[repr(C)]
struct KAct { handler: usize, flags: u64, restorer: usize, mask: u64 }
std::arch::global_asm!(".globl psim_restore", "psim_restore:", "mov rax, 15", "syscall");
extern "C" { fn psim_restore(); }
/// Reading the counter faults; the handler supplies simulated time.
unsafe extern "C" fn on_segv(_sig: i32, _info: *const u8, uc: *mut u8) {
    let gregs = uc.add(40) as *mut u64; // r8..r15, rdi, rsi, rbp, rbx, rdx, rax, rcx, rsp, rip
    let rip = *gregs.add(16) as *const u8;
    let two = *rip == 0x0f && *rip.add(1) == 0x31;
    let three = *rip == 0x0f && *rip.add(1) == 0x01 && *rip.add(2) == 0xf9;
    if !(two || three) { // a real fault: let it end the process
        let a = KAct { handler: 0, flags: 0x0400_0000, restorer: psim_restore as *const () as usize, mask: 0 };
        raw(13, 11, &a as *const _ as usize, 0, 8, 0, 0);
        return;
    }
    let t = if registered() {
        if th().in_sut { sim().cnt.clock_reads += 1; }
        account(th());
        sim().time().wrapping_mul(3)
    } else { 0 };
    *gregs.add(13) = t & 0xffff_ffff;
    *gregs.add(12) = t >> 32;
    if three { *gregs.add(14) = 0; }
    *gregs.add(16) += if two { 2 } else { 3 };
}
pub fn trap_tsc() {
    unsafe {
        let a = KAct { handler: on_segv as *const () as usize, flags: 0x4400_0004 | 0x0800_0000, restorer: psim_restore as *const () as usize, mask: 0 };
        raw(13, 11, &a as *const _ as usize, 0, 8, 0, 0); // SA_SIGINFO | SA_NODEFER | SA_ONSTACK
        raw(157, 26, 2, 0, 0, 0, 0); // prctl(PR_SET_TSC, PR_TSC_SIGSEGV)
    }
}

// ---------------------------------------------------------------- allocator seam
pub struct SeamAlloc;
#[global_allocator]
static GLOBAL: SeamAlloc = SeamAlloc;

static mut A_LO: usize = 0;
static mut A_HI: usize = 0;
static mut A_CUR: usize = 0;
static mut FREE: [usize; 48] = [0; 48];
const HUGE: usize = 1 << 30;

pub fn arena_init() {
    unsafe {
        for sz in [12usize << 30, 6 << 30, 3 << 30] {
            // RW, PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE: the same addresses in every execution
            let mut p = raw(9, 0x1000_0000_0000, sz, 3, 0x10_4022, usize::MAX, 0);
            if p <= 0 { p = raw(9, 0, sz, 3, 0x4022, usize::MAX, 0); }
            if p > 0 {
                A_LO = p as usize;
                A_HI = A_LO + sz;
                A_CUR = A_LO;
                return;
            }
        }
        panic!("cannot map the arena");
    }
}
pub fn arena_shift(off: u64) { unsafe { A_CUR = A_LO + (off as usize & 0xfffff) * 16; } }

#[inline]
fn class(l: &Layout) -> u32 { (l.size() + PAD).max(2 * l.align()).next_power_of_two().trailing_zeros() }
/// Blocks start somewhere (16-byte aligned, as malloc's do) in the first cache lines of what is set aside for
/// them; the distance is kept just before them.
const PAD: usize = 128;

unsafe fn junk(p: *mut u8, n: usize, seed: u64) {
    let n = n.min(2048);
    let mut x = seed | 1;
    for i in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *p.add(i) = (x >> 56) as u8;
    }
}
unsafe fn sut_alloc(t: &mut Th, l: Layout) -> *mut u8 {
    let s = sim();
    if t.alloc_irq.0 != 0 {
        t.alloc_irq.0 -= 1;
        if t.alloc_irq.0 == 0 && (t.irq_depth as usize) < IRQS { let code = t.alloc_irq.1; interrupt(t, code); }
    }
    t.allocs += 1;
    s.cnt.allocs += 1;
    let mut refuse = s.nomem || l.size() > HUGE;
    if t.deny_in >= 0 {
        if t.deny_in == 0 {
            refuse = true;
            if !t.deny_sticky { t.deny_in = -1; }
        } else { t.deny_in -= 1; }
    }
    if refuse {
        t.denied += 1;
        s.cnt.denied += 1;
        return null_mut();
    }
    let c = class(&l) as usize;
    let sz = 1usize << c;
    let h = crate::rng::mix(s.env.junk ^ 0xa110c, s.cnt.allocs);
    let p = if FREE[c] != 0 && (c > 12 || h % 8 != 0) {
        let p = FREE[c];
        FREE[c] = *(p as *const usize);
        p
    } else {
        let al = sz.min(4096).max(l.align());
        let p = (A_CUR + al - 1) & !(al - 1);
        if p + sz > A_HI { t.denied += 1; s.cnt.denied += 1; return null_mut(); }
        A_CUR = p + sz;
        p
    };
    let off = if l.align() <= 16 { 16 * (1 + (h >> 32) as usize % 8) } else { l.align() };
    *((p + off - 8) as *mut usize) = off;
    let p = (p + off) as *mut u8;
    junk(p, l.size(), s.env.junk ^ p as u64);
    t.live += l.size() as i64;
    t.live_top = t.live_top.max(t.live);
    s.live += l.size() as i64;
    s.live_peak = s.live_peak.max(s.live);
    p
}
unsafe fn sut_free(p: *mut u8, l: Layout) {
    let s = sim();
    if registered() { th().live -= l.size() as i64; }
    s.live -= l.size() as i64;
    junk(p, l.size(), s.env.junk ^ 0xdead);
    let c = class(&l) as usize;
    let b = p as usize - *(p as *mut usize).sub(1);
    *(b as *mut usize) = FREE[c];
    FREE[c] = b;
}
unsafe impl GlobalAlloc for SeamAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let t = me();
        if !t.is_null() && (*t).in_sut && !(*t).unwinding { return sut_alloc(&mut *t, l); }
        System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= A_LO && a < A_HI { sut_free(p, l) } else { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let t = me();
        if !t.is_null() && (*t).in_sut && !(*t).unwinding {
            let p = sut_alloc(&mut *t, l);
            if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        let t = me();
        if (a >= A_LO && a < A_HI) || (!t.is_null() && (*t).in_sut && !(*t).unwinding) {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}
