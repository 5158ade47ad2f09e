//! Executes one scenario in the current (freshly forked) process and judges it.
use crate::rng::{mix, Rng};
use crate::rt::{self, fail, sim, th, Counters, Dec, Policy, Sim, St, Th, CTRL, DEC_CAP, MAXT};
use crate::scen::*;
use std::cell::{RefCell, UnsafeCell};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use sut::{Bits, Cache};

// ------------------------------------------------------------------ result page (shared with the parent)
pub const OK: u32 = 1;
pub const VIOL: u32 = 2;
pub const FOREIGN: u32 = 3;
pub const OBS_CAP: usize = 1 << 16;
#[repr(C)]
pub struct Out {
    pub status: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub nontrivial: u32,
    pub hash: u64,
    pub cnt: Counters,
    pub ops: [u64; 40],
    pub ev: [u64; NEV],
    pub ndec: u64,
    pub nobs: u64,
    pub res: Res,
    pub class: [u8; 32],
    pub msg: [u8; 4096],
    pub decs: [Dec; DEC_CAP],
    pub obs: [u64; OBS_CAP],
}
pub static mut OUT: *mut Out = std::ptr::null_mut();
pub fn out() -> &'static mut Out { unsafe { &mut *OUT } }

macro_rules! evs { ($($n:ident),*) => {
    #[allow(non_camel_case_types)] #[derive(Clone, Copy)] #[repr(usize)] pub enum Ev { $($n),* , N_ }
    pub const EV_NAMES: &[&str] = &[$(stringify!($n)),*];
} }
evs!(call_ok, call_panic, call_out_of_memory, lookup_hit, lookup_miss, lookup_panic, lookup_out_of_memory, retain_kept, retain_dropped,
    predicate_panic, clone_ok, clone_failed, capacity_failed, shrink_failed, writer_error, audit_checks, fills_without_memory,
    eq_true, eq_false, call_during_unwind, call_at_thread_exit, concurrent_reads, lock_waits, removed_then_relooked, shrunk_bytes_checked,
    loops_checked, resumed_after_stall, dead_callers, observations, bulk_entries, marathon_calls, thread_restarts, reentrant_calls,
    effect_checks, costs_checked, calls_from_panic_hook, calls_from_allocator, calls_from_writer, calls_from_interruption,
    hook_probes, space_checked, references_held, repeated_operations, visitors, caches_moved, other_fp_modes, crowd_members, reads_inside_reads, texts_after_failure);
pub const NEV: usize = 64;

// ------------------------------------------------------------------ run context
#[derive(Default, Clone, Copy)]
pub struct FixedHasher(u64);
impl Hasher for FixedHasher {
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = mix(self.0, x as u64); } }
    fn write_u64(&mut self, x: u64) { self.0 = mix(self.0 ^ 0x1234_5678_9abc, x); }
    fn finish(&self) -> u64 { self.0 }
}
type Key = (u64, u64);
type Model = HashMap<Key, Bits, BuildHasherDefault<FixedHasher>>;

pub struct Slot {
    cache: Option<Cache>,
    model: Model,
    bytes: i64,
    peak: u64,
    guar: u64,
    fmt_seen: [Option<(u64, u64)>; 2],
    removed: u64,
    /// steps all lookups of new pairs have taken beyond computing them once each, and how many may be taken
    extra: u64,
    allow: u64,
    bulks: Vec<[u64; 5]>,
    readers: u32,
    writer: bool,
}
pub struct Ctx {
    s: Scen,
    slots: Vec<UnsafeCell<Slot>>,
    failed_ops: u64,
    cloned: u64,
    retained: u64,
    shrunk: u64,
    obs: Vec<u64>,
    ops: [u64; 40],
    ev: [u64; NEV],
    in_setup: bool,
    final_phase: bool,
    /// which repetition of the operations each thread is in
    rep: [u64; MAXT + 1],
    base_live: i64,
    /// library calls made in the middle of others
    inside: u64,
    /// leave out the audits for now
    quiet: [bool; MAXT + 1],
    /// the slot that each thread is reading
    reading: [u64; MAXT + 1],
    texts: HashMap<(usize, u64), Texts, BuildHasherDefault<FixedHasher>>,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();
fn ctx() -> &'static mut Ctx { unsafe { &mut *CTX } }
fn ev(e: Ev) { ctx().ev[e as usize] += 1; }

pub fn write_result(status: u32, class: &str, msg: &str) {
    let o = out();
    let s = sim();
    o.cnt = s.cnt;
    o.cnt.steps = s.total;
    o.cnt.sim_ns = s.time().wrapping_sub(s.env.clock_base);
    o.hash = s.hash;
    if !unsafe { CTX.is_null() } {
        let c = ctx();
        o.ops = c.ops;
        o.ev = c.ev;
        let n = c.obs.len().min(OBS_CAP);
        o.nobs = n as u64;
        o.obs[..n].copy_from_slice(&c.obs[..n]);
    }
    let k = class.len().min(32);
    o.class[..k].copy_from_slice(&class.as_bytes()[..k]);
    o.class_len = k as u32;
    let m = msg.len().min(4096);
    o.msg[..m].copy_from_slice(&msg.as_bytes()[..m]);
    o.msg_len = m as u32;
    let n = s.decs.len().min(DEC_CAP);
    o.ndec = n as u64;
    o.decs[..n].copy_from_slice(&s.decs[..n]);
    o.status = status;
}
pub fn exit_now(code: i32) -> ! {
    unsafe { rt::raw(231, code as usize, 0, 0, 0, 0, 0) };
    unreachable!()
}
fn hard_fail(class: &str, msg: String) -> ! {
    if class == "runaway" && rt::registered() && th().fpm != 0 {
        // how iterations end when the caller has chosen another rounding is not ours to judge
        write_result(FOREIGN, class, &msg);
        exit_now(0)
    }
    write_result(VIOL, class, &msg);
    exit_now(0)
}

/// property bit
pub const fn c(i: u8) -> u32 { 1 << i }
fn dynamic() -> u32 {
    let x = ctx();
    let mut m = 0;
    if x.failed_ops > 0 { m |= c(2); }
    if x.cloned > 0 { m |= c(6); }
    if x.s.threads.len() > 1 { m |= c(7); }
    if x.inside > 0 { m |= c(14); }
    m
}
/// A discrepancy that contradicts the properties in `mask`.
fn viol(mask: u32, class: &str, msg: std::fmt::Arguments) {
    th().in_sut = false;
    let p = ctx().s.prop;
    if mask & c(p) != 0 {
        let t = th();
        let txt = if t.id == CTRL { format!("controller: {}", msg) } else { format!("thread {} op {}: {}", t.id, t.op_seq, msg) };
        fail!(class, "{}", txt);
    }
    if p == 10 || p == 11 { return; }
    write_result(FOREIGN, class, &msg.to_string());
    exit_now(0)
}
macro_rules! viol { ($m:expr, $c:expr, $($a:tt)*) => { viol($m, $c, format_args!($($a)*)) } }

fn observe(x: u64) {
    let k = ctx();
    sim().note(x);
    if k.s.prop == 11 && k.obs.len() < OBS_CAP {
        k.obs.push(mix(x, ((th().id as u64) << 32) | th().op_seq));
        k.ev[Ev::observations as usize] += 1;
    }
}
fn hb(b: &Bits) -> u64 { mix(mix(b[0], b[1]), mix(b[2], b[3])) }

// ------------------------------------------------------------------ entering library code
#[derive(Debug, PartialEq, Clone, Copy)]
enum Fail { Panic, Oom, Pred }
struct OomToken;
struct PredToken;

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|i| {
        if rt::registered() && th().in_sut {
            let t = th();
            t.hooked += 1;
            let code = std::mem::take(&mut t.hook_irq);
            if code != 0 {
                ev(Ev::calls_from_panic_hook);
                t.in_hook = true;
                from_inside(|| reenter(code, " (called from the panic hook)"));
                th().in_hook = false;
            }
            t.unwinding = true;
        } else {
            eprintln!("harness panic: {}", i);
            exit_now(97);
        }
    }));
    std::alloc::set_alloc_error_hook(|_| std::panic::panic_any(OomToken));
}

fn enter<R>(bound: u64, f: impl FnOnce() -> R) -> Result<R, Fail> {
    let t = th();
    let (start, lim) = (t.call_start, t.call_bound);
    let first = t.steps;
    let outer = (t.nested, t.hooked, t.waited);
    (t.nested, t.hooked, t.waited) = (0, 0, 0);
    let space = (t.sp_low, t.live0, t.live_top, t.sp_floor);
    (t.sp_low, t.live0, t.live_top) = (usize::MAX, t.live, t.live);
    let sp = rt::stack_pointer();
    t.sp_floor = if ctx().s.prop == 15 { sp.saturating_sub(STACK) } else { 0 };
    let found = fp_mode();
    if t.fpm != 0 { ev(Ev::other_fp_modes); set_fp((found.0 | t.fpm as u32 & 0xe040, found.1 | (t.fpm >> 16) as u16 & 0x0c00)); }
    let mode = fp_mode();
    rt::arm_call(bound);
    paint(sim().env.junk ^ first);
    let unw = t.unwinding;
    t.unwinding = false;
    t.in_sut = true;
    let r = catch_unwind(AssertUnwindSafe(f));
    t.in_sut = false;
    t.unwinding = unw;
    t.call_start = start + (t.steps - first); // a call made from inside another one's callback does not count against that one
    t.call_bound = lim;
    let left = fp_mode();
    if t.fpm != 0 || left != mode { set_fp(found); }
    t.own = t.steps - first - t.nested;
    let (hooked, waited) = (t.hooked, t.waited);
    t.scratch = t.live_top - t.live0;
    t.stack = sp.saturating_sub(t.sp_low.min(sp));
    let kept = t.live - t.live0; // by a call made inside another one: not scratch memory of the other
    (t.sp_low, t.live0, t.live_top, t.sp_floor) = (space.0, space.1 + kept, space.2 + kept, space.3);
    t.nested = outer.0 + (t.steps - first);
    t.hooked = outer.1;
    t.waited = outer.2;
    if left != mode {
        viol!(c(8) | c(13), "fp-mode", "a call changed the thread's floating-point mode from {:x?} to {:x?}", mode, left);
    }
    let r = match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let k = if p.is::<OomToken>() { Fail::Oom } else if p.is::<PredToken>() { Fail::Pred } else { Fail::Panic };
            th().msg = message(&*p);
            drop(p);
            Err(k)
        }
    };
    let x = ctx();
    if x.s.prop == 15 {
        ev(Ev::space_checked);
        if COST_DEBUG { eprint!("{}", format!("SPACE {} {}\n", t.stack, t.scratch)); }
    }
    if x.s.prop == 13 {
        ev(Ev::effect_checks);
        match &r {
            Ok(_) if hooked > 0 => viol!(c(13), "panic-message", "a call reported {} panics (by default, messages on standard error) although it returned", hooked),
            Err(Fail::Panic) if hooked == 0 => viol!(c(13), "panic-hook", "a call panicked without the program's panic hook being called"),
            Err(_) if hooked > 1 => viol!(c(13), "panic-message", "a call that panicked once to its caller reported {} panics", hooked),
            _ => {}
        }
    }
    if x.s.prop == 12 && waited > 0 && (x.s.threads.len() < 2 || waited >= rt::NAP) {
        viol!(c(12), "sleeps", "a call {}", if waited >= rt::NAP { "slept or gave up the processor" } else { "waited although nobody else is running" });
    }
    r
}
/// Work proportional to n entries.
fn linear(n: u64) -> u64 { 5000 + 400 * n }
fn set_fp(m: (u32, u16)) {
    let x = m.0 | csr_flags();
    unsafe { std::arch::asm!("ldmxcsr [{}]", "fldcw [{}]", in(reg) &x, in(reg) &m.1, options(nostack)) };
}
fn fp_mode() -> (u32, u16) {
    let mut w: u16 = 0;
    unsafe { std::arch::asm!("fnstcw [{}]", in(reg) &mut w, options(nostack)) };
    (csr(), w)
}
const COST_DEBUG: bool = false;
/// Finding, testing, reading or counting what is held: the same small amount of work whatever the entry cost
/// to compute and however many entries there are.
const HELD: u64 = 1200;
/// Stack that any call may take, and other memory that a function call may hold at a time.
const STACK: usize = 16_000;
const SCRATCH: i64 = 64_000;
/// A call may take no more work than it takes alone, whatever happened before.
fn cost(limit: u64, what: impl Fn() -> String) {
    let x = ctx();
    if x.s.prop != 12 { return; }
    ev(Ev::costs_checked);
    let own = th().own;
    if COST_DEBUG { let z = format!("COST {} {} {}\n", own, limit, what()); eprint!("{}", z); }
    if own > limit {
        viol!(c(12), "cost", "{} took {} steps, more than the {} allowed", what(), own, limit);
    }
}
/// Leave arbitrary bytes on the stack where the library's frames are about to be.
#[inline(never)]
fn paint(seed: u64) {
    let mut a = [0u64; 320];
    let mut x = seed | 1;
    for v in a.iter_mut() { x = x.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29); *v = x; }
    std::hint::black_box(&a);
}
fn set_deny(d: u64) {
    let t = th();
    t.denied = 0;
    if d == 0 { t.deny_in = -1; } else {
        t.deny_in = (d & 0xffff_ffff) as i64 - 1;
        t.deny_sticky = d >> 32 != 0;
    }
}
fn clear_deny() -> bool {
    let t = th();
    t.deny_in = -1;
    t.denied > 0
}
fn while_unwinding(f: impl FnOnce()) {
    struct D<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for D<F> { fn drop(&mut self) { (self.0.take().unwrap())() } }
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _d = D(Some(f));
        resume_unwind(Box::new(()));
    }));
}
fn csr() -> u32 {
    let mut x: u32 = 0;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack)) };
    x & 0xffc0
}
/// The words of a panic.
fn message(p: &(dyn std::any::Any + Send)) -> u64 {
    let s = if let Some(s) = p.downcast_ref::<&'static str>() { s } else if let Some(s) = p.downcast_ref::<String>() { s.as_str() } else { return 1 };
    s.bytes().fold(2, |h, b| mix(h, b as u64)) | 2
}
fn csr_flags() -> u32 {
    let mut x: u32 = 0;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack)) };
    x & 0x3f
}
fn bound(steps: u64, len: u64) -> u64 {
    if ctx().s.prop == 9 { 4 * steps + 20_000 + 400 * (len + 16) } else { 8 * steps + 500_000 + 2000 * (len + 64) }
}

// ------------------------------------------------------------------ function calls
fn do_call(cs: &CallSpec, dn: u64, what: &str) {
    set_deny(dn);
    let r = enter(bound(cs.exp.steps, 0), || sut::call(cs.f, &cs.a));
    let denied = clear_deny();
    cost(cs.exp.steps * 5 / 4 + 400, || format!("{}{}, which takes {} steps when it is the only call,", show_call(cs), what, cs.exp.steps));
    if th().scratch > SCRATCH {
        viol!(c(15), "scratch-memory", "{}{} held {} bytes at a time, more than the {} allowed", show_call(cs), what, th().scratch, SCRATCH);
    }
    let m8 = c(8) | dynamic() & c(14);
    if th().fpm != 0 { return; } // other values are to be expected
    match r {
        Ok(b) => {
            ev(Ev::call_ok);
            observe(hb(&b));
            if cs.exp.st == 1 {
                viol!(m8, "call-no-panic", "{}{} returned {:x?} but panics when it is the only call", show_call(cs), what, b);
            } else if b != cs.exp.bits {
                viol!(m8, "call-value", "{}{} returned {:?} but returns {:?} when it is the only call in a fresh process", show_call(cs), what,
                    b.map(f64::from_bits), cs.exp.bits.map(f64::from_bits));
            }
        }
        Err(k) => {
            observe(0xbad ^ (denied as u64) << 32);
            if denied { ev(Ev::call_out_of_memory) } else { ev(Ev::call_panic) }
            if !denied && cs.exp.st == 0 {
                viol!(m8, "call-panic", "{}{} panicked ({:?}) but returns when it is the only call", show_call(cs), what, k);
            }
            if !denied {
                observe(th().msg);
                if cs.exp.st == 1 && cs.exp.bits[0] != th().msg {
                    viol!(m8, "panic-words", "{}{} panicked with another message than when it is the only call", show_call(cs), what);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ slots
fn slot(i: u64) -> &'static mut Slot { unsafe { &mut *ctx().slots[i as usize].get() } }
fn lock_w(i: u64) {
    loop {
        let s = slot(i);
        if !s.writer && s.readers == 0 { s.writer = true; return; }
        ev(Ev::lock_waits);
        rt::lock_wait();
    }
}
fn unlock_w(i: u64) { slot(i).writer = false; rt::lock_changed(); }
fn lock_r(i: u64) {
    loop {
        let s = slot(i);
        if !s.writer { s.readers += 1; if s.readers > 1 { ev(Ev::concurrent_reads); } return; }
        ev(Ev::lock_waits);
        rt::lock_wait();
    }
}
fn unlock_r(i: u64) { slot(i).readers -= 1; rt::lock_changed(); }

fn check_bytes(i: u64, what: &str) {
    let s = slot(i);
    s.peak = s.peak.max(s.model.len() as u64);
    let lim = 400 * s.peak as i64 + 4096;
    if s.bytes > lim {
        viol!(c(10), "cache-memory", "slot{}: after {} the cache holds {} bytes although it never held nor was asked to reserve more than {} entries", i, what, s.bytes, s.peak);
    }
}
const M_MEMBER: u32 = c(3);
fn member_mask() -> u32 {
    let x = ctx();
    let mut m = M_MEMBER | dynamic();
    if x.retained > 0 { m |= c(4); }
    if x.shrunk > 0 { m |= c(5); }
    m
}
/// a read failed: it may not panic, and needs no memory
fn read_failed(i: u64, what: &str, k: Fail) {
    let m = if k == Fail::Oom { c(5) | c(7) } else { c(3) | c(7) | dynamic() };
    viol!(m, "read-failed", "slot{}: {} failed with {:?}", i, what, k);
}
/// Compare everything observable about a cache with the model (the caller holds a lock).
fn audit(i: u64, why: &str) {
    if ctx().quiet[th().id] { return; }
    let s = slot(i);
    let x = ctx();
    let Some(cache) = s.cache.as_ref() else { return };
    let kind = cache.kind() as usize;
    let n = s.model.len() as u64;
    let bd = bound(200, n);
    let m = member_mask();
    for p in &x.s.pairs {
        x.ev[Ev::audit_checks as usize] += 1;
        let want = s.model.get(&(p.nu, p.x));
        match enter(bd, || cache.contains(f64::from_bits(p.nu), f64::from_bits(p.x))) {
            Ok(b) => {
                cost(HELD, || format!("slot{} contains{}", i, show_pair(p)));
                observe(b as u64);
                if b != want.is_some() {
                    viol!(m, "membership", "slot{} ({}) {}: contains{} is {} but the pair {}", i, sut::KIND_NAMES[kind], why, show_pair(p), b,
                        if want.is_some() { "was looked up and never removed" } else { "is not in the cache" });
                }
            }
            Err(k) => read_failed(i, "contains", k),
        }
        match enter(bd, || cache.get(f64::from_bits(p.nu), f64::from_bits(p.x))) {
            Ok(g) => {
                cost(HELD, || format!("slot{} get{}", i, show_pair(p)));
                observe(g.map_or(1, |b| hb(&b)));
                if g.is_some() != want.is_some() {
                    viol!(m | if g.is_some() { c(1) } else { 0 }, "membership", "slot{} ({}) {}: get{} gives {:?} but the pair {}", i, sut::KIND_NAMES[kind], why, show_pair(p), g,
                        if want.is_some() { "was looked up and never removed" } else { "is not in the cache" });
                } else if let (Some(g), Some(w)) = (g, want) {
                    if g != *w { viol!(m | c(1), "stored-value", "slot{} ({}) {}: get{} gives {:?}, the stored result was {:?}", i, sut::KIND_NAMES[kind], why, show_pair(p), g.map(f64::from_bits), w.map(f64::from_bits)); }
                }
            }
            Err(k) => read_failed(i, "get", k),
        }
    }
    match enter(bd, || (cache.len(), cache.is_empty())) {
        Ok((l, e)) => {
            cost(HELD, || format!("slot{} len and is_empty", i));
            observe(l as u64 * 2 + e as u64);
            if l as u64 != n || e != (n == 0) {
                viol!(m, "length", "slot{} ({}) {}: len is {} and is_empty is {} but {} pairs are held", i, sut::KIND_NAMES[kind], why, l, e, n);
            }
        }
        Err(k) => read_failed(i, "len", k),
    }
}

fn lookup(i: u64, nu: u64, x: u64, exp: &Res, dn: u64, check_value: bool) {
    let s = slot(i);
    let Some(cache) = s.cache.as_mut() else { return };
    let kind = cache.kind() as usize;
    let hit = s.model.contains_key(&(nu, x));
    let len = s.model.len() as u64;
    let t = th();
    let l0 = t.live;
    set_deny(dn);
    let r = enter(bound(exp.steps, len), || cache.lookup(f64::from_bits(nu), f64::from_bits(x)));
    let denied = clear_deny();
    s.bytes += t.live - l0;
    let own = t.own;
    let nm = |i: u64| format!("slot{} ({}) lookup(nu={:?}, x={:?})", i, sut::KIND_NAMES[kind], f64::from_bits(nu), f64::from_bits(x));
    match r {
        Ok(b) => {
            observe(hb(&b));
            if ctx().s.prop == 12 {
                if hit { cost(HELD, || format!("{} of a pair in the cache", nm(i))); } else {
                    cost(exp.steps * 3 / 2 + 3000 + 400 * (s.peak.max(len) + 64), || format!("{} of a new pair, which takes {} steps to compute and goes into a cache of {} entries,", nm(i), exp.steps, len));
                    s.extra += own.saturating_sub(exp.steps * 5 / 4);
                    s.allow += 2500;
                    if s.extra > s.allow + 500 * (s.peak.max(len) + 64) {
                        viol!(c(12), "cost", "slot{}: the lookups of {} new pairs took {} steps more than computing each once", i, s.model.len() + 1, s.extra);
                    }
                }
            }
            if hit { ev(Ev::lookup_hit) } else { ev(Ev::lookup_miss); if s.removed > 0 { ev(Ev::removed_then_relooked) } }
            if check_value {
                if exp.st == 1 {
                    viol!(c(1) | dynamic(), "lookup-no-panic", "{} returned {:?} although the uncached function panics", nm(i), b.map(f64::from_bits));
                } else if b != exp.bits {
                    viol!(c(1) | dynamic(), "lookup-value", "{} returned {:?}, the uncached function returns {:?}", nm(i), b.map(f64::from_bits), exp.bits.map(f64::from_bits));
                }
            }
            if !hit {
                s.model.insert((nu, x), b);
                s.guar = s.guar.saturating_sub(1);
                s.fmt_seen = [None; 2];
            }
            check_bytes(i, "a lookup");
        }
        Err(k) => {
            observe(0xbad0 + denied as u64);
            if !denied { observe(th().msg); }
            ctx().failed_ops += 1;
            if denied { ev(Ev::lookup_out_of_memory) } else { ev(Ev::lookup_panic) }
            if denied && exp.st == 0 && (hit || s.guar > 0) {
                viol!(c(5), "needed-memory", "{} needed memory although {}", nm(i), if hit { "the pair is in the cache".to_string() } else { format!("room for {} more entries was reserved", s.guar) });
            }
            if !denied && exp.st == 0 {
                viol!(c(1) | c(3) | dynamic(), "lookup-panic", "{} panicked ({:?}) although the uncached function returns", nm(i), k);
            }
            check_bytes(i, "a failed lookup");
            audit(i, "after a failed lookup");
        }
    }
}
fn bulk_key(p: &[u64; 5], j: u64) -> (u64, u64) { (p[1], p[2].wrapping_add(j.wrapping_mul(p[3]))) }

fn pred(mode: u64, salt: u64, k: Key) -> bool {
    match mode {
        0 => true,
        1 => false,
        _ => mix(mix(salt, k.0), k.1) % mode != 0,
    }
}

/// A writer that may refuse, or use the library itself.  `hash` does not depend on the order of the words.
struct LimitedWriter { n: u64, limit: u64, hash: u64, word: u64, failed: bool, reenter: u64, calls: u64 }
impl std::fmt::Write for LimitedWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        if self.reenter != 0 && self.calls % 7 == 3 && self.calls < 30 {
            ev(Ev::calls_from_writer);
            from_inside(|| reenter(self.reenter, " (called from a formatter's writer)"));
        }
        for &b in s.as_bytes() {
            if self.n >= self.limit { self.failed = true; return Err(std::fmt::Error); }
            self.n += 1;
            if b.is_ascii_alphanumeric() || matches!(b, b'.' | b'-' | b'+' | b'_') {
                self.word = mix(self.word, b as u64);
            } else {
                self.hash = self.hash.wrapping_add(mix(self.word, 0x77) ^ mix(b as u64, 0x78));
                self.word = 0;
            }
        }
        Ok(())
    }
}
/// Harness code that runs in the middle of a library call.
fn from_inside<R>(f: impl FnOnce() -> R) -> R {
    let t = th();
    let (a, b) = (t.in_sut, t.unwinding);
    t.in_sut = false;
    t.unwinding = false;
    let r = f();
    t.in_sut = a;
    t.unwinding = b;
    r
}

fn replace(d: u64, cache: Option<Cache>, model: Model, bytes: i64, peak: u64, guar: u64) {
    let s = slot(d);
    let old = std::mem::replace(&mut s.cache, cache);
    if let Some(o) = old {
        let ob = s.bytes;
        let t = th();
        let l0 = t.live;
        if let Err(k) = enter(bound(200, s.model.len() as u64), || sut::drop_cache(o)) {
            viol!(c(6) | c(10) | c(2) | if k == Fail::Oom { c(5) } else { 0 }, "drop-failed", "slot{}: dropping a cache failed with {:?}", d, k);
        }
        let freed = l0 - t.live;
        if freed < ob {
            viol!(c(10), "drop-leak", "slot{}: dropping a cache released {} of the {} bytes it held", d, freed, ob);
        }
    }
    s.model = model;
    s.bytes = bytes;
    s.peak = peak;
    s.guar = guar;
    s.fmt_seen = [None; 2];
    s.removed = 0;
    (s.extra, s.allow) = (0, 0);
    s.bulks.clear();
}

fn model_eq(a: &Model, b: &Model, kind: u64) -> bool {
    let n = if kind < 2 { 4 } else { 2 };
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| (0..n).all(|j| f64::from_bits(v[j]) == f64::from_bits(w[j]))))
}

fn exec(o: &Op) {
    let x = ctx();
    let p = &o.p;
    x.ops[o.k as usize] += 1;
    let t = th();
    match o.k {
        K::Call => { if let Some(cs) = x.s.calls.get(p[0] as usize) { do_call(cs, p[1], "") } }
        K::Unwind if p[1] != 0 => {
            ev(Ev::call_during_unwind);
            while_unwinding(|| own_cache(p[1], " (while unwinding)"));
        }
        K::Unwind => {
            if let Some(cs) = x.s.calls.get(p[0] as usize) {
                ev(Ev::call_during_unwind);
                while_unwinding(|| do_call(cs, 0, " (called while unwinding)"));
            }
        }
        K::Teardown | K::Again => {} // collected at thread start
        K::Burst => {
            let n = x.s.calls.len() as u64;
            if n == 0 { return; }
            let k = p[1].clamp(1, n);
            for j in 0..p[2] {
                x.ev[Ev::marathon_calls as usize] += 1;
                let cs = &x.s.calls[((p[0] + mix(p[3], j) % k) % n) as usize];
                do_call(cs, 0, " (in a long series of calls)");
            }
        }
        K::Visitors => visitors(p),
        K::Spray => {
            if let Some(cs) = x.s.calls.get(p[0] as usize) {
                let i = (p[1] as usize).min(2);
                for j in 0..p[3] {
                    let mut a = cs.a;
                    a[i] = a[i].wrapping_add((x.rep[t.id] * p[3] + j + 1).wrapping_mul(p[2]));
                    x.ev[Ev::marathon_calls as usize] += 1;
                    let r = enter(bound(400_000, 0), || sut::call(cs.f, &a));
                    observe(r.map_or(5, |b| hb(&b)));
                }
            }
        }
        K::Clock => {
            let s = sim();
            s.now = s.now.wrapping_add(p[0]);
            s.wall_off = p[1];
            s.cnt.clock_jumps += 1;
        }
        K::NoMem => sim().nomem = p[0] != 0,
        K::FpMode => t.fpm = p[0],
        K::Irq => match p[0] {
            0 => rt::interrupt_in(p[1], p[2]),
            1 => t.alloc_irq = (p[1].max(1), p[2]),
            _ => t.hook_irq = p[2],
        },
        K::New => {
            lock_w(p[0]);
            let l0 = t.live;
            let n = p[3];
            set_deny(p[4]);
            let r = enter(bound(2000, if n < 1 << 22 { n } else { 0 }), || match p[2] { 0 => Cache::new(p[1]), 1 => Cache::default(p[1]), _ => Cache::with_capacity(p[1], n as usize) });
            let denied = clear_deny();
            let b = t.live - l0;
            match r {
                Ok(cc) => {
                    let cap = if p[2] == 2 { n } else { 0 };
                    if cap == 0 && b != 0 && p[2] != 1 {
                        viol!(c(5), "empty-allocates", "slot{}: creating an empty cache took {} bytes", p[0], b);
                    }
                    replace(p[0], Some(cc), Model::default(), b, cap, cap);
                    check_bytes(p[0], "creation");
                    audit(p[0], "after creation");
                }
                Err(k) => {
                    observe(0xbad1);
                    ev(Ev::capacity_failed);
                    if p[2] != 2 || n == 0 { viol!(c(5), "empty-allocates", "slot{}: creating an empty cache failed with {:?}", p[0], k); }
                    if !denied && n < 1 << 40 { viol!(c(5), "capacity-failed", "slot{}: with_capacity({}) failed with {:?} although no memory was refused", p[0], n, k); }
                    if b > 0 { viol!(c(10), "leak-on-failure", "slot{}: failed with_capacity({}) leaked {} bytes", p[0], n, b); }
                    audit(p[0], "after another cache could not be created");
                }
            }
            unlock_w(p[0]);
        }
        K::Drop => {
            lock_w(p[0]);
            replace(p[0], None, Model::default(), 0, 0, 0);
            unlock_w(p[0]);
        }
        K::Lookup => {
            if let Some(q) = x.s.pairs.get(p[1] as usize) {
                lock_w(p[0]);
                let kind = slot(p[0]).cache.as_ref().map_or(0, |c| c.kind()) as usize;
                lookup(p[0], q.nu, q.x, &q.exp[kind], p[2], true);
                unlock_w(p[0]);
            }
        }
        K::UnwindLookup => {
            if let Some(q) = x.s.pairs.get(p[1] as usize) {
                lock_w(p[0]);
                let kind = slot(p[0]).cache.as_ref().map_or(0, |c| c.kind()) as usize;
                ev(Ev::call_during_unwind);
                while_unwinding(|| lookup(p[0], q.nu, q.x, &q.exp[kind], p[2], true));
                unlock_w(p[0]);
            }
        }
        K::Bulk | K::FillNoMem => {
            lock_w(p[0]);
            if let Some(kind) = slot(p[0]).cache.as_ref().map(|c| c.kind()) {
                let fill = o.k == K::FillNoMem;
                let old = sim().nomem;
                if fill { sim().nomem = true; ev(Ev::fills_without_memory); }
                let mut j = 0;
                let mut done = 0;
                let n = if fill { p[4].min(slot(p[0]).guar) } else { p[4] };
                while done < n && j < 4 * n + 64 {
                    let (nu, xx) = bulk_key(p, j);
                    j += 1;
                    if fill && slot(p[0]).model.contains_key(&(nu, xx)) { continue; }
                    let check = fill || j % 16 == 1 || matches!(x.s.prop, 1 | 12);
                    let mut exp = Res { st: 0, bits: [0; 4], steps: 400_000 };
                    if check {
                        match enter(bound(400_000, 0), || sut::call(sut::KIND_F[kind as usize], &[nu, xx, 0])) {
                            Ok(b) => { exp.bits = b; exp.steps = th().own; }
                            Err(_) => exp.st = 1,
                        }
                        if exp.st == 1 { continue; }
                    }
                    lookup(p[0], nu, xx, &exp, 0, check);
                    x.ev[Ev::bulk_entries as usize] += 1;
                    done += 1;
                }
                sim().nomem = old;
                if slot(p[0]).bulks.len() < 4 { slot(p[0]).bulks.push(*p); }
                bulk_check(p);
                audit(p[0], "after many lookups");
            }
            unlock_w(p[0]);
        }
        K::BulkCheck => {
            lock_r(p[0]);
            bulk_check(p);
            unlock_r(p[0]);
        }
        K::Get | K::Contains | K::Len | K::IsEmpty => {
            lock_r(p[0]);
            x.reading[t.id] = p[0];
            read_one(o);
            x.reading[t.id] = u64::MAX;
            unlock_r(p[0]);
        }
        K::Clear => {
            lock_w(p[0]);
            let s = slot(p[0]);
            if let Some(cc) = s.cache.as_mut() {
                let n = s.model.len() as u64;
                let l0 = t.live;
                if let Err(k) = enter(bound(200, s.peak), || cc.clear()) {
                    viol!(c(5) | c(3), "clear-failed", "slot{}: clear failed with {:?}", p[0], k);
                }
                cost(linear(s.peak.max(n)), || format!("slot{} clear of {} entries", p[0], n));
                s.bytes += t.live - l0;
                s.guar += n;
                s.removed += n;
                s.model.clear();
                s.fmt_seen = [None; 2];
                check_bytes(p[0], "clear");
                audit(p[0], "after clear");
            }
            unlock_w(p[0]);
        }
        K::Shrink => {
            lock_w(p[0]);
            x.shrunk += 1;
            let s = slot(p[0]);
            if let Some(cc) = s.cache.as_mut() {
                let l0 = t.live;
                set_deny(p[1]);
                let r = enter(bound(200, s.peak + s.model.len() as u64), || cc.shrink());
                let denied = clear_deny();
                s.bytes += t.live - l0;
                s.fmt_seen = [None; 2];
                match r {
                    Ok(()) => {
                        cost(linear(s.peak.max(s.model.len() as u64)), || format!("slot{} shrink_to_fit with {} entries", p[0], s.model.len()));
                        s.allow += linear(s.peak.max(s.model.len() as u64));
                        s.guar = 0;
                        if !denied && !sim().nomem {
                            let n = s.model.len();
                            let kind = cc.kind();
                            let l1 = t.live;
                            if let Ok(tmp) = enter(bound(2000, n as u64), || Cache::with_capacity(kind, n)) {
                                let fresh = t.live - l1;
                                let _ = enter(bound(2000, n as u64), || sut::drop_cache(tmp));
                                ev(Ev::shrunk_bytes_checked);
                                if s.bytes > fresh {
                                    viol!(c(5), "not-shrunk", "slot{}: after shrink_to_fit {} entries still hold {} bytes; a new cache for as many takes {}", p[0], n, s.bytes, fresh);
                                }
                            }
                            s.peak = n as u64;
                        }
                    }
                    Err(k) => {
                        observe(0xbad2);
                        x.failed_ops += 1;
                        ev(Ev::shrink_failed);
                        if !denied { viol!(c(5) | c(2), "shrink-failed", "slot{}: shrink_to_fit failed with {:?} although no memory was refused", p[0], k); }
                    }
                }
                check_bytes(p[0], "shrink_to_fit");
                audit(p[0], "after shrink_to_fit");
            }
            unlock_w(p[0]);
        }
        K::Reserve => {
            lock_w(p[0]);
            let s = slot(p[0]);
            if let Some(cc) = s.cache.as_mut() {
                let n = p[1];
                let l0 = t.live;
                set_deny(p[2]);
                let r = enter(bound(2000, s.model.len() as u64 + if n < 1 << 22 { n } else { 0 }), || cc.reserve(n as usize));
                let denied = clear_deny();
                s.bytes += t.live - l0;
                s.fmt_seen = [None; 2];
                match r {
                    Ok(()) => {
                        cost(linear(s.peak + s.model.len() as u64 + n), || format!("slot{} reserve({}) with {} entries", p[0], n, s.model.len()));
                        observe(1);
                        if n < 1 << 40 {
                            s.guar = s.guar.max(n);
                            s.peak = s.peak.max(s.model.len() as u64 + n);
                        }
                    }
                    Err(k) => {
                        observe(0xbad3);
                        x.failed_ops += 1;
                        ev(Ev::capacity_failed);
                        if n <= s.guar { viol!(c(5), "needed-memory", "slot{}: reserve({}) failed ({:?}) although room for {} more was already reserved", p[0], n, k, s.guar); }
                        if !denied && n < 1 << 40 { viol!(c(5) | c(2), "capacity-failed", "slot{}: reserve({}) failed with {:?} although no memory was refused", p[0], n, k); }
                    }
                }
                check_bytes(p[0], "reserve");
                audit(p[0], "after reserve");
            }
            unlock_w(p[0]);
        }
        K::Retain => {
            lock_w(p[0]);
            retain(o);
            unlock_w(p[0]);
        }
        K::Clone | K::CloneFrom => {
            let (a, d) = (p[0], p[1]);
            if a == d { return; }
            if a < d { lock_r(a); lock_w(d); } else { lock_w(d); lock_r(a); }
            x.reading[t.id] = a;
            clone_op(o);
            x.reading[t.id] = u64::MAX;
            unlock_w(d);
            unlock_r(a);
        }
        K::Swap => {
            let (a, d) = (p[0].min(p[1]), p[0].max(p[1]));
            if a == d { return; }
            lock_w(a);
            lock_w(d);
            let (u, v) = (slot(a), slot(d));
            std::mem::swap(u, v);
            (u.readers, u.writer, v.readers, v.writer) = (0, true, 0, true);
            ev(Ev::caches_moved);
            audit(a, "after being moved");
            audit(d, "after being moved");
            unlock_w(d);
            unlock_w(a);
        }
        K::Crowd => {
            lock_w(p[0]);
            crowd(p);
            audit(p[0], "after a crowd of other caches was made and dropped");
            unlock_w(p[0]);
        }
        K::Eq => {
            let (a, d) = (p[0].min(p[1]), p[0].max(p[1]));
            lock_r(a);
            if d != a { lock_r(d); }
            let (sa, sd) = (slot(p[0]), slot(p[1]));
            if let (Some(ca), Some(cd)) = (sa.cache.as_ref(), sd.cache.as_ref()) {
                if ca.kind() == cd.kind() {
                    let want = model_eq(&sa.model, &sd.model, ca.kind());
                    x.reading[t.id] = p[0];
                    match enter(bound(500, 2 * sa.peak + 2 * sa.model.len() as u64 + sd.model.len() as u64), || ca.same(cd)) {
                        Ok(b) => {
                            cost(linear(sa.peak + sd.peak + sa.model.len() as u64 + sd.model.len() as u64), || format!("slot{} == slot{}", p[0], p[1]));
                            observe(b as u64);
                            ev(if b { Ev::eq_true } else { Ev::eq_false });
                            if b != want { viol!(c(6) | dynamic() & c(7), "equality", "slot{} == slot{} is {} but the caches {} the same pairs with equal values", p[0], p[1], b, if want { "hold" } else { "do not hold" }); }
                        }
                        Err(k) => read_failed(p[0], "==", k),
                    }
                }
            }
            x.reading[t.id] = u64::MAX;
            if d != a { unlock_r(d); }
            unlock_r(a);
        }
        K::Fmt => {
            lock_r(p[0]);
            let s = slot(p[0]);
            if let Some(cc) = s.cache.as_ref() {
                let alt = p[2] != 0;
                let limit = if p[1] == 0 { u64::MAX } else { p[1] };
                let mut w = LimitedWriter { n: 0, limit, hash: 0, word: 0, failed: false, reenter: p[3], calls: 0 };
                x.reading[t.id] = p[0];
                let r = enter(bound(500, 8 * s.peak + 8 * s.model.len() as u64 + 200), || cc.fmt(&mut w, alt).is_ok());
                x.reading[t.id] = u64::MAX;
                match r {
                    Ok(ok) => {
                        if w.failed {
                            ev(Ev::writer_error);
                            x.failed_ops += 1;
                            audit(p[0], "after formatting was cut short");
                            text_after_failure(p[0], alt);
                        } else {
                            observe(w.n ^ (ok as u64) << 60);
                            let s = slot(p[0]);
                            if let Some(old) = s.fmt_seen[alt as usize] {
                                if old != (w.n, w.hash) { viol!(c(7) | dynamic() & c(14), "formatting", "slot{}: formatting an unchanged cache gave two different texts", p[0]); }
                            }
                            s.fmt_seen[alt as usize] = Some((w.n, w.hash));
                        }
                    }
                    Err(k) => read_failed(p[0], "formatting", k),
                }
            }
            unlock_r(p[0]);
        }
        K::Audit => {
            lock_r(p[0]);
            audit(p[0], "at an audit");
            unlock_r(p[0]);
        }
    }
}

/// What a cache prints after a writer failed, compared with a new cache that holds the same.
fn text_after_failure(i: u64, alt: bool) {
    let x = ctx();
    let s = slot(i);
    let Some(cc) = s.cache.as_ref() else { return };
    let kind = cc.kind();
    if s.model.len() > 12 || sim().nomem || x.s.prop == 15 { return; }
    if !s.model.keys().all(|k| x.s.pairs.iter().any(|q| (q.nu, q.x) == *k)) { return; }
    let text = |c: &Cache| {
        let mut w = LimitedWriter { n: 0, limit: u64::MAX, hash: 0, word: 0, failed: false, reenter: 0, calls: 0 };
        enter(bound(50_000, 40), || c.fmt(&mut w, alt).is_ok()).map(|ok| (w.n, w.hash, ok))
    };
    let Ok(mut fresh) = enter(bound(2000, 0), || Cache::new(kind)) else { return };
    let mut whole = true;
    for q in x.s.pairs.iter().filter(|q| s.model.contains_key(&(q.nu, q.x))) {
        whole &= enter(bound(q.exp[kind as usize].steps, 20), || fresh.lookup(f64::from_bits(q.nu), f64::from_bits(q.x))).is_ok();
    }
    let (a, b) = (text(cc), text(&fresh));
    if whole && a.is_ok() && b.is_ok() {
        ev(Ev::texts_after_failure);
        if a != b { viol!(c(2), "text-after-failure", "slot{}: after a writer failed the cache is printed differently from a new one that holds the same {} pairs", i, s.model.len()); }
    }
    let _ = enter(bound(2000, 40), || sut::drop_cache(fresh));
}
/// Reads of the cache that the interrupted operation is reading itself.
fn nested_reads(pair: usize, how: &str) {
    let (x, t) = (ctx(), th());
    let i = x.reading[t.id];
    if i == u64::MAX { return; }
    let s = slot(i);
    let Some(cc) = s.cache.as_ref() else { return };
    let Some(q) = x.s.pairs.get(pair) else { return };
    ev(Ev::reads_inside_reads);
    let n = s.model.len();
    let want = s.model.get(&(q.nu, q.x)).copied();
    let (nu, xx) = (f64::from_bits(q.nu), f64::from_bits(q.x));
    match enter(bound(500, 2 * s.peak + 2 * n as u64), || (cc.contains(nu, xx), cc.get(nu, xx), cc.len(), cc.is_empty(), n > 100 || cc.same(cc))) {
        Ok(g) => {
            let eq = n > 100 || model_eq(&s.model, &s.model, cc.kind());
            if g != (want.is_some(), want, n, n == 0, eq) {
                viol!(c(14), "read-inside", "slot{}: contains, get, len, is_empty and equality with itself{} gave {:?} for {}, the cache holds {} pairs and for this one {:?}", i, how, g, show_pair(q), n, want);
            }
        }
        Err(k) => viol!(c(14), "read-inside", "slot{}: contains, get, len, is_empty or equality with itself{} failed with {:?}", i, how, k),
    }
    if n > 100 { return; }
    let mut w = LimitedWriter { n: 0, limit: u64::MAX, hash: 0, word: 0, failed: false, reenter: 0, calls: 0 };
    match enter(bound(500, 8 * s.peak + 8 * n as u64 + 200), || cc.fmt(&mut w, false).is_ok()) {
        Ok(_) => match s.fmt_seen[0] {
            Some(old) if old != (w.n, w.hash) => viol!(c(14), "read-inside", "slot{}: an unchanged cache was printed differently{}", i, how),
            _ => s.fmt_seen[0] = Some((w.n, w.hash)),
        },
        Err(Fail::Oom) if th().denied > 0 => {}
        Err(k) => viol!(c(14), "read-inside", "slot{}: printing{} failed with {:?}", i, how, k),
    }
}

fn bulk_check(p: &[u64; 5]) {
    let s = slot(p[0]);
    let Some(cc) = s.cache.as_ref() else { return };
    let m = member_mask();
    let n = p[4];
    let bd = bound(200, s.model.len() as u64);
    let stride = (n / 2000).max(1);
    let mut j = 0;
    while j < n + n / 4 + 2 {
        let k = bulk_key(p, j);
        let want = s.model.get(&k);
        match enter(bd, || (cc.contains(f64::from_bits(k.0), f64::from_bits(k.1)), cc.get(f64::from_bits(k.0), f64::from_bits(k.1)))) {
            Ok((b, g)) => {
                cost(2 * HELD, || format!("slot{} with {} entries: contains and get(nu={:?}, x={:?})", p[0], s.model.len(), f64::from_bits(k.0), f64::from_bits(k.1)));
                observe(g.map_or(7, |b| hb(&b)));
                if b != want.is_some() || g.is_some() != want.is_some() {
                    viol!(m | if g.is_some() && want.is_none() { c(1) } else { 0 }, "membership", "slot{} with {} entries: contains/get(nu={:?}, x={:?}) is {}/{:?} but the pair is {}in the cache", p[0], s.model.len(), f64::from_bits(k.0), f64::from_bits(k.1), b, g, if want.is_some() { "" } else { "not " });
                } else if g.as_ref() != want {
                    viol!(m | c(1), "stored-value", "slot{} with {} entries: get(nu={:?}, x={:?}) gives {:?}, the stored result was {:?}", p[0], s.model.len(), f64::from_bits(k.0), f64::from_bits(k.1), g, want);
                }
            }
            Err(k) => read_failed(p[0], "get", k),
        }
        j += stride;
    }
    match enter(bd, || cc.len()) {
        Ok(l) => if l != s.model.len() { viol!(m, "length", "slot{}: len is {} but {} pairs are held", p[0], l, s.model.len()) },
        Err(k) => read_failed(p[0], "len", k),
    }
}

fn read_one(o: &Op) {
    let p = &o.p;
    let s = slot(p[0]);
    let Some(cc) = s.cache.as_ref() else { return };
    let x = ctx();
    let bd = bound(200, s.model.len() as u64);
    let m = member_mask();
    match o.k {
        K::Get | K::Contains => {
            let Some(q) = x.s.pairs.get(p[1] as usize) else { return };
            let want = s.model.get(&(q.nu, q.x));
            if o.k == K::Get && p[2] != 0 {
                // keep the reference while the cache is read in other ways
                let n = x.s.pairs.len() as u64;
                let mut other = || from_inside(|| {
                    for j in 0..p[2] { read_one(&op(if j & 1 == 0 { K::Get } else { K::Contains }, &[p[0], (p[1] + 1 + j % n.max(2) / 2) % n])); }
                    read_one(&op(K::Len, &[p[0]]));
                    if p[2] == 7 {
                        let _ = enter(bd, || cc.fmt(&mut LimitedWriter { n: 0, limit: u64::MAX, hash: 0, word: 0, failed: false, calls: 0, reenter: 0 }, false));
                        let _ = enter(bd, || sut::drop_cache(cc.dup()));
                    }
                    rt::boundary();
                });
                match enter(bd + (p[2] + 3) * bound(2000, s.model.len() as u64), || cc.hold(f64::from_bits(q.nu), f64::from_bits(q.x), &mut other)) {
                    Ok(g) => {
                        ev(Ev::references_held);
                        if g.map(|g| g.0).as_ref() != want || g.map(|g| g.1).as_ref() != want {
                            viol!(m | c(1) | c(7), "held-value", "slot{}: what get{} refers to is {:?} at first and after other reads, the stored result was {:?}", p[0], show_pair(q), g, want);
                        }
                    }
                    Err(k) => read_failed(p[0], "get", k),
                }
            } else if o.k == K::Get {
                match enter(bd, || cc.get(f64::from_bits(q.nu), f64::from_bits(q.x))) {
                    Ok(g) => {
                        cost(HELD, || format!("slot{} get{}", p[0], show_pair(q)));
                        observe(g.map_or(3, |b| hb(&b)));
                        if g.is_some() != want.is_some() { viol!(m | if g.is_some() { c(1) } else { 0 }, "membership", "slot{}: get{} gives {:?} but the pair is {}in the cache", p[0], show_pair(q), g, if want.is_some() { "" } else { "not " }); }
                        else if g.as_ref() != want { viol!(m | c(1), "stored-value", "slot{}: get{} gives {:?}, the stored result was {:?}", p[0], show_pair(q), g, want); }
                    }
                    Err(k) => read_failed(p[0], "get", k),
                }
            } else {
                match enter(bd, || cc.contains(f64::from_bits(q.nu), f64::from_bits(q.x))) {
                    Ok(b) => {
                        cost(HELD, || format!("slot{} contains{}", p[0], show_pair(q)));
                        observe(b as u64);
                        if b != want.is_some() { viol!(m, "membership", "slot{}: contains{} is {}", p[0], show_pair(q), b); }
                    }
                    Err(k) => read_failed(p[0], "contains", k),
                }
            }
        }
        K::Len => match enter(bd, || cc.len()) {
            Ok(l) => { cost(HELD, || format!("slot{} len", p[0])); observe(l as u64); if l != s.model.len() { viol!(m, "length", "slot{}: len is {} but {} pairs are held", p[0], l, s.model.len()); } }
            Err(k) => read_failed(p[0], "len", k),
        },
        _ => match enter(bd, || cc.is_empty()) {
            Ok(e) => { cost(HELD, || format!("slot{} is_empty", p[0])); observe(e as u64); if e != s.model.is_empty() { viol!(m, "length", "slot{}: is_empty is {} but {} pairs are held", p[0], e, s.model.len()); } }
            Err(k) => read_failed(p[0], "is_empty", k),
        },
    }
}

/// Library calls made in the middle of another one: from a retain predicate, a formatter's writer, the panic
/// hook, the allocator, or an interruption.
fn reenter(code: u64, how: &str) {
    if code == 0 { return; }
    if code == PROBE { return hook_probe("while a call was in progress"); }
    let x = ctx();
    let i = (code & 0xffff) as usize - 1;
    ev(Ev::reentrant_calls);
    x.inside += 1;
    let t = th();
    let calm = t.in_hook; // a second panic would end the process
    let (deny, sticky, denied) = (t.deny_in, t.deny_sticky, t.denied);
    t.deny_in = -1;
    t.denied = 0;
    if code >> 32 == 0 {
        if let Some(cs) = x.s.calls.get(i) {
            if !(calm && (cs.exp.st != 0 || sim().nomem)) { do_call(cs, 0, how); }
        }
    } else if code >> 44 & 1 != 0 {
        if !calm { nested_reads(i, how); }
    } else if let Some(q) = x.s.pairs.get(i) {
        let kind = (code >> 33) & 3;
        let exp = &q.exp[kind as usize];
        if exp.st != 2 && !(calm && (exp.st != 0 || sim().nomem)) {
            let (nu, xx) = (f64::from_bits(q.nu), f64::from_bits(q.x));
            let want = x.texts.get(&(i, kind)).copied();
            let room = [0, 0, 3, 20, 7, 40, 60, 300][(code >> 35) as usize & 7];
            let r = enter(bound(exp.steps, 400), || {
                let mut t = if room > 0 { Cache::with_capacity(kind, room) } else { Cache::new(kind) };
                let v = t.lookup(nu, xx);
                let first = (v, t.get(nu, xx), t.contains(nu, xx), t.len(), t.lookup(nu, xx));
                let text = if want.is_some() { Some(texts(&t)) } else { None };
                let mut visits = 0;
                t.retain(&mut |_, _, _| {
                    visits += 1;
                    let deep = code >> 40 & 15; // one retain inside the other
                    if deep > 0 { from_inside(|| reenter(code - (1 << 40), how)); }
                    true
                });
                let mut d = t.dup();
                let r = (d.len(), d.same(&t));
                if room > 0 { // the rest of the interface
                    d.reserve(room + 1);
                    d.shrink();
                    d.clear();
                    let e = (d.is_empty(), d.contains(nu, xx));
                    d.dup_from(&t);
                    if e != (true, false) || d.get(nu, xx) != t.get(nu, xx) { visits += 100; }
                }
                (first, text, visits, r.0, r.1)
            });
            let nan = exp.bits.iter().any(|b| f64::from_bits(*b).is_nan());
            match r {
                Ok(((b, g, h, l, b2), text, visits, n, eq)) if exp.st == 0 && b == exp.bits && g == Some(b) && h && l == 1 && b2 == b && visits == 1 && n == 1 && eq != nan => {
                    if text != want { viol!(c(14), "text-inside", "a fresh {} with {}{} was printed differently from outside", sut::KIND_NAMES[kind as usize], show_pair(q), how); }
                }
                _ if th().fpm != 0 => {}
                Err(Fail::Panic) if exp.st == 1 => {}
                Err(Fail::Oom) if th().denied > 0 => {}
                r => viol!(c(1) | c(4) | dynamic(), "lookup-inside", "lookups of {} in a fresh {}{} gave (lookup, get, contains, len, lookup, texts, retain visits, length of clone, clone equal) {:?} instead of {:?}", show_pair(q), sut::KIND_NAMES[kind as usize], how, r, exp),
            }
        }
    }
    let t = th();
    (t.deny_in, t.deny_sticky, t.denied) = (deny, sticky, denied);
}
/// A cache made, used and dropped on the spot.
fn own_cache(code: u64, how: &str) {
    let n = ctx().inside;
    reenter(code, how);
    ctx().inside = n;
}
/// What a cache prints.
type Texts = [(u64, u64); 2];
fn texts(c: &Cache) -> Texts {
    [false, true].map(|alt| {
        let mut w = LimitedWriter { n: 0, limit: u64::MAX, hash: 0, word: 0, failed: false, reenter: 0, calls: 0 };
        let _ = c.fmt(&mut w, alt);
        (w.n, w.hash)
    })
}
/// What the caches that will be made from inside other calls print when they are made from outside.
fn prepare_texts() {
    let x = ctx();
    let codes: Vec<u64> = x.s.threads.iter().flatten().filter_map(|o| match o.k { K::Irq => Some(o.p[2]), K::Retain => Some(o.p[4]), K::Fmt => Some(o.p[3]), _ => None }).collect();
    for code in codes {
        if code == PROBE || code >> 32 == 0 { continue; }
        let (i, kind) = ((code & 0xffff) as usize - 1, (code >> 33) & 3);
        let Some(q) = x.s.pairs.get(i) else { continue };
        let exp = q.exp[kind as usize];
        if exp.st != 0 || x.texts.contains_key(&(i, kind)) { continue; }
        let r = enter(bound(exp.steps, 64), || {
            let mut c = Cache::new(kind);
            c.lookup(f64::from_bits(q.nu), f64::from_bits(q.x));
            texts(&c)
        });
        if let Ok(t) = r { x.texts.insert((i, kind), t); }
    }
}
/// Instead of a call made from inside another one: does the program's panic hook still run?
pub const PROBE: u64 = 1 << 40;
fn hook_probe(when: &str) {
    let t = th();
    if t.in_hook { return; }
    let h = t.hooked;
    let (a, b) = (t.in_sut, t.unwinding);
    t.unwinding = false;
    t.in_sut = true;
    let r = catch_unwind(|| std::panic::panic_any(PredToken));
    t.in_sut = false;
    drop(r);
    t.unwinding = b;
    let k = t.hooked - h;
    t.hooked = h;
    ev(Ev::hook_probes);
    if k != 1 { viol!(c(13), "panic-hook", "the program's panic hook was not in place {}", when); }
    th().in_sut = a;
}
/// What the library left in std's output buffer comes out now at the latest.
fn flush_probe() {
    let t = th();
    t.in_sut = true;
    let r = std::io::Write::flush(&mut std::io::stdout());
    t.in_sut = false;
    let _ = r;
}
fn on_interrupt(code: u64) {
    let how = if th().alloc_irq == (0, code) && code != 0 {
        th().alloc_irq = (0, 0);
        ev(Ev::calls_from_allocator);
        " (called from the allocator)"
    } else {
        ev(Ev::calls_from_interruption);
        " (called from an interruption)"
    };
    from_inside(|| reenter(code, how));
}
fn on_effect(what: &str) {
    viol!(c(13), "effect", "a library call called {}", what);
}

fn retain(o: &Op) {
    let p = &o.p;
    let x = ctx();
    let s = slot(p[0]);
    let Some(cc) = s.cache.as_mut() else { return };
    x.retained += 1;
    let (mode, salt, panic_at) = (p[1], p[2], p[3]);
    let t = th();
    let model = &s.model;
    let n = model.len();
    let mut seen: std::collections::HashSet<Key, BuildHasherDefault<FixedHasher>> = Default::default();
    let mut order_free = 0u64;
    let mut problem: Option<String> = None;
    let mut visits = 0u64;
    let l0 = t.live;
    let r = {
        let mut f = |nu: u64, xx: u64, v: Bits| -> bool {
            let t = th();
            let unw = t.unwinding;
            t.in_sut = false;
            t.unwinding = false;
            visits += 1;
            let k = (nu, xx);
            order_free = order_free.wrapping_add(mix(mix(nu, xx), hb(&v)));
            if problem.is_none() {
                match model.get(&k) {
                    None => problem = Some(format!("was called with the pair (nu={:?}, x={:?}), which is not in the cache", f64::from_bits(nu), f64::from_bits(xx))),
                    Some(w) if *w != v => problem = Some(format!("was called for (nu={:?}, x={:?}) with {:?}, the stored result is {:?}", f64::from_bits(nu), f64::from_bits(xx), v.map(f64::from_bits), w.map(f64::from_bits))),
                    _ => if !seen.insert(k) { problem = Some(format!("was called twice for (nu={:?}, x={:?})", f64::from_bits(nu), f64::from_bits(xx))) },
                }
            }
            rt::boundary();
            if visits <= 3 { reenter(p[4], " (called from a retain predicate)"); }
            let ans = pred(mode, salt, k);
            t.in_sut = true;
            if panic_at != 0 && visits == panic_at {
                seen.remove(&k); // not decided
                t.unwinding = true;
                resume_unwind(Box::new(PredToken));
            }
            t.unwinding = unw;
            ans
        };
        enter(bound(500, 4 * s.peak + 4 * n as u64), || cc.retain(&mut f))
    };
    s.bytes += t.live - l0;
    s.fmt_seen = [None; 2];
    if let Some(m) = problem {
        viol!(c(4), "predicate-call", "slot{}: the retain predicate {}", p[0], m);
    }
    match r {
        Ok(()) => {
            cost(linear(s.peak + n as u64), || format!("slot{} retain over {} entries", p[0], n));
            s.allow += linear(s.peak + n as u64);
            observe(order_free);
            if visits != n as u64 {
                viol!(c(4), "predicate-count", "slot{}: retain called the predicate {} times for {} entries", p[0], visits, n);
            }
            s.model.retain(|k, _| pred(mode, salt, *k));
            let kept = s.model.len();
            s.removed += (n - kept) as u64;
            x.ev[Ev::retain_kept as usize] += kept as u64;
            x.ev[Ev::retain_dropped as usize] += (n - kept) as u64;
        }
        Err(Fail::Pred) => {
            observe(0xbad4);
            ev(Ev::predicate_panic);
            x.failed_ops += 1;
            // rejected entries may or may not be gone; everything else must be there
            let gone: Vec<Key> = seen.iter().filter(|k| !pred(mode, salt, **k)).copied().collect();
            for k in gone {
                let cc = s.cache.as_ref().unwrap();
                match enter(bound(200, n as u64), || cc.contains(f64::from_bits(k.0), f64::from_bits(k.1))) {
                    Ok(false) => { s.model.remove(&k); s.removed += 1; }
                    Ok(true) => {}
                    Err(f) => read_failed(p[0], "contains", f),
                }
            }
        }
        Err(k) => {
            viol!(if k == Fail::Oom { c(5) | c(4) } else { c(4) }, "retain-failed", "slot{}: retain failed with {:?} although the predicate did not", p[0], k);
        }
    }
    check_bytes(p[0], "retain");
    audit(p[0], "after retain");
}

fn clone_op(o: &Op) {
    let p = &o.p;
    let (a, d) = (p[0], p[1]);
    let x = ctx();
    let t = th();
    let sa = slot(a);
    let Some(src) = sa.cache.as_ref() else { return };
    x.cloned += 1;
    let n = sa.model.len() as u64;
    let bd = bound(2000, 4 * sa.peak + 4 * n);
    let l0 = t.live;
    if o.k == K::Clone {
        set_deny(p[2]);
        let r = enter(bd, || src.dup());
        let denied = clear_deny();
        let b = t.live - l0;
        match r {
            Ok(cc) => {
                cost(linear(sa.peak.max(n)), || format!("cloning slot{} with {} entries", a, n));
                observe(1);
                ev(Ev::clone_ok);
                let mut m = Model::default();
                m.clone_from(&sa.model);
                let nan = !model_eq(&sa.model, &sa.model, src.kind());
                match enter(bd, || cc.same(src) && src.same(&cc)) {
                    Ok(e) => if !e && !nan { viol!(c(6), "clone-differs", "a clone of slot{} does not compare equal to it", a) },
                    Err(k) => read_failed(a, "==", k),
                }
                replace(d, Some(cc), m, b, sa.peak.max(n), 0);
                slot(d).bulks.clone_from(&sa.bulks);
                check_bytes(d, "clone");
            }
            Err(k) => {
                observe(0xbad5);
                ev(Ev::clone_failed);
                x.failed_ops += 1;
                if !denied { viol!(c(6) | c(2), "clone-failed", "cloning slot{} failed with {:?} although no memory was refused", a, k); }
                if b > 0 { viol!(c(10), "leak-on-failure", "a failed clone of slot{} leaked {} bytes", a, b); }
            }
        }
    } else {
        let sd = slot(d);
        let Some(dst) = sd.cache.as_mut() else { return };
        if dst.kind() != src.kind() { return; }
        set_deny(p[2]);
        let r = enter(bd + bound(2000, 4 * sd.peak), || dst.dup_from(src));
        let denied = clear_deny();
        sd.bytes += t.live - l0;
        match r {
            Ok(()) => {
                cost(linear(sa.peak.max(n) + sd.peak), || format!("overwriting slot{} with a clone of slot{}, {} entries", d, a, n));
                sd.allow += linear(sa.peak.max(n));
                observe(1);
                ev(Ev::clone_ok);
                sd.model.clone_from(&sa.model);
                sd.bulks.clone_from(&sa.bulks);
                sd.peak = sd.peak.max(sa.peak).max(n);
                sd.guar = 0;
                sd.fmt_seen = [None; 2];
            }
            Err(k) => {
                observe(0xbad6);
                ev(Ev::clone_failed);
                x.failed_ops += 1;
                if !denied { viol!(c(6) | c(2), "clone-failed", "overwriting slot{} with a clone of slot{} failed with {:?} although no memory was refused", d, a, k); }
            }
        }
        check_bytes(d, "clone_from");
    }
    audit(a, "after being cloned");
    audit(d, "after receiving a clone");
}

/// A member of a crowd: a clone of the slot's cache, or a new cache, and what else was looked up in it.
struct Member { cache: Cache, own: Option<usize>, cleared: bool }
/// Many clones of one cache, or many new caches, alive together or one after another: counts of them run over.
fn crowd(p: &[u64; 5]) {
    let x = ctx();
    let t = th();
    let s = slot(p[0]);
    let Some(src) = s.cache.as_ref() else { return };
    let kind = src.kind();
    let (alive, cloned) = (p[3] & 1 != 0, p[3] & 2 != 0);
    let good: Vec<usize> = (0..x.s.pairs.len()).filter(|i| x.s.pairs[*i].exp[kind as usize].st == 0).collect();
    let cheap: Vec<usize> = good.iter().copied().filter(|i| x.s.pairs[*i].exp[kind as usize].steps < 3000).collect();
    let good = if x.s.prop == 12 && !cheap.is_empty() { cheap } else { good };
    let n0 = s.model.len() as u64;
    let l0 = t.live;
    let start = t.steps;
    let mut all: Vec<Member> = Vec::new();
    let (name, m) = (sut::KIND_NAMES[kind as usize], member_mask() | if cloned { c(6) } else { dynamic() });
    let check = |e: &Member, i: u64, when: &str| {
        let has = |j: usize| !e.cleared && (e.own == Some(j) || cloned && s.model.contains_key(&(x.s.pairs[j].nu, x.s.pairs[j].x)));
        let want = if e.cleared { 0 } else { (if cloned { n0 } else { 0 }) + e.own.map_or(0, |j| !(cloned && s.model.contains_key(&(x.s.pairs[j].nu, x.s.pairs[j].x))) as u64) };
        match enter(bound(200, n0), || (e.cache.len(), e.cache.is_empty())) {
            Ok((l, z)) => if l as u64 != want || z != (want == 0) {
                viol!(m, "length", "member {} of a crowd of {} {} of {}: {}len is {} and is_empty is {} but {} pairs are held", i, p[1], if cloned { "clones" } else { "new caches" }, name, when, l, z, want);
            },
            Err(k) => read_failed(p[0], "len", k),
        }
        for j in (0..x.s.pairs.len()).filter(|j| (p[4] ^ i ^ *j as u64) % 3 == 0 || e.own == Some(*j)) {
            let q = &x.s.pairs[j];
            match enter(bound(200, n0), || e.cache.get(f64::from_bits(q.nu), f64::from_bits(q.x))) {
                Ok(g) => if g.is_some() != has(j) || g.map_or(false, |b| b != q.exp[kind as usize].bits) {
                    viol!(m | c(1), "membership", "member {} of a crowd of {} {} of {}: {}get{} gives {:?}, which should {}be there", i, p[1], if cloned { "clones" } else { "new caches" }, name, when, show_pair(q), g, if has(j) { "" } else { "not " });
                },
                Err(k) => read_failed(p[0], "get", k),
            }
        }
    };
    if cloned { x.cloned += 1; }
    // one pair is asked about in every member, and last found in the slot's cache
    let asked = (p[2] as usize).min(x.s.pairs.len().saturating_sub(1));
    let (anu, ax) = x.s.pairs.get(asked).map_or((0, 0), |q| (q.nu, q.x));
    let there = s.model.contains_key(&(anu, ax));
    let _ = enter(bound(200, n0), || src.contains(f64::from_bits(anu), f64::from_bits(ax)));
    for i in 0..p[1] {
        if t.steps - start > 20_000_000 || t.live - l0 > 256 << 20 { break; }
        rt::boundary();
        ev(Ev::crowd_members);
        let r = enter(bound(2000, 4 * s.peak + 4 * n0), || if cloned { src.dup() } else { Cache::new(kind) });
        let Ok(cache) = r else {
            if let Err(k) = r { if k != Fail::Oom { viol!(c(6) | c(1), "clone-failed", "member {} of a crowd of {} could not be made: {:?}", i, name, k); } }
            break;
        };
        cost(linear(s.peak.max(n0)), || format!("making member {} of a crowd of {} with {} entries", i, p[1], if cloned { n0 } else { 0 }));
        let mut e = Member { cache, own: None, cleared: false };
        let full = i < 4 || i + 4 > p[1] || mix(p[4], i) % 16 == 0 || (i & (i.wrapping_sub(1))).count_ones() == 0;
        match enter(bound(200, n0), || e.cache.contains(f64::from_bits(anu), f64::from_bits(ax))) {
            Ok(b) => if { cost(HELD, || format!("contains(nu={:?}, x={:?}) of member {} of a crowd of {}", f64::from_bits(anu), f64::from_bits(ax), i, p[1])); b != (cloned && there) } { viol!(m, "membership", "member {} of a crowd of {} {} of {}: contains(nu={:?}, x={:?}) is {} as soon as it is made", i, p[1], if cloned { "clones" } else { "new caches" }, name, f64::from_bits(anu), f64::from_bits(ax), b); },
            Err(k) => read_failed(p[0], "contains", k),
        }
        if full && p[4] & 16 == 0 { check(&e, i, "as made, "); }
        if !good.is_empty() && (!cloned || full) && (alive || p[4] & 16 == 0) {
            let j = good[((p[2] + i * (p[4] % 3)) % good.len() as u64) as usize];
            let q = &x.s.pairs[j];
            let exp = &q.exp[kind as usize];
            match enter(bound(exp.steps, n0), || e.cache.lookup(f64::from_bits(q.nu), f64::from_bits(q.x))) {
                Ok(b) => {
                    e.own = Some(j);
                    cost(exp.steps * 3 / 2 + 3000 + 400 * (if cloned { n0 + s.peak } else { 0 } + 8), || format!("lookup{} by member {} of a crowd of {}", show_pair(q), i, p[1]));
                    if b != exp.bits { viol!(c(1) | dynamic(), "lookup-value", "member {} of a crowd of {}: lookup{} returned {:?}, the uncached function returns {:?}", i, name, show_pair(q), b.map(f64::from_bits), exp.bits.map(f64::from_bits)); }
                }
                Err(Fail::Oom) => {}
                Err(k) => { viol!(c(1) | c(3) | dynamic(), "lookup-panic", "member {} of a crowd of {}: lookup{} panicked ({:?}) although the uncached function returns", i, name, show_pair(q), k); }
            }
            if full && p[4] & 16 == 0 { check(&e, i, "after a lookup, "); }
        }
        if alive { all.push(e); } else {
            let d = enter(bound(200, n0), || sut::drop_cache(e.cache));
            cost(linear(s.peak.max(n0) + 4), || format!("dropping member {} of a crowd of {}", i, p[1]));
            if let Err(k) = d { viol!(c(6) | c(10), "drop-failed", "dropping member {} of a crowd of {} failed with {:?}", i, name, k); }
        }
    }
    let made = all.len() as u64;
    for r in 0..made.min(12) {
        let i = mix(p[4], r + 77) % made;
        let e = &mut all[i as usize];
        let r = enter(bound(200, n0 + s.peak), || e.cache.clear());
        e.cleared = true;
        if let Err(k) = r { viol!(c(5) | c(2), "clear-failed", "clearing member {} of a crowd of {} failed with {:?}", i, name, k); }
        check(&all[i as usize], i, "after being cleared, ");
    }
    for r in 0..made.min(24) {
        let i = if r < 4 { [0, made - 1, made / 2, made.min(256) - 1][r as usize] } else { mix(p[4], r + 99) % made };
        check(&all[i as usize], i, "when all are made, ");
    }
    if p[4] & 8 != 0 { all.reverse(); }
    let half = all.len() / 2;
    for i in 0..made as usize {
        let Some(e) = all.pop() else { break };
        let d = enter(bound(200, n0), || sut::drop_cache(e.cache));
        cost(linear(s.peak.max(n0) + 4), || format!("dropping a member of a crowd of {}", p[1]));
        if let Err(k) = d { viol!(c(6) | c(10), "drop-failed", "dropping a member of a crowd of {} failed with {:?}", name, k); }
        if i == half || mix(p[4], i as u64) % 64 == 0 {
            rt::boundary();
            if let Some(e) = all.last() { check(e, i as u64, "when others were dropped, "); }
        }
    }
    let held = t.live - l0;
    if p[1] >= 200 && held > 4096 + 8 * p[1] as i64 { viol!(c(10), "leak", "after all of a crowd of {} {} were dropped, {} bytes more are held", p[1], name, held); }
}

// ------------------------------------------------------------------ threads
struct Guard(RefCell<Vec<Op>>);
impl Drop for Guard {
    fn drop(&mut self) {
        LAST.with(|_| ()); // its destructor runs after those of everything first used from here on
        let t = th();
        t.exiting = false;
        for o in self.0.borrow().iter() {
            ev(Ev::call_at_thread_exit);
            t.op_seq += 1;
            if o.p[1] != 0 { own_cache(o.p[1], " (while the thread exits)"); }
            else { do_call(&ctx().s.calls[o.p[0] as usize], 0, " (called while the thread exits)"); }
            rt::boundary();
        }
        t.exiting = true;
    }
}
struct Last;
impl Drop for Last { fn drop(&mut self) { th().exiting = false; rt::finish(); } }
thread_local! { static LAST: Last = const { Last }; }
thread_local! { static GUARD: Guard = Guard(RefCell::new(vec![])); }

fn client(id: usize) {
    rt::register(id);
    rt::arrive();
    rt::await_token(id);
    let ops = &ctx().s.threads[id];
    GUARD.with(|g| {
        let mut v = g.0.borrow_mut();
        for o in ops {
            if o.k == K::Teardown && (o.p[1] != 0 || (o.p[0] as usize) < ctx().s.calls.len()) { v.push(*o); }
        }
    });
    burn(sim().env.tid_shift & 63, &mut || run_ops(ops));
    th().exiting = true;
}
/// Threads have names or not.
fn builder(i: u64) -> std::thread::Builder {
    let b = std::thread::Builder::new().stack_size(1 << 20);
    match mix(sim().env.tid_shift, i) % 7 {
        _ if sim().env.tid_shift == 0 => b,
        0 => b.name("main".into()),
        1 => b.name("worker".into()),
        2 => b.name(String::new()),
        3 => b.name(format!("w-{:x}", mix(sim().env.junk, i))),
        _ => b,
    }
}
/// Threads that come one after another, each making one call (or none) and leaving for good.
fn visitors(p: &[u64; 5]) {
    let id = th().id;
    let n = ctx().s.calls.len() as u64;
    let start = th().steps;
    for j in 0..p[0] {
        if th().steps - start > 15_000_000 { break; }
        ev(Ev::visitors);
        rt::unregister();
        let i = mix(p[3], j) % p[2].max(1);
        let at = (p[1] + i) % n.max(1);
        let h = builder(j).spawn(move || {
            rt::register(id);
            if let Some(cs) = ctx().s.calls.get(at as usize) { do_call(cs, 0, " (in a short-lived thread)"); }
            th().exiting = true;
        }).expect("spawn");
        let _ = h.join();
        rt::register(id);
        th().exiting = false;
        rt::boundary();
    }
}
/// Run `f` with the stack displaced by some frames.
#[inline(never)]
fn burn(n: u64, f: &mut dyn FnMut()) {
    let pad = std::hint::black_box([n as u8; 272]);
    if n == 0 { f() } else { burn(n - 1, f) }
    std::hint::black_box(&pad);
}
/// The operations just before this one, many more times: counters run over, budgets run out.
fn again(ops: &[Op], i: usize, o: &Op) {
    let t = th();
    let from = i.saturating_sub(o.p[1].max(1) as usize);
    let start = t.steps;
    ctx().ops[K::Again as usize] += 1;
    for j in 0..o.p[0] {
        if t.steps - start > 1_000_000 * if o.p[2] > 0 { o.p[2] } else { 15 } && ctx().s.prop != 11 { break; } // steps depend on the hash seed
        ctx().quiet[t.id] = (j + 3) % 64 > 3 && j + 1 < o.p[0];
        for q in &ops[from..i] {
            if matches!(q.k, K::Again | K::FpMode | K::Irq | K::Bulk | K::FillNoMem | K::BulkCheck | K::Clock | K::NoMem | K::Burst | K::Spray | K::Visitors | K::Crowd | K::Teardown | K::Audit) { continue; }
            ev(Ev::repeated_operations);
            rt::boundary();
            exec(q);
        }
    }
    ctx().quiet[t.id] = false;
}
fn run_ops(ops: &[Op]) {
    let t = th();
    let loops = ctx().s.loops;
    let mut base = 0i64;
    for l in 0..loops {
        ctx().rep[t.id] = l;
        for (i, o) in ops.iter().enumerate() {
            t.op_seq = i as u64;
            rt::boundary();
            let mut o = *o;
            if o.k == K::Bulk && loops > 1 { o.p[2] = o.p[2].wrapping_add(l.wrapping_mul(o.p[4].wrapping_mul(2)).wrapping_mul(o.p[3])); }
            if o.k == K::Again { again(ops, i, &o); } else { exec(&o); }
        }
        if loops > 8 {
            // leak check: nothing may accumulate from one repetition of the same operations to the next
            let held = sim().live;
            if l == 5 { base = held; }
            if l == loops - 1 && ctx().s.threads.len() == 1 {
                ev(Ev::loops_checked);
                if held > base {
                    viol!(c(10), "leak", "memory held by library code grew from {} to {} bytes while the same operations were repeated {} times (all caches they used are the same)", base, held, loops - 6);
                }
            }
        }
    }
}

/// Environment variables that are listed rather than asked for, and the program's arguments.
fn set_env(seed: u64) {
    if seed == 0 { return; }
    use std::os::unix::ffi::OsStrExt;
    let mut r = Rng::new(seed);
    const VALUES: [&[u8]; 12] = [b"1", b"0", b"true", b"on", b"", b"-1", b"debug", b"full", b"\xff\xfe", b"1e-3", b"C", b"/tmp"];
    for k in ["LANG", "LC_ALL", "TZ", "HOME", "USER", "PURUSPE", "PURUSPE_DEBUG", "PURUSPE_FAST", "PURUSPE_TRACE", "PURUSPE_CACHE", "PURUSPE_EPS", "RUST_BACKTRACE",
        "RUST_LOG", "OMP_NUM_THREADS", "RAYON_NUM_THREADS", "DEBUG", "VERBOSE", "CI", "TMPDIR", "PATH"] {
        if r.p(0.4) { std::env::set_var(k, format!("{:x}", r.u64())); }
        else if r.p(0.6) { std::env::set_var(k, std::ffi::OsStr::from_bytes(r.pick(&VALUES))); }
        else { std::env::remove_var(k); }
    }
    if r.p(0.3) { std::env::set_var(std::ffi::OsStr::from_bytes(b"N\xc3"), "1"); }
    const ARGS: [&[u8]; 10] = [b"prog\0", b"--fast\0", b"-v\0", b"--bench\0", b"--test-threads=1\0", b"\0", b"\xff\0", b"1\0", b"--release\0", b"--nocapture\0"];
    unsafe { for i in 0..ARGC { *ARGV.add(i) = if i > 1 && r.p(0.2) { std::ptr::null() } else { r.pick(&ARGS).as_ptr() }; } }
}
static mut ARGC: usize = 0;
static mut ARGV: *mut *const u8 = std::ptr::null_mut();
extern "C" fn take_args(n: i32, v: *mut *const u8) { unsafe { ARGC = n as usize; ARGV = v; } }
#[used]
#[link_section = ".init_array"]
static TAKE_ARGS: extern "C" fn(i32, *mut *const u8) = take_args;

fn init_sim(sc: &Scen, second: bool) {
    let s = sim();
    *s = Sim::zero();
    s.rng = Rng::new(mix(sc.seed, 0x5eed));
    s.env = if second { sc.env2.clone().unwrap() } else { sc.env.clone() };
    s.env_rng = Rng::new(s.env.rand_seed);
    s.policy = sc.policy.clone();
    s.hotp = sc.hotp;
    s.boundp = sc.boundp;
    s.resume = sc.resume;
    s.nowait = sc.prop == 9;
    s.irq_fn = Some(on_interrupt);
    if sc.prop == 13 { s.effect = Some(on_effect); }
    s.decs = Vec::with_capacity(DEC_CAP);
    s.rep = vec![vec![]; MAXT + 1];
    for d in &sc.decs { s.rep[(d.t as usize).min(MAXT)].push(*d); }
    s.low = 1 << 40;
    s.fail = Some(hard_fail);
    rt::arena_shift(s.env.arena_off);
    if let Policy::Pct(d) = s.policy {
        let est: u64 = sc.threads.iter().flatten().map(|o| match o.k {
            K::Call | K::Unwind | K::Teardown => sc.calls.get(o.p[0] as usize).map_or(0, |c| c.exp.steps) + 1,
            K::Lookup | K::UnwindLookup => sc.pairs.get(o.p[1] as usize).map_or(0, |p| p.exp[0].steps) + 300,
            _ => 500,
        }).sum::<u64>().max(10);
        let mut v: Vec<u64> = (0..d).map(|_| s.rng.below(est)).collect();
        v.sort();
        v.reverse();
        s.change = v;
        for i in 0..MAXT { s.th[i].prio = (1 << 41) + s.rng.below(1 << 20); }
    }
}

/// Runs the scenario to its end; never returns.
pub fn child(sc: Scen, second: bool) -> ! {
    init_sim(&sc, second);
    let nth = sc.threads.len();
    let s = sim();
    set_env(s.env.envvar);
    for _ in 0..s.env.tid_shift & 7 { let _ = std::thread::spawn(|| ()).join(); }
    let slots = (0..sc.slots).map(|_| UnsafeCell::new(Slot {
        cache: None, model: Model::default(), bytes: 0, peak: 0, guar: 0, fmt_seen: [None; 2], removed: 0, extra: 0, allow: 0, bulks: vec![], readers: 0, writer: false,
    })).collect();
    let cx = Box::new(Ctx {
        s: sc, slots, failed_ops: 0, cloned: 0, retained: 0, shrunk: 0, obs: Vec::new(), ops: [0; 40], ev: [0; NEV], in_setup: true, final_phase: false, rep: [0; MAXT + 1], base_live: 0, inside: 0, quiet: [false; MAXT + 1], reading: [u64::MAX; MAXT + 1], texts: Default::default(),
    });
    unsafe { CTX = Box::into_raw(cx) };
    let x = ctx();
    x.obs.reserve(OBS_CAP);
    rt::register(CTRL);
    let t: &mut Th = th();
    t.st = St::Ready;
    let loops = std::mem::replace(&mut x.s.loops, 1);
    run_ops(&x.s.setup);
    x.s.loops = loops;
    if x.s.prop == 14 { prepare_texts(); }
    x.in_setup = false;
    x.base_live = s.live;
    for &(i, st, h) in &x.s.stalls { if i < nth { s.th[i].stall_at = st; s.th[i].stall_hot = h; } }
    let spawn = |i: usize| {
        rt::unregister();
        let h = builder(i as u64).spawn(move || client(i)).expect("spawn");
        rt::all_arrived(i as u32 + 1);
        rt::register(CTRL);
        h
    };
    let join = |h: std::thread::JoinHandle<()>| {
        rt::unregister();
        let _ = h.join();
        rt::register(CTRL);
    };
    if x.s.sequential {
        let mut marks = vec![];
        for i in 0..nth {
            s.th[i].id = i;
            s.th[i].st = St::Ready;
            let h = spawn(i);
            rt::run_clients(i + 1);
            join(h);
            marks.push(s.live);
            ev(Ev::thread_restarts);
        }
        if x.s.prop == 10 && nth >= 4 && x.s.threads.iter().all(|v| *v == x.s.threads[0]) && *marks.last().unwrap() > marks[1] {
            viol!(c(10), "leak", "memory held by library code after each of {} identical threads exited: {:?}", nth, marks);
        }
    } else if nth > 0 {
        for i in 0..nth { s.th[i].id = i; s.th[i].st = St::Ready; }
        let hs: Vec<_> = (0..nth).map(spawn).collect();
        rt::run_clients(nth);
        for (i, h) in hs.into_iter().enumerate() {
            if s.th[i].st == St::Finished { join(h); } else { ev(Ev::dead_callers); std::mem::forget(h); }
        }
        if s.resumed { ev(Ev::resumed_after_stall); }
    }
    // final checks, by the controller
    x.final_phase = true;
    s.nomem = false;
    let dead = (0..nth).any(|i| s.th[i].st == St::Stalled);
    for i in 0..x.slots.len() as u64 {
        let sl = slot(i);
        if sl.writer || (dead && sl.readers > 0) { continue; }
        audit(i, "at the end");
        for mut b in sl.bulks.clone() { b[0] = i; bulk_check(&b); }
    }
    for i in 0..x.slots.len() as u64 {
        let sl = slot(i);
        if sl.writer || sl.readers > 0 { continue; }
        replace(i, None, Model::default(), 0, 0, 0);
    }
    if x.s.prop == 10 && nth >= 2 && !x.s.sequential && !dead && !x.s.setup.is_empty() {
        ev(Ev::loops_checked);
        if s.live > x.base_live {
            viol!(c(10), "leak", "memory held by library code grew from {} to {} bytes although all threads have exited and all caches are gone", x.base_live, s.live);
        }
    }
    if x.s.prop == 13 {
        hook_probe("at the end of the run");
        flush_probe();
    }
    let o = out();
    o.nontrivial = 1;
    write_result(OK, "", "");
    exit_now(0)
}

/// One call as the only library call ever made in this process.
pub fn pristine_child(f: sut::F, a: [u64; 3], cap: u64) -> ! {
    init_sim(&Scen::empty(0, 1), false);
    rt::register(CTRL);
    let s = sim();
    s.step_cap = cap;
    s.fail = Some(|_, _| {
        out().res = Res { st: 2, bits: [0; 4], steps: 0 };
        out().status = OK;
        exit_now(0)
    });
    let t = th();
    t.st = St::Ready;
    rt::arm_ctrl(u64::MAX);
    t.in_sut = true;
    let r = catch_unwind(AssertUnwindSafe(|| sut::call(f, &a)));
    t.in_sut = false;
    out().res = match r {
        Ok(b) => Res { st: 0, bits: b, steps: t.steps },
        Err(p) => Res { st: 1, bits: [message(&*p), 0, 0, 0], steps: t.steps },
    };
    out().status = OK;
    exit_now(0)
}
