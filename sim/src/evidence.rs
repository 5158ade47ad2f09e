//! Writes /verif/evidence/<id>.json.
use crate::pool::Pool;
use crate::run::EV_NAMES;
use crate::{gen, rt, scen, Board, Cfg, CNT_NAMES};
use std::sync::atomic::Ordering::Relaxed;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => {}, c => o.push(c) }
    }
    o + "\""
}
const RULES: [&str; 16] = ["",
    "non-trivial: at least one lookup computed a new entry and at least one answered from the cache",
    "non-trivial: at least one operation failed (rejected arguments, refused memory, overflow, predicate panic, or writer error) and the cache was audited afterwards",
    "non-trivial: at least one entry was added and the whole key universe audited",
    "non-trivial: retain visited at least one entry or its predicate panicked",
    "non-trivial: a fill with all memory refused was made, or an allocation was refused, or the size after shrinking was compared",
    "non-trivial: at least one clone was made",
    "non-trivial: two or more threads, with a preemption inside a library call or two readers inside at once",
    "non-trivial: at least two function calls were compared with their pristine results",
    "non-trivial: at least one thread was suspended inside a library call",
    "non-trivial: memory held was compared across repetitions or thread restarts",
    "non-trivial: at least two observations were compared between the two environments",
    "non-trivial: the work of at least two calls was compared with what they may take",
    "non-trivial: at least two library calls were watched for effects",
    "non-trivial: at least one library call was made in the middle of another one of the same thread",
    "non-trivial: the stack and memory taken by at least two calls was measured",
];
pub fn write(c: &Cfg, wall: f64, pool_s: f64, npris: u64, nruns: u64, b: &Board, viol: u64, pl: &Pool, msg: &str, second: &str) {
    let id = format!("C{:02}", c.prop);
    let runs = b.runs.load(Relaxed);
    let explore = (wall - pool_s).max(0.001);
    let mut edges = 0;
    for i in 0..unsafe { rt::NGUARDS } as usize { unsafe { edges += *rt::EDGE_MAP.add(i + 1) as u64; } }
    let mut j = String::new();
    j += &format!("{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", id, if c.thorough { "thorough" } else { "quick" }, c.seed as i64);
    j += " \"coverage\": {\n";
    j += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", runs, b.distinct.load(Relaxed));
    j += &format!("  \"rule\": {},\n", esc(&format!("Each case is one simulated run: operations, arguments, threads, schedule policy, faults and environment drawn from one PRNG seeded with (VERIF_SEED, run index). {}; distinct: different event hash (every scheduling decision, result, failure and membership answer of the run).", RULES[c.prop as usize])));
    j += "  \"samples\": [\n";
    let k = 3.min(nruns.max(1));
    for i in 0..k {
        let ix = 10 + i * 7;
        let s = gen::scenario(c.prop, c.seed, ix, c.thorough, pl);
        let mut t = format!("run {} policy {:?} hotp {} env {:?}; ", ix, s.policy, s.hotp, s.env);
        if let Some(e) = &s.env2 { t += &format!("second env {:?}; ", e); }
        for st in &s.stalls { t += &format!("suspend thread {} at step {} or static access {}; ", st.0, st.1, st.2); }
        t += &format!("setup: {}; ", s.setup.iter().map(|o| scen::show_op(&s, o)).collect::<Vec<_>>().join(", "));
        for (n, v) in s.threads.iter().enumerate() { t += &format!("thread {}: {}; ", n, v.iter().map(|o| scen::show_op(&s, o)).collect::<Vec<_>>().join(", ")); }
        let t: String = t.chars().take(3000).collect();
        j += &format!("   {}{}\n", esc(&t), if i + 1 < k { "," } else { "" });
    }
    j += "  ],\n";
    j += &format!("  \"seeds_per_hour\": {:.0},\n  \"runs_planned\": {},\n  \"nontrivial_runs\": {},\n", runs as f64 / explore * 3600.0, nruns, b.nontrivial.load(Relaxed));
    j += &format!("  \"runs_with_several_threads\": {},\n  \"client_threads\": {},\n", b.multi.load(Relaxed), b.threads.load(Relaxed));
    j += &format!("  \"simulated_seconds\": {:.3},\n", b.sim_s.load(Relaxed) as f64 + b.sim_frac.load(Relaxed) as f64 / 1e9);
    j += &format!("  \"pristine_results_computed\": {},\n", npris);
    j += &format!("  \"runs_cut_short_by_a_discrepancy_of_another_property\": {},\n", b.foreign.load(Relaxed));
    j += "  \"scheduler_and_seams\": {";
    j += &(0..16).map(|i| format!("\"{}\": {}", CNT_NAMES[i], b.cnt[i].load(Relaxed))).collect::<Vec<_>>().join(", ");
    j += "},\n  \"faults_injected_and_fired\": {";
    let e = |n: &str| b.ev[EV_NAMES.iter().position(|x| *x == n).unwrap()].load(Relaxed);
    let f: Vec<(&str, u64)> = vec![
        ("preemption inside a library call", b.cnt[0].load(Relaxed)),
        ("thread suspended inside a library call", b.cnt[2].load(Relaxed)),
        ("suspended thread never resumed", e("dead_callers")),
        ("allocation refused", b.cnt[3].load(Relaxed)),
        ("library call failing for lack of memory", e("call_out_of_memory") + e("lookup_out_of_memory") + e("clone_failed") + e("shrink_failed")),
        ("capacity request failing", e("capacity_failed")),
        ("call panicking on its arguments", e("call_panic") + e("lookup_panic")),
        ("predicate panic", e("predicate_panic")),
        ("formatter write error", e("writer_error")),
        ("clock jump", b.cnt[5].load(Relaxed)),
        ("entropy call interrupted or short", b.cnt[8].load(Relaxed)),
        ("call made while unwinding", e("call_during_unwind")),
        ("call made while the thread exits", e("call_at_thread_exit")),
        ("thread exited and another started", e("thread_restarts")),
        ("library call made in the middle of another one", e("reentrant_calls")),
        ("call interrupted at an arbitrary point", e("calls_from_interruption")),
        ("call made from the allocator", e("calls_from_allocator")),
        ("call made from the panic hook", e("calls_from_panic_hook")),
        ("call made from a formatter's writer", e("calls_from_writer")),
    ];
    j += &f.iter().map(|(n, v)| format!("{}: {}", esc(n), v)).collect::<Vec<_>>().join(", ");
    j += "},\n  \"operations\": {";
    j += &scen::KN.iter().map(|(k, n)| format!("\"{}\": {}", n, b.ops[*k as usize].load(Relaxed))).collect::<Vec<_>>().join(", ");
    j += "},\n  \"conditions_reached\": {";
    j += &EV_NAMES.iter().enumerate().map(|(i, n)| format!("\"{}\": {}", n, b.ev[i].load(Relaxed))).collect::<Vec<_>>().join(", ");
    j += &format!("}},\n  \"library_edges_reached\": {},\n  \"library_edges_total\": {},\n", edges, unsafe { rt::NGUARDS });
    j += "  \"real_components\": [\"puruspe, lambert_w, num-complex (compiled from /repo with coverage call-outs)\", \"std HashMap, threads, thread-locals, panics\"],\n";
    j += "  \"stub_components\": [\"allocator\", \"getrandom\", \"clocks and sleeps\", \"futex waits and wakes\", \"choice of the running thread\"]";
    if !second.is_empty() { j += &format!(",\n  \"build_with_overflow_checks_and_debug_assertions\": {}", second); }
    if !msg.is_empty() { j += &format!(",\n  \"violation\": {}", esc(msg)); }
    j += "\n },\n \"assumptions\": [\"threads interleave at instrumented edges, loads, stores and system calls; sequentially consistent memory\", \"std, libm and the compiler are trusted\", \"pristine results come from the same build\"],\n";
    j += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, viol);
    let _ = std::fs::create_dir_all("/verif/evidence");
    let p = format!("/verif/evidence/{}.json", id);
    if let Err(x) = std::fs::write(&p, j) { crate::die(&format!("{}: {}", p, x)); }
}
