//! Evidence, replay files, known findings.
use crate::exec::*;
use crate::minimize::minimize;
use crate::plan;
use crate::props::*;
use crate::Slot;
use simrt::*;
use std::collections::HashSet;
use std::time::Instant;

#[derive(Clone)]
pub struct Known {
    prop: String,
    class: String,
    contains: String,
}
impl Known {
    pub fn matches(&self, prop: &str, v: &Viol) -> bool {
        self.prop == prop && self.class == v.class && v.msg.contains(&self.contains)
    }
}
pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".into())
}
/// lines "finding: property=Cxx class=<class> match=<text>"; "fixed:" lines suppress nothing
pub fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (prop, l) = l.split_once(" class=")?;
            let (class, m) = l.split_once(" match=")?;
            Some(Known { prop: prop.into(), class: class.into(), contains: m.trim().into() })
        })
        .collect()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "a run is 2-4 callers with 1-3 calls each on a shared pool of curves, and a list of basic blocks or operator calls at which the running caller changes; non-trivial: at least one change of caller happened in mid-call; distinct by the recorded sequence of changes, steps and results",
        "C02" => "a run is one process making 8-240 calls (or some 10^4-10^5 repetitions) drawn from a pool of similar curves and arguments, with the clock, OS randomness, process id and environment variables simulated; non-trivial: at least one outcome was compared with that of a fresh process; distinct by calls, steps and results",
        "C03" => "a run is 1-3 calls, and 1-6 nested calls run to completion at chosen basic blocks or operator calls of them; non-trivial: at least one nested call ran; distinct by place, steps and results",
        "C04" => "a run is 2-5 callers of which all but one may be suspended for good at a chosen basic block or operator call, with changes of caller elsewhere; non-trivial: at least one caller was suspended or changed in mid-call; distinct by schedule, steps and results",
        "C05" => "a run is 1-3 callers whose point or scalar operators panic at chosen invocations, with retries; non-trivial: at least one operator panicked; distinct by fault places, steps and results",
        "C06" => "a run is up to 24 calls under an allocator and a kernel that refuse everything; non-trivial: at least one call's outcome was compared with that of an ordinary process; distinct by calls, steps and results",
        "C07" => "a run is 10 calls on curves, knots, parameters and tolerances of arbitrary bit patterns, most with operator and comparison results replaced at a chosen rate; non-trivial: at least one hostile number or replaced result; distinct by calls, faults, steps and results",
        "C08" => "a run is 1-3 callers each with a history of 5-13 edits (forward, reversed, skipping, abandoned, panicking half way), copies, observations and calls on their own curves; non-trivial: at least one edit or copy; distinct by history, steps and results",
        "C09" => "a run is 2-4 B-splines with 4-8 evaluations each, with not-a-number injected at chosen scalar operations, or with decayed knots, or without fault; non-trivial: a fault was injected or a point compared with the Cox-de Boor definition; distinct by faults, steps and results",
        "C10" => "a run is 4 pairs of clean and corrupted curves (or operator results) with up to 6 paired calls each; non-trivial: at least one corruption; distinct by corruption, steps and results",
        "C12" | "C13" | "C14" | "C15" => "a run is a coordinator and 1-4 workers splitting one curve 0-12 times and measuring every piece (1-5 questions) over a network with given fates of messages and crashes of workers; non-trivial: at least one message lost, repeated or delayed, or worker crashed; distinct by the history of messages, splits and measurements",
        "C16" => "a run is a coordinator and 1-4 workers splitting one curve until every piece is reported linear or a point within a tolerance, over a network with given fates of messages and crashes of workers; non-trivial: at least one message lost, repeated or delayed, or worker crashed; distinct by the history of messages, splits and answers",
        "C17" => "a run is 1-6 B-splines whose knots, points and degree were damaged on the way (0-4 damages each), received by a constructor whose operators may panic or give not-a-number; non-trivial: at least one damage or fault; distinct by messages, faults and results",
        "C18" => "a run is 5 pairs of clean and faulty curves (or operator results, or parameters) with up to 6 paired calls each; non-trivial: at least one number lost; distinct by faults, steps and results",
        "C19" => "a run is 2-6 accounts (points of one type) and 4-40 operations on them, each repeated until the arithmetic does not panic; non-trivial: at least one outcome judged; distinct by operations, panics and results",
        _ => "a run is a coordinator and 1-4 workers splitting one curve 1-30 times over a network with given fates of messages and crashes of workers; non-trivial: at least one message lost, repeated or delayed, or worker crashed; distinct by the history of messages, splits and pieces",
    }
}

#[allow(clippy::too_many_arguments)]
pub fn finish(prop: &str, tier: &str, seed: u64, runs: u64, cap: u64, known: &[Known], slots: Vec<*mut Slot>, shs: Vec<*mut Shared>, covs: Vec<*mut u8>, t0: Instant) -> i32 {
    let search_s = t0.elapsed().as_secs_f64();
    let mut st = [0u64; NST];
    let (mut done, mut base, mut nontriv, mut kn) = (0, 0, 0, 0);
    let (mut sched, mut trace) = (HashSet::new(), HashSet::new());
    let mut cov = vec![0u8; unsafe { NGUARDS } + 1];
    let mut errs = vec![];
    unsafe {
        for w in 0..slots.len() {
            for i in 0..NST {
                st[i] += (&(*shs[w]).st)[i];
            }
            let s = &*slots[w];
            done += s.done;
            base += s.baselines;
            nontriv += s.nhash;
            kn += s.known;
            if s.err_len > 0 {
                errs.push(String::from_utf8_lossy(&s.err[..s.err_len as usize]).into_owned());
            }
            for i in 0..s.nhash as usize {
                sched.insert(s.sched[i]);
                trace.insert(s.trace[i]);
            }
            for (i, c) in cov.iter_mut().enumerate() {
                *c |= *covs[w].add(i & (COV_CAP - 1));
            }
        }
    }
    crate::exec::init();
    let mut cx = Ctx::new(elf::classify());
    let lowest = slots.iter().map(|s| unsafe { (**s).viol }).filter(|v| *v > 0).min();
    let mut code = 0;
    let mut viol_msg = None;
    let mut replay_path = String::new();
    if let Some(i) = lowest {
        let p = gen(&mut cx, prop, seed, i - 1);
        match judge(&mut cx, &p) {
            Ok(Some(v)) => {
                let (q, msg, tried) = minimize(&mut cx, &p, &v, 45);
                let _ = judge(&mut cx, &q);
                let h = unsafe { LAST };
                let dir = format!("{}/evidence/replays", root());
                let _ = std::fs::create_dir_all(&dir);
                replay_path = format!("{}/{}-{}-{}.plan", dir, prop, seed, i - 1);
                let mut t = plan::to_text(&q, &cx.reg);
                t += &format!("# violation {} : {}\n# found by run {} of seed {}; minimised from {} to {} elements in {} executions\n# trace {:016x} schedule {:016x}\n",
                    v.class, msg.replace('\n', " "), i - 1, seed, p.size(), q.size(), tried, h.1, h.0);
                if std::fs::write(&replay_path, &t).is_err() {
                    errs.push("cannot write the replay file".into());
                }
                println!("violation of {}: {}: {}", prop, v.class, msg);
                println!("VIOLATION property={} replay={}", prop, replay_path);
                viol_msg = Some(format!("{}: {}", v.class, msg));
                code = 1;
            }
            Ok(None) => errs.push(format!("run {} violated {} but not when repeated: the simulator is not deterministic here", i - 1, prop)),
            Err(e) => errs.push(e),
        }
    }
    for k in known.iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={} {} {}", prop, k.class, k.contains);
    }
    // samples: two plans of this very run
    let mut samples = vec![];
    for i in [1u64, 30] {
        if i < runs {
            let p = gen(&mut cx, prop, seed, i);
            let t: String = plan::to_text(&p, &cx.reg).chars().take(1800).collect();
            samples.push(t);
        }
    }
    let lib: Vec<usize> = (0..cx.cls.len()).filter(|&i| cx.cls[i] != elf::OTHER).collect();
    let libcov = lib.iter().filter(|&&i| cov[i] != 0).count();
    let fns = |only: bool| {
        let mut h = HashSet::new();
        for &i in &lib {
            if cx.cls[i] == elf::LIB && (!only || cov[i] != 0) {
                h.insert(cx.fid[i]);
            }
        }
        h.len()
    };
    let mut faults = vec![];
    let mut f = |n: &str, v: u64| {
        if v > 0 {
            faults.push(format!("{}: {}", esc(n), v))
        }
    };
    f("caller changed in mid-call", st[ST_SWITCH]);
    f("caller changed by the fairness clock", st[ST_FAIRSWITCH]);
    f("caller suspended for good", st[ST_STALL]);
    f("operator panicked", st[ST_CRASH]);
    for k in 0..12 {
        f(&format!("operator panicked in {}", kind::NAMES[k]), st[ST_CRASHKIND + k]);
    }
    f("nested call", st[ST_NEST]);
    f("operator returned not-a-number", st[ST_NAN]);
    f("operator returned other bits", st[ST_BITS]);
    f("one axis of a point operator's result replaced", st[ST_AXIS]);
    f("comparison answered wrongly", st[ST_LIE]);
    f("random operator or comparison result replaced", st[ST_NOISE]);
    f("simulated clock, randomness, process id or environment variable read", st[ST_ENV]);
    f("call made from a destructor while a panic unwinds", st[U_HOW]);
    f("call made from a destructor of a thread that ends", st[U_HOW + 1]);
    f("call made from a new thread", st[U_HOW + 2]);
    f("call made from further down the stack", (3..7).map(|k| st[U_HOW + k]).sum());
    f("stored number corrupted", st[U_CORRUPT]);
    f("hostile number stored", st[U_HOSTILE]);
    f("edit loop panicked half way", st[U_EDIT_TORN]);
    f("message lost", st[U_LOST]);
    f("message repeated", st[U_DUP]);
    f("message delayed past others", st[U_DELAY]);
    f("worker crashed", st[U_WCRASH]);
    f("worker (or receiver, or clerk) crashed in mid-operation", st[U_OPCRASH]);
    if prop == "C06" {
        f("calls made with every allocation and system call refused", st[U_CALLS]);
    }
    let mut more = vec![];
    let mut g = |n: &str, v: u64| {
        if v > 0 {
            more.push(format!("{}: {}", esc(n), v))
        }
    };
    g("outcomes_judged", st[U_CALLS]);
    g("outcomes_library_panic", st[U_PANIC]);
    g("outcomes_error", st[U_ERR]);
    g("edits", st[U_EDITS]);
    g("copies", st[U_COPIES]);
    g("callers_left_suspended", st[U_STALLED_TASKS]);
    g("points_compared", st[U_POINT_OK]);
    g("faults_visible_as_nan", st[U_NAN_VISIBLE]);
    g("configurations_rejected", st[U_REJECTED]);
    g("local_control_comparisons", st[U_LOCAL]);
    g("messages_sent", st[U_SEND]);
    g("splits", st[U_SPLITS]);
    g("measurements", st[U_MEASURED]);
    g("fleets_of_different_point_types", st[U_MIXED]);
    g("fleets_with_different_units_and_axes", st[U_FRAMES]);
    g("retries", st[U_RETRY]);
    let wall = t0.elapsed().as_secs_f64();
    let simtime = if ["C11", "C12", "C13", "C14", "C15", "C16"].contains(&prop) { format!("{} ticks of the simulated network clock", st[U_SIMTIME]) } else { format!("{} basic blocks of scheduled execution (the library has no clock; this is the simulated time)", st[ST_BBS]) };
    let gate = if prop == "C06" { sys_gate() } else { String::new() };
    let json = format!(
        "{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"runs_planned\": {}, \"stopped_by_time_cap\": {}, \"nontrivial_runs\": {}, \"baseline_executions\": {},\n    \"runs_per_hour\": {}, \"seeds_per_hour\": {},\n    \"simulated_time\": {},\n    \"calls_executed\": {}, \"basic_blocks\": {}, \"operator_calls\": {},\n    \"distinct_interleavings\": {},\n    \"interleaving_measure\": \"hash of the sequence (from caller, to caller, basic block) of every change, suspension and nesting\",\n    \"faults_injected\": {{{}}},\n    \"detail\": {{{}}},\n    \"library_basic_blocks\": {{\"instrumented\": {}, \"reached\": {}, \"functions\": {}, \"functions_reached\": {}, \"atomic_blocks\": {}}},\n    \"real_code\": \"the whole stroke crate as built from /repo, unmodified, in every instantiation the registry lists ({} types)\",\n    \"stubs\": \"caller's scalar and point types (SimScalar, SimPoint), scheduler, allocator front, clock, randomness, network and coordinator (C11-C17){}\"\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}{}\n}}\n",
        esc(prop), esc(tier), seed, esc(level(prop)), done, trace.len(), esc(rule(prop)),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        runs, done < runs && lowest.is_none() && search_s >= cap as f64, nontriv, base,
        (done as f64 / search_s * 3600.0) as u64, (done as f64 / search_s * 3600.0) as u64, esc(&simtime), st[ST_CALLS], st[ST_BBS], st[ST_OPS],
        sched.len(), faults.join(", "), more.join(", "), lib.len(), libcov, fns(false), fns(true),
        cx.cls.iter().filter(|x| **x == elf::ATOMIC).count(), cx.reg.len(), gate,
        assumptions(prop).iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        wall, lowest.is_some() as u32,
        viol_msg.map(|m| format!(",\n  \"violation\": {}, \"replay\": {}", esc(&m), esc(&replay_path))).unwrap_or_default()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if std::fs::write(format!("{}/evidence/{}.json", root(), prop), json).is_err() {
        errs.push("cannot write the evidence file".into());
    }
    println!("{} {}: {} runs ({} non-trivial, {} distinct), {} outcomes judged, {} baselines, {} known, {:.1} s", prop, tier, done, nontriv, trace.len(), st[U_CALLS], base, kn, wall);
    for e in &errs {
        eprintln!("error: {}", e);
    }
    if code == 0 && !errs.is_empty() {
        code = 2;
    }
    code
}
fn sys_gate() -> String {
    if sys::gate_works() {
        ", kernel (system-call dispatch refuses every call)".into()
    } else {
        " (system-call dispatch is not available here: only the allocator refuses)".into()
    }
}
pub fn level(prop: &str) -> &'static str {
    match prop {
        "C03" | "C04" | "C05" => "fault_enumeration",
        _ => "exploration",
    }
}
fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "sampled schedules, faults and inputs: absence of a violation is evidence for what was explored, not a proof",
        "callers are interleaved at basic-block granularity of an unoptimised build and see sequentially consistent memory",
    ];
    match prop {
        "C06" => v.push("memory obtained from the operating system other than by the global allocator or a system call does not exist in a no_std crate"),
        "C07" => v.push("bounds are relative: 32 times the work and 4 times the stack of the same call on ordinary numbers"),
        "C09" => v.push("the reference is the recursive Cox-de Boor definition in double precision, tolerance 1e-11 of the control points' magnitude"),
        "C12" => v.push("boxes are compared within 1e-9 of the coordinates' magnitude, per axis, with subdivision of the Bernstein form"),
        "C13" => v.push("lengths are compared within 1e-10 with the polyline through independently computed points; where a B-spline jumps (a knot repeated degree + 1 times inside its domain) they are not compared"),
        "C14" => v.push("the true minimum is known within 1e-7 of the numbers' magnitude; closeness is demanded in the neighbourhood of the best of 65 equidistant points only"),
        "C15" => v.push("derivatives are compared within 1e-10 or 1e-11 of the numbers involved, per axis; at a knot the derivative from the right counts, at the end that from the left"),
        "C16" => v.push("answers within 1e-12 of the numbers' magnitude around the tolerance are not judged; curves that return to where they start may be called not linear"),
        "C18" => v.push("infinity counts as visible; searches and answers of yes or no (distances, boxes, predicates) are not judged"),
        "C19" => v.push("the order in which a squared length is summed up is left to the library (1e-14)"),
        "C11" => v.push("'within rounding' is 1e-10 of the control points' magnitude; exactness is demanded of the joints"),
        _ => {}
    }
    v
}

pub fn replay(t: &str) -> i32 {
    crate::exec::init();
    let mut cx = Ctx::new(elf::classify());
    let Some(p) = plan::from_text(t, &cx.reg) else {
        eprintln!("not a replay file");
        return 2;
    };
    match judge(&mut cx, &p) {
        Ok(Some(v)) => {
            let h = unsafe { LAST };
            let mark = format!("trace {:016x} schedule {:016x}", h.1, h.0);
            println!("{}: {}", v.class, v.msg);
            println!("{} ({})", mark, if t.contains(&mark) { "identical to the recorded run" } else { "differs from the recorded run" });
            println!("VIOLATION property={} replayed", p.prop);
            1
        }
        Ok(None) => {
            println!("no violation: property={} holds on this run", p.prop);
            0
        }
        Err(e) => {
            eprintln!("error: {}", e);
            2
        }
    }
}
