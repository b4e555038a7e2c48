//! Per property: how a run is generated and how it is judged. Judging is a function of the plan alone.
use crate::exec::*;
use crate::gen::*;
use crate::plan::*;
use crate::scalar::*;
use crate::shapes::*;
use crate::{c09, c10, c11, c17, c18, c19};
use simrt::rng::{mix, Rng};
use simrt::{kind, Act, At, Ev, ST_USER};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type Verdict = Result<Option<Viol>, String>;
pub fn viol(class: &str, msg: String) -> Verdict {
    Ok(Some(Viol { class: class.into(), msg }))
}

// statistics of the workload
pub const U_CALLS: usize = ST_USER; // judged outcomes
pub const U_PANIC: usize = ST_USER + 1; // outcomes that are the library's own panics
pub const U_ERR: usize = ST_USER + 2;
pub const U_EDITS: usize = ST_USER + 3;
pub const U_EDIT_TORN: usize = ST_USER + 4;
pub const U_COPIES: usize = ST_USER + 5;
pub const U_SEND: usize = ST_USER + 10;
pub const U_LOST: usize = ST_USER + 11;
pub const U_DUP: usize = ST_USER + 12;
pub const U_DELAY: usize = ST_USER + 13;
pub const U_WCRASH: usize = ST_USER + 14;
pub const U_RETRY: usize = ST_USER + 15;
pub const U_SIMTIME: usize = ST_USER + 16;
pub const U_SPLITS: usize = ST_USER + 17;
pub const U_OPCRASH: usize = ST_USER + 18;
pub const U_MEASURED: usize = ST_USER + 19;
pub const U_MIXED: usize = ST_USER + 28;
pub const U_FRAMES: usize = ST_USER + 29;
pub const U_CORRUPT: usize = ST_USER + 20;
pub const U_POINT_OK: usize = ST_USER + 21;
pub const U_NAN_VISIBLE: usize = ST_USER + 22;
pub const U_REJECTED: usize = ST_USER + 23;
pub const U_LOCAL: usize = ST_USER + 24;
pub const U_STALLED_TASKS: usize = ST_USER + 25;
pub const U_GATED: usize = ST_USER + 26;
pub const U_HOSTILE: usize = ST_USER + 27;
pub const U_HOW: usize = ST_USER + 45; // + how - 1
pub const U_KIND: usize = ST_USER + 30; // + K as usize

pub fn describe(cx: &Ctx, p: &Plan, s: &Step) -> String {
    match s {
        Step::Call { curve, m, a, how, .. } => {
            let h = ["", " in a destructor during unwinding", " in a destructor at the end of a thread", " in a new thread", " 5 KiB down the stack", " 70 KiB down the stack", " 200 KiB down the stack", " 600 KiB down the stack"][(*how).min(7) as usize];
            format!("{}.{}(t={:?} u={:?} n={}){}", p.curves.get(*curve).map(|c| cx.reg[c.shape].name.as_str()).unwrap_or("?"), mname(*m), a.t, a.u, a.n, h)
        }
        o => format!("{:?}", o),
    }
}

pub fn words(c: &Curve) -> Vec<u64> {
    c.data.iter().chain(&c.knots).map(|x| canon(*x)).collect()
}

pub fn end_verdict(cx: &mut Ctx, p: &Plan, o: &Opts, r: RunResult) -> Result<Result<RunResult, Viol>, String> {
    let mut r = r;
    if r.end == End::Hang {
        // confirmed on a second execution, so that a busy machine is not mistaken for an endless loop
        r = exec(&cx.reg, p, o);
    }
    Ok(match r.end.clone() {
        End::Ok => Ok(r),
        End::Viol(c, m) => Err(Viol {
            class: match c {
                simrt::V_BUDGET => "budget",
                simrt::V_STACK => "stack",
                simrt::V_ALLOC => "heap",
                simrt::V_SYSCALL => "syscall",
                _ => "blocked",
            }
            .into(),
            msg: m,
        }),
        End::Abort(s) => Err(Viol { class: "abort".into(), msg: format!("the process died of signal {}", s) }),
        End::Hang => Err(Viol { class: "hang".into(), msg: "the run never ended (processor time used up)".into() }),
        End::Harness(m) => return Err(m),
    })
}

#[derive(Clone, Copy, PartialEq)]
pub enum Flavor {
    Plain,
    Tight,
    Gate,
}

/// What a call that only lists or copies what an object holds has to yield (C08).
fn contents(cx: &Ctx, p: &Plan, c: &Curve, m: M, a: &Args) -> Option<Vec<u64>> {
    if p.prop != "C08" {
        return None;
    }
    let s = &cx.reg[c.shape];
    let d = if s.kind == K::Point { 1 } else { s.dim };
    if m == M::Knots {
        return Some(std::iter::once(c.knots.len() as u64).chain(c.knots.iter().map(|x| canon(*x))).collect());
    }
    if m == M::Eq && s.kind != K::Point {
        let i = a.n % s.ncp * d;
        let same = c.data[i..i + d] == a.p[..];
        let nan = c.data.iter().any(|x| x.is_nan());
        let twin = a.p.iter().all(|x| !x.is_nan()) && same && !nan;
        return Some([!nan, twin, twin, !twin].iter().map(|b| *b as u64).collect());
    }
    let (count, ix) = listed(s, m, a)?;
    let mut w = vec![];
    if count {
        w.push(ix.len() as u64);
    }
    for i in ix {
        w.extend(c.data[i * d..(i + 1) * d].iter().map(|x| canon(*x)));
    }
    if m == M::Clone && s.kind == K::Bsp {
        w.extend(c.knots.iter().map(|x| canon(*x)));
    }
    Some(w)
}

/// Every call of the plan must end as it does in a process of its own; every curve must end up as the model says.
pub fn judge_diff(cx: &mut Ctx, p: &Plan, fl: Flavor) -> Verdict {
    let mut opts = Opts::free(p);
    opts.gate = fl == Flavor::Gate;
    opts.fair = fl != Flavor::Tight;
    opts.cpu_s = 60;
    let mut cur: Vec<Curve> = p.curves.clone();
    let mut expect: Vec<Vec<Option<Out>>> = vec![];
    for (ti, t) in p.tasks.iter().enumerate() {
        let mut ex = vec![];
        for (si, s) in t.iter().enumerate() {
            let crash = p
                .evs
                .iter()
                .filter(|e| e.task as usize == ti && e.step as usize == si)
                .filter_map(|e| match (e.at, e.act) {
                    (At::Op(n), Act::Crash(id)) => Some((n, id)),
                    _ => None,
                })
                .min();
            let mut o = Out::new();
            match s {
                Step::Call { curve, m, a, .. } => {
                    let b = cx.base(&cur[*curve], *m, a);
                    if !b.ok {
                        ex.push(None);
                        continue;
                    }
                    o = b.out.clone();
                    if let Some(x) = contents(cx, p, &cur[*curve], *m, a) {
                        if o.tag != T_VAL || o.w != x {
                            return viol("contents", format!("task {} step {} {} yields {} but the curve holds {:?}", ti, si, describe(cx, p, s), o.show(), &cur[*curve].data));
                        }
                    }
                    if let Some((n, id)) = crash {
                        if n < b.ops {
                            o = Out { tag: T_CRASH, code: id, w: vec![] };
                        }
                    }
                    opts.lim[ti][si] = match fl {
                        Flavor::Tight => Lim { budget: 20 * b.bbs + 100_000, fair: u64::MAX, stack: 1 << 20 },
                        _ => Lim { budget: 64 * b.bbs + 5_000_000, fair: 4 * b.bbs + 20_000, stack: 1 << 20 },
                    };
                }
                Step::Edit { curve, mode, w } => {
                    let sh = &cx.reg[cur[*curve].shape];
                    let mut d = cur[*curve].data.clone();
                    let full = model_edit(&mut d.clone(), sh.dim, sh.ncp, *mode, w, u64::MAX);
                    let visits = if *mode == E_NTH { w.len() as u64 } else { full };
                    match crash {
                        Some((n, id)) if n < visits => {
                            model_edit(&mut d, sh.dim, sh.ncp, *mode, w, n);
                            o = Out { tag: T_CRASH, code: id, w: vec![] };
                        }
                        _ => {
                            model_edit(&mut d, sh.dim, sh.ncp, *mode, w, u64::MAX);
                            o.tag = T_VAL;
                            o.w.push(full);
                        }
                    }
                    cur[*curve].data = d;
                    opts.lim[ti][si] = Lim { budget: 5_000_000, fair: 20_000, stack: 1 << 20 };
                }
                Step::Copy { from, to } | Step::Put { from, to } => {
                    o.tag = T_VAL;
                    cur[*to] = cur[*from].clone();
                }
                Step::Observe { curve } => {
                    o.tag = T_VAL;
                    o.w = words(&cur[*curve]);
                }
                Step::Yield { .. } => o.tag = T_VAL,
            }
            ex.push(Some(o));
        }
        expect.push(ex);
    }
    let r = exec(&cx.reg, p, &opts);
    let r = match end_verdict(cx, p, &opts, r)? {
        Ok(r) => r,
        Err(v) => return Ok(Some(v)),
    };
    for (i, b) in r.builds.iter().enumerate() {
        if b.out.tag != T_VAL {
            return viol("build", format!("curve {} ({}) was not built: {}", i, cx.reg[p.curves[i].shape].name, b.out.show()));
        }
    }
    for (ti, t) in p.tasks.iter().enumerate() {
        let stall = p.evs.iter().any(|e| e.task as usize == ti && e.act == Act::Stall);
        if stall && r.tasks[ti].len() < t.len() {
            simrt::stat(U_STALLED_TASKS, 1);
        }
        for si in 0..t.len() {
            let Some(x) = &expect[ti][si] else { continue };
            match r.tasks[ti].get(si) {
                None if stall => break,
                None => return viol("lost", format!("task {} step {} ({}) never finished", ti, si, describe(cx, p, &t[si]))),
                Some(g) => {
                    simrt::stat(U_CALLS, 1);
                    if g.out != *x {
                        return viol(
                            "mismatch",
                            format!("task {} step {} {} returned {} but alone it returns {}{}", ti, si, describe(cx, p, &t[si]), g.out.show(), x.show(),
                                if g.rep > 0 { format!(" (repetition {})", g.rep) } else { String::new() }),
                        );
                    }
                    match x.tag {
                        T_PANIC => simrt::stat(U_PANIC, 1),
                        T_ERR => simrt::stat(U_ERR, 1),
                        T_CRASH if matches!(t[si], Step::Edit { .. }) => simrt::stat(U_EDIT_TORN, 1),
                        _ => {}
                    }
                    match &t[si] {
                        Step::Edit { .. } => simrt::stat(U_EDITS, 1),
                        Step::Copy { .. } | Step::Put { .. } => simrt::stat(U_COPIES, 1),
                        Step::Call { curve, .. } => simrt::stat(U_KIND + cx.reg[p.curves[*curve].shape].kind as usize, 1),
                        _ => {}
                    }
                }
            }
        }
    }
    for (k, g) in &r.nests {
        let Some(Step::Call { curve, m, a, .. }) = p.nests.get(*k as usize) else { continue };
        let b = cx.base(&p.curves[*curve], *m, a);
        if !b.ok {
            continue;
        }
        simrt::stat(U_CALLS, 1);
        let crash = p.evs.iter().filter(|e| e.step == simrt::NEST_STEP + *k as u32).filter_map(|e| match (e.at, e.act) {
            (At::Op(n), Act::Crash(id)) if n < b.ops => Some((n, id)),
            _ => None,
        });
        if let Some((_, id)) = crash.min() {
            if g.out.tag != T_CRASH || g.out.code != id {
                return viol("mismatch", format!("nested call {} {} ended with {} instead of the injected panic #{}", k, describe(cx, p, &p.nests[*k as usize]), g.out.show(), id));
            }
            continue;
        }
        if g.out != b.out {
            return viol("mismatch", format!("nested call {} {} returned {} but alone it returns {}", k, describe(cx, p, &p.nests[*k as usize]), g.out.show(), b.out.show()));
        }
    }
    let torn: Vec<usize> = (0..p.tasks.len()).filter(|ti| r.tasks[*ti].len() < p.tasks[*ti].len()).collect();
    if torn.is_empty() || p.tasks.iter().flatten().all(|s| matches!(s, Step::Call { .. } | Step::Observe { .. } | Step::Yield { .. })) {
        for (i, f) in r.finals.iter().enumerate() {
            if f.out.w != words(&cur[i]) {
                return viol("changed", format!("curve {} ({}) ended up as {} instead of {:?}", i, cx.reg[cur[i].shape].name, f.out.show(),
                    cur[i].data.iter().chain(&cur[i].knots).collect::<Vec<_>>()));
            }
        }
    }
    Ok(None)
}

// ------------------------------------------------------------------------------------------------ generators

fn call_step(c: &Call) -> Step {
    Step::Call { curve: c.curve, m: c.m, a: c.a.clone(), rep: 1, noise: None, how: 0 }
}
/// now and then a call is made in unusual circumstances
fn odd_calls(r: &mut Rng, p: &mut Plan) {
    if r.p(0.75) {
        return;
    }
    let own = p.tasks.iter().map(|t| t.len()).sum();
    for (i, s) in p.tasks.iter_mut().flatten().chain(p.nests.iter_mut()).enumerate() {
        if let Step::Call { how, rep: 1, .. } = s {
            if r.p(0.3) {
                // nested calls are up to twenty deep already: no great depths for them
                *how = 1 + r.below(if i < own { 7 } else { 5 }) as u8;
            }
        }
    }
}
/// the world's own method, as called by the world and with other arguments
fn relatives(cx: &mut Ctx, r: &mut Rng, w: &World) -> Vec<Call> {
    let mut pool: Vec<Call> = w.calls.iter().filter(|c| c.m == w.calls[0].m).cloned().collect();
    for _ in 0..3 {
        let mut c = r.pick(&pool).clone();
        c.a = perturb(r, &c.a);
        let b = cx.base(&w.curves[c.curve], c.m, &c.a);
        if b.ok && b.bbs <= 100_000 && b.out.tag != T_NONE {
            pool.push(c);
        }
    }
    pool
}
/// a crowd of callers, all of them in the middle of a call at the same time
fn crowd(cx: &mut Ctx, r: &mut Rng, w: &World, p: &mut Plan, act: Act) {
    let nt = if r.p(0.6) { r.range(6, 18) } else { r.range(18, simrt::MAXT - 1) };
    fill_tasks(r, w, p, nt, 1, 2);
    // mostly the same method with different arguments
    let pool = relatives(cx, r, w);
    let one = r.p(0.2);
    for t in 0..nt {
        if r.p(0.9) {
            p.tasks[t][0] = call_step(if one { &pool[0] } else { r.pick(&pool) });
        }
        if act == Act::Stall && t + 1 + r.us(3) >= nt {
            continue;
        }
        if let Some(b) = step_base(cx, p, t, 0) {
            let at = At::Bb(pick_bb(cx, r, &b));
            p.evs.push(Ev { task: t as u8, step: 0, at, act });
        }
    }
}
/// One caller is stopped just after its call began; a second and a third begin theirs, the second finishes and comes
/// back while the third is still at work, and only then the first goes on: what it saw when it stopped is there again,
/// but it is not the same any more.
fn overtake(cx: &mut Ctx, r: &mut Rng, w: &World, p: &mut Plan, b: &Base) {
    let nt = r.range(3, 4);
    for _ in 0..nt {
        let n = r.range(2, 4);
        p.tasks.push((0..n).map(|_| call_step(&w.calls[0])).collect());
    }
    let shared: Vec<u64> = (0..b.trace.len()).filter(|&i| cx.cls[b.trace[i] as usize] == simrt::elf::ATOMIC).map(|i| i as u64 + 1).collect();
    let early = if !shared.is_empty() {
        shared[r.us(shared.len().min(24))] + r.below(4)
    } else {
        1 + r.below(60.min(b.bbs.max(1)))
    };
    let mid = |r: &mut Rng| 1 + r.below(b.bbs.max(1));
    let mut ev = |task: usize, step: u32, at: u64, to: usize| p.evs.push(Ev { task: task as u8, step, at: At::Bb(at), act: Act::Switch(to as u8) });
    ev(0, 0, early, 1);
    ev(1, 0, mid(r), 2);
    let m2 = mid(r);
    ev(2, 0, m2, 1);
    // the second is through with its first call, and the first goes on
    ev(1, 1, 1, 0);
    ev(0, 0, early + 1 + mid(r), if r.p(0.7) { 1 } else { nt - 1 });
    ev(1, 1, mid(r).max(2), 2);
    ev(nt - 1, r.below(2) as u32, m2 + mid(r), r.us(nt));
}
/// now and then a caller makes one of its calls some hundred times over, before or between the others
fn long_histories(cx: &mut Ctx, r: &mut Rng, p: &mut Plan) {
    if r.p(0.88) {
        return;
    }
    for t in 0..p.tasks.len() {
        if p.tasks[t].is_empty() || r.p(0.3) {
            continue;
        }
        let k = r.us(p.tasks[t].len());
        let Some(b) = step_base(cx, p, t, k) else { continue };
        let e = if r.p(0.2) { 13.0 } else { 9.0 };
        let rep = (2f64.powf(2.0 + r.unit() * (e - 2.0)) as u64).min(300_000 / (b.bbs + 60) + 1);
        let mut s = p.tasks[t][k].clone();
        if let Step::Call { rep: x, .. } = &mut s {
            *x = rep as u32;
        }
        let at = r.us(p.tasks[t].len() + 1);
        p.tasks[t].insert(at, s);
        for e in p.evs.iter_mut().filter(|e| e.task as usize == t && e.step < simrt::NEST_STEP && e.step as usize >= at) {
            e.step += 1;
        }
    }
}
fn step_base(cx: &mut Ctx, p: &Plan, t: usize, s: usize) -> Option<std::rc::Rc<Base>> {
    match &p.tasks[t][s] {
        Step::Call { curve, m, a, .. } => Some(cx.base(&p.curves[*curve].clone(), *m, &a.clone())),
        _ => None,
    }
}
/// a window of consecutive blocks, or a regular beat, at which the callers change
fn add_switches(cx: &mut Ctx, r: &mut Rng, p: &mut Plan, lo: usize, hi: usize) {
    let nt = p.tasks.len();
    if nt < 2 {
        return;
    }
    match r.us(5) {
        0 => {
            // dense window
            let t = r.us(nt);
            let s = r.us(p.tasks[t].len());
            if let Some(b) = step_base(cx, p, t, s) {
                let at = pick_bb(cx, r, &b);
                let w = r.range(4, 40) as u64;
                let at = at.saturating_sub(r.below(w / 2 + 1)).max(1);
                for i in 0..w {
                    let to = r.us(nt) as u8;
                    p.evs.push(Ev { task: t as u8, step: s as u32, at: At::Bb(at + i), act: Act::Switch(to) });
                }
                // and the others answer in kind
                let t2 = (t + 1 + r.us(nt - 1)) % nt;
                let s2 = r.us(p.tasks[t2].len());
                if let Some(b2) = step_base(cx, p, t2, s2) {
                    let at2 = pick_bb(cx, r, &b2);
                    for i in 0..w / 2 {
                        p.evs.push(Ev { task: t2 as u8, step: s2 as u32, at: At::Bb(at2 + i), act: Act::Switch(t as u8) });
                    }
                }
            }
        }
        1 => {
            // a regular beat
            let hi = if r.p(0.5) { 20 } else { 300 };
            let q = 1 + r.below(hi);
            for t in 0..nt {
                for s in 0..p.tasks[t].len() {
                    if let Some(b) = step_base(cx, p, t, s) {
                        let mut at = 1 + r.below(q);
                        let mut k = 0;
                        while at <= b.bbs && k < 150 {
                            p.evs.push(Ev { task: t as u8, step: s as u32, at: At::Bb(at), act: Act::Switch(255) });
                            at += q;
                            k += 1;
                        }
                    }
                }
            }
        }
        _ => {
            for _ in 0..r.range(lo, hi) {
                let t = r.us(nt);
                let s = r.us(p.tasks[t].len());
                if let Some(b) = step_base(cx, p, t, s) {
                    let at = if r.p(0.2) {
                        match pick_op(r, &b, &|_| true) {
                            Some(o) => At::Op(o),
                            None => At::Bb(pick_bb(cx, r, &b)),
                        }
                    } else {
                        At::Bb(pick_bb(cx, r, &b))
                    };
                    let to = r.us(nt) as u8;
                    p.evs.push(Ev { task: t as u8, step: s as u32, at, act: Act::Switch(to) });
                }
            }
        }
    }
}
fn fill_tasks(r: &mut Rng, w: &World, p: &mut Plan, nt: usize, lo: usize, hi: usize) {
    // the world's own method, with the same and with nearly the same values; then anything else
    let same: Vec<&Call> = w.calls.iter().filter(|c| c.m == w.calls[0].m).collect();
    let hot = if r.p(0.5) { w.calls[0].clone() } else { (*r.pick(&same)).clone() };
    let hot2 = if r.p(0.6) { (*r.pick(&same)).clone() } else { r.pick(&w.calls).clone() };
    for _ in 0..nt {
        let n = r.range(lo, hi);
        let mut t = vec![];
        for _ in 0..n {
            let c = match r.us(6) {
                0 | 1 => &hot,
                2 | 3 => &hot2,
                4 => r.pick(&same),
                _ => r.pick(&w.calls),
            };
            t.push(call_step(c));
        }
        p.tasks.push(t);
    }
}

/// consecutive runs that share their curves and calls (baselines are measured once per world)
pub fn world_runs(prop: &str) -> u64 {
    match prop {
        "C02" => 6,
        "C06" => 4,
        _ => 16,
    }
}
fn world_rng(prop: &str, seed: u64, index: u64) -> (Rng, Rng, usize) {
    let h = simrt::rng::hash_bytes(prop.as_bytes());
    let w = index / world_runs(prop);
    (Rng::new(mix(seed ^ h) ^ mix(w)), Rng::new(mix(seed ^ h ^ 0x55) ^ mix(index ^ 0xabcdef)), (w + mix(seed ^ h ^ 9) % 1000) as usize)
}

pub fn gen(cx: &mut Ctx, prop: &str, seed: u64, index: u64) -> Plan {
    let mut p = Plan::new(prop, seed, index);
    let (mut wr, mut r, wi) = world_rng(prop, seed, index);
    let full = WorldCfg {
        fams: ALL_FAMS,
        ncurves: 4,
        ncalls: 12,
        nmax: 12,
        styles: &[Style::Nice, Style::Uniform, Style::Uniform, Style::Mixed, Style::Special],
        max_bbs: 400_000,
        editable: false,
    };
    p.env = mix(seed ^ index);
    match prop {
        "C01" => {
            if index == 0 {
                p.mode = 1;
                for i in 0..cx.reg.len() {
                    let s = &cx.reg[i];
                    let kn = if s.nk > 0 { (0..s.nk).map(|k| k as f64).collect() } else { vec![] };
                    p.curves.push(Curve { shape: i, data: vec![0.0; s.dim * s.ncp], knots: kn });
                }
                return p;
            }
            let w = world(cx, &mut wr, &full, wi);
            p.curves = w.curves.clone();
            let b = cx.base(&w.curves[w.calls[0].curve].clone(), w.calls[0].m, &w.calls[0].a.clone());
            let shares = b.trace.iter().any(|g| cx.cls[*g as usize] == simrt::elf::ATOMIC);
            if r.p(0.04) {
                crowd(cx, &mut r, &w, &mut p, Act::Switch(255));
            } else if r.p(if shares { 0.35 } else { 0.04 }) {
                overtake(cx, &mut r, &w, &mut p, &b);
            } else {
                let nt = r.range(2, 4);
                fill_tasks(&mut r, &w, &mut p, nt, 1, 3);
                add_switches(cx, &mut r, &mut p, 1, 7);
            }
        }
        "C02" => {
            let cfg = WorldCfg { ncurves: 6, ncalls: 24, ..full };
            let w = world(cx, &mut wr, &cfg, wi);
            p.curves = w.curves.clone();
            let mut t = vec![];
            if index % 40 == 7 {
                // marathon: a counter or a filling table needs many calls
                // half of them all with the one method, as often as is affordable
                let one = r.p(0.5);
                let mut left: u64 = if one { 24_000_000 } else { 12_000_000 };
                let most = if one { 200_000 } else { 20_000 };
                let mut cheap: Vec<Call> = w.calls.iter().filter(|c| !one || c.m == w.calls[0].m).cloned().collect();
                cheap.sort_by_key(|c| cx.base(&w.curves[c.curve], c.m, &c.a).bbs);
                cheap.truncate(if one { 2 } else { 6 });
                let mut guard = 0;
                while left > 0 && guard < 60 {
                    guard += 1;
                    let c = r.pick(&cheap).clone();
                    let b = cx.base(&w.curves[c.curve], c.m, &c.a).bbs + 60;
                    let rep = (1 + r.below(most)).min(left / b + 1);
                    left = left.saturating_sub(rep * b);
                    t.push(Step::Call { curve: c.curve, m: c.m, a: c.a.clone(), rep: rep as u32, noise: None, how: 0 });
                }
            } else if r.p(0.45) {
                // bursts: one call very often, then its neighbours, and again
                let mut left: u64 = 900_000;
                let same: Vec<Call> = w.calls.iter().filter(|c| c.m == w.calls[0].m).cloned().collect();
                for _ in 0..r.range(1, 4) {
                    let c = if r.p(0.7) { w.calls[0].clone() } else { r.pick(&same).clone() };
                    let b = cx.base(&w.curves[c.curve], c.m, &c.a).bbs + 60;
                    let want = (2f64.powf(1.0 + r.unit() * 14.0)) as u64;
                    let rep = want.min(left / b + 1);
                    left = left.saturating_sub(rep * b);
                    for _ in 0..r.us(4) {
                        t.push(call_step(if r.p(0.8) { r.pick(&same) } else { r.pick(&w.calls) }));
                    }
                    t.push(Step::Call { curve: c.curve, m: c.m, a: c.a.clone(), rep: rep as u32, noise: None, how: 0 });
                    for _ in 0..r.range(2, 12) {
                        t.push(call_step(if r.p(0.8) { r.pick(&same) } else { r.pick(&w.calls) }));
                    }
                }
            } else {
                let n = if r.p(0.7) { r.range(8, 40) } else { r.range(60, 240) };
                let focus = r.p(0.7);
                let same: Vec<&Call> = w.calls.iter().filter(|c| c.m == w.calls[0].m).collect();
                let few: Vec<Call> = (0..3).map(|_| if r.p(0.7) { (*r.pick(&same)).clone() } else { r.pick(&w.calls).clone() }).collect();
                for _ in 0..n {
                    let c = if focus && r.p(0.8) { r.pick(&few) } else if r.p(0.5) { *r.pick(&same) } else { r.pick(&w.calls) };
                    t.push(call_step(c));
                }
            }
            // other values move into the same memory
            let pairs: Vec<(usize, usize)> = (0..w.curves.len())
                .flat_map(|a| (0..w.curves.len()).map(move |b| (a, b)))
                .filter(|(a, b)| a != b && w.curves[*a].shape == w.curves[*b].shape)
                .collect();
            if !pairs.is_empty() && r.p(0.5) {
                let mut q = vec![];
                let rate = *r.pick(&[0.1, 0.3, 0.5]);
                for s in t {
                    if r.p(rate) {
                        let (from, to) = *r.pick(&pairs);
                        q.push(if r.p(0.8) { Step::Put { from, to } } else { Step::Copy { from, to } });
                    }
                    q.push(s);
                }
                t = q;
            }
            p.tasks.push(t);
        }
        "C03" => {
            let w = world(cx, &mut wr, &full, wi);
            p.curves = w.curves.clone();
            let nt = if r.p(0.12) { 2 } else { 1 };
            fill_tasks(&mut r, &w, &mut p, nt, 1, 3);
            let same: Vec<Call> = w.calls.iter().filter(|c| c.m == w.calls[0].m).cloned().collect();
            // chains of calls: each runs inside the one before it
            for _ in 0..r.range(1, 4) {
                let t = r.us(nt);
                let s = r.us(p.tasks[t].len());
                let (mut step, mut inside) = match p.tasks[t][s].clone() {
                    Step::Call { curve, m, a, .. } => (s as u32, Call { curve, m, a }),
                    _ => continue,
                };
                let deep = r.p(0.03);
                let depth = if deep { r.range(5, 20) } else { *r.pick(&[1, 1, 1, 2, 2, 3, 4]) };
                let pool = if deep { relatives(cx, &mut r, &w) } else { vec![] };
                for _ in 0..depth {
                    let c = match r.us(6) {
                        _ if deep && r.p(0.9) => r.pick(&pool).clone(),
                        0 => inside.clone(),
                        1 | 2 => r.pick(&same).clone(),
                        3 => {
                            // the very same, but for its arguments
                            let mut c = inside.clone();
                            c.a = perturb(&mut r, &c.a);
                            let b = cx.base(&w.curves[c.curve], c.m, &c.a);
                            if b.ok && b.bbs <= full.max_bbs && b.out.tag != T_NONE {
                                c
                            } else {
                                inside.clone()
                            }
                        }
                        4 => {
                            let v: Vec<&Call> = w.calls.iter().filter(|c| c.m == inside.m).collect();
                            if v.is_empty() { inside.clone() } else { (*r.pick(&v)).clone() }
                        }
                        _ => r.pick(&w.calls).clone(),
                    };
                    let k = p.nests.len() as u32;
                    p.nests.push(call_step(&c));
                    let b = cx.base(&w.curves[inside.curve], inside.m, &inside.a);
                    let at = match if r.p(0.3) { pick_op(&mut r, &b, &|_| true) } else { None } {
                        Some(o) => At::Op(o),
                        None => At::Bb(pick_bb(cx, &mut r, &b)),
                    };
                    p.evs.push(Ev { task: t as u8, step, at, act: Act::Nest(k) });
                    step = simrt::NEST_STEP + k;
                    inside = c;
                }
            }
            if nt > 1 {
                add_switches(cx, &mut r, &mut p, 1, 4);
            }
        }
        "C04" => {
            let w = world(cx, &mut wr, &full, wi);
            p.curves = w.curves.clone();
            if r.p(0.02) {
                crowd(cx, &mut r, &w, &mut p, Act::Stall);
                return p;
            }
            let nt = r.range(2, 5);
            fill_tasks(&mut r, &w, &mut p, nt, 1, 3);
            let ns = r.range(1, nt - 1);
            for t in 0..ns {
                let s = r.us(p.tasks[t].len());
                if let Some(b) = step_base(cx, &p, t, s) {
                    let at = match if r.p(0.2) { pick_op(&mut r, &b, &|_| true) } else { None } {
                        Some(o) => At::Op(o),
                        None => At::Bb(pick_bb(cx, &mut r, &b)),
                    };
                    p.evs.push(Ev { task: t as u8, step: s as u32, at, act: Act::Stall });
                }
            }
            if r.p(0.5) {
                add_switches(cx, &mut r, &mut p, 1, 4);
            }
        }
        "C05" => {
            let cfg = WorldCfg { fams: &[FAM_SP, FAM_SP, FAM_PS], ..full };
            let w = world(cx, &mut wr, &cfg, wi);
            p.curves = w.curves.clone();
            if r.p(0.06) {
                failing_again_and_again(cx, &mut r, &w, &mut p);
                return p;
            }
            let nt = *r.pick(&[1, 1, 2, 3]);
            fill_tasks(&mut r, &w, &mut p, nt, 1, 3);
            let mut id = 100;
            for t in 0..nt {
                let mut s = 0;
                while s < p.tasks[t].len() {
                    if r.p(0.7) {
                        if let Some(b) = step_base(cx, &p, t, s) {
                            if let Some(o) = pick_op(&mut r, &b, &|_| true) {
                                id += 1;
                                p.evs.push(Ev { task: t as u8, step: s as u32, at: At::Op(o), act: Act::Crash(id) });
                                if r.p(0.8) && p.tasks[t].len() < 8 {
                                    // retry at once
                                    let again = p.tasks[t][s].clone();
                                    p.tasks[t].insert(s + 1, again);
                                    for e in p.evs.iter_mut().filter(|e| e.task as usize == t && e.step as usize > s) {
                                        e.step += 1;
                                    }
                                }
                            }
                        }
                    }
                    s += 1;
                }
            }
            if r.p(0.25) {
                // a call from inside an operator of another call; it may die there
                let t = r.us(nt);
                let s = r.us(p.tasks[t].len());
                if let Some(b) = step_base(cx, &p, t, s) {
                    let c = r.pick(&w.calls).clone();
                    if let Some(o) = pick_op(&mut r, &b, &|_| true) {
                        let k = p.nests.len() as u32;
                        p.nests.push(call_step(&c));
                        p.evs.push(Ev { task: t as u8, step: s as u32, at: At::Op(o), act: Act::Nest(k) });
                        let b = cx.base(&w.curves[c.curve], c.m, &c.a);
                        if r.p(0.7) {
                            if let Some(o) = pick_op(&mut r, &b, &|_| true) {
                                p.evs.push(Ev { task: t as u8, step: simrt::NEST_STEP + k, at: At::Op(o), act: Act::Crash(900 + k) });
                            }
                        }
                    }
                }
            }
            if nt > 1 {
                add_switches(cx, &mut r, &mut p, 1, 5);
            }
        }
        "C06" => {
            let cfg = WorldCfg { ncurves: 5, ncalls: 20, nmax: 40, ..full };
            let w = world(cx, &mut wr, &cfg, wi);
            p.curves = w.curves.clone();
            let mut t: Vec<Step> = vec![];
            for _ in 0..r.range(20, 40) {
                // calls of this run: the world's, with new arguments
                let c = r.pick(&w.calls).clone();
                let s = &cx.reg[w.curves[c.curve].shape];
                let m = if r.p(0.5) { c.m } else { *r.pick(s.methods) };
                if m == M::Dist && r.p(0.7) {
                    continue;
                }
                let a = args(&mut r, s, &w.curves[c.curve], m, w.style, 24);
                t.push(Step::Call { curve: c.curve, m, a, rep: 1, noise: None, how: 0 });
            }
            t.truncate(24);
            p.tasks.push(t);
        }
        "C07" => {
            let fams: &[u8] = ALL_FAMS;
            let nc = 4;
            // one call after another: does the thousandth cost as much as the first?
            let long = r.p(0.03);
            for _ in 0..nc {
                let si = pick_shape(&mut r, &cx.reg, fams, &|_| true);
                let st = *r.pick(&[Style::Hostile, Style::Hostile, Style::Special, Style::Uniform]);
                let mut c = curve(&mut r, &cx.reg, si, st);
                if !c.knots.is_empty() && r.p(0.6) {
                    for _ in 0..r.range(1, 3) {
                        let i = r.us(c.knots.len());
                        c.knots[i] = coord(&mut r, Style::Hostile);
                    }
                    if r.p(0.8) {
                        c.knots.sort_by(|a, b| a.total_cmp(b));
                    }
                }
                p.curves.push(c);
            }
            let mut t = vec![];
            let mut left: u64 = 3_000_000;
            for _ in 0..10 {
                let k = r.us(nc);
                let s = &cx.reg[p.curves[k].shape];
                let m = *r.pick(s.methods);
                let mut a = args(&mut r, s, &p.curves[k], m, Style::Hostile, 64);
                if m == M::Arclen && r.p(0.1) && s.ncp <= 4 {
                    a.n = 200 + r.us(3000);
                }
                if m == M::IsLinear || m == M::IsPoint {
                    a.u = coord(&mut r, Style::Hostile);
                }
                let noise = if s.fam != FAM_F64 && r.p(0.7) {
                    let pr = *r.pick(&[60u32, 600, 6000, 20000, 65536]);
                    Some((pr, r.next()))
                } else {
                    None
                };
                let mut rep = 1;
                if long {
                    let b = twin(cx, p.curves[k].shape, m, a.n).0 + 60;
                    rep = r.below(4000).min(left / b) + 1;
                    left = left.saturating_sub(rep * b);
                }
                t.push(Step::Call { curve: k, m, a, rep: rep as u32, noise, how: 0 });
            }
            p.tasks.push(t);
        }
        "C08" => gen_c08(cx, &mut r, &mut p),
        "C09" => c09::gen(cx, &mut r, &mut p),
        "C10" => c10::gen(cx, &mut r, &mut p),
        "C11" | "C12" | "C13" | "C14" | "C15" | "C16" => c11::gen(cx, &mut r, &mut p),
        "C17" => c17::gen(&mut r, &mut p),
        "C18" => c18::gen(cx, &mut r, &mut p),
        "C19" => c19::gen(cx, &mut r, &mut p),
        _ => {}
    }
    if matches!(prop, "C01" | "C03" | "C04" | "C05" | "C06") {
        long_histories(cx, &mut r, &mut p);
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C08") {
        odd_calls(&mut r, &mut p);
    }
    p
}

/// dozens of calls that end in a panic of the caller's, and some that do not
fn failing_again_and_again(cx: &mut Ctx, r: &mut Rng, w: &World, p: &mut Plan) {
    let same: Vec<&Call> = w.calls.iter().filter(|c| c.m == w.calls[0].m).collect();
    let hot = r.p(0.6);
    let mut left: u64 = 400_000;
    let n = if r.p(0.8) { r.range(16, 48) } else { r.range(64, 160) };
    let ok = r.unit() * 0.4;
    let mut t = vec![];
    for i in 0..n {
        let c = if hot { w.calls[0].clone() } else if r.p(0.8) { (*r.pick(&same)).clone() } else { r.pick(&w.calls).clone() };
        let b = cx.base(&w.curves[c.curve], c.m, &c.a);
        if left < b.bbs + 60 {
            break;
        }
        left -= b.bbs + 60;
        if !r.p(ok) {
            if let Some(o) = pick_op(r, &b, &|_| true) {
                p.evs.push(Ev { task: 0, step: t.len() as u32, at: At::Op(o), act: Act::Crash(2000 + i as u32) });
            }
        }
        t.push(call_step(&c));
    }
    for _ in 0..3 {
        t.push(call_step(*r.pick(&same)));
    }
    t.push(call_step(&w.calls[0]));
    p.tasks.push(t);
}

fn gen_c08(cx: &mut Ctx, r: &mut Rng, p: &mut Plan) {
    let nt = *r.pick(&[1, 1, 2, 3]);
    let st = *r.pick(&[Style::Nice, Style::Uniform, Style::Mixed]);
    let mut id = 500;
    for ti in 0..nt {
        let si = pick_shape(r, &cx.reg, ALL_FAMS, &|s| s.editable);
        let slot0 = p.curves.len();
        let c = curve(r, &cx.reg, si, st);
        let v = curve(r, &cx.reg, si, st);
        p.curves.push(c.clone());
        p.curves.push(v);
        let ns = if r.p(0.25) {
            // a copy of a B-spline or another type travels along
            let sj = pick_shape(r, &cx.reg, ALL_FAMS, &|s| !s.editable);
            let x = curve(r, &cx.reg, sj, st);
            p.curves.push(x.clone());
            p.curves.push(x);
            4
        } else {
            2
        };
        let s = &cx.reg[si];
        // two probes, asked again and again between the edits
        let probes: Vec<(M, Args)> = (0..2)
            .map(|_| loop {
                let m = *r.pick(s.methods);
                if m == M::Dist && r.p(0.5) {
                    continue;
                }
                break (m, args(r, s, &c, m, st, 8));
            })
            .collect();
        let mut t = vec![];
        if r.p(0.03) {
            // a call, a long series of edits, and the call again
            let mut n = (1u64 << r.range(1, 9)) as usize;
            if r.p(0.4) {
                n = n + r.us(3) - 1;
            }
            let (m, a) = probes[0].clone();
            let ask = Step::Call { curve: slot0, m, a, rep: 1, noise: None, how: 0 };
            t.push(ask.clone());
            for _ in 0..n {
                let w = Write1 { i: r.us(s.ncp), axis: if s.kind == K::Point { 255 } else { r.us(s.dim) as u8 }, v: vec![coord(r, st)] };
                t.push(Step::Edit { curve: slot0, mode: r.us(E_MODES) as u8, w: vec![w] });
            }
            t.push(ask);
        }
        for _ in 0..r.range(5, 13) {
            let slot = slot0 + r.us(2);
            match r.us(10) {
                0..=3 => {
                    let nw = if r.p(0.15) { 0 } else { r.range(1, 3.min(s.ncp)) };
                    let mut w: Vec<Write1> = (0..nw)
                        .map(|_| {
                            let i = r.us(s.ncp);
                            if r.p(0.5) || s.kind == K::Point {
                                let n = if s.kind == K::Point { 1 } else { s.dim };
                                Write1 { i, axis: 255, v: (0..n).map(|_| coord(r, st)).collect() }
                            } else {
                                Write1 { i, axis: r.us(s.dim) as u8, v: vec![coord(r, st)] }
                            }
                        })
                        .collect();
                    w.sort_by_key(|x| x.i);
                    w.dedup_by_key(|x| x.i);
                    let mode = r.us(E_MODES) as u8;
                    if r.p(0.3) {
                        id += 1;
                        let n = if mode == E_NTH { w.len() } else { s.ncp };
                        p.evs.push(Ev { task: ti as u8, step: t.len() as u32, at: At::Op(r.below(n as u64 + 1)), act: Act::Crash(id) });
                    }
                    t.push(Step::Edit { curve: slot, mode, w });
                }
                4 if r.p(0.5) => t.push(Step::Put { from: slot, to: slot0 + slot0 + 1 - slot }),
                4 => t.push(Step::Copy { from: slot, to: slot0 + r.us(2) }),
                5 if ns == 4 && r.p(0.5) => t.push(Step::Put { from: slot0 + 2, to: slot0 + 3 }),
                5 if ns == 4 => t.push(Step::Copy { from: slot0 + 2, to: slot0 + 3 }),
                7 if ns == 4 => {
                    // what the companions hold
                    let k = slot0 + 2 + r.us(2);
                    let x = &p.curves[k];
                    let y = &cx.reg[x.shape];
                    let ms: Vec<M> = y.methods.iter().filter(|m| **m == M::Eq || listed(y, **m, &Args { t: 0.0, u: 0.0, n: 0, p: vec![] }).is_some()).copied().collect();
                    if !ms.is_empty() {
                        let m = *r.pick(&ms);
                        let mut a = args(r, y, x, m, st, 8);
                        if m == M::Eq && r.p(0.7) {
                            // its own point, or next to it
                            let i = a.n % y.ncp * y.dim;
                            a.p = x.data[i..i + y.dim].to_vec();
                            if r.p(0.7) {
                                a.p[r.us(y.dim)] += 1.0;
                            }
                        }
                        t.push(Step::Call { curve: k, m, a, rep: 1, noise: None, how: 0 });
                    }
                }
                6 => t.push(Step::Observe { curve: slot0 + r.us(ns) }),
                _ => {
                    let (m, a) = r.pick(&probes).clone();
                    t.push(Step::Call { curve: slot, m, a, rep: 1, noise: None, how: 0 });
                }
            }
        }
        p.tasks.push(t);
    }
    if nt > 1 {
        // the callers change hands at any block, edits included
        for _ in 0..r.range(1, 10) {
            let t = r.us(nt);
            let s = r.us(p.tasks[t].len());
            p.evs.push(Ev { task: t as u8, step: s as u32, at: At::Bb(1 + r.below(120)), act: Act::Switch(255) });
        }
    }
}

/// Work and stack of the same call on ordinary numbers.
fn twin(cx: &mut Ctx, shape: usize, m: M, n: usize) -> (u64, u64) {
    if let Some(x) = cx.twins.get(&(shape, m as u8, n)) {
        return *x;
    }
    let (mut bbs, mut stack) = (0, 0);
    for k in 0..4u64 {
        let mut r = Rng::new(mix(shape as u64) ^ k);
        let s = &cx.reg[shape];
        let mut c = Curve { shape, data: (0..s.dim * s.ncp).map(|_| r.unit() * 20.0 - 10.0).collect(), knots: vec![] };
        if s.kind == K::Bsp {
            c.knots = knots(&mut r, s.deg, s.nk, [Kv::Clamped, Kv::Unclamped, Kv::Start, Kv::End][k as usize]);
        }
        let pd = if s.kind == K::Point { s.ncp } else { s.dim };
        let t0 = [0.37, 1.0, 0.0, 0.8][k as usize];
        let t = if s.kind == K::Bsp { c.knots[s.deg] + (c.knots[s.ncp] - c.knots[s.deg]) * [0.37, 0.99, 0.6, 0.05][k as usize] } else { t0 };
        let a = Args { t, u: 1000.0, n, p: (0..pd).map(|_| r.unit() * 20.0 - 10.0).collect() };
        let b = cx.base(&c, m, &a);
        if b.ok {
            bbs = bbs.max(b.bbs);
            stack = stack.max(b.stack);
        }
    }
    cx.twins.insert((shape, m as u8, n), (bbs, stack));
    (bbs, stack)
}
fn judge_c07(cx: &mut Ctx, p: &Plan) -> Verdict {
    let mut o = Opts::free(p);
    o.cpu_s = 30;
    for (i, s) in p.tasks[0].iter().enumerate() {
        if let Step::Call { curve, m, a, noise, .. } = s {
            let sh = p.curves[*curve].shape;
            let (bbs, _) = twin(cx, sh, *m, a.n);
            let (_, stack) = twin(cx, sh, *m, if *m == M::Arclen { 2 } else { a.n });
            o.lim[0][i] = Lim { budget: 32 * bbs + 20_000, fair: u64::MAX, stack: (4 * stack + 16_384) as usize };
            let _ = noise;
        }
    }
    let r = exec(&cx.reg, p, &o);
    let r = match end_verdict(cx, p, &o, r)? {
        Ok(r) => r,
        Err(v) => return Ok(Some(v)),
    };
    if r.tasks[0].len() != p.tasks[0].len() {
        return viol("lost", "a call never ended".into());
    }
    for g in &r.tasks[0] {
        simrt::stat(U_CALLS, 1);
        match g.out.tag {
            T_PANIC => simrt::stat(U_PANIC, 1),
            T_ERR => simrt::stat(U_ERR, 1),
            _ => {}
        }
    }
    simrt::stat(U_HOSTILE, p.curves.iter().flat_map(|c| c.data.iter().chain(&c.knots)).filter(|x| !x.is_finite() || x.abs() > 1e100).count() as u64);
    Ok(None)
}

pub fn judge(cx: &mut Ctx, p: &Plan) -> Verdict {
    match p.prop.as_str() {
        "C01" if p.mode == 1 => {
            for c in &p.curves {
                let s = &cx.reg[c.shape];
                if !s.thread_safe {
                    return viol("not-shareable", format!("{} is not Send + Sync: it cannot be shared between callers at all", s.name));
                }
            }
            Ok(None)
        }
        "C01" | "C02" | "C03" | "C05" | "C08" => judge_diff(cx, p, Flavor::Plain),
        "C04" => judge_diff(cx, p, Flavor::Tight),
        "C06" => judge_diff(cx, p, Flavor::Gate),
        "C07" => judge_c07(cx, p),
        "C09" => c09::judge(cx, p),
        "C10" => c10::judge(cx, p),
        "C11" | "C12" | "C13" | "C14" | "C15" | "C16" => c11::judge(cx, p),
        "C17" => c17::judge(p),
        "C18" => c18::judge(cx, p),
        "C19" => c19::judge(cx, p),
        _ => Err("no such property".into()),
    }
}
#[allow(unused_imports)]
use kind as _;
