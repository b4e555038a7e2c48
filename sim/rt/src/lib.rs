//! Runtime of the simulator: instruction-level hooks, scheduler, fault injection points, allocator and system-call
//! gates, forked runs, shared statistics. This crate is NOT instrumented; the library under test and the workload are.
#![feature(thread_local)]
#![allow(static_mut_refs)]

pub mod elf;
pub mod rng;
pub mod sys;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 40;

/// What the simulator does at a chosen instruction or operator call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// let another caller run
    Switch(u8),
    /// never schedule this caller again
    Stall,
    /// the operator panics with this payload
    Crash(u32),
    /// run nested call number k of the plan to completion on top of this one
    Nest(u32),
    /// the operator returns not-a-number
    Nan,
    /// the operator returns this bit pattern
    Bits(u64),
    /// one axis of the point operator's result is replaced
    Axis(u8, u64),
    /// the comparison answers the opposite
    Lie,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    /// n-th basic block of the step
    Bb(u64),
    /// n-th operator call of the step
    Op(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub task: u8,
    pub step: u32,
    pub at: At,
    pub act: Act,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Nan,
    Bits(u64),
    Axis(u8, u64),
    Lie,
    Yes,
    No,
}

/// kinds of operator calls (index into statistics and traces)
pub mod kind {
    pub const ARITH: u8 = 0; // scalar + - * / % neg
    pub const SFUN: u8 = 1; // scalar functions (abs, sqrt, ...)
    pub const CMP: u8 = 2; // scalar comparisons
    pub const CONV: u8 = 3; // scalar conversions
    pub const PARITH: u8 = 4; // point + - *
    pub const PAXIS: u8 = 5;
    pub const PLEN: u8 = 6;
    pub const PITER: u8 = 7;
    pub const PEQ: u8 = 8;
    pub const PDEF: u8 = 9;
    pub const EDIT: u8 = 10; // caller's own loop body
    pub const PRED: u8 = 11; // is_nan & co
    pub const SFAULTABLE: [u8; 3] = [ARITH, SFUN, CONV];
    pub const NAMES: [&str; 12] = [
        "scalar-arithmetic", "scalar-function", "scalar-compare", "scalar-convert", "point-arithmetic", "point-axis",
        "point-length", "point-iterate", "point-equal", "point-default", "edit-body", "scalar-predicate",
    ];
}

/// payload of an injected panic
pub struct SimCrash(pub u32);

#[repr(C)]
pub struct Ctl {
    pub selector: u8, // first: address handed to the kernel
    pub active: bool,
    pub in_rt: bool,
    pub fair: bool,
    pub deny_alloc: bool,
    pub gate: bool,
    pub task: u8,
    pub step: u32,
    pub steps: u64,
    pub next_bb: u64,
    pub ops: u64,
    pub next_op: u64,
    pub sp0: usize,
    pub sp_floor: usize,
    pub sp_used: usize,
    pub sp_limit: usize,
    pub budget: u64,
    pub next_fair: u64,
    pub fair_start: u64,
    pub last_guard: u32,
    pub allocs: u64,
    pub blocked: u64,
    pub noise_p: u32,
    pub noise_seed: u64,
    pub trace: *mut u32,
    pub trace_n: usize,
    pub trace_cap: usize,
    pub optrace: *mut u8,
    pub optrace_n: usize,
    pub optrace_cap: usize,
    pub bb_ev: Vec<(u64, Act)>,
    pub bb_i: usize,
    pub op_ev: Vec<(u64, Act)>,
    pub op_i: usize,
    pub depth: u32,
    /// the current call is made while a panic unwinds already
    pub late: bool,
    /// ... and has panicked itself
    pub panicked: bool,
}

impl Ctl {
    pub fn new(task: u8) -> Box<Ctl> {
        Box::new(Ctl {
            selector: 0, active: false, in_rt: false, fair: true, deny_alloc: false, gate: false, task, step: 0, steps: 0,
            next_bb: u64::MAX, ops: 0, next_op: u64::MAX, sp0: 0, sp_floor: 0, sp_used: 0, sp_limit: 16 << 20,
            budget: u64::MAX, next_fair: u64::MAX, fair_start: u64::MAX, last_guard: 0, allocs: 0, blocked: 0, noise_p: 0,
            noise_seed: 0, trace: std::ptr::null_mut(), trace_n: 0, trace_cap: 0, optrace: std::ptr::null_mut(),
            optrace_n: 0, optrace_cap: 0, bb_ev: Vec::new(), bb_i: 0, op_ev: Vec::new(), op_i: 0, depth: 0, late: false, panicked: false,
        })
    }
    pub fn arm(&mut self) {
        self.rearm()
    }
    fn rearm(&mut self) {
        let e = self.bb_ev.get(self.bb_i).map(|x| x.0).unwrap_or(u64::MAX);
        self.next_bb = e.min(self.budget).min(if self.fair { self.next_fair } else { u64::MAX });
        self.next_op = self.op_ev.get(self.op_i).map(|x| x.0).unwrap_or(u64::MAX);
    }
}

/// a panic unwinds through the current call
unsafe fn unwinding(c: *mut Ctl) -> bool {
    if (*c).late { (*c).panicked } else { std::thread::panicking() }
}
#[thread_local]
static mut CTL: *mut Ctl = std::ptr::null_mut();

pub fn ctl() -> *mut Ctl {
    unsafe { CTL }
}
pub fn set_ctl(c: *mut Ctl) {
    unsafe { CTL = c }
}

// ------------------------------------------------------------------------------------------------ statistics (shared)

pub const ST_SWITCH: usize = 0;
pub const ST_STALL: usize = 1;
pub const ST_CRASH: usize = 2;
pub const ST_NEST: usize = 3;
pub const ST_NAN: usize = 4;
pub const ST_BITS: usize = 5;
pub const ST_AXIS: usize = 6;
pub const ST_LIE: usize = 7;
pub const ST_FAIRSWITCH: usize = 8;
pub const ST_ENV: usize = 9;
pub const ST_CALLS: usize = 10;
pub const ST_BBS: usize = 11;
pub const ST_OPS: usize = 12;
pub const ST_BLOCKED: usize = 13;
pub const ST_NOISE: usize = 14;
pub const ST_ALLOC_DENIED: usize = 15;
pub const ST_SYS_DENIED: usize = 16;
pub const ST_CRASHKIND: usize = 20; // + kind (12)
pub const ST_USER: usize = 40; // free for the workload
pub const NST: usize = 128;

#[repr(C)]
pub struct Shared {
    pub st: [u64; NST],
    pub viol_code: u32,
    pub viol_len: u32,
    pub viol_msg: [u8; 512],
    pub sched_hash: u64,
    pub trace_hash: u64,
    pub out_len: u64,
    pub trace_n: u64,
    pub optrace_n: u64,
}
pub static mut SH: *mut Shared = std::ptr::null_mut();
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub static mut CLS: &[u8] = &[];
pub static mut NGUARDS: usize = 0;
pub static mut PCS: *const usize = std::ptr::null();
pub static mut NPCS: usize = 0;
pub const COV_CAP: usize = 1 << 20;

pub fn stat(i: usize, n: u64) {
    unsafe {
        if !SH.is_null() {
            (*SH).st[i] += n
        }
    }
}
fn hash_step(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x100000001b3).rotate_left(23) ^ (x.wrapping_mul(0x9E3779B97F4A7C15));
}
pub fn trace_note(x: u64) {
    unsafe {
        if !SH.is_null() {
            hash_step(&mut (*SH).trace_hash, x)
        }
    }
}

pub const V_BUDGET: u32 = 1;
pub const V_STACK: u32 = 2;
pub const V_ALLOC: u32 = 3;
pub const V_SYSCALL: u32 = 4;
pub const V_BLOCKED: u32 = 5;

/// Records an in-run violation and ends the run's process.
pub fn violation(code: u32, msg: &str) -> ! {
    unsafe {
        let c = CTL;
        if !c.is_null() {
            (*c).selector = 0;
            (*c).in_rt = true;
        }
        if !SH.is_null() {
            (*SH).viol_code = code;
            let b = msg.as_bytes();
            let n = b.len().min(512);
            (&mut (*SH).viol_msg)[..n].copy_from_slice(&b[..n]);
            (*SH).viol_len = n as u32;
        }
        sys::exit_group(77)
    }
}

// ------------------------------------------------------------------------------------------------ instruction hook

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            NGUARDS += 1;
            *p = NGUARDS as u32;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(beg: *const usize, end: *const usize) {
    if PCS.is_null() {
        PCS = beg;
        NPCS = (end as usize - beg as usize) / 16;
    }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = CTL;
    if c.is_null() || !(*c).active || (*c).in_rt {
        return;
    }
    (*c).steps += 1;
    let id = *g;
    (*c).last_guard = id;
    if !COV.is_null() {
        *COV.add((id as usize) & (COV_CAP - 1)) = 1;
    }
    let x = 0u8;
    let sp = std::hint::black_box(&x) as *const u8 as usize;
    if sp < (*c).sp_floor {
        (*c).sp_floor = sp;
        if (*c).sp0 - sp > (*c).sp_limit {
            (*c).in_rt = true;
            violation(V_STACK, &format!("stack use beyond {} bytes", (*c).sp_limit));
        }
    }
    if (*c).trace_n < (*c).trace_cap {
        *(*c).trace.add((*c).trace_n) = id;
        (*c).trace_n += 1;
    }
    if (*c).steps >= (*c).next_bb {
        slow_bb(c);
    }
}

#[inline(never)]
unsafe fn slow_bb(c: *mut Ctl) {
    rt_begin(c);
    while (*c).bb_i < (*c).bb_ev.len() && (&(*c).bb_ev)[(*c).bb_i].0 <= (*c).steps {
        if (*c).late && !CLS.is_empty() && CLS[(*c).last_guard as usize] == elf::OTHER {
            // perhaps in std's panic machinery, which nothing may interrupt: at the library's next block
            break;
        }
        let act = (&(*c).bb_ev)[(*c).bb_i].1;
        (*c).bb_i += 1;
        do_act(c, act);
    }
    if (*c).steps >= (*c).budget {
        violation(V_BUDGET, &format!("task {} step {} not finished after {} basic blocks", (*c).task, (*c).step, (*c).steps));
    }
    if (*c).fair && (*c).steps >= (*c).next_fair {
        (*c).next_fair = (*c).steps + 997;
        if sched_switch((*c).task as usize, usize::MAX) {
            stat(ST_FAIRSWITCH, 1);
        }
    }
    (*c).rearm();
    rt_end(c);
}

unsafe fn rt_begin(c: *mut Ctl) {
    (*c).in_rt = true;
    (*c).selector = 0;
}
unsafe fn rt_end(c: *mut Ctl) {
    (*c).in_rt = false;
    if (*c).gate && (*c).active {
        (*c).selector = 1;
    }
}

/// basic blocks a nested call may take (it can wait for nobody: the call below it does not run)
pub static mut NEST_BUDGET: u64 = 30_000_000;
pub static mut NEST_FN: Option<fn(u32, u32)> = None;

/// schedule-type actions (legal at basic blocks and at operator calls)
unsafe fn do_act(c: *mut Ctl, act: Act) {
    let at = ((*c).task as u64) << 56 | ((*c).step as u64) << 40 | ((*c).steps & 0xff_ffff_ffff);
    match act {
        Act::Switch(j) => {
            trace_note(at ^ 0x1111);
            if sched_switch((*c).task as usize, j as usize) {
                stat(ST_SWITCH, 1);
            }
        }
        Act::Stall => {
            if !unwinding(c) {
                trace_note(at ^ 0x2222);
                stat(ST_STALL, 1);
                sched_stall((*c).task as usize);
            }
        }
        Act::Nest(k) => {
            if (*c).depth < MAX_NEST && !unwinding(c) {
                trace_note(at ^ 0x3333);
                hash_step(&mut (*SH).sched_hash, ((*c).last_guard as u64) << 8 | k as u64);
                stat(ST_NEST, 1);
                nested(c, k);
            }
        }
        _ => {}
    }
}

pub const MAX_NEST: u32 = 24;
/// events of nested call k are those of step NEST_STEP + k
pub const NEST_STEP: u32 = 1 << 29;
pub fn is_nest_step(s: u32) -> bool {
    s >= NEST_STEP && s < 1 << 30
}
/// Arms the events that happen inside nested call k.
pub fn nest_events(k: u32, evs: &[Ev]) {
    unsafe {
        let c = CTL;
        for e in evs.iter().filter(|e| e.step == NEST_STEP + k) {
            match e.at {
                At::Bb(n) => (*c).bb_ev.push((n, e.act)),
                At::Op(n) => (*c).op_ev.push((n, e.act)),
            }
        }
        (*c).bb_ev.sort_by_key(|x| x.0);
        (*c).op_ev.sort_by_key(|x| x.0);
        (*c).rearm();
    }
}

/// Runs a nested call: the interrupted call's counters and pending events are put aside.
unsafe fn nested(c: *mut Ctl, k: u32) {
    let saved = ((*c).steps, (*c).ops, (*c).bb_i, (*c).op_i, (*c).sp0, (*c).sp_floor, (*c).sp_used, (*c).budget,
        (*c).next_fair, (*c).active, (*c).trace_cap, (*c).optrace_cap, (*c).noise_p, (*c).fair_start);
    let bb = std::mem::take(&mut (*c).bb_ev);
    let op = std::mem::take(&mut (*c).op_ev);
    (*c).depth += 1;
    (*c).steps = 0;
    (*c).ops = 0;
    (*c).bb_i = 0;
    (*c).op_i = 0;
    (*c).noise_p = 0;
    (*c).trace_cap = 0;
    (*c).optrace_cap = 0;
    (*c).active = false;
    (*c).in_rt = false;
    (*c).budget = NEST_BUDGET;
    (*c).next_fair = if SCHED.n > 1 { 200_000 } else { u64::MAX };
    (*c).rearm();
    if let Some(f) = NEST_FN {
        f((*c).task as u32, k);
    }
    (*c).bb_ev = bb;
    (*c).op_ev = op;
    (*c).steps = saved.0;
    (*c).ops = saved.1;
    (*c).bb_i = saved.2;
    (*c).op_i = saved.3;
    (*c).sp0 = saved.4;
    (*c).sp_floor = saved.5;
    (*c).sp_used = saved.6;
    (*c).budget = saved.7;
    (*c).next_fair = saved.8;
    (*c).active = saved.9;
    (*c).trace_cap = saved.10;
    (*c).optrace_cap = saved.11;
    (*c).noise_p = saved.12;
    (*c).fair_start = saved.13;
    (*c).depth -= 1;
    (*c).in_rt = true;
    (*c).rearm();
}

// ------------------------------------------------------------------------------------------------ operator hook

const HOSTILE: [u64; 16] = [
    0x7ff8000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x0, 0x8000000000000000, 0x3ff0000000000000,
    0xbff0000000000000, 0x7fefffffffffffff, 0xffefffffffffffff, 0x0010000000000000, 0x1, 0x3cb0000000000000,
    0x4330000000000000, 0x3fe0000000000000, 0x43e0000000000000, 0xfff8000000000001,
];

/// Called by the caller's point and scalar types on every operator call; decides what happens there.
#[inline]
pub fn op(k: u8) -> Fault {
    unsafe {
        let c = CTL;
        if c.is_null() || !(*c).active || (*c).in_rt {
            return Fault::None;
        }
        let i = (*c).ops;
        (*c).ops = i + 1;
        if (*c).optrace_n < (*c).optrace_cap {
            *(*c).optrace.add((*c).optrace_n) = k;
            (*c).optrace_n += 1;
        }
        if i >= (*c).next_op {
            return slow_op(c, k, i);
        }
        if (*c).noise_p != 0 {
            return noise(c, k, i);
        }
        Fault::None
    }
}

unsafe fn noise(c: *mut Ctl, k: u8, i: u64) -> Fault {
    let h = rng::mix((*c).noise_seed ^ i.wrapping_mul(0x9E3779B97F4A7C15) ^ (k as u64) << 32);
    if (h & 0xffff) as u32 >= (*c).noise_p {
        return Fault::None;
    }
    if k == kind::PITER || k == kind::PDEF || k == kind::EDIT {
        return Fault::None;
    }
    stat(ST_NOISE, 1);
    match k {
        // upside down, by chance, always no (as for numbers without an order), always yes, or in turns
        kind::CMP | kind::PEQ | kind::PRED => match ((*c).noise_seed & 7, h >> 44 & 1, i & 1) {
            (5, _, _) | (4, 0, _) | (7, _, 0) => Fault::No,
            (6, _, _) | (4, _, _) | (7, _, _) => Fault::Yes,
            _ => Fault::Lie,
        },
        // the same number whatever is asked
        kind::PARITH if (*c).noise_seed >> 3 & 7 == 0 => Fault::Axis((h >> 60) as u8, HOSTILE[((*c).noise_seed >> 6) as usize & 15]),
        _ if k != kind::PARITH && (*c).noise_seed >> 3 & 7 == 0 => Fault::Bits(HOSTILE[((*c).noise_seed >> 6) as usize & 15]),
        kind::PARITH => Fault::Axis((h >> 60) as u8, HOSTILE[(h >> 20) as usize & 15]),
        _ => {
            if h >> 40 & 3 == 0 {
                Fault::Bits(rng::mix(h))
            } else {
                Fault::Bits(HOSTILE[(h >> 20) as usize & 15])
            }
        }
    }
}

#[inline(never)]
unsafe fn slow_op(c: *mut Ctl, k: u8, i: u64) -> Fault {
    let mut ret = Fault::None;
    let mut crash = None;
    rt_begin(c);
    while (*c).op_i < (*c).op_ev.len() && (&(*c).op_ev)[(*c).op_i].0 <= i {
        let (at, act) = (&(*c).op_ev)[(*c).op_i];
        (*c).op_i += 1;
        if at != i {
            continue;
        }
        match act {
            Act::Crash(id) => {
                if !unwinding(c) {
                    stat(ST_CRASH, 1);
                    stat(ST_CRASHKIND + k as usize, 1);
                    trace_note(0x4444 ^ (id as u64) << 32 ^ i);
                    crash = Some(id);
                }
            }
            Act::Nan if k == kind::ARITH || k == kind::SFUN || k == kind::CONV => {
                stat(ST_NAN, 1);
                ret = Fault::Nan;
            }
            Act::Bits(b) if k == kind::ARITH || k == kind::SFUN || k == kind::CONV || k == kind::PAXIS || k == kind::PLEN => {
                stat(ST_BITS, 1);
                ret = Fault::Bits(b);
            }
            Act::Axis(a, b) if k == kind::PARITH => {
                stat(ST_AXIS, 1);
                ret = Fault::Axis(a, b);
            }
            Act::Lie if k == kind::CMP || k == kind::PEQ || k == kind::PRED => {
                stat(ST_LIE, 1);
                ret = Fault::Lie;
            }
            Act::Switch(_) | Act::Stall | Act::Nest(_) => do_act(c, act),
            _ => {}
        }
    }
    (*c).rearm();
    if let Some(id) = crash {
        let b = Box::new(SimCrash(id));
        (*c).panicked = true;
        rt_end(c);
        std::panic::resume_unwind(b);
    }
    rt_end(c);
    ret
}

// ------------------------------------------------------------------------------------------------ call boundary

/// Prepares the counters and events for one step of the current task.
pub fn begin_step(step: u32, evs: &[Ev], budget: u64, fair_after: u64) {
    unsafe {
        let c = CTL;
        (*c).step = step;
        (*c).steps = 0;
        (*c).ops = 0;
        (*c).sp_used = 0;
        (*c).allocs = 0;
        (*c).blocked = 0;
        (*c).bb_ev.clear();
        (*c).op_ev.clear();
        let t = (*c).task;
        for e in evs.iter().filter(|e| e.task == t && e.step == step) {
            match e.at {
                At::Bb(n) => (*c).bb_ev.push((n, e.act)),
                At::Op(n) => (*c).op_ev.push((n, e.act)),
            }
        }
        (*c).bb_ev.sort_by_key(|x| x.0);
        (*c).op_ev.sort_by_key(|x| x.0);
        (*c).bb_i = 0;
        (*c).op_i = 0;
        (*c).budget = budget;
        (*c).next_fair = fair_after;
        (*c).fair_start = fair_after;
        (*c).noise_p = 0;
        (*c).rearm();
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct StepStat {
    pub bbs: u64,
    pub ops: u64,
    pub stack: usize,
}

pub fn end_step() -> StepStat {
    unsafe {
        let c = CTL;
        stat(ST_CALLS, 1);
        stat(ST_BBS, (*c).steps);
        stat(ST_OPS, (*c).ops);
        (*c).noise_p = 0;
        trace_note((*c).steps ^ (*c).ops << 32);
        StepStat { bbs: (*c).steps, ops: (*c).ops, stack: (*c).sp_used }
    }
}

#[inline(never)]
pub fn enter() {
    unsafe {
        let c = CTL;
        if c.is_null() {
            return;
        }
        let x = 0u8;
        let sp = std::hint::black_box(&x) as *const u8 as usize;
        (*c).sp0 = sp;
        (*c).sp_floor = sp;
        (*c).panicked = false;
        (*c).active = true;
        if (*c).gate {
            (*c).selector = 1;
        }
    }
}
#[inline(never)]
pub fn exit() {
    unsafe {
        let c = CTL;
        if c.is_null() {
            return;
        }
        (*c).selector = 0;
        (*c).active = false;
        (*c).panicked = false;
        (*c).in_rt = false;
        (*c).sp_used = (*c).sp_used.max((*c).sp0 - (*c).sp_floor);
    }
}

/// Replaces std's panic hook: nothing is printed, and what runs until the call ends is the unwinding.
pub fn quiet_panics() {
    let loud = std::env::var_os("SIM_DEBUG").is_some();
    std::panic::set_hook(Box::new(move |i| unsafe {
        if loud && (CTL.is_null() || !(*CTL).active) {
            eprintln!("{i}");
        }
        if !CTL.is_null() {
            (*CTL).panicked = true;
        }
    }));
}

// ------------------------------------------------------------------------------------------------ scheduler

const RUNNABLE: u8 = 0;
const STALLED: u8 = 1;
const DONE: u8 = 2;

pub struct Sched {
    n: usize,
    state: [u8; MAXT],
    sem: [AtomicU32; MAXT + 1],
}
pub static mut SCHED: Sched = Sched { n: 0, state: [0; MAXT], sem: [const { AtomicU32::new(0) }; MAXT + 1] };

unsafe fn sem_wait(i: usize) {
    loop {
        if SCHED.sem[i].compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
            return;
        }
        sys::futex_wait(&SCHED.sem[i], 0);
    }
}
unsafe fn sem_post(i: usize) {
    SCHED.sem[i].store(1, SeqCst);
    sys::futex_wake(&SCHED.sem[i]);
}
unsafe fn next_runnable(from: usize) -> Option<usize> {
    for d in 1..SCHED.n {
        let j = (from + d) % SCHED.n;
        if SCHED.state[j] == RUNNABLE {
            return Some(j);
        }
    }
    None
}
/// Hands the baton to task `to` (or the next runnable one). Returns whether anybody else ran.
unsafe fn sched_switch(me: usize, to: usize) -> bool {
    if SCHED.n < 2 {
        return false;
    }
    let j = if to < SCHED.n && to != me && SCHED.state[to] == RUNNABLE {
        to
    } else {
        match next_runnable(me) {
            Some(j) => j,
            None => return false,
        }
    };
    let c = CTL;
    hash_step(&mut (*SH).sched_hash, (me as u64) << 58 | (j as u64) << 52 | (*c).last_guard as u64);
    sem_post(j);
    sem_wait(me);
    true
}
unsafe fn sched_stall(me: usize) {
    let c = CTL;
    hash_step(&mut (*SH).sched_hash, 0xdead << 40 | (me as u64) << 32 | (*c).last_guard as u64);
    SCHED.state[me] = STALLED;
    match next_runnable(me) {
        Some(j) => sem_post(j),
        None => sem_post(SCHED.n),
    }
    loop {
        sem_wait(me);
    }
}
/// Voluntary scheduling point between steps.
pub fn yield_to(j: u8) {
    unsafe {
        let c = CTL;
        if c.is_null() {
            return;
        }
        (*c).in_rt = true;
        if sched_switch((*c).task as usize, j as usize) {
            stat(ST_SWITCH, 1);
        }
        (*c).in_rt = false;
    }
}
/// The library blocked in the operating system: let the others run; a wait nobody can end is a violation.
unsafe fn sched_blocked(c: *mut Ctl) {
    rt_begin(c);
    stat(ST_BLOCKED, 1);
    (*c).blocked += 1;
    let ran = sched_switch((*c).task as usize, usize::MAX);
    if (!ran && (*c).blocked > 3) || (*c).blocked > 2000 {
        violation(V_BLOCKED, &format!("task {} step {} waits for another caller", (*c).task, (*c).step));
    }
    rt_end(c);
}
pub fn stalled(i: usize) -> bool {
    unsafe { SCHED.state[i] == STALLED }
}

/// One caller only: the tasks of a plan with a single task run on the process's own thread.
pub fn single() {
    unsafe {
        SCHED.n = 1;
        SCHED.state[0] = RUNNABLE;
    }
}

/// Runs `n` tasks as real threads of which exactly one runs at a time. Returns when all are done or stalled.
pub fn run_tasks(n: usize, setup: fn(&mut Ctl), body: fn(usize)) {
    unsafe {
        SCHED.n = n;
        for i in 0..n {
            SCHED.state[i] = RUNNABLE;
        }
        for i in 0..n {
            std::thread::Builder::new()
                .stack_size(1 << 24)
                .spawn(move || {
                    let mut c = Ctl::new(i as u8);
                    setup(&mut c);
                    if c.gate {
                        sys::gate_thread(&c.selector);
                    }
                    let p = Box::into_raw(c);
                    sem_post(n);
                    sem_wait(i);
                    set_ctl(p);
                    body(i);
                    SCHED.state[i] = DONE;
                    set_ctl(std::ptr::null_mut());
                    match next_runnable(i) {
                        Some(j) => sem_post(j),
                        None => sem_post(n),
                    }
                })
                .expect("spawn");
            sem_wait(n);
        }
        sem_post(0);
        sem_wait(n);
    }
}

// ------------------------------------------------------------------------------------------------ platform seams

pub struct Alloc;
#[inline]
fn alloc_gate(size: usize) {
    unsafe {
        let c = CTL;
        if c.is_null() || !(*c).active || (*c).in_rt {
            return;
        }
        if std::thread::panicking() {
            return;
        }
        (*c).allocs += 1;
        if (*c).deny_alloc {
            stat(ST_ALLOC_DENIED, 1);
            (*c).in_rt = true;
            (*c).selector = 0;
            violation(V_ALLOC, &format!("heap request of {} bytes during a call", size));
        }
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_gate(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_gate(n);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_gate(l.size());
        System.alloc_zeroed(l)
    }
}

/// seed of the simulated clock and of simulated OS randomness
pub static mut ENV_SEED: u64 = 0;
static mut ENV_N: u64 = 0;

unsafe fn in_call() -> *mut Ctl {
    let c = CTL;
    if c.is_null() || !(*c).active || (*c).in_rt || unwinding(c) {
        std::ptr::null_mut()
    } else {
        c
    }
}
unsafe fn env_word() -> u64 {
    stat(ST_ENV, 1);
    ENV_N += 1;
    rng::mix(ENV_SEED ^ rng::mix(ENV_N))
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c6: i64, d: i64, e: i64, f: i64) -> i64 {
    let c = in_call();
    if !c.is_null() && !(*c).gate {
        if n == 202 {
            let op = b & 0x7f;
            if op == 0 || op == 9 {
                if *(a as *const u32) != c6 as u32 {
                    return sys::ret_errno(-11);
                }
                sched_blocked(c);
                return if d != 0 { sys::ret_errno(-110) } else { 0 };
            }
        }
        if n == 318 {
            return getrandom(a as *mut u8, b as usize, c6 as u32) as i64;
        }
    }
    sys::ret_errno(sys::raw(n, a, b, c6, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    let c = in_call();
    if !c.is_null() && !(*c).gate {
        let mut w = 0;
        for i in 0..n {
            if i % 8 == 0 {
                w = env_word();
            }
            *p.add(i) = (w >> (8 * (i % 8))) as u8;
        }
        return n as isize;
    }
    sys::ret_errno(sys::raw(318, p as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    let c = in_call();
    if !c.is_null() && !(*c).gate {
        // a clock that jumps, backwards too
        let w = env_word();
        (*ts)[0] = 1_000_000 + (w % 4_000_000) as i64;
        (*ts)[1] = ((w >> 32) % 1_000_000_000) as i64;
        return 0;
    }
    sys::ret_errno(sys::raw(228, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}
extern "C" {
    static environ: *const *const u8;
}
/// Environment variables: inside of a call every one of them has any value, or none.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *mut u8 {
    let c = in_call();
    if !c.is_null() && !(*c).gate {
        const V: [&[u8]; 8] = [b"1\0", b"0\0", b"\0", b"true\0", b"full\0", b"17\0", b"-1\0", b"off\0"];
        let w = env_word();
        if w & 1 == 0 {
            return std::ptr::null_mut();
        }
        return V[(w >> 8) as usize % V.len()].as_ptr() as *mut u8;
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let mut i = 0;
        while *name.add(i) != 0 && *(*p).add(i) == *name.add(i) {
            i += 1;
        }
        if *name.add(i) == 0 && *(*p).add(i) == b'=' {
            return (*p).add(i + 1) as *mut u8;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    let c = in_call();
    if !c.is_null() && !(*c).gate {
        return 2 + (env_word() % 4_000_000) as i32;
    }
    sys::raw(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    let c = in_call();
    if !c.is_null() && !(*c).gate {
        sched_blocked(c);
        return 0;
    }
    sys::ret_errno(sys::raw(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    let c = in_call();
    if !c.is_null() && !(*c).gate {
        sched_blocked(c);
        return 0;
    }
    (-sys::raw(230, clk as i64, fl as i64, req as i64, rem as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let c = in_call();
    if !c.is_null() && !(*c).gate {
        sched_blocked(c);
        return 0;
    }
    sys::ret_errno(sys::raw(24, 0, 0, 0, 0, 0, 0)) as i32
}

/// Called from the SIGSYS handler: a system call was attempted while the gate was closed.
pub(crate) unsafe fn gate_hit(nr: i32) -> bool {
    let c = CTL;
    if c.is_null() {
        return true;
    }
    (*c).selector = 0;
    if std::thread::panicking() {
        return true; // std's panic machinery, not the library: let it through
    }
    stat(ST_SYS_DENIED, 1);
    (*c).in_rt = true;
    violation(V_SYSCALL, &format!("system call {} during a call", nr));
}
