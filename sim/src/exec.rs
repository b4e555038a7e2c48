//! Executes a plan in a fresh process: builds the curves, runs the tasks under the scheduler, records every outcome.
use crate::plan::*;
use crate::shapes::*;
use simrt::sys::Exit;
use simrt::*;
use std::collections::HashMap;
use std::rc::Rc;

const SEG_WORDS: usize = 1 << 18;
const NSEG: usize = MAXT + 2;
const SEG_NEST: usize = MAXT;
const SEG_MAIN: usize = MAXT + 1;
pub const TRACE_CAP: usize = 1 << 14;

#[derive(Clone, Copy, Debug)]
pub struct Lim {
    pub budget: u64,
    pub fair: u64,
    pub stack: usize,
}
impl Lim {
    pub const FREE: Lim = Lim { budget: 400_000_000, fair: u64::MAX, stack: 12 << 20 };
}
#[derive(Clone, Debug)]
pub struct Opts {
    pub lim: Vec<Vec<Lim>>,
    pub gate: bool,
    pub fair: bool,
    pub trace: bool,
    pub cpu_s: u64,
}
impl Opts {
    pub fn free(p: &Plan) -> Opts {
        Opts { lim: p.tasks.iter().map(|t| vec![Lim::FREE; t.len()]).collect(), gate: false, fair: true, trace: false, cpu_s: 20 }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub out: Out,
    pub bbs: u64,
    pub ops: u64,
    pub stack: u64,
    pub rep: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Viol(u32, String),
    Abort(i32),
    Hang,
    Harness(String),
}
#[derive(Clone, Debug)]
pub struct RunResult {
    pub end: End,
    pub tasks: Vec<Vec<Rec>>,
    pub nests: Vec<(u64, Rec)>,
    pub builds: Vec<Rec>,
    pub finals: Vec<Rec>,
    pub sched_hash: u64,
    pub trace_hash: u64,
}

static mut SEGS: *mut u64 = std::ptr::null_mut();
static mut TRACE: *mut u32 = std::ptr::null_mut();
static mut OPTRACE: *mut u8 = std::ptr::null_mut();
static mut PLAN: *const Plan = std::ptr::null();
static mut OPTS: *const Opts = std::ptr::null();
static mut REG: *const Vec<Shape> = std::ptr::null();
static mut OBJS: Vec<Option<Box<dyn Obj>>> = Vec::new();

pub fn init() {
    unsafe {
        SH = sys::shared(std::mem::size_of::<Shared>()) as *mut Shared;
        COV = sys::shared(COV_CAP);
        SEGS = sys::shared(NSEG * SEG_WORDS * 8) as *mut u64;
        TRACE = sys::shared(TRACE_CAP * 4) as *mut u32;
        OPTRACE = sys::shared(TRACE_CAP);
        sys::install_gate();
        quiet_panics();
    }
}

/// word 0 of a segment: words used (from 1); overflow is recorded as u64::MAX
unsafe fn put(seg: usize, id: u64, o: &Out, st: StepStat, rep: u64) {
    let b = SEGS.add(seg * SEG_WORDS);
    let n = *b as usize;
    if *b == u64::MAX || n + 8 + o.w.len() > SEG_WORDS - 2 {
        *b = u64::MAX;
        return;
    }
    let q = b.add(1 + n);
    *q = id;
    *q.add(1) = o.tag as u64 | (o.code as u64) << 8;
    *q.add(2) = o.w.len() as u64;
    *q.add(3) = st.bbs;
    *q.add(4) = st.ops;
    *q.add(5) = st.stack as u64;
    *q.add(6) = rep;
    for (i, x) in o.w.iter().enumerate() {
        *q.add(7 + i) = *x;
    }
    *b = (n + 7 + o.w.len()) as u64;
}
unsafe fn take(seg: usize) -> Result<Vec<(u64, Rec)>, ()> {
    let b = SEGS.add(seg * SEG_WORDS);
    if *b == u64::MAX {
        return Err(());
    }
    let n = *b as usize;
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let q = b.add(1 + i);
        let l = *q.add(2) as usize;
        let out = Out { tag: *q.add(1) as u8, code: (*q.add(1) >> 8) as u32, w: (0..l).map(|k| *q.add(7 + k)).collect() };
        v.push((*q, Rec { out, bbs: *q.add(3), ops: *q.add(4), stack: *q.add(5), rep: *q.add(6) }));
        i += 7 + l;
    }
    Ok(v)
}

/// The call is made from a destructor while a panic of the caller's unwinds.
unsafe fn call_unwinding(c: &dyn Obj, m: M, a: &Args, o: &mut Out) {
    struct D<'a>(&'a dyn Obj, M, &'a Args, &'a mut Out);
    impl Drop for D<'_> {
        fn drop(&mut self) {
            unsafe {
                let late = std::mem::replace(&mut (*ctl()).late, true);
                self.0.call(self.1, self.2, self.3);
                (*ctl()).late = late;
            }
        }
    }
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _d = D(c, m, a, o);
        std::panic::resume_unwind(Box::new(()));
    }));
}
struct Last(*const dyn Obj, M, *const Args, *mut Out, *mut Ctl);
impl Drop for Last {
    fn drop(&mut self) {
        unsafe {
            set_ctl(self.4);
            (*self.0).call(self.1, &*self.2, &mut *self.3);
            set_ctl(std::ptr::null_mut());
        }
    }
}
thread_local! {
    static LAST_CALL: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) };
}
/// The call is made from a new thread; or, once that thread has made it, again when the thread's own data is destroyed.
/// The caller waits for the thread, so that still exactly one thread runs.
unsafe fn call_thread(c: &dyn Obj, m: M, a: &Args, o: &mut Out, at_end: bool) {
    struct Send0<T>(T);
    unsafe impl<T> Send for Send0<T> {}
    let late = std::mem::replace(&mut (*ctl()).late, false);
    let c: *const dyn Obj = std::mem::transmute::<*const (dyn Obj + '_), *const (dyn Obj + 'static)>(c);
    let me = ctl();
    let x = Send0(Last(c, m, a, o, me));
    // this thread does nothing but wait from here on
    set_ctl(std::ptr::null_mut());
    let h = std::thread::Builder::new().stack_size(1 << 24).spawn(move || {
        let y = x;
        let l = y.0;
        if at_end {
            let mut w = Ctl::new((*l.4).task);
            w.fair = (*l.4).fair;
            w.budget = 400_000_000;
            w.next_fair = 200_000;
            w.sp_limit = 1 << 20;
            w.arm();
            let (c, m, a) = (l.0, l.1, l.2);
            LAST_CALL.with(|x| *x.borrow_mut() = Some(l));
            let w = Box::into_raw(w);
            set_ctl(w);
            let mut tmp = Out::new();
            (*c).call(m, &*a, &mut tmp);
            set_ctl(std::ptr::null_mut());
        } else {
            drop(l);
        }
    });
    h.expect("spawn").join().expect("join");
    set_ctl(me);
    (*me).late = late;
}
/// The call is made from `kib` KiB further down the stack.
#[inline(never)]
unsafe fn call_deep(c: &dyn Obj, m: M, a: &Args, o: &mut Out, kib: usize) {
    let pad = std::hint::black_box([0u8; 1024]);
    if kib <= 1 {
        c.call(m, a, o)
    } else {
        call_deep(c, m, a, o, kib - 1)
    }
    std::hint::black_box(&pad);
}
pub const DEPTHS: [usize; 4] = [5, 70, 200, 600];
unsafe fn run_step(st: &Step, o: &mut Out) {
    o.clear();
    match st {
        Step::Call { curve, m, a, noise, how, .. } => {
            if let Some((p, s)) = noise {
                (*ctl()).noise_p = *p;
                (*ctl()).noise_seed = *s;
            }
            match &OBJS[*curve] {
                Some(c) => {
                    if *how > 0 {
                        stat(crate::props::U_HOW + *how as usize - 1, 1);
                    }
                    match how {
                        1 => call_unwinding(&**c, *m, a, o),
                        2 | 3 => call_thread(&**c, *m, a, o, *how == 2),
                        4..=7 => call_deep(&**c, *m, a, o, DEPTHS[*how as usize - 4]),
                        _ => c.call(*m, a, o),
                    }
                }
                None => o.tag = T_NONE,
            }
            (*ctl()).noise_p = 0;
        }
        Step::Edit { curve, mode, w } => {
            if let Some(c) = &mut OBJS[*curve] {
                c.edit(*mode, w, o)
            }
        }
        Step::Copy { from, to } => {
            if let Some(c) = &OBJS[*from] {
                match c.dup() {
                    Ok(d) => {
                        OBJS[*to] = Some(d);
                        o.tag = T_VAL;
                    }
                    Err(e) => {
                        o.tag = e.0;
                        o.code = e.1;
                    }
                }
            }
        }
        Step::Put { from, to } => {
            if let Some(c) = &OBJS[*from] {
                let c: *const dyn Obj = &**c;
                if let Some(d) = &mut OBJS[*to] {
                    d.assign(&*c, o)
                }
            }
        }
        Step::Observe { curve } => {
            if let Some(c) = &OBJS[*curve] {
                c.observe(&mut o.w);
                o.tag = T_VAL;
            }
        }
        Step::Yield { to } => {
            yield_to(*to);
            o.tag = T_VAL;
        }
    }
}
fn nest_fn(_task: u32, k: u32) {
    unsafe {
        if let Some(s) = (&(*PLAN).nests).get(k as usize) {
            let mut o = Out::new();
            nest_events(k, &(*PLAN).evs);
            run_step(s, &mut o);
            let c = ctl();
            put(SEG_NEST, k as u64, &o, StepStat { bbs: (*c).steps, ops: (*c).ops, stack: (*c).sp_used }, 0);
        }
    }
}
fn setup(c: &mut Ctl) {
    unsafe {
        c.fair = (*OPTS).fair;
        if (*OPTS).gate {
            c.deny_alloc = true;
            c.gate = true;
        }
    }
}
fn body(t: usize) {
    unsafe {
        let p = &*PLAN;
        let mut o = Out::new();
        let mut o2 = Out::new();
        for (i, s) in p.tasks[t].iter().enumerate() {
            let l = (&(*OPTS).lim)[t].get(i).copied().unwrap_or(Lim::FREE);
            (*ctl()).sp_limit = l.stack;
            begin_step(i as u32, &p.evs, l.budget, l.fair);
            if (*OPTS).trace {
                (*ctl()).trace = TRACE;
                (*ctl()).trace_cap = TRACE_CAP;
                (*ctl()).optrace = OPTRACE;
                (*ctl()).optrace_cap = TRACE_CAP;
            }
            run_step(s, &mut o);
            let mut ss = end_step();
            let mut at = 0;
            if let Step::Call { rep, .. } = s {
                // C07 asks for work, not for results: there the parameter moves on from one repetition to the next
                let mut moving = if p.prop == "C07" && *rep > 1 { Some(s.clone()) } else { None };
                for k in 1..*rep {
                    if let Some(Step::Call { a, .. }) = &mut moving {
                        a.t = f64::from_bits(a.t.to_bits() ^ (k as u64 * 0x9e37) % 0xffff);
                    }
                    begin_step(i as u32, &[], l.budget, l.fair);
                    run_step(moving.as_ref().unwrap_or(s), &mut o2);
                    let s2 = end_step();
                    if o2 != o && moving.is_none() {
                        std::mem::swap(&mut o, &mut o2);
                        ss = s2;
                        at = k as u64;
                        break;
                    }
                }
            }
            put(t, i as u64, &o, ss, at);
            for x in &o.w {
                trace_note(*x);
            }
            trace_note(o.tag as u64);
        }
    }
}

fn child() {
    unsafe {
        let p = &*PLAN;
        ENV_SEED = p.env;
        NEST_FN = Some(nest_fn);
        let mut c = Ctl::new(0);
        setup(&mut c);
        if c.gate {
            sys::gate_thread(&c.selector);
        }
        c.budget = u64::MAX;
        let c = Box::into_raw(c);
        set_ctl(c);
        simrt::single();
        let mut o = Out::new();
        for (i, k) in p.curves.iter().enumerate() {
            o.clear();
            begin_step((1 << 30) + i as u32, &p.evs, Lim::FREE.budget, u64::MAX);
            let b = ((&(*REG))[k.shape].build)(&k.data, &k.knots, &mut o);
            let ss = end_step();
            OBJS.push(b);
            put(SEG_MAIN, i as u64, &o, ss, 0);
        }
        if p.tasks.len() == 1 {
            body(0);
            (*SH).trace_n = (*c).trace_n as u64;
            (*SH).optrace_n = (*c).optrace_n as u64;
        } else if p.tasks.len() > 1 {
            set_ctl(std::ptr::null_mut());
            run_tasks(p.tasks.len(), setup, body);
            set_ctl(c);
        }
        for i in 0..p.curves.len() {
            o.clear();
            begin_step(1 << 30, &[], Lim::FREE.budget, u64::MAX);
            if let Some(b) = &OBJS[i] {
                b.observe(&mut o.w);
                o.tag = T_VAL;
            }
            put(SEG_MAIN, 1000 + i as u64, &o, StepStat::default(), 0);
        }
    }
}

/// Runs an arbitrary function in a child with the shared areas reset.
pub fn in_fresh(cpu_s: u64, f: &mut dyn FnMut()) -> End {
    unsafe {
        for s in 0..NSEG {
            *SEGS.add(s * SEG_WORDS) = 0;
        }
        (*SH).viol_code = 0;
        (*SH).viol_len = 0;
        (*SH).sched_hash = 0x1234;
        (*SH).trace_hash = 0x4321;
        (*SH).trace_n = 0;
        (*SH).optrace_n = 0;
        let mut tries = 0;
        loop {
            let e = sys::in_child(cpu_s, 200, f);
            return match e {
                Exit::Code(0) => End::Ok,
                Exit::Code(77) => {
                    let n = (*SH).viol_len as usize;
                    End::Viol((*SH).viol_code, String::from_utf8_lossy(&(&(*SH).viol_msg)[..n]).into_owned())
                }
                Exit::Code(c) => End::Harness(format!("run's process left with code {}", c)),
                Exit::Signal(24) => End::Hang,
                Exit::Signal(14) => End::Hang,
                Exit::Signal(9) => {
                    tries += 1;
                    if tries < 3 {
                        for s in 0..NSEG {
                            *SEGS.add(s * SEG_WORDS) = 0;
                        }
                        continue;
                    }
                    End::Harness("run's process killed".into())
                }
                Exit::Signal(s) => End::Abort(s),
            };
        }
    }
}

/// hashes of the latest run that was not a baseline
pub static mut LAST: (u64, u64) = (0, 0);
pub fn note_hashes() {
    unsafe { LAST = ((*SH).sched_hash, (*SH).trace_hash) }
}
pub fn exec(reg: &Vec<Shape>, p: &Plan, o: &Opts) -> RunResult {
    unsafe {
        PLAN = p;
        OPTS = o;
        REG = reg;
        let end = in_fresh(o.cpu_s, &mut child);
        if !p.prop.is_empty() {
            note_hashes();
        }
        let mut r = RunResult { end, tasks: vec![], nests: vec![], builds: vec![], finals: vec![], sched_hash: (*SH).sched_hash, trace_hash: (*SH).trace_hash };
        for t in 0..p.tasks.len() {
            match take(t) {
                Ok(v) => r.tasks.push(v.into_iter().map(|x| x.1).collect()),
                Err(_) => r.end = End::Harness("outcome buffer full".into()),
            }
        }
        match (take(SEG_NEST), take(SEG_MAIN)) {
            (Ok(n), Ok(m)) => {
                r.nests = n;
                for (k, v) in m {
                    if k < 1000 {
                        r.builds.push(v)
                    } else {
                        r.finals.push(v)
                    }
                }
            }
            _ => r.end = End::Harness("outcome buffer full".into()),
        }
        r
    }
}

/// generic result passing for runs that are not plans of steps
pub fn put_record(id: u64, o: &Out) {
    unsafe { put(SEG_MAIN, id, o, StepStat::default(), 0) }
}
pub fn take_records() -> Result<Vec<(u64, Out)>, ()> {
    unsafe { take(SEG_MAIN).map(|v| v.into_iter().map(|x| (x.0, x.1.out)).collect()) }
}

/// What a call does in a process in which nothing else ever happened.
#[derive(Clone, Debug)]
pub struct Base {
    pub ok: bool,
    pub end: End,
    pub out: Out,
    pub bbs: u64,
    pub ops: u64,
    pub stack: u64,
    pub trace: Vec<u32>,
    pub optrace: Vec<u8>,
}
pub struct Ctx {
    pub reg: Vec<Shape>,
    pub cls: &'static [u8],
    pub fid: &'static [u32],
    memo: HashMap<u128, Rc<Base>>,
    pub twins: HashMap<(usize, u8, usize), (u64, u64)>,
    pub baselines: u64,
    pub tier_thorough: bool,
}
impl Ctx {
    pub fn new(g: (&'static [u8], &'static [u32])) -> Ctx {
        Ctx { reg: registry(), cls: g.0, fid: g.1, memo: HashMap::new(), twins: HashMap::new(), baselines: 0, tier_thorough: false }
    }
    pub fn base(&mut self, c: &Curve, m: M, a: &Args) -> Rc<Base> {
        let mut b: Vec<u8> = vec![m as u8];
        b.extend((c.shape as u32).to_le_bytes());
        b.extend((a.n as u64).to_le_bytes());
        for x in c.data.iter().chain(&c.knots).chain([&a.t, &a.u]).chain(&a.p) {
            b.extend(x.to_bits().to_le_bytes());
        }
        let h1 = rng::hash_bytes(&b);
        b.push(7);
        let h2 = rng::hash_bytes(&b);
        let key = (h1 as u128) << 64 | h2 as u128;
        if let Some(x) = self.memo.get(&key) {
            return x.clone();
        }
        if self.memo.len() > 150 {
            self.memo.clear();
        }
        self.baselines += 1;
        let mut p = Plan::new("", 0, 0);
        p.curves.push(c.clone());
        p.tasks.push(vec![Step::Call { curve: 0, m, a: a.clone(), rep: 1, noise: None, how: 0 }]);
        let mut o = Opts::free(&p);
        o.trace = true;
        let r = exec(&self.reg, &p, &o);
        let (trace, optrace) = unsafe {
            (
                std::slice::from_raw_parts(TRACE, ((*SH).trace_n as usize).min(TRACE_CAP)).to_vec(),
                std::slice::from_raw_parts(OPTRACE, ((*SH).optrace_n as usize).min(TRACE_CAP)).to_vec(),
            )
        };
        let mut x = Base { ok: r.end == End::Ok, end: r.end.clone(), out: Out::new(), bbs: 0, ops: 0, stack: 0, trace, optrace };
        if let Some(q) = r.tasks.first().and_then(|t| t.first()) {
            x.out = q.out.clone();
            x.bbs = q.bbs;
            x.ops = q.ops;
            x.stack = q.stack;
        }
        let x = Rc::new(x);
        self.memo.insert(key, x.clone());
        x
    }
}
