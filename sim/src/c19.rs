//! C19: points are component-wise vectors, whatever is done with them in whatever order, and whatever their arithmetic
//! interrupts. A clerk keeps accounts (points of one type) and works off a list of operations on them; where the
//! arithmetic panics in the middle of an operation, that operation is made again. Mode 0 only moves whole numbers from
//! account to account, so that their sum has to stay the same. Rows of `plan.extra`:
//!   [0, op, a | b << 8 | dst << 16 | i << 24, bits(u)]   an operation on accounts a and b, its result goes to account dst
//!   [1, n, k, 0]                                          the k-th operator call of the n-th execution panics
use crate::exec::*;
use crate::gen::*;
use crate::plan::*;
use crate::props::*;
use crate::scalar::*;
use crate::shapes::*;
use simrt::rng::Rng;
use simrt::{Act, At, Ev};

/// of all points registered
const MAX_DIM: usize = 259;
const OPS: &[M] = &[M::Add, M::Sub, M::MulS, M::MulF, M::AddT, M::SubT, M::Axis, M::SqLen, M::Eq, M::Default, M::IntoIter, M::Clone, M::Dim];
/// besides OPS: move an amount, edit in place
const MOVE: u64 = 100;
const EDIT: u64 = 101;
const EVENT: u32 = 700;

fn whole(r: &mut Rng) -> f64 {
    (r.range(0, 2000) as f64 - 1000.0) * *r.pick(&[1.0, 1.0, 0.5, 1024.0])
}
pub fn gen(cx: &mut Ctx, r: &mut Rng, p: &mut Plan) {
    p.mode = r.p(0.6) as u32;
    let mut si = pick_shape(r, &cx.reg, &[FAM_F64, FAM_PS], &|s| s.kind == K::Point);
    if r.p(0.2) {
        let cells: Vec<usize> = (0..cx.reg.len()).filter(|i| cx.reg[*i].kind == K::Cell).collect();
        si = *r.pick(&cells);
    }
    let s = &cx.reg[si];
    let ops: Vec<M> = OPS.iter().copied().filter(|m| s.kind == K::Point || s.methods.contains(m)).collect();
    let tiny = elem(s) == Elem::I32;
    let n = r.range(2, 6);
    let st = *r.pick(&[Style::Nice, Style::Uniform, Style::Mixed, Style::Special]);
    for _ in 0..n {
        let data = (0..s.ncp).map(|_| if p.mode == 0 { whole(r) } else if tiny { small(r) } else { coord(r, st) }).collect();
        p.curves.push(Curve { shape: si, data, knots: vec![] });
    }
    if p.mode == 1 && r.p(0.3) {
        // equal but for one component
        let mut d = p.curves[0].data.clone();
        let i = r.us(d.len());
        d[i] = if r.p(0.5) { -d[i] } else { d[i].next_up() };
        p.curves[1].data = d;
    }
    for _ in 0..r.range(4, 40) {
        let (a, b, d) = (r.us(n) as u64, r.us(n) as u64, r.us(n) as u64);
        let op = if p.mode == 0 { MOVE } else if r.p(0.15) { EDIT } else { *r.pick(&ops) as u64 };
        let over = if r.p(0.1) { 2 } else { 0 };
        let m = s.ncp as u64 + over;
        let i = if r.p(0.3) { m - 1 - r.below(m.min(3)) } else { r.below(m) };
        let u = if r.p(0.3) { *r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0]) } else if tiny { small(r) } else { coord(r, st) };
        p.extra.push([0, op, a | b << 8 | d << 16 | i << 24, u.to_bits()]);
    }
    if s.fam == FAM_PS {
        let rate = *r.pick(&[0.0, 0.1, 0.4]);
        for k in 0..p.extra.len() as u64 * 2 {
            if r.p(rate) {
                p.extra.push([1, k, r.below(2 * s.ncp as u64 + 1), 0]);
            }
        }
    }
}
fn small(r: &mut Rng) -> f64 {
    match r.us(8) {
        0 => *r.pick(&[i32::MAX as f64, i32::MIN as f64, 65536.0, -1.0]),
        1 | 2 => (r.range(0, 200_000) as f64 - 100_000.0) * 10.0,
        _ => r.range(0, 20) as f64 - 10.0,
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Elem {
    F64,
    F32,
    I32,
}
/// the numbers a point is made of
fn elem(s: &Shape) -> Elem {
    match s.kind {
        K::Cell if s.name.contains("i32") => Elem::I32,
        K::Cell => Elem::F32,
        _ => Elem::F64,
    }
}
impl Elem {
    fn from(self, x: f64) -> f64 {
        match self {
            Elem::F64 => x,
            Elem::F32 => x as f32 as f64,
            Elem::I32 => x as i32 as f64,
        }
    }
    /// the sum, difference or product of two of them, from that of doubles: panics of overflowing integers are part of
    /// the arithmetic of the element type
    fn made(self, x: f64) -> Option<f64> {
        if self == Elem::I32 && !(x >= i32::MIN as f64 && x <= i32::MAX as f64) {
            return None;
        }
        Some(self.from(x))
    }
}
struct Row {
    op: u64,
    a: usize,
    b: usize,
    d: usize,
    i: usize,
    u: f64,
}
fn rows(p: &Plan, e: Elem) -> Vec<Row> {
    let n = p.curves.len().max(1);
    let f = |x: u64, k: u32| (x >> k & 255) as usize;
    p.extra.iter().filter(|x| x[0] == 0)
        .map(|x| Row { op: x[1], a: f(x[2], 0) % n, b: f(x[2], 8) % n, d: f(x[2], 16) % n, i: (x[2] >> 24 & 4095) as usize, u: e.from(f64::from_bits(x[3])) })
        .collect()
}
fn method(op: u64) -> Option<M> {
    OPS.iter().copied().find(|m| *m as u64 == op)
}
/// what the operation yields, and what the account `dst` holds afterwards
fn model(s: &Shape, acc: &[Vec<f64>], x: &Row, m: M) -> (Out, Option<Vec<f64>>) {
    let (a, b) = (&acc[x.a], &acc[x.b]);
    let e = elem(s);
    let mut o = Out { tag: T_VAL, code: 0, w: vec![] };
    let mut each = |f: &dyn Fn(f64, f64) -> f64| -> Option<Vec<f64>> {
        let v: Option<Vec<f64>> = (0..a.len()).map(|i| e.made(f(a[i], b[i]))).collect();
        if v.is_none() {
            o.tag = T_PANIC;
        }
        v
    };
    let v = match m {
        M::Add => each(&|x, y| x + y),
        M::Sub => each(&|x, y| x - y),
        M::MulS | M::MulF => each(&|y, _| y * x.u),
        M::AddT => each(&|y, _| y + x.u),
        M::SubT => each(&|y, _| y - x.u),
        M::Default => each(&|_, _| 0.0),
        M::Clone => Some(a.clone()),
        _ => None,
    };
    match m {
        M::Axis if x.i < a.len() => o.w.push(canon(a[x.i])),
        M::Axis => o.tag = T_PANIC,
        M::SqLen => o.w.push(canon(a.iter().map(|x| x * x).sum())),
        M::Eq => {
            let same = a.iter().zip(b).all(|(x, y)| x == y);
            o.w = vec![same as u64, a.iter().all(|x| x == x) as u64, !same as u64];
        }
        M::Dim => o.w.push(a.len() as u64),
        M::IntoIter => {
            let (_, ix) = listed(s, m, &Args { t: 0.0, u: 0.0, n: x.i, p: vec![] }).unwrap();
            o.w.push(ix.len() as u64);
            o.w.extend(ix.iter().map(|i| canon(a[*i])));
        }
        _ => {}
    }
    if let Some(v) = &v {
        o.w = v.iter().map(|x| canon(*x)).collect();
    }
    (o, v)
}
fn same(m: M, g: &Out, x: &Out) -> bool {
    if m == M::SqLen && g.tag == T_VAL && g.w.len() == 1 {
        // the order of the sum is the library's business
        let (y, z) = (f64::from_bits(g.w[0]), f64::from_bits(x.w[0]));
        return g.w == x.w || (y - z).abs() <= (3e-16 * MAX_DIM as f64).max(1e-14) * z.abs();
    }
    g == x
}
pub fn judge(cx: &mut Ctx, p: &Plan) -> Verdict {
    if p.curves.is_empty() {
        return Ok(None);
    }
    let s = cx.reg[p.curves[0].shape].clone();
    let e = elem(&s);
    let ops = rows(p, e);
    let start: Vec<Vec<f64>> = p.curves.iter().map(|c| c.data.iter().map(|x| e.from(*x)).collect()).collect();
    let end = in_fresh(20, &mut || unsafe {
        simrt::ENV_SEED = p.env;
        let mut c = simrt::Ctl::new(0);
        c.fair = false;
        c.budget = u64::MAX;
        simrt::set_ctl(Box::into_raw(c));
        simrt::single();
        let mut acc: Vec<Box<dyn Obj>> = vec![];
        let mut o = Out::new();
        for c in &start {
            acc.push((s.build)(c, &[], &mut o).unwrap());
        }
        let mut execs = 0u64;
        for (n, x) in ops.iter().enumerate() {
            let mut amount = vec![];
            acc[x.b].observe(&mut amount);
            // a move is a debit and a credit of half the other's account, each made again until it succeeds
            let legs: &[M] = if x.op == MOVE { &[M::Sub, M::Add] } else { &[M::Eq] };
            let half: Vec<f64> = amount.iter().map(|b| (f64::from_bits(*b) / 2.0).floor()).collect();
            for (leg, lm) in legs.iter().enumerate() {
                loop {
                    let ev: Vec<Ev> = p.extra.iter().filter(|f| f[0] == 1 && f[1] == execs)
                        .map(|f| Ev { task: 0, step: execs as u32, at: At::Op(f[2]), act: Act::Crash(EVENT) }).collect();
                    simrt::begin_step(execs as u32, &ev, Lim::FREE.budget, u64::MAX);
                    execs += 1;
                    let dst;
                    if x.op == MOVE {
                        dst = [x.b, x.d][leg];
                        acc[dst].call(*lm, &Args { t: 0.0, u: 0.0, n: 0, p: half.clone() }, &mut o);
                    } else if x.op == EDIT {
                        dst = usize::MAX;
                        let w = [Write1 { i: x.i % s.ncp, axis: 0, v: vec![x.u] }];
                        acc[x.a].edit((x.d % E_MODES) as u8, &w, &mut o);
                    } else {
                        dst = x.d;
                        let q = amount.iter().map(|b| f64::from_bits(*b)).collect();
                        match method(x.op) {
                            Some(m) => acc[x.a].call(m, &Args { t: 0.0, u: x.u, n: x.i, p: q }, &mut o),
                            None => o.clear(),
                        }
                    }
                    simrt::end_step();
                    if o.tag == T_CRASH && o.code == EVENT {
                        simrt::stat(U_OPCRASH, 1);
                        simrt::stat(U_RETRY, 1);
                        continue;
                    }
                    simrt::trace_note(o.tag as u64);
                    for b in &o.w {
                        simrt::trace_note(*b);
                    }
                    put_record(n as u64, &o);
                    let stays = matches!(method(x.op), Some(M::Axis | M::SqLen | M::Eq | M::IntoIter | M::Dim) | None) && x.op != MOVE;
                    if !stays && o.tag == T_VAL && o.w.len() == s.ncp {
                        let d: Vec<f64> = o.w.iter().map(|b| f64::from_bits(*b)).collect();
                        let mut b = Out::new();
                        acc[dst] = (s.build)(&d, &[], &mut b).unwrap();
                    }
                    break;
                }
            }
        }
        for a in &acc {
            o.clear();
            o.tag = T_VAL;
            a.observe(&mut o.w);
            put_record(1 << 20, &o);
        }
    });
    note_hashes();
    match end {
        End::Ok => {}
        End::Viol(_, m) => return viol("budget", m),
        End::Abort(s) => return viol("abort", format!("the process died of signal {}", s)),
        End::Hang => return viol("hang", "the run never ended".into()),
        End::Harness(m) => return Err(m),
    }
    let recs = take_records().map_err(|_| "outcome buffer full".to_string())?;
    let mut it = recs.into_iter().map(|x| x.1);
    let mut acc = start;
    let before = total(&acc);
    for x in &ops {
        let mut expect: Vec<(M, Out, Vec<f64>, usize)> = vec![];
        if x.op == MOVE {
            let half: Vec<f64> = acc[x.b].iter().map(|v| (v / 2.0).floor()).collect();
            let after: Vec<f64> = acc[x.b].iter().zip(&half).map(|(v, h)| v - h).collect();
            expect.push((M::Sub, value(&after), after.clone(), x.b));
            let from = if x.d == x.b { after } else { acc[x.d].clone() };
            let after: Vec<f64> = from.iter().zip(&half).map(|(v, h)| v + h).collect();
            expect.push((M::Add, value(&after), after, x.d));
        } else if x.op == EDIT {
            let mut d = acc[x.a].clone();
            let w = [Write1 { i: x.i % s.ncp, axis: 0, v: vec![x.u] }];
            let seen = model_edit(&mut d, 1, s.ncp, (x.d % E_MODES) as u8, &w, u64::MAX);
            expect.push((M::Eq, Out { tag: T_VAL, code: 0, w: vec![seen] }, d, x.a));
        } else if let Some(m) = method(x.op) {
            let (o, v) = model(&s, &acc, x, m);
            expect.push((m, o, v.unwrap_or(acc[x.d].clone()), x.d));
        } else {
            it.next();
        }
        for (m, o, v, dst) in expect {
            let Some(g) = it.next() else { return viol("lost", "an operation never ended".into()) };
            simrt::stat(U_CALLS, 1);
            if !same(m, &g, &o) {
                let what = if x.op == EDIT { "edit" } else { mname(m) };
                return viol("not-component-wise", format!("{}: {} of {:?} and {:?} (index {}, number {:?}) is {} instead of {}", s.name, what, acc[x.a], acc[x.b], x.i, x.u, g.show(), o.show()));
            }
            acc[dst] = v;
        }
    }
    for (i, a) in acc.iter().enumerate() {
        let Some(g) = it.next() else { return viol("lost", "an account is missing".into()) };
        if g != value(a) {
            return viol("account", format!("{}: account {} holds {} instead of {:?}", s.name, i, g.show(), a));
        }
    }
    if p.mode == 0 && total(&acc) != before {
        return viol("not-conserved", format!("{}: the accounts add up to {:?} instead of {:?}", s.name, total(&acc), before));
    }
    Ok(None)
}
fn value(d: &[f64]) -> Out {
    Out { tag: T_VAL, code: 0, w: d.iter().map(|x| canon(*x)).collect() }
}
fn total(acc: &[Vec<f64>]) -> Vec<f64> {
    (0..acc[0].len()).map(|i| acc.iter().map(|a| a[i]).sum()).collect()
}
