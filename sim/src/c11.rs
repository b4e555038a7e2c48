//! C11-C16: a coordinator hands requests to split and to measure pieces of a curve to workers over a lossy network; the
//! pieces must make up the curve (C11), their measurements (measure.rs) those of the curve (C12 boxes, C13 lengths,
//! C14 distances, C15 derivatives) and lead to a flattening of the curve (C16).
//!
//! The discrete-event simulation of the network, the workers and the coordinator is this file; the curves, their splits
//! and their evaluation are the library's. Rows of `plan.extra`:
//!   [0, path, bits(t), delay]  split the piece `path` at t, `delay` ticks after it is known (root = 1, halves 2p, 2p+1)
//!   [1, n, fate, arg]          the n-th message: fate 0 lost, 1 sent twice (the copy `arg` ticks later), 2 delayed by `arg`
//!   [2, n, how, arg]           the n-th execution of a split: 0 panic in the caller's operator call `arg`, 1 the worker dies
//!                              before it begins, 2 the worker dies after computing, before it answers
//!   [3, method, x, y]          measure every piece: the arguments are made from x and y (measure::args)
//!   [4, bits(tol), how, 0]     split every piece that the workers report neither linear nor a point within tol
//!   [5, n, 0, 0]               the workers use different point types (n = 1) or that of the curve
//!   [6, seed, 0, 0]            the workers keep their coordinates in other units, and their axes in another order
use crate::exec::*;
use crate::gen::*;
use crate::c09;
use crate::measure;
use crate::plan::*;
use crate::props::*;
use crate::scalar::*;
use crate::shapes::*;
use simrt::rng::{mix, Rng};
use simrt::{Act, At, Ev};
use std::collections::{BTreeMap, HashMap};

const US: [f64; 7] = [0.0, 1.0, 0.5, 0.25, 0.8125, 0.1, 0.99];
const TIMEOUT: u64 = 40;
const DOWN: u64 = 25;

pub fn gen(cx: &mut Ctx, r: &mut Rng, p: &mut Plan) {
    let prop = p.prop.clone();
    let si = pick_shape(r, &cx.reg, ALL_FAMS, &|s| measure::takes(&prop, s));
    let st = *r.pick(&[Style::Nice, Style::Uniform, Style::Mixed]);
    let mut c = curve(r, &cx.reg, si, st);
    let s = &cx.reg[si];
    if r.p(0.3) {
        // one axis in other units
        let f = 2f64.powi(*r.pick(&[-60, -40, -20, 20, 40, 60]));
        let a = r.us(s.dim);
        for i in 0..s.ncp {
            c.data[i * s.dim + a] *= f;
        }
    }
    if s.kind == K::Bsp && prop == "C15" && r.p(0.4) {
        c09::rescale(r, &mut c.knots, &[-60, -40, -30, -20, -10, 10, 20, 40, 60]);
    }
    if s.kind != K::Point {
        measure::geometry(&prop, r, s, &mut c);
    }
    // neither boxes nor splits nor derivatives depend on the size of a curve
    let extreme = ["C11", "C12", "C15"].contains(&prop.as_str()) && r.p(0.15);
    if extreme {
        let f = 2f64.powi(*r.pick(&[-850, -700, -500, 500, 700, 850]));
        let a = r.us(s.dim + 1);
        for i in 0..c.data.len() {
            if a == s.dim || a == i % s.dim {
                c.data[i] *= f;
            }
        }
    }
    p.mode = r.range(1, 4) as u32;
    p.extra.extend(measure::gen(&prop, r, s, &c));
    let same = r.p(0.2);
    let t0 = r.unit();
    let mut known = vec![1u64];
    let n = match prop.as_str() {
        "C11" if r.p(0.8) => r.range(1, 9),
        "C11" => r.range(10, 30),
        "C16" => 0,
        _ if !s.splittable || r.p(0.15) => 0,
        _ if r.p(0.9) => r.range(1, 4),
        _ => r.range(5, 12),
    };
    if prop == "C16" {
        let tol = measure::tolerance(r, s, &c);
        p.extra.push([4, tol.to_bits(), r.below(4), 0]);
        p.extra.extend(measure::flat_rows(r, s, tol));
    }
    if s.splittable && r.p(0.4) {
        p.extra.push([5, 1, 0, 0]);
    }
    let frames = prop != "C16" && s.splittable && !extreme && r.p(0.35);
    if frames {
        p.extra.push([6, r.next(), 0, 0]);
    }
    let skew = r.us(4);
    for _ in 0..n {
        let k = match skew {
            0 => known.len() - 1, // always the newest piece: deep chains
            1 => known.len() - 1 - r.us(2.min(known.len())),
            _ => r.us(known.len()),
        };
        let path = known.swap_remove(k);
        let t = if same {
            t0
        } else {
            match r.us(10) {
                0 => 0.0,
                1 => 1.0,
                2 | 3 => 0.5,
                4 => *r.pick(&[1e-9, 1.0 - 1e-9, 1e-300, f64::EPSILON, 0.25, 0.75, 1.0 / 3.0]),
                5 => edge_t(r),
                _ => r.unit(),
            }
        };
        // numbers next to nothing are not the same in all units
        let t = if frames && t > 0.0 && t < 1e-12 { 1e-9 } else { t };
        p.extra.push([0, path, t.to_bits(), r.below(12)]);
        if path < 1 << 40 {
            known.push(2 * path);
            known.push(2 * path + 1);
        }
        if known.is_empty() {
            break;
        }
    }
    for i in (1..p.extra.len()).rev() {
        let j = r.us(i + 1);
        p.extra.swap(i, j);
    }
    let ms = p.extra.iter().filter(|x| x[0] == 3).count() as u64;
    let n = if prop == "C16" { r.range(1, 12) } else { n };
    let msgs = 3 * n as u64 + 6 + 2 * ms * (n as u64 + 1);
    let rate = *r.pick(&[0.1, 0.3, 0.6]);
    for m in 0..msgs * 2 {
        if r.p(rate) {
            let f = r.below(3);
            p.extra.push([1, m, f, 1 + r.below(90)]);
        }
    }
    let (kops, crashable) = if s.fam == FAM_F64 {
        (0, false)
    } else {
        let (m, a) = match p.extra.iter().find(|x| x[0] == 3) {
            Some(x) => measure::args(s, &c, x),
            None => (M::Split, Args { t: 0.5, u: 0.0, n: 0, p: vec![0.0; s.dim] }),
        };
        (cx.base(&c, m, &a).ops, true)
    };
    for e in 0..2 * n as u64 + ms * (n as u64 + 1) {
        if r.p(rate) {
            let how = if crashable && r.p(0.7) { 0 } else { 1 + r.below(2) };
            p.extra.push([2, e, how, r.below(kops.max(1))]);
        }
    }
    p.curves.push(c);
    p.env = mix(p.index);
}

#[derive(Clone)]
enum Msg {
    /// op 0: split at t, k + 1: the k-th measurement
    Req { path: u64, data: Vec<u64>, t: f64, op: usize, worker: usize },
    Half { path: u64, data: Vec<u64> },
    Measured { path: u64, op: usize, yes: bool },
}
enum E {
    Deliver(Msg),
    Submit(u64, usize),
    Timeout(u64, usize, u32),
}
struct Sim<'a> {
    p: &'a Plan,
    sh: &'a Shape,
    q: BTreeMap<(u64, u64), E>,
    seq: u64,
    now: u64,
    sent: u64,
    execs: u64,
    known: BTreeMap<u64, Vec<u64>>,
    down: Vec<u64>,
    fate: HashMap<u64, (u64, u64)>,
    crash: HashMap<u64, (u64, u64)>,
    splits: HashMap<u64, (f64, u64)>,
    attempt: HashMap<(u64, usize), u32>,
    ms: Vec<[u64; 4]>,
    measured: BTreeMap<(u64, usize), bool>,
    crew: Vec<Shape>,
    frames: Vec<Frame>,
    flat: Option<(f64, u64)>,
    deepest: u64,
}
/// A worker's coordinates: its axis j is the curve's axis `axes[j]`, in units of 2^-exp. Nothing is rounded on the way.
struct Frame {
    axes: Vec<usize>,
    exp: i32,
}
impl Frame {
    fn new(seed: u64, worker: usize, dim: usize, shuffled: bool) -> Frame {
        let r = &mut Rng::new(mix(seed ^ (worker as u64) << 32));
        let mut axes: Vec<usize> = (0..dim).collect();
        if shuffled {
            for i in (1..dim).rev() {
                axes.swap(i, r.us(i + 1));
            }
        }
        Frame { axes, exp: *r.pick(&[0, 1, -1, 10, -10, 24, -24, 40, -40]) }
    }
    fn there(&self, d: &[u64]) -> Vec<u64> {
        let n = self.axes.len();
        (0..d.len()).map(|i| (f64::from_bits(d[i - i % n + self.axes[i % n]]) * 2f64.powi(self.exp)).to_bits()).collect()
    }
    /// `each` numbers per axis
    fn back(&self, d: &[u64], each: usize) -> Vec<u64> {
        let n = self.axes.len() * each;
        let mut v = d.to_vec();
        for i in 0..d.len() {
            let j = i % n;
            let x = f64::from_bits(d[i]) * 2f64.powi(-self.exp);
            v[i - j + self.axes[j / each] * each + j % each] = x.to_bits();
        }
        v
    }
}
fn rec(id: u64, tag: u8, w: Vec<u64>) {
    for x in &w {
        simrt::trace_note(*x);
    }
    put_record(id, &Out { tag, code: 0, w });
}
const R_DIFF: u64 = 1;
const R_PANIC: u64 = 2;
const R_STUCK: u64 = 3;
const R_SPLIT: u64 = 10;
const R_PIECE: u64 = 11;
const R_MEAS: u64 = 12;
const R_DEEP: u64 = 4;

impl<'a> Sim<'a> {
    fn at(&mut self, t: u64, e: E) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }
    fn send(&mut self, m: Msg) {
        let n = self.sent;
        self.sent += 1;
        simrt::stat(U_SEND, 1);
        simrt::trace_note(n);
        let lat = 2 + mix(self.p.env ^ n) % 5;
        match self.fate.get(&n) {
            Some((0, _)) => simrt::stat(U_LOST, 1),
            Some((1, a)) => {
                simrt::stat(U_DUP, 1);
                let t = self.now + lat + a;
                self.at(self.now + lat, E::Deliver(m.clone()));
                self.at(t, E::Deliver(m));
            }
            Some((_, a)) => {
                simrt::stat(U_DELAY, 1);
                self.at(self.now + lat + a, E::Deliver(m));
            }
            None => self.at(self.now + lat, E::Deliver(m)),
        }
    }
    fn request(&mut self, path: u64, op: usize) {
        let a = self.attempt.entry((path, op)).or_insert(0);
        *a += 1;
        let n = *a;
        if n > 1 {
            simrt::stat(U_RETRY, 1);
        }
        let worker = (mix(path) as usize + op + n as usize) % self.down.len();
        let t = if op == 0 { self.splits[&path].0 } else { 0.0 };
        let data = self.known[&path].clone();
        self.send(Msg::Req { path, data, t, op, worker });
        self.at(self.now + TIMEOUT * n as u64, E::Timeout(path, op, n));
    }
    fn learn(&mut self, path: u64, data: Vec<u64>) {
        if let Some(old) = self.known.get(&path) {
            if *old != data {
                let mut w = vec![path, old.len() as u64];
                w.extend(old);
                w.extend(&data);
                rec(R_DIFF, T_VAL, w);
            }
            return;
        }
        self.known.insert(path, data);
        if let Some((_, d)) = self.splits.get(&path).copied() {
            self.at(self.now + d, E::Submit(path, 0));
        }
        for k in 0..self.ms.len() {
            let d = mix(self.p.env ^ path.wrapping_mul(31).wrapping_add(k as u64)) % 30;
            self.at(self.now + d, E::Submit(path, k + 1));
        }
    }
    fn build(&self, sh: &Shape, data: &[u64]) -> Option<Box<dyn Obj>> {
        let d: Vec<f64> = data.iter().map(|b| f64::from_bits(*b)).collect();
        let mut o = Out::new();
        simrt::begin_step(1 << 21, &[], Lim::FREE.budget, u64::MAX);
        let c = (sh.build)(&d, &self.p.curves[0].knots, &mut o);
        simrt::end_step();
        c
    }
    /// false: the library itself panicked
    fn work(&mut self, path: u64, data: &[u64], t: f64, op: usize, worker: usize) -> bool {
        if self.now < self.down[worker] {
            simrt::stat(U_LOST, 1);
            return true;
        }
        let e = self.execs;
        self.execs += 1;
        let crash = self.crash.get(&e).copied();
        if let Some((1, _)) = crash {
            simrt::stat(U_WCRASH, 1);
            self.down[worker] = self.now + DOWN;
            return true;
        }
        let framed = self.frames.get(worker).map(|f| f.there(data));
        let Some(c) = self.build(&self.crew[worker], framed.as_deref().unwrap_or(data)) else {
            rec(R_PANIC, T_VAL, vec![path, t.to_bits()]);
            return false;
        };
        let mut evs = vec![];
        if let Some((0, o)) = crash {
            evs.push(Ev { task: 0, step: e as u32, at: At::Op(o), act: Act::Crash(1000 + e as u32) });
        }
        if op > 0 {
            return self.measure(path, op, data, c, e, &evs, crash, worker);
        }
        simrt::begin_step(e as u32, &evs, Lim::FREE.budget, u64::MAX);
        let r = c.split(t);
        simrt::end_step();
        match r {
            Ok((a, b)) => {
                simrt::stat(U_SPLITS, 1);
                let (mut x, mut y) = (vec![], vec![]);
                a.observe(&mut x);
                b.observe(&mut y);
                if let Some(f) = self.frames.get(worker) {
                    (x, y) = (f.back(&x, 1), f.back(&y, 1));
                }
                let mut w = vec![path, t.to_bits(), data.len() as u64];
                w.extend(data);
                w.extend(&x);
                w.extend(&y);
                rec(R_SPLIT, T_VAL, w);
                if let Some((2, _)) = crash {
                    simrt::stat(U_WCRASH, 1);
                    self.down[worker] = self.now + DOWN;
                    return true;
                }
                let (l, r) = (Msg::Half { path: 2 * path, data: x }, Msg::Half { path: 2 * path + 1, data: y });
                if mix(e) & 1 == 0 {
                    self.send(l);
                    self.send(r);
                } else {
                    self.send(r);
                    self.send(l);
                }
                true
            }
            Err((T_CRASH, k)) if k == 1000 + e as u32 => {
                simrt::stat(U_WCRASH, 1);
                simrt::stat(U_OPCRASH, 1);
                self.down[worker] = self.now + DOWN;
                true
            }
            Err(_) => {
                rec(R_PANIC, T_VAL, vec![path, t.to_bits()]);
                false
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn measure(&mut self, path: u64, op: usize, data: &[u64], c: Box<dyn Obj>, e: u64, evs: &[Ev], crash: Option<(u64, u64)>, worker: usize) -> bool {
        let (m, mut a) = measure::args(self.sh, &self.p.curves[0], &self.ms[op - 1]);
        let mut o = Out::new();
        if let Some(f) = self.frames.get(worker) {
            a.n = if m == M::Dd { f.axes.iter().position(|x| *x == a.n).unwrap_or(0) } else { a.n };
            a.p.iter_mut().for_each(|x| *x *= 2f64.powi(f.exp));
        }
        simrt::begin_step(e as u32, evs, Lim::FREE.budget, u64::MAX);
        let lost = measure::lost(&self.ms[op - 1], data).and_then(|d| {
            simrt::stat(U_CORRUPT, 1);
            (self.crew[worker].build)(&d, &[], &mut o)
        });
        lost.as_ref().unwrap_or(&c).call(m, &a, &mut o);
        simrt::end_step();
        if o.tag == T_CRASH && o.code == 1000 + e as u32 {
            simrt::stat(U_WCRASH, 1);
            simrt::stat(U_OPCRASH, 1);
            self.down[worker] = self.now + DOWN;
            return true;
        }
        simrt::stat(U_MEASURED, 1);
        if let (Some(f), T_VAL) = (self.frames.get(worker), o.tag) {
            let f = match m {
                M::Dd | M::Arclen | M::Dist => &Frame { axes: vec![0], exp: f.exp },
                _ => f,
            };
            o.w = f.back(&o.w, if m == M::BBox { 2 } else { 1 });
        }
        let mut w = vec![path, op as u64, data.len() as u64];
        w.extend(data);
        w.push(o.tag as u64);
        w.extend(&o.w);
        rec(R_MEAS, T_VAL, w);
        if o.tag != T_VAL {
            return false;
        }
        if let Some((2, _)) = crash {
            simrt::stat(U_WCRASH, 1);
            self.down[worker] = self.now + DOWN;
            return true;
        }
        let yes = o.w.first().is_some_and(|x| *x != 0);
        self.send(Msg::Measured { path, op, yes });
        true
    }
    /// the workers' answers on a piece are in: flat enough, or to be split?
    fn decide(&mut self, path: u64) {
        let Some((tol, how)) = self.flat else { return };
        if self.splits.contains_key(&path) {
            return;
        }
        let mut done = false;
        for (k, x) in self.ms.iter().enumerate() {
            if measure::decides(x, tol) {
                match self.measured.get(&(path, k + 1)) {
                    None => return,
                    Some(y) => done |= *y,
                }
            }
        }
        if done || measure::is_point(&self.known[&path], self.sh, tol) {
            return;
        }
        if 63 - path.leading_zeros() as u64 >= self.deepest {
            rec(R_DEEP, T_VAL, vec![path, self.deepest]);
            self.q.clear();
            return;
        }
        let t = match how {
            0 | 1 => 0.5,
            2 => [0.5, 0.375, 0.625, 0.4375][mix(path) as usize % 4],
            _ => 0.375 + (mix(path ^ self.p.env) % 1000) as f64 / 4000.0,
        };
        self.splits.insert(path, (t, 0));
        self.at(self.now + 1, E::Submit(path, 0));
    }
    fn leaves(&self, path: u64, a: f64, b: f64, out: &mut Vec<(u64, f64, f64)>) {
        match self.splits.get(&path) {
            Some((t, _)) if self.known.contains_key(&(2 * path)) => {
                let m = a + (b - a) * t;
                self.leaves(2 * path, a, m, out);
                self.leaves(2 * path + 1, m, b, out);
            }
            _ => out.push((path, a, b)),
        }
    }
    fn run(&mut self) {
        let root: Vec<u64> = self.p.curves[0].data.iter().map(|x| x.to_bits()).collect();
        self.learn(1, root.clone());
        let mut events = 0;
        while let Some((k, e)) = self.q.pop_first() {
            self.now = k.0;
            events += 1;
            if events > 60_000 {
                rec(R_STUCK, T_VAL, vec![]);
                return;
            }
            match e {
                E::Submit(path, op) => self.request(path, op),
                E::Timeout(path, op, n) => {
                    let done = match op {
                        0 => self.known.contains_key(&(2 * path)) && self.known.contains_key(&(2 * path + 1)),
                        _ => self.measured.contains_key(&(path, op)),
                    };
                    if !done && self.attempt[&(path, op)] == n {
                        self.request(path, op)
                    }
                }
                E::Deliver(Msg::Req { path, data, t, op, worker }) => {
                    if !self.work(path, &data, t, op, worker) {
                        return;
                    }
                }
                E::Deliver(Msg::Measured { path, op, yes }) => {
                    self.measured.entry((path, op)).or_insert(yes);
                    self.decide(path);
                }
                E::Deliver(Msg::Half { path, data }) => self.learn(path, data),
            }
        }
        simrt::stat(U_SIMTIME, self.now);
        let mut l = vec![];
        self.leaves(1, 0.0, 1.0, &mut l);
        let orig = self.build(self.sh, &root);
        for (path, a, b) in l {
            let data = self.known[&path].clone();
            let mut w = vec![path, a.to_bits(), b.to_bits(), data.len() as u64];
            w.extend(&data);
            let piece = self.build(self.sh, &data);
            let us: &[f64] = if self.p.prop == "C11" { &US } else { &[] };
            for u in us {
                for (c, t) in [(&piece, *u), (&orig, a + (b - a) * u)] {
                    for m in evaluators(self.sh) {
                        let mut o = Out::new();
                        let mut all = vec![];
                        simrt::begin_step(1 << 20, &[], Lim::FREE.budget, u64::MAX);
                        let axes = if m == M::Axis { self.sh.dim } else { 1 };
                        for n in 0..axes {
                            if let Some(c) = c {
                                c.call(m, &Args { t, u: 0.0, n, p: vec![0.0; self.sh.dim] }, &mut o);
                            }
                            all.extend(&o.w);
                            if o.tag != T_VAL {
                                break;
                            }
                        }
                        simrt::end_step();
                        w.push(o.tag as u64);
                        all.resize(self.sh.dim, 0);
                        w.extend(&all);
                    }
                }
            }
            rec(R_PIECE, T_VAL, w);
        }
    }
}
fn evaluators(s: &Shape) -> Vec<M> {
    [M::Eval, M::EvalTrait, M::Casteljau, M::Axis].into_iter().filter(|m| s.methods.contains(m)).collect()
}
pub fn casteljau(d: &[u64], dim: usize, u: f64) -> Vec<f64> {
    let mut p: Vec<f64> = d.iter().map(|b| f64::from_bits(*b)).collect();
    let n = p.len() / dim;
    for k in 1..n {
        for i in 0..(n - k) * dim {
            p[i] = p[i] * (1.0 - u) + p[i + dim] * u;
        }
    }
    p.truncate(dim);
    p
}

pub fn judge(cx: &mut Ctx, p: &Plan) -> Verdict {
    if p.curves.is_empty() {
        return Ok(None);
    }
    let sh = &cx.reg[p.curves[0].shape].clone();
    let dim = sh.dim;
    let mut sim = Sim {
        p, sh, q: BTreeMap::new(), seq: 0, now: 0, sent: 0, execs: 0, known: BTreeMap::new(), down: vec![0; p.mode.max(1) as usize],
        fate: HashMap::new(), crash: HashMap::new(), splits: HashMap::new(), attempt: HashMap::new(),
        ms: p.extra.iter().filter(|x| x[0] == 3).copied().collect(), measured: BTreeMap::new(), crew: vec![sh.clone(); p.mode.max(1) as usize],
        frames: vec![],
        flat: p.extra.iter().find(|x| x[0] == 4).map(|x| (f64::from_bits(x[1]), x[2])), deepest: 0,
    };
    if p.extra.iter().any(|x| x[0] == 5 && x[1] == 1) {
        let kin: Vec<&Shape> = cx.reg.iter().filter(|x| x.kind == sh.kind && x.dim == sh.dim && x.ncp == sh.ncp && x.deg == sh.deg && x.methods == sh.methods).collect();
        for (w, s) in sim.crew.iter_mut().enumerate() {
            *s = kin[mix(p.env ^ (w as u64 + 77)) as usize % kin.len()].clone();
        }
        if sim.crew.iter().any(|s| s.name != sh.name) {
            simrt::stat(U_MIXED, 1);
        }
    }
    if let Some(x) = p.extra.iter().find(|x| x[0] == 6) {
        let shuffled = !["C13", "C14"].contains(&p.prop.as_str());
        sim.frames = (0..sim.down.len()).map(|w| Frame::new(x[1], w, dim, shuffled)).collect();
        simrt::stat(U_FRAMES, 1);
    }
    if let Some((tol, how)) = sim.flat {
        sim.deepest = measure::deepest(sh, &p.curves[0].data, tol, how);
    }
    for x in &p.extra {
        match x[0] {
            0 => {
                sim.splits.entry(x[1]).or_insert((f64::from_bits(x[2]), x[3]));
            }
            1 => {
                sim.fate.entry(x[1]).or_insert((x[2], x[3]));
            }
            2 => {
                sim.crash.entry(x[1]).or_insert((x[2], x[3]));
            }
            _ => {}
        }
    }
    let ms = sim.ms.clone();
    let name = sh.name.clone();
    let mut found: BTreeMap<(u64, u64), Vec<u64>> = BTreeMap::new();
    let mut leaf: Vec<(u64, f64, f64)> = vec![];
    let mut sim = Some(sim);
    let end = in_fresh(60, &mut || unsafe {
        simrt::ENV_SEED = p.env;
        let mut c = simrt::Ctl::new(0);
        c.fair = false;
        c.budget = u64::MAX;
        simrt::set_ctl(Box::into_raw(c));
        simrt::single();
        sim.take().unwrap().run();
    });
    note_hashes();
    let recs = match end {
        End::Ok => take_records().map_err(|_| "outcome buffer full".to_string())?,
        End::Viol(_, m) => return viol("budget", m),
        End::Abort(s) => return viol("abort", format!("the process died of signal {}", s)),
        End::Hang => return viol("hang", "the run never ended".into()),
        End::Harness(m) => return Err(m),
    };
    let fl = |v: &[u64]| v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<f64>>();
    let c = p.curves[0].clone();
    let tol: Vec<f64> = (0..dim).map(|a| 1e-10 * c.data.iter().skip(a).step_by(dim).fold(0.0f64, |m, x| m.max(x.abs()))).collect();
    let near = |a: &[f64], b: &[f64]| a.iter().zip(b).zip(&tol).all(|((x, y), e)| (x - y).abs() <= *e);
    let mut prev: Option<Vec<f64>> = None;
    let mut last: Vec<f64> = vec![];
    let mut seen = false;
    for (id, o) in &recs {
        let w = &o.w;
        match *id {
            R_PANIC => return viol("panic", format!("{}: building or splitting piece {:#b} (at {:?}) panicked", name, w[0], f64::from_bits(w[1]))),
            R_DEEP => return viol("endless", format!("{}: piece {:#b} is still neither linear nor a point to its worker, after {} levels of splitting", name, w[0], w[1])),
            R_STUCK => return viol("stuck", format!("{}: subdivision never finished although faults had stopped", name)),
            R_DIFF => {
                let n = w[1] as usize;
                return viol("unrepeatable", format!("{}: piece {:#b} computed twice: {:?} and {:?}", name, w[0], fl(&w[2..2 + n]), fl(&w[2 + n..])));
            }
            R_SPLIT => {
                // what a worker restarted from scratch answers
                let n = w[2] as usize;
                if w[3..3 + n].iter().all(|b| f64::from_bits(*b).is_finite()) {
                    let q = Curve { shape: c.shape, data: fl(&w[3..3 + n]), knots: vec![] };
                    let b = cx.base(&q, M::Split, &Args { t: f64::from_bits(w[1]), u: 0.0, n: 0, p: vec![0.0; dim] });
                    simrt::stat(U_CALLS, 1);
                    if p.prop == "C11" && b.ok && b.out.w != w[3 + n..] {
                        return viol("unrepeatable", format!("{}: piece {:#b} split at {:?} gave {:?} but a fresh worker gives {}", name, w[0], f64::from_bits(w[1]), fl(&w[3 + n..]), b.out.show()));
                    }
                }
            }
            R_MEAS => {
                let n = w[2] as usize;
                let data = fl(&w[3..3 + n]);
                simrt::stat(U_CALLS, 1);
                let got = &w[3 + n..];
                let x = &ms[w[1] as usize - 1];
                if let Some(old) = found.get(&(w[0], w[1])) {
                    if old != got {
                        return viol("unrepeatable", format!("{}: {} of piece {:#b} measured twice: {:?} and {:?}", name, measure::what(sh, &c, x), w[0], fl(&old[1..]), fl(&got[1..])));
                    }
                    continue;
                }
                if let Some((class, m)) = measure::judge(sh, &c, &data, w[0] == 1, x, got[0] as u8, &fl(&got[1..])) {
                    return viol(class, format!("{} {:?}{}, piece {:#b} with points {:?}: {}", name, c.data, measure::knots_text(&c), w[0], data, m));
                }
                found.insert((w[0], w[1]), got.to_vec());
            }
            R_PIECE if p.prop != "C11" => {
                leaf.push((w[0], f64::from_bits(w[1]), f64::from_bits(w[2])));
                seen = true;
            }
            R_PIECE => {
                let n = w[3] as usize;
                let (a, b) = (f64::from_bits(w[1]), f64::from_bits(w[2]));
                let d = &w[4..4 + n];
                let v = fl(d);
                let what = || format!("{} {:?}, piece {:#b} = {:?}..{:?} with points {:?}", name, c.data, w[0], a, b, v);
                let start = v[..dim].to_vec();
                let want = prev.clone().unwrap_or_else(|| c.data[..dim].to_vec());
                if start != want {
                    return viol(if seen { "gap" } else { "wrong-start" }, format!("{}: starts at {:?}, not at {:?}", what(), start, want));
                }
                seen = true;
                last = v[n - dim..].to_vec();
                prev = Some(last.clone());
                let mut q = 4 + n;
                for u in US {
                    simrt::stat(U_POINT_OK, 1);
                    let t = a + (b - a) * u;
                    let own = casteljau(d, dim, u);
                    let ob: Vec<u64> = c.data.iter().map(|x| x.to_bits()).collect();
                    let reference = casteljau(&ob, dim, t);
                    if !near(&own, &reference) {
                        return viol("off-curve", format!("{}: at {:?} of the piece it is at {:?}, the curve at {:?}", what(), u, own, reference));
                    }
                    for (who, at, want) in [("piece", u, &own), ("curve", t, &reference)] {
                        for m in evaluators(sh) {
                            let (tag, e) = (w[q], fl(&w[q + 1..q + 1 + dim]));
                            q += dim + 1;
                            if tag != T_VAL as u64 || !near(&e, want) {
                                return viol("off-curve", format!("{}: {} of the {} at {:?} gives {:?} instead of {:?}", what(), mname(m), who, at, e, want));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if !seen {
        return viol("lost", "no pieces".into());
    }
    if p.prop != "C11" {
        if let Some(x) = p.extra.iter().find(|x| x[0] == 4) {
            if let Some((class, m)) = measure::flattened(sh, &c, f64::from_bits(x[1]), &leaf, &ms, &found) {
                return viol(class, format!("{} {:?}: {}", name, c.data, m));
            }
        }
        if let Some((class, m)) = measure::merge(sh, &c, &leaf, &ms, &found) {
            return viol(class, format!("{} {:?}: {}", name, c.data, m));
        }
        return Ok(None);
    }
    let n = c.data.len();
    if last != c.data[n - dim..] {
        return viol("wrong-end", format!("{} {:?}: the last piece ends at {:?}", name, c.data, last));
    }
    Ok(None)
}
