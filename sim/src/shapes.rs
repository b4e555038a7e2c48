//! Every type of the library the simulator drives, behind one object-safe interface: build, call a method, edit in place,
//! copy, observe. All library code runs between `simrt::enter` and `simrt::exit`; arguments and results are converted
//! outside of that window.
use crate::scalar::*;
use simrt::{kind, op, SimCrash};
use std::fmt::Write;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};

pub const T_VAL: u8 = 0;
pub const T_ERR: u8 = 1;
pub const T_PANIC: u8 = 2;
pub const T_CRASH: u8 = 3;
pub const T_NONE: u8 = 9;

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub tag: u8,
    pub code: u32,
    pub w: Vec<u64>,
}
impl Out {
    pub fn new() -> Out {
        Out { tag: T_NONE, code: 0, w: Vec::with_capacity(400) }
    }
    pub fn clear(&mut self) {
        self.tag = T_NONE;
        self.code = 0;
        self.w.clear();
    }
    fn fail(&mut self, e: (u8, u32)) {
        self.tag = e.0;
        self.code = e.1;
        self.w.clear();
    }
    fn err(&mut self, e: BSplineError) {
        self.tag = T_ERR;
        self.code = 1 + e as u32;
    }
    fn p<P: HPoint>(&mut self, p: &P) {
        p.get(&mut self.w)
    }
    fn s(&mut self, x: f64) {
        self.w.push(canon(x))
    }
    fn b(&mut self, b: bool) {
        self.w.push(b as u64)
    }
    pub fn show(&self) -> String {
        match self.tag {
            T_VAL => {
                let v: Vec<String> = self.w.iter().map(|b| format!("{:?}", f64::from_bits(*b))).collect();
                format!("[{}]", v.join(" "))
            }
            T_ERR => format!("error #{}", self.code),
            T_PANIC => "panic".into(),
            T_CRASH => format!("injected panic #{}", self.code),
            _ => "no result".into(),
        }
    }
}

/// Runs library code under the simulator's hooks.
#[inline(never)]
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, (u8, u32)> {
    simrt::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    simrt::exit();
    match r {
        Ok(v) => Ok(v),
        Err(p) => match p.downcast::<SimCrash>() {
            Ok(c) => Err((T_CRASH, c.0)),
            Err(_) => Err((T_PANIC, 0)),
        },
    }
}

macro_rules! methods { ($($n:ident),*) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms)] #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)] #[repr(u8)]
    pub enum M { $($n),* }
    pub const METHODS: &[(M, &str)] = &[$((M::$n, stringify!($n))),*];
} }
methods!(Eval, EvalTrait, Casteljau, CtrlPts, Split, SplitEval, Axis, Deriv, DerivEval, Dd, Arclen, Dist, Baseline, IsLinear,
    IsPoint, BBox, Eq, Debug, IntoIter, Start, End, Domain, Knots, New, Clone, Add, Sub, MulS, MulF, SqLen, Default, AddT,
    SubT, Display, Deriv2, Dim);

pub fn mname(m: M) -> &'static str {
    METHODS.iter().find(|x| x.0 == m).unwrap().1
}
pub fn mparse(s: &str) -> Option<M> {
    METHODS.iter().find(|x| x.1 == s).map(|x| x.0)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Args {
    pub t: f64,
    pub u: f64,
    pub n: usize,
    pub p: Vec<f64>,
}

/// One write of an edit: element index, which axis (255 = all), value(s)
#[derive(Clone, Debug, PartialEq)]
pub struct Write1 {
    pub i: usize,
    pub axis: u8,
    pub v: Vec<f64>,
}
pub const E_FWD: u8 = 0; // for loop over everything, writing where asked
pub const E_REV: u8 = 1; // reversed
pub const E_NTH: u8 = 2; // nth() straight to the element
pub const E_BREAK: u8 = 3; // for loop left after the last write
pub const E_ALT: u8 = 4; // from both ends in turn
pub const E_EACH: u8 = 5; // for_each
pub const E_MODES: usize = 6;

/// the order in which iteration `mode` visits n elements
pub fn order(mode: u8, n: usize, k: usize) -> usize {
    match mode {
        E_REV => n - 1 - k,
        E_ALT if k % 2 == 1 => n - 1 - k / 2,
        E_ALT => k / 2,
        _ => k,
    }
}

pub trait Obj {
    fn call(&self, m: M, a: &Args, o: &mut Out);
    fn observe(&self, w: &mut Vec<u64>);
    fn dup(&self) -> Result<Box<dyn Obj>, (u8, u32)>;
    fn any(&self) -> &dyn std::any::Any;
    /// `*self = other.clone()`: another value in the same place
    fn assign(&mut self, other: &dyn Obj, o: &mut Out);
    fn edit(&mut self, _mode: u8, _w: &[Write1], o: &mut Out) {
        o.tag = T_NONE
    }
    fn split(&self, _t: f64) -> Result<(Box<dyn Obj>, Box<dyn Obj>), (u8, u32)> {
        Err((T_NONE, 0))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Point,
    Line,
    Quad,
    Cubic,
    Seg,
    Bez,
    Bsp,
    /// a point of numbers that are no Float
    Cell,
}
#[derive(Clone)]
pub struct Shape {
    pub name: String,
    pub kind: K,
    pub fam: u8,
    pub dim: usize,
    pub ncp: usize,
    pub deg: usize,
    pub nk: usize,
    pub methods: &'static [M],
    pub editable: bool,
    pub splittable: bool,
    pub thread_safe: bool,
    pub build: fn(&[f64], &[f64], &mut Out) -> Option<Box<dyn Obj>>,
}

struct Probe<T>(PhantomData<T>);
trait NotBoth {
    fn both(&self) -> bool {
        false
    }
}
impl<T> NotBoth for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn both(&self) -> bool {
        true
    }
}

struct Buf {
    b: [u8; 2048],
    n: usize,
}
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &c in s.as_bytes() {
            if self.n < self.b.len() {
                self.b[self.n] = c;
            }
            self.n += 1;
        }
        Ok(())
    }
}
fn debug<T: std::fmt::Debug>(x: &T, n: usize, o: &mut Out) {
    let mut b = Buf { b: [0; 2048], n: 0 };
    match guard(|| match n % 5 {
        0 => write!(b, "{:#?}", x),
        1 => write!(b, "{:9.3?}", x),
        2 => write!(b, "{:+?}", x),
        _ => write!(b, "{:?}", x),
    }
    .is_ok()) {
        Ok(k) => {
            o.b(k);
            o.w.push(b.n as u64);
            o.w.push(simrt::rng::hash_bytes(&b.b));
        }
        Err(e) => o.fail(e),
    }
}

fn pts<P: HPoint, const N: usize>(d: &[f64]) -> [P; N] {
    std::array::from_fn(|i| P::mk(&d[i * P::D..(i + 1) * P::D]))
}

macro_rules! g {
    ($o:expr, $e:expr, $v:ident => $body:expr) => {
        match guard(|| $e) {
            Ok($v) => $body,
            Err(e) => $o.fail(e),
        }
    };
}

fn obs_line<P: HPoint>(l: &LineSegment<P>, w: &mut Vec<u64>) {
    let s = BezierSegment::from(*l);
    s.start().get(w);
    s.end().get(w);
}
fn obs_quad<P: HPoint>(l: &QuadraticBezier<P>, w: &mut Vec<u64>) {
    for p in l.control_points() {
        p.get(w)
    }
}
fn obs_cubic<P: HPoint>(l: &CubicBezier<P>, w: &mut Vec<u64>) {
    for p in l.control_points() {
        p.get(w)
    }
}
fn obs_seg<P: HPoint>(l: &BezierSegment<P>, w: &mut Vec<u64>) {
    match l {
        BezierSegment::Linear(s) => obs_line(s, w),
        BezierSegment::Quadratic(s) => obs_quad(s, w),
        BezierSegment::Cubic(s) => obs_cubic(s, w),
    }
}
fn obs_bez<P: HPoint, const N: usize>(l: &Bezier<P, N>, w: &mut Vec<u64>) {
    for p in l.control_points() {
        p.get(w)
    }
}
fn f<S: Into<f64>>(s: S) -> f64 {
    s.into()
}
fn s<P: Point>(x: f64) -> P::Scalar {
    P::Scalar::from(x)
}

/// the points in `w`, one of which is replaced by the arguments' point
fn other<P: HPoint>(w: &[u64], a: &Args) -> Vec<P> {
    let d = a.p.len().max(1);
    let x: Vec<f64> = w.iter().map(|b| f64::from_bits(*b)).collect();
    let mut v: Vec<P> = x.chunks(d).map(|c| P::mk(c)).collect();
    let n = v.len();
    v[a.n % n] = P::mk(&a.p);
    v
}
/// Is it equal to itself, and to its twin of which one control point is replaced?
macro_rules! equal {
    ($o:ident, $q:ident, $a:ident, $obs:ident, $v:ident => $mk:expr) => {{
        let mut w = vec![];
        $obs($q, &mut w);
        let $v = other::<P>(&w, $a);
        let r = $mk;
        g!($o, (*$q == *$q, *$q == r, r == *$q, *$q != r), v => { $o.b(v.0); $o.b(v.1); $o.b(v.2); $o.b(v.3) })
    }};
}

fn call_line<P: HPoint>(q: &LineSegment<P>, m: M, a: &Args, o: &mut Out) {
    let t = s::<P>(a.t);
    match m {
        M::Eval => g!(o, q.eval(t), v => o.p(&v)),
        M::Split => g!(o, q.split(t), v => { obs_line(&v.0, &mut o.w); obs_line(&v.1, &mut o.w) }),
        M::SplitEval => { let u = s::<P>(a.u); g!(o, { let (x, y) = q.split(t); (x.eval(u), y.eval(u)) }, v => { o.p(&v.0); o.p(&v.1) }) }
        M::Dist => { let p = P::mk(&a.p); g!(o, q.distance_to_point(p), v => o.s(f(v))) }
        M::Axis => g!(o, q.axis(t, a.n), v => o.s(f(v))),
        M::Deriv => g!(o, q.derivative(), v => o.p(&v)),
        M::Eq => equal!(o, q, a, obs_line, v => LineSegment::new(v[0], v[1])),
        M::Debug => debug(q, a.n, o),
        M::Clone => g!(o, q.clone(), v => obs_line(&v, &mut o.w)),
        _ => o.tag = T_NONE,
    }
}
fn call_quad<P: HPoint>(q: &QuadraticBezier<P>, m: M, a: &Args, o: &mut Out) {
    let t = s::<P>(a.t);
    let u = s::<P>(a.u);
    match m {
        M::Eval => g!(o, q.eval(t), v => o.p(&v)),
        M::Casteljau => g!(o, q.eval_casteljau(t), v => o.p(&v)),
        M::CtrlPts => g!(o, q.control_points(), v => for p in v { o.p(&p) }),
        M::Split => g!(o, q.split(t), v => { obs_quad(&v.0, &mut o.w); obs_quad(&v.1, &mut o.w) }),
        M::SplitEval => g!(o, { let (x, y) = q.split(t); (x.eval(u), y.eval(u)) }, v => { o.p(&v.0); o.p(&v.1) }),
        M::Axis => g!(o, q.axis(t, a.n), v => o.s(f(v))),
        M::Deriv => g!(o, q.derivative(), v => obs_line(&v, &mut o.w)),
        M::DerivEval => g!(o, q.derivative().eval(t), v => o.p(&v)),
        M::Dd => g!(o, q.dd(t, a.n), v => o.s(f(v))),
        M::Arclen => g!(o, q.arclen(a.n), v => o.s(f(v))),
        M::Dist => { let p = P::mk(&a.p); g!(o, q.distance_to_point(p), v => o.s(f(v))) }
        M::Baseline => g!(o, q.baseline(), v => obs_line(&v, &mut o.w)),
        M::IsLinear => g!(o, q.is_linear(u), v => o.b(v)),
        M::IsPoint => g!(o, q.is_a_point(u), v => o.b(v)),
        M::Eq => equal!(o, q, a, obs_quad, v => QuadraticBezier::new(v[0], v[1], v[2])),
        M::Debug => debug(q, a.n, o),
        M::Clone => g!(o, q.clone(), v => obs_quad(&v, &mut o.w)),
        _ => o.tag = T_NONE,
    }
}
fn call_cubic<P: HPoint>(q: &CubicBezier<P>, m: M, a: &Args, o: &mut Out) {
    let t = s::<P>(a.t);
    let u = s::<P>(a.u);
    match m {
        M::Eval => g!(o, q.eval(t), v => o.p(&v)),
        M::Casteljau => g!(o, q.eval_casteljau(t), v => o.p(&v)),
        M::CtrlPts => g!(o, q.control_points(), v => for p in v { o.p(&p) }),
        M::Split => g!(o, q.split(t), v => { obs_cubic(&v.0, &mut o.w); obs_cubic(&v.1, &mut o.w) }),
        M::SplitEval => g!(o, { let (x, y) = q.split(t); (x.eval(u), y.eval(u)) }, v => { o.p(&v.0); o.p(&v.1) }),
        M::Axis => g!(o, q.axis(t, a.n), v => o.s(f(v))),
        M::Deriv => g!(o, q.derivative(), v => obs_quad(&v, &mut o.w)),
        M::Deriv2 => g!(o, q.derivative().derivative(), v => obs_line(&v, &mut o.w)),
        M::DerivEval => g!(o, q.derivative().eval(t), v => o.p(&v)),
        M::Dd => g!(o, q.dd(t, a.n), v => o.s(f(v))),
        M::Arclen => g!(o, q.arclen(a.n), v => o.s(f(v))),
        M::Dist => { let p = P::mk(&a.p); g!(o, q.distance_to_point(p), v => o.s(f(v))) }
        M::Baseline => g!(o, q.baseline(), v => obs_line(&v, &mut o.w)),
        M::IsLinear => g!(o, q.is_linear(u), v => o.b(v)),
        M::IsPoint => g!(o, q.is_a_point(u), v => o.b(v)),
        M::Eq => equal!(o, q, a, obs_cubic, v => CubicBezier::new(v[0], v[1], v[2], v[3])),
        M::Debug => debug(q, a.n, o),
        M::Clone => g!(o, q.clone(), v => obs_cubic(&v, &mut o.w)),
        _ => o.tag = T_NONE,
    }
}
fn call_seg<P: HPoint>(q: &BezierSegment<P>, m: M, a: &Args, o: &mut Out)
where
    f64: Into<P::Scalar>,
{
    let t = s::<P>(a.t);
    let u = s::<P>(a.u);
    match m {
        M::Eval => g!(o, q.eval::<f64>(t), v => o.p(&v)),
        M::Start => g!(o, q.start(), v => o.p(&v)),
        M::End => g!(o, q.end(), v => o.p(&v)),
        M::Split => g!(o, q.split::<f64>(a.t), v => { obs_seg(&v.0, &mut o.w); obs_seg(&v.1, &mut o.w) }),
        M::SplitEval => g!(o, { let (x, y) = q.split::<f64>(a.t); (x.eval::<f64>(u), y.eval::<f64>(u)) }, v => { o.p(&v.0); o.p(&v.1) }),
        M::Baseline => g!(o, q.baseline(), v => obs_line(&v, &mut o.w)),
        M::IsLinear => g!(o, q.is_linear::<f64>(a.u), v => o.b(v)),
        M::Eq => equal!(o, q, a, obs_seg, v => match v.len() {
            2 => BezierSegment::from(LineSegment::new(v[0], v[1])),
            3 => BezierSegment::from(QuadraticBezier::new(v[0], v[1], v[2])),
            _ => BezierSegment::from(CubicBezier::new(v[0], v[1], v[2], v[3])),
        }),
        M::Debug => debug(q, a.n, o),
        M::Clone => g!(o, q.clone(), v => obs_seg(&v, &mut o.w)),
        _ => o.tag = T_NONE,
    }
}
fn call_bez<P: HPoint, const N: usize>(q: &Bezier<P, N>, m: M, a: &Args, o: &mut Out) {
    let t = s::<P>(a.t);
    let u = s::<P>(a.u);
    match m {
        M::Eval => g!(o, q.eval(t), v => o.p(&v)),
        M::EvalTrait => g!(o, Spline::eval(q, t), v => o.p(&v)),
        M::CtrlPts => g!(o, q.control_points(), v => for p in v { o.p(&p) }),
        M::Split => g!(o, q.split(t), v => { obs_bez(&v.0, &mut o.w); obs_bez(&v.1, &mut o.w) }),
        M::SplitEval => g!(o, { let (x, y) = q.split(t); (x.eval(u), y.eval(u)) }, v => { o.p(&v.0); o.p(&v.1) }),
        M::Arclen => g!(o, q.arclen(a.n), v => o.s(f(v))),
        M::Dist => { let p = P::mk(&a.p); g!(o, q.distance_to_point(p), v => o.s(f(v))) }
        M::IntoIter => {
            let mut acc = [P::default(); N];
            let mut n = 0;
            match guard(|| walk(q.clone().into_iter(), a.n, &mut |p| { acc[n] = p; n += 1; })) {
                Ok(()) => {
                    o.w.push(n as u64);
                    for p in &acc[..n] {
                        o.p(p)
                    }
                }
                Err(e) => o.fail(e),
            }
        }
        M::Clone => g!(o, q.clone(), v => obs_bez(&v, &mut o.w)),
        _ => o.tag = T_NONE,
    }
}

/// In-place edit through a mutable iterator; the caller's loop body is a fault point.
fn do_edit<'a, T: 'a, I>(it: I, n: usize, mode: u8, w: &[Write1], o: &mut Out, set: &mut dyn FnMut(&mut T, &Write1))
where
    I: DoubleEndedIterator<Item = &'a mut T> + ExactSizeIterator,
{
    let last = w.iter().map(|x| x.i).max().unwrap_or(0);
    let mut seen = 0u64;
    let r = guard(|| {
        match mode {
            E_REV => {
                for (k, p) in it.rev().enumerate() {
                    seen += 1;
                    let _ = op(kind::EDIT);
                    for x in w.iter().filter(|x| n - 1 - k == x.i) {
                        set(p, x);
                    }
                }
            }
            E_NTH => {
                let mut it = it;
                let mut at = 0;
                for x in w {
                    let _ = op(kind::EDIT);
                    if x.i < at {
                        continue;
                    }
                    if let Some(p) = it.nth(x.i - at) {
                        seen += 1;
                        set(p, x);
                    }
                    at = x.i + 1;
                }
            }
            E_ALT => {
                let mut it = it;
                let mut k = 0;
                loop {
                    let left = it.len();
                    let p = if k % 2 == 0 { it.next() } else { it.next_back() };
                    let Some(p) = p else { break };
                    assert!(left > 0 && it.len() == left - 1 && k < n, "iterator miscounts");
                    seen += 1;
                    let _ = op(kind::EDIT);
                    for x in w.iter().filter(|x| order(E_ALT, n, k) == x.i) {
                        set(p, x);
                    }
                    k += 1;
                }
            }
            E_EACH => {
                let mut k = 0;
                it.for_each(|p| {
                    seen += 1;
                    let _ = op(kind::EDIT);
                    for x in w.iter().filter(|x| k == x.i) {
                        set(p, x);
                    }
                    k += 1;
                });
            }
            _ => {
                for (k, p) in it.enumerate() {
                    seen += 1;
                    let _ = op(kind::EDIT);
                    for x in w.iter().filter(|x| k == x.i) {
                        set(p, x);
                    }
                    if mode == E_BREAK && k == last {
                        break;
                    }
                }
            }
        }
    });
    match r {
        Ok(()) => {
            o.tag = T_VAL;
            o.w.push(seen);
        }
        Err(e) => o.fail(e),
    }
}
/// iterates over an owned curve or point in one of several ways
fn walk<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(it: I, how: usize, put: &mut dyn FnMut(T)) {
    let mut it = it;
    match how % 5 {
        1 => it.rev().for_each(|x| put(x)),
        2 => {
            let mut k = 0;
            while let Some(x) = if k % 2 == 0 { it.next() } else { it.next_back() } {
                put(x);
                k += 1;
            }
        }
        3 => it.for_each(|x| put(x)),
        4 => {
            // every second one
            while let Some(x) = it.nth(1) {
                put(x);
            }
        }
        _ => {
            for x in it {
                put(x);
            }
        }
    }
}
/// What listing the elements of an object has to yield: element indices (None: not such a call).
pub fn listed(s: &Shape, m: M, a: &Args) -> Option<(bool, Vec<usize>)> {
    let n = s.ncp;
    Some(match m {
        M::IntoIter if a.n % 5 == 4 => (true, (0..n / 2).map(|i| 2 * i + 1).collect()),
        M::IntoIter => (true, (0..n).map(|k| order([E_FWD, E_REV, E_ALT, E_EACH][a.n % 5], n, k)).collect()),
        M::CtrlPts => (s.kind == K::Bsp, (0..n).collect()),
        M::Clone => (false, (0..n).collect()),
        M::Start => (false, vec![0]),
        M::End => (false, vec![n - 1]),
        _ => return None,
    })
}
fn set_point<P: HPoint>(p: &mut P, x: &Write1) {
    if x.axis == 255 {
        *p = P::mk(&x.v);
    } else {
        p.poke(x.axis as usize, x.v[0]);
    }
}
/// What an edit leaves behind (the model): applies the first `limit` loop-body visits to `d`.
pub fn model_edit(d: &mut [f64], dim: usize, n: usize, mode: u8, w: &[Write1], limit: u64) -> u64 {
    let mut put = |x: &Write1| {
        if x.axis == 255 {
            d[x.i * dim..(x.i + 1) * dim].copy_from_slice(&x.v[..dim]);
        } else {
            d[x.i * dim + x.axis as usize % dim] = x.v[0];
        }
    };
    let last = w.iter().map(|x| x.i).max().unwrap_or(0);
    let mut seen = 0;
    if mode == E_NTH {
        let mut at = 0;
        for (k, x) in w.iter().enumerate() {
            if k as u64 >= limit {
                return seen;
            }
            if x.i < at {
                continue;
            }
            if x.i < n {
                seen += 1;
                put(x);
            }
            at = x.i + 1;
        }
        return seen;
    }
    for k in 0..n {
        let i = order(mode, n, k);
        if k as u64 >= limit {
            return seen;
        }
        seen += 1;
        for x in w.iter().filter(|x| x.i == i) {
            put(x);
        }
        if mode == E_BREAK && i == last {
            break;
        }
    }
    seen
}

use M::*;
const MS_LINE: &[M] = &[Eval, Split, SplitEval, Dist, Axis, Deriv, M::Eq, M::Debug, M::Clone, BBox];
const MS_QUAD: &[M] = &[Eval, Casteljau, CtrlPts, Split, SplitEval, Axis, Deriv, DerivEval, Dd, Arclen, Dist, Baseline, IsLinear,
    IsPoint, M::Eq, M::Debug, M::Clone, BBox];
const MS_CUBIC: &[M] = &[Eval, Casteljau, CtrlPts, Split, SplitEval, Axis, Deriv, Deriv2, DerivEval, Dd, Arclen, Dist, Baseline,
    IsLinear, IsPoint, M::Eq, M::Debug, M::Clone, BBox];
const MS_SEG: &[M] = &[Eval, Start, End, Split, SplitEval, Baseline, IsLinear, M::Eq, M::Debug, M::Clone];
/// very many control points: what takes no more than a few evaluations
const MS_BEZ_LONG: &[M] = &[Eval, EvalTrait, CtrlPts, Split, IntoIter, M::Clone, Deriv];
const MS_BEZ: &[M] = &[Eval, EvalTrait, CtrlPts, Split, SplitEval, Arclen, Dist, IntoIter, M::Clone, Deriv, DerivEval];
const MS_BEZ1: &[M] = &[Eval, EvalTrait, CtrlPts, Split, SplitEval, Arclen, Dist, IntoIter, M::Clone];
const MS_BSP: &[M] = &[Eval, Domain, Knots, CtrlPts, Arclen, New, M::Clone, Deriv, DerivEval];
const MS_BSP0: &[M] = &[Eval, Domain, Knots, CtrlPts, Arclen, New, M::Clone];
const MS_PT: &[M] = &[M::Add, M::Sub, MulS, MulF, Axis, SqLen, M::Eq, M::Default, IntoIter, AddT, SubT, M::Debug, M::Clone, M::Display];
const MS_CELL: &[M] = &[M::Add, M::Sub, MulS, M::Eq, M::Default, IntoIter, AddT, SubT, M::Clone];

pub fn display(o: &mut Out, n: usize) {
    let e = [BSplineError::TooFewControlPoints, BSplineError::TooFewKnots, BSplineError::TooManyKnots, BSplineError::DecreasingKnots,
        BSplineError::KnotDomainViolation, BSplineError::EvaluationAlphaIsNaN][n % 6];
    let mut b = Buf { b: [0; 2048], n: 0 };
    match guard(|| match n / 6 % 4 {
        0 => write!(b, "{:>40} {:#?}", e, e),
        1 => write!(b, "{:^50.7} {:30?}", e, e),
        _ => write!(b, "{} {:?}", e, e),
    }
    .is_ok()) {
        Ok(k) => {
            o.b(k);
            o.w.push(b.n as u64);
            o.w.push(simrt::rng::hash_bytes(&b.b));
        }
        Err(e) => o.fail(e),
    }
}

fn bez_edit<P: HPoint, const N: usize>(c: &mut Bezier<P, N>, mode: u8, w: &[Write1], o: &mut Out) {
    do_edit(c.into_iter(), N, mode, w, o, &mut set_point::<P>)
}

fn fin(o: &mut Out) {
    if o.tag == T_NONE && !o.w.is_empty() {
        o.tag = T_VAL
    }
}

macro_rules! simple {
    ($v:ident, $T:ty, $P:ty, $name:expr, $kind:expr, $n:expr, $ms:expr, $call:ident, $obs:ident, $mk:expr, $bbox:tt) => {
        $v.push(Shape {
            name: format!("{}/{}", $name, pname::<$P>()), kind: $kind, fam: <$P as HPoint>::FAM, dim: <$P as HPoint>::D,
            ncp: $n, deg: $n - 1, nk: 0, methods: $ms, editable: false, splittable: true,
            thread_safe: (&Probe::<$T>(PhantomData)).both(),
            build: |d, _k, o| {
                let a: [$P; $n] = pts(d);
                match guard(|| $mk(a)) {
                    Ok(c) => { o.tag = T_VAL; let b: Box<dyn Obj> = Box::new(c); Some(b) }
                    Err(e) => { o.fail(e); None }
                }
            },
        });
    };
}
macro_rules! simple_impl {
    ($T:ty, $P:ty, $call:ident, $obs:ident, yes, $split:expr) => {
        impl Obj for $T {
            fn call(&self, m: M, a: &Args, o: &mut Out) {
                o.clear();
                if m == BBox {
                    match guard(|| self.bounding_box()) {
                        Ok(v) => for (x, y) in v { o.s(f(x)); o.s(f(y)) },
                        Err(e) => o.fail(e),
                    }
                } else {
                    $call(self, m, a, o)
                }
                fin(o)
            }
            simple_impl!(@rest $T, $obs, $split);
        }
    };
    ($T:ty, $P:ty, $call:ident, $obs:ident, no, $split:expr) => {
        impl Obj for $T {
            fn call(&self, m: M, a: &Args, o: &mut Out) {
                o.clear();
                $call(self, m, a, o);
                fin(o)
            }
            simple_impl!(@rest $T, $obs, $split);
        }
    };
    (@rest $T:ty, $obs:ident, $split:expr) => {
        fn observe(&self, w: &mut Vec<u64>) { $obs(self, w) }
        fn any(&self) -> &dyn std::any::Any { self }
        fn assign(&mut self, other: &dyn Obj, o: &mut Out) {
            o.clear();
            if let Some(x) = other.any().downcast_ref::<Self>() {
                g!(o, self.clone_from(x), _v => o.tag = T_VAL);
            }
        }
        fn dup(&self) -> Result<Box<dyn Obj>, (u8, u32)> {
            guard(|| self.clone()).map(|x| { let b: Box<dyn Obj> = Box::new(x); b })
        }
        fn split(&self, t: f64) -> Result<(Box<dyn Obj>, Box<dyn Obj>), (u8, u32)> {
            let g: fn(&$T, f64) -> ($T, $T) = $split;
            guard(|| g(self, t)).map(|x| { let a: Box<dyn Obj> = Box::new(x.0); let b: Box<dyn Obj> = Box::new(x.1); (a, b) })
        }
    };
}
fn pname<P: HPoint>() -> String {
    format!("{}{}", ["f", "ps", "sp"][P::FAM as usize], P::D)
}

macro_rules! point_type {
    ($P:ty, $F:ident) => {
        simple_impl!(LineSegment<$P>, $P, call_line, obs_line, yes, |c, t| c.split(t.into()));
        simple_impl!(QuadraticBezier<$P>, $P, call_quad, obs_quad, yes, |c, t| c.split(t.into()));
        simple_impl!(CubicBezier<$P>, $P, call_cubic, obs_cubic, yes, |c, t| c.split(t.into()));
        simple_impl!(BezierSegment<$P>, $P, call_seg, obs_seg, no, |c, t| c.split::<f64>(t));
        fn $F(v: &mut Vec<Shape>) {
            simple!(v, LineSegment<$P>, $P, "line", K::Line, 2, MS_LINE, call_line, obs_line, |a: [$P; 2]| LineSegment::new(a[0], a[1]), yes);
            simple!(v, QuadraticBezier<$P>, $P, "quad", K::Quad, 3, MS_QUAD, call_quad, obs_quad, |a: [$P; 3]| QuadraticBezier::new(a[0], a[1], a[2]), yes);
            simple!(v, CubicBezier<$P>, $P, "cubic", K::Cubic, 4, MS_CUBIC, call_cubic, obs_cubic, |a: [$P; 4]| CubicBezier::new(a[0], a[1], a[2], a[3]), yes);
            simple!(v, BezierSegment<$P>, $P, "seg1", K::Seg, 2, MS_SEG, call_seg, obs_seg, |a: [$P; 2]| BezierSegment::from(LineSegment::new(a[0], a[1])), no);
            simple!(v, BezierSegment<$P>, $P, "seg2", K::Seg, 3, MS_SEG, call_seg, obs_seg, |a: [$P; 3]| BezierSegment::from(QuadraticBezier::new(a[0], a[1], a[2])), no);
            simple!(v, BezierSegment<$P>, $P, "seg3", K::Seg, 4, MS_SEG, call_seg, obs_seg, |a: [$P; 4]| BezierSegment::from(CubicBezier::new(a[0], a[1], a[2], a[3])), no);
        }
    };
}

macro_rules! bez {
    ($F:ident, $P:ty, [$($N:literal $D:tt),*]) => {
        $( bez!(@one $P, $N, $D); )*
        fn $F(v: &mut Vec<Shape>) { $(
            v.push(Shape {
                name: format!("bez{}/{}", $N, pname::<$P>()), kind: K::Bez, fam: <$P as HPoint>::FAM, dim: <$P as HPoint>::D,
                ncp: $N, deg: $N - 1, nk: 0, methods: if $N > 100 { MS_BEZ_LONG } else if $N > 1 { MS_BEZ } else { MS_BEZ1 }, editable: true, splittable: $N < 100,
                thread_safe: (&Probe::<Bezier<$P, $N>>(PhantomData)).both(),
                build: |d, _k, o| {
                    let a: [$P; $N] = pts(d);
                    match guard(|| Bezier::<$P, $N>::new(a)) {
                        Ok(c) => { o.tag = T_VAL; let b: Box<dyn Obj> = Box::new(c); Some(b) }
                        Err(e) => { o.fail(e); None }
                    }
                },
            });
        )* }
    };
    (@one $P:ty, $N:literal, $D:tt) => {
        impl Obj for Bezier<$P, $N> {
            fn call(&self, m: M, a: &Args, o: &mut Out) {
                o.clear();
                bez!(@der self, m, a, o, $P, $N, $D);
                fin(o)
            }
            fn observe(&self, w: &mut Vec<u64>) { obs_bez(self, w) }
            fn any(&self) -> &dyn std::any::Any { self }
            fn assign(&mut self, other: &dyn Obj, o: &mut Out) {
                o.clear();
                if let Some(x) = other.any().downcast_ref::<Self>() {
                    g!(o, self.clone_from(x), _v => o.tag = T_VAL);
                }
            }
            fn dup(&self) -> Result<Box<dyn Obj>, (u8, u32)> {
                guard(|| self.clone()).map(|x| { let b: Box<dyn Obj> = Box::new(x); b })
            }
            fn edit(&mut self, mode: u8, w: &[Write1], o: &mut Out) {
                o.clear();
                bez_edit(self, mode, w, o)
            }
            fn split(&self, t: f64) -> Result<(Box<dyn Obj>, Box<dyn Obj>), (u8, u32)> {
                let t = s::<$P>(t);
                guard(|| Bezier::split(self, t)).map(|x| { let a: Box<dyn Obj> = Box::new(x.0); let b: Box<dyn Obj> = Box::new(x.1); (a, b) })
            }
        }
    };
    (@der $q:ident, $m:ident, $a:ident, $o:ident, $P:ty, $N:literal, n) => { call_bez($q, $m, $a, $o) };
    (@der $q:ident, $m:ident, $a:ident, $o:ident, $P:ty, $N:literal, d) => {
        match $m {
            Deriv => g!($o, $q.derivative(), v => obs_bez(&v, &mut $o.w)),
            DerivEval => { let t = s::<$P>($a.t); g!($o, $q.derivative().eval(t), v => $o.p(&v)) }
            _ => call_bez($q, $m, $a, $o),
        }
    };
}

macro_rules! bsp {
    ($F:ident, $P:ty, [$($D:literal $C:literal $X:tt),*]) => {
        $( bsp!(@one $P, $D, $C, $X); )*
        fn $F(v: &mut Vec<Shape>) { $(
            v.push(Shape {
                name: format!("bsp{}c{}/{}", $D, $C, pname::<$P>()), kind: K::Bsp, fam: <$P as HPoint>::FAM, dim: <$P as HPoint>::D,
                ncp: $C, deg: $D, nk: $C + $D + 1, methods: if $D > 0 { MS_BSP } else { MS_BSP0 }, editable: false, splittable: false,
                thread_safe: (&Probe::<BSpline<$P, { $C + $D + 1 }, $C, $D>>(PhantomData)).both(),
                build: |d, k, o| {
                    let a: [$P; $C] = pts(d);
                    let kn: [<$P as Point>::Scalar; $C + $D + 1] = std::array::from_fn(|i| s::<$P>(k[i]));
                    match guard(|| BSpline::<$P, { $C + $D + 1 }, $C, $D>::new(kn, a)) {
                        Ok(Ok(c)) => { o.tag = T_VAL; let b: Box<dyn Obj> = Box::new(c); Some(b) }
                        Ok(Err(e)) => { o.err(e); None }
                        Err(e) => { o.fail(e); None }
                    }
                },
            });
        )* }
    };
    (@one $P:ty, $D:literal, $C:literal, $X:tt) => {
        impl Obj for BSpline<$P, { $C + $D + 1 }, $C, $D> {
            fn call(&self, m: M, a: &Args, o: &mut Out) {
                o.clear();
                let t = s::<$P>(a.t);
                match m {
                    Eval => match guard(|| self.eval(t)) {
                        Ok(Ok(p)) => o.p(&p),
                        Ok(Err(e)) => o.err(e),
                        Err(e) => o.fail(e),
                    },
                    Domain => g!(o, self.knot_domain(), v => { o.s(f(v.0)); o.s(f(v.1)) }),
                    Knots => {
                        let mut acc = [s::<$P>(0.0); $C + $D + 1];
                        let mut n = 0;
                        match guard(|| for x in self.knots() { acc[n] = *x; n += 1; }) {
                            Ok(()) => { o.w.push(n as u64); for x in &acc[..n] { o.s(f(*x)) } }
                            Err(e) => o.fail(e),
                        }
                    }
                    CtrlPts => {
                        let mut acc = [<$P>::default(); $C];
                        let mut n = 0;
                        match guard(|| for x in self.control_points() { acc[n] = *x; n += 1; }) {
                            Ok(()) => { o.w.push(n as u64); for x in &acc[..n] { o.p(x) } }
                            Err(e) => o.fail(e),
                        }
                    }
                    Arclen => g!(o, self.arclen(a.n), v => o.s(f(v))),
                    New => {
                        let mut kn: [<$P as Point>::Scalar; $C + $D + 1] = std::array::from_fn(|i| *self.knots().nth(i).unwrap());
                        let cp: [$P; $C] = std::array::from_fn(|i| *self.control_points().nth(i).unwrap());
                        if a.n % 3 == 1 { kn.reverse() }
                        if a.n % 3 == 2 { kn[$C] = t }
                        match guard(|| BSpline::<$P, { $C + $D + 1 }, $C, $D>::new(kn, cp)) {
                            Ok(Ok(c)) => c.observe(&mut o.w),
                            Ok(Err(e)) => o.err(e),
                            Err(e) => o.fail(e),
                        }
                    }
                    M::Clone => g!(o, self.clone(), v => v.observe(&mut o.w)),
                    _ => bsp!(@der self, m, a, o, $P, $X),
                }
                fin(o)
            }
            fn observe(&self, w: &mut Vec<u64>) {
                for p in self.control_points() { p.get(w) }
                for k in self.knots() { w.push(canon(f(*k))) }
            }
            fn any(&self) -> &dyn std::any::Any { self }
            fn assign(&mut self, other: &dyn Obj, o: &mut Out) {
                o.clear();
                if let Some(x) = other.any().downcast_ref::<Self>() {
                    g!(o, self.clone_from(x), _v => o.tag = T_VAL);
                }
            }
            fn dup(&self) -> Result<Box<dyn Obj>, (u8, u32)> {
                guard(|| self.clone()).map(|x| { let b: Box<dyn Obj> = Box::new(x); b })
            }
        }
    };
    (@der $q:ident, $m:ident, $a:ident, $o:ident, $P:ty, n) => { $o.tag = T_NONE };
    (@der $q:ident, $m:ident, $a:ident, $o:ident, $P:ty, d) => {
        match $m {
            Deriv => g!($o, $q.derivative(), v => {
                for p in v.control_points() { $o.p(p) }
                for k in v.knots() { $o.s(f(*k)) }
            }),
            DerivEval => {
                let t = s::<$P>($a.t);
                match guard(|| $q.derivative().eval(t)) {
                    Ok(Ok(p)) => $o.p(&p),
                    Ok(Err(e)) => $o.err(e),
                    Err(e) => $o.fail(e),
                }
            }
            _ => $o.tag = T_NONE,
        }
    };
}

macro_rules! pt {
    ($P:ty, $n:ident, $E:ty, $mkE:expr, $rdE:expr, $v:ident) => {
        impl Obj for $P {
            fn call(&self, m: M, a: &Args, o: &mut Out) {
                o.clear();
                let q = <$P as HPoint>::mk(&a.p);
                let e: $E = $mkE(a.u);
                match m {
                    M::Add => g!(o, *self + q, v => o.p(&v)),
                    M::Sub => g!(o, *self - q, v => o.p(&v)),
                    MulS => g!(o, *self * e, v => o.p(&v)),
                    MulF => g!(o, *self * a.u, v => o.p(&v)),
                    M::Eq => g!(o, (*self == q, *self == *self, *self != q), v => { o.b(v.0); o.b(v.1); o.b(v.2) }),
                    M::Default => g!(o, <$P>::default(), v => o.p(&v)),
                    M::Dim => g!(o, <$P as Point>::DIM, v => o.w.push(v as u64)),
                    AddT => g!(o, *self + e, v => o.p(&v)),
                    SubT => g!(o, *self - e, v => o.p(&v)),
                    M::Debug => debug(self, a.n, o),
                    M::Display => display(o, a.n),
                    M::Clone => g!(o, self.clone(), v => o.p(&v)),
                    IntoIter => {
                        let mut acc = [$mkE(0.0); <$P as HPoint>::D];
                        let mut n = 0;
                        match guard(|| walk(self.clone().into_iter(), a.n, &mut |x| { acc[n] = x; n += 1; })) {
                            Ok(()) => { o.w.push(n as u64); for x in &acc[..n] { o.s($rdE(*x)) } }
                            Err(e) => o.fail(e),
                        }
                    }
                    Axis => g!(o, Point::axis(self, a.n), v => o.s(f(v))),
                    SqLen => g!(o, self.squared_length(), v => o.s(f(v))),
                    _ => o.tag = T_NONE,
                }
                fin(o)
            }
            fn observe(&self, w: &mut Vec<u64>) { self.get(w) }
            fn any(&self) -> &dyn std::any::Any { self }
            fn assign(&mut self, other: &dyn Obj, o: &mut Out) {
                o.clear();
                if let Some(x) = other.any().downcast_ref::<Self>() {
                    g!(o, self.clone_from(x), _v => o.tag = T_VAL);
                }
            }
            fn dup(&self) -> Result<Box<dyn Obj>, (u8, u32)> {
                guard(|| self.clone()).map(|x| { let b: Box<dyn Obj> = Box::new(x); b })
            }
            fn edit(&mut self, mode: u8, w: &[Write1], o: &mut Out) {
                o.clear();
                let d = <$P as HPoint>::D;
                do_edit(self.into_iter(), d, mode, w, o, &mut |x: &mut $E, y: &Write1| *x = $mkE(y.v[0]))
            }
        }
        fn $n(v: &mut Vec<Shape>) {
            v.push(Shape {
                name: format!("pt/{}", pname::<$P>()), kind: K::Point, fam: <$P as HPoint>::FAM, dim: 1,
                ncp: <$P as HPoint>::D, deg: 0, nk: 0, methods: $v, editable: true, splittable: false,
                thread_safe: (&Probe::<$P>(PhantomData)).both(),
                build: |d, _k, o| {
                    o.tag = T_VAL;
                    let b: Box<dyn Obj> = Box::new(<$P as HPoint>::mk(d));
                    Some(b)
                },
            });
        }
    };
}

// points of numbers that are no `Float` the library could interpolate: arithmetic only
macro_rules! cell {
    ($E:ty, $N:literal, $name:literal, $F:ident) => {
        impl Obj for PointN<$E, $N> {
            fn call(&self, m: M, a: &Args, o: &mut Out) {
                o.clear();
                let q = PointN::<$E, $N>::new(std::array::from_fn(|i| a.p.get(i).copied().unwrap_or(0.0) as $E));
                let e = a.u as $E;
                let put = |v: PointN<$E, $N>, o: &mut Out| for x in v { o.s(x as f64) };
                match m {
                    M::Add => g!(o, *self + q, v => put(v, o)),
                    M::Sub => g!(o, *self - q, v => put(v, o)),
                    MulS => g!(o, *self * e, v => put(v, o)),
                    AddT => g!(o, *self + e, v => put(v, o)),
                    SubT => g!(o, *self - e, v => put(v, o)),
                    M::Eq => g!(o, (*self == q, *self == *self, *self != q), v => { o.b(v.0); o.b(v.1); o.b(v.2) }),
                    M::Default => g!(o, PointN::<$E, $N>::default(), v => put(v, o)),
                    M::Clone => g!(o, self.clone(), v => put(v, o)),
                    IntoIter => {
                        let mut acc = [0.0; $N];
                        let mut n = 0;
                        match guard(|| walk(self.clone().into_iter(), a.n, &mut |x| { acc[n] = x as f64; n += 1; })) {
                            Ok(()) => { o.w.push(n as u64); for x in &acc[..n] { o.s(*x) } }
                            Err(e) => o.fail(e),
                        }
                    }
                    _ => o.tag = T_NONE,
                }
                fin(o)
            }
            fn observe(&self, w: &mut Vec<u64>) { for x in self.clone() { w.push(canon(x as f64)) } }
            fn any(&self) -> &dyn std::any::Any { self }
            fn assign(&mut self, other: &dyn Obj, o: &mut Out) {
                o.clear();
                if let Some(x) = other.any().downcast_ref::<Self>() {
                    g!(o, self.clone_from(x), _v => o.tag = T_VAL);
                }
            }
            fn dup(&self) -> Result<Box<dyn Obj>, (u8, u32)> {
                guard(|| self.clone()).map(|x| { let b: Box<dyn Obj> = Box::new(x); b })
            }
            fn edit(&mut self, mode: u8, w: &[Write1], o: &mut Out) {
                o.clear();
                do_edit(self.into_iter(), $N, mode, w, o, &mut |x: &mut $E, y: &Write1| *x = y.v[0] as $E)
            }
        }
        fn $F(v: &mut Vec<Shape>) {
            v.push(Shape {
                name: $name.into(), kind: K::Cell, fam: FAM_CELL, dim: 1, ncp: $N, deg: 0, nk: 0, methods: MS_CELL, editable: true, splittable: false,
                thread_safe: (&Probe::<PointN<$E, $N>>(PhantomData)).both(),
                build: |d, _k, o| {
                    o.tag = T_VAL;
                    let b: Box<dyn Obj> = Box::new(PointN::<$E, $N>::new(std::array::from_fn(|i| d[i] as $E)));
                    Some(b)
                },
            });
        }
    };
}
cell!(i32, 2, "cell/i32x2", cell_i2);
cell!(i32, 5, "cell/i32x5", cell_i5);
cell!(f32, 3, "cell/f32x3", cell_f3);
cell!(f32, 9, "cell/f32x9", cell_f9);

type F1 = PointN<f64, 1>;
type F2 = PointN<f64, 2>;
type F3 = PointN<f64, 3>;
type F4 = PointN<f64, 4>;
type F5 = PointN<f64, 5>;
type F8 = PointN<f64, 8>;
type F16 = PointN<f64, 16>;
type Q2 = PointN<SimScalar, 2>;
type Q3 = PointN<SimScalar, 3>;
type S1 = SimPoint<1>;
type S2 = SimPoint<2>;
type S3 = SimPoint<3>;
type S6 = SimPoint<6>;

point_type!(F1, base_f1);
point_type!(F2, base_f2);
point_type!(F3, base_f3);
point_type!(F4, base_f4);
point_type!(F5, base_f5);
point_type!(F8, base_f8);
point_type!(F16, base_f16);
point_type!(Q2, base_q2);
point_type!(Q3, base_q3);
point_type!(S1, base_s1);
point_type!(S2, base_s2);
point_type!(S3, base_s3);
point_type!(S6, base_s6);
bez!(bez_f1, F1, [4 d]);
bez!(bez_f2, F2, [1 n, 2 d, 3 d, 4 d, 5 d, 6 d, 7 d, 8 d, 9 d, 10 d, 11 d, 12 d, 13 d, 16 d, 20 d, 33 d, 68 d, 260 d]);
bez!(bez_f3, F3, [2 d, 3 d, 4 d, 6 d, 9 d]);
bez!(bez_f4, F4, [3 d, 5 d]);
bez!(bez_f5, F5, [4 d]);
bez!(bez_f8, F8, [3 d, 4 d]);
bez!(bez_f16, F16, [3 d, 6 d]);
bez!(bez_q2, Q2, [3 d, 4 d, 5 d]);
bez!(bez_q3, Q3, [4 d]);
bez!(bez_s1, S1, [3 d]);
bez!(bez_s2, S2, [1 n, 2 d, 3 d, 4 d, 5 d, 7 d, 9 d, 12 d, 18 d]);
bez!(bez_s3, S3, [4 d, 6 d]);
bez!(bez_s6, S6, [4 d]);
bsp!(bsp_f1, F1, [2 5 d, 3 6 d]);
bsp!(bsp_f2, F2, [0 1 n, 0 3 n, 1 2 d, 1 3 d, 1 5 d, 2 3 d, 2 4 d, 2 6 d, 3 4 d, 3 5 d, 3 6 d, 3 7 d, 3 10 d, 4 5 d, 4 6 d, 4 9 d, 5 6 d, 5 7 d, 5 8 d, 6 7 d, 6 10 d, 7 8 d, 2 20 d, 3 34 d, 3 70 d, 2 261 d, 9 12 d, 12 14 d]);
bsp!(bsp_f3, F3, [1 4 d, 2 5 d, 3 4 d, 3 7 d, 4 7 d]);
bsp!(bsp_f8, F8, [2 4 d]);
bsp!(bsp_q2, Q2, [2 4 d, 3 6 d]);
bsp!(bsp_s1, S1, [2 5 d, 3 7 d]);
bsp!(bsp_s2, S2, [0 3 n, 1 2 d, 1 4 d, 2 3 d, 2 6 d, 3 4 d, 3 5 d, 3 7 d, 4 5 d, 4 8 d, 5 7 d, 2 17 d, 8 10 d]);
bsp!(bsp_s3, S3, [2 4 d, 3 6 d]);
pt!(F1, pt_f1, f64, |x| x, |x| x, MS_PT);
pt!(F2, pt_f2, f64, |x| x, |x| x, MS_PT);
pt!(F3, pt_f3, f64, |x| x, |x| x, MS_PT);
pt!(F4, pt_f4, f64, |x| x, |x| x, MS_PT);
pt!(F16, pt_f16, f64, |x| x, |x| x, MS_PT);
pt!(F8, pt_f8, f64, |x| x, |x| x, MS_PT);
pt!(PointN<f64, 7>, pt_f7, f64, |x| x, |x| x, MS_PT);
pt!(F5, pt_f5, f64, |x| x, |x| x, MS_PT);
pt!(PointN<f64, 6>, pt_f6, f64, |x| x, |x| x, MS_PT);
pt!(PointN<f64, 10>, pt_f10, f64, |x| x, |x| x, MS_PT);
pt!(PointN<f64, 13>, pt_f13, f64, |x| x, |x| x, MS_PT);
pt!(PointN<f64, 19>, pt_f19, f64, |x| x, |x| x, MS_PT);
pt!(PointN<f64, 35>, pt_f35, f64, |x| x, |x| x, MS_PT);
pt!(PointN<f64, 67>, pt_f67, f64, |x| x, |x| x, MS_PT);
pt!(PointN<f64, 259>, pt_f259, f64, |x| x, |x| x, MS_PT);
pt!(PointN<SimScalar, 1>, pt_q1, SimScalar, SimScalar, |x: SimScalar| x.0, MS_PT);
pt!(PointN<SimScalar, 5>, pt_q5, SimScalar, SimScalar, |x: SimScalar| x.0, MS_PT);
pt!(PointN<SimScalar, 11>, pt_q11, SimScalar, SimScalar, |x: SimScalar| x.0, MS_PT);
pt!(Q2, pt_q2, SimScalar, SimScalar, |x: SimScalar| x.0, MS_PT);
pt!(Q3, pt_q3, SimScalar, SimScalar, |x: SimScalar| x.0, MS_PT);

pub fn registry() -> Vec<Shape> {
    let mut v = vec![];
    for f in [base_f1, base_f2, base_f3, base_f4, base_f5, base_f8, base_f16, base_q2, base_q3, base_s1, base_s2, base_s3, base_s6, bez_f1, bez_f2, bez_f3, bez_f4, bez_f5, bez_f8, bez_f16, bez_q2,
        bez_q3, bez_s1, bez_s2, bez_s3, bez_s6, bsp_f1, bsp_f2, bsp_f3, bsp_f8, bsp_q2, bsp_s1, bsp_s2, bsp_s3, pt_f1, pt_f2, pt_f3, pt_f4, pt_f7, pt_f8, pt_f16, pt_q2, pt_q3, pt_f5, pt_f6, pt_f10, pt_f13, pt_f19, pt_f35, pt_f67, pt_f259, pt_q1, pt_q5, pt_q11, cell_i2, cell_i5, cell_f3, cell_f9] {
        f(&mut v);
    }
    v
}
