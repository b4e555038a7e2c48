//! C17: B-splines sent over a channel that loses, repeats, swaps and damages what they consist of: the constructor at the
//! other end takes exactly the valid ones, unharmed, and names a rule that the others violate. Rows of `plan.extra`:
//!   [0, id, k | c << 12 | d << 24 | type << 32, 0]   a message as it arrives: numbers of knots and points, degree, point type
//!   [1, id, i, bits]  its i-th knot          [2, id, i, bits]  its i-th coordinate
//!   [3, id, op, how]  the receiver's operator call `op` panics (how 0) or returns not-a-number (1); it tries again
use crate::exec::*;
use crate::gen::*;
use crate::plan::*;
use crate::props::*;
use crate::scalar::*;
use crate::shapes::*;
use simrt::rng::Rng;
use simrt::{Act, At, Ev};
use stroke::{BSpline, Point, PointN};

type F2 = PointN<f64, 2>;
type S2 = SimPoint<2>;
type New = fn(&[f64], &[f64], &mut Out);
const KMAX: usize = 10;
const CMAX: usize = 6;
const DMAX: usize = 4;

macro_rules! one {
    ($P:ty, $K:literal, $C:literal, $D:literal) => {
        |k: &[f64], d: &[f64], o: &mut Out| {
            let kn: [<$P as Point>::Scalar; $K] = std::array::from_fn(|i| <$P as Point>::Scalar::from(k[i]));
            let cp: [$P; $C] = std::array::from_fn(|i| <$P as HPoint>::mk(&d[2 * i..2 * i + 2]));
            match guard(|| BSpline::<$P, $K, $C, $D>::new(kn, cp)) {
                Ok(Ok(c)) => {
                    o.tag = T_VAL;
                    match guard(|| c.knot_domain()) {
                        Ok(v) => {
                            let (a, b): (f64, f64) = (v.0.into(), v.1.into());
                            o.w.push(canon(a));
                            o.w.push(canon(b));
                        }
                        Err(e) => {
                            o.tag = e.0;
                            o.code = e.1;
                            return;
                        }
                    }
                    for x in c.knots() {
                        let x: f64 = (*x).into();
                        o.w.push(canon(x));
                    }
                    for p in c.control_points() {
                        p.get(&mut o.w)
                    }
                }
                Ok(Err(e)) => {
                    o.tag = T_ERR;
                    o.code = 1 + e as u32;
                }
                Err(e) => {
                    o.tag = e.0;
                    o.code = e.1;
                }
            }
        }
    };
}
macro_rules! ds {
    ($P:ty, $K:literal, $C:literal) => { [one!($P, $K, $C, 0) as New, one!($P, $K, $C, 1), one!($P, $K, $C, 2), one!($P, $K, $C, 3), one!($P, $K, $C, 4)] };
}
macro_rules! cs {
    ($P:ty, $K:literal) => { [ds!($P, $K, 0), ds!($P, $K, 1), ds!($P, $K, 2), ds!($P, $K, 3), ds!($P, $K, 4), ds!($P, $K, 5), ds!($P, $K, 6)] };
}
macro_rules! ks {
    ($P:ty) => { [cs!($P, 0), cs!($P, 1), cs!($P, 2), cs!($P, 3), cs!($P, 4), cs!($P, 5), cs!($P, 6), cs!($P, 7), cs!($P, 8), cs!($P, 9), cs!($P, 10)] };
}
static F: [[[New; DMAX + 1]; CMAX + 1]; KMAX + 1] = ks!(F2);
static S: [[[New; DMAX + 1]; CMAX + 1]; KMAX + 1] = ks!(S2);

/// large ones, among them wrong numbers of knots that are right modulo 256, 65 536 being out of reach
static BIG: [(usize, usize, usize, New); 12] = [
    (70, 66, 3, one!(F2, 70, 66, 3)),
    (69, 66, 3, one!(F2, 69, 66, 3)),
    (71, 66, 3, one!(F2, 71, 66, 3)),
    (131, 128, 2, one!(F2, 131, 128, 2)),
    (262, 259, 2, one!(F2, 262, 259, 2)),
    (262, 3, 2, one!(F2, 262, 3, 2)),
    (6, 259, 2, one!(F2, 6, 259, 2)),
    (263, 260, 2, one!(F2, 263, 260, 2)),
    (261, 260, 2, one!(F2, 261, 260, 2)),
    (40, 20, 19, one!(F2, 40, 20, 19)),
    (40, 20, 20, one!(F2, 40, 20, 20)),
    (39, 20, 19, one!(F2, 39, 20, 19)),
];
#[derive(Clone, Debug, Default)]
struct Msg {
    id: u64,
    d: usize,
    sim: bool,
    knots: Vec<f64>,
    pts: Vec<f64>,
    faults: Vec<(u64, u64)>,
}
impl Msg {
    /// the rules it violates, as error numbers
    fn violated(&self) -> Vec<u32> {
        let (k, c, d) = (self.knots.len(), self.pts.len() / 2, self.d);
        let mut v = vec![];
        if c <= d {
            v.push(1); // too few control points
        }
        if k < c + d + 1 {
            v.push(2);
        }
        if k > c + d + 1 {
            v.push(3);
        }
        if self.knots.windows(2).any(|w| !(w[0] <= w[1])) || (k == 1 && self.knots[0].is_nan()) {
            v.push(4);
        }
        v
    }
    fn new_fn(&self) -> New {
        let (k, c) = (self.knots.len(), self.pts.len() / 2);
        match BIG.iter().find(|b| (b.0, b.1, b.2) == (k, c, self.d)) {
            Some(b) => b.3,
            None => (if self.sim { &S } else { &F })[k.min(KMAX)][c.min(CMAX)][self.d.min(DMAX)],
        }
    }
    fn show(&self) -> String {
        format!("message {}: degree {}, {} points, knots {:?}", self.id, self.d, self.pts.len() / 2, self.knots)
    }
}
fn knots(r: &mut Rng, n: usize, d: usize) -> Vec<f64> {
    let start = match r.us(4) {
        0 => 0.0,
        1 => -3.5,
        2 => r.unit() * 100.0 - 50.0,
        _ => 1e6,
    };
    let step = *r.pick(&[1.0, 0.25, 0.1, 1e-3, 1e-17, 37.0]);
    let mut v = vec![start];
    let many = r.p(0.3);
    while v.len() < n {
        let x = v[v.len() - 1] + if r.p(if many { 0.6 } else { 0.15 }) { 0.0 } else { step * r.range(1, 3) as f64 };
        v.push(x);
    }
    if r.p(0.5) {
        for i in 0..d.min(n - 1) {
            v[i] = v[d.min(n - 1)];
        }
    }
    if r.p(0.5) {
        for i in 0..d.min(n - 1) {
            v[n - 1 - i] = v[n - 1 - d.min(n - 1)];
        }
    }
    v
}
pub fn gen(r: &mut Rng, p: &mut Plan) {
    for id in 0..r.range(1, 6) as u64 {
        let big = r.p(0.02);
        let b = r.pick(&BIG);
        let d = if big { b.2 } else { r.us(DMAX + 1) };
        let c = if big { b.1 } else { (d + r.range(1, 3)).min(CMAX) };
        let mut m = Msg { id, d, sim: !big && r.p(0.6), ..Msg::default() };
        m.knots = knots(r, if big { b.0 } else { (c + d + 1).min(KMAX) }, d);
        m.pts = (0..2 * c).map(|_| coord(r, Style::Uniform)).collect();
        let n = if r.p(0.25) { 0 } else if r.p(0.75) { 1 } else { r.range(2, 4) };
        for _ in 0..n {
            let k = m.knots.len();
            if k == 0 {
                break;
            }
            let i = r.us(k);
            match if big { r.range(6, 12) } else { r.us(13) } {
                0 => {
                    m.knots.remove(i);
                }
                1 if k < KMAX => {
                    let x = m.knots[i];
                    m.knots.insert(i, x);
                }
                2 if m.pts.len() > 1 => {
                    m.pts.truncate(m.pts.len() - 2);
                }
                3 if m.pts.len() < 2 * CMAX => {
                    m.pts.extend([0.5, -0.25]);
                }
                4 if m.d < DMAX => m.d += 1,
                5 if m.d > 0 => m.d -= 1,
                6 => {
                    let j = r.us(k);
                    m.knots.swap(i, j);
                }
                7 => m.knots[i] = *r.pick(&HOSTILE),
                8 => m.knots[i] = f64::from_bits(m.knots[i].to_bits() ^ 1 << r.us(64)),
                9 if i > 0 => {
                    // smaller by the least possible amount
                    let x = m.knots[i - 1];
                    m.knots[i] = if x > 0.0 { f64::from_bits(x.to_bits() - 1) } else { x - x.abs() * 1e-15 - 1e-300 };
                }
                10 => m.knots[i] = f64::NAN,
                11 => m.knots[*r.pick(&[0, k - 1])] = f64::NAN,
                _ if i + 1 < k => m.knots.swap(i, i + 1),
                _ => {}
            }
            simrt::stat(U_CORRUPT, 1);
        }
        if r.p(0.1) && !m.pts.is_empty() {
            let i = r.us(m.pts.len());
            m.pts[i] = *r.pick(&HOSTILE);
        }
        p.extra.push([0, id, m.knots.len() as u64 | (m.pts.len() as u64 / 2) << 12 | (m.d as u64) << 24 | (m.sim as u64) << 32, 0]);
        for (i, x) in m.knots.iter().enumerate() {
            p.extra.push([1, id, i as u64, x.to_bits()]);
        }
        for (i, x) in m.pts.iter().enumerate() {
            p.extra.push([2, id, i as u64, x.to_bits()]);
        }
        if m.sim {
            for _ in 0..r.us(3) {
                p.extra.push([3, id, r.below(40), r.below(2)]);
            }
        }
    }
}
fn messages(p: &Plan) -> Vec<Msg> {
    let mut v: Vec<Msg> = vec![];
    for x in &p.extra {
        if x[0] == 0 {
            let (mut k, mut c, mut d) = ((x[2] & 4095) as usize, (x[2] >> 12 & 4095) as usize, (x[2] >> 24 & 255) as usize);
            if !BIG.iter().any(|b| (b.0, b.1, b.2) == (k, c, d)) {
                (k, c, d) = (k.min(KMAX), c.min(CMAX), d.min(DMAX));
            }
            v.push(Msg { id: x[1], d, sim: x[2] >> 32 & 1 == 1, knots: vec![0.0; k], pts: vec![0.0; 2 * c], faults: vec![] });
        }
    }
    for x in &p.extra {
        for m in v.iter_mut().filter(|m| m.id == x[1]) {
            let i = x[2] as usize;
            match x[0] {
                1 if i < m.knots.len() => m.knots[i] = f64::from_bits(x[3]),
                2 if i < m.pts.len() => m.pts[i] = f64::from_bits(x[3]),
                3 => m.faults.push((x[2], x[3])),
                _ => {}
            }
        }
    }
    v
}
pub fn judge(p: &Plan) -> Verdict {
    let ms = messages(p);
    let end = in_fresh(20, &mut || unsafe {
        simrt::ENV_SEED = p.env;
        let mut c = simrt::Ctl::new(0);
        c.fair = false;
        c.budget = u64::MAX;
        simrt::set_ctl(Box::into_raw(c));
        simrt::single();
        for (n, m) in ms.iter().enumerate() {
            // once per fault, and once more without any
            for t in 0..=m.faults.len() {
                let ev: Vec<Ev> = m.faults.get(t).map(|f| Ev { task: 0, step: n as u32, at: At::Op(f.0), act: if f.1 == 0 { Act::Crash(500 + t as u32) } else { Act::Nan } }).into_iter().collect();
                let mut o = Out::new();
                simrt::begin_step(n as u32, &ev, Lim::FREE.budget, u64::MAX);
                m.new_fn()(&m.knots, &m.pts, &mut o);
                simrt::end_step();
                if o.tag == T_CRASH && o.code == 500 + t as u32 {
                    simrt::stat(U_OPCRASH, 1);
                }
                simrt::trace_note(o.tag as u64 | (o.code as u64) << 8);
                for x in &o.w {
                    simrt::trace_note(*x);
                }
                put_record((n * 16 + t) as u64, &o);
            }
        }
    });
    note_hashes();
    match end {
        End::Ok => {}
        End::Viol(_, m) => return viol("budget", m),
        End::Abort(s) => return viol("abort", format!("the process died of signal {}", s)),
        End::Hang => return viol("hang", "the run never ended".into()),
        End::Harness(m) => return Err(m),
    }
    let recs = take_records().map_err(|_| "outcome buffer full".to_string())?;
    let mut it = recs.iter();
    for m in &ms {
        let bad = m.violated();
        for t in 0..=m.faults.len() {
            let Some((_, o)) = it.next() else { return viol("lost", "no answer".into()) };
            simrt::stat(U_CALLS, 1);
            let fault = m.faults.get(t);
            let what = || match fault {
                Some(f) => format!("{}, operator call {} {}", m.show(), f.0, if f.1 == 0 { "panicking" } else { "giving not-a-number" }),
                None => m.show(),
            };
            match o.tag {
                T_CRASH if fault.is_some_and(|f| f.1 == 0) && o.code == 500 + t as u32 => {}
                T_VAL => {
                    if !bad.is_empty() {
                        return viol("accepted", format!("{}: accepted although it violates rules {:?}", what(), bad));
                    }
                    let (k, c) = (m.knots.len(), m.pts.len() / 2);
                    let mut w = vec![canon(m.knots[m.d]), canon(m.knots[c])];
                    w.extend(m.knots.iter().map(|x| canon(*x)));
                    w.extend(m.pts.iter().map(|x| canon(*x)));
                    if o.w != w {
                        return viol("harmed", format!("{}: became domain, {} knots and {} points {}", what(), k, c, o.show()));
                    }
                }
                T_ERR => {
                    simrt::stat(U_REJECTED, 1);
                    if !bad.contains(&o.code) && fault.is_none() {
                        return viol(if bad.is_empty() { "refused" } else { "wrong-rule" }, format!("{}: refused for rule {} but violates {:?}", what(), o.code, bad));
                    }
                }
                _ => return viol("panic", format!("{}: {}", what(), o.show())),
            }
        }
    }
    Ok(None)
}
