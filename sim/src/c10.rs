//! C10: one corrupted coordinate reaches no other axis, and on a B-spline nothing outside its control point's support.
//! Curves come in pairs (clean, corrupted) and so do steps.
use crate::exec::*;
use crate::gen::*;
use crate::plan::*;
use crate::props::*;
use crate::scalar::*;
use crate::shapes::*;
use simrt::rng::Rng;
use simrt::{kind, Act, At, Ev};

const OKM: &[M] = &[M::Eval, M::EvalTrait, M::Casteljau, M::Split, M::SplitEval, M::Axis, M::Deriv, M::Deriv2, M::DerivEval, M::Dd,
    M::Baseline, M::BBox, M::Start, M::End, M::Clone, M::CtrlPts, M::Add, M::Sub, M::MulF, M::MulS];

/// the axis each word of a result belongs to (None: not to a single one)
fn axis_of(s: &Shape, m: M, a: &Args, i: usize) -> Option<usize> {
    let dim = if s.kind == K::Point { s.ncp } else { s.dim };
    Some(match m {
        M::BBox => i / 2,
        M::Axis | M::Dd => a.n,
        M::CtrlPts if s.kind == K::Bsp => {
            if i == 0 {
                return None;
            }
            (i - 1) % dim
        }
        M::Deriv if s.kind == K::Bsp && i >= (s.ncp - 1) * dim => return None,
        M::Clone if s.kind == K::Bsp && i >= s.ncp * dim => return None,
        _ => i % dim,
    })
}
fn bad(r: &mut Rng, finite: bool) -> f64 {
    if finite {
        return *r.pick(&[0.0, 1e6, -1e6, 3.25, -0.0, 17.0, 1e-9]);
    }
    match r.us(3) {
        0 => f64::from_bits(r.next()),
        _ => *r.pick(&HOSTILE),
    }
}
/// a value that makes the axis special: equal to, in line with, or far from its neighbours
fn structured(r: &mut Rng, s: &Shape, c: &Curve, i: usize) -> f64 {
    let (dim, n) = if s.kind == K::Point { (1, s.ncp) } else { (s.dim, s.ncp) };
    let (k, a) = (i / dim, i % dim);
    let at = |k: usize| c.data[(k % n) * dim + a];
    match r.us(9) {
        0 => at(r.us(n)),
        1 => 2.0 * at(k + n - 1) - at(k + 2 * n - 2),
        2 => 2.0 * at(k + 1) - at(k + 2),
        3 => (at(k + n - 1) + at(k + 1)) / 2.0,
        4 => at(0),
        5 => at(n - 1),
        6 => c.data[i] * 2f64.powi(r.range(0, 120) as i32 - 60),
        7 => f64::from_bits(c.data[i].to_bits() ^ 1 << r.us(52)),
        _ => c.data[(i + 1) % c.data.len()],
    }
}
pub fn gen(cx: &mut Ctx, r: &mut Rng, p: &mut Plan) {
    let mut t = vec![];
    for _ in 0..4 {
        let during = r.p(0.35);
        let fams: &[u8] = if during { &[FAM_SP] } else { ALL_FAMS };
        let si = pick_shape(r, &cx.reg, fams, &|s| {
            let d = if s.kind == K::Point { s.ncp } else { s.dim };
            (d > 1 || s.kind == K::Bsp) && !(s.kind == K::Point && during)
        });
        let s = cx.reg[si].clone();
        let s = &s;
        let st = *r.pick(&[Style::Nice, Style::Uniform, Style::Mixed]);
        let mut c = curve(r, &cx.reg, si, st);
        if r.p(0.35) {
            // one axis in other units
            let f = 2f64.powi(*r.pick(&[-80, -60, -40, -20, 20, 40, 60, 80]));
            let d = if s.kind == K::Point { s.ncp } else { s.dim };
            let a = r.us(d);
            for i in 0..c.data.len() / d {
                c.data[i * d + a] *= f;
            }
        }
        let k = p.curves.len();
        let finite = r.p(0.5);
        let mut d = c.clone();
        if !during {
            let i = r.us(d.data.len());
            d.data[i] = if finite && r.p(0.6) { structured(r, s, &c, i) } else { bad(r, finite) };
        }
        p.curves.push(c.clone());
        p.curves.push(d);
        for _ in 0..6 {
            let m = loop {
                let m = *r.pick(s.methods);
                if OKM.contains(&m) {
                    break m;
                }
            };
            if m == M::BBox && !finite {
                continue;
            }
            let mut a = args(r, s, &c, m, Style::Uniform, 4);
            if s.kind == K::Point {
                a.p = (0..s.ncp).map(|_| coord(r, st)).collect();
            }
            t.push(Step::Call { curve: k, m, a: a.clone(), rep: 1, noise: None, how: 0 });
            if during {
                let b = cx.base(&c, m, &a);
                if let Some(o) = pick_op(r, &b, &|x| x == kind::PARITH) {
                    let v = bad(r, finite || m == M::BBox);
                    p.evs.push(Ev { task: 0, step: t.len() as u32, at: At::Op(o), act: Act::Axis(r.us(s.dim) as u8, v.to_bits()) });
                }
            } else {
                simrt::stat(U_CORRUPT, 1);
            }
            t.push(Step::Call { curve: k + 1, m, a, rep: 1, noise: None, how: 0 });
        }
    }
    p.tasks.push(t);
}
pub fn judge(cx: &mut Ctx, p: &Plan) -> Verdict {
    let o = Opts::free(p);
    let r = exec(&cx.reg, p, &o);
    let r = match end_verdict(cx, p, &o, r)? {
        Ok(r) => r,
        Err(v) => return Ok(Some(v)),
    };
    let t = &p.tasks[0];
    let mut i = 0;
    while i + 1 < t.len() {
        let (Step::Call { curve: c0, m, a, .. }, Step::Call { curve: c1, m: m1, a: a1, .. }) = (&t[i], &t[i + 1]) else { i += 1; continue };
        if *c1 != *c0 + 1 || c0 % 2 == 1 || m != m1 || a != a1 {
            i += 1;
            continue;
        }
        let (x, y) = (&p.curves[*c0], &p.curves[*c1]);
        let s = &cx.reg[x.shape];
        let dim = if s.kind == K::Point { s.ncp } else { s.dim };
        let coords: Vec<usize> = (0..x.data.len()).filter(|&k| x.data[k].to_bits() != y.data[k].to_bits()).collect();
        let ev = p.evs.iter().find(|e| e.step as usize == i + 1).and_then(|e| match e.act {
            Act::Axis(a, _) => Some(a as usize % s.dim.max(1)),
            _ => None,
        });
        let bad_axis = match (coords.as_slice(), ev) {
            ([], Some(a)) => Some(a),
            ([k], None) => Some(if s.kind == K::Point { *k } else { k % dim }),
            ([], None) => None,
            _ => {
                i += 2;
                continue;
            }
        };
        let (Some(g), Some(h)) = (r.tasks[0].get(i), r.tasks[0].get(i + 1)) else { return viol("lost", format!("step {} never finished", i)) };
        let (g, h) = (&g.out, &h.out);
        i += 2;
        if g.tag != T_VAL && g.tag == h.tag {
            continue;
        }
        simrt::stat(U_CALLS, 1);
        let what = || format!("{} with {}", describe(cx, p, &t[i - 2]),
            match coords.first() { Some(k) => format!("coordinate {} changed from {:?} to {:?}", k, x.data[*k], y.data[*k]), None => format!("axis {:?} of one operator result replaced", bad_axis) });
        if g.tag != h.tag || g.w.len() != h.w.len() {
            return viol("lost-axis", format!("{}: {} became {}", what(), g.show(), h.show()));
        }
        let local = match coords.first() {
            Some(k) if s.kind == K::Bsp && *m == M::Eval => {
                let j = k / dim;
                a.t < x.knots[j] || a.t > x.knots[j + s.deg + 1]
            }
            _ => false,
        };
        if local {
            simrt::stat(U_LOCAL, 1);
        }
        for k in 0..g.w.len() {
            let ax = axis_of(s, *m, a, k);
            if (local || ax.is_none() || ax != bad_axis) && g.w[k] != h.w[k] {
                return viol(if local { "not-local" } else { "leak" }, format!("{}: value {} (axis {:?}) changed: {} became {}", what(), k, ax, g.show(), h.show()));
            }
        }
    }
    Ok(None)
}
