//! C09: a B-spline evaluation that succeeds is the Cox-de Boor point of what is stored, faults or not.
use crate::exec::*;
use crate::gen::*;
use crate::plan::*;
use crate::props::*;
use crate::scalar::*;
use crate::shapes::*;
use simrt::rng::Rng;
use simrt::{kind, Act, At, Ev};

pub const BUILD: u32 = 1 << 30;

/// Cox-de Boor basis functions by their definition (0/0 = 0); `k` is the span that counts as containing t.
pub fn basis(u: &[f64], i: usize, d: usize, t: f64, k: usize) -> f64 {
    if d == 0 {
        return if i == k { 1.0 } else { 0.0 };
    }
    let (l, r) = (u[i + d] - u[i], u[i + d + 1] - u[i + 1]);
    // a basis function of the span's own has a ratio within 0..1; the others are nothing
    let (x, y) = (basis(u, i, d - 1, t, k), basis(u, i + 1, d - 1, t, k));
    let a = if l > 0.0 && x != 0.0 { (t - u[i]) / l * x } else { 0.0 };
    let b = if r > 0.0 && y != 0.0 { (u[i + d + 1] - t) / r * y } else { 0.0 };
    a + b
}
pub enum Ref {
    /// the constructor has to refuse
    Invalid,
    Outside,
    Point(Vec<f64>, Vec<f64>),
    /// outside of what double precision can decide: only "no panic of its own"
    Unknown,
}
pub fn reference(u: &[f64], d: &[f64], dim: usize, ncp: usize, deg: usize, t: f64) -> Ref {
    if u.windows(2).any(|w| !(w[0] <= w[1])) {
        return Ref::Invalid;
    }
    let (a, b) = (u[deg], u[ncp]);
    if t.is_nan() || t < a || t > b {
        return Ref::Outside;
    }
    if u.iter().any(|x| !x.is_finite() || x.abs() > 1e300) || a == b {
        return Ref::Unknown;
    }
    // half-open spans; the end of the domain belongs to the last non-empty span
    let k = if t == b {
        (deg..ncp).rev().find(|&i| u[i] < u[i + 1] && u[i + 1] == b)
    } else {
        (deg..ncp).find(|&i| u[i] <= t && t < u[i + 1])
    };
    let Some(k) = k else { return Ref::Unknown };
    let (mut p, mut sc) = (vec![0.0; dim], vec![0.0f64; dim]);
    for i in k - deg..=k {
        let w = basis(u, i, deg, t, k);
        for x in 0..dim {
            let v = d[i * dim + x];
            if !v.is_finite() || v.abs() > 1e150 {
                return Ref::Unknown;
            }
            p[x] += w * v;
            sc[x] = sc[x].max(v.abs());
        }
    }
    Ref::Point(p, sc)
}

/// Spans of very different lengths, and knot vectors of any scale.
pub fn rescale(r: &mut Rng, k: &mut Vec<f64>, scales: &[i32]) {
    let base = if r.p(0.6) { 0.0 } else { k[0] };
    let mut d: Vec<f64> = k.windows(2).map(|w| w[1] - w[0]).collect();
    if r.p(0.7) {
        let n = d.len();
        for _ in 0..r.range(1, 4) {
            d[r.us(n)] *= 2f64.powi(-(r.range(1, 45) as i32));
        }
    }
    let scale = if r.p(0.5) { 1.0 } else { 2f64.powi(*r.pick(scales)) };
    k[0] = base * scale;
    for i in 0..d.len() {
        k[i + 1] = k[i] + d[i] * scale;
    }
}
pub fn gen(cx: &mut Ctx, r: &mut Rng, p: &mut Plan) {
    let mode = *r.pick(&[0u32, 0, 1, 1, 1, 2, 2]);
    p.mode = mode;
    let fams: &[u8] = if mode == 1 { &[FAM_SP] } else { ALL_FAMS };
    let nc = if mode == 2 { 4 } else { 2 };
    for _ in 0..nc {
        let si = pick_shape(r, &cx.reg, fams, &|s| s.kind == K::Bsp);
        let st = *r.pick(&[Style::Nice, Style::Uniform, Style::Mixed]);
        let mut c = curve(r, &cx.reg, si, st);
        if r.p(0.45) {
            rescale(r, &mut c.knots, &[-1000, -300, -60, -40, -30, -20, -10, 10, 20, 40, 60, 300, 900]);
        }
        if mode == 2 {
            // stored data decays: bit flips and stuck values
            for _ in 0..r.range(1, 2) {
                let i = r.us(c.knots.len());
                c.knots[i] = match r.us(4) {
                    0 => f64::from_bits(c.knots[i].to_bits() ^ 1 << r.us(64)),
                    1 => *r.pick(&HOSTILE),
                    2 => c.knots[r.us(c.knots.len())],
                    _ => {
                        if i > 0 {
                            c.knots[i - 1]
                        } else {
                            0.0
                        }
                    }
                };
            }
            simrt::stat(U_CORRUPT, 1);
        }
        p.curves.push(c);
    }
    let mut t = vec![];
    for (k, c) in p.curves.iter().enumerate() {
        let s = &cx.reg[c.shape];
        t.push(Step::Call { curve: k, m: M::Domain, a: Args { t: 0.0, u: 0.0, n: 0, p: vec![0.0; s.dim] }, rep: 1, noise: None, how: 0 });
        let n = if mode == 2 { 4 } else { 8 };
        for _ in 0..n {
            let (a, b) = (c.knots[s.deg], c.knots[s.ncp]);
            let x = match r.us(18) {
                0 => a,
                1 => b,
                2 | 3 => c.knots[r.us(c.knots.len())],
                4 => *r.pick(&HOSTILE),
                5 => b + (b - a).abs() * r.unit(),
                6 => a - (b - a).abs() * r.unit(),
                7 => f64::from_bits(b.to_bits().wrapping_add(1)),
                8 => {
                    let j = r.us(c.knots.len());
                    f64::from_bits(c.knots[j].to_bits().wrapping_sub(1))
                }
                10 | 11 | 12 => {
                    // inside of a span, however short
                    let j = r.range(s.deg, s.ncp - 1);
                    c.knots[j] + (c.knots[j + 1] - c.knots[j]) * r.unit()
                }
                13 => {
                    // just behind a knot
                    let j = r.range(s.deg, s.ncp);
                    let mut x = c.knots[j];
                    for _ in 0..r.range(1, 3) {
                        x = x.next_up();
                    }
                    x
                }
                9 if mode == 2 => f64::from_bits((a + (b - a) * r.unit()).to_bits() ^ 1 << r.us(64)),
                _ => a + (b - a) * r.unit(),
            };
            t.push(Step::Call { curve: k, m: M::Eval, a: Args { t: x, u: 0.0, n: 0, p: vec![0.0; s.dim] }, rep: 1, noise: None, how: 0 });
        }
    }
    p.tasks.push(t);
    if mode == 1 {
        for s in 0..p.tasks[0].len() {
            if let Step::Call { curve, m: M::Eval, a, .. } = p.tasks[0][s].clone() {
                let b = cx.base(&p.curves[curve].clone(), M::Eval, &a);
                let n = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
                for _ in 0..n {
                    if let Some(o) = pick_op(r, &b, &|k| k == kind::ARITH || k == kind::SFUN || k == kind::CONV) {
                        p.evs.push(Ev { task: 0, step: s as u32, at: At::Op(o), act: Act::Nan });
                    }
                }
            }
        }
        if r.p(0.3) {
            // a fault while the curve is constructed
            let n = p.curves[0].knots.len() as u64;
            p.evs.push(Ev { task: 0, step: BUILD, at: At::Op(r.below(n * 6)), act: Act::Nan });
        }
    }
}

pub fn judge(cx: &mut Ctx, p: &Plan) -> Verdict {
    let o = Opts::free(p);
    let r = exec(&cx.reg, p, &o);
    let r = match end_verdict(cx, p, &o, r)? {
        Ok(r) => r,
        Err(v) => return Ok(Some(v)),
    };
    for (i, c) in p.curves.iter().enumerate() {
        let s = &cx.reg[c.shape];
        let faulty = p.evs.iter().any(|e| e.step == BUILD + i as u32);
        let b = &r.builds[i].out;
        if b.tag == T_PANIC {
            return viol("panic", format!("the constructor of {} panicked on knots {:?}", s.name, c.knots));
        }
        match reference(&c.knots, &c.data, s.dim, s.ncp, s.deg, 0.0) {
            Ref::Invalid if b.tag != T_ERR && !faulty => {
                return viol("accepted", format!("{} accepted knots that are not a non-decreasing sequence: {:?}", s.name, c.knots));
            }
            Ref::Invalid => {
                simrt::stat(U_REJECTED, 1);
            }
            _ if b.tag == T_ERR && !faulty => return viol("refused", format!("{} refused valid knots {:?}: {}", s.name, c.knots, b.show())),
            _ => {}
        }
    }
    for (si, st) in p.tasks[0].iter().enumerate() {
        let Step::Call { curve, m, a, .. } = st else { continue };
        let c = &p.curves[*curve];
        let s = &cx.reg[c.shape];
        let Some(g) = r.tasks[0].get(si) else { return viol("lost", format!("step {} never finished", si)) };
        let g = &g.out;
        let what = || format!("{} knots {:?} t={:?}", s.name, c.knots, a.t);
        simrt::stat(U_CALLS, 1);
        if r.builds[*curve].out.tag != T_VAL {
            continue;
        }
        if g.tag == T_PANIC {
            return viol("panic", format!("{} panicked: {}", mname(*m), what()));
        }
        let faulty = p.evs.iter().any(|e| e.step as usize == si || e.step == BUILD + *curve as u32);
        if *m == M::Domain {
            let want = vec![canon(c.knots[s.deg]), canon(c.knots[s.ncp])];
            if !faulty && !matches!(reference(&c.knots, &c.data, s.dim, s.ncp, s.deg, 0.0), Ref::Invalid) && g.w != want {
                return viol("domain", format!("{}: reported domain {} but the curve is defined on {:?}..{:?}", what(), g.show(), c.knots[s.deg], c.knots[s.ncp]));
            }
            continue;
        }
        let visible = g.tag == T_VAL && g.w.iter().any(|b| f64::from_bits(*b).is_nan());
        match reference(&c.knots, &c.data, s.dim, s.ncp, s.deg, a.t) {
            Ref::Invalid | Ref::Unknown => {}
            Ref::Outside => {
                simrt::stat(U_ERR, 1);
                if g.tag != T_ERR && !(faulty && visible) {
                    return viol("outside", format!("{}: outside of the domain, yet eval returned {}", what(), g.show()));
                }
            }
            Ref::Point(q, sc) => {
                if g.tag == T_ERR {
                    simrt::stat(U_ERR, 1);
                    if !faulty {
                        return viol("refused", format!("{}: inside the domain, yet eval returned {}", what(), g.show()));
                    }
                    continue;
                }
                if visible && faulty {
                    simrt::stat(U_NAN_VISIBLE, 1);
                    continue;
                }
                for x in 0..s.dim {
                    let v = f64::from_bits(g.w[x]);
                    if !((v - q[x]).abs() <= 1e-11 * sc[x]) {
                        return viol("wrong-point", format!("{}: eval returned {} but the curve point is {:?}", what(), g.show(), q));
                    }
                }
                simrt::stat(U_POINT_OK, 1);
            }
        }
    }
    Ok(None)
}
