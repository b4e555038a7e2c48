//! C18: a number lost on the way (not-a-number from an operator, in storage or as the parameter) shows in the result or
//! has no influence on it; it is never replaced by some other finite number. Calls come in pairs (clean, faulty).
use crate::exec::*;
use crate::gen::*;
use crate::plan::*;
use crate::props::*;
use crate::scalar::*;
use crate::shapes::*;
use simrt::rng::Rng;
use simrt::{kind, Act, At, Ev};

const NANM: &[M] = &[M::Eval, M::EvalTrait, M::Casteljau, M::Split, M::SplitEval, M::Axis, M::Deriv, M::Deriv2, M::DerivEval, M::Dd,
    M::Arclen, M::Baseline, M::Start, M::End, M::CtrlPts, M::Add, M::Sub, M::MulF, M::MulS, M::SqLen];

/// what not-a-number as the parameter has to turn into not-a-number altogether
fn whole(s: &Shape, m: M) -> bool {
    match m {
        M::Eval | M::EvalTrait | M::Casteljau | M::Axis => s.kind != K::Point && s.kind != K::Bsp && s.deg > 0,
        _ => false,
    }
}
fn size(c: &Curve) -> f64 {
    c.data.iter().fold(0.0, |m, x| x.abs().max(m))
}
fn scalar_op(k: u8) -> bool {
    k == kind::ARITH || k == kind::SFUN || k == kind::CONV
}
pub fn gen(cx: &mut Ctx, r: &mut Rng, p: &mut Plan) {
    let mut t = vec![];
    for _ in 0..5 {
        // where the number is lost: 0 in an operator, 1 in storage, 2 the parameter
        let how = *r.pick(&[0u8, 0, 0, 1, 1, 2]);
        let fams: &[u8] = if how == 0 { &[FAM_SP, FAM_PS] } else { ALL_FAMS };
        let si = pick_shape(r, &cx.reg, fams, &|s| s.methods.iter().any(|m| NANM.contains(m)));
        let s = cx.reg[si].clone();
        let s = &s;
        let st = *r.pick(&[Style::Nice, Style::Uniform, Style::Mixed]);
        let c = curve(r, &cx.reg, si, st);
        let k = p.curves.len();
        let mut d = c.clone();
        if how == 1 {
            for _ in 0..r.range(1, 2) {
                let i = r.us(d.data.len());
                d.data[i] = f64::NAN;
            }
            simrt::stat(U_CORRUPT, 1);
        }
        p.curves.push(c.clone());
        p.curves.push(d);
        for _ in 0..6 {
            let m = *r.pick(s.methods);
            if !NANM.contains(&m) || (how == 2 && !whole(s, m)) {
                continue;
            }
            let a = args(r, s, &c, m, Style::Uniform, 5);
            t.push(Step::Call { curve: k, m, a: a.clone(), rep: 1, noise: None, how: 0 });
            let mut f = a.clone();
            match how {
                0 => {
                    let b = cx.base(&c, m, &a);
                    for _ in 0..*r.pick(&[1usize, 1, 1, 2]) {
                        if let Some(o) = pick_op(r, &b, &scalar_op) {
                            p.evs.push(Ev { task: 0, step: t.len() as u32, at: At::Op(o), act: Act::Nan });
                        }
                    }
                }
                2 => {
                    f.t = f64::NAN;
                    simrt::stat(U_HOSTILE, 1);
                }
                _ => {}
            }
            t.push(Step::Call { curve: k + 1, m, a: f, rep: 1, noise: None, how: 0 });
        }
    }
    p.tasks.push(t);
}
pub fn judge(cx: &mut Ctx, p: &Plan) -> Verdict {
    let o = Opts::free(p);
    let r = exec(&cx.reg, p, &o);
    let r = match end_verdict(cx, p, &o, r)? {
        Ok(r) => r,
        Err(v) => return Ok(Some(v)),
    };
    let t = &p.tasks[0];
    let mut i = 0;
    while i + 1 < t.len() {
        let (Step::Call { curve: c0, m, a, .. }, Step::Call { curve: c1, m: m1, a: a1, .. }) = (&t[i], &t[i + 1]) else { i += 1; continue };
        if *c1 != *c0 + 1 || c0 % 2 == 1 || m != m1 || a.n != a1.n {
            i += 1;
            continue;
        }
        let (x, y) = (&p.curves[*c0], &p.curves[*c1]);
        let s = &cx.reg[x.shape];
        let (Some(g), Some(h)) = (r.tasks[0].get(i), r.tasks[0].get(i + 1)) else { return viol("lost", format!("step {} never finished", i)) };
        let (g, h) = (&g.out, &h.out);
        i += 2;
        if g.tag != T_VAL {
            continue;
        }
        simrt::stat(U_CALLS, 1);
        let stored: Vec<usize> = (0..x.data.len()).filter(|&k| x.data[k].to_bits() != y.data[k].to_bits()).collect();
        let ops = p.evs.iter().filter(|e| e.step as usize == i - 1).count();
        let param = a.t.to_bits() != a1.t.to_bits();
        let what = || format!("{} with not-a-number {}", describe(cx, p, &t[i - 2]),
            if param { "as the parameter".into() } else if ops > 0 { format!("returned by {} scalar operations", ops) } else { format!("in coordinates {:?}", stored) });
        if h.tag == T_ERR && s.kind == K::Bsp && ops > 0 {
            simrt::stat(U_ERR, 1);
            continue;
        }
        if h.tag != T_VAL || g.w.len() != h.w.len() {
            return viol("failed", format!("{}: {} became {}", what(), g.show(), h.show()));
        }
        let mut seen = false;
        for k in 0..g.w.len() {
            // infinity is as good a sign that something went wrong
            let nan = !f64::from_bits(h.w[k]).is_finite();
            seen |= nan && h.w[k] != g.w[k];
            // a B-spline may take another way to the same point (C09)
            let near = s.kind == K::Bsp && ops > 0 && (f64::from_bits(h.w[k]) - f64::from_bits(g.w[k])).abs() <= 1e-9 * size(x);
            let bad = if param { whole(s, *m) && !nan } else { !nan && h.w[k] != g.w[k] && !near };
            if bad {
                return viol("replaced", format!("{}: value {} of {} became that of {}", what(), k, g.show(), h.show()));
            }
        }
        if seen {
            simrt::stat(U_NAN_VISIBLE, 1);
        }
    }
    Ok(None)
}
