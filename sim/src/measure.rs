//! C12-C16: what workers measure on pieces of a curve, against independent references: boxes by subdivision of the
//! coordinates' Bernstein form, lengths of polylines through de Casteljau (Cox-de Boor) points, distances by branch and
//! bound over convex hulls, derivatives from differences of control points (the definition of the basis functions),
//! flatness from distances to the chord.
use crate::c09;
use crate::c11::casteljau;
use crate::gen::edge_t;
use crate::plan::*;
use crate::shapes::*;
use simrt::rng::Rng;
use std::collections::BTreeMap;

pub fn takes(prop: &str, s: &Shape) -> bool {
    let has = |m| s.methods.contains(&m);
    match prop {
        "C11" => s.splittable,
        "C12" => has(M::BBox),
        "C13" => has(M::Arclen) && s.deg > 0,
        "C14" => has(M::Dist),
        "C16" => has(M::IsLinear),
        _ => has(M::Deriv) && s.deg > 0,
    }
}
pub fn geometry(prop: &str, r: &mut Rng, s: &Shape, c: &mut Curve) {
    if prop != "C12" || s.ncp < 3 || r.p(0.6) {
        return;
    }
    // nearly of a lower degree on some axes: the leading coefficient is next to nothing, by a chosen distance
    let (d, n) = (s.dim, s.ncp);
    for a in 0..d {
        if r.p(0.3) {
            continue;
        }
        let (x, m, y) = (c.data[a], c.data[d + a], c.data[(n - 1) * d + a]);
        if n == 3 {
            c.data[d + a] = (x + y) / 2.0;
        } else {
            c.data[d + a] = x + (m - x) * 2.0 / 3.0;
            c.data[2 * d + a] = y + (m - y) * 2.0 / 3.0;
        }
        if r.p(0.6) {
            c.data[(n - 2) * d + a] *= 1.0 + 2f64.powi(-(r.range(8, 52) as i32));
        }
    }
}
pub fn gen(prop: &str, r: &mut Rng, s: &Shape, c: &Curve) -> Vec<[u64; 4]> {
    let unit = |r: &mut Rng| match r.us(6) {
        0 => 0.0,
        1 => 1.0,
        2 => edge_t(r),
        _ => r.unit(),
    };
    let row = |m: M, x: u64, y: u64| [3, m as u64, x, y];
    match prop {
        "C11" | "C16" => vec![],
        "C12" => vec![row(M::BBox, 0, 0)],
        "C13" => (0..r.range(1, 2))
            .map(|_| {
                if r.p(0.01) {
                    return row(M::Arclen, 0, 0);
                }
                // a number of steps that is another one in 16 (or 8) bits
                if s.ncp <= 4 && r.p(0.001) {
                    return row(M::Arclen, 65536 + r.range(0, 4) as u64, 0);
                }
                if s.ncp <= 9 && r.p(0.01) {
                    return row(M::Arclen, 256 * r.range(1, 4) as u64 + r.range(0, 4) as u64, 0);
                }
                let top = match r.us(100) {
                    0 if s.ncp <= 5 => 5000,
                    0..=9 if s.ncp <= 9 => 300,
                    _ if s.ncp <= 9 => 40,
                    _ => 24,
                };
                row(M::Arclen, r.range(1, top) as u64, 0)
            })
            .collect(),
        "C14" => (0..r.range(1, if s.ncp > 9 { 1 } else { 2 })).map(|_| row(M::Dist, r.next(), r.below(8))).collect(),
        _ if s.kind == K::Line => vec![row(M::Deriv, 0, 0)],
        _ => {
            let mut v = vec![];
            for _ in 0..r.range(2, 4) {
                let t = if s.kind == K::Bsp {
                    let (a, b) = (c.knots[s.deg], c.knots[s.ncp]);
                    match r.us(5) {
                        0 => a,
                        1 => b,
                        2 => c.knots[r.range(s.deg, s.ncp)],
                        _ => a + (b - a) * r.unit(),
                    }
                } else {
                    unit(r)
                };
                if s.methods.contains(&M::Dd) && r.p(0.5) {
                    v.push(row(M::Dd, t.to_bits(), r.us(s.dim) as u64));
                } else {
                    v.push(row(M::DerivEval, t.to_bits(), 0));
                }
            }
            if s.methods.contains(&M::Deriv2) && r.p(0.3) {
                v.push(row(M::Deriv2, 0, 0));
            }
            v
        }
    }
}
/// a tolerance that takes a handful of levels of splitting to reach
pub fn tolerance(r: &mut Rng, s: &Shape, c: &Curve) -> f64 {
    let bent = bend(&c.data, s.dim);
    let whole = (0..s.dim).map(|a| scale(&c.data, s.dim, a)).fold(0.0, f64::max);
    let k = if r.p(0.1) { 4 } else { r.us(4) as i32 };
    (bent * 4f64.powi(-k) * (0.3 + r.unit() * 0.7)).max(1e-7).max(whole * 1e-9)
}
pub fn flat_rows(r: &mut Rng, s: &Shape, tol: f64) -> Vec<[u64; 4]> {
    let row = |m: M, u: f64| [3, m as u64, u.to_bits(), 0];
    let mut v = vec![row(M::IsLinear, tol)];
    if s.methods.contains(&M::IsPoint) {
        v.push(row(M::IsPoint, tol));
    }
    // a worker's copy has lost a coordinate: x[3] - 1 is which, and what it became
    if s.ncp > 2 && r.p(0.15) {
        let m = if s.methods.contains(&M::IsPoint) && r.p(0.4) { M::IsPoint } else { M::IsLinear };
        v.push([3, m as u64, (tol * 4f64.powi(r.range(0, 10) as i32)).to_bits(), 1 + r.us(3 * s.dim * s.ncp) as u64]);
    }
    // other questions about the same pieces
    for _ in 0..r.us(3) {
        match r.us(7) {
            0 => v.push(row(M::Baseline, 0.0)),
            1 => v.push(row(M::IsLinear, 0.0)),
            2 => v.push(row(M::IsLinear, -tol)),
            3 | 4 if s.methods.contains(&M::IsPoint) => v.push(row(M::IsPoint, if r.p(0.2) { 0.0 } else { tol * 8f64.powi(r.range(0, 6) as i32 - 2) })),
            _ => v.push(row(M::IsLinear, tol * 4f64.powi(r.range(0, 6) as i32 - 4))),
        }
    }
    v
}
/// does this question decide whether a piece is split?
pub fn decides(x: &[u64; 4], tol: f64) -> bool {
    [M::IsLinear, M::IsPoint].contains(&method(x)) && x[2] == tol.to_bits() && x[3] == 0
}
/// the worker's copy of a piece if it lost a coordinate
pub fn lost(x: &[u64; 4], d: &[u64]) -> Option<Vec<f64>> {
    if ![M::IsLinear, M::IsPoint].contains(&method(x)) || x[3] == 0 {
        return None;
    }
    let mut v: Vec<f64> = d.iter().map(|b| f64::from_bits(*b)).collect();
    let (n, k) = (v.len(), x[3] as usize - 1);
    v[k / 3 % n] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][k % 3];
    Some(v)
}
/// the largest second difference of the control points
fn bend(d: &[f64], dim: usize) -> f64 {
    let n = d.len() / dim;
    (0..n.saturating_sub(2)).map(|i| norm(&(0..dim).map(|a| d[(i + 2) * dim + a] - 2.0 * d[(i + 1) * dim + a] + d[i * dim + a]).collect::<Vec<f64>>())).fold(0.0, f64::max)
}
/// Splitting in the middle leaves a quarter of the second differences, and these bound how far the control points are
/// from equidistant points of the chord: after so many levels every piece is linear or a point.
pub fn deepest(s: &Shape, d: &[f64], tol: f64, how: u64) -> u64 {
    let q = if how < 2 { 0.25 } else { 0.4 };
    let (mut b, mut k) = (bend(d, s.dim), 1);
    while b > tol * 0.4 && k < 40 {
        b *= q;
        k += 1;
    }
    k
}
pub fn is_point(d: &[u64], s: &Shape, tol: f64) -> bool {
    if s.kind != K::Seg {
        return false;
    }
    let d: Vec<f64> = d.iter().map(|b| f64::from_bits(*b)).collect();
    (1..s.ncp).all(|i| dist(&d[..s.dim], &d[i * s.dim..(i + 1) * s.dim]) <= tol)
}
fn to_chord(p: &[f64], a: &[f64], b: &[f64]) -> f64 {
    let l2: f64 = a.iter().zip(b).map(|(x, y)| (y - x) * (y - x)).sum();
    if l2 == 0.0 {
        return dist(p, a);
    }
    let t = (a.iter().zip(b).zip(p).map(|((x, y), z)| (y - x) * (z - x)).sum::<f64>() / l2).clamp(0.0, 1.0);
    dist(p, &a.iter().zip(b).map(|(x, y)| x + (y - x) * t).collect::<Vec<f64>>())
}
/// The chords of the pieces against the curve.
pub fn flattened(s: &Shape, root: &Curve, tol: f64, leaves: &[(u64, f64, f64)], ms: &[[u64; 4]], found: &BTreeMap<(u64, u64), Vec<u64>>) -> Fail {
    let dim = s.dim;
    let b = bits(&root.data);
    let whole = (0..dim).map(|a| scale(&root.data, dim, a)).fold(0.0, f64::max);
    for (path, lo, hi) in leaves {
        let linear = ms.iter().enumerate().any(|(k, x)| method(x) == M::IsLinear && decides(x, tol) && found.get(&(*path, k as u64 + 1)).is_some_and(|w| w[1] != 0));
        let (p, q) = (casteljau(&b, dim, *lo), casteljau(&b, dim, *hi));
        for i in 0..=16 {
            let t = lo + (hi - lo) * i as f64 / 16.0;
            let far = to_chord(&casteljau(&b, dim, t), &p, &q);
            if far > tol * if linear { 1.0 } else { 2.0 } + 1e-10 * whole {
                return Some(("not-flat", format!("flattened within {:?}, but at {:?} the curve is {:?} off the chord from {:?} to {:?}", tol, t, far, lo, hi)));
            }
        }
    }
    // whatever is linear, or a point, within a tolerance is so within any larger one
    for (path, ..) in leaves {
        for (i, x) in ms.iter().enumerate() {
            for (j, y) in ms.iter().enumerate() {
                if x[1] == y[1] && x[3] == 0 && y[3] == 0 && [M::IsLinear, M::IsPoint].contains(&method(x)) && f64::from_bits(x[2]) >= 0.0 && f64::from_bits(x[2]) < f64::from_bits(y[2]) {
                    if let (Some(v), Some(w)) = (found.get(&(*path, i as u64 + 1)), found.get(&(*path, j as u64 + 1))) {
                        if v[1] != 0 && w[1] == 0 {
                            return Some(("not-monotone", format!("piece {:#b}: {} holds but {} does not", path, what(s, root, x), what(s, root, y))));
                        }
                    }
                }
            }
        }
    }
    None
}
fn method(x: &[u64; 4]) -> M {
    METHODS.iter().find(|m| m.0 as u64 == x[1]).map(|m| m.0).unwrap_or(M::BBox)
}
/// the query point of a distance: on the curve, off it by any amount, one of its points, behind its ends, anywhere
fn query(s: &Shape, root: &Curve, seed: u64, style: u64) -> Vec<f64> {
    let r = &mut Rng::new(seed);
    let d = s.dim;
    let bits: Vec<u64> = root.data.iter().map(|x| x.to_bits()).collect();
    let size: Vec<f64> = (0..d).map(|a| scale(&root.data, d, a).max(1e-200)).collect();
    let t = r.unit();
    let at = casteljau(&bits, d, t);
    let n = root.data.len();
    match style {
        0 => at,
        1 => (0..d).map(|a| at[a] + size[a] * 2f64.powi(-(r.range(1, 30) as i32)) * (r.unit() - 0.5)).collect(),
        2 => {
            let i = r.us(s.ncp) * d;
            root.data[i..i + d].to_vec()
        }
        3 => {
            // behind the end, in the direction the curve leaves it
            let f = 2f64.powi(r.range(0, 8) as i32 - 5);
            let k = n.saturating_sub(2 * d);
            (0..d).map(|a| root.data[n - d + a] + (root.data[n - d + a] - root.data[k + a]) * f).collect()
        }
        4 => {
            let f = 2f64.powi(r.range(0, 8) as i32 - 5);
            let k = if n > d { d } else { 0 };
            (0..d).map(|a| root.data[a] + (root.data[a] - root.data[k + a]) * f).collect()
        }
        _ => (0..d).map(|a| size[a] * (r.unit() * 4.0 - 2.0)).collect(),
    }
}
pub fn args(s: &Shape, root: &Curve, x: &[u64; 4]) -> (M, Args) {
    let m = method(x);
    let mut a = Args { t: 0.5, u: 0.0, n: 0, p: vec![0.0; s.dim] };
    match m {
        M::Arclen => a.n = x[2].min(100_000) as usize,
        M::Dist => a.p = query(s, root, x[2], x[3]),
        M::Dd | M::DerivEval => {
            a.t = f64::from_bits(x[2]);
            a.n = (x[3] as usize).min(s.dim - 1);
        }
        M::IsLinear | M::IsPoint => a.u = f64::from_bits(x[2]),
        _ => {}
    }
    (m, a)
}
pub fn what(s: &Shape, root: &Curve, x: &[u64; 4]) -> String {
    let (m, a) = args(s, root, x);
    match m {
        M::Arclen => format!("arclen({})", a.n),
        M::Dist => format!("distance_to_point({:?})", a.p),
        M::Dd => format!("dd({:?}, axis {})", a.t, a.n),
        M::DerivEval => format!("derivative().eval({:?})", a.t),
        M::BBox => "bounding_box".into(),
        M::IsLinear | M::IsPoint if x[3] > 0 => format!("{}({:?}), with coordinate {} become {},", mname(m), a.u, (x[3] - 1) / 3, ["NaN", "inf", "-inf"][(x[3] as usize - 1) % 3]),
        M::IsLinear => format!("is_linear({:?})", a.u),
        M::IsPoint => format!("is_a_point({:?})", a.u),
        m => mname(m).into(),
    }
}
pub fn knots_text(c: &Curve) -> String {
    if c.knots.is_empty() {
        String::new()
    } else {
        format!(" knots {:?}", c.knots)
    }
}

fn scale(d: &[f64], dim: usize, a: usize) -> f64 {
    d.iter().skip(a).step_by(dim).fold(0.0, |m: f64, x| m.max(x.abs()))
}
fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}
fn bits(d: &[f64]) -> Vec<u64> {
    d.iter().map(|x| x.to_bits()).collect()
}
fn halves(c: &[f64], dim: usize) -> (Vec<f64>, Vec<f64>) {
    let n = c.len() / dim;
    let mut p = c.to_vec();
    let (mut l, mut r) = (vec![0.0; c.len()], vec![0.0; c.len()]);
    for k in 0..n {
        l[k * dim..(k + 1) * dim].copy_from_slice(&p[..dim]);
        r[(n - 1 - k) * dim..(n - k) * dim].copy_from_slice(&p[(n - 1 - k) * dim..(n - k) * dim]);
        for i in 0..(n - 1 - k) * dim {
            p[i] = 0.5 * p[i] + 0.5 * p[i + dim];
        }
    }
    (l, r)
}
/// the largest value of a polynomial in Bernstein form on 0..1, to within 1e-13 of its coefficients
fn top(c: &[f64]) -> f64 {
    let eps = 1e-13 * c.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let mut best = c[0].max(c[c.len() - 1]);
    let mut todo = vec![(c.to_vec(), 0)];
    while let Some((c, depth)) = todo.pop() {
        if depth > 60 || c.iter().fold(f64::NEG_INFINITY, |m, x| m.max(*x)) <= best + eps {
            continue;
        }
        let (l, r) = halves(&c, 1);
        best = best.max(r[0]);
        todo.push((l, depth + 1));
        todo.push((r, depth + 1));
    }
    best
}
fn axis_box(d: &[f64], dim: usize, a: usize) -> (f64, f64) {
    let c: Vec<f64> = d.iter().skip(a).step_by(dim).copied().collect();
    let m: Vec<f64> = c.iter().map(|x| -x).collect();
    (-top(&m), top(&c))
}
/// the least distance from a point to a Bezier curve: the true one is at most `tau` below; and where it is found
fn nearest(d: &[f64], dim: usize, p: &[f64], tau: f64) -> (f64, f64) {
    let q: Vec<f64> = d.iter().enumerate().map(|(i, x)| x - p[i % dim]).collect();
    let n = q.len() / dim;
    let b = bits(&q);
    let mut best = (f64::INFINITY, 0.0);
    for i in 0..=64 {
        let v = norm(&casteljau(&b, dim, i as f64 / 64.0));
        if v < best.0 {
            best = (v, i as f64 / 64.0);
        }
    }
    let mut todo = vec![(q, 0.0, 1.0)];
    let mut nodes = 0;
    while let Some((c, a, b)) = todo.pop() {
        nodes += 1;
        if nodes > 200_000 || b - a < 1e-15 {
            continue;
        }
        let (l, r) = halves(&c, dim);
        let mid = &r[..dim];
        let v = norm(mid);
        if v < best.0 {
            best = (v, 0.5 * (a + b));
        }
        // every point of the piece lies behind the plane through its control points' nearest, seen from the query
        let mut low = 0.0f64;
        if v > 0.0 {
            for i in 0..n {
                let x = c[i * dim..(i + 1) * dim].iter().zip(mid).map(|(x, y)| x * y).sum::<f64>() / v;
                low = if i == 0 { x } else { low.min(x) };
            }
        }
        if low >= best.0 - tau {
            continue;
        }
        let m = 0.5 * (a + b);
        todo.push((l, a, m));
        todo.push((r, m, b));
    }
    best
}
/// value of the derivative
fn slope(d: &[f64], dim: usize, t: f64) -> Vec<f64> {
    let n = d.len() / dim;
    let q: Vec<f64> = (0..(n - 1) * dim).map(|i| (d[i + dim] - d[i]) * (n - 1) as f64).collect();
    casteljau(&bits(&q), dim, t)
}
/// derivative of a B-spline by that of its basis functions, and the size of the numbers involved
fn bsp_slope(s: &Shape, c: &Curve, t: f64) -> Option<(Vec<f64>, Vec<f64>)> {
    let (u, deg) = (&c.knots, s.deg);
    let b = u[s.ncp];
    let k = if t == b { (deg..s.ncp).rev().find(|&i| u[i] < u[i + 1] && u[i + 1] == b) } else { (deg..s.ncp).find(|&i| u[i] <= t && t < u[i + 1]) }?;
    let (mut v, mut sc) = (vec![0.0; s.dim], vec![0.0; s.dim]);
    for i in k - deg..=k {
        let part = |j: usize| {
            let w = u[j + deg] - u[j];
            if w > 0.0 {
                deg as f64 / w * c09::basis(u, j, deg - 1, t, k)
            } else {
                0.0
            }
        };
        let (x, y) = (if i > k - deg { part(i) } else { 0.0 }, if i < k { part(i + 1) } else { 0.0 });
        for a in 0..s.dim {
            v[a] += (x - y) * c.data[i * s.dim + a];
            sc[a] += (x.abs() + y.abs()) * c.data[i * s.dim + a].abs();
        }
    }
    // the weights of the derivative's own control points are known no better than to a unit of one
    for i in k - deg..k {
        let w = u[i + deg + 1] - u[i + 1];
        for a in 0..s.dim {
            let q = deg as f64 / w * (c.data[i * s.dim + a].abs() + c.data[(i + 1) * s.dim + a].abs());
            if w > 0.0 {
                sc[a] += 1e-3 * q;
            }
        }
    }
    Some((v, sc))
}
fn off(a: &[f64], b: &[f64], tol: &[f64]) -> bool {
    a.len() != b.len() || a.iter().zip(b).zip(tol).any(|((x, y), e)| !((x - y).abs() <= *e))
}

pub type Fail = Option<(&'static str, String)>;
/// One measurement of one piece, by its own control points.
pub fn judge(s: &Shape, root: &Curve, d: &[f64], is_root: bool, x: &[u64; 4], tag: u8, out: &[f64]) -> Fail {
    let (m, a) = args(s, root, x);
    let dim = s.dim;
    let whole = (0..dim).map(|a| scale(d, dim, a)).fold(0.0, f64::max);
    let fail = |c: &'static str, t: String| Some((c, format!("{} gives {:?}: {}", what(s, root, x), out, t)));
    if tag != T_VAL {
        return fail("panic", if tag == T_ERR { "an error".into() } else { "a panic".into() });
    }
    let n = d.len() / dim;
    match m {
        M::BBox => {
            for a in 0..dim {
                let (lo, hi) = axis_box(d, dim, a);
                let e = 1e-9 * scale(d, dim, a);
                if out.len() != 2 * dim || !((out[2 * a] - lo).abs() <= e) || !((out[2 * a + 1] - hi).abs() <= e) {
                    return fail("wrong-box", format!("on axis {} the piece reaches from {:?} to {:?}", a, lo, hi));
                }
            }
        }
        M::Arclen => {
            let k = a.n;
            let mut tol = if s.kind == K::Bsp { 1e-11 } else { 1e-13 } * whole * (k + 20 * n) as f64;
            let pts: Vec<Vec<f64>> = if s.kind == K::Bsp {
                let (u, deg) = (&root.knots, s.deg);
                if !is_root || (deg + 1..s.ncp).any(|i| i + deg < u.len() && u[i] == u[i + deg] && u[i] > u[deg] && u[i] < u[s.ncp]) {
                    return None; // it jumps: which side a parameter falls on is a matter of rounding
                }
                let (lo, hi) = (u[deg], u[s.ncp]);
                let mut fast = 0.0f64;
                for i in 0..s.ncp - 1 {
                    let w = u[i + deg + 1] - u[i + 1];
                    if w > 0.0 {
                        fast = fast.max(dist(&d[i * dim..(i + 1) * dim], &d[(i + 1) * dim..(i + 2) * dim]) * deg as f64 / w);
                    }
                }
                tol += 1e-15 * k as f64 * fast * (lo.abs() + hi.abs());
                let at = |i: usize| if i == k { hi } else { lo + (i as f64 / k as f64) * (hi - lo) };
                let mut v = vec![];
                for i in 0..=k {
                    match c09::reference(u, d, dim, s.ncp, deg, at(i)) {
                        c09::Ref::Point(p, _) => v.push(p),
                        _ => return None,
                    }
                }
                v
            } else {
                let b = bits(d);
                (0..=k).map(|i| casteljau(&b, dim, i as f64 / k as f64)).collect()
            };
            let len: f64 = pts.windows(2).map(|w| dist(&w[0], &w[1])).sum();
            if out.len() != 1 || !((out[0] - len).abs() <= tol + 1e-10 * len) {
                return fail("wrong-length", format!("the polyline of {} steps is {:?} long", k, len));
            }
        }
        M::Dist => {
            let p = &a.p;
            let size = whole.max(p.iter().fold(0.0, |m: f64, x| m.max(x.abs())));
            let tol = 1e-9 * size;
            let tau = 1e-7 * size;
            let (best, at) = nearest(d, dim, p, tau);
            if out.len() != 1 || !(out[0] >= best - tau - tol) {
                return fail("too-near", format!("no point of the piece is nearer than {:?} (at {:?})", best, at));
            }
            if s.kind == K::Line {
                if out[0] > best + tol {
                    return fail("too-far", format!("the point at {:?} is at {:?}", at, best));
                }
                return None;
            }
            let b = bits(d);
            let v: Vec<f64> = (0..=64).map(|i| dist(&casteljau(&b, dim, i as f64 / 64.0), p)).collect();
            let lowest = v.iter().fold(f64::INFINITY, |m, x| m.min(*x));
            if out[0] > lowest + tol {
                return fail("too-far", format!("one of 65 equidistant points of the piece is at {:?}", lowest));
            }
            if v.iter().enumerate().all(|(i, x)| *x > lowest + tol || (i as f64 / 64.0 - at).abs() <= 1.0 / 128.0) {
                let fast = (n - 1) as f64 * (0..n - 1).map(|i| dist(&d[i * dim..(i + 1) * dim], &d[(i + 1) * dim..(i + 2) * dim])).fold(0.0, f64::max);
                if out[0] > best + fast / 4096.0 + tol {
                    return fail("too-far", format!("the nearest point, next to the best of 65 equidistant ones, is at {:?}", best));
                }
            }
        }
        M::Baseline => {
            if bits(out) != bits(&[&d[..dim], &d[d.len() - dim..]].concat()) {
                return fail("wrong-chord", "not the line from its start to its end".into());
            }
        }
        M::IsLinear | M::IsPoint if x[3] > 0 => {
            if out.len() != 1 || out[0].to_bits() != 0 {
                return fail("wrong-answer", "no curve that has lost a coordinate is so".into());
            }
        }
        M::IsLinear => {
            if out.len() != 1 {
                return fail("wrong-answer", "not an answer".into());
            }
            let e = 1e-12 * (whole + a.u.abs());
            let (p, q) = (&d[..dim], &d[d.len() - dim..]);
            let far = (1..n - 1).map(|i| to_chord(&d[i * dim..(i + 1) * dim], p, q)).fold(0.0, f64::max);
            let yes = out[0].to_bits() != 0;
            if yes && n > 2 && far > a.u + e {
                return fail("wrong-answer", format!("a control point is {:?} off the chord", far));
            }
            // curves that return to where they start are not lines
            if !yes && far < a.u - e && (n == 2 || dist(p, q).powi(2) > f64::EPSILON * 1.01) {
                return fail("wrong-answer", format!("no control point is further than {:?} off the chord", far));
            }
        }
        M::IsPoint => {
            if out.len() != 1 {
                return fail("wrong-answer", "not an answer".into());
            }
            let e = 1e-12 * (whole + a.u.abs());
            let mut far = 0.0f64;
            for i in 0..n {
                for j in 0..i {
                    far = far.max(dist(&d[i * dim..(i + 1) * dim], &d[j * dim..(j + 1) * dim]));
                }
            }
            let yes = out[0].to_bits() != 0;
            if yes && far > (n - 1) as f64 * a.u.abs() + e {
                return fail("wrong-answer", format!("two control points are {:?} apart", far));
            }
            if !yes && far < a.u - e {
                return fail("wrong-answer", format!("no two control points are further than {:?} apart", far));
            }
        }
        _ => {
            let (want, tol) = match (s.kind, m) {
                (K::Bsp, _) => {
                    let (v, sc) = bsp_slope(s, root, a.t)?;
                    (v, sc.iter().map(|x| 1e-10 * x).collect())
                }
                (_, M::Deriv2) => {
                    let q: Vec<f64> = (0..2 * dim).map(|i| 6.0 * (d[i + 2 * dim] - 2.0 * d[i + dim] + d[i])).collect();
                    (q, (0..2 * dim).map(|i| 1e-10 * scale(d, dim, i % dim)).collect())
                }
                _ => {
                    let v = slope(d, dim, a.t);
                    let tol: Vec<f64> = (0..dim).map(|a| 1e-11 * n as f64 * scale(d, dim, a)).collect();
                    if m == M::Dd {
                        (vec![v[a.n]], vec![tol[a.n]])
                    } else {
                        (v, tol)
                    }
                }
            };
            if off(out, &want, &tol) {
                return fail("wrong-slope", format!("the derivative is {:?}", want));
            }
        }
    }
    None
}
/// The measurements of the pieces that make up the curve, put together.
pub fn merge(s: &Shape, root: &Curve, leaves: &[(u64, f64, f64)], ms: &[[u64; 4]], found: &BTreeMap<(u64, u64), Vec<u64>>) -> Fail {
    let dim = s.dim;
    let d = &root.data;
    for (k, x) in ms.iter().enumerate() {
        let (m, a) = args(s, root, x);
        let mut got: Vec<(f64, f64, Vec<f64>)> = vec![];
        for (path, lo, hi) in leaves {
            match found.get(&(*path, k as u64 + 1)) {
                Some(w) => got.push((*lo, *hi, w[1..].iter().map(|b| f64::from_bits(*b)).collect())),
                None => return Some(("lost", format!("piece {:#b} was never measured", path))),
            }
        }
        if got.len() < 2 || s.kind == K::Bsp {
            continue;
        }
        let fail = |c: &'static str, t: String| Some((c, format!("{} of {} pieces: {}", what(s, root, x), got.len(), t)));
        let whole = (0..dim).map(|a| scale(d, dim, a)).fold(0.0, f64::max);
        match m {
            M::BBox => {
                for a in 0..dim {
                    let lo = got.iter().fold(f64::INFINITY, |v, g| v.min(g.2[2 * a]));
                    let hi = got.iter().fold(f64::NEG_INFINITY, |v, g| v.max(g.2[2 * a + 1]));
                    let want = axis_box(d, dim, a);
                    let e = 2e-9 * scale(d, dim, a);
                    if !((lo - want.0).abs() <= e && (hi - want.1).abs() <= e) {
                        return fail("wrong-box", format!("on axis {} together {:?}..{:?}, the curve {:?}", a, lo, hi, want));
                    }
                }
            }
            M::Arclen if a.n > 0 => {
                let sum: f64 = got.iter().map(|g| g.2[0]).sum();
                let n = d.len() / dim;
                let tol = 1e-9 * whole * (got.len() + n) as f64;
                let chord = dist(&d[..dim], &d[(n - 1) * dim..]);
                let polygon: f64 = (0..n - 1).map(|i| dist(&d[i * dim..(i + 1) * dim], &d[(i + 1) * dim..(i + 2) * dim])).sum();
                if !(sum >= chord - tol && sum <= polygon + tol) {
                    return fail("wrong-length", format!("together {:?}, but the ends are {:?} apart and the control polygon is {:?} long", sum, chord, polygon));
                }
            }
            M::Dist => {
                let least = got.iter().fold(f64::INFINITY, |v, g| v.min(g.2[0]));
                let size = whole.max(a.p.iter().fold(0.0, |m: f64, x| m.max(x.abs())));
                let (best, at) = nearest(d, dim, &a.p, 1e-7 * size);
                if !(least >= best - 2e-7 * size) {
                    return fail("too-near", format!("the least is {:?}, but the curve is no nearer than {:?} (at {:?})", least, best, at));
                }
            }
            M::DerivEval | M::Deriv => {
                for (lo, hi, v) in &got {
                    let t = if m == M::Deriv { 0.0 } else { a.t };
                    let want: Vec<f64> = slope(d, dim, lo + (hi - lo) * t).iter().map(|x| x * (hi - lo)).collect();
                    let n = d.len() / dim;
                    let tol: Vec<f64> = (0..dim).map(|a| 1e-9 * n as f64 * scale(d, dim, a)).collect();
                    if off(v, &want, &tol) {
                        return fail("wrong-slope", format!("on {:?}..{:?} it is {:?}, on the curve {:?}", lo, hi, v, want));
                    }
                }
            }
            _ => {}
        }
    }
    None
}
