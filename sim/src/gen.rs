//! Values, worlds (a small pool of curves and calls) and places in the instruction stream, all from one integer.
use crate::exec::*;
use crate::plan::*;
use crate::scalar::*;
use crate::shapes::*;
use simrt::elf;
use simrt::rng::Rng;

pub const HOSTILE: [f64; 18] = [
    f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON,
    4503599627370496.0, 0.5, 9.223372036854775807e18, 1e-200, 1e200, 2.0,
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Nice,
    Uniform,
    Mixed,
    Special,
    Hostile,
}
pub fn coord(r: &mut Rng, st: Style) -> f64 {
    match st {
        Style::Nice => (r.range(0, 32) as f64 - 16.0) / 2.0,
        Style::Uniform => r.unit() * 20.0 - 10.0,
        Style::Mixed => (r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(0, 12) as i32 - 6),
        Style::Special => {
            if r.p(0.2) {
                *r.pick(&HOSTILE)
            } else {
                r.unit() * 20.0 - 10.0
            }
        }
        Style::Hostile => match r.us(4) {
            0 => *r.pick(&HOSTILE),
            1 => f64::from_bits(r.next()),
            2 => (r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(0, 600) as i32 - 300),
            _ => r.unit() * 20.0 - 10.0,
        },
    }
}
/// control polygon: dim*ncp numbers
pub fn geometry(r: &mut Rng, dim: usize, n: usize, st: Style) -> Vec<f64> {
    let mut d: Vec<f64> = (0..dim * n).map(|_| coord(r, st)).collect();
    match r.us(14) {
        0 if n > 1 => {
            // one single point
            for i in dim..dim * n {
                d[i] = d[i % dim];
            }
        }
        1 if n > 1 => {
            // on a line, equally spaced
            for i in 0..n {
                for a in 0..dim {
                    let f = i as f64 / (n - 1) as f64;
                    d[i * dim + a] = if i == 0 { d[a] } else { d[a] + (a as f64 + 1.0) * f };
                }
            }
        }
        2 if n > 1 => {
            // closed
            for a in 0..dim {
                d[(n - 1) * dim + a] = d[a];
            }
        }
        3 if n > 1 => {
            // one axis constant
            let a = r.us(dim);
            for i in 0..n {
                d[i * dim + a] = d[a];
            }
        }
        4 if n == 4 || n == 3 => {
            // lower degree on one axis
            let a = r.us(dim);
            let (x, y) = (d[a], d[(n - 1) * dim + a]);
            if n == 3 {
                d[dim + a] = (x + y) / 2.0;
            } else {
                let c = d[dim + a];
                d[dim + a] = x + (c - x) * 2.0 / 3.0;
                d[2 * dim + a] = y + (c - y) * 2.0 / 3.0;
            }
        }
        5 if n > 1 => {
            // two neighbours coincide
            let i = r.us(n - 1);
            for a in 0..dim {
                d[(i + 1) * dim + a] = d[i * dim + a];
            }
        }
        6 if n > 2 => {
            // both ends are doubled
            for a in 0..dim {
                d[dim + a] = d[a];
                d[(n - 2) * dim + a] = d[(n - 1) * dim + a];
            }
        }
        7 if n > 2 => {
            // one end is repeated
            let k = r.range(2, n - 1);
            let front = r.p(0.5);
            for i in 0..k {
                for a in 0..dim {
                    if front {
                        d[i * dim + a] = d[a];
                    } else {
                        d[(n - 1 - i) * dim + a] = d[(n - 1) * dim + a];
                    }
                }
            }
        }
        8 => {
            // a small figure, possibly far out
            let f = 2f64.powi(-(r.range(1, 60) as i32));
            let o = if r.p(0.5) { 0.0 } else { (r.us(9) as f64 - 4.0) * 0.5 };
            for x in d.iter_mut() {
                *x = *x * f + o;
            }
        }
        9 if n > 1 => {
            // on a line, unevenly and possibly backwards
            for i in 1..n {
                let f = r.unit() * 4.0 - 1.0;
                for a in 0..dim {
                    d[i * dim + a] = d[a] + (a as f64 + 1.0) * f;
                }
            }
        }
        _ => {}
    }
    d
}
/// close to 0 or to 1, at any distance
pub fn edge_t(r: &mut Rng) -> f64 {
    let x = 2f64.powi(-(r.range(4, 60) as i32)) * (1.0 + r.unit());
    if r.p(0.5) {
        x
    } else {
        1.0 - x
    }
}
/// small numbers mostly, now and then one of any size up to `top`
pub fn any_n(r: &mut Rng, nmax: usize, top: usize) -> usize {
    if r.p(0.12) && top > nmax {
        return (nmax as f64 * (top as f64 / nmax as f64).powf(r.unit())) as usize;
    }
    match r.us(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => nmax,
        _ => r.us(nmax) + 1,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kv {
    Clamped,
    Unclamped,
    Start,
    End,
}
/// a valid knot vector whose non-empty spans are at least 1e-3 of its length
pub fn knots(r: &mut Rng, deg: usize, nk: usize, kv: Kv) -> Vec<f64> {
    let c = nk - deg - 1;
    let uniform = r.p(0.3);
    let base = *r.pick(&[0.0, 0.0, -3.0, 1.0, 100.0]);
    let scale = *r.pick(&[1.0, 1.0, 0.125, 10.0]);
    let mut k = vec![0.0; nk];
    let mut x = 0.0;
    for i in 0..nk {
        let front = i > 0 && i <= deg && (kv == Kv::Clamped || kv == Kv::Start);
        let back = i > c && (kv == Kv::Clamped || kv == Kv::End);
        if i > 0 && !front && !back {
            let rep = !uniform && deg > 0 && i > deg + 1 && i < c && r.p(0.25);
            if !rep {
                x += if uniform { 1.0 } else { (1 + r.us(8)) as f64 * 0.25 };
            }
        }
        k[i] = base + scale * x;
    }
    k
}
pub fn valid_kv(r: &mut Rng) -> Kv {
    *r.pick(&[Kv::Clamped, Kv::Clamped, Kv::Unclamped, Kv::Start, Kv::End])
}
pub fn any_t(r: &mut Rng, st: Style) -> f64 {
    if st == Style::Hostile && r.p(0.6) {
        return coord(r, st);
    }
    match r.us(12) {
        0 => 0.0,
        1 => 1.0,
        2 | 3 => 0.5,
        4 => 0.25,
        5 if st == Style::Special => *r.pick(&HOSTILE),
        6 => r.unit() * 4.0 - 1.5,
        7 => edge_t(r),
        _ => r.unit(),
    }
}
pub fn knot_t(r: &mut Rng, c: &Curve, deg: usize, st: Style) -> f64 {
    let n = c.knots.len();
    let (a, b) = (c.knots[deg.min(n - 1)], c.knots[n - 1 - deg.min(n - 1)]);
    match r.us(10) {
        0 => a,
        1 => b,
        2 => c.knots[r.us(n)],
        3 => any_t(r, st),
        4 => a + (b - a) * 0.5,
        5 => a + (b - a) * edge_t(r),
        _ => a + (b - a) * r.unit(),
    }
}
pub fn args(r: &mut Rng, s: &Shape, c: &Curve, m: M, st: Style, nmax: usize) -> Args {
    let t = if s.kind == K::Bsp { knot_t(r, c, s.deg, st) } else { any_t(r, st) };
    let u = match m {
        M::IsLinear | M::IsPoint => *r.pick(&[0.0, 1e-9, 0.5, 1.0, 10.0, 100.0]),
        _ => any_t(r, st),
    };
    let n = match m {
        M::Arclen => any_n(r, nmax, if s.ncp <= 5 { 3000 } else { 200 }),
        M::Axis | M::Dd => {
            let over = r.p(0.1) as usize;
            let n = if s.kind == K::Point { s.ncp } else { s.dim } + over;
            if r.p(0.2) { n - 1 } else { r.us(n) }
        }
        _ => r.us(24),
    };
    let pd = if s.kind == K::Point { s.ncp } else { s.dim };
    let p = if r.p(0.15) && c.data.len() >= pd { c.data[..pd].to_vec() } else { (0..pd).map(|_| coord(r, st)).collect() };
    Args { t, u, n, p }
}
pub fn curve(r: &mut Rng, reg: &[Shape], si: usize, st: Style) -> Curve {
    let s = &reg[si];
    let data = geometry(r, s.dim, s.ncp, st);
    let kn = if s.kind == K::Bsp {
        let kv = valid_kv(r);
        knots(r, s.deg, s.nk, kv)
    } else {
        vec![]
    };
    Curve { shape: si, data, knots: kn }
}
/// a curve that differs from `c` in as little as possible
pub fn variant(r: &mut Rng, reg: &[Shape], c: &Curve) -> Curve {
    let s = &reg[c.shape];
    let mut v = c.clone();
    let n = v.data.len();
    let (dim, ncp) = if s.kind == K::Point { (1, s.ncp) } else { (s.dim, s.ncp) };
    match r.us(24) {
        0 => {
            let i = r.us(n);
            v.data[i] += 1.0;
        }
        1 => v.data[n - 1] = -v.data[n - 1] + 0.5,
        2 => v.data.reverse(),
        3 => {
            let i = r.us(n);
            let j = r.us(n);
            v.data.swap(i, j);
        }
        4 => {
            for x in v.data.iter_mut() {
                *x = -*x
            }
        }
        5 if s.kind == K::Bsp => {
            for x in v.knots.iter_mut() {
                *x += 0.5
            }
        }
        6 if s.kind == K::Bsp => {
            // only the interior of the knot vector differs
            let n = v.knots.len();
            for i in s.deg + 1..n - s.deg - 1 {
                v.knots[i] = (v.knots[i] + v.knots[i - 1]) / 2.0;
            }
        }
        7 if ncp > 2 => {
            // same ends, other interior
            for i in dim..n - dim {
                v.data[i] += 0.75;
            }
        }
        8 => {
            // same bytes, other type
            let o: Vec<usize> = (0..reg.len())
                .filter(|&i| i != c.shape && reg[i].dim * reg[i].ncp == n && (reg[i].kind == K::Bsp) == (s.kind == K::Bsp) && reg[i].nk == s.nk)
                .collect();
            if !o.is_empty() {
                v.shape = *r.pick(&o);
            } else {
                v.data[0] += 1.0;
            }
        }
        9 => {
            let i = r.us(n);
            let b = v.data[i].to_bits();
            v.data[i] = f64::from_bits(if b & 0x7ff0000000000000 == 0x7ff0000000000000 { 0 } else { b ^ 1 });
        }
        10 if dim > 1 => {
            // one point's axes trade places
            let i = r.us(ncp);
            v.data.swap(i * dim, i * dim + 1);
        }
        11 if dim > 1 => {
            for i in 0..ncp {
                v.data.swap(i * dim, i * dim + dim - 1);
            }
        }
        12 if dim > 1 => {
            // some points' axes trade places
            for i in 0..ncp {
                if r.p(0.5) {
                    v.data.swap(i * dim, i * dim + 1);
                }
            }
        }
        13 if ncp > 1 => v.data.rotate_left(dim),
        14 if ncp > 1 => {
            // two points trade places
            let (i, j) = (r.us(ncp), r.us(ncp));
            for a in 0..dim {
                v.data.swap(i * dim + a, j * dim + a);
            }
        }
        15 if ncp > 1 => {
            // the points in reverse order
            for i in 0..ncp / 2 {
                for a in 0..dim {
                    v.data.swap(i * dim + a, (ncp - 1 - i) * dim + a);
                }
            }
        }
        16 if n > 1 => {
            // same sum
            let i = r.us(n);
            let j = (i + 1 + r.us(n - 1)) % n;
            v.data[i] += 1.0;
            v.data[j] -= 1.0;
        }
        17 => {
            // moved as a whole
            for i in 0..n {
                v.data[i] += (i % dim) as f64 + 1.0;
            }
        }
        18 if ncp > 2 => {
            // straightened, ends kept
            for i in 1..ncp - 1 {
                for a in 0..dim {
                    let f = i as f64 / (ncp - 1) as f64;
                    v.data[i * dim + a] = v.data[a] + (v.data[(ncp - 1) * dim + a] - v.data[a]) * f;
                }
            }
        }
        19 if ncp > 2 => {
            // one interior point pulled far out
            let i = 1 + r.us(ncp - 2);
            let a = r.us(dim);
            v.data[i * dim + a] += 40.0;
        }
        20 => {
            for x in v.data.iter_mut() {
                *x *= 2.0
            }
        }
        21 => {
            // only what single precision drops
            let i = r.us(n);
            let b = v.data[i].to_bits();
            if v.data[i].is_finite() {
                v.data[i] = f64::from_bits(b ^ 0x4000);
            }
        }
        22 if s.kind == K::Bsp => {
            for x in v.knots.iter_mut() {
                *x *= 2.0
            }
        }
        _ => {
            let i = r.us(n);
            v.data[i] = v.data[i] * 2.0 + 1.0;
        }
    }
    v
}

#[derive(Clone, Debug)]
pub struct Call {
    pub curve: usize,
    pub m: M,
    pub a: Args,
}
pub struct World {
    pub curves: Vec<Curve>,
    pub calls: Vec<Call>,
    pub style: Style,
}
pub struct WorldCfg {
    pub fams: &'static [u8],
    pub ncurves: usize,
    pub ncalls: usize,
    pub nmax: usize,
    pub styles: &'static [Style],
    pub max_bbs: u64,
    pub editable: bool,
}
/// the largest ones take their time: they come less often
fn pick_small(r: &mut Rng, reg: &[Shape], o: &[usize]) -> usize {
    let i = *r.pick(o);
    if reg[i].ncp > 60 && r.p(0.6) { *r.pick(o) } else { i }
}
pub fn pick_shape(r: &mut Rng, reg: &[Shape], fams: &[u8], ok: &dyn Fn(&Shape) -> bool) -> usize {
    // every kind of type equally often, then any of its sizes
    let kinds = [K::Point, K::Line, K::Quad, K::Cubic, K::Seg, K::Bez, K::Bez, K::Bsp, K::Bsp, K::Bsp];
    for _ in 0..200 {
        let k = *r.pick(&kinds);
        let f = *r.pick(fams);
        let o: Vec<usize> = (0..reg.len()).filter(|&i| reg[i].kind == k && reg[i].fam == f && ok(&reg[i])).collect();
        if !o.is_empty() {
            return pick_small(r, reg, &o);
        }
    }
    (0..reg.len()).find(|&i| ok(&reg[i])).unwrap()
}
pub fn perturb(r: &mut Rng, a: &Args) -> Args {
    let mut b = a.clone();
    match r.us(11) {
        0 => b.t = f64::from_bits(b.t.to_bits() ^ 1),
        1 => b.t = 1.0 - b.t,
        2 => b.n += 1,
        3 => {
            let i = r.us(b.p.len());
            b.p[i] += 1.0
        }
        4 => b.u = b.t,
        5 => b.t += 1e-7,
        6 => b.t = b.t as f32 as f64,
        7 => b.t = r.unit(),
        8 => {
            b.n = r.us(9);
            b.u = *r.pick(&[0.0, 1e-9, 0.5, 1.0, 10.0, 100.0]);
        }
        9 => b.p.reverse(),
        _ => b.t = if r.p(0.5) { 0.0 } else { 1.0 },
    }
    if b.n > 64 {
        b.n = 3
    }
    b
}
/// every kind of curve with each of its methods
pub fn pairs(reg: &[Shape], fams: &[u8], editable: bool) -> Vec<(K, M)> {
    let mut v: Vec<(K, M)> = vec![];
    for s in reg.iter().filter(|s| fams.contains(&s.fam) && (!editable || s.editable)) {
        for m in s.methods {
            if !v.contains(&(s.kind, *m)) {
                v.push((s.kind, *m))
            }
        }
    }
    v.sort_by_key(|x| simrt::rng::mix((x.0 as u64) << 8 | x.1 as u64));
    v
}
/// World number `wi`: its first call is of the wi-th kind of call there is, on its first curve.
pub fn world(cx: &mut Ctx, r: &mut Rng, cfg: &WorldCfg, wi: usize) -> World {
    let style = *r.pick(cfg.styles);
    let ps = pairs(&cx.reg, cfg.fams, cfg.editable);
    let (hk, hm) = ps[wi % ps.len()];
    let fits = |s: &Shape| !cfg.editable || s.editable;
    let mut curves: Vec<Curve> = vec![];
    let mut calls: Vec<Call> = vec![];
    let predicate = matches!(hm, M::IsLinear | M::IsPoint);
    // predicates are false of most figures: see to it that they are often true of the first one
    let truth = predicate && r.p(0.6);
    for tries in 0..if truth { 40 } else { 8 } {
        let f = *r.pick(cfg.fams);
        let o: Vec<usize> = (0..cx.reg.len()).filter(|&i| cx.reg[i].kind == hk && (cx.reg[i].fam == f || tries > 4) && cfg.fams.contains(&cx.reg[i].fam) && fits(&cx.reg[i]) && cx.reg[i].methods.contains(&hm)).collect();
        if o.is_empty() {
            continue;
        }
        let si = pick_small(r, &cx.reg, &o);
        let c = curve(r, &cx.reg, si, style);
        let a = args(r, &cx.reg[si], &c, hm, style, cfg.nmax);
        let b = cx.base(&c, hm, &a);
        if !b.ok || b.out.tag == T_NONE || b.bbs > cfg.max_bbs || (b.out.tag != T_VAL && tries < 3) {
            continue;
        }
        if truth && tries < 32 && (b.out.w.last() != Some(&1) || a.u > 0.5) {
            continue;
        }
        curves.push(c);
        calls.push(Call { curve: 0, m: hm, a });
        break;
    }
    if r.p(0.5) || curves.is_empty() {
        let si = pick_shape(r, &cx.reg, cfg.fams, &fits);
        curves.push(curve(r, &cx.reg, si, style));
    }
    while curves.len() < cfg.ncurves {
        let k = if r.p(0.6) { 0 } else { r.us(curves.len()) };
        let mut v = variant(r, &cx.reg, &curves[k].clone());
        if predicate && k == 0 && !calls.is_empty() && r.p(0.5) {
            // one of which the first call is not true, or not false
            for _ in 0..5 {
                if v.shape == curves[0].shape && cx.base(&v, hm, &calls[0].a).out.w != cx.base(&curves[0], hm, &calls[0].a).out.w {
                    break;
                }
                v = variant(r, &cx.reg, &curves[0].clone());
            }
        }
        if cfg.fams.contains(&cx.reg[v.shape].fam) && fits(&cx.reg[v.shape]) {
            curves.push(v);
        } else {
            let si = pick_shape(r, &cx.reg, cfg.fams, &fits);
            curves.push(curve(r, &cx.reg, si, style));
        }
    }
    let mut tries = 0;
    while calls.len() < cfg.ncalls && tries < cfg.ncalls * 6 {
        tries += 1;
        let c = if !calls.is_empty() && r.p(0.7) {
            // the same call on another curve, or nearly the same call on the same curve
            let b = if r.p(0.6) { calls[0].clone() } else { r.pick(&calls).clone() };
            let k = r.us(curves.len());
            if r.p(0.6) && cx.reg[curves[k].shape].methods.contains(&b.m) && cx.reg[curves[k].shape].dim == cx.reg[curves[b.curve].shape].dim {
                let s = &cx.reg[curves[k].shape];
                let want = if s.kind == K::Point { s.ncp } else { s.dim };
                if want != b.a.p.len() {
                    continue;
                }
                Call { curve: k, m: b.m, a: b.a }
            } else {
                Call { curve: b.curve, m: b.m, a: perturb(r, &b.a) }
            }
        } else {
            let k = r.us(curves.len());
            let s = &cx.reg[curves[k].shape];
            let m = *r.pick(s.methods);
            if m == M::Dist && s.kind != K::Line && r.p(0.6) {
                continue;
            }
            Call { curve: k, m, a: args(r, s, &curves[k], m, style, cfg.nmax) }
        };
        let b = cx.base(&curves[c.curve], c.m, &c.a);
        if !b.ok || b.out.tag == T_NONE || b.bbs > cfg.max_bbs {
            continue;
        }
        calls.push(c);
    }
    if calls.is_empty() {
        let k = 0;
        let m = cx.reg[curves[k].shape].methods[0];
        let a = args(r, &cx.reg[curves[k].shape], &curves[k], m, Style::Nice, 3);
        calls.push(Call { curve: k, m, a });
    }
    World { curves, calls, style }
}

/// A basic block of the call at which something is to happen (1-based offset): shared-state accesses first, then the
/// library's own rarely executed blocks, then anything.
pub fn pick_bb(cx: &Ctx, r: &mut Rng, b: &Base) -> u64 {
    let n = b.trace.len();
    if n == 0 {
        return 1 + r.below(b.bbs.max(1));
    }
    let x = r.unit();
    if x < 0.35 {
        let v: Vec<usize> = (0..n).filter(|&i| cx.cls[b.trace[i] as usize] == elf::ATOMIC).collect();
        if !v.is_empty() {
            let i = *r.pick(&v) as i64 + *r.pick(&[0i64, 1, 1, 2, 3, -1]);
            return (i.max(0) + 1) as u64;
        }
    }
    if x < 0.65 {
        // a distinct library block, each equally likely, then one of its occurrences
        let mut ids: Vec<u32> = b.trace.iter().copied().filter(|&g| cx.cls[g as usize] == elf::LIB).collect();
        ids.sort_unstable();
        ids.dedup();
        if !ids.is_empty() {
            let g = *r.pick(&ids);
            let v: Vec<usize> = (0..n).filter(|&i| b.trace[i] == g).collect();
            return *r.pick(&v) as u64 + 1;
        }
    }
    1 + r.below(b.bbs.max(1))
}
/// An operator call of the call: every kind of operator equally likely.
pub fn pick_op(r: &mut Rng, b: &Base, ok: &dyn Fn(u8) -> bool) -> Option<u64> {
    let mut ks: Vec<u8> = b.optrace.iter().copied().filter(|k| ok(*k)).collect();
    if ks.is_empty() {
        return None;
    }
    if r.p(0.4) {
        let v: Vec<usize> = (0..b.optrace.len()).filter(|&i| ok(b.optrace[i])).collect();
        return Some(*r.pick(&v) as u64);
    }
    ks.sort_unstable();
    ks.dedup();
    let k = *r.pick(&ks);
    let v: Vec<usize> = (0..b.optrace.len()).filter(|&i| b.optrace[i] == k).collect();
    Some(*r.pick(&v) as u64)
}
pub const ALL_FAMS: &[u8] = &[FAM_F64, FAM_F64, FAM_SP, FAM_PS];
