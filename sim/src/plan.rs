//! A run, written out: values, calls, schedule and faults. The plan is what is executed, minimised and replayed.
use crate::shapes::*;
use simrt::{Act, At, Ev};

#[derive(Clone, Debug, PartialEq)]
pub struct Curve {
    pub shape: usize,
    pub data: Vec<f64>,
    pub knots: Vec<f64>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// `how` it is made: 0 plainly, 1 from a destructor while a panic unwinds, 2 from a destructor of a thread's own
    /// data at the end of a thread that has made the call before, 3 from a new thread, 4 and up from further down the stack
    Call { curve: usize, m: M, a: Args, rep: u32, noise: Option<(u32, u64)>, how: u8 },
    Edit { curve: usize, mode: u8, w: Vec<Write1> },
    Copy { from: usize, to: usize },
    /// as Copy, but into the memory of the curve that is replaced
    Put { from: usize, to: usize },
    Observe { curve: usize },
    Yield { to: u8 },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub mode: u32,
    pub env: u64,
    pub curves: Vec<Curve>,
    pub tasks: Vec<Vec<Step>>,
    pub nests: Vec<Step>,
    pub evs: Vec<Ev>,
    pub extra: Vec<[u64; 4]>,
}
impl Plan {
    pub fn new(prop: &str, seed: u64, index: u64) -> Plan {
        Plan { prop: prop.into(), seed, index, mode: 0, env: 0, curves: vec![], tasks: vec![], nests: vec![], evs: vec![], extra: vec![] }
    }
    pub fn size(&self) -> usize {
        self.tasks.iter().map(|t| t.len()).sum::<usize>() + self.nests.len() + self.evs.len() + self.extra.len()
    }
}

fn fl(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn fls(v: &[f64]) -> String {
    if v.is_empty() {
        "-".into()
    } else {
        v.iter().map(|x| fl(*x)).collect::<Vec<_>>().join(",")
    }
}
fn pf(s: &str) -> Option<f64> {
    u64::from_str_radix(s, 16).ok().map(f64::from_bits)
}
fn pfs(s: &str) -> Option<Vec<f64>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',').map(pf).collect()
}
fn step_text(s: &Step) -> String {
    match s {
        Step::Call { curve, m, a, rep, noise, how } => {
            let nz = noise.map(|(p, s)| format!("{}:{:x}", p, s)).unwrap_or("-".into());
            format!("call {} {} {} {} {} {} {} {} {}", curve, mname(*m), fl(a.t), fl(a.u), a.n, fls(&a.p), rep, nz, how)
        }
        Step::Edit { curve, mode, w } => {
            let ws: Vec<String> = w.iter().map(|x| format!("{}:{}:{}", x.i, x.axis, fls(&x.v))).collect();
            format!("edit {} {} {}", curve, mode, if ws.is_empty() { "-".into() } else { ws.join(";") })
        }
        Step::Copy { from, to } => format!("copy {} {}", from, to),
        Step::Put { from, to } => format!("put {} {}", from, to),
        Step::Observe { curve } => format!("observe {}", curve),
        Step::Yield { to } => format!("yield {}", to),
    }
}
fn step_parse(f: &[&str]) -> Option<Step> {
    let u = |i: usize| f.get(i).and_then(|x| x.parse::<usize>().ok());
    Some(match *f.first()? {
        "call" => {
            let nz = *f.get(8)?;
            Step::Call {
                curve: u(1)?,
                m: mparse(f.get(2)?)?,
                a: Args { t: pf(f.get(3)?)?, u: pf(f.get(4)?)?, n: u(5)?, p: pfs(f.get(6)?)? },
                rep: u(7)? as u32,
                noise: if nz == "-" {
                    None
                } else {
                    let (a, b) = nz.split_once(':')?;
                    Some((a.parse().ok()?, u64::from_str_radix(b, 16).ok()?))
                },
                how: u(9).unwrap_or(0) as u8,
            }
        }
        "edit" => {
            let mut w = vec![];
            if *f.get(3)? != "-" {
                for x in f.get(3)?.split(';') {
                    let p: Vec<&str> = x.split(':').collect();
                    w.push(Write1 { i: p.first()?.parse().ok()?, axis: p.get(1)?.parse().ok()?, v: pfs(p.get(2)?)? });
                }
            }
            Step::Edit { curve: u(1)?, mode: u(2)? as u8, w }
        }
        "copy" => Step::Copy { from: u(1)?, to: u(2)? },
        "put" => Step::Put { from: u(1)?, to: u(2)? },
        "observe" => Step::Observe { curve: u(1)? },
        "yield" => Step::Yield { to: u(1)? as u8 },
        _ => return None,
    })
}
fn act_text(a: &Act) -> String {
    match a {
        Act::Switch(j) => format!("switch {}", j),
        Act::Stall => "stall 0".into(),
        Act::Crash(i) => format!("crash {}", i),
        Act::Nest(k) => format!("nest {}", k),
        Act::Nan => "nan 0".into(),
        Act::Bits(b) => format!("bits {:x}", b),
        Act::Axis(a, b) => format!("axis {}:{:x}", a, b),
        Act::Lie => "lie 0".into(),
    }
}
fn act_parse(k: &str, v: &str) -> Option<Act> {
    Some(match k {
        "switch" => Act::Switch(v.parse().ok()?),
        "stall" => Act::Stall,
        "crash" => Act::Crash(v.parse().ok()?),
        "nest" => Act::Nest(v.parse().ok()?),
        "nan" => Act::Nan,
        "bits" => Act::Bits(u64::from_str_radix(v, 16).ok()?),
        "axis" => {
            let (a, b) = v.split_once(':')?;
            Act::Axis(a.parse().ok()?, u64::from_str_radix(b, 16).ok()?)
        }
        "lie" => Act::Lie,
        _ => return None,
    })
}

pub fn to_text(p: &Plan, reg: &[Shape]) -> String {
    let mut o = String::new();
    o += &format!("strokesim-plan 1\nproperty {}\nseed {} index {}\nmode {}\nenv {:x}\n", p.prop, p.seed, p.index, p.mode, p.env);
    for c in &p.curves {
        o += &format!("curve {} {} {}\n", reg[c.shape].name, fls(&c.data), fls(&c.knots));
    }
    for (i, t) in p.tasks.iter().enumerate() {
        o += &format!("task {}\n", i);
        for s in t {
            o += &format!("  {}\n", step_text(s));
        }
    }
    for s in &p.nests {
        o += &format!("nest {}\n", step_text(s));
    }
    for e in &p.evs {
        let (k, n) = match e.at {
            At::Bb(n) => ("bb", n),
            At::Op(n) => ("op", n),
        };
        o += &format!("event task {} step {} {} {} {}\n", e.task, e.step, k, n, act_text(&e.act));
    }
    for x in &p.extra {
        o += &format!("x {:x} {:x} {:x} {:x}\n", x[0], x[1], x[2], x[3]);
    }
    o
}
pub fn from_text(t: &str, reg: &[Shape]) -> Option<Plan> {
    let mut p = Plan::new("", 0, 0);
    for l in t.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.is_empty() || f[0].starts_with('#') || f[0] == "strokesim-plan" {
            continue;
        }
        match f[0] {
            "property" => p.prop = f[1].into(),
            "seed" => {
                p.seed = f[1].parse().ok()?;
                p.index = f[3].parse().ok()?;
            }
            "mode" => p.mode = f[1].parse().ok()?,
            "env" => p.env = u64::from_str_radix(f[1], 16).ok()?,
            "curve" => p.curves.push(Curve { shape: reg.iter().position(|s| s.name == f[1])?, data: pfs(f[2])?, knots: pfs(f[3])? }),
            "task" => p.tasks.push(vec![]),
            "nest" => p.nests.push(step_parse(&f[1..])?),
            "event" => {
                let n = f[6].parse().ok()?;
                p.evs.push(Ev {
                    task: f[2].parse().ok()?,
                    step: f[4].parse().ok()?,
                    at: if f[5] == "bb" { At::Bb(n) } else { At::Op(n) },
                    act: act_parse(f[7], f[8])?,
                });
            }
            "x" => {
                let mut a = [0; 4];
                for i in 0..4 {
                    a[i] = u64::from_str_radix(f[1 + i], 16).ok()?;
                }
                p.extra.push(a);
            }
            _ => p.tasks.last_mut()?.push(step_parse(&f)?),
        }
    }
    Some(p)
}
