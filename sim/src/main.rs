#![feature(generic_const_exprs)]
#![allow(incomplete_features, static_mut_refs, dead_code)]
//! strokesim: deterministic simulation of callers of the stroke library, with fault injection.
//!   strokesim check --prop C01 --tier quick [--seed n] [--runs n] [--workers n] [--cap secs]
//!   strokesim replay FILE
//!   strokesim hashes --prop C01 --runs n --workers n      (determinism self-test)
mod c09;
mod c10;
mod c11;
mod c17;
mod c18;
mod c19;
mod exec;
mod gen;
mod measure;
mod minimize;
mod plan;
mod props;
mod report;
mod scalar;
mod shapes;

use exec::*;
use props::*;
use simrt::sys;
use std::time::Instant;

#[global_allocator]
static A: simrt::Alloc = simrt::Alloc;

const HCAP: usize = 1 << 19;

/// What a worker process tells its parent (shared memory).
#[repr(C)]
pub struct Slot {
    pub done: u64,
    pub nontrivial: u64,
    pub nhash: u64,
    pub viol: u64, // index + 1 of the lowest violating run
    pub known: u64,
    pub err_len: u64,
    pub err: [u8; 400],
    pub baselines: u64,
    pub at: u64, // run in progress
    pub ncls: [u64; 4], // guards: all, library, atomics
    pub sched: [u64; HCAP],
    pub trace: [u64; HCAP],
}

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"];

fn runs_for(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C01" => 80_000,
        "C02" => 40_000,
        "C03" => 72_000,
        "C04" => 80_000,
        "C05" => 96_000,
        "C06" => 16_000,
        "C07" => 16_000,
        "C08" => 64_000,
        "C09" => 60_000,
        "C10" => 48_000,
        "C11" => 32_000,
        "C12" => 50_000,
        "C13" => 36_000,
        "C14" => 22_000,
        "C15" => 60_000,
        "C16" => 44_000,
        "C17" => 60_000,
        "C18" => 24_000,
        _ => 120_000,
    };
    if thorough {
        q * 30
    } else {
        q
    }
}

/// faults or interleaving points that actually happened, so far
fn happened(prop: &str) -> u64 {
    unsafe {
        let s = &(*simrt::SH).st;
        let mut n = s[simrt::ST_SWITCH] + s[simrt::ST_FAIRSWITCH] + s[simrt::ST_STALL] + s[simrt::ST_CRASH] + s[simrt::ST_NEST] + s[simrt::ST_NAN]
            + s[simrt::ST_BITS] + s[simrt::ST_AXIS] + s[simrt::ST_LIE] + s[simrt::ST_NOISE];
        match prop {
            "C02" | "C06" => n += s[U_CALLS],
            "C07" => n += s[U_HOSTILE],
            "C08" => n += s[U_EDITS] + s[U_COPIES],
            "C09" => n += s[U_CORRUPT] + s[U_POINT_OK],
            "C10" | "C17" => n += s[U_CORRUPT],
            "C18" => n += s[U_CORRUPT] + s[U_HOSTILE],
            "C19" => n += s[U_CALLS],
            "C11" | "C12" | "C13" | "C14" | "C15" | "C16" => n += s[U_LOST] + s[U_DUP] + s[U_DELAY] + s[U_WCRASH],
            _ => {}
        }
        n
    }
}

#[derive(Clone)]
struct Cfg {
    prop: String,
    tier: String,
    seed: u64,
    runs: u64,
    workers: usize,
    cap: u64,
    known: Vec<report::Known>,
}

fn worker(c: &Cfg, g: (&'static [u8], &'static [u32]), w: usize, slots: &[*mut Slot], t0: Instant) {
    unsafe {
        let me = &mut *slots[w];
        let mut cx = Ctx::new(g);
        cx.tier_thorough = c.tier == "thorough";
        me.ncls = [cx.cls.len() as u64, cx.cls.iter().filter(|x| **x == simrt::elf::LIB).count() as u64, cx.cls.iter().filter(|x| **x == simrt::elf::ATOMIC).count() as u64, 0];
        // runs that share a world stay together
        let wr = props::world_runs(&c.prop);
        let mut k = 0u64;
        loop {
            let i = (k / wr * c.workers as u64 + w as u64) * wr + k % wr;
            k += 1;
            if i / wr * wr >= c.runs {
                break;
            }
            if i >= c.runs {
                continue;
            }
            let best = slots.iter().map(|s| std::ptr::read_volatile(&(**s).viol)).filter(|v| *v > 0).min().unwrap_or(u64::MAX);
            if i + 1 > best || t0.elapsed().as_secs() >= c.cap {
                break;
            }
            std::ptr::write_volatile(&mut me.at, i);
            let h0 = happened(&c.prop);
            let p = props::gen(&mut cx, &c.prop, c.seed, i);
            let r = props::judge(&mut cx, &p);
            me.done += 1;
            me.baselines = cx.baselines;
            if happened(&c.prop) > h0 && (me.nhash as usize) < HCAP {
                me.sched[me.nhash as usize] = exec::LAST.0;
                me.trace[me.nhash as usize] = exec::LAST.1;
                me.nhash += 1;
            }
            match r {
                Ok(None) => {}
                Ok(Some(v)) => {
                    if c.known.iter().any(|k| k.matches(&c.prop, &v)) {
                        me.known += 1;
                    } else {
                        if std::env::var_os("SIM_DEBUG").is_some() {
                            eprintln!("run {}: {}: {}", i, v.class, v.msg);
                        }
                        std::ptr::write_volatile(&mut me.viol, i + 1);
                        break;
                    }
                }
                Err(e) => {
                    let e = format!("run {}: {}", i, e);
                    let n = e.len().min(400);
                    me.err[..n].copy_from_slice(&e.as_bytes()[..n]);
                    me.err_len = n as u64;
                    break;
                }
            }
        }
    }
}

/// Runs the workers; returns their slots and statistics.
fn explore(c: &Cfg) -> (Vec<*mut Slot>, Vec<*mut simrt::Shared>, Vec<*mut u8>, Instant) {
    let t0 = Instant::now();
    let mut slots = vec![];
    for _ in 0..c.workers {
        slots.push(sys::shared(std::mem::size_of::<Slot>()) as *mut Slot);
    }
    let cpus = sys::cpus();
    let g = simrt::elf::classify();
    let mut pids = vec![];
    let mut shs = vec![];
    let mut covs = vec![];
    for w in 0..c.workers {
        exec::init();
        unsafe {
            shs.push(simrt::SH);
            covs.push(simrt::COV);
        }
        let cpu = cpus[w % cpus.len()];
        pids.push(sys::spawn_process(&mut || {
            sys::pin(cpu);
            worker(c, g, w, &slots, t0);
        }));
    }
    for (w, p) in pids.into_iter().enumerate() {
        let how = match sys::wait(p) {
            sys::Exit::Code(0) => continue,
            sys::Exit::Code(c) => format!("with code {c}"),
            sys::Exit::Signal(s) => format!("of signal {s}"),
        };
        {
            unsafe {
                if (*slots[w]).err_len == 0 {
                    let e = format!("worker process died {how} in run {}", (*slots[w]).at).into_bytes();
                    (&mut (*slots[w]).err)[..e.len()].copy_from_slice(&e);
                    (*slots[w]).err_len = e.len() as u64;
                }
            }
        }
    }
    (slots, shs, covs, t0)
}

fn main() {
    sys::no_aslr();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str| opt(n).and_then(|x| x.parse::<u64>().ok());
    let env = |n: &str| std::env::var(n).ok();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let Some(t) = a.get(2).and_then(|f| std::fs::read_to_string(f).ok()) else {
                eprintln!("cannot read the replay file");
                std::process::exit(2)
            };
            std::process::exit(report::replay(&t));
        }
        Some(cmd @ ("check" | "hashes" | "show")) => {
            let prop = opt("--prop").unwrap_or_default();
            if !PROPS.contains(&prop.as_str()) {
                eprintln!("--prop must be one of {:?}", PROPS);
                std::process::exit(2);
            }
            let tier = opt("--tier").or(env("VERIF_TIER")).unwrap_or("quick".into());
            let seed = num("--seed").or(env("VERIF_SEED").and_then(|x| x.parse().ok())).unwrap_or(1);
            let thorough = tier == "thorough";
            if cmd == "show" {
                exec::init();
                let mut cx = Ctx::new(simrt::elf::classify());
                let p = props::gen(&mut cx, &prop, seed, num("--index").unwrap_or(1));
                print!("{}", plan::to_text(&p, &cx.reg));
                println!("# {:?}", props::judge(&mut cx, &p));
                return;
            }
            let c = Cfg {
                runs: num("--runs").unwrap_or(runs_for(&prop, thorough)),
                workers: num("--workers").unwrap_or(sys::cpus().len().min(16) as u64) as usize,
                cap: num("--cap").unwrap_or(if thorough { 800 } else { 150 }),
                known: report::known(),
                prop,
                tier,
                seed,
            };
            let (slots, shs, covs, t0) = explore(&c);
            if cmd == "hashes" {
                // every run's hash, in the order of the run numbers
                unsafe {
                    let mut v: Vec<u64> = slots.iter().flat_map(|s| (&(**s).trace)[..(**s).nhash as usize].iter().map(|x| *x).collect::<Vec<_>>()).collect();
                    v.sort_unstable();
                    let h = v.iter().fold(0u64, |h, x| simrt::rng::mix(h ^ x));
                    println!("{} runs {} nontrivial {:016x}", slots.iter().map(|s| (**s).done).sum::<u64>(), v.len(), h);
                }
                return;
            }
            std::process::exit(report::finish(&c.prop, &c.tier, c.seed, c.runs, c.cap, &c.known, slots, shs, covs, t0));
        }
        _ => {
            eprintln!("usage: strokesim check --prop Cxx | replay FILE | hashes --prop Cxx | show --prop Cxx --index n");
            std::process::exit(2);
        }
    }
}
