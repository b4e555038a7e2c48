//! Delta debugging of a violating plan: keeps the class of the violation, drops everything it does not need.
use crate::exec::*;
use crate::plan::*;
use crate::props::*;
use std::time::{Duration, Instant};

struct Min<'a> {
    cx: &'a mut Ctx,
    class: String,
    until: Instant,
    best: Plan,
    msg: String,
    pub tried: u64,
}
impl<'a> Min<'a> {
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    fn keep(&mut self, q: Plan) -> bool {
        if q == self.best || self.late() {
            return false;
        }
        self.tried += 1;
        match judge(self.cx, &q) {
            Ok(Some(v)) if v.class == self.class => {
                self.best = q;
                self.msg = v.msg;
                true
            }
            _ => false,
        }
    }
    /// removes chunks of the list `len` long; `cut(plan, lo, hi)` is the plan without [lo, hi)
    fn chunks(&mut self, len: fn(&Plan) -> usize, cut: &dyn Fn(&Plan, usize, usize) -> Option<Plan>) {
        let mut n = len(&self.best);
        while n >= 1 && !self.late() {
            let mut i = 0;
            while i < len(&self.best) && !self.late() {
                let j = (i + n).min(len(&self.best));
                let hit = match cut(&self.best, i, j) {
                    Some(q) => self.keep(q),
                    None => false,
                };
                if !hit {
                    i = j;
                }
            }
            n /= 2;
        }
    }
}
/// all steps of all tasks as one list
fn nsteps(p: &Plan) -> usize {
    p.tasks.iter().map(|t| t.len()).sum()
}
fn cut_steps(p: &Plan, lo: usize, hi: usize) -> Option<Plan> {
    let mut q = p.clone();
    let mut k = 0;
    let mut map: Vec<Vec<Option<u32>>> = vec![];
    for t in q.tasks.iter_mut() {
        let mut keep = vec![];
        let mut m = vec![];
        for s in t.drain(..) {
            if k >= lo && k < hi {
                m.push(None);
            } else {
                m.push(Some(keep.len() as u32));
                keep.push(s);
            }
            k += 1;
        }
        *t = keep;
        map.push(m);
    }
    q.evs.retain_mut(|e| {
        if e.step >= simrt::NEST_STEP {
            return true;
        }
        match map.get(e.task as usize).and_then(|m| m.get(e.step as usize)) {
            Some(Some(n)) => {
                e.step = *n;
                true
            }
            _ => false,
        }
    });
    Some(q)
}
pub fn minimize(cx: &mut Ctx, p: &Plan, v: &Viol, secs: u64) -> (Plan, String, u64) {
    let mut m = Min { cx, class: v.class.clone(), until: Instant::now() + Duration::from_secs(secs), best: p.clone(), msg: v.msg.clone(), tried: 0 };
    for _ in 0..3 {
        let before = m.best.clone();
        m.chunks(|p| p.evs.len(), &|p, a, b| {
            let mut q = p.clone();
            q.evs.drain(a..b);
            Some(q)
        });
        m.chunks(nsteps, &cut_steps);
        m.chunks(|p| p.extra.len(), &|p, a, b| {
            let mut q = p.clone();
            q.extra.drain(a..b);
            Some(q)
        });
        // repetitions
        for t in 0..m.best.tasks.len() {
            for s in 0..m.best.tasks[t].len() {
                loop {
                    let mut q = m.best.clone();
                    let go = match &mut q.tasks[t][s] {
                        Step::Call { rep, .. } if *rep > 1 => {
                            *rep /= 2;
                            true
                        }
                        _ => false,
                    };
                    if !go || !m.keep(q) {
                        break;
                    }
                }
            }
        }
        // writes of edits
        for t in 0..m.best.tasks.len() {
            for s in 0..m.best.tasks[t].len() {
                if let Step::Edit { w, .. } = &m.best.tasks[t][s] {
                    for i in (0..w.len()).rev() {
                        let mut q = m.best.clone();
                        if let Step::Edit { w, .. } = &mut q.tasks[t][s] {
                            w.remove(i);
                        }
                        m.keep(q);
                    }
                }
            }
        }
        // knowledge of curves nobody uses is cut by emptying nothing: sharing-check plans list curves only
        if m.best.tasks.is_empty() && m.best.extra.is_empty() {
            m.chunks(|p| p.curves.len(), &|p, a, b| {
                let mut q = p.clone();
                q.curves.drain(a..b);
                Some(q)
            });
        }
        if m.best == before || m.late() {
            break;
        }
    }
    // drop empty tasks and unused curves (renumbering), if the violation survives that
    let mut q = m.best.clone();
    let used: Vec<usize> = (0..q.tasks.len()).filter(|&t| !q.tasks[t].is_empty()).collect();
    if !used.is_empty() && used.len() < q.tasks.len() {
        let pos = |t: usize| used.iter().position(|&x| x == t);
        q.evs.retain(|e| e.step >= simrt::NEST_STEP || pos(e.task as usize).is_some());
        for e in q.evs.iter_mut() {
            if e.step < simrt::NEST_STEP {
                e.task = pos(e.task as usize).unwrap() as u8;
            }
            if let simrt::Act::Switch(j) = &mut e.act {
                *j = pos(*j as usize).map(|x| x as u8).unwrap_or(255);
            }
        }
        q.tasks = used.iter().map(|&t| q.tasks[t].clone()).collect();
        m.keep(q);
    }
    (m.best, m.msg, m.tried)
}
