//! Minimises a failing plan: fewer steps, fewer non-default decisions, same violated rule.

use crate::app::{run_here, RunResult};
use crate::oracle::{judge, Viol};
use crate::plan::*;
use std::time::{Duration, Instant};

/// One run on a thread of its own.
pub fn run(plan: &Plan) -> RunResult {
    let p = plan.clone();
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || run_here(p))
        .expect("thread")
        .join()
        .expect("simulator panicked")
}

/// The first violation of that property and rule ("" : any rule).
pub fn fails(plan: &Plan, prop: usize, rule: &str) -> Option<(RunResult, Viol)> {
    let r = run(plan);
    let rep = judge(&r);
    let v = rep.viol.into_iter().find(|v| v.prop == prop && (rule.is_empty() || v.rule == rule))?;
    Some((r, v))
}

fn ddmin<T: Clone>(items: Vec<T>, deadline: Instant, mut test: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = items;
    if cur.is_empty() {
        return cur;
    }
    if test(&[]) {
        return vec![];
    }
    let mut n = 2usize;
    while cur.len() >= 2 && Instant::now() < deadline {
        let size = cur.len().div_ceil(n);
        let mut reduced = false;
        let mut k = 0;
        while k < cur.len() {
            if Instant::now() >= deadline {
                return cur;
            }
            let hi = (k + size).min(cur.len());
            let mut cand = cur[..k].to_vec();
            cand.extend_from_slice(&cur[hi..]);
            if !cand.is_empty() && test(&cand) {
                cur = cand;
                reduced = true;
            } else {
                k = hi;
            }
        }
        if reduced {
            n = n.saturating_sub(1).max(2).min(cur.len().max(1));
        } else if size == 1 {
            break;
        } else {
            n = (n * 2).min(cur.len());
        }
    }
    cur
}

pub struct Shrunk {
    pub plan: Plan,
    pub result: RunResult,
    pub viol: Viol,
    pub steps_before: usize,
    pub choices_before: usize,
}

pub fn shrink(r: &RunResult, v: &Viol, budget: Duration) -> Option<Shrunk> {
    let deadline = Instant::now() + budget;
    let mut plan = r.plan.clone();
    plan.explicit = Some(r.taken.clone());
    let (steps_before, choices_before) = (plan.steps.len(), r.taken.len());
    fails(&plan, v.prop, v.rule)?;
    let ok = |p: &Plan| fails(p, v.prop, v.rule).is_some();
    for round in 0..2 {
        // no scheduling disturbance at all, no network disturbance at all
        for s in [0u8, 3, 1, 2] {
            let mut p = plan.clone();
            let e = p.explicit.as_mut().unwrap();
            let n = e.len();
            e.retain(|c| c.s != s);
            if e.len() < n && ok(&p) {
                plan = p;
            }
        }
        let base = plan.clone();
        plan.steps = ddmin(plan.steps.clone(), deadline, |s| {
            let mut p = base.clone();
            p.steps = s.to_vec();
            ok(&p)
        });
        let base = plan.clone();
        plan.explicit = Some(ddmin(plan.explicit.clone().unwrap(), deadline, |c| {
            let mut p = base.clone();
            p.explicit = Some(c.to_vec());
            ok(&p)
        }));
        if Instant::now() >= deadline || round == 1 {
            break;
        }
    }
    // only the rates matter no more: an explicit plan draws nothing
    plan.rates = Rates::default();
    if !ok(&plan) {
        plan.rates = r.plan.rates.clone();
    }
    let (result, viol) = fails(&plan, v.prop, v.rule)?;
    Some(Shrunk {
        plan,
        result,
        viol,
        steps_before,
        choices_before,
    })
}
