//! Minimisation: greedy reduction of a violating plan, every step confirmed by a simulated run.
use crate::check::{self, Verdict};
use crate::exec::{self, Run};
use crate::kernel::Worker;
use crate::plan::*;
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// the kind of a violation: its text without names and numbers
pub fn kind(s: &str) -> String {
    let mut out: Vec<String> = vec![];
    for w in s.split_whitespace() {
        if w.contains('/') || w.contains('"') || w.contains('`') || w.chars().any(|c| c.is_ascii_digit()) || w.starts_with('(') {
            continue;
        }
        out.push(w.to_string());
        if out.len() == 7 {
            break;
        }
    }
    out.join(" ")
}
pub fn attempt(w: &mut Worker, p: &Plan, k: &str) -> Option<(Run, Verdict)> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let run = exec::run(w, p);
        let v = check::check(p, &run);
        (run, v)
    }))
    .ok()?;
    // programs are different, and not empty
    let m = &r.0.models;
    if m.iter().enumerate().any(|(i, x)| x.toks.is_empty() || m[..i].iter().any(|y| y.toks == x.toks)) {
        return None;
    }
    if r.1.viol.iter().any(|x| kind(x) == k) {
        Some(r)
    } else {
        None
    }
}
fn simple_steps(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for a in 0..p.phases.len() {
        for i in 0..p.phases[a].insts.len() {
            if p.phases[a].insts[i].faults.len() > 1 {
                for half in [0, 1] {
                    let mut q = p.clone();
                    let f = &mut q.phases[a].insts[i].faults;
                    let n = f.len() / 2;
                    *f = if half == 0 { f[..n].to_vec() } else { f[n..].to_vec() };
                    v.push(q);
                }
            }
            for k in 0..p.phases[a].insts[i].faults.len() {
                let mut q = p.clone();
                q.phases[a].insts[i].faults.remove(k);
                v.push(q);
            }
            if p.phases[a].insts[i].disk.is_some() {
                let mut q = p.clone();
                q.phases[a].insts[i].disk = None;
                v.push(q);
            }
            for k in 0..p.phases[a].insts[i].env.len() {
                if p.phases[a].insts[i].env[k].0 != "TMPDIR" {
                    let mut q = p.clone();
                    q.phases[a].insts[i].env.remove(k);
                    v.push(q);
                }
            }
            if p.phases[a].insts[i].tty.is_some() {
                let mut q = p.clone();
                q.phases[a].insts[i].tty = None;
                v.push(q);
            }
        }
        if p.phases[a].comp.faults.len() > 1 {
            for half in [0, 1] {
                let mut q = p.clone();
                let f = &mut q.phases[a].comp.faults;
                let n = f.len() / 2;
                *f = if half == 0 { f[..n].to_vec() } else { f[n..].to_vec() };
                v.push(q);
            }
        }
        if p.phases[a].comp.faults.len() < 12 {
            for k in 0..p.phases[a].comp.faults.len() {
                let mut q = p.clone();
                q.phases[a].comp.faults.remove(k);
                v.push(q);
            }
        }
        for k in 0..p.phases[a].edits.len() {
            let mut q = p.clone();
            q.phases[a].edits.remove(k);
            v.push(q);
        }
        if p.phases[a].comp.lag > 0 || p.phases[a].comp.chunk > 0 {
            let mut q = p.clone();
            q.phases[a].comp.lag = 0;
            q.phases[a].comp.chunk = 0;
            v.push(q);
        }
        if p.phases[a].sched.tail != Tail::Seq {
            let mut q = p.clone();
            q.phases[a].sched = Sched { explicit: vec![], tail: Tail::Seq };
            v.push(q);
        }
    }
    for f in p.files.keys() {
        if matches!(p.files[f], FileC::Text(_) | FileC::Bytes(_)) {
            let mut q = p.clone();
            q.files.remove(f);
            v.push(q);
        }
    }
    // one input less, where all runs have the same
    let lists: Vec<&Vec<Input>> = p.phases.iter().flat_map(|x| &x.insts).filter_map(|i| i.job.as_ref()).map(|j| &j.inputs).collect();
    let n: usize = p.phases.iter().map(|x| x.insts.len()).sum();
    if lists.len() == n && n > 0 && lists.windows(2).all(|w| w[0] == w[1]) && lists[0].len() > 1 {
        for k in 0..lists[0].len() {
            let mut q = p.clone();
            for ph in &mut q.phases {
                for i in &mut ph.insts {
                    let j = i.job.as_mut().unwrap();
                    j.inputs.remove(k);
                    i.argv = j.argv();
                }
            }
            v.push(q);
        }
    }
    if p.phases.iter().all(|x| x.insts.iter().all(|i| i.job.is_some())) {
        let all: Vec<Settings> = p.phases.iter().flat_map(|x| &x.insts).map(|i| i.job.as_ref().unwrap().set.clone()).collect();
        let num = all.iter().map(|s| s.num).max().unwrap_or(0);
        for n in [1, 2, num / 2, num.saturating_sub(1)] {
            if n < num && n > 0 {
                let mut q = p.clone();
                q.map_settings(&|s| s.num = s.num.min(n));
                v.push(q);
            }
        }
        let steps: Vec<Box<dyn Fn(&mut Settings)>> = vec![
            Box::new(|s| s.print_original = false),
            Box::new(|s| s.validate = false),
            Box::new(|s| s.allow.clear()),
            Box::new(|s| s.remap.clear()),
            Box::new(|s| {
                s.include.clear();
                s.base_path = None
            }),
            Box::new(|s| s.root_path = None),
            Box::new(|s| s.stop_after = None),
            Box::new(|s| s.style = 0),
            Box::new(|s| s.functions.truncate(1)),
        ];
        for f in steps {
            let mut q = p.clone();
            q.map_settings(&*f);
            if q != *p {
                v.push(q);
            }
        }
        let k = all.iter().map(|s| s.algs.len()).max().unwrap_or(0);
        if k > 1 {
            for i in 0..k {
                let mut q = p.clone();
                q.map_settings(&move |s| {
                    if s.algs.len() > 1 && i < s.algs.len() {
                        s.algs = vec![s.algs[i].clone()]
                    }
                });
                v.push(q);
            }
        }
    }
    v
}
/// all places of arrays with elements that can be removed
fn arrays(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                if let Value::Array(a) = x {
                    if matches!(k.as_str(), "nodes" | "statements" | "body" | "orelse") {
                        for i in 0..a.len() {
                            out.push((path.clone(), i));
                        }
                    }
                }
                arrays(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                arrays(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn remove(v: &mut Value, path: &[String], i: usize) -> bool {
    let mut x = v;
    for k in path {
        x = match x {
            Value::Object(m) => match m.get_mut(k) {
                Some(y) => y,
                None => return false,
            },
            Value::Array(a) => match k.parse::<usize>().ok().and_then(|n| a.get_mut(n)) {
                Some(y) => y,
                None => return false,
            },
            _ => return false,
        };
    }
    match x {
        Value::Array(a) if i < a.len() && !(a.len() == 1 && matches!(path.last().map(|s| s.as_str()), Some("body" | "orelse"))) => {
            a.remove(i);
            true
        }
        _ => false,
    }
}
pub fn shrink(w: &mut Worker, plan: &Plan, first: &str, budget: Duration) -> (Plan, u32) {
    let t = Instant::now();
    let k = kind(first);
    let mut cur = plan.clone();
    let mut n = 0;
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    // make the schedule explicit, then cut it short
    if let Some((run, _)) = attempt(w, &cur, &k) {
        for a in 0..cur.phases.len() {
            if cur.phases[a].sched.tail == Tail::Seq {
                continue;
            }
            let d = run.phases[a].decisions.clone();
            let mut keep = d.len();
            let with = |keep: usize| {
                let mut q = cur.clone();
                q.phases[a].sched = Sched { explicit: d[..keep].to_vec(), tail: Tail::Seq };
                q
            };
            let (mut lo, mut hi) = (0, d.len());
            while lo < hi && t.elapsed() < budget / 3 {
                let mid = (lo + hi) / 2;
                n += 1;
                if attempt(w, &with(mid), &k).is_some() {
                    keep = mid;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            let q = with(keep);
            if attempt(w, &q, &k).is_some() {
                cur = q;
            }
        }
    }
    loop {
        let mut progress = false;
        'steps: loop {
            for q in simple_steps(&cur) {
                if t.elapsed() > budget {
                    break 'steps;
                }
                n += 1;
                if attempt(w, &q, &k).is_some() {
                    cur = q;
                    progress = true;
                    continue 'steps;
                }
            }
            break;
        }
        for p in 0..cur.programs.len() {
            let mut at = 0;
            loop {
                let mut l = vec![];
                arrays(&cur.programs[p].ast, &mut vec![], &mut l);
                l.reverse();
                if at >= l.len() || t.elapsed() > budget {
                    break;
                }
                let (path, i) = l[at].clone();
                let mut q = cur.clone();
                n += 1;
                if remove(&mut q.programs[p].ast, &path, i) && attempt(w, &q, &k).is_some() {
                    cur = q;
                    progress = true;
                } else {
                    at += 1;
                }
            }
        }
        if !progress || t.elapsed() > budget {
            break;
        }
    }
    std::panic::set_hook(hook);
    (cur, n)
}
