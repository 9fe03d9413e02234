//! Oracles: each is a function of the plan and of the recorded history only.
use crate::compiler::{CompRun, Mode};
use crate::exec::Run;
use crate::kernel::{normalise, End, InstRes, Node, Snap};
use crate::lex;
use crate::model::Model;
use crate::obs::*;
use crate::plan::*;
use crate::scen::OUT;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Verdict {
    pub viol: Vec<String>,
    /// how many facts of the kind the property speaks of were checked
    pub weight: usize,
}
type V = Verdict;
impl Verdict {
    fn bad(&mut self, s: impl Into<String>) {
        self.viol.push(s.into());
    }
}
pub fn check(plan: &Plan, run: &Run) -> Verdict {
    let mut v = Verdict::default();
    match plan.property.as_str() {
        "P01" => p01(plan, run, &mut v),
        "P02" => p02(plan, run, &mut v),
        "P03" => p03(plan, run, &mut v),
        "P04" => p04(plan, run, &mut v),
        "P05" => p05(plan, run, &mut v),
        "P06" => p06(plan, run, &mut v),
        "P07" => p07(plan, run, &mut v),
        "P08" => p08(plan, run, &mut v),
        "P09" => p09(plan, run, &mut v),
        "P10" => p10(plan, run, &mut v),
        "P11" => p11(plan, run, &mut v),
        "P12" => p12(plan, run, &mut v),
        "P13" => p13(plan, run, &mut v),
        "P14" => p14(plan, run, &mut v),
        "P15" => p15(plan, run, &mut v),
        "P16" => p16(plan, run, &mut v),
        "P17" => p17(plan, run, &mut v),
        "P18" => p18(plan, run, &mut v),
        "P19" => p19(plan, run, &mut v),
        "P20" => p20(plan, run, &mut v),
        "P21" => p21(plan, run, &mut v),
        "P22" => p22(plan, run, &mut v),
        "P23" => p23(plan, run, &mut v),
        "P24" => p24(plan, run, &mut v),
        "P25" => p25(plan, run, &mut v),
        x => panic!("unknown property {x}"),
    }
    v
}
fn show(t: &[String], s: usize, e: usize) -> String {
    t[s.saturating_sub(6).min(t.len())..(e + 6).min(t.len())].join(" ").replace(lex::NL, "\u{23ce}")
}
/// what was changed, in words
fn change(m: &Model, t: &[String]) -> String {
    match m.changed(t) {
        None => "nothing".into(),
        Some((s, e)) => {
            let d = t.len() as i64 - m.toks.len() as i64;
            format!("`{}` became `{}`", show(&m.toks, s, e), show(t, s, (e as i64 + d).max(s as i64) as usize))
        }
    }
}
/// tokens of a mutant that was reported
fn tokens(o: &Obs, u: &Unit, path: &str) -> Result<Option<lex::Lexed>, String> {
    match o.file(path) {
        None => Ok(None),
        Some(b) => o.lexed(u, b).map(Some),
    }
}
fn p01(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    for r in o.reports() {
        let Some(k) = r.unit else { continue };
        let u = &o.units[k];
        let m = &run.models[u.prog];
        match tokens(&o, u, &r.path) {
            Ok(None) => {}
            Err(e) => v.bad(format!("{}: mutant of {} is not a program: {e}", r.path, r.alg)),
            Ok(Some(l)) => {
                v.weight += 1;
                let fits = |t: &[String]| *t == m.toks[..] || m.explains(&r.alg, t).is_some();
                if !fits(&l.toks) {
                    // the one thing that differs may be how 2**256 - 1 came out
                    if let Some(k) = m.toks.iter().position(|t| t == crate::model::BIG).filter(|k| l.toks.len() > *k && l.toks[*k] != m.toks[*k]) {
                        let mut t = l.toks.clone();
                        let as_written = std::mem::replace(&mut t[k], crate::model::BIG.into());
                        if fits(&t) {
                            v.bad(format!("{}: the Vyper number 2**256 - 1 became {as_written}", r.path));
                            continue;
                        }
                    }
                    v.bad(format!("{} is not the original with one {} edit: {}", r.path, r.alg, change(m, &l.toks)));
                }
            }
        }
    }
}
/// comments, those on the same place joined
fn joined(l: &lex::Lexed) -> Vec<(usize, String)> {
    let mut v: Vec<(usize, String)> = vec![];
    for (p, t) in &l.comments {
        match v.last_mut() {
            Some(x) if x.0 == *p => {
                x.1.push(' ');
                // a wrapped comment goes on behind its marker
                x.1.push_str(t.trim_start_matches(['#', '/', '*', ' ']));
            }
            _ => v.push((*p, t.clone())),
        }
    }
    v
}
fn words_of(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect()
}
fn p02(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    for r in o.reports() {
        let Some(k) = r.unit else { continue };
        let u = &o.units[k];
        let m = &run.models[u.prog];
        let Ok(Some(l)) = tokens(&o, u, &r.path) else { continue };
        v.weight += 1;
        // comments of the original program are not ours
        let own: BTreeSet<String> = lex::lex(m.lang, &m.source()).map(|x| x.comments.into_iter().map(|c| c.1).collect()).unwrap_or_default();
        let mut named: Vec<(usize, String)> = vec![];
        for (p, t) in joined(&l) {
            if own.contains(&t) {
                continue;
            }
            // a line break may leave more than one space between words
            let t = t.split_whitespace().collect::<Vec<_>>().join(" ");
            for a in crate::model::ALGS_SOL {
                let n = t.matches(&format!("{a} Mutator")).count();
                for _ in 0..n {
                    named.push((p, a.to_string()));
                }
            }
            if !t.contains(" Mutator") && words_of(&t).contains(&r.alg.as_str()) {
                named.push((p, r.alg.clone()));
            }
        }
        let at = named.iter().find(|x| x.1 == r.alg).map(|x| x.0);
        if at.is_none() {
            v.bad(format!("{}: no comment names {}; comments: {:?}", r.path, r.alg, l.comments.iter().map(|c| c.1.chars().take(60).collect::<String>()).collect::<Vec<_>>()));
        }
        if let Some(x) = named.iter().find(|x| x.1 != r.alg) {
            v.bad(format!("{}: made by {} but a comment speaks of {}", r.path, r.alg, x.1));
        }
        if named.iter().filter(|x| x.1 == r.alg).count() > 1 {
            v.bad(format!("{}: more than one comment announces a {} mutation", r.path, r.alg));
        }
        // text of the comment that became program
        if let Some(p) = at {
            if l.toks != m.toks && m.explains(&r.alg, &l.toks).is_none() {
                for n in 1..=400.min(l.toks.len() - p.min(l.toks.len())) {
                    let mut t = l.toks[..p].to_vec();
                    t.extend_from_slice(&l.toks[p + n..]);
                    if t == m.toks || m.explains(&r.alg, &t).is_some() {
                        v.bad(format!("{}: text of the {} comment is part of the program: `{}`", r.path, r.alg, l.toks[p..p + n.min(20)].join(" ")));
                        break;
                    }
                }
            }
        }
    }
}
fn reported_files<'a>(o: &Obs<'a>) -> BTreeMap<String, &'a Vec<u8>> {
    let mut m = BTreeMap::new();
    for r in o.reports() {
        if let Some(b) = o.file(&r.path) {
            m.insert(r.path, b);
        }
    }
    for u in &o.units {
        let p = o.original_name(u);
        if u.set.print_original || o.job().pretty {
            if let Some(b) = o.file(&p) {
                m.insert(p, b);
            }
        }
    }
    m
}
/// what the user sees of a run
fn same_run(a: &Obs, b: &Obs, na: &str, nb: &str, v: &mut V) {
    if a.res().end != b.res().end {
        v.bad(format!("{na} ended with {:?}, {nb} with {:?}", a.res().end, b.res().end));
        return;
    }
    if let Some(d) = diff_files(&reported_files(a), &reported_files(b), na, nb) {
        v.bad(d);
        return;
    }
    let (x, y) = (a.lines(), b.lines());
    if x != y {
        let k = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
        v.bad(format!("standard output differs between {na} and {nb} in line {}: {:?} / {:?}", k + 1, x.get(k), y.get(k)));
    }
}
fn p03(plan: &Plan, run: &Run, v: &mut V) {
    let a = Obs::new(plan, run, 0, 0);
    let b = Obs::new(plan, run, 1, 0);
    v.weight = a.reports().len();
    same_run(&a, &b, "the first run", "the second run", v);
}
fn p04(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    let mut seen: BTreeMap<(usize, String, Vec<String>), String> = BTreeMap::new();
    for r in o.reports() {
        let Some(k) = r.unit else { continue };
        let u = &o.units[k];
        let Ok(Some(l)) = tokens(&o, u, &r.path) else { continue };
        v.weight += 1;
        if l.toks == run.models[u.prog].toks {
            v.bad(format!("{} ({}) is the unmodified program", r.path, r.alg));
            continue;
        }
        if let Some(p) = seen.insert((k, String::new(), l.toks.clone()), r.path.clone()) {
            if p != r.path {
                v.bad(format!("{} and {} ({}) are the same program: {}", p, r.path, r.alg, change(&run.models[u.prog], &l.toks)));
            }
        }
    }
}
/// sites of an algorithm, inside the given functions if any
fn sites(m: &Model, alg: &str, functions: &[String]) -> usize {
    let spans = spans(m, functions);
    let s: BTreeSet<usize> = m.cands(alg).iter().filter(|c| functions.is_empty() || spans.iter().any(|(a, b)| *a <= c.s && c.e <= *b)).map(|c| c.site).collect();
    s.len()
}
fn spans(m: &Model, functions: &[String]) -> Vec<(usize, usize)> {
    m.funcs.iter().filter(|f| functions.contains(&f.0)).map(|f| (f.1, f.2)).collect()
}
fn p05(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    if !matches!(o.res().end, End::Exit(_)) {
        return;
    }
    let reps = o.reports();
    let sup = o.supports();
    v.weight = reps.len();
    let mut paths = BTreeSet::new();
    for r in &reps {
        if !paths.insert(r.path.clone()) {
            v.bad(format!("{} is reported twice", r.path));
        }
        if r.unit.is_none() {
            v.bad(format!("{} is reported but is no result of any input", r.path));
        }
        if o.file(&r.path).is_none() {
            v.bad(format!("{} is reported but does not exist", r.path));
        }
    }
    for l in o.res().stdout().lines().filter(|l| l.starts_with("Unable to generate mutations")) {
        // there may be nothing to mutate
        let nothing = |u: &crate::plan::Unit| {
            let m = &run.models[u.prog];
            let spans: Vec<(usize, usize)> = if u.set.functions.is_empty() { vec![(0, m.toks.len())] } else { m.funcs.iter().filter(|f| u.set.functions.contains(&f.0)).map(|f| (f.1, f.2)).collect() };
            !o.algs(u).iter().any(|a| m.cands(a).iter().any(|c| c.sure && spans.iter().any(|(x, y)| *x <= c.s && c.e <= *y)))
        };
        if !(l.contains("not contain any mutable node") && o.units.iter().any(|u| l.contains(&format!("for {}: ", u.path)) && nothing(u))) {
            v.bad(format!("a valid program is given up: {l}"));
        }
    }
    for (k, u) in o.units.iter().enumerate() {
        let mine: Vec<&Rep> = reps.iter().filter(|r| r.unit == Some(k)).collect();
        if mine.len() > u.set.num {
            v.bad(format!("{}: {} mutants, {} requested", u.path, mine.len(), u.set.num));
        }
        if sup.len() == o.units.len() && mine.len() > sup[k] {
            v.bad(format!("{}: {} mutants, but the program is said to support at most {}", u.path, mine.len(), sup[k]));
        }
        for (n, r) in mine.iter().enumerate() {
            if r.num != n {
                v.bad(format!("{}: mutant number {n} is {}", u.path, r.path));
                break;
            }
        }
        for p in o.mutants(u).keys() {
            if !paths.contains(p) {
                v.bad(format!("{p} was written but not reported"));
            }
        }
        // enough mutations on offer
        let ph = &plan.phases[0];
        if (u.set.validate && ph.comp.accept_pct < 100) || u.set.num == 0 || !matches!(o.res().end, End::Exit(0)) {
            continue;
        }
        let m = &run.models[u.prog];
        let algs = o.algs(u);
        let n = u.set.num;
        if mine.len() < n {
            let short = if algs.len() == 1 && plentiful(&algs[0], m.lang) {
                let good = sites(m, &algs[0], &u.set.functions);
                good >= 6 * n
            } else if sup.len() == o.units.len() {
                let listed = listed(&o, k);
                let good: Vec<usize> = listed.iter().map(|a| sites(m, a, &u.set.functions)).collect();
                let min = good.iter().copied().min().unwrap_or(0);
                listed.iter().all(|a| plentiful(a, m.lang)) && min >= 4 * n && sup[k] <= good.iter().sum::<usize>() + min / 2
            } else {
                false
            };
            if short {
                v.bad(format!("{}: only {} of {n} mutants although there are {} places to mutate for {:?}", u.path, mine.len(), algs.iter().map(|a| sites(m, a, &u.set.functions)).sum::<usize>(), algs));
            }
        }
    }
}
/// algorithms the tool says it has nodes for
fn listed(o: &Obs, k: usize) -> Vec<String> {
    let l: Vec<String> = o.res().stdout().lines().filter(|l| l.starts_with("Of the requested mutation algorithms")).map(|l| l.to_string()).collect();
    let Some(l) = l.get(k) else { return vec![] };
    crate::model::ALGS_SOL.iter().filter(|a| l.contains(&format!("\"{a}\""))).map(|a| a.to_string()).collect()
}
/// algorithms of which every place the model knows is one the tool can mutate, and the tool
/// knows hardly any other
fn plentiful(alg: &str, _lang: Lang) -> bool {
    matches!(alg, "ArithmeticBinaryOp" | "ComparisonBinaryOp" | "LogicalBinaryOp" | "BitwiseBinaryOp" | "BitshiftBinaryOp" | "IfStatement" | "Require" | "ElimDelegateCall" | "Integer")
}
fn p06(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    let runs: Vec<(&CompRun, Option<Vec<String>>)> = o
        .comps()
        .filter(|c| c.mode == Mode::Compile)
        .map(|c| (c, c.src.as_ref().and_then(|s| std::str::from_utf8(s).ok()).and_then(|s| lex::lex(c.lang, s).ok()).map(|l| l.toks)))
        .collect();
    for r in o.reports() {
        let Some(k) = r.unit else { continue };
        let u = &o.units[k];
        if !u.set.validate {
            continue;
        }
        let Ok(Some(l)) = tokens(&o, u, &r.path) else { continue };
        v.weight += 1;
        let asked: Vec<&CompRun> = runs.iter().filter(|(c, t)| c.lang == o.lang(u) && t.as_ref() == Some(&l.toks)).map(|x| x.0).collect();
        if asked.is_empty() {
            v.bad(format!("{} ({}) was emitted but the compiler was never asked about it", r.path, r.alg));
            continue;
        }
        let ok: Vec<&&CompRun> = asked.iter().filter(|c| c.status == 0).collect();
        if ok.is_empty() {
            let why: Vec<String> = asked.iter().map(|c| format!("status {} {}{:?}", c.status, c.why, c.fault)).collect();
            v.bad(format!("{} ({}) was emitted although the compiler did not accept it: {}", r.path, r.alg, why.join("; ")));
            continue;
        }
        if !ok.iter().any(|c| missing_setting(c, &u.set).is_none()) {
            v.bad(format!("{} ({}) was accepted only by a compiler run without the configured {}", r.path, r.alg, missing_setting(ok[0], &u.set).unwrap()));
        }
    }
}
fn p07(plan: &Plan, run: &Run, v: &mut V) {
    for ph in 0..plan.phases.len() {
        let o = Obs::new(plan, run, ph, 0);
        v.weight += 1 + o.res().total_ops as usize;
        match o.res().end {
            End::Hang => {
                v.bad(format!("the run does not end: {} operations, {} compiler runs, last output {:?}", o.res().total_ops, o.phase().comps.len(), o.res().stdout().lines().last().unwrap_or("")));
                return;
            }
            End::OutOfMemory => {
                v.bad("the run needs unbounded memory");
                return;
            }
            _ => {}
        }
        let want: usize = o.units.iter().map(|u| u.set.num).sum();
        let got = o.comps().filter(|c| c.mode == Mode::Compile).count();
        // fifty attempts for each mutant, and up to two questions to the compiler for each
        // (for vyper two executables may be tried); be generous
        if got > 400 * want {
            v.bad(format!("{got} compiler runs for {want} requested mutants"));
        }
    }
    if plan.phases.len() == 2 {
        let y = plan.facts["other"].as_str().unwrap();
        let (a, b) = (Obs::new(plan, run, 0, 0), Obs::new(plan, run, 1, 0));
        let u = &a.units[0];
        let m = &run.models[u.prog];
        let n = |o: &Obs| o.reports().iter().filter(|r| r.alg == y).count();
        if sites(m, y, &[]) >= 4 * u.set.num && n(&b) < n(&a) {
            v.bad(format!("with a compiler that rejects all {} mutants only {} of {} {y} mutants were made", plan.phases[1].comp.reject_alg.as_ref().unwrap(), n(&b), n(&a)));
        }
    }
}
fn p08(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    let reps = o.reports();
    for r in &reps {
        let Some(k) = r.unit else { continue };
        let u = &o.units[k];
        if u.set.functions.is_empty() {
            continue;
        }
        let m = &run.models[u.prog];
        let Ok(Some(l)) = tokens(&o, u, &r.path) else { continue };
        if l.toks == m.toks {
            continue;
        }
        v.weight += 1;
        let sp = spans(m, &u.set.functions);
        let inside = |s: usize, e: usize| sp.iter().any(|(a, b)| *a <= s && e <= *b);
        let (s, e) = m.changed(&l.toks).unwrap();
        // identical neighbours make the place of a change ambiguous
        let fits = inside(s, e) || m.explains_within(&r.alg, &l.toks, &sp);
        if !fits {
            v.bad(format!("{} ({}) changes code outside {:?}: {}", r.path, r.alg, u.set.functions, change(m, &l.toks)));
        }
    }
    // the code inside stays available
    for (k, u) in o.units.iter().enumerate() {
        if u.set.validate || u.set.functions.is_empty() || !matches!(o.res().end, End::Exit(0)) {
            continue;
        }
        let m = &run.models[u.prog];
        let algs = o.algs(u);
        let got = reps.iter().filter(|r| r.unit == Some(k)).count();
        if algs.len() == 1 && plentiful(&algs[0], m.lang) {
            let good = sites(m, &algs[0], &u.set.functions);
            // several definitions may share the name
            if good >= 1 && got == 0 {
                v.bad(format!("{}: no mutant although {:?} contain {good} places for {}", u.path, u.set.functions, algs[0]));
            } else if good >= 6 * u.set.num && got < u.set.num {
                v.bad(format!("{}: {got} of {} mutants although {:?} contain {good} places for {}", u.path, u.set.num, u.set.functions, algs[0]));
            }
        }
    }
}
fn p09(plan: &Plan, run: &Run, v: &mut V) {
    for ph in 0..plan.phases.len() {
        let res = &run.phases[ph];
        let mut protected: BTreeSet<String> = BTreeSet::new();
        let mut outs: BTreeSet<String> = BTreeSet::new();
        let mut own: BTreeSet<String> = BTreeSet::new();
        let mut obs = vec![];
        let mut tmps = vec![];
        let mut clean = true;
        for i in 0..plan.phases[ph].insts.len() {
            let o = Obs::new(plan, run, ph, i);
            let job = o.job();
            outs.insert(o.norm(&job.set.out));
            for x in &job.inputs {
                protected.insert(o.norm(x.path()));
                if let Input::Config(_, _, _, s) = x {
                    outs.insert(o.norm(&s.out));
                }
            }
            for u in &o.units {
                protected.insert(o.norm(&u.path));
                if job.stdout {
                    continue;
                }
                if job.pretty || u.set.print_original {
                    own.insert(o.original_name(u));
                }
                if job.save {
                    own.insert(o.config_name(u));
                }
            }
            tmps.push(o.inst().env.iter().find(|e| e.0 == "TMPDIR").unwrap().1.clone());
            clean &= matches!(o.res().end, End::Exit(_)) && o.inst().faults.is_empty();
            obs.push(o);
        }
        let is_own = |p: &str| own.contains(p) || obs.iter().any(|o| !o.job().stdout && !o.job().pretty && o.units.iter().any(|u| o.mutant_no(u, p).is_some()));
        v.weight += res.before.len();
        for (p, n) in &res.before {
            let same = res.after.get(p) == Some(n);
            if same {
                continue;
            }
            if let Node::Dir = n {
                v.bad(format!("directory {p} is gone"));
                continue;
            }
            let what = if res.after.contains_key(p) { "changed" } else { "removed" };
            if protected.contains(p) {
                v.bad(format!("input file {p} was {what}"));
            } else if !is_own(p) {
                v.bad(format!("file {p}, which is not a result of this run, was {what}"));
            }
        }
        for (p, n) in &res.after {
            if res.before.contains_key(p) {
                continue;
            }
            let in_out = outs.iter().any(|o| p == o || p.starts_with(&format!("{o}/")) || o.starts_with(&format!("{p}/")));
            let in_tmp = tmps.iter().any(|t| p.starts_with(&format!("{t}/")));
            if in_tmp && !(in_out && is_own(p)) {
                // scratch of its own; that it is removed at the end is another property
                continue;
            }
            if let Node::Dir = n {
                if !in_out {
                    v.bad(format!("directory {p} was created"));
                }
                continue;
            }
            if !in_out {
                v.bad(format!("file {p} was created outside the output directory"));
            } else if clean && !is_own(p) {
                v.bad(format!("file {p} in the output directory is no result"));
            }
        }
    }
}
/// lines of output beyond those of the undisturbed run
fn extra(a: &InstRes, b: &InstRes) -> Vec<String> {
    let all = |r: &InstRes| -> Vec<String> { format!("{}\n{}", r.stdout(), r.stderr()).lines().filter(|l| !l.trim().is_empty() && !l.starts_with("Elapsed time:")).map(|l| l.to_string()).collect() };
    let mut left = all(a);
    let mut v = vec![];
    for l in all(b) {
        match left.iter().position(|x| *x == l) {
            Some(k) => {
                left.swap_remove(k);
            }
            None => v.push(l),
        }
    }
    v
}
fn p10(plan: &Plan, run: &Run, v: &mut V) {
    let (a, b) = (Obs::new(plan, run, 0, 0), Obs::new(plan, run, 1, 0));
    if !matches!(b.res().end, End::Exit(_)) {
        return;
    }
    let outs: BTreeSet<String> = b.units.iter().map(|u| b.out(u)).collect();
    let hits: Vec<&crate::kernel::Ev> = b.res().log.iter().filter(|e| e.fault != 0 && e.ret < 0 && outs.iter().any(|o| e.p1 == *o || e.p1.starts_with(&format!("{o}/")) || o.starts_with(&format!("{}/", e.p1)))).collect();
    v.weight = hits.len();
    let free = reported_files(&a);
    for r in b.reports() {
        let Some(k) = r.unit else { continue };
        let u = &b.units[k];
        match b.file(&r.path) {
            None => v.bad(format!("{} is reported as written but does not exist", r.path)),
            Some(x) => {
                if free.get(&r.path) == Some(&x) {
                    continue;
                }
                let whole = b.lexed(u, x).ok().map_or(false, |l| run.models[u.prog].explains(&r.alg, &l.toks).is_some());
                if !whole || hits.iter().any(|h| h.p1 == r.path) {
                    v.bad(format!("{} ({}) is reported as written but is incomplete: {} bytes; failed: {}", r.path, r.alg, x.len(), failed(&hits)));
                }
            }
        }
    }
    for u in &b.units {
        if !u.set.print_original && !b.job().pretty {
            continue;
        }
        let p = b.original_name(u);
        let said = b.lines().iter().any(|l| l.starts_with("Pretty-printing original file") && l.contains(&format!("\"{}\"", basename(&u.path))));
        if said && b.file(&p) != a.file(&p) && hits.iter().any(|h| h.p1 == p) {
            v.bad(format!("{p} is reported as written but is incomplete; failed: {}", failed(&hits)));
        }
    }
    if !hits.is_empty() && extra(a.res(), b.res()).is_empty() {
        v.bad(format!("nothing was said although storing results failed: {}", failed(&hits)));
    }
}
fn failed(h: &[&crate::kernel::Ev]) -> String {
    h.iter().take(3).map(|e| format!("{} of {} (error {})", CLS_NAMES[e.op as usize], e.p1, -e.ret)).collect::<Vec<_>>().join(", ")
}
fn p11(plan: &Plan, run: &Run, v: &mut V) {
    let (a, b) = (Obs::new(plan, run, 0, 0), Obs::new(plan, run, 1, 0));
    v.weight = b.res().fired.iter().map(|x| *x as usize).sum::<usize>() + b.phase().comps.len();
    same_run(&a, &b, "the undisturbed run", "the disturbed run", v);
    if v.viol.is_empty() {
        if let Some(d) = diff_snap(&run.phases[0].after, &run.phases[1].after, &[]) {
            v.bad(d);
        }
    }
}
fn diff_snap(a: &Snap, b: &Snap, skip: &[String]) -> Option<String> {
    let sk = |p: &str| skip.iter().any(|s| p == s || p.starts_with(&format!("{s}/")));
    for (p, n) in a {
        if sk(p) {
            continue;
        }
        match (n, b.get(p)) {
            (_, None) => return Some(format!("{p} is missing")),
            (Node::File(x), Some(Node::File(y))) if x != y => return Some(format!("{p} differs: {}", first_diff(x, y))),
            (x, Some(y)) if x != y => return Some(format!("{p} differs")),
            _ => {}
        }
    }
    b.keys().find(|p| !a.contains_key(*p) && !sk(p)).map(|p| format!("{p} is there in addition"))
}
fn p12(plan: &Plan, run: &Run, v: &mut V) {
    let n = plan.phases.len() - 1;
    for k in 0..n {
        let a = Obs::new(plan, run, k, 0);
        let b = Obs::new(plan, run, n, k);
        let v0 = v.viol.len();
        same_run(&a, &b, &format!("instance {k} alone"), &format!("instance {k} among others"), v);
        if v.viol.len() == v0 {
            for u in &a.units {
                if let Some(d) = diff_files(&dir_files(&a.phase().after, &a.out(u)), &dir_files(&b.phase().after, &b.out(u)), "the lone run", "the concurrent run") {
                    v.bad(d);
                }
            }
        }
    }
    v.weight = run.phases[n].switches as usize;
}
fn p13(plan: &Plan, run: &Run, v: &mut V) {
    let a = Obs::new(plan, run, 0, 0);
    if a.res().end != End::Exit(0) {
        return;
    }
    // inputs of the same base name share one configuration file: which one it describes is open
    let mut names = BTreeMap::new();
    for u in &a.units {
        *names.entry(a.config_name(u)).or_insert(0) += 1;
    }
    let b = &run.phases[1];
    for u in &a.units {
        let c = a.config_name(u);
        if names[&c] > 1 {
            continue;
        }
        if a.file(&c).is_none() {
            continue;
        }
        let x: BTreeMap<String, &Vec<u8>> = if u.set.print_original { a.results(u) } else { a.mutants(u) };
        v.weight += x.len();
        let mut y: BTreeMap<String, &Vec<u8>> = BTreeMap::new();
        for (p, n) in &b.after {
            if let Node::File(f) = n {
                if a.mutant_no(u, p).is_some() || (u.set.print_original && *p == a.original_name(u)) {
                    y.insert(p.clone(), f);
                }
            }
        }
        if let Some(d) = diff_files(&x, &y, "the run that saved its configuration", "the replay") {
            v.bad(d);
            return;
        }
    }
}
fn p14(plan: &Plan, run: &Run, v: &mut V) {
    let n = plan.phases.len() - 1;
    v.weight = (1..n).filter(|k| run.phases[*k].insts[0].end == End::Crashed).count();
    if v.weight == 0 {
        return;
    }
    let (a, b) = (Obs::new(plan, run, 0, 0), Obs::new(plan, run, n, 0));
    same_run(&a, &b, "the clean run", "the repeated run", v);
    if v.viol.is_empty() {
        let tmp = b.inst().env.iter().find(|e| e.0 == "TMPDIR").unwrap().1.clone();
        if let Some(d) = diff_snap(&run.phases[0].after, &run.phases[n].after, &[tmp]) {
            v.bad(format!("after a clean run and after kill and repetition: {d}"));
        }
    }
}
fn spoils(c: &CompRun) -> bool {
    // a failing output file cannot hurt a compiler that prints its result
    !matches!(c.fault, None | Some(CompFault::Noise(_))) && !(c.fault == Some(CompFault::OutputError) && c.out_path.is_none())
}
fn p15(plan: &Plan, run: &Run, v: &mut V) {
    for ph in 0..plan.phases.len() {
        let o = Obs::new(plan, run, ph, 0);
        let job = o.job();
        let mut sets: Vec<Settings> = vec![job.set.clone()];
        for x in &job.inputs {
            if let Input::Config(_, l, _, s) = x {
                sets.push(job.effective(*l, s));
            }
        }
        let sets: Vec<&Settings> = sets.iter().collect();
        for c in o.comps() {
            v.weight += 1;
            if c.mode == Mode::Bad && !(matches!(c.tool, Tool::Docker)) {
                v.bad(format!("malformed compiler command: {} ({})", c.argv.join(" "), c.why));
                continue;
            }
            let mine: Vec<&Settings> = match c.mode {
                Mode::Ast | Mode::Compile if !c.src_path.is_empty() => {
                    let mut l: Vec<&Settings> = o.units.iter().filter(|u| o.norm(&u.path) == c.src_path).map(|u| &u.set).collect();
                    if job.inputs.iter().any(|i| o.norm(i.path()) == c.src_path) {
                        l.push(&job.set);
                    }
                    if l.is_empty() {
                        sets.clone()
                    } else {
                        l
                    }
                }
                _ => sets.clone(),
            };
            let miss: Vec<Option<String>> = mine.iter().map(|s| missing_setting(c, s)).collect();
            if !miss.iter().any(|m| m.is_none()) {
                v.bad(format!("compiler run without the configured {}: {}", miss[0].as_ref().unwrap(), c.argv.join(" ")));
            }
        }
        // where the trees came from
        let reps = o.reports();
        for (k, u) in o.units.iter().enumerate() {
            let m = &run.models[u.prog];
            let path = o.norm(&u.path);
            let from_source = !u.path.ends_with(".json") && !u.path.ends_with(".ast");
            let good = o.comps().any(|c| c.mode == Mode::Ast && c.src_path == path && c.known == Some(u.prog) && c.status == 0 && !spoils(c));
            for r in reps.iter().filter(|r| r.unit == Some(k)) {
                if from_source && !good {
                    v.bad(format!("{} was made from {} although no compiler run on it succeeded", r.path, u.path));
                    break;
                }
                if let Ok(Some(l)) = tokens(&o, u, &r.path) {
                    stale(run, u, m, &r.alg, &r.path, &l.toks, v);
                }
            }
            let p = o.original_name(u);
            if (job.pretty || u.set.print_original) && o.file(&p) != o.phase().before.get(&p).and_then(|n| if let Node::File(b) = n { Some(b) } else { None }) {
                if let Ok(Some(l)) = tokens(&o, u, &p) {
                    if from_source && !good {
                        v.bad(format!("{p} was printed from {} although no compiler run on it succeeded", u.path));
                    }
                    if l.toks != m.toks && run.models.iter().any(|x| x.lang == m.lang && x.toks == l.toks) {
                        v.bad(format!("{p} is a different program than the present content of {}", u.path));
                    }
                }
            }
        }
    }
}
fn stale(run: &Run, u: &Unit, m: &Model, alg: &str, path: &str, t: &[String], v: &mut V) {
    if t == &m.toks[..] || m.explains(alg, t).is_some() {
        return;
    }
    for x in &run.models {
        if x.lang == m.lang && (x.toks == t || x.explains(alg, t).is_some()) {
            v.bad(format!("{path} ({alg}) is a mutant of another program than the present content of {}", u.path));
            return;
        }
    }
}
fn p16(plan: &Plan, run: &Run, v: &mut V) {
    let n = plan.phases.len() - 1;
    let b = Obs::new(plan, run, n, 0);
    let r = b.res();
    v.weight = 1;
    let err = r.stderr();
    let last: Vec<&str> = err.lines().filter(|l| l.contains("panicked at") || l.contains("overflow") || l.contains("memory allocation")).collect();
    let detail = || {
        let e: Vec<&str> = err.lines().rev().take(6).collect();
        e.into_iter().rev().collect::<Vec<_>>().join(" | ")
    };
    match &r.end {
        End::Signal(s) => v.bad(format!("died from signal {s}: {}", detail())),
        End::Exit(101) => v.bad(format!("panic: {}", detail())),
        End::Exit(_) if last.iter().any(|l| l.contains("panicked at")) => v.bad(format!("panic: {}", detail())),
        End::OutOfMemory => v.bad("ran out of memory"),
        _ => {}
    }
    if !v.viol.is_empty() || !matches!(r.end, End::Exit(_)) {
        return;
    }
    if n == 1 {
        let a = Obs::new(plan, run, 0, 0);
        if extra(a.res(), r).is_empty() {
            for u in &b.units {
                // rejected candidates are given up silently when mutants are validated
                if u.set.validate {
                    continue;
                }
                if !a.results(u).is_empty() && b.results(u).is_empty() {
                    v.bad(format!("{}: no results, and not a word about it", u.path));
                }
            }
        }
    } else if plan.scenario == "unusual command line" {
        for x in &b.job().inputs {
            if let Input::Bad(p) = x {
                let name = basename(p);
                let text = format!("{}\n{}", r.stdout(), r.stderr());
                if !text.lines().any(|l| !l.is_empty() && !l.starts_with("Elapsed time") && l.contains(name)) {
                    v.bad(format!("nothing was said about {p:?}, which cannot be processed"));
                }
            }
        }
    }
}
fn printed_lines(s: &str) -> Vec<String> {
    s.lines().filter(|l| !l.trim().is_empty() && !is_info(l)).map(|l| l.to_string()).collect()
}
fn p17(plan: &Plan, run: &Run, v: &mut V) {
    let (a, b) = (Obs::new(plan, run, 0, 0), Obs::new(plan, run, 1, 0));
    if a.res().end != b.res().end {
        v.bad(format!("writing files ended with {:?}, printing with {:?}", a.res().end, b.res().end));
        return;
    }
    let mut want: Vec<String> = vec![];
    let mut from: Vec<(usize, String)> = vec![];
    for u in &a.units {
        let mut files: Vec<(usize, String)> = a.mutants(u).keys().map(|p| (a.mutant_no(u, p).unwrap() + 1, p.clone())).collect();
        if a.job().pretty || u.set.print_original {
            files.push((0, a.original_name(u)));
        }
        files.sort();
        for (_, p) in files {
            if let Some(x) = a.file(&p) {
                v.weight += 1;
                from.push((want.len(), p));
                want.extend(printed_lines(&String::from_utf8_lossy(x)));
            }
        }
    }
    let got = printed_lines(&b.res().stdout());
    if got != want {
        let k = got.iter().zip(&want).take_while(|(x, y)| x == y).count();
        let f = from.iter().rev().find(|x| x.0 <= k).map_or("", |x| x.1.as_str());
        v.bad(format!("standard output is not the concatenation of the files: line {} within {f}: {:?} instead of {:?} ({} and {} lines)", k + 1, got.get(k), want.get(k), got.len(), want.len()));
    }
    for (p, _) in &b.phase().after {
        if !b.phase().before.contains_key(p) {
            let tmp = &b.inst().env.iter().find(|e| e.0 == "TMPDIR").unwrap().1;
            if !p.starts_with(&format!("{tmp}/")) && matches!(b.phase().after[p], Node::File(_)) {
                v.bad(format!("{p} was written although output goes to standard output"));
            }
        }
    }
}
fn p18(plan: &Plan, run: &Run, v: &mut V) {
    let all = Obs::new(plan, run, 0, 0);
    if !matches!(all.res().end, End::Exit(_)) {
        return;
    }
    for k in 1..plan.phases.len() {
        let one = Obs::new(plan, run, k, 0);
        for u in &one.units {
            let x = one.results(u);
            v.weight += x.len();
            let y = all.results(u);
            if let Some(d) = diff_files(&x, &y, &format!("the run with {} alone", one.job().inputs[0].path()), "the run with all inputs") {
                v.bad(d);
                return;
            }
        }
        let rs = |o: &Obs| -> Vec<(String, String)> { o.reports().into_iter().filter(|r| r.unit.map_or(false, |x| one.units.iter().any(|u| u.path == o.units[x].path))).map(|r| (r.alg, r.path)).collect() };
        if rs(&one) != rs(&all) {
            v.bad(format!("the reports for {} differ between the run alone and the run with all inputs", one.job().inputs[0].path()));
        }
    }
}
fn p19(plan: &Plan, run: &Run, v: &mut V) {
    let all = Obs::new(plan, run, 0, 0);
    if !matches!(all.res().end, End::Exit(_)) {
        v.weight = 0;
        if !matches!(all.res().end, End::Crashed) {
            v.bad(format!("the run ended with {:?}", all.res().end));
        }
        return;
    }
    let job = all.job();
    let faulty = !all.inst().faults.is_empty() || !plan.phases[0].comp.faults.is_empty();
    let text = format!("{}\n{}", all.res().stdout(), all.res().stderr());
    let said = |p: &str| text.lines().any(|l| l.contains(basename(p)) && !l.starts_with("Pretty-printing"));
    for x in &job.inputs {
        if let Input::Bad(p) = x {
            v.weight += 1;
            if !said(p) {
                v.bad(format!("{p} cannot be printed, but nothing was said about it"));
            }
        }
    }
    let mut want: Vec<String> = vec![];
    let mut k = 0;
    let got = printed_lines(&all.res().stdout());
    for x in &job.inputs {
        if let Input::Bad(_) = x {
            continue;
        }
        k += 1;
        let one = Obs::new(plan, run, k, 0);
        let u = &one.units[0];
        v.weight += 1;
        if job.stdout {
            let w = printed_lines(&one.res().stdout());
            if faulty && said(&u.path) {
                continue;
            }
            want.extend(w);
            continue;
        }
        let p = one.original_name(u);
        if one.file(&p).is_none() && matches!(one.res().end, End::Exit(_)) {
            v.bad(format!("{} was not printed to {p}, although nothing failed", u.path));
        }
        if one.file(&p) != all.file(&p) && !(faulty && said(&u.path)) {
            v.bad(match all.file(&p) {
                None => format!("{} was not printed to {p} although it can be", u.path),
                Some(f) => format!("{p} differs from what is printed for {} alone: {}", u.path, first_diff(one.file(&p).unwrap_or(&vec![]), f)),
            });
        }
    }
    if job.stdout && got != want && !faulty {
        let k = got.iter().zip(&want).take_while(|(x, y)| x == y).count();
        v.bad(format!("standard output is not what the files alone give: line {}: {:?} instead of {:?} ({} and {} lines)", k + 1, got.get(k), want.get(k), got.len(), want.len()));
    }
}
fn p20(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    if !matches!(o.res().end, End::Exit(_)) {
        return;
    }
    // a failure to look into a directory that is being removed is a failure of the removal
    if o.res().log.iter().any(|e| e.fault != 0 && e.ret < 0 && o.phase().after.get(&e.p1) == Some(&Node::Dir)) {
        return;
    }
    let tmp = o.inst().env.iter().find(|e| e.0 == "TMPDIR").unwrap().1.clone();
    let pre = format!("{tmp}/");
    v.weight = o.phase().comps.len();
    for p in o.phase().after.keys().filter(|p| p.starts_with(&pre)) {
        if !o.phase().before.contains_key(p) && !o.units.iter().any(|u| o.out(u) == tmp) {
            v.bad(format!("{p} was left behind"));
            return;
        }
    }
    let _ = normalise;
}
fn p21(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    if !matches!(o.res().end, End::Exit(_)) {
        v.bad(format!("the run ended with {:?}", o.res().end));
        return;
    }
    let job = o.job();
    for u in &o.units {
        let m = &run.models[u.prog];
        let p = o.original_name(u);
        let (name, text) = if job.stdout {
            let s = o.res().stdout();
            // the time the run took is the last line
            let s: Vec<&str> = s.lines().filter(|l| !l.starts_with("Elapsed time:")).collect();
            ("standard output".to_string(), (s.join("\n") + "\n").into_bytes())
        } else {
            let old = o.phase().before.get(&p).and_then(|n| if let Node::File(b) = n { Some(b) } else { None });
            match o.file(&p) {
                Some(b) if Some(b) != old => (p, b.clone()),
                // nothing that can be mutated, nothing printed
                _ if !job.pretty && !o.reports().iter().any(|r| r.unit.map(|k| &o.units[k].path) == Some(&u.path)) => continue,
                _ => {
                    v.bad(format!("{} was not printed", u.path));
                    continue;
                }
            }
        };
        v.weight += 1;
        match o.lexed(u, &text) {
            Err(e) => v.bad(format!("what was printed for {} to {name} is not a program: {e}", u.path)),
            Ok(l) => {
                if l.toks != m.toks {
                    v.bad(format!("what was printed for {} to {name} is another program: {}", u.path, change(m, &l.toks)));
                }
            }
        }
    }
}
fn p22(plan: &Plan, run: &Run, v: &mut V) {
    let (a, b) = (Obs::new(plan, run, 0, 0), Obs::new(plan, run, 1, 0));
    v.weight = a.reports().len().max(a.res().stdout().lines().count() / 20);
    let (na, nb) = ("the run with the settings on the command line", "the run with the settings in a configuration file");
    if a.res().end != b.res().end {
        v.bad(format!("{na} ended with {:?}, {nb} with {:?}", a.res().end, b.res().end));
        return;
    }
    for d in [OUT, "/work/elsewhere", "/work/stdout"] {
        if let Some(x) = diff_files(&dir_files(&a.phase().after, d), &dir_files(&b.phase().after, d), na, nb) {
            v.bad(x);
            return;
        }
    }
    let (x, y) = (a.lines(), b.lines());
    if x != y {
        let k = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
        v.bad(format!("standard output differs between {na} and {nb} in line {}: {:?} / {:?}", k + 1, x.get(k), y.get(k)));
    }
}
/// entries of a listing: name and words; lines under headings do not count
fn entries(s: &str) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = vec![];
    for l in s.lines() {
        let new = crate::model::ALGS_SOL.iter().any(|a| l.split_whitespace().next() == Some(*a)) && !l.starts_with(' ');
        for (k, w) in l.split_whitespace().enumerate() {
            if w.chars().all(|c| c == '-') || l.starts_with("Elapsed time:") {
                continue;
            }
            if new && k == 0 {
                v.push((w.to_string(), vec![]));
            } else if let Some(e) = v.last_mut() {
                e.1.push(w.to_string());
            } else {
                v.push((String::new(), vec![w.to_string()]));
            }
        }
    }
    v
}
fn p23(plan: &Plan, run: &Run, v: &mut V) {
    let out: Vec<String> = run.phases.iter().map(|p| p.insts[0].stdout()).collect();
    for (k, p) in run.phases.iter().enumerate() {
        v.weight += 1;
        if p.insts[0].end != End::Exit(0) {
            v.bad(format!("{} ended with {:?}", plan.phases[k].insts[0].argv.join(" "), p.insts[0].end));
            return;
        }
    }
    let e: Vec<Vec<(String, Vec<String>)>> = out.iter().map(|s| entries(s)).collect();
    let mut want: Vec<String> = crate::model::ALGS_SOL.iter().map(|s| s.to_string()).collect();
    want.sort();
    for (k, l) in e.iter().enumerate() {
        let mut names: Vec<String> = l.iter().map(|x| x.0.clone()).collect();
        names.sort();
        if names != want {
            let what: Vec<&String> = want.iter().filter(|n| names.iter().filter(|m| m == n).count() != 1).collect();
            v.bad(format!("{} does not name each algorithm once: {what:?}, {} entries", plan.phases[k].insts[0].argv.join(" "), names.len()));
            return;
        }
        if let Some(x) = l.iter().find(|x| x.1.len() < 3) {
            v.bad(format!("{} does not describe {}", plan.phases[k].insts[0].argv.join(" "), x.0));
        }
    }
    for (wide, k) in [(0, 2), (1, 3)] {
        if e[wide] != e[k] {
            let d = e[wide].iter().zip(&e[k]).find(|(x, y)| x != y).unwrap();
            let n = d.0 .1.iter().zip(&d.1 .1).take_while(|(x, y)| x == y).count();
            v.bad(format!("at terminal width {:?} the listing for {} is not what it is on a wide terminal: word {n} is {:?} instead of {:?}", plan.phases[k].insts[0].tty, d.0 .0, d.1 .1.get(n), d.0 .1.get(n)));
        }
    }
    for x in &e[0] {
        let y = e[1].iter().find(|y| y.0 == x.0).unwrap();
        if !y.1.starts_with(&x.1) {
            v.bad(format!("the description of {} does not begin with its summary", x.0));
        }
    }
}
/// a program up to grouping
fn canon<'a>(it: impl Iterator<Item = &'a String>) -> Vec<&'a str> {
    it.map(|t| t.as_str()).filter(|t| !matches!(*t, "(" | ")" | "{" | "}")).collect()
}
fn p24(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    if o.units.is_empty() || !matches!(o.res().end, End::Exit(0)) {
        return;
    }
    let u0 = &o.units[0];
    let m = &run.models[u0.prog];
    let Some(alg) = u0.set.algs.first() else { return };
    let spans: Vec<(usize, usize)> = if u0.set.functions.is_empty() { vec![(0, m.toks.len())] } else { m.funcs.iter().filter(|f| u0.set.functions.contains(&f.0)).map(|f| (f.1, f.2)).collect() };
    let cands = m.cands(alg);
    let nodes = o.supports().into_iter().max().unwrap_or(0);
    // what was drawn
    let mut texts: Vec<Vec<String>> = vec![];
    let mut seen_sites = BTreeSet::new();
    for u in &o.units {
        for p in o.mutants(u).keys() {
            let Ok(Some(l)) = tokens(&o, u, p) else { return };
            if let Some(s) = m.explains(alg, &l.toks) {
                seen_sites.insert(s);
            }
            texts.push(l.toks);
        }
    }
    let draws = texts.len();
    let seen: BTreeSet<Vec<&str>> = texts.iter().map(|t| canon(t.iter())).collect();
    // what can be drawn, by place
    let mut by_site: BTreeMap<usize, Vec<&crate::model::Cand>> = BTreeMap::new();
    let original = canon(m.toks.iter());
    for c in cands.iter().filter(|c| spans.iter().any(|(a, b)| *a <= c.s && c.e <= *b)) {
        if canon(m.toks[..c.s].iter().chain(c.repl.iter()).chain(m.toks[c.e..].iter())) != original {
            by_site.entry(c.site).or_default().push(c);
        }
    }
    if draws == 0 {
        // nothing at all, in many runs: a run tries each mutant 50 times
        if nodes > 0 && o.units.len() * 50 / nodes >= 4 * SURE {
            if let Some(c) = by_site.values().flatten().find(|c| c.sure) {
                v.weight += 1;
                v.bad(format!("{alg} never yields a mutant in {} runs, such as that with `{}` for `{}`", o.units.len(), c.repl.join(" ").chars().take(100).collect::<String>(), m.toks[c.s..c.e].join(" ").chars().take(100).collect::<String>()));
            }
        }
        return;
    }
    for (site, cs) in &by_site {
        let text = |t: &[String]| t.join(" ").chars().take(100).collect::<String>();
        let wild = cs.iter().any(|c| c.repl.iter().any(|t| t.starts_with(crate::model::WILD)));
        if draws / nodes.max(1) >= SURE && cs.iter().any(|c| c.sure) {
            v.weight += 1;
            // two places can give the same program
            let same = || cs.iter().any(|c| seen.contains(&canon(m.toks[..c.s].iter().chain(c.repl.iter()).chain(m.toks[c.e..].iter()))));
            if !seen_sites.contains(site) && !same() {
                v.bad(format!("{alg} never mutates `{}` in {draws} mutants of {nodes} nodes", text(&m.toks[cs[0].s..cs[0].e])));
                continue;
            }
        }
        let mut keys: BTreeMap<Vec<&str>, &crate::model::Cand> = BTreeMap::new();
        for c in cs.iter().filter(|c| !c.repl.iter().any(|t| t.starts_with(crate::model::WILD))) {
            let k = keys.entry(canon(m.toks[..c.s].iter().chain(c.repl.iter()).chain(m.toks[c.e..].iter()))).or_insert(c);
            if c.sure {
                *k = c;
            }
        }
        // (an assignment has one chance in eight for each truth value, beside numbers)
        let k = if alg == "Assignment" && wild { 8 } else { keys.len() + wild as usize };
        if draws / (nodes.max(1) * k) < SURE {
            continue;
        }
        for (key, c) in keys {
            if c.sure {
                v.weight += 1;
                if !seen.contains(&key) {
                    v.bad(format!("{alg} never turns `{}` into `{}` in {draws} mutants of {nodes} nodes", text(&m.toks[c.s..c.e]), text(&c.repl)));
                }
            }
        }
    }
}
/// a possibility that one draw in n takes is expected to be seen in SURE * n draws
const SURE: usize = 25;

/// is there the end of a statement (or of the block) between these tokens, at the level of the first?
fn crosses(t: &[String], block: bool) -> bool {
    // for every level still open: is it one of statements, and has one of them ended
    let mut open = vec![(true, false)];
    for (i, x) in t.iter().enumerate() {
        let goes_on = |k: usize| matches!(t.get(k).map(|x| x.as_str()), Some("else" | "catch" | "while" | "elif" | "for" | "as" | "from" | "(" | "." | "{"));
        let mut ended = false;
        match x.as_str() {
            "(" | "[" => open.push((false, false)),
            // members of a declaration are no statements
            "{" | lex::IND => open.push((!t[..i].iter().rev().skip_while(|x| *x == lex::NL).take_while(|x| ![";", "{", "}", lex::NL, lex::IND, lex::DED].contains(&x.as_str())).any(|x| ["struct", "interface", "event", "enum", "flag"].contains(&x.as_str())), false)),
            ")" | "]" => drop(open.pop()),
            "}" | lex::DED => {
                open.pop();
                ended = !goes_on(i + 1) && i + 1 < t.len();
            }
            ";" => ended = !goes_on(i + 1),
            // a decorator belongs to what it decorates
            lex::NL if t[..i].iter().rev().take_while(|x| *x != lex::NL && *x != lex::DED).last().map_or(false, |x| x == "@") => {}
            lex::NL => ended = t.get(i + 1).map(|x| x.as_str()) != Some(lex::IND) && !goes_on(i + 1),
            _ => {}
        }
        match open.last_mut() {
            None => return true,
            Some(l) => l.1 |= ended && l.0,
        }
    }
    !block && open.iter().any(|l| l.1)
}
fn p25(plan: &Plan, run: &Run, v: &mut V) {
    let o = Obs::new(plan, run, 0, 0);
    for r in o.reports() {
        let Some(k) = r.unit else { continue };
        let u = &o.units[k];
        let m = &run.models[u.prog];
        let Ok(Some(l)) = tokens(&o, u, &r.path) else { continue };
        let why = m.explanations(&r.alg, &l.toks);
        let Some((at, text)) = joined(&l).into_iter().find(|(_, t)| t.split_whitespace().collect::<Vec<_>>().join(" ").contains(&format!("{} Mutator", r.alg))) else { continue };
        if why.is_empty() {
            continue;
        }
        v.weight += 1;
        let mut to = at;
        while l.toks.get(to).map_or(false, |t| t == lex::IND || t == lex::DED) {
            to += 1;
        }
        let near = |c: &crate::model::Cand| {
            let end = l.toks.len() - (m.toks.len() - c.e);
            (at..=to).any(|p| if p > c.s { p <= end } else { !crosses(&l.toks[p..c.s], r.alg == "SwapLines") })
        };
        if !why.iter().any(near) {
            let c = &why[0];
            let (a, b) = (at.min(c.s), at.max(c.s));
            v.bad(format!("{}: the comment of the {} mutation does not stand at it: `{}` (comment {at}, change {}..{})", r.path, r.alg, l.toks[a..b].join(" ").chars().take(150).collect::<String>(), c.s, c.e));
        }
        // the comment without line breaks; wrapping can hide a leading * or /
        let body = text.split_once("Mutator").map_or("", |x| x.1).split_whitespace().collect::<Vec<_>>().join(" ");
        let odd = |t: &[String]| t.iter().any(|x| x.contains('\\') || x.contains('\'') || !x.is_ascii() && ![lex::NL, lex::IND, lex::DED].contains(&x.as_str()));
        let tells = |c: &crate::model::Cand, marks: bool| {
            let end = l.toks.len() - (m.toks.len() - c.e);
            let plain = |t: &[String]| squeeze(&t.iter().filter(|x| ![lex::NL, lex::IND, lex::DED].contains(&x.as_str())).map(|x| x.as_str()).collect::<Vec<_>>().join(" "), marks);
            let wide = |t: &[String], a: usize, b: usize| odd(&t[a.saturating_sub(8)..(b + 8).min(t.len())]);
            // literals and documentation which are not printed as they were written
            if wide(&m.toks, c.s, c.e) || wide(&l.toks, c.s, end) || body.contains("b'") || body.contains("///") || body.contains('\\') {
                return true;
            }
            if r.alg == "DeleteStatement" {
                return squeeze(&body, marks).contains(&plain(&m.toks[c.s..c.e]));
            }
            let near = |t: &[String], a: usize, b: usize| plain(&t[a.saturating_sub(8)..(b + 8).min(t.len())]);
            let (old, new) = (near(&m.toks, c.s, c.e), near(&l.toks, c.s, end));
            let Some((_, q)) = body.split_once('\'') else { return false };
            let swap = r.alg.starts_with("Swap");
            ["' to '", "' with '", "' with line '", "' for '", "', for '", "' and '"].iter().any(|sep| {
                q.match_indices(sep).any(|(i, _)| {
                    let (x, y) = (squeeze(&q[..i], marks), &q[i + sep.len()..]);
                    // a comment of the program may follow
                    let mut ends: Vec<usize> = y.match_indices('\'').map(|z| z.0).collect();
                    ends.push(y.len());
                    old.contains(&x) && ends.iter().any(|k| if swap { old.contains(&squeeze(&y[..*k], marks)) } else { new.contains(&squeeze(&y[..*k], marks)) })
                })
            })
        };
        if !why.iter().any(|c| tells(c, true) || tells(c, false)) {
            v.bad(format!("{}: the comment of the {} mutation does not tell what changed: `{}`", r.path, r.alg, text.chars().take(250).collect::<String>()));
        }
    }
}
/// text up to white space and grouping
fn squeeze(s: &str, marks: bool) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !matches!(c, '(' | ')' | '{' | '}') && (marks || !matches!(c, '*' | '/' | '#'))).collect()
}
