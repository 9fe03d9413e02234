//! Seeded scenarios per property: which executions are worth looking at.
use crate::build::*;
use crate::gen::{Opts, FNAMES};
use crate::kernel::Worker;
use crate::obs::basename;
use crate::plan::*;

pub struct Mix {
    pub units: usize,
    pub num: usize,
    pub validate: u32,
    pub functions: u32,
    pub config: u32,
    pub original: u32,
    pub settings: u32,
    pub opts: Option<Opts>,
}
impl Default for Mix {
    fn default() -> Self {
        Mix { units: 3, num: 6, validate: 35, functions: 15, config: 20, original: 20, settings: 40, opts: None }
    }
}
pub const OUT: &str = "/work/out";

fn fresh_prog(b: &mut B, lang: Lang, m: &Mix) -> usize {
    match &m.opts {
        Some(o) => {
            let o = o.clone();
            b.prog(lang, &o)
        }
        None => b.any_prog(lang),
    }
}
/// names of functions of these programs, sometimes also one that does not exist
fn some_functions(b: &mut B, progs: &[usize]) -> Vec<String> {
    let mut names: Vec<String> = vec![];
    for p in progs {
        for f in b.model(*p).funcs {
            if !f.0.is_empty() && !names.contains(&f.0) {
                names.push(f.0);
            }
        }
    }
    let mut v = vec![];
    for _ in 0..1 + b.r.below(2) {
        let n = if names.is_empty() || b.r.chance(10) { b.r.pick(&FNAMES).to_string() } else { b.r.pick(&names).clone() };
        if !v.contains(&n) {
            v.push(n);
        }
    }
    v
}
/// a mutate job over a mix of inputs
pub fn mixed(b: &mut B, m: &Mix) -> Job {
    let k = 1 + b.r.below(m.units);
    let mut set = b.settings(OUT);
    set.num = 1 + b.r.below(m.num);
    set.validate = b.r.chance(m.validate);
    set.print_original = b.r.chance(m.original);
    if b.r.chance(m.settings) {
        b.compilers(&mut set);
    }
    let mut inputs = vec![];
    let mut progs = vec![];
    let restrict = b.r.chance(m.functions);
    for _ in 0..k {
        let lang = b.lang();
        if b.r.chance(m.config) {
            let mut cs = b.settings(OUT);
            cs.num = 1 + b.r.below(m.num);
            cs.validate = b.r.chance(m.validate);
            cs.print_original = b.r.chance(m.original);
            if b.r.chance(m.settings) {
                b.compilers(&mut cs);
            }
            if b.r.chance(30) {
                cs.seed = None;
            } else if b.r.chance(10) {
                cs.seed = Some(-b.r.range(1, 1_000_000));
            }
            if b.r.chance(30) {
                cs.out = format!("/work/out{}", inputs.len());
            }
            let mut l = vec![];
            for _ in 0..1 + b.r.below(2) {
                let p = fresh_prog(b, lang, m);
                if let Input::Prog(path, p) = b.input("/work/src", p) {
                    l.push((path, p));
                }
            }
            if restrict {
                let ps: Vec<usize> = l.iter().map(|x| x.1).collect();
                cs.functions = some_functions(b, &ps);
            }
            let base = b.base();
            let path = format!("/work/cfg/{base}.mgnx");
            b.plan.files.insert(path.clone(), FileC::Config(lang, l.iter().map(|x| x.0.clone()).collect(), cs.clone()));
            inputs.push(Input::Config(path, lang, l, cs));
        } else {
            let p = fresh_prog(b, lang, m);
            progs.push(p);
            inputs.push(b.input("/work/src", p));
        }
    }
    if restrict {
        set.functions = some_functions(b, &progs);
    }
    b.job(inputs, set)
}
fn job_sets(j: &Job) -> Vec<Settings> {
    let mut v = vec![j.set.clone()];
    for i in &j.inputs {
        if let Input::Config(_, _, _, s) = i {
            v.push(s.clone());
        }
    }
    v
}
/// compilers for a job; some of them reject mutants
pub fn comps(b: &mut B, jobs: &[&Job], reject: bool) -> Compilers {
    let sets: Vec<Settings> = jobs.iter().flat_map(|j| job_sets(j)).collect();
    let refs: Vec<&Settings> = sets.iter().collect();
    let mut c = b.tools(&refs);
    if reject {
        c.accept_pct = *b.r.pick(&[30, 60, 90, 100]);
        c.parse_only_pct = *b.r.pick(&[0, 0, 10]);
    }
    c
}
fn one(b: &mut B, scenario: &str, job: Job, c: Compilers) {
    b.plan.scenario = scenario.into();
    let i = b.inst(job);
    let p = b.phase("run", vec![i], c);
    b.plan.phases.push(p);
}
/// files that somebody may have left behind
fn leftovers(b: &mut B, job: &Job) -> Vec<(String, Option<FileC>)> {
    let mut v = vec![];
    for u in job.units() {
        let base = basename(&u.path).to_string();
        let stem = base.rsplit_once('.').map_or(base.as_str(), |x| x.0).to_string();
        let lang = b.plan.programs[u.prog].lang;
        let e = if lang == Lang::Sol { "sol" } else { "vy" };
        for n in [format!("{base}_json.ast"), format!("{base}.json"), format!("{stem}.json"), base.clone()] {
            if b.r.chance(40) {
                let c = if b.r.chance(50) { FileC::Text("left over from an earlier run".into()) } else { FileC::Ast(b.r.below(b.plan.programs.len())) };
                let p = format!("{}/{n}", b.tmp);
                if p != u.path {
                    v.push((p, Some(c)));
                }
            }
        }
        for n in [format!("{base}_0.{e}"), format!("{base}_7.{e}")] {
            if b.r.chance(40) {
                v.push((format!("{}/{n}", u.set.out), Some(FileC::Text("// left over\ncontract Old { uint256 a; }\n".repeat(200)))));
            }
        }
    }
    v
}
fn jitter(b: &mut B, i: &mut Inst) {
    i.hashseed = b.r.u64();
    i.clock_ns = CLOCK + b.r.range(-400_000_000_000_000, 900_000_000_000_000);
    i.clock_step = *b.r.pick(&[1, 1000, 7_000_000, 3_000_000_000]);
    i.pid = 2 + b.r.below(60000) as u32;
    if b.r.chance(50) {
        i.tty = Some(*b.r.pick(&[20, 80, 200]));
    }
    for (k, l) in [("RUST_LOG", &["debug", "error", "trace"][..]), ("COLUMNS", &["40", "132"][..]), ("LANG", &["C", "de_DE.UTF-8"][..]), ("RUST_BACKTRACE", &["1"][..]), ("SOURCE_DATE_EPOCH", &["12345"][..])] {
        if b.r.chance(40) {
            let v = b.r.pick(l).to_string();
            i.env.push((k.into(), v));
        }
    }
}
fn timing(b: &mut B, p: &mut Phase) {
    p.comp.chunk = *b.r.pick(&[0, 1, 7, 100, 4096]);
    if p.comp.chunk == 1 {
        // one byte at a time is slow for whole syntax trees
        p.comp.chunk = 1 + b.r.below(60) as u32;
    }
    p.comp.lag = b.r.below(6) as u32;
    p.sched.tail = Tail::Random(b.r.u64());
}
fn pretty(mut j: Job) -> Job {
    j.pretty = true;
    j.set = Settings { out: j.set.out, solc: j.set.solc, base_path: j.set.base_path, include: j.set.include, allow: j.set.allow, remap: j.set.remap, stop_after: j.set.stop_after, vyper: j.set.vyper, root_path: j.set.root_path, num: 1, ..Default::default() };
    j.inputs.retain(|i| !matches!(i, Input::Config(..)));
    j
}
/// Are all the input files still to be reached under a different name than results get?
fn single_alg_job(b: &mut B, alg: Option<String>, num: usize, o: &Opts, lang: Option<Lang>) -> Job {
    let l = lang.unwrap_or_else(|| b.lang());
    let p = b.prog(l, o);
    let i = b.input("/work/src", p);
    let mut s = b.settings(OUT);
    s.num = num;
    match alg {
        Some(a) => {
            s.algs = vec![a];
            s.all = false;
        }
        None => {
            s.algs.clear();
            s.all = true;
        }
    }
    b.job(vec![i], s)
}
fn any_alg(b: &mut B, lang: Lang) -> String {
    match lang {
        Lang::Sol => b.r.pick(&crate::model::ALGS_SOL).to_string(),
        Lang::Vy => b.r.pick(&crate::model::ALGS_VY).to_string(),
    }
}

pub fn generate(prop: &str, seed: u64, w: &mut Worker) -> Plan {
    let mut b = B::new(prop, seed);
    match prop {
        "P01" | "P02" | "P25" => p01(&mut b),
        "P03" => p03(&mut b),
        "P04" => p04(&mut b),
        "P05" => p05(&mut b),
        "P06" => p06(&mut b, w),
        "P07" => p07(&mut b),
        "P08" => p08(&mut b),
        "P09" => p09(&mut b, w),
        "P10" => p10(&mut b, w),
        "P11" => p11(&mut b, w),
        "P12" => p12(&mut b),
        "P13" => p13(&mut b),
        "P14" => p14(&mut b, w),
        "P15" => p15(&mut b, w),
        "P16" => p16(&mut b, w),
        "P17" => p17(&mut b),
        "P18" => p18(&mut b),
        "P19" => p19(&mut b, w),
        "P20" => p20(&mut b, w),
        "P21" => p21(&mut b, w),
        "P22" => p22(&mut b),
        "P23" => p23(&mut b),
        "P24" => p24(&mut b),
        _ => panic!("unknown property {prop}"),
    }
    b.plan
}

fn p01(b: &mut B) {
    let sc = b.r.below(4);
    let (job, name) = match sc {
        0 => {
            // one algorithm, many mutants: long histories
            let lang = b.lang();
            let a = any_alg(b, lang);
            let o = if b.r.chance(50) { Opts::rich(&mut b.r) } else { Opts::random(&mut b.r) };
            let n = 4 + b.r.below(12);
            let mut j = single_alg_job(b, Some(a), n, &o, Some(lang));
            j.set.validate = b.r.chance(50);
            (j, "one algorithm")
        }
        1 => {
            let o = Opts::rich(&mut b.r);
            let n = 6 + b.r.below(14);
            let mut j = single_alg_job(b, None, n, &o, None);
            j.set.validate = b.r.chance(50);
            (j, "all algorithms")
        }
        _ => (mixed(b, &Mix { num: 8, ..Default::default() }), "mixed inputs"),
    };
    let c = comps(b, &[&job], true);
    one(b, name, job, c);
    if b.plan.property == "P01" && b.r.chance(4) {
        // a number that only 256 bits can hold
        for p in b.plan.programs.iter_mut().filter(|p| p.lang == Lang::Vy) {
            let big: serde_json::Value = serde_json::from_str(crate::model::BIG).unwrap();
            let d = serde_json::json!({"ast_type": "VariableDecl", "node_id": 900001, "target": {"ast_type": "Name", "node_id": 900002, "id": "LARGEST"}, "annotation": {"ast_type": "Name", "node_id": 900003, "id": "uint256"}, "value": {"ast_type": "Int", "node_id": 900004, "value": big}, "is_public": false, "is_constant": true, "is_immutable": false});
            p.ast["ast"]["body"].as_array_mut().unwrap().insert(0, d);
        }
    }
}
fn p03(b: &mut B) {
    let config = if b.r.chance(15) { 100 } else { 20 };
    let mut job = mixed(b, &Mix { units: 2, num: 8, config, ..Default::default() });
    // the seed may be in the configuration files only
    if job.inputs.iter().all(|i| matches!(i, Input::Config(_, _, _, s) if s.seed.is_some())) {
        job.set.seed = None;
    }
    let c = comps(b, &[&job], true);
    one(b, "twice", job.clone(), c.clone());
    let mut i = b.inst(job.clone());
    jitter(b, &mut i);
    if b.r.chance(30) {
        let t = "/elsewhere/scratch".to_string();
        b.plan.files.insert(t.clone(), FileC::Dir);
        i.env.retain(|e| e.0 != "TMPDIR");
        i.env.push(("TMPDIR".into(), t));
    }
    let mut p = b.phase("again", vec![i], c);
    if b.r.chance(60) {
        p.edits = leftovers(b, &job);
    }
    if b.r.chance(50) {
        timing(b, &mut p);
    }
    b.plan.phases.push(p);
}
fn p04(b: &mut B) {
    let job = if b.r.chance(60) {
        let lang = b.lang();
        let a = any_alg(b, lang);
        let mut o = Opts::random(&mut b.r);
        o.repeat = b.r.chance(60);
        let n = 3 + b.r.below(18);
        let mut j = single_alg_job(b, Some(a), n, &o, Some(lang));
        j.set.validate = b.r.chance(40);
        if b.r.chance(10) {
            let again = j.set.algs[0].clone();
            j.set.algs.push(again);
        }
        j
    } else {
        let mut o = Opts::random(&mut b.r);
        o.repeat = b.r.chance(60);
        mixed(b, &Mix { units: 2, num: 20, opts: Some(o), ..Default::default() })
    };
    let c = comps(b, &[&job], true);
    one(b, "many mutants", job, c);
}
fn p05(b: &mut B) {
    let sc = b.r.below(5);
    let mut clean = false;
    let job = match sc {
        0 | 1 => {
            let lang = b.lang();
            let a = any_alg(b, lang);
            let o = Opts::rich(&mut b.r);
            let n = 1 + b.r.below(4);
            let mut j = single_alg_job(b, Some(a), n, &o, Some(lang));
            j.set.validate = b.r.chance(30);
            if b.r.chance(20) {
                let p = j.units()[0].prog;
                j.set.functions = some_functions(b, &[p]);
            }
            clean = true;
            j
        }
        2 => {
            let o = Opts::rich(&mut b.r);
            let n = 1 + b.r.below(30);
            single_alg_job(b, None, n, &o, None)
        }
        3 => {
            let o = Opts::small(&mut b.r);
            let n = *b.r.pick(&[0, 1, 40, 100]);
            single_alg_job(b, None, n, &o, None)
        }
        _ => mixed(b, &Mix::default()),
    };
    let c = comps(b, &[&job], !clean);
    one(b, "counting", job, c);
}
fn p06(b: &mut B, w: &mut Worker) {
    let mut job = mixed(b, &Mix { units: 2, num: 6, validate: 100, settings: 60, ..Default::default() });
    job.set.validate = true;
    let mut c = comps(b, &[&job], true);
    c.accept_pct = *b.r.pick(&[20, 40, 60, 80]);
    c.parse_only_pct = *b.r.pick(&[0, 10, 20]);
    one(b, "validation", job, c);
    if b.r.chance(60) {
        let pr = b.probe(w);
        let n = pr.comps.len().max(1);
        let k = 1 + b.r.below(4);
        for _ in 0..k {
            let f = match b.r.below(6) {
                0 => CompFault::Kill(*b.r.pick(&[libc::SIGKILL, libc::SIGSEGV, libc::SIGTERM])),
                1 => CompFault::Exit(1 + b.r.below(255) as i32),
                2 => CompFault::OutputError,
                _ => b.comp_fault(),
            };
            let at = b.r.below(n) as u32;
            b.plan.phases[0].comp.faults.push((at, f));
        }
        b.plan.scenario = "validation, compiler faults".into();
        if b.r.chance(40) {
            let ops = pr.insts[0].ops;
            if let Some(f) = b.hard_fault(&ops, &[Cls::Spawn, Cls::Wait, Cls::OpenW, Cls::Write, Cls::Unlink, Cls::Misc]) {
                b.plan.phases[0].insts[0].faults.push(f);
                b.plan.scenario = "validation, compiler and system faults".into();
            }
        }
    }
}
pub const DISJOINT: [&str; 6] = ["ArithmeticBinaryOp", "ComparisonBinaryOp", "LogicalBinaryOp", "IfStatement", "Integer", "Assignment"];
fn p07(b: &mut B) {
    match b.r.below(4) {
        0 => {
            let mut job = mixed(b, &Mix { units: 1, num: 4, validate: 100, ..Default::default() });
            job.set.validate = true;
            let mut c = comps(b, &[&job], true);
            c.accept_pct = 0;
            c.parse_only_pct = 0;
            one(b, "compiler rejects everything", job, c);
        }
        1 => {
            let x = b.r.pick(&DISJOINT[..4]).to_string();
            let y = loop {
                let y = b.r.pick(&DISJOINT[..4]).to_string();
                if y != x {
                    break y;
                }
            };
            let mut o = Opts::rich(&mut b.r);
            o.funcs = 5;
            let mut job = single_alg_job(b, Some(x.clone()), 8, &o, None);
            job.set.algs.push(y.clone());
            job.set.num = 3 + b.r.below(6);
            job.set.validate = true;
            let c = comps(b, &[&job], false);
            one(b, "compiler rejects one algorithm", job.clone(), c.clone());
            let i = b.plan.phases[0].insts[0].clone();
            let mut p = b.phase("rejecting", vec![i], c);
            p.comp.reject_alg = Some(x);
            b.fact("other", y);
            b.plan.phases.push(p);
        }
        2 => {
            let lang = b.lang();
            let a = any_alg(b, lang);
            let mut o = Opts::random(&mut b.r);
            o.sparse = true;
            o.repeat = b.r.chance(50);
            let n = *b.r.pick(&[1, 2, 5, 20]);
            let j = single_alg_job(b, Some(a), n, &o, Some(lang));
            let c = comps(b, &[&j], false);
            one(b, "few mutations on offer", j, c);
        }
        _ => {
            let mut o = Opts::random(&mut b.r);
            o.sparse = b.r.chance(60);
            let j = mixed(b, &Mix { units: 2, num: 12, opts: Some(o), ..Default::default() });
            let c = comps(b, &[&j], true);
            one(b, "mixed inputs", j, c);
        }
    }
}
fn p08(b: &mut B) {
    let lang = b.lang();
    let mut o = if b.r.chance(50) { Opts::rich(&mut b.r) } else { Opts::random(&mut b.r) };
    o.clash = b.r.chance(70);
    o.funcs = o.funcs.max(2);
    let alg = if b.r.chance(60) { Some(any_alg(b, lang)) } else { None };
    let n = 2 + b.r.below(14);
    let mut j = single_alg_job(b, alg, n, &o, Some(lang));
    let p = j.units()[0].prog;
    let mut f = some_functions(b, &[p]);
    if b.r.chance(70) {
        f.truncate(1);
    }
    j.set.functions = f;
    j.set.validate = b.r.chance(25);
    if b.r.chance(25) {
        // the same restriction from a configuration file
        if let Input::Prog(path, p) = j.inputs[0].clone() {
            let s = j.set.clone();
            b.plan.files.insert("/work/c.mgnx".into(), FileC::Config(lang, vec![path.clone()], s.clone()));
            j.inputs = vec![Input::Config("/work/c.mgnx".into(), lang, vec![(path, p)], s)];
            j.set.functions = vec![];
        }
    }
    let c = comps(b, &[&j], true);
    one(b, "restricted", j, c);
}
fn p09(b: &mut B, w: &mut Worker) {
    let tmp = b.tmp.clone();
    let k = 1 + b.r.below(2);
    let mut set = b.settings(OUT);
    set.num = 1 + b.r.below(3);
    set.validate = b.r.chance(50);
    if b.r.chance(30) {
        b.compilers(&mut set);
    }
    let dir = match b.r.below(4) {
        0 => tmp.clone(),
        1 => format!("{tmp}/sub"),
        2 => "/work/out".to_string(),
        _ => "/work/src".to_string(),
    };
    set.out = match b.r.below(6) {
        0 => tmp.clone(),
        1 => dir.clone(),
        2 => ".".into(),
        _ => OUT.into(),
    };
    set.print_original = b.r.chance(40);
    let mut inputs = vec![];
    for _ in 0..k {
        let lang = b.lang();
        let p = b.any_prog(lang);
        inputs.push(b.input(&dir, p));
    }
    let mut j = b.job(inputs, set);
    j.save = b.r.chance(30);
    if b.r.chance(25) {
        j = pretty(j);
        j.stdout = b.r.chance(20);
    } else if b.r.chance(30) {
        // the settings come from a configuration file which may lie where results go
        if let Input::Prog(path, p) = j.inputs[0].clone() {
            let lang = b.plan.programs[p].lang;
            let stem = basename(&path).rsplit_once('.').unwrap().0.to_string();
            let cp = if b.r.chance(50) { format!("{}/{stem}.mgnx", if j.set.out == "." { "/work" } else { &j.set.out }) } else { format!("{dir}/job.mgnx") };
            let s = j.set.clone();
            b.plan.files.insert(cp.clone(), FileC::Config(lang, vec![path.clone()], s.clone()));
            j.inputs[0] = Input::Config(cp, lang, vec![(path, p)], s);
        }
    }
    // files of other people
    b.plan.files.insert("/work/notes.txt".into(), FileC::Text("mine".into()));
    b.plan.files.insert(format!("{tmp}/other.txt"), FileC::Text("theirs".into()));
    b.plan.files.insert(format!("{OUT}/README"), FileC::Text("keep".into()));
    for u in j.units() {
        let base = basename(&u.path).to_string();
        let stem = base.rsplit_once('.').unwrap().0.to_string();
        for n in [format!("{base}_json.ast"), format!("{base}.json"), format!("{stem}.json"), base.clone(), "mutagenyx".to_string()] {
            if b.r.chance(35) {
                let p = format!("{tmp}/{n}");
                if !b.plan.files.contains_key(&p) && j.set.out != tmp {
                    b.plan.files.insert(p, FileC::Text("somebody else's data".into()));
                }
            }
        }
    }
    let c = comps(b, &[&j], true);
    one(b, "other people's files", j, c);
    let m = b.r.below(10);
    if m < 5 {
        let pr = b.probe(w);
        let ops = pr.insts[0].ops;
        if m < 2 {
            let f = b.crash(&ops);
            b.plan.phases[0].insts[0].faults.push(f);
            b.plan.scenario += ", killed";
        } else if m < 4 {
            if let Some(f) = b.hard_fault(&ops, &[Cls::OpenR, Cls::OpenW, Cls::Read, Cls::Write, Cls::Mkdir, Cls::Unlink, Cls::Rmdir, Cls::Rename, Cls::Stat, Cls::Spawn, Cls::Wait, Cls::Misc]) {
                b.plan.phases[0].insts[0].faults.push(f);
                b.plan.scenario += ", failing call";
            }
        } else if !pr.comps.is_empty() {
            let at = b.r.below(pr.comps.len()) as u32;
            let f = b.comp_fault();
            b.plan.phases[0].comp.faults.push((at, f));
            b.plan.scenario += ", failing compiler";
        }
    }
}
fn p10(b: &mut B, w: &mut Worker) {
    let mut j = mixed(b, &Mix { units: 2, num: 4, validate: 20, original: 40, ..Default::default() });
    j.save = b.r.chance(40);
    if b.r.chance(25) {
        j = pretty(j);
        if j.inputs.is_empty() {
            let p = b.any_prog(Lang::Sol);
            let i = b.input("/work/src", p);
            j.inputs.push(i);
        }
    }
    let c = comps(b, &[&j], false);
    one(b, "storage faults", j.clone(), c.clone());
    let pr = b.probe(w);
    let mut i = b.plan.phases[0].insts[0].clone();
    if b.r.chance(30) {
        // total number of bytes written by the tool
        let total: u64 = pr.insts[0].log.iter().filter(|e| e.op == Cls::Write as u32).map(|e| e.bytes).sum();
        i.disk = Some(if b.r.chance(20) { total.saturating_sub(1 + b.r.below(20) as u64) } else { (b.r.u64() % (total + 1)).min(total.saturating_sub(1)) });
    } else {
        for _ in 0..1 + b.r.below(2) {
            if let Some(f) = b.hard_fault(&pr.insts[0].ops, &[Cls::Write, Cls::Write, Cls::Write, Cls::OpenW, Cls::Mkdir]) {
                i.faults.push(f);
            }
        }
    }
    let p = b.phase("faulty", vec![i], c);
    b.plan.phases.push(p);
}
fn p11(b: &mut B, w: &mut Worker) {
    let mut j = mixed(b, &Mix { units: 2, num: 4, ..Default::default() });
    j.save = b.r.chance(20);
    if b.r.chance(20) {
        j.stdout = true;
    }
    if b.r.chance(20) {
        let st = j.stdout;
        j = pretty(j);
        j.stdout = st;
        if j.inputs.is_empty() {
            let p = b.any_prog(Lang::Vy);
            let i = b.input("/work/src", p);
            j.inputs.push(i);
        }
    }
    let c = comps(b, &[&j], true);
    one(b, "benign conditions", j, c.clone());
    let pr = b.probe(w);
    let mut i = b.plan.phases[0].insts[0].clone();
    let n = 1 + b.r.below(20);
    i.faults = b.benign_faults(&pr.insts[0].ops, n);
    let mut p = b.phase("disturbed", vec![i], c);
    timing(b, &mut p);
    b.plan.phases.push(p);
}
fn p12(b: &mut B) {
    let n = if b.r.chance(70) { 2 } else { 3 };
    let same = b.r.chance(75);
    let lang = b.lang();
    let base = b.base();
    let ast = b.r.chance(15);
    let mut jobs = vec![];
    let validate = b.r.chance(75);
    for k in 0..n {
        let l = if same { lang } else { b.lang() };
        let o = if b.r.chance(70) { Opts::small(&mut b.r) } else { Opts::random(&mut b.r) };
        let p = b.prog(l, &o);
        let nm = if same || b.r.chance(50) { base.clone() } else { b.base() };
        let path = b.place(&format!("/work/p{k}"), p, &nm, ast);
        let mut s = b.settings(&format!("/work/out{k}"));
        s.num = 1 + b.r.below(3);
        s.validate = validate;
        let mut j = b.job(vec![Input::Prog(path, p)], s);
        if b.r.chance(15) {
            j = pretty(j);
        }
        jobs.push(j);
    }
    let refs: Vec<&Job> = jobs.iter().collect();
    let mut c = comps(b, &refs, true);
    c.chunk = *b.r.pick(&[0, 0, 500]);
    let mut insts = vec![];
    for (k, j) in jobs.iter().enumerate() {
        let mut i = b.inst(j.clone());
        i.pid = 1000 + k as u32;
        insts.push(i.clone());
        let p = b.phase(&format!("alone {k}"), vec![i], c.clone());
        b.plan.phases.push(p);
    }
    b.plan.scenario = format!("{n} at once");
    let mut p = b.phase("together", insts, c);
    p.comp.lag = b.r.below(4) as u32;
    b.plan.phases.push(p);
}
fn p13(b: &mut B) {
    let mut j = mixed(b, &Mix { units: 2, num: 6, validate: 40, functions: 30, config: 15, original: 30, settings: 60, opts: None });
    if b.r.chance(50) {
        j.set.seed = None;
    }
    j.save = true;
    j.stdout = false;
    // an output directory may be given in any way
    if !j.inputs.iter().any(|i| matches!(i, Input::Config(..))) {
        j.set.out = b.r.pick(&["/work/out", "out", "./out", "/work/out/"]).to_string();
    }
    let mut c = comps(b, &[&j], true);
    c.strict = b.r.chance(60);
    one(b, "save and replay", j.clone(), c.clone());
    let mut argv = vec!["mutate".to_string()];
    let mut seen = vec![];
    for u in j.units() {
        let n = basename(&u.path);
        let out = crate::kernel::normalise("/work", &u.set.out);
        let f = format!("{out}/{}.mgnx", n.rsplit_once('.').map_or(n, |x| x.0));
        if !seen.contains(&f) {
            argv.push("-f".into());
            argv.push(f.clone());
            seen.push(f);
        }
    }
    let mut i = b.inst(j.clone());
    jitter(b, &mut i);
    i.job = None;
    i.argv = argv;
    let mut p = b.phase("replay", vec![i], c);
    p.fresh = false;
    let outs: Vec<String> = j.units().iter().map(|u| crate::kernel::normalise("/work", &u.set.out)).collect();
    // each directory is cleared except for the saved configuration files
    p.purge = outs.into_iter().map(|o| (o, ".mgnx".to_string())).collect();
    b.plan.phases.push(p);
}
fn p14(b: &mut B, w: &mut Worker) {
    let mut j = mixed(b, &Mix { units: 2, num: 4, validate: 60, original: 30, ..Default::default() });
    j.save = b.r.chance(30);
    if b.r.chance(15) {
        j = pretty(j);
        if j.inputs.is_empty() {
            let p = b.any_prog(Lang::Sol);
            let i = b.input("/work/src", p);
            j.inputs.push(i);
        }
    }
    let c = comps(b, &[&j], true);
    one(b, "killed and repeated", j.clone(), c.clone());
    let pr = b.probe(w);
    let ops = pr.insts[0].ops;
    let kills = if b.r.chance(75) { 1 } else { 2 };
    for k in 0..kills {
        let mut i = b.plan.phases[0].insts[0].clone();
        i.faults = vec![b.crash(&ops)];
        if b.r.chance(60) {
            i.pid = 2 + b.r.below(40000) as u32;
        }
        let mut p = b.phase("killed", vec![i], c.clone());
        p.fresh = k == 0;
        if b.r.chance(20) && !pr.comps.is_empty() {
            let at = b.r.below(pr.comps.len()) as u32;
            let n = b.r.below(2000) as u32;
            p.comp.faults.push((at, CompFault::KillTorn(libc::SIGKILL, n)));
        }
        if b.r.chance(40) {
            timing(b, &mut p);
        }
        b.plan.phases.push(p);
    }
    let mut i = b.plan.phases[0].insts[0].clone();
    if b.r.chance(50) {
        i.pid = 2 + b.r.below(40000) as u32;
        i.hashseed = b.r.u64();
        i.clock_ns += 3_600_000_000_000;
    }
    let mut p = b.phase("repeated", vec![i], c);
    p.fresh = false;
    b.plan.phases.push(p);
}
fn p15(b: &mut B, w: &mut Worker) {
    match b.r.below(4) {
        0 | 1 => {
            let mut j = mixed(b, &Mix { units: 2, num: 3, validate: 50, settings: 90, config: 40, ..Default::default() });
            if b.r.chance(20) {
                j = pretty(j);
                if j.inputs.is_empty() {
                    let p = b.any_prog(Lang::Sol);
                    let path = b.place("/work/src", p, "S", false);
                    j.inputs.push(Input::Prog(path, p));
                }
            }
            let mut c = comps(b, &[&j], true);
            // several compilers may be installed
            for t in ["/usr/local/bin/solc", "solc-select"] {
                c.tools.insert(t.into(), Tool::Solc);
            }
            one(b, "settings", j, c);
        }
        2 => {
            // an earlier run on an earlier version of the same file
            let lang = b.lang();
            let old = b.any_prog(lang);
            let new = b.any_prog(lang);
            let base = b.base();
            let path = b.place("/work/src", new, &base, false);
            let mut s = b.settings(OUT);
            s.print_original = b.r.chance(30);
            s.validate = b.r.chance(40);
            let mut j = b.job(vec![Input::Prog(path.clone(), new)], s);
            if b.r.chance(30) {
                j = pretty(j);
            }
            let c = comps(b, &[&j], false);
            one(b, "edited input, earlier output", j.clone(), c.clone());
            let pr = b.probe(w);
            let n = pr.comps.len().max(1);
            let mut jold = j.clone();
            jold.inputs = vec![Input::Prog(path.clone(), old)];
            let mut i0 = b.inst(jold);
            if b.r.chance(60) {
                i0.faults = vec![b.crash(&pr.insts[0].ops)];
            }
            let mut p0 = b.phase("earlier", vec![i0.clone()], c.clone());
            p0.edits = vec![(path.clone(), Some(FileC::Source(old)))];
            let mut i1 = b.plan.phases[0].insts[0].clone();
            if b.r.chance(60) {
                i1.pid = i0.pid;
            }
            let mut p1 = b.phase("later", vec![i1], c);
            p1.fresh = false;
            p1.edits = vec![(path.clone(), Some(FileC::Source(new)))];
            for x in [format!("{}/{}_json.ast", b.tmp, basename(&path)), format!("{}/{base}.json", b.tmp), format!("{}/{}.json", b.tmp, basename(&path))] {
                if b.r.chance(50) {
                    p1.edits.push((x, Some(FileC::Ast(old))));
                }
            }
            for _ in 0..1 + b.r.below(3) {
                let at = b.r.below(n.min(6)) as u32;
                let f = if b.r.chance(60) { CompFault::NoOutput } else { b.comp_fault() };
                p1.comp.faults.push((at, f));
            }
            p1.purge = vec![(OUT.into(), ".none".into())];
            b.plan.phases = vec![p0, p1];
        }
        _ => {
            // two inputs with the same name
            let lang = b.lang();
            let base = b.base();
            let mut inputs = vec![];
            let mut l = vec![];
            let validate = b.r.chance(50);
            for k in 0..2 {
                let p = b.any_prog(lang);
                let path = b.place(&format!("/work/d{k}"), p, &base, false);
                let mut s = b.settings(&format!("/work/out{k}"));
                s.print_original = b.r.chance(30);
                s.validate = validate;
                let cp = format!("/work/c{k}.mgnx");
                b.plan.files.insert(cp.clone(), FileC::Config(lang, vec![path.clone()], s.clone()));
                inputs.push(Input::Config(cp, lang, vec![(path.clone(), p)], s));
                l.push((path, p));
            }
            let s = b.settings(OUT);
            let j = b.job(inputs, s);
            let c = comps(b, &[&j], true);
            one(b, "same name twice", j, c);
            let pr = b.probe(w);
            let n = pr.comps.len().max(1);
            for _ in 0..b.r.below(4) {
                let at = b.r.below(n) as u32;
                let f = if b.r.chance(60) { CompFault::NoOutput } else { b.comp_fault() };
                b.plan.phases[0].comp.faults.push((at, f));
            }
        }
    }
}
fn p16(b: &mut B, w: &mut Worker) {
    let sc = b.r.below(11);
    if sc >= 9 {
        // unusual command lines
        let mut j = mixed(b, &Mix { units: 1, num: 2, validate: 20, ..Default::default() });
        j.save = b.r.chance(30);
        j.set.print_original = b.r.chance(50);
        match b.r.below(9) {
            0 => {
                let p = b.r.pick(&["/", "..", ".", "/work", "/work/..", "", "/nonexistent/x.sol"]).to_string();
                j.inputs.push(Input::Bad(p));
            }
            1 => {
                let x = b.bad_input();
                j.inputs.insert(0, x);
            }
            2 => {
                j.set.out = b.r.pick(&["/work/notes.txt", "", "/", "/work/a/b/c", "/work/src"]).to_string();
                b.plan.files.insert("/work/notes.txt".into(), FileC::Text("mine".into()));
            }
            3 => {
                j.set.functions = vec!["noSuchFunction".into()];
            }
            4 => j.set.num = 0,
            5 => {
                j.set.algs = vec!["NoSuchAlgorithm".into()];
                j.set.all = false;
            }
            _ => {
                for _ in 0..1 + b.r.below(3) {
                    let x = b.bad_input();
                    let at = b.r.below(j.inputs.len() + 1);
                    j.inputs.insert(at, x);
                }
            }
        }
        if b.r.chance(30) {
            let k = j.set.clone();
            j = pretty(j);
            j.set.out = k.out;
            if j.inputs.is_empty() {
                j.inputs.push(Input::Bad("/work/none.sol".into()));
            }
        }
        let c = comps(b, &[&j], false);
        one(b, "unusual command line", j, c);
        return;
    }
    let mut o = Opts::random(&mut b.r);
    o.odd = b.r.chance(70);
    let opts = if b.r.chance(60) { Some(o) } else { None };
    let mut j = mixed(b, &Mix { units: 2, num: 8, validate: 30, opts, ..Default::default() });
    j.save = b.r.chance(20);
    if b.r.chance(15) {
        j = pretty(j);
        if j.inputs.is_empty() {
            let p = b.any_prog(Lang::Sol);
            let i = b.input("/work/src", p);
            j.inputs.push(i);
        }
    }
    if sc < 3 {
        let c = comps(b, &[&j], true);
        one(b, "valid programs", j, c);
        return;
    }
    if sc < 7 {
        // make sure compilers have something to do
        let lang = b.lang();
        let p = b.any_prog(lang);
        let base = b.base();
        let path = b.place("/work/src", p, &base, false);
        j.inputs.insert(0, Input::Prog(path, p));
    }
    let c = comps(b, &[&j], true);
    one(b, "fault free", j.clone(), c.clone());
    let pr = b.probe(w);
    let mut i = b.plan.phases[0].insts[0].clone();
    let n = pr.comps.len().max(1);
    let mut p;
    if sc < 7 {
        p = b.phase("compiler faults", vec![i], c);
        if b.r.chance(20) {
            p.comp.tools.clear();
        } else if b.r.chance(30) {
            // an installation that never works
            let f = b.comp_fault();
            for k in 0..200 {
                p.comp.faults.push((k, f.clone()));
            }
        } else {
            for _ in 0..1 + b.r.below(3) {
                let at = b.r.below(n) as u32;
                let f = b.comp_fault();
                p.comp.faults.push((at, f));
            }
        }
        if b.r.chance(20) {
            p.comp.chunk = 100;
        }
        b.plan.scenario = "compiler faults".into();
    } else {
        let f = b.hard_fault(&pr.insts[0].ops, &[Cls::OpenR, Cls::OpenW, Cls::Read, Cls::Write, Cls::Mkdir, Cls::Unlink, Cls::Rmdir, Cls::Rename, Cls::Stat, Cls::Spawn, Cls::Wait, Cls::Misc]);
        i.faults.extend(f);
        p = b.phase("failing call", vec![i], c);
        b.plan.scenario = "failing call".into();
    }
    b.plan.phases.push(p);
}
fn p17(b: &mut B) {
    let mut j = mixed(b, &Mix { units: 3, num: 6, validate: 40, original: 50, config: 20, ..Default::default() });
    if b.r.chance(25) {
        j = pretty(j);
        if j.inputs.is_empty() {
            let p = b.any_prog(Lang::Sol);
            let i = b.input("/work/src", p);
            j.inputs.push(i);
        }
    } else {
        // configuration files name an output directory or standard output: only the latter
        // is the same mode, so inputs from configuration files get it below
    }
    let c = comps(b, &[&j], true);
    one(b, "files, then standard output", j.clone(), c.clone());
    let mut k = j.clone();
    k.stdout = true;
    let mut edits = vec![];
    for x in &mut k.inputs {
        if let Input::Config(p, l, fs, s) = x {
            s.out = "stdout".into();
            edits.push((p.clone(), Some(FileC::Config(*l, fs.iter().map(|f| f.0.clone()).collect(), s.clone()))));
        }
    }
    let mut i = b.inst(k);
    if b.r.chance(50) {
        i.faults = (0..b.r.below(12)).map(|_| Fault { cls: Cls::Stdout, nth: b.r.below(400) as u32, action: if b.r.chance(50) { Action::Short(1 + b.r.below(5) as i32) } else { Action::Err(libc::EINTR) } }).collect();
    }
    let mut p = b.phase("stdout", vec![i], c);
    p.edits = edits;
    b.plan.phases.push(p);
}
fn p18(b: &mut B) {
    let mut j = mixed(b, &Mix { units: 3, num: 5, validate: 40, config: 50, functions: 10, settings: 50, ..Default::default() });
    if j.inputs.len() < 2 {
        let lang = b.lang();
        let p = b.any_prog(lang);
        let i = b.input("/work/src", p);
        j.inputs.push(i);
    }
    let bad = b.r.chance(30);
    if bad {
        let x = b.bad_input();
        let at = b.r.below(j.inputs.len() + 1);
        j.inputs.insert(at, x);
    }
    let mut c = comps(b, &[&j], true);
    c.strict = b.r.chance(60);
    b.plan.scenario = if bad { "alone and together, with a bad input".into() } else { "alone and together".into() };
    // any order
    for k in (1..j.inputs.len()).rev() {
        let m = b.r.below(k + 1);
        j.inputs.swap(k, m);
    }
    one(b, "", j.clone(), c.clone());
    b.plan.scenario = if bad { "alone and together, with a bad input".into() } else { "alone and together".into() };
    for x in j.inputs.clone() {
        if let Input::Bad(_) = x {
            continue;
        }
        let mut a = j.clone();
        a.inputs = vec![x];
        let i = b.inst(a);
        let p = b.phase("alone", vec![i], c.clone());
        b.plan.phases.push(p);
    }
}
fn p19(b: &mut B, w: &mut Worker) {
    let mut j = pretty(mixed(b, &Mix { units: 3, config: 0, ..Default::default() }));
    let bad = b.r.below(3);
    for _ in 0..bad {
        let x = b.bad_input();
        let at = b.r.below(j.inputs.len() + 1);
        j.inputs.insert(at, x);
    }
    j.stdout = b.r.chance(40);
    let c = comps(b, &[&j], false);
    one(b, "together", j.clone(), c.clone());
    let pr = b.probe(w);
    if !j.stdout && b.r.chance(30) {
        if let Some(f) = b.hard_fault(&pr.insts[0].ops, &[Cls::OpenW, Cls::Write, Cls::OpenR, Cls::Read]) {
            let f = Fault { action: match f.action { Action::ErrSticky(e) => Action::Err(e), a => a }, ..f };
            b.plan.phases[0].insts[0].faults.push(f);
            b.plan.scenario = "together, failing call".into();
        }
    } else if b.r.chance(30) && !pr.comps.is_empty() {
        let at = b.r.below(pr.comps.len()) as u32;
        let f = b.comp_fault();
        b.plan.phases[0].comp.faults.push((at, f));
        b.plan.scenario = "together, failing compiler".into();
    }
    for x in j.inputs.clone() {
        if let Input::Bad(_) = x {
            continue;
        }
        let mut a = j.clone();
        a.inputs = vec![x];
        let i = b.inst(a);
        let p = b.phase("alone", vec![i], c.clone());
        b.plan.phases.push(p);
    }
}
fn p20(b: &mut B, w: &mut Worker) {
    let mut j = mixed(b, &Mix { units: 2, num: 4, validate: 60, ..Default::default() });
    let lang = b.lang();
    let p = b.any_prog(lang);
    let base = b.base();
    let path = b.place("/work/src", p, &base, false);
    j.inputs.insert(0, Input::Prog(path, p));
    if b.r.chance(20) {
        j = pretty(j);
    }
    if b.r.chance(20) {
        let x = b.bad_input();
        j.inputs.insert(0, x);
    }
    let t = format!("{}/other.txt", b.tmp);
    b.plan.files.insert(t, FileC::Text("theirs".into()));
    let c = comps(b, &[&j], true);
    one(b, "temporary files", j, c);
    let m = b.r.below(10);
    if m < 6 {
        let pr = b.probe(w);
        if m < 4 && !pr.comps.is_empty() {
            for _ in 0..1 + b.r.below(3) {
                let at = b.r.below(pr.comps.len()) as u32;
                let f = b.comp_fault();
                b.plan.phases[0].comp.faults.push((at, f));
            }
            b.plan.scenario += ", failing compiler";
        }
        if m > 2 {
            if let Some(f) = b.hard_fault(&pr.insts[0].ops, &[Cls::OpenW, Cls::Write, Cls::OpenR, Cls::Read, Cls::Mkdir, Cls::Spawn, Cls::Wait, Cls::Misc, Cls::Rename]) {
                let f = Fault { action: match f.action { Action::ErrSticky(e) => Action::Err(e), a => a }, ..f };
                b.plan.phases[0].insts[0].faults.push(f);
                b.plan.scenario += ", failing call";
            }
        }
    }
}
/// printed programs: in every mode, after every kind of history
fn p21(b: &mut B, w: &mut Worker) {
    let mut j = mixed(b, &Mix { units: 3, num: 6, validate: 30, original: 100, config: 15, ..Default::default() });
    j.set.print_original = true;
    let mode = b.r.below(4);
    if mode >= 2 {
        j = pretty(j);
        if j.inputs.is_empty() || b.r.chance(50) {
            let lang = b.lang();
            let p = b.any_prog(lang);
            let i = b.input("/work/src", p);
            j.inputs.push(i);
        }
        j.stdout = b.r.chance(30);
        if j.stdout {
            j.inputs.truncate(1);
        }
        if b.r.chance(20) && !j.stdout {
            let x = b.bad_input();
            j.inputs.insert(0, x);
        }
    } else {
        for x in &mut j.inputs {
            if let Input::Config(p, l, fs, s) = x {
                s.print_original = true;
                b.plan.files.insert(p.clone(), FileC::Config(*l, fs.iter().map(|f| f.0.clone()).collect(), s.clone()));
            }
        }
    }
    let c = comps(b, &[&j], true);
    one(b, if mode >= 2 { "pretty-print" } else { "original beside mutants" }, j.clone(), c);
    if b.r.chance(40) {
        let mut e = leftovers(b, &j);
        b.plan.phases[0].edits.append(&mut e);
    }
    if b.r.chance(50) {
        let mut p = b.plan.phases[0].clone();
        timing(b, &mut p);
        b.plan.phases[0] = p;
    }
    if b.r.chance(40) {
        let pr = b.probe(w);
        let n = 1 + b.r.below(12);
        let f = b.benign_faults(&pr.insts[0].ops, n);
        b.plan.phases[0].insts[0].faults = f;
    }
}
/// the same settings on the command line and in a configuration file
fn p22(b: &mut B) {
    let lang = b.lang();
    let mut s = b.settings(OUT);
    s.num = 1 + b.r.below(7);
    s.validate = b.r.chance(50);
    s.print_original = b.r.chance(40);
    if b.r.chance(60) {
        b.compilers(&mut s);
    }
    let mut l: Vec<(String, usize)> = vec![];
    for _ in 0..1 + b.r.below(3) {
        let p = b.any_prog(lang);
        if let Input::Prog(path, p) = b.input("/work/src", p) {
            l.push((path, p));
        }
    }
    if b.r.chance(40) {
        let ps: Vec<usize> = l.iter().map(|x| x.1).collect();
        s.functions = some_functions(b, &ps);
    }
    let stdout = b.r.chance(20);
    let mut j = b.job(l.iter().map(|(p, k)| Input::Prog(p.clone(), *k)).collect(), s.clone());
    j.stdout = stdout;
    j.save = !stdout && b.r.chance(30);
    // what the file leaves to the command line, the command line has; what the file says counts
    let mut cs = s.clone();
    let mut cl = b.settings("/work/elsewhere");
    cl.num = s.num + 1 + b.r.below(5);
    cl.validate = b.r.chance(50);
    cl.print_original = b.r.chance(50);
    b.compilers(&mut cl);
    cl.seed = if b.r.chance(70) { Some(b.seed()) } else { None };
    if b.r.chance(30) {
        cs.seed = None;
        cl.seed = s.seed;
    }
    if b.r.chance(30) {
        cs.algs = vec![];
        cs.all = false;
        cl.algs = s.algs.clone();
        cl.all = s.all;
    }
    if s.functions.is_empty() || b.r.chance(30) {
        cs.functions = vec![];
        cl.functions = s.functions.clone();
    } else if b.r.chance(60) {
        cl.functions = vec![b.r.pick(&FNAMES).to_string()];
    }
    let mut k = j.clone();
    if b.r.chance(30) {
        cs.out = String::new();
        cl.out = s.out.clone();
    } else if stdout {
        cs.out = "stdout".into();
        k.stdout = b.r.chance(50);
    }
    if b.r.chance(25) {
        cs.no_details = true;
        for x in [&mut cs, &mut cl] {
            *x = Settings { solc: s.solc.clone(), base_path: s.base_path.clone(), include: s.include.clone(), allow: s.allow.clone(), remap: s.remap.clone(), stop_after: s.stop_after.clone(), vyper: s.vyper.clone(), root_path: s.root_path.clone(), ..x.clone() };
        }
    } else {
        // a file names the compiler of its own language
        match lang {
            Lang::Sol => (cl.vyper, cl.root_path) = (s.vyper.clone(), s.root_path.clone()),
            Lang::Vy => cl = Settings { solc: s.solc.clone(), base_path: s.base_path.clone(), include: s.include.clone(), allow: s.allow.clone(), remap: s.remap.clone(), stop_after: s.stop_after.clone(), ..cl.clone() },
        }
    }
    cs.style = if b.r.chance(20) { 0 } else { b.r.below(2048) as u32 };
    let base = b.base();
    let path = format!("/work/cfg/{base}.mgnx");
    b.plan.files.insert(path.clone(), FileC::Config(lang, l.iter().map(|x| x.0.clone()).collect(), cs.clone()));
    k.inputs = vec![Input::Config(path, lang, l, cs)];
    k.set = cl;
    let mut c = comps(b, &[&j, &k], true);
    c.strict = b.r.chance(50);
    one(b, "command line, then configuration file", j, c.clone());
    let mut i = b.inst(k);
    jitter(b, &mut i);
    i.env.retain(|e| e.0 != "RUST_LOG");
    let mut p = b.phase("configuration file", vec![i], c);
    if b.r.chance(30) {
        timing(b, &mut p);
    }
    b.plan.phases.push(p);
}
/// the listing on terminals of any kind
fn p23(b: &mut B) {
    let p = b.any_prog(Lang::Sol);
    let i = b.input("/work/src", p);
    let s = b.settings(OUT);
    let j = b.job(vec![i], s);
    let c = comps(b, &[&j], false);
    b.plan.scenario = "listing".into();
    for (flag, wide) in [("-l", true), ("-d", true), ("-l", false), ("-d", false)] {
        let mut i = b.inst(j.clone());
        i.job = None;
        i.argv = vec!["algorithms".into(), if b.r.chance(50) { flag.into() } else if flag == "-l" { "--list".into() } else { "--describe".into() }];
        if wide {
            i.tty = Some(30_000);
        } else {
            jitter(b, &mut i);
            i.tty = match b.r.below(6) {
                0 => None,
                1 => Some(b.r.below(30) as u32),
                2 => Some(b.r.below(60_000) as u32),
                _ => Some(20 + b.r.below(140) as u32),
            };
            if b.r.chance(50) {
                i.faults = (0..b.r.below(20)).map(|_| Fault { cls: Cls::Stdout, nth: b.r.below(900) as u32, action: if b.r.chance(50) { Action::Short(1 + b.r.below(5) as i32) } else { Action::Err(libc::EINTR) } }).collect();
            }
        }
        let p = b.phase(flag, vec![i], c.clone());
        b.plan.phases.push(p);
    }
}
/// the same program and algorithm again and again, with different random seeds
fn p24(b: &mut B) {
    // in turn, so that a short search meets every algorithm
    use crate::model::{ALGS_SOL, ALGS_VY};
    let i = b.plan.seed as usize % (ALGS_SOL.len() + ALGS_VY.len());
    let lang = if i < ALGS_SOL.len() { Lang::Sol } else { Lang::Vy };
    let mut alg = if i < ALGS_SOL.len() { ALGS_SOL[i] } else { ALGS_VY[i - ALGS_SOL.len()] }.to_string();
    // a small program with few places for the algorithm (and much choice there), or one with many
    let mut best: Option<(usize, serde_json::Value)> = None;
    let large = b.r.chance(6);
    let tries = if b.r.chance(60) { 25 } else { 1 };
    let mut found = 0;
    for k in 0..60 {
        let mut o = Opts::small(&mut b.r);
        o.stmts = 1 + b.r.below(4);
        o.depth = 1 + b.r.below(2);
        if matches!(alg.as_str(), "SwapLines" | "DeleteStatement" | "UncheckedBlock") {
            o.stmts = 3 + b.r.below(4);
            o.depth = 1;
        }
        if large {
            o.stmts = 4 + b.r.below(6);
            o.depth = 1 + b.r.below(3);
        }
        o.odd = b.r.chance(30);
        o.exotic = b.r.chance(20);
        let ast = crate::gen::program(lang, &mut b.r, &o);
        let m = crate::model::Model::new(lang, &ast);
        let c = m.cands(&alg).len();
        if !m.toks.is_empty() && c > 0 && c <= if large { 400 } else { 60 } && m.toks.len() * c.min(if large { 120 } else { 1 }) <= if large { 80_000 } else { 450 } {
            let mut per: std::collections::BTreeMap<usize, usize> = Default::default();
            for c in m.cands(&alg).iter().filter(|c| c.sure) {
                *per.entry(c.site).or_default() += 1;
            }
            let choice = per.values().max().copied().unwrap_or(0);
            if best.as_ref().map_or(true, |x| x.0 < choice) {
                best = Some((choice, ast));
            }
            found += 1;
        }
        if found >= tries {
            break;
        }
        if k == 40 && best.is_none() {
            alg = any_alg(b, lang);
        }
    }
    let prog = match best {
        Some((_, ast)) => {
            b.plan.programs.push(Program { lang, ast });
            b.plan.programs.len() - 1
        }
        None => b.any_prog(lang),
    };
    let base = b.base();
    let source = b.r.chance(4);
    let path = b.place("/work/src", prog, &base, !source);
    let restrict = b.r.chance(15);
    let functions = if restrict { some_functions(b, &[prog]) } else { vec![] };
    let m = crate::model::Model::new(lang, &b.plan.programs[prog].ast);
    let mut per: std::collections::BTreeMap<usize, usize> = Default::default();
    for c in m.cands(&alg).iter() {
        *per.entry(c.site).or_default() += 1;
    }
    let most = per.values().max().copied().unwrap_or(1);
    let num = if large { 400 } else if b.r.chance(75) { 70 } else { 1 + b.r.below(4) };
    let runs = if source { 40 } else if large { 28 } else { (30 * most * if num < per.len() { per.len() / num + 1 } else { 1 }).min(400_000 / (per.len() * m.toks.len()).max(1)).clamp(60, 600) };
    let mut inputs = vec![];
    for k in 0..runs {
        let mut s = b.settings(&format!("/work/o{k}"));
        s.seed = Some(b.r.range(0, 1 << 60));
        s.algs = vec![alg.clone()];
        s.all = false;
        s.num = num;
        s.functions = functions.clone();
        s.validate = source;
        let cp = format!("/work/cfg/c{k}.mgnx");
        b.plan.files.insert(cp.clone(), FileC::Config(lang, vec![path.clone()], s.clone()));
        inputs.push(Input::Config(cp, lang, vec![(path.clone(), prog)], s));
    }
    let s = b.settings(OUT);
    let j = b.job(inputs, s);
    let mut c = comps(b, &[&j], true);
    c.accept_pct = 100;
    c.parse_only_pct = 0;
    c.strict = false;
    c.reject_alg = None;
    one(b, "many seeds", j, c);
}
