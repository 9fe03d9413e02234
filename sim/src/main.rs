mod build;
mod check;
mod compiler;
mod exec;
mod gen;
mod kernel;
mod lex;
mod model;
mod obs;
mod plan;
mod rng;
mod scen;
mod shm;
mod shrink;
use kernel::Worker;
use plan::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);
pub fn cleanup() {
    if let Some(p) = SCRATCH.lock().unwrap().as_ref() {
        let _ = std::fs::remove_dir_all(p);
    }
}
fn scratch() -> PathBuf {
    // what earlier runs that were killed left behind
    if let Ok(rd) = std::fs::read_dir("/dev/shm") {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = n.strip_prefix("sim-") {
                if !Path::new(&format!("/proc/{pid}")).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
    let p = PathBuf::from(format!("/dev/shm/sim-{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    *SCRATCH.lock().unwrap() = Some(p.clone());
    p
}
fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn verif() -> PathBuf {
    PathBuf::from(std::env::var("SIM_VERIF").unwrap_or("/verif".into()))
}
fn worker(sc: &Path, k: usize) -> Worker {
    let b = verif().join(".build");
    let bin = std::env::var("SIM_BIN").map(PathBuf::from).unwrap_or(b.join("target/release/mutagenyx"));
    // the path must have the same length whatever the number of the worker
    Worker::new(&bin, &b.join("libsim.so"), &sc.join(format!("w{k:03}")))
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    violation: String,
    trace: String,
    plan: Plan,
    original_seed: u64,
    minimisation_runs: u32,
}

#[derive(Default)]
struct Stats {
    runs: u64,
    phases: u64,
    insts: u64,
    nontrivial: u64,
    weight: u64,
    traces: HashSet<u64>,
    scheds: HashSet<u64>,
    switches: u64,
    ops: u64,
    sim_ns: i128,
    comps: u64,
    rejected: u64,
    ends: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    comp_faults: BTreeMap<String, u64>,
    scenarios: BTreeMap<String, u64>,
    again: u64,
    differ: u64,
    samples: Vec<Value>,
}
impl Stats {
    fn add(&mut self, plan: &Plan, run: &exec::Run, v: &check::Verdict) {
        self.runs += 1;
        self.weight += v.weight as u64;
        *self.scenarios.entry(plan.scenario.clone()).or_default() += 1;
        if v.weight > 0 {
            self.nontrivial += 1;
            self.traces.insert(run.trace());
        }
        for (ph, r) in plan.phases.iter().zip(&run.phases) {
            self.phases += 1;
            self.switches += r.switches;
            if r.decisions.len() > 1 {
                self.scheds.insert(r.decisions.iter().fold(7, |a, d| rng::mix(a ^ *d as u64)));
            }
            for c in &r.comps {
                self.comps += 1;
                if c.status != 0 {
                    self.rejected += 1;
                }
                if let Some(f) = &c.fault {
                    let n = format!("{f:?}");
                    let n = n.split(['(', ' ']).next().unwrap().to_string();
                    *self.comp_faults.entry(format!("compiler {n}")).or_default() += 1;
                }
            }
            if ph.comp.lag > 0 {
                *self.fired.entry("slow compilers (phases)".into()).or_default() += 1;
            }
            if ph.comp.chunk > 0 {
                *self.fired.entry("compiler output in pieces (phases)".into()).or_default() += 1;
            }
            if !ph.edits.is_empty() {
                *self.fired.entry("files left behind or edited".into()).or_default() += ph.edits.len() as u64;
            }
            for (i, x) in ph.insts.iter().zip(&r.insts) {
                self.insts += 1;
                self.ops += x.total_ops;
                self.sim_ns += x.ops[Cls::Clock as usize] as i128 * i.clock_step as i128;
                let e = format!("{:?}", x.end);
                if std::env::var("SIM_ENDS").map_or(false, |x| x == e) {
                    eprintln!("{e}: seed {}", plan.seed);
                }
                *self.ends.entry(e).or_default() += 1;
                for (f, n) in i.faults.iter().zip(&x.fired) {
                    if *n > 0 {
                        let a = match f.action {
                            Action::Err(libc::EINTR) => "EINTR".to_string(),
                            Action::Err(e) => format!("errno {e}"),
                            Action::ErrSticky(e) => format!("errno {e} persistent"),
                            Action::Short(_) => "short transfer".into(),
                            Action::CrashBefore => "kill before".into(),
                            Action::CrashAfter => "kill after".into(),
                            Action::Torn(_) => "kill during write".into(),
                            Action::ClockJump(_) => "clock jump".into(),
                        };
                        *self.fired.entry(format!("{} {a}", CLS_NAMES[f.cls as usize])).or_default() += *n as u64;
                    }
                }
                if x.disk_full > 0 {
                    *self.fired.entry("disk full".into()).or_default() += 1;
                }
            }
        }
        if v.weight > 0 && self.samples.len() < 3 {
            let k = plan.phases.len() - 1;
            self.samples.push(json!({
                "seed": plan.seed, "scenario": plan.scenario,
                "command_lines": plan.phases.iter().map(|p| p.insts.iter().map(|i| i.argv.join(" ")).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "faults": plan.phases.iter().map(|p| p.insts.iter().map(|i| i.faults.len()).sum::<usize>() + p.comp.faults.len()).sum::<usize>(),
                "end": format!("{:?}", run.phases[k].insts[0].end),
                "operations": run.phases[k].insts[0].total_ops,
                "compiler_runs": run.phases[k].comps.len(),
                "facts_checked": v.weight,
            }));
        }
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.phases += o.phases;
        self.insts += o.insts;
        self.nontrivial += o.nontrivial;
        self.weight += o.weight;
        self.traces.extend(o.traces);
        self.scheds.extend(o.scheds);
        self.switches += o.switches;
        self.ops += o.ops;
        self.sim_ns += o.sim_ns;
        self.comps += o.comps;
        self.rejected += o.rejected;
        self.again += o.again;
        self.differ += o.differ;
        for (a, b) in [(&mut self.ends, o.ends), (&mut self.fired, o.fired), (&mut self.comp_faults, o.comp_faults), (&mut self.scenarios, o.scenarios)] {
            for (k, n) in b {
                *a.entry(k).or_default() += n;
            }
        }
        self.samples.extend(o.samples);
        self.samples.truncate(4);
    }
}
struct Finding {
    property: String,
    what: String,
    needle: String,
}
/// lines "known: property=<id> | <what fails> | <text that identifies it>"; others are ignored
fn known_findings() -> Vec<Finding> {
    let t = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: property=")?;
            let mut it = r.split(" | ");
            Some(Finding { property: it.next()?.trim().into(), what: it.next()?.trim().into(), needle: it.next()?.trim().into() })
        })
        .collect()
}
struct Found {
    index: u64,
    plan: Plan,
    viol: Vec<String>,
}
fn search(prop: &str, base: u64, runs: u64, jobs: usize, limit: Duration, sc: &Path, known: &[Finding], stop: bool) -> (Stats, Vec<Found>, BTreeSet<String>) {
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let t0 = Instant::now();
    let all = Mutex::new((Stats::default(), Vec::<Found>::new(), BTreeSet::new()));
    std::thread::scope(|s| {
        for k in 0..jobs {
            let (next, best, all) = (&next, &best, &all);
            s.spawn(move || {
                let mut w = worker(sc, k);
                let mut st = Stats::default();
                let mut found = vec![];
                let mut kf = BTreeSet::new();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= runs || (stop && i > best.load(SeqCst)) || t0.elapsed() > limit {
                        break;
                    }
                    let seed = rng::mix(base).wrapping_add(i);
                    let plan = scen::generate(prop, seed, &mut w);
                    let run = exec::run(&mut w, &plan);
                    let v = check::check(&plan, &run);
                    st.add(&plan, &run, &v);
                    if i % 64 == 5 {
                        // the same seed again must be the same execution
                        let plan2 = scen::generate(prop, seed, &mut w);
                        let run2 = exec::run(&mut w, &plan2);
                        st.again += 1;
                        if plan2 != plan || run2.trace() != run.trace() {
                            st.differ += 1;
                            eprintln!("note: seed {seed} (run {i}) is not repeatable");
                        }
                    }
                    let mut fresh = vec![];
                    for x in &v.viol {
                        match known.iter().find(|f| f.property == prop && x.contains(&f.needle)) {
                            Some(f) => {
                                kf.insert(f.what.clone());
                            }
                            None => fresh.push(x.clone()),
                        }
                    }
                    if !fresh.is_empty() {
                        best.fetch_min(i, SeqCst);
                        found.push(Found { index: i, plan, viol: fresh });
                    }
                }
                let mut a = all.lock().unwrap();
                a.0.merge(st);
                a.1.extend(found);
                a.2.extend(kf);
            });
        }
    });
    let mut a = all.into_inner().unwrap();
    a.1.sort_by_key(|f| f.index);
    a
}
/// simulated runs per check
fn budget(prop: &str, tier: &str) -> u64 {
    let q = match prop {
        "P12" | "P18" | "P19" | "P14" => 2500,
        "P24" => 400,
        _ => 4000,
    };
    if tier == "thorough" {
        q * 25
    } else {
        q
    }
}
fn rule(prop: &str) -> String {
    let what = match prop {
        "P01" | "P02" | "P04" => "at least one mutant was written and compared with the reference model",
        "P03" => "at least one mutant was reported in the first of the two runs",
        "P05" => "at least one mutant was reported",
        "P06" => "at least one mutant was emitted under validation",
        "P07" => "the instance performed operations",
        "P08" => "at least one mutant was emitted under a function restriction, or a restriction had places to mutate",
        "P09" => "files existed before the run",
        "P10" => "an injected storage failure hit a result file or directory",
        "P11" => "an interruption or short transfer fired or a compiler ran",
        "P12" => "control passed between processes at least once",
        "P13" => "at least one result was compared with its replay",
        "P14" => "at least one instance was killed by the injected crash",
        "P15" => "at least one compiler was run",
        "P16" => "every run counts",
        "P17" => "at least one file was compared with the stream",
        "P18" => "at least one result was compared",
        "P19" => "at least one input was compared",
        "P21" => "at least one printed program was compared",
        "P22" => "at least one result was compared",
        "P23" => "every run counts",
        "P25" => "at least one comment was examined",
        "P24" => "at least one possible mutation was expected",
        _ => "at least one compiler was run",
    };
    format!("each evaluation is one seeded plan (programs, files, command lines, compilers, faults, schedule) executed in the simulator and judged by the oracle of {prop}; non-trivial: {what}; distinct: by hash of the complete recorded history (operations, outputs, files, scheduling decisions)")
}
const ASSUME: [&str; 5] = [
    "compilers, the terminal, the clock, hash seeding and the kernel's scheduling are simulated; the tool is the unmodified release binary with its own allocator, argument parsing, file and process code",
    "the simulated compilers follow the command-line rules of solc, vyper and docker that the tool relies on",
    "programs are drawn from generators of syntax trees that use the constructs the printers support",
    "a kill loses nothing that a write call had accepted (process crash, not power loss)",
    "the tool is single-threaded",
];
fn do_check(a: &[String]) -> i32 {
    let prop = arg(a, "--property").expect("--property");
    let tier = arg(a, "--tier").unwrap_or("quick".into());
    let seed: u64 = arg(a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let jobs: usize = arg(a, "--jobs").and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let runs: u64 = arg(a, "--runs").and_then(|x| x.parse().ok()).unwrap_or(budget(&prop, &tier));
    let cap: u64 = arg(a, "--seconds").and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 780 } else if prop == "P24" { 100 } else { 50 });
    let t0 = Instant::now();
    let sc = scratch();
    let known = known_findings();
    let (st, found, kf) = search(&prop, seed, runs, jobs, Duration::from_secs(cap), &sc, &known, true);
    let search_s = t0.elapsed().as_secs_f64();
    for k in &kf {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let mut code = 0;
    let mut shown = vec![];
    if let Some(f) = found.first() {
        code = 1;
        let mut w = worker(&sc, 99);
        let (min, n) = shrink::shrink(&mut w, &f.plan, &f.viol[0], Duration::from_secs(20));
        let run = exec::run(&mut w, &min);
        let v = check::check(&min, &run);
        let text = v.viol.first().cloned().unwrap_or_else(|| f.viol[0].clone());
        let r = Replay { property: prop.clone(), violation: text.clone(), trace: format!("{:016x}", run.trace()), plan: min, original_seed: f.plan.seed, minimisation_runs: n };
        let dir = verif().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{prop}-{:016x}.json", f.plan.seed));
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
        println!("{prop}: {text}");
        println!("  run {} of base seed {seed}, scenario {:?}, minimised in {n} runs", f.index, f.plan.scenario);
        println!("VIOLATION property={prop} replay={}", path.display());
        shown.push(text);
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let mut faults = st.fired.clone();
    faults.extend(st.comp_faults.clone());
    let ev = json!({
        "property": prop, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.traces.len(),
            "rule": rule(&prop),
            "samples": st.samples,
            "facts_checked": st.weight,
            "simulated_phases": st.phases,
            "simulated_tool_processes": st.insts,
            "simulated_compiler_processes": st.comps,
            "compiler_processes_that_failed": st.rejected,
            "operations_intercepted": st.ops,
            "simulated_seconds": (st.sim_ns / 1_000_000) as f64 / 1000.0,
            "runs_per_hour": per_hour(st.runs),
            "distinct_schedules": st.scheds.len(),
            "schedule_measure": "hash of the sequence of scheduling decisions of a phase with more than one decision",
            "context_switches": st.switches,
            "faults_injected": faults,
            "scenarios": st.scenarios,
            "endings": st.ends,
            "seeds_executed_twice": st.again,
            "seeds_that_did_not_repeat": st.differ,
            "real_code": ["mutagenyx binary (argument parsing, recognizer, mutators, printers, comment insertion, configuration files, process handling)", "Rust standard library"],
            "stubs": ["solc", "vyper", "docker", "clock", "random device", "process ids", "pipes to compilers", "terminal", "disk capacity"],
            "known_findings_seen": kf.len(),
            "violation": shown,
        },
        "assumptions": ASSUME,
        "wall_s": wall, "violations": code,
    });
    let d = verif().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!("{prop}: {} runs ({} distinct non-trivial) in {:.1} s, {} facts checked, {} faults fired, {} not repeatable", st.runs, st.traces.len(), search_s, st.weight, faults.values().sum::<u64>(), st.differ);
    cleanup();
    code
}
fn do_replay(file: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay format");
    let sc = scratch();
    let mut w = worker(&sc, 0);
    let run = exec::run(&mut w, &r.plan);
    let v = check::check(&r.plan, &run);
    println!("trace {:016x} (recorded {})", run.trace(), r.trace);
    if std::env::var("SIM_SHOW").is_ok() {
        show(&r.plan, &run);
    }
    cleanup();
    match v.viol.first() {
        Some(x) => {
            println!("{}: {x}", r.property);
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
fn show(plan: &Plan, run: &exec::Run) {
    for (p, r) in plan.phases.iter().zip(&run.phases) {
        println!("=== phase {} fresh {} sched {:?} comp {:?}", p.label, p.fresh, p.sched.tail, p.comp);
        for e in &p.edits {
            println!("  edit {} {:?}", e.0, e.1.as_ref().map(|x| format!("{x:?}").chars().take(100).collect::<String>()));
        }
        for (i, x) in p.insts.iter().zip(&r.insts) {
            println!("--- {} env {:?} pid {} faults {:?} fired {:?} disk {:?}", i.argv.join(" "), i.env, i.pid, i.faults, x.fired, i.disk);
            println!("end {:?} ops {:?}\nstdout:\n{}\nstderr:\n{}", x.end, x.total_ops, x.stdout(), x.stderr().chars().take(3000).collect::<String>());
            if std::env::var("SIM_LOG").is_ok() {
                for e in &x.log {
                    println!("  {:5} {} {} ret {} n {} bytes {} fault {} {}", e.seq, CLS_NAMES[e.op as usize], e.p1, e.ret, e.n, e.bytes, e.fault, e.p2);
                }
            }
        }
        for c in &r.comps {
            println!("  comp inst {} {} -> status {} mode {:?} known {:?} fault {:?} {}", c.inst, c.argv.join(" "), c.status, c.mode, c.known, c.fault, c.why);
        }
        for (k, n) in &r.after {
            let changed = r.before.get(k) != Some(n);
            if let kernel::Node::File(f) = n {
                println!("  {} {k} ({} bytes)", if changed { "*" } else { " " }, f.len());
                if changed && std::env::var("SIM_FILES").is_ok() {
                    println!("{}", String::from_utf8_lossy(f));
                }
            }
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => do_check(&a),
        Some("replay") => do_replay(&a[2]),
        Some("survey") => {
            // development: kinds of violations over many seeds
            let runs: u64 = arg(&a, "--runs").and_then(|x| x.parse().ok()).unwrap_or(400);
            let base: u64 = arg(&a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let sc = scratch();
            for prop in arg(&a, "--property").unwrap().split(',') {
                let t = Instant::now();
                let (st, found, _) = search(prop, base, runs, 8, Duration::from_secs(600), &sc, &[], false);
                let mut kinds: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
                for f in &found {
                    let mut seen = BTreeSet::new();
                    for x in &f.viol {
                        let k = shrink::kind(x);
                        if seen.insert(k.clone()) {
                            let e = kinds.entry(k).or_insert((0, f.plan.seed, x.clone()));
                            e.0 += 1;
                        }
                    }
                }
                println!("## {prop}: {} runs, {} nontrivial, {} distinct, {} violating, {:.1} s, differ {}/{}, ends {:?}", st.runs, st.nontrivial, st.traces.len(), found.len(), t.elapsed().as_secs_f64(), st.differ, st.again, st.ends);
                let mut l: Vec<_> = kinds.into_iter().collect();
                l.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
                for (_, (n, seed, x)) in l.iter().take(arg(&a, "--kinds").and_then(|x| x.parse().ok()).unwrap_or(12)) {
                    println!("  {n:4} seed {seed}: {}", x.chars().take(420).collect::<String>());
                }
            }
            cleanup();
            0
        }
        Some("dump") => {
            // development: the programs of a plan as files
            let sc = scratch();
            let mut w = worker(&sc, 0);
            let plan = scen::generate(&arg(&a, "--property").unwrap(), arg(&a, "--seed").unwrap().parse().unwrap(), &mut w);
            let d = PathBuf::from(arg(&a, "--dir").unwrap());
            for (i, p) in plan.programs.iter().enumerate() {
                let m = model::Model::new(p.lang, &p.ast);
                std::fs::write(d.join(format!("p{i}.{}", obs::ext(p.lang))), m.source()).unwrap();
                std::fs::write(d.join(format!("p{i}.{}.ast", obs::ext(p.lang))), serde_json::to_vec(&p.ast).unwrap()).unwrap();
            }
            cleanup();
            0
        }
        Some("show") => {
            let sc = scratch();
            let mut w = worker(&sc, 0);
            let prop = arg(&a, "--property").unwrap();
            let seed: u64 = arg(&a, "--seed").unwrap().parse().unwrap();
            let plan = scen::generate(&prop, seed, &mut w);
            let run = exec::run(&mut w, &plan);
            println!("scenario {} files {:?}", plan.scenario, plan.files.keys().collect::<Vec<_>>());
            for (i, p) in plan.programs.iter().enumerate() {
                if std::env::var("SIM_FILES").is_ok() {
                    println!("program {i}:\n{}", model::Model::new(p.lang, &p.ast).source());
                }
            }
            show(&plan, &run);
            for x in check::check(&plan, &run).viol {
                println!("VIOL {x}");
            }
            cleanup();
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|survey|show");
            2
        }
    };
    std::process::exit(code);
}
