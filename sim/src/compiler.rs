//! The simulated compilers: solc, vyper and docker as the tool sees them.
use crate::kernel::{normalise, real};
use crate::lex;
use crate::plan::*;
use std::collections::HashMap;
use std::path::Path;

/// token sequence -> program, for the source texts of the plan
pub struct Known<'a> {
    pub map: HashMap<(Lang, Vec<String>), usize>,
    pub models: &'a [crate::model::Model],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Version,
    Ast,
    Compile,
    Bad,
}

#[derive(Clone, Debug)]
pub struct CompRun {
    pub inst: usize,
    pub start_seq: u64,
    pub read_seq: u64,
    pub end_seq: u64,
    pub exe: String,
    pub argv: Vec<String>,
    pub cwd: String,
    pub tool: Tool,
    pub mode: Mode,
    pub lang: Lang,
    pub src_path: String,
    pub src: Option<Vec<u8>>,
    pub stop_after_parsing: bool,
    pub known: Option<usize>,
    /// what the compiler thinks of the source, apart from injected faults
    pub accepts: bool,
    pub fault: Option<CompFault>,
    pub status: i32,
    pub out_path: Option<String>,
    pub wrote: Option<(String, u64)>,
    pub why: String,
}
impl CompRun {
    pub fn new(inst: usize, seq: u64, exe: String, argv: Vec<String>, cwd: String, tool: Tool) -> CompRun {
        CompRun { inst, start_seq: seq, read_seq: 0, end_seq: u64::MAX, exe, argv, cwd, tool, mode: Mode::Bad, lang: Lang::Sol, src_path: String::new(), src: None, stop_after_parsing: false, known: None, accepts: false, fault: None, status: -1, out_path: None, wrote: None, why: String::new() }
    }
    pub fn success(&self) -> bool {
        self.status == 0
    }
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub write: Option<(String, Vec<u8>)>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub status: i32,
}

pub fn verdict(comp: &Compilers, lang: Lang, toks: &[String], parsing_only: bool, known: &Known, c: &CompRun) -> bool {
    if let Some(a) = &comp.reject_alg {
        if known.models.iter().any(|m| m.lang == lang && m.explains(a, toks).is_some()) {
            return false;
        }
    }
    let extra = if comp.strict { crate::rng::fnv(format!("{} {:?}", c.exe, given(&c.argv)).as_bytes()) } else { 0 };
    let h = crate::rng::mix(crate::rng::fnv(toks.join("\u{0}").as_bytes()) ^ comp.salt ^ extra ^ (lang as u64)) % 100;
    let h = h as u32;
    h < comp.accept_pct || (parsing_only && h < comp.accept_pct + comp.parse_only_pct)
}

/// the search paths given to a compiler, in no particular order
fn given(args: &[String]) -> Vec<String> {
    let mut v = vec![];
    for (i, a) in args.iter().enumerate() {
        let prev = if i > 0 { args[i - 1].as_str() } else { "" };
        match prev {
            "--base-path" | "--include-path" | "-p" => v.push(format!("{prev} {a}")),
            "--allow-paths" => v.extend(a.split(',').map(|x| format!("{prev} {x}"))),
            _ if !a.starts_with('-') && a.contains('=') => v.push(a.clone()),
            _ => {}
        }
    }
    v.sort();
    v.dedup();
    v
}
/// is this run one that the settings of some input ask for?
fn meant(plan: &Plan, ph: &Phase, c: &CompRun) -> bool {
    if !ph.comp.strict {
        return true;
    }
    let job = match ph.insts[c.inst].job.as_ref().or(plan.phases[0].insts[0].job.as_ref()) {
        Some(j) => j,
        None => return true,
    };
    let units: Vec<Unit> = job.units().into_iter().filter(|u| plan.programs[u.prog].lang == c.lang && (c.mode != Mode::Ast || Some(u.prog) == c.known)).collect();
    units.is_empty() || units.iter().any(|u| crate::obs::missing_setting(c, &u.set).is_none())
}

#[allow(clippy::too_many_arguments)]
pub fn decide(plan: &Plan, ph: &Phase, argv: &[String], cwd: &str, tool: &Tool, fsroot: &Path, fault: Option<CompFault>, known: &Known, c: &mut CompRun) -> Outcome {
    let args: Vec<String> = argv[1..].to_vec();
    let mut o = match tool {
        Tool::Solc => solc(plan, ph, &args, cwd, fsroot, known, c),
        Tool::Vyper { version } => vyper(plan, ph, &args, cwd, fsroot, known, c, version),
        Tool::Docker => docker(plan, ph, &args, cwd, fsroot, known, c),
    };
    c.fault = fault.clone();
    if let Some(f) = fault {
        match f {
            CompFault::Exit(s) => o = Outcome { write: None, stdout: vec![], stderr: b"internal error\n".to_vec(), status: s << 8 },
            CompFault::Kill(s) => o = Outcome { write: None, stdout: vec![], stderr: vec![], status: s },
            CompFault::KillTorn(s, n) => {
                o.status = s;
                if let Some((_, b)) = o.write.as_mut() {
                    b.truncate(n as usize);
                }
                o.stdout.truncate(n as usize);
            }
            CompFault::NoOutput => {
                o.write = None;
                o.stdout.clear();
                o.status = 0;
            }
            CompFault::Truncate(n) => {
                if let Some((_, b)) = o.write.as_mut() {
                    b.truncate(n as usize);
                }
                o.stdout.truncate(n as usize);
            }
            CompFault::Garbage(g) => {
                if let Some((_, b)) = o.write.as_mut() {
                    *b = g.clone();
                } else if o.status == 0 {
                    o.stdout = g;
                }
            }
            CompFault::Noise(g) => {
                if o.write.is_some() || c.mode == Mode::Compile {
                    o.stdout.extend_from_slice(&g);
                }
                o.stderr.extend_from_slice(&g);
            }
            CompFault::FailNoise(g) => o = Outcome { write: None, stdout: g.clone(), stderr: g, status: 1 << 8 },
            CompFault::OutputError => {
                if o.write.is_some() {
                    o = Outcome { write: None, stdout: vec![], stderr: b"cannot write output\n".to_vec(), status: 1 << 8 };
                }
            }
        }
    }
    o
}
fn err(m: &str, c: &mut CompRun) -> Outcome {
    c.why = m.to_string();
    Outcome { write: None, stdout: vec![], stderr: format!("Error: {m}\n").into_bytes(), status: 1 << 8 }
}
fn load(cwd: &str, p: &str, fsroot: &Path, lang: Lang, known: &Known, c: &mut CompRun) -> Option<Vec<String>> {
    c.src_path = normalise(cwd, p);
    c.lang = lang;
    c.src = std::fs::read(real(fsroot, &c.src_path)).ok();
    let t = String::from_utf8(c.src.clone()?).ok()?;
    let toks = lex::plausible(lang, &t)?;
    c.known = known.map.get(&(lang, toks.clone())).copied();
    Some(toks)
}
fn solc(plan: &Plan, ph: &Phase, args: &[String], cwd: &str, fsroot: &Path, known: &Known, c: &mut CompRun) -> Outcome {
    let mut files = vec![];
    let (mut ast, mut overwrite) = (false, false);
    let mut seen: HashMap<&str, Vec<String>> = HashMap::new();
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        match a {
            "--ast-compact-json" => ast = true,
            "--overwrite" => overwrite = true,
            "--base-path" | "--include-path" | "--allow-paths" | "--stop-after" | "-o" | "--output-dir" => {
                let k = if a == "--output-dir" { "-o" } else { args[i].as_str() };
                if i + 1 >= args.len() {
                    return err("missing option argument", c);
                }
                seen.entry(k).or_default().push(args[i + 1].clone());
                i += 1;
            }
            _ if a.starts_with('-') => return err("unrecognised option", c),
            _ if a.contains('=') => {}
            _ => files.push(args[i].clone()),
        }
        i += 1;
    }
    for k in ["--base-path", "--allow-paths", "--stop-after", "-o"] {
        if seen.get(k).map_or(0, |v| v.len()) > 1 {
            return err("option given more than once", c);
        }
    }
    if seen.contains_key("--include-path") && !seen.contains_key("--base-path") {
        return err("include paths need a base path", c);
    }
    if let Some(s) = seen.get("--stop-after") {
        if s[0] != "parsing" {
            return err("invalid option for stop-after", c);
        }
        c.stop_after_parsing = true;
    }
    if files.len() != 1 {
        return err("exactly one existing input file expected", c);
    }
    c.mode = if ast { Mode::Ast } else { Mode::Compile };
    let toks = match load(cwd, &files[0], fsroot, Lang::Sol, known, c) {
        Some(t) => t,
        None => return err("cannot parse input", c),
    };
    if ast {
        let k = match c.known {
            Some(k) if plan.programs[k].lang == Lang::Sol => k,
            _ => return err("parser error", c),
        };
        if !meant(plan, ph, c) {
            return err("source not found", c);
        }
        c.accepts = true;
        let dir = seen.get("-o").map(|v| v[0].clone());
        let js = serde_json::to_vec(&plan.programs[k].ast).unwrap();
        match dir {
            None => Outcome { write: None, stdout: js, stderr: vec![], status: 0 },
            Some(d) => {
                let base = c.src_path.rsplit('/').next().unwrap().to_string();
                let p = normalise(cwd, &format!("{d}/{base}_json.ast"));
                if !overwrite && real(fsroot, &p).exists() {
                    return err("refusing to overwrite existing file", c);
                }
                c.out_path = Some(p.clone());
                Outcome { write: Some((p, js)), stdout: b"Compiler run successful. Artifact(s) can be found in directory.\n".to_vec(), stderr: vec![], status: 0 }
            }
        }
    } else {
        let ok = meant(plan, ph, c) && (c.known.is_some() || verdict(&ph.comp, Lang::Sol, &toks, c.stop_after_parsing, known, c));
        c.accepts = ok;
        if ok {
            Outcome { write: None, stdout: b"Compiler run successful, no output requested.\n".to_vec(), stderr: vec![], status: 0 }
        } else {
            err("type error", c)
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn vyper(plan: &Plan, ph: &Phase, args: &[String], cwd: &str, fsroot: &Path, known: &Known, c: &mut CompRun, version: &str) -> Outcome {
    if args.len() == 1 && args[0] == "--version" {
        c.mode = Mode::Version;
        c.lang = Lang::Vy;
        c.accepts = true;
        return Outcome { write: None, stdout: format!("{version}\n").into_bytes(), stderr: vec![], status: 0 };
    }
    let has_o = version.split('.').next().and_then(|x| x.parse::<u32>().ok()).unwrap_or(0) >= 3;
    vyper_args(plan, ph, args, cwd, fsroot, known, c, has_o)
}
#[allow(clippy::too_many_arguments)]
fn vyper_args(plan: &Plan, ph: &Phase, args: &[String], cwd: &str, fsroot: &Path, known: &Known, c: &mut CompRun, has_o: bool) -> Outcome {
    c.lang = Lang::Vy;
    let mut files = vec![];
    let (mut fmt, mut out) = (None, None);
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        match a {
            "-p" | "-f" | "-o" => {
                if i + 1 >= args.len() {
                    return err("expected one argument", c);
                }
                let v = args[i + 1].clone();
                i += 1;
                match a {
                    "-f" => fmt = Some(v),
                    "-o" if has_o => out = Some(v),
                    "-o" => return err("unrecognized arguments: -o", c),
                    _ => {}
                }
            }
            _ if a.starts_with('-') => return err("unrecognized arguments", c),
            _ => files.push(args[i].clone()),
        }
        i += 1;
    }
    if files.len() != 1 {
        return err("one input file expected", c);
    }
    c.mode = if fmt.as_deref() == Some("ast") { Mode::Ast } else { Mode::Compile };
    let toks = match load(cwd, &files[0], fsroot, Lang::Vy, known, c) {
        Some(t) => t,
        None => return err("syntax error", c),
    };
    if c.mode == Mode::Ast {
        let k = match c.known {
            Some(k) if plan.programs[k].lang == Lang::Vy => k,
            _ => return err("syntax exception", c),
        };
        if !meant(plan, ph, c) {
            return err("source not found", c);
        }
        c.accepts = true;
        let js = serde_json::to_vec(&plan.programs[k].ast).unwrap();
        match out {
            Some(p) => {
                let p = normalise(cwd, &p);
                c.out_path = Some(p.clone());
                Outcome { write: Some((p, js)), stdout: vec![], stderr: vec![], status: 0 }
            }
            None => Outcome { write: None, stdout: js, stderr: vec![], status: 0 },
        }
    } else {
        let ok = meant(plan, ph, c) && (c.known.is_some() || verdict(&ph.comp, Lang::Vy, &toks, false, known, c));
        c.accepts = ok;
        if ok {
            Outcome { write: None, stdout: b"0x600035601c52\n".to_vec(), stderr: vec![], status: 0 }
        } else {
            err("type mismatch", c)
        }
    }
}
fn docker(plan: &Plan, ph: &Phase, args: &[String], cwd: &str, fsroot: &Path, known: &Known, c: &mut CompRun) -> Outcome {
    c.lang = Lang::Vy;
    if args.len() < 4 || args[0] != "run" {
        return err("bad docker command", c);
    }
    let mut i = 1;
    while i < args.len() && args[i] == "-v" {
        if i + 1 >= args.len() || args[i + 1].starts_with(':') || !args[i + 1].contains(":/") {
            return err("invalid volume specification", c);
        }
        i += 2;
    }
    if i >= args.len() || args[i] != "vyperlang/vyper" {
        return err("no such image", c);
    }
    vyper_args(plan, ph, &args[i + 1..], cwd, fsroot, known, c, true)
}
