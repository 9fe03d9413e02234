//! A plan is the complete description of one simulated execution: replaying it is a pure
//! function of the plan and of the code under test.  Plans are what seeds generate, what the
//! minimiser shrinks and what replay files contain.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum Lang {
    Sol,
    Vy,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Program {
    pub lang: Lang,
    pub ast: Value,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileC {
    Text(String),
    Bytes(Vec<u8>),
    /// source text of program i
    Source(usize),
    /// syntax tree JSON of program i
    Ast(usize),
    /// configuration file naming these inputs
    Config(Lang, Vec<String>, Settings),
    Dir,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u32)]
pub enum Cls {
    OpenR,
    OpenW,
    Read,
    Write,
    Stdout,
    Stderr,
    Stat,
    Mkdir,
    Unlink,
    Rmdir,
    Rename,
    Spawn,
    Wait,
    Poll,
    PRead,
    Clock,
    Random,
    Misc,
    Any,
}
pub const NCLS: usize = 19;
pub const CLS_NAMES: [&str; NCLS] = [
    "open-read", "open-write", "read", "write", "stdout", "stderr", "stat", "mkdir", "unlink", "rmdir",
    "rename", "spawn", "wait", "poll", "pipe-read", "clock", "random", "misc", "any",
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Action {
    /// fail with this errno, once
    Err(i32),
    /// fail with this errno from the nth operation on
    ErrSticky(i32),
    /// transfer at most that many bytes
    Short(i32),
    CrashBefore,
    CrashAfter,
    /// write that many bytes, then die
    Torn(i32),
    /// wall clock jumps by that many seconds
    ClockJump(i32),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Fault {
    pub cls: Cls,
    pub nth: u32,
    pub action: Action,
}

/// settings one input is processed with
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Settings {
    pub out: String,
    pub num: usize,
    pub seed: Option<i64>,
    pub algs: Vec<String>,
    pub all: bool,
    pub functions: Vec<String>,
    pub validate: bool,
    pub print_original: bool,
    pub solc: Option<String>,
    pub base_path: Option<String>,
    pub include: Vec<String>,
    pub allow: Vec<String>,
    pub remap: Vec<String>,
    pub stop_after: Option<String>,
    pub vyper: Option<String>,
    pub root_path: Option<String>,
    /// a configuration file without compiler details
    #[serde(default)]
    pub no_details: bool,
    /// way of writing a configuration file: order of keys, white space
    #[serde(default)]
    pub style: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Input {
    /// source or tree of a program
    Prog(String, usize),
    /// something that cannot be processed
    Bad(String),
    /// configuration file: path, language, inputs, settings
    Config(String, Lang, Vec<(String, usize)>, Settings),
}
impl Input {
    pub fn path(&self) -> &str {
        match self {
            Input::Prog(p, _) | Input::Bad(p) | Input::Config(p, _, _, _) => p,
        }
    }
}
/// a command line of the tool, in structured form
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Job {
    pub pretty: bool,
    pub stdout: bool,
    pub save: bool,
    pub inputs: Vec<Input>,
    pub set: Settings,
}
/// one program as the tool has to process it
#[derive(Clone, Debug)]
pub struct Unit {
    pub path: String,
    pub prog: usize,
    pub set: Settings,
}
impl Job {
    pub fn argv(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let s = &self.set;
        v.push(if self.pretty { "pretty-print" } else { "mutate" }.into());
        let mut a = |k: &str, x: &str| {
            v.push(k.into());
            v.push(x.into());
        };
        for i in &self.inputs {
            a("-f", i.path());
        }
        a("-o", &s.out);
        if !self.pretty {
            a("--num-mutants", &s.num.to_string());
            if let Some(x) = s.seed {
                a("--rng-seed", &x.to_string());
            }
            for x in &s.algs {
                a("--mutation", x);
            }
            for x in &s.functions {
                a("--function", x);
            }
        }
        if let Some(x) = &s.solc {
            a("--solidity-compiler", x);
        }
        if let Some(x) = &s.base_path {
            a("--solidity-base-path", x);
        }
        for x in &s.include {
            a("--solidity-include-path", x);
        }
        for x in &s.allow {
            a("--solidity-allow-paths", x);
        }
        for x in &s.remap {
            a("--solidity-remapping", x);
        }
        if let Some(x) = &s.stop_after {
            a("--solidity-stop-after", x);
        }
        if let Some(x) = &s.vyper {
            a("--vyper-compiler", x);
        }
        if let Some(x) = &s.root_path {
            a("--vyper-root-path", x);
        }
        if self.stdout {
            v.push("--stdout".into());
        }
        if !self.pretty {
            if s.all {
                v.push("--all-mutations".into());
            }
            if s.validate {
                v.push("--validate-mutants".into());
            }
            if s.print_original {
                v.push("--print-original".into());
            }
            if self.save {
                v.push("--save-config-files".into());
            }
        }
        v
    }
    /// a configuration file names the compiler of its own language only; the other compiler,
    /// which is asked when a file is recognised, is that of the command line
    pub fn effective(&self, lang: Lang, s: &Settings) -> Settings {
        let mut s = s.clone();
        let c = &self.set;
        // what the file does not say, the command line says
        s.seed = s.seed.or(c.seed);
        if s.algs.is_empty() && !s.all {
            s.algs = c.algs.clone();
            s.all = c.all;
        }
        if s.functions.is_empty() {
            s.functions = c.functions.clone();
        }
        if s.out.is_empty() {
            s.out = c.out.clone();
        }
        if s.no_details {
            s.solc = c.solc.clone();
            s.base_path = c.base_path.clone();
            s.include = c.include.clone();
            s.allow = c.allow.clone();
            s.remap = c.remap.clone();
            s.stop_after = c.stop_after.clone();
            s.vyper = c.vyper.clone();
            s.root_path = c.root_path.clone();
            return s;
        }
        match lang {
            Lang::Sol => {
                s.vyper = c.vyper.clone();
                s.root_path = c.root_path.clone();
            }
            Lang::Vy => {
                s.solc = c.solc.clone();
                s.base_path = c.base_path.clone();
                s.include = c.include.clone();
                s.allow = c.allow.clone();
                s.remap = c.remap.clone();
                s.stop_after = c.stop_after.clone();
            }
        }
        s
    }
    pub fn units(&self) -> Vec<Unit> {
        let mut v = vec![];
        for i in &self.inputs {
            match i {
                Input::Prog(p, k) => v.push(Unit { path: p.clone(), prog: *k, set: self.set.clone() }),
                Input::Bad(_) => {}
                Input::Config(_, lang, l, s) => {
                    let set = self.effective(*lang, s);
                    for (p, k) in l {
                        v.push(Unit { path: p.clone(), prog: *k, set: set.clone() });
                    }
                }
            }
        }
        v
    }
}
/// text of a configuration file with these contents
pub fn config_text(lang: Lang, files: &[String], s: &Settings) -> String {
    let mut j = serde_json::json!({
        "language": if lang == Lang::Sol { "Solidity" } else { "Vyper" },
        "filenames": files,
        "num-mutants": s.num,
        "validate-mutants": s.validate,
        "print-original": s.print_original,
    });
    if !s.out.is_empty() {
        j["output-directory"] = s.out.clone().into();
    }
    if let Some(x) = s.seed {
        // a negative number stands for a seed that only fits an unsigned number
        j["seed"] = if x < 0 { (x as u64).into() } else { x.into() };
    }
    if s.all {
        j["all-mutations"] = true.into();
    } else if !s.algs.is_empty() {
        j["mutations"] = s.algs.clone().into();
    }
    if !s.functions.is_empty() {
        j["functions"] = s.functions.clone().into();
    }
    let mut c = serde_json::json!({});
    match lang {
        Lang::Sol => {
            c["path"] = s.solc.clone().unwrap_or("solc".into()).into();
            if let Some(b) = &s.base_path {
                c["base-path"] = b.clone().into();
            }
            if let Some(b) = &s.stop_after {
                c["stop-after"] = b.clone().into();
            }
            for (k, l) in [("include-paths", &s.include), ("allow-paths", &s.allow), ("remappings", &s.remap)] {
                if !l.is_empty() {
                    c[k] = l.clone().into();
                }
            }
        }
        Lang::Vy => {
            c["path"] = s.vyper.clone().unwrap_or("vyper".into()).into();
            if let Some(b) = &s.root_path {
                c["root-path"] = b.clone().into();
            }
        }
    }
    if !s.no_details {
        j["compiler-details"] = c;
    }
    if s.style == 0 {
        return serde_json::to_string_pretty(&j).unwrap();
    }
    // the same object written in another way
    let mut l: Vec<(String, Value)> = j.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let n = l.len();
    l.rotate_left(s.style as usize % n);
    if s.style & 64 != 0 {
        l.reverse();
    }
    let (sep, colon) = match s.style >> 7 & 3 {
        0 => ("", ":"),
        1 => ("\r\n\t", " : "),
        2 => ("\n\n  ", ": "),
        _ => (" ", ": "),
    };
    let body: Vec<String> = l.iter().map(|(k, v)| format!("{sep}{}{colon}{}", Value::from(k.as_str()), if s.style & 512 != 0 { serde_json::to_string_pretty(v).unwrap() } else { v.to_string() })).collect();
    format!("{{{}{sep}}}{}", body.join(","), if s.style & 1024 != 0 { "\n" } else { "" })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Inst {
    pub job: Option<Job>,
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: String,
    pub pid: u32,
    pub hashseed: u64,
    pub clock_ns: i64,
    pub clock_step: i64,
    pub tty: Option<u32>,
    pub faults: Vec<Fault>,
    /// bytes that fit on the disk
    pub disk: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tail {
    /// run an instance until it blocks, then the compilers it waits for
    Seq,
    Random(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub explicit: Vec<u32>,
    pub tail: Tail,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tool {
    Solc,
    Vyper { version: String },
    Docker,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CompFault {
    /// exit with this status without doing anything
    Exit(i32),
    /// die from this signal before writing anything
    Kill(i32),
    /// die from this signal after writing that many bytes of output
    KillTorn(i32, u32),
    /// report success without writing output
    NoOutput,
    /// report success with output cut to that many bytes
    Truncate(u32),
    /// report success with these bytes instead of the output
    Garbage(Vec<u8>),
    /// do the job, but print these bytes on standard output and error
    Noise(Vec<u8>),
    /// fail and print these bytes on standard output and error
    FailNoise(Vec<u8>),
    /// cannot write its output: fails
    OutputError,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Compilers {
    pub tools: BTreeMap<String, Tool>,
    /// faults by number of compiler process in the phase
    pub faults: Vec<(u32, CompFault)>,
    /// verdict on programs other than the known ones
    pub salt: u64,
    pub accept_pct: u32,
    pub parse_only_pct: u32,
    /// standard output arrives in pieces of at most this size (0: in one piece)
    pub chunk: u32,
    /// number of idle scheduling steps before each step of a compiler
    pub lag: u32,
    /// mutants this algorithm explains are rejected
    #[serde(default)]
    pub reject_alg: Option<String>,
    /// programs compile only with the settings meant for them, and verdicts on mutants depend on them
    #[serde(default)]
    pub strict: bool,
}
impl Default for Compilers {
    fn default() -> Self {
        Compilers { tools: BTreeMap::new(), faults: vec![], salt: 0, accept_pct: 100, parse_only_pct: 0, chunk: 0, lag: 0, reject_alg: None, strict: false }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Phase {
    /// start from the initial files instead of what the previous phase left
    pub fresh: bool,
    /// changes to the files before this phase (None: remove)
    pub edits: Vec<(String, Option<FileC>)>,
    /// before this phase, remove all files of this directory that do not end in this suffix
    #[serde(default)]
    pub purge: Vec<(String, String)>,
    pub insts: Vec<Inst>,
    pub sched: Sched,
    pub comp: Compilers,
    pub label: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub programs: Vec<Program>,
    pub files: BTreeMap<String, FileC>,
    pub phases: Vec<Phase>,
    /// scenario-specific facts the oracle needs
    pub facts: BTreeMap<String, Value>,
}

impl Plan {
    /// apply a change to every copy of the settings, and rebuild the command lines
    pub fn map_settings(&mut self, f: &dyn Fn(&mut Settings)) {
        for c in self.files.values_mut() {
            if let FileC::Config(_, _, s) = c {
                f(s);
            }
        }
        for ph in &mut self.phases {
            for (_, c) in &mut ph.edits {
                if let Some(FileC::Config(_, _, s)) = c {
                    f(s);
                }
            }
            for i in &mut ph.insts {
                if let Some(j) = &mut i.job {
                    f(&mut j.set);
                    for x in &mut j.inputs {
                        if let Input::Config(_, _, _, s) = x {
                            f(s);
                        }
                    }
                    i.argv = j.argv();
                }
            }
        }
    }
}
