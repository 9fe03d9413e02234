//! Seeded construction of scenarios: programs, files, command lines, machines, faults.
use crate::exec;
use crate::gen::{self, Opts};
use crate::kernel::{PhaseRes, Worker};
use crate::model::{Model, ALGS_SOL, ALGS_VY};
use crate::plan::*;
use crate::rng::Rng;
use serde_json::Value;
use std::collections::BTreeMap;

pub const CLOCK: i64 = 1_700_000_000_000_000_000;
pub const BASES: [&str; 7] = ["Token", "vault", "a", "Pool.v2", "x_1", "Swap", "long-name with space"];

pub struct B {
    pub r: Rng,
    pub plan: Plan,
    toks: Vec<Vec<String>>,
    pub tmp: String,
    used: Vec<String>,
}
impl B {
    pub fn new(prop: &str, seed: u64) -> B {
        let mut r = Rng::new(seed, prop);
        let tmp = if r.chance(70) { "/tmp".to_string() } else { "/var/scratch/t".to_string() };
        let mut files = BTreeMap::new();
        files.insert(tmp.clone(), FileC::Dir);
        files.insert("/work".to_string(), FileC::Dir);
        let plan = Plan { property: prop.into(), scenario: String::new(), seed, programs: vec![], files, phases: vec![], facts: BTreeMap::new() };
        B { r, plan, toks: vec![], tmp, used: vec![] }
    }
    pub fn fact(&mut self, k: &str, v: impl Into<Value>) {
        self.plan.facts.insert(k.into(), v.into());
    }
    pub fn lang(&mut self) -> Lang {
        if self.r.chance(60) {
            Lang::Sol
        } else {
            Lang::Vy
        }
    }
    pub fn prog(&mut self, lang: Lang, o: &Opts) -> usize {
        loop {
            let ast = gen::program(lang, &mut self.r, o);
            let m = Model::new(lang, &ast);
            if m.toks.is_empty() || self.toks.contains(&m.toks) {
                continue;
            }
            self.toks.push(m.toks);
            self.plan.programs.push(Program { lang, ast });
            return self.plan.programs.len() - 1;
        }
    }
    pub fn any_prog(&mut self, lang: Lang) -> usize {
        let o = match self.r.below(4) {
            0 => Opts::small(&mut self.r),
            1 => Opts::rich(&mut self.r),
            _ => Opts::random(&mut self.r),
        };
        self.prog(lang, &o)
    }
    pub fn model(&self, p: usize) -> Model {
        Model::new(self.plan.programs[p].lang, &self.plan.programs[p].ast)
    }
    /// an unused base name
    pub fn base(&mut self) -> String {
        loop {
            let b = self.r.pick(&BASES).to_string();
            let b = if self.used.contains(&b) { format!("{b}{}", self.used.len()) } else { b };
            if !self.used.contains(&b) {
                self.used.push(b.clone());
                return b;
            }
        }
    }
    /// put a program on the disk, as source or as tree
    pub fn place(&mut self, dir: &str, prog: usize, base: &str, ast: bool) -> String {
        let ext = match (self.plan.programs[prog].lang, ast) {
            (Lang::Sol, true) => *self.r.pick(&["json", "ast", "json", "ast", "sol.json", "solution.ast"]),
            (Lang::Vy, true) => *self.r.pick(&["json", "ast", "json", "ast", "vy.json", "vyper.ast"]),
            (Lang::Sol, _) => "sol",
            (Lang::Vy, _) => "vy",
        };
        let p = format!("{dir}/{base}.{ext}");
        self.plan.files.insert(p.clone(), if ast { FileC::Ast(prog) } else { FileC::Source(prog) });
        p
    }
    pub fn input(&mut self, dir: &str, prog: usize) -> Input {
        let b = self.base();
        let ast = self.r.chance(40);
        let p = self.place(dir, prog, &b, ast);
        Input::Prog(p, prog)
    }
    pub fn algs(&mut self) -> (Vec<String>, bool) {
        if self.r.chance(35) {
            return (vec![], true);
        }
        let k = 1 + self.r.below(4);
        let mut v: Vec<String> = vec![];
        for _ in 0..k {
            let a = if self.r.chance(80) { *self.r.pick(&ALGS_VY) } else { *self.r.pick(&ALGS_SOL) };
            if !v.contains(&a.to_string()) {
                v.push(a.into());
            }
        }
        (v, false)
    }
    pub fn settings(&mut self, out: &str) -> Settings {
        let (algs, all) = self.algs();
        Settings { out: out.into(), num: 1 + self.r.below(6), seed: Some(self.seed()), algs, all, ..Default::default() }
    }
    pub fn seed(&mut self) -> i64 {
        match self.r.below(5) {
            0 => 0,
            1 => i64::MAX,
            _ => self.r.range(1, 1_000_000),
        }
    }
    /// compiler settings
    pub fn compilers(&mut self, s: &mut Settings) {
        if self.r.chance(40) {
            s.solc = Some(self.r.pick(&["/opt/solc/solc-0.8.20", "solc-select", "/usr/local/bin/solc"]).to_string());
        }
        if self.r.chance(40) {
            s.vyper = Some(self.r.pick(&["/opt/vyper/bin/vyper", "vyper-0.3"]).to_string());
        }
        if self.r.chance(40) {
            s.base_path = Some("/work".into());
            for k in 0..self.r.below(3) {
                s.include.push(format!("/work/node_modules{k}"));
            }
        }
        for k in 0..self.r.below(3) {
            if self.r.chance(60) {
                s.allow.push(format!("/libs/l{k}"));
            }
        }
        for k in 0..self.r.below(3) {
            if self.r.chance(60) {
                s.remap.push(format!("@oz{k}=/libs/oz{k}"));
            }
        }
        if self.r.chance(10) {
            s.stop_after = Some("parsing".into());
        }
        if self.r.chance(40) {
            s.root_path = Some("/work".into());
        }
    }
    pub fn job(&mut self, inputs: Vec<Input>, set: Settings) -> Job {
        Job { pretty: false, stdout: false, save: false, inputs, set }
    }
    pub fn inst(&mut self, job: Job) -> Inst {
        let mut env = vec![("TMPDIR".to_string(), self.tmp.clone()), ("PATH".into(), "/usr/bin:/bin".into())];
        if self.r.chance(50) {
            env.push(("HOME".into(), "/root".into()));
        }
        Inst { argv: job.argv(), job: Some(job), env, cwd: "/work".into(), pid: 100 + self.r.below(900) as u32, hashseed: self.r.u64(), clock_ns: CLOCK + self.r.range(0, 1_000_000_000_000), clock_step: 1000, tty: None, faults: vec![], disk: None }
    }
    /// compilers on the machine that these settings name, plus the default ones
    pub fn tools(&mut self, sets: &[&Settings]) -> Compilers {
        let mut c = Compilers::default();
        let version = self.r.pick(&["0.3.7+commit.6020b8bb", "0.3.10+commit.91361694", "0.2.16+commit.59e1bdd", "3.0.1", "4.1.0+commit.1111111"]).to_string();
        c.tools.insert("solc".into(), Tool::Solc);
        c.tools.insert("vyper".into(), Tool::Vyper { version: version.clone() });
        for s in sets {
            if let Some(x) = &s.solc {
                c.tools.insert(x.clone(), Tool::Solc);
            }
            if let Some(x) = &s.vyper {
                c.tools.insert(x.clone(), Tool::Vyper { version: version.clone() });
            }
        }
        if self.r.chance(15) {
            c.tools.retain(|_, t| !matches!(t, Tool::Vyper { .. }));
            c.tools.insert("docker".into(), Tool::Docker);
        }
        c.salt = self.r.u64();
        c
    }
    pub fn phase(&mut self, label: &str, insts: Vec<Inst>, comp: Compilers) -> Phase {
        let sched = if insts.len() > 1 { Sched { explicit: vec![], tail: Tail::Random(self.r.u64()) } } else { Sched { explicit: vec![], tail: Tail::Seq } };
        Phase { fresh: true, edits: vec![], purge: vec![], insts, sched, comp, label: label.into() }
    }
    /// run the plan as it stands, for fault positions
    pub fn probe(&mut self, w: &mut Worker) -> PhaseRes {
        let mut p = self.plan.clone();
        let k = p.phases.len() - 1;
        p.phases = vec![p.phases[k].clone()];
        p.phases[0].fresh = true;
        exec::run(w, &p).phases.remove(0)
    }
    /// an error a file operation of one of these classes may report, at a position the run reaches
    pub fn hard_fault(&mut self, ops: &[u32; NCLS], classes: &[Cls]) -> Option<Fault> {
        let c: Vec<Cls> = classes.iter().copied().filter(|c| ops[*c as usize] > 0).collect();
        if c.is_empty() {
            return None;
        }
        let cls = *self.r.pick(&c);
        let n = ops[cls as usize];
        let nth = match self.r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => self.r.below(n as usize) as u32,
        };
        let errs: &[i32] = match cls {
            Cls::OpenR => &[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOENT],
            Cls::OpenW => &[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMFILE, libc::EISDIR],
            Cls::Read => &[libc::EIO],
            Cls::Write => &[libc::EIO, libc::ENOSPC, libc::EDQUOT],
            Cls::Mkdir => &[libc::EACCES, libc::ENOSPC, libc::EROFS],
            Cls::Unlink | Cls::Rmdir => &[libc::EACCES, libc::EBUSY],
            Cls::Rename => &[libc::EACCES, libc::EXDEV],
            Cls::Stat => &[libc::EACCES, libc::EIO],
            Cls::Spawn => &[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM, libc::E2BIG],
            Cls::Misc => &[libc::EMFILE, libc::EIO],
            Cls::Wait => &[libc::ECHILD],
            _ => &[libc::EIO],
        };
        let e = *self.r.pick(errs);
        Some(Fault { cls, nth, action: if self.r.chance(30) { Action::ErrSticky(e) } else { Action::Err(e) } })
    }
    /// conditions that mean nothing is wrong
    pub fn benign_faults(&mut self, ops: &[u32; NCLS], count: usize) -> Vec<Fault> {
        let mut v: Vec<Fault> = vec![];
        let eintr = [Cls::Read, Cls::Write, Cls::Stdout, Cls::OpenR, Cls::OpenW, Cls::Wait, Cls::Poll, Cls::PRead];
        let short = [Cls::Read, Cls::Write, Cls::Stdout, Cls::PRead];
        for _ in 0..count {
            let e = self.r.chance(50);
            let cls = if e { *self.r.pick(&eintr) } else { *self.r.pick(&short) };
            let n = ops[cls as usize];
            if n == 0 {
                continue;
            }
            let nth = if self.r.chance(30) { n - 1 - (self.r.below(3) as u32).min(n - 1) } else { self.r.below(n as usize) as u32 };
            if v.iter().any(|f| f.cls == cls && f.nth == nth) {
                continue;
            }
            v.push(Fault { cls, nth, action: if e { Action::Err(libc::EINTR) } else { Action::Short(1 + self.r.below(7) as i32) } });
        }
        v.truncate(44);
        v
    }
    pub fn crash(&mut self, ops: &[u32; NCLS]) -> Fault {
        let n = ops[Cls::Any as usize].max(1) as usize;
        let act = match self.r.below(4) {
            0 => Action::CrashBefore,
            1 | 2 => Action::CrashAfter,
            _ => Action::Torn(self.r.below(6) as i32),
        };
        // operations on files and processes are rarer than writes of tokens, and more interesting
        let cls = if self.r.chance(50) { *self.r.pick(&[Cls::OpenW, Cls::Unlink, Cls::Mkdir, Cls::Spawn, Cls::Rename, Cls::Rmdir, Cls::OpenR, Cls::Wait]) } else { Cls::Any };
        if cls != Cls::Any && ops[cls as usize] > 0 {
            return Fault { cls, nth: self.r.below(ops[cls as usize] as usize) as u32, action: if matches!(act, Action::Torn(_)) { Action::CrashAfter } else { act } };
        }
        Fault { cls: Cls::Any, nth: self.r.below(n) as u32, action: act }
    }
    pub fn comp_fault(&mut self) -> CompFault {
        match self.r.below(12) {
            0 => CompFault::Exit(1 + self.r.below(254) as i32),
            1 => CompFault::Kill(*self.r.pick(&[libc::SIGKILL, libc::SIGSEGV, libc::SIGTERM, libc::SIGABRT])),
            2 => CompFault::KillTorn(libc::SIGKILL, self.r.below(4000) as u32),
            3 => CompFault::NoOutput,
            4 => CompFault::Truncate(self.r.below(3000) as u32),
            5 => CompFault::Garbage(self.garbage()),
            6 | 7 => {
                let g = self.garbage();
                CompFault::Noise(g)
            }
            8 | 9 => {
                let g = self.garbage();
                CompFault::FailNoise(g)
            }
            10 => CompFault::OutputError,
            _ => CompFault::Exit(2),
        }
    }
    pub fn garbage(&mut self) -> Vec<u8> {
        match self.r.below(9) {
            0 => vec![],
            1 => b"\xff\xfe\x00\x80 not text".to_vec(),
            2 => b"{\"nodeType\":".to_vec(),
            3 => b"[]".to_vec(),
            4 => b"null\n".to_vec(),
            5 => b"{\"contract_name\": 1}".to_vec(),
            6 => "Warnung: überflüssig\n".as_bytes().to_vec(),
            7 => vec![b'x'; 20_000],
            _ => b"{}\n".to_vec(),
        }
    }
    /// an input that cannot be processed; returns its path
    pub fn bad_input(&mut self) -> Input {
        let b = self.base();
        let k = self.r.below(11);
        let ext = *self.r.pick(&["sol", "vy", "json", "mgnx", "txt"]);
        if k >= 9 {
            // a configuration file that makes no sense
            let p = format!("/work/bad/{b}.mgnx");
            let t = *self.r.pick(&[
                r#"{"language": "Solidity"}"#,
                r#"{"filenames": ["/work/src/a.sol"]}"#,
                r#"{"language": "Solidity", "filenames": "/work/src/a.sol"}"#,
                r#"{"language": "Vyper", "filenames": {"a": "/work/src/a.sol"}}"#,
                r#"{"language": "Solidity", "filenames": null, "num-mutants": 2}"#,
                r#"{"language": "Cobol", "filenames": ["/work/src/a.sol"]}"#,
                r#"{"language": 7, "filenames": ["/work/src/a.sol"]}"#,
                r#"{"language": null, "filenames": []}"#,
                r#"{"language": "Solidity", "filenames": ["/work/src/a.sol"], "compiler-details": ["solc"]}"#,
                r#"{"language": "Vyper", "filenames": ["/work/src/a.vy"], "compiler-details": "vyper"}"#,
            ]);
            self.plan.files.insert(p.clone(), FileC::Text(t.into()));
            return Input::Bad(p);
        }
        let p = format!("/work/bad/{b}.{ext}");
        match k {
            0 => {}
            1 => {
                self.plan.files.insert(p.clone(), FileC::Dir);
            }
            2 => {
                self.plan.files.insert(p.clone(), FileC::Text(String::new()));
            }
            3 => {
                self.plan.files.insert(p.clone(), FileC::Bytes(vec![0xff, 0xfe, 0, 1, 2, 0xc3]));
            }
            4 => {
                self.plan.files.insert(p.clone(), FileC::Text("{\"hello\": [1, 2".into()));
            }
            5 => {
                self.plan.files.insert(p.clone(), FileC::Text("{\"hello\": [1, 2]}".into()));
            }
            6 => {
                self.plan.files.insert(p.clone(), FileC::Text("contract { function } unbalanced ((".into()));
            }
            7 => {
                self.plan.files.insert(p.clone(), FileC::Text("[]".into()));
            }
            _ => {
                self.plan.files.insert(p.clone(), FileC::Text("\"text\"".into()));
            }
        }
        Input::Bad(p)
    }
}
