//! Reading the recorded history: report lines, result files, compiler runs.
use crate::compiler::{CompRun, Mode};
use crate::exec::Run;
use crate::kernel::{normalise, End, InstRes, Node, PhaseRes, Snap};
use crate::lex;
use crate::model::{ALGS_SOL, ALGS_VY};
use crate::plan::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Rep {
    pub alg: String,
    pub path: String,
    pub unit: Option<usize>,
    pub num: usize,
}
pub struct Obs<'a> {
    pub plan: &'a Plan,
    pub run: &'a Run,
    pub ph: usize,
    pub i: usize,
    pub units: Vec<Unit>,
}
pub fn ext(lang: Lang) -> &'static str {
    match lang {
        Lang::Sol => "sol",
        Lang::Vy => "vy",
    }
}
pub fn basename(p: &str) -> &str {
    p.rsplit('/').next().unwrap()
}
pub fn is_info(l: &str) -> bool {
    const P: [&str; 8] = ["Of the requested mutation algorithms", "AST supports at most", "Reached the limit of mutable nodes", "Elapsed time:", "Pretty-printing original file", "Writing configuration file", "Unable to ", "\u{0}"];
    P.iter().any(|p| l.starts_with(p)) || parse_report(l).is_some()
}
pub fn parse_report(l: &str) -> Option<(String, String)> {
    let (a, p) = l.split_once(" used to create mutant written to ")?;
    if a.contains(' ') {
        return None;
    }
    Some((a.to_string(), p.to_string()))
}
impl<'a> Obs<'a> {
    pub fn new(plan: &'a Plan, run: &'a Run, ph: usize, i: usize) -> Obs<'a> {
        let units = plan.phases[ph].insts[i].job.as_ref().map_or(vec![], |j| j.units());
        Obs { plan, run, ph, i, units }
    }
    pub fn phase(&self) -> &'a PhaseRes {
        &self.run.phases[self.ph]
    }
    pub fn res(&self) -> &'a InstRes {
        &self.phase().insts[self.i]
    }
    pub fn inst(&self) -> &'a Inst {
        &self.plan.phases[self.ph].insts[self.i]
    }
    pub fn job(&self) -> &'a Job {
        self.inst().job.as_ref().unwrap()
    }
    pub fn norm(&self, p: &str) -> String {
        normalise(&self.inst().cwd, p)
    }
    pub fn out(&self, u: &Unit) -> String {
        self.norm(&u.set.out)
    }
    pub fn lang(&self, u: &Unit) -> Lang {
        self.plan.programs[u.prog].lang
    }
    /// number of the mutant of this unit with that name
    pub fn mutant_no(&self, u: &Unit, path: &str) -> Option<usize> {
        let pre = format!("{}/{}_", self.out(u), basename(&u.path));
        let rest = path.strip_prefix(&pre)?;
        let num = rest.strip_suffix(&format!(".{}", ext(self.lang(u))))?;
        if num.is_empty() || !num.chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        num.parse().ok()
    }
    pub fn original_name(&self, u: &Unit) -> String {
        let b = basename(&u.path);
        let e = format!(".{}", ext(self.lang(u)));
        format!("{}/{}{}", self.out(u), b, if b.ends_with(&e) { "" } else { &e })
    }
    pub fn config_name(&self, u: &Unit) -> String {
        let b = basename(&u.path);
        format!("{}/{}.mgnx", self.out(u), b.rsplit_once('.').map_or(b, |x| x.0))
    }
    pub fn reports(&self) -> Vec<Rep> {
        let mut v = vec![];
        for l in self.res().stdout().lines() {
            if let Some((alg, p)) = parse_report(l) {
                let path = self.norm(&p);
                let mut unit = None;
                let mut num = 0;
                for (k, u) in self.units.iter().enumerate() {
                    if let Some(n) = self.mutant_no(u, &path) {
                        unit = Some(k);
                        num = n;
                    }
                }
                v.push(Rep { alg, path, unit, num });
            }
        }
        v
    }
    pub fn file(&self, p: &str) -> Option<&'a Vec<u8>> {
        match self.phase().after.get(p) {
            Some(Node::File(b)) => Some(b),
            _ => None,
        }
    }
    /// all mutants of a unit on the disk afterwards
    pub fn mutants(&self, u: &Unit) -> BTreeMap<String, &'a Vec<u8>> {
        let mut m = BTreeMap::new();
        for (p, n) in &self.phase().after {
            if let Node::File(b) = n {
                if self.mutant_no(u, p).is_some() {
                    m.insert(p.clone(), b);
                }
            }
        }
        m
    }
    /// mutants and printed original
    pub fn results(&self, u: &Unit) -> BTreeMap<String, &'a Vec<u8>> {
        let mut m = self.mutants(u);
        let o = self.original_name(u);
        if let Some(b) = self.file(&o) {
            m.insert(o, b);
        }
        m
    }
    pub fn lexed(&self, u: &Unit, b: &[u8]) -> Result<lex::Lexed, String> {
        let t = std::str::from_utf8(b).map_err(|_| "not text".to_string())?;
        lex::lex(self.lang(u), t)
    }
    /// standard output without timing
    pub fn lines(&self) -> Vec<String> {
        self.res().stdout().lines().filter(|l| !l.starts_with("Elapsed time:")).map(|l| l.to_string()).collect()
    }
    /// algorithms that apply to a unit
    pub fn algs(&self, u: &Unit) -> Vec<String> {
        let all: Vec<String> = match self.lang(u) {
            Lang::Sol => ALGS_SOL.iter().map(|s| s.to_string()).collect(),
            Lang::Vy => ALGS_VY.iter().map(|s| s.to_string()).collect(),
        };
        if u.set.all {
            all
        } else {
            u.set.algs.iter().filter(|a| all.contains(a)).cloned().collect()
        }
    }
    pub fn ended(&self) -> bool {
        matches!(self.res().end, End::Exit(0))
    }
    /// values after "AST supports at most"
    pub fn supports(&self) -> Vec<usize> {
        self.res().stdout().lines().filter_map(|l| l.strip_prefix("AST supports at most ").and_then(|r| r.split(' ').next()).and_then(|x| x.parse().ok())).collect()
    }
    pub fn comps(&self) -> impl Iterator<Item = &'a CompRun> + '_ {
        self.phase().comps.iter().filter(move |c| c.inst == self.i)
    }
}
/// first configured setting that a compiler run lacks
pub fn missing_setting(c: &CompRun, s: &Settings) -> Option<String> {
    let args = &c.argv[1.min(c.argv.len())..];
    let after = |k: &str| -> Vec<String> { args.windows(2).filter(|w| w[0] == k).map(|w| w[1].clone()).collect() };
    match c.tool {
        Tool::Solc => {
            let want = s.solc.clone().unwrap_or("solc".into());
            if c.exe != want {
                return Some(format!("compiler {} was run instead of {want}", c.exe));
            }
            if let Some(b) = &s.base_path {
                if !after("--base-path").contains(b) {
                    return Some(format!("base path {b}"));
                }
            }
            for i in &s.include {
                if !after("--include-path").contains(i) {
                    return Some(format!("include path {i}"));
                }
            }
            let allow: Vec<String> = after("--allow-paths").iter().flat_map(|x| x.split(',').map(|y| y.to_string()).collect::<Vec<_>>()).collect();
            for a in &s.allow {
                if !allow.contains(a) {
                    return Some(format!("allowed path {a}"));
                }
            }
            for r in &s.remap {
                if !args.contains(r) {
                    return Some(format!("remapping {r}"));
                }
            }
            if let Some(x) = &s.stop_after {
                if !after("--stop-after").contains(x) {
                    return Some(format!("stop after {x}"));
                }
            }
            None
        }
        Tool::Vyper { .. } | Tool::Docker => {
            if !matches!(c.tool, Tool::Docker) {
                let want = s.vyper.clone().unwrap_or("vyper".into());
                if c.exe != want {
                    return Some(format!("compiler {} was run instead of {want}", c.exe));
                }
            }
            if c.mode == Mode::Version {
                return None;
            }
            if let Some(p) = &s.root_path {
                if !after("-p").contains(p) {
                    return Some(format!("root path {p}"));
                }
            }
            None
        }
    }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(20).min(v.len())..(k + 40).min(v.len())]).into_owned();
    format!("lengths {} and {}, first difference at byte {k}: {:?} / {:?}", a.len(), b.len(), cut(a), cut(b))
}
/// differences between two sets of files
pub fn diff_files(a: &BTreeMap<String, &Vec<u8>>, b: &BTreeMap<String, &Vec<u8>>, na: &str, nb: &str) -> Option<String> {
    for (p, x) in a {
        match b.get(p) {
            None => return Some(format!("{p} was written in {na} but not in {nb}")),
            Some(y) if x != y => return Some(format!("{p} differs between {na} and {nb}: {}", first_diff(x, y))),
            _ => {}
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            return Some(format!("{p} was written in {nb} but not in {na}"));
        }
    }
    None
}
pub fn dir_files<'a>(s: &'a Snap, dir: &str) -> BTreeMap<String, &'a Vec<u8>> {
    let pre = format!("{}/", dir.trim_end_matches('/'));
    s.iter()
        .filter(|(p, _)| p.starts_with(&pre))
        .filter_map(|(p, n)| match n {
            Node::File(b) => Some((p.clone(), b)),
            _ => None,
        })
        .collect()
}
