//! Executes a plan: lays out the simulated disk, runs the phases one after the other.
use crate::compiler::Known;
use crate::kernel::{real, stamp, PhaseRes, Worker};
use crate::model::Model;
use crate::plan::*;
use std::path::Path;

pub struct Run {
    pub phases: Vec<PhaseRes>,
    pub models: Vec<Model>,
}
impl Run {
    pub fn trace(&self) -> u64 {
        self.phases.iter().fold(0, |a, p| crate::rng::mix(a ^ p.trace))
    }
}
pub fn bytes_of(plan: &Plan, models: &[Model], c: &FileC) -> Vec<u8> {
    match c {
        FileC::Text(t) => t.clone().into_bytes(),
        FileC::Bytes(b) => b.clone(),
        FileC::Source(i) => models[*i].source().into_bytes(),
        FileC::Ast(i) => serde_json::to_vec(&plan.programs[*i].ast).unwrap(),
        FileC::Config(l, f, s) => config_text(*l, f, s).into_bytes(),
        FileC::Dir => vec![],
    }
}
fn put(plan: &Plan, models: &[Model], fsroot: &Path, p: &str, c: &FileC) {
    let rp = real(fsroot, p);
    if let FileC::Dir = c {
        std::fs::create_dir_all(&rp).unwrap();
    } else {
        std::fs::create_dir_all(rp.parent().unwrap()).unwrap();
        std::fs::write(&rp, bytes_of(plan, models, c)).unwrap();
    }
    stamp(&rp, 1_600_000_000_000_000_000);
}
pub fn models(plan: &Plan) -> Vec<Model> {
    plan.programs.iter().map(|p| Model::new(p.lang, &p.ast)).collect()
}
pub fn run(w: &mut Worker, plan: &Plan) -> Run {
    let models = models(plan);
    let map = models.iter().enumerate().map(|(i, m)| ((m.lang, m.toks.clone()), i)).collect();
    let known = Known { map, models: &models };
    let mut out: Vec<PhaseRes> = vec![];
    let mut root = None;
    for ph in &plan.phases {
        if ph.fresh || root.is_none() {
            if let Some(r) = root.take() {
                let r: std::path::PathBuf = r;
                let _ = std::fs::remove_dir_all(&r);
            }
            let r = w.fresh_root();
            for (p, c) in &plan.files {
                put(plan, &models, &r.join("fs"), p, c);
            }
            root = Some(r);
        }
        let r = root.as_ref().unwrap();
        let fsroot = r.join("fs");
        for (d, keep) in &ph.purge {
            if let Ok(rd) = std::fs::read_dir(real(&fsroot, d)) {
                for e in rd.flatten() {
                    if e.path().is_file() && !e.file_name().to_string_lossy().ends_with(keep.as_str()) {
                        let _ = std::fs::remove_file(e.path());
                    }
                }
            }
        }
        for (p, c) in &ph.edits {
            match c {
                Some(c) => put(plan, &models, &fsroot, p, c),
                None => {
                    let rp = real(&fsroot, p);
                    let _ = if rp.is_dir() { std::fs::remove_dir_all(rp) } else { std::fs::remove_file(rp) };
                }
            }
        }
        out.push(w.run_phase(plan, ph, r, &known));
    }
    if let Some(r) = root {
        let _ = std::fs::remove_dir_all(&r);
    }
    Run { phases: out, models }
}
