//! The simulated machine: fork server handling, scheduling of tool instances and compiler
//! processes, virtual pipes, fault accounting and recording of the history.
use crate::compiler::{self, CompRun, Outcome};
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::shm::*;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::CString;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File(Vec<u8>),
    Dir,
}
pub type Snap = BTreeMap<String, Node>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    /// killed by an injected crash
    Crashed,
    /// processor time or step limit exceeded
    Hang,
    OutOfMemory,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub seq: u64,
    pub last: u64,
    pub op: u32,
    pub ret: i32,
    pub n: u64,
    pub bytes: u64,
    pub hash: u64,
    pub fault: u32,
    pub p1: String,
    pub p2: String,
}

#[derive(Clone, Debug)]
pub struct InstRes {
    pub end: End,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub log: Vec<Ev>,
    pub ops: [u32; NCLS],
    pub total_ops: u64,
    pub fired: Vec<u32>,
    pub disk_full: u32,
    pub log_overflow: bool,
}
impl InstRes {
    pub fn stdout(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn stderr(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
}

#[derive(Clone, Debug)]
pub struct PhaseRes {
    pub insts: Vec<InstRes>,
    pub comps: Vec<CompRun>,
    pub before: Snap,
    pub after: Snap,
    pub decisions: Vec<u32>,
    pub switches: u64,
    pub trace: u64,
}

struct Pipe {
    buf: VecDeque<u8>,
    writers: u32,
}
struct Actor {
    slot: usize,
    pid: i64,
    run: usize,
    argv: Vec<String>,
    cwd: String,
    tool: Tool,
    out: i64,
    err: i64,
    step: u32,
    outcome: Option<Outcome>,
    opos: usize,
    done: bool,
    reaped: bool,
    status: i32,
    lag: u32,
}
#[derive(Clone, Debug)]
enum St {
    Starting,
    Ready,
    Wait(i64),
    Read(i64, usize),
    Poll(Vec<i64>),
    Dead,
}

pub struct Worker {
    server: std::process::Child,
    shm: *mut Shm,
    ev: std::fs::File,
    cmd: std::fs::File,
    res: Vec<std::fs::File>,
    pub scratch: PathBuf,
    nrun: u64,
    evbuf: VecDeque<Msg>,
}
unsafe impl Send for Worker {}

fn pipe() -> (RawFd, RawFd) {
    let mut f = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    (f[0], f[1])
}
fn harness(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {msg}");
    crate::cleanup();
    std::process::exit(3)
}
fn cstr(dst: &mut [u8], s: &str) {
    assert!(s.len() < dst.len(), "string too long for slot");
    dst[..s.len()].copy_from_slice(s.as_bytes());
    dst[s.len()] = 0;
}
const SLICES: [u64; 10] = [1, 2, 3, 5, 8, 13, 30, 100, 400, 3000];

impl Worker {
    pub fn new(bin: &Path, lib: &Path, scratch: &Path) -> Worker {
        std::fs::create_dir_all(scratch).unwrap();
        let name = CString::new("sim").unwrap();
        let shmfd = unsafe { libc::memfd_create(name.as_ptr(), libc::MFD_CLOEXEC) };
        assert!(shmfd >= 0);
        let sz = std::mem::size_of::<Shm>();
        assert_eq!(unsafe { libc::ftruncate(shmfd, sz as i64) }, 0);
        let p = unsafe { libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, shmfd, 0) };
        assert!(p != libc::MAP_FAILED);
        let (er, ew) = pipe();
        let (cr, cw) = pipe();
        let mut res = vec![];
        let mut child_fds = vec![shmfd, ew, cr];
        for _ in 0..NSLOT {
            let (r, w) = pipe();
            child_fds.push(r);
            res.push(unsafe { std::fs::File::from_raw_fd(w) });
        }
        // fixed descriptor numbers in the server
        let base = 900;
        let fds: Vec<String> = (0..child_fds.len()).map(|i| (base + i as i32).to_string()).collect();
        let cf = child_fds.clone();
        let mut c = std::process::Command::new(bin);
        c.env_clear().env("LD_PRELOAD", lib).env("SIM_FDS", fds.join(",")).current_dir("/").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::inherit());
        unsafe {
            c.pre_exec(move || {
                for (i, f) in cf.iter().enumerate() {
                    if libc::dup2(*f, base + i as i32) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // fixed layout: addresses must not differ between runs
                libc::personality(0x0040000);
                Ok(())
            });
        }
        let server = c.spawn().unwrap_or_else(|e| harness(&format!("cannot start fork server: {e}")));
        for f in child_fds {
            unsafe { libc::close(f) };
        }
        let mut w = Worker { server, shm: p as *mut Shm, ev: unsafe { std::fs::File::from_raw_fd(er) }, cmd: unsafe { std::fs::File::from_raw_fd(cw) }, res, scratch: scratch.to_path_buf(), nrun: 0, evbuf: VecDeque::new() };
        let m = w.next_msg();
        if m.kind != M_READY {
            harness("fork server did not become ready");
        }
        w
    }
    fn slot(&mut self, i: usize) -> &mut Slot {
        unsafe { &mut (*self.shm).slots[i] }
    }
    fn next_msg(&mut self) -> Msg {
        if let Some(m) = self.evbuf.pop_front() {
            return m;
        }
        let mut p = libc::pollfd { fd: self.ev.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let k = unsafe { libc::poll(&mut p, 1, 120_000) };
        if k == 0 {
            harness("simulated instance did not report within 120 s of real time");
        }
        let mut b = [0u8; 16];
        if self.ev.read_exact(&mut b).is_err() {
            harness("fork server died");
        }
        Msg { kind: u32::from_le_bytes(b[0..4].try_into().unwrap()), slot: u32::from_le_bytes(b[4..8].try_into().unwrap()), val: i32::from_le_bytes(b[8..12].try_into().unwrap()), pad: 0 }
    }
    pub fn fresh_root(&mut self) -> PathBuf {
        self.nrun += 1;
        // the name has a fixed length and must not influence anything the tool can see
        let r = self.scratch.join(format!("r{:07}", self.nrun % 10_000_000));
        let _ = std::fs::remove_dir_all(&r);
        std::fs::create_dir_all(r.join("fs")).unwrap();
        r
    }

    pub fn run_phase(&mut self, plan: &Plan, ph: &Phase, root: &Path, known: &compiler::Known) -> PhaseRes {
        let fsroot = root.join("fs");
        let before = snapshot(&fsroot);
        let n = ph.insts.len();
        let comp_limit = 500 + 400 * ph.insts.iter().chain(&plan.phases[0].insts).filter_map(|i| i.job.as_ref()).map(|j| j.units().iter().map(|u| u.set.num).sum::<usize>()).max().unwrap_or(0);
        assert!(n <= NSLOT);
        unsafe { (*self.shm).gseq = 0 };
        for (i, ins) in ph.insts.iter().enumerate() {
            let out = root.join(format!("out{i}"));
            let err = root.join(format!("err{i}"));
            let rootp = fsroot.to_str().unwrap().to_string();
            let s = self.slot(i);
            let mut strs: Vec<u8> = vec![];
            let mut argc = 1;
            strs.extend_from_slice(b"mutagenyx\0");
            for a in &ins.argv {
                assert!(!a.contains('\0'));
                strs.extend_from_slice(a.as_bytes());
                strs.push(0);
                argc += 1;
            }
            for (k, v) in &ins.env {
                strs.extend_from_slice(format!("{k}={v}\0").as_bytes());
            }
            assert!(strs.len() < STRSZ);
            s.strs[..strs.len()].copy_from_slice(&strs);
            s.argc = argc;
            s.envc = ins.env.len() as u32;
            s.pid = ins.pid;
            s.stdout_tty = ins.tty.is_some() as u32;
            s.tty_cols = ins.tty.unwrap_or(0);
            s.cpu_secs = 6;
            s.hashseed = ins.hashseed;
            s.clock_ns = ins.clock_ns;
            s.clock_step = ins.clock_step;
            s.mono_ns = 1_000_000_000;
            s.disk_left = ins.disk.unwrap_or(u64::MAX);
            s.max_ops = 6_000_000;
            cstr(&mut s.root, &rootp);
            cstr(&mut s.cwd, &ins.cwd);
            cstr(&mut s.outpath, out.to_str().unwrap());
            cstr(&mut s.errpath, err.to_str().unwrap());
            assert!(ins.faults.len() <= MAXF);
            s.nfaults = ins.faults.len() as u32;
            for (j, f) in ins.faults.iter().enumerate() {
                let (a, g) = match f.action {
                    Action::Err(e) => (1, e),
                    Action::ErrSticky(e) => (2, e),
                    Action::Short(k) => (3, k),
                    Action::CrashBefore => (4, 0),
                    Action::CrashAfter => (5, 0),
                    Action::Torn(k) => (6, k),
                    Action::ClockJump(k) => (7, k),
                };
                s.faults[j] = CFault { cls: f.cls as u32, nth: f.nth, action: a, arg: g, fired: 0, pad: 0 };
            }
            s.budget = 0;
            s.total_ops = 0;
            s.opcount = [0; NCLS];
            s.vpipes = 0;
            s.limit_hit = 0;
            s.rpc_op = 0;
            s.log_len = 0;
            s.log_overflow = 0;
        }
        let mut st = vec![St::Starting; n];
        let mut status = vec![0i32; n];
        for i in 0..n {
            self.cmd.write_all(&[i as u8]).unwrap();
            let (mut started, mut parked) = (false, false);
            while !(started && parked) {
                let m = self.next_msg();
                match m.kind {
                    M_STARTED => started = true,
                    M_REQ if m.slot as usize == i => parked = true,
                    M_DEAD => harness("instance died while starting"),
                    _ => harness("unexpected message while starting"),
                }
            }
            st[i] = St::Ready;
        }
        let mut actors: Vec<Actor> = vec![];
        let mut comps: Vec<CompRun> = vec![];
        let mut pipes: BTreeMap<(usize, i64), Pipe> = BTreeMap::new();
        let mut rng = match ph.sched.tail {
            Tail::Random(s) => Some(Rng::new(s, "sched")),
            Tail::Seq => None,
        };
        let mut decisions: Vec<u32> = vec![];
        let mut switches = 0u64;
        let mut last: Option<usize> = None;
        loop {
            // runnable entities, in a fixed order: instances, then compilers
            let mut run: Vec<usize> = vec![];
            for i in 0..n {
                let ok = match &st[i] {
                    St::Ready => true,
                    St::Wait(pid) => !actors.iter().any(|a| a.slot == i && a.pid == *pid && !a.done),
                    St::Read(vp, _) => pipes.get(&(i, *vp)).map_or(true, |p| !p.buf.is_empty() || p.writers == 0),
                    St::Poll(l) => l.iter().any(|vp| *vp >= 0 && pipes.get(&(i, *vp)).map_or(true, |p| !p.buf.is_empty() || p.writers == 0)),
                    _ => false,
                };
                if ok {
                    run.push(i);
                }
            }
            let ninst = run.len();
            for (k, a) in actors.iter().enumerate() {
                if !a.done {
                    run.push(NSLOT + k);
                }
            }
            if st.iter().all(|s| matches!(s, St::Dead)) {
                // compilers of dead instances finish on their own
                if run.is_empty() {
                    break;
                }
            }
            if run.is_empty() {
                harness("deadlock: an instance waits for something that cannot happen");
            }
            let (ent, slice) = if run.len() == 1 {
                (run[0], if n == 1 { u64::MAX } else { 3000 })
            } else {
                let k = decisions.len();
                let v = if k < ph.sched.explicit.len() {
                    ph.sched.explicit[k]
                } else if let Some(r) = rng.as_mut() {
                    (r.u64() >> 33) as u32
                } else {
                    // sequential: keep the current instance, else the first runnable one
                    let pos = match last {
                        Some(l) => run.iter().position(|x| *x == l),
                        None => None,
                    };
                    let pos = pos.unwrap_or(if ninst > 0 { 0 } else { run.len() - 1 });
                    (pos + run.len() * 9) as u32
                };
                decisions.push(v);
                let nr = run.len() as u32;
                (run[(v % nr) as usize], SLICES[((v / nr) % SLICES.len() as u32) as usize])
            };
            if last != Some(ent) {
                switches += 1;
            }
            last = Some(ent);
            if ent >= NSLOT {
                self.step_actor(plan, ph, &mut actors[ent - NSLOT], &mut comps, &mut pipes, &fsroot, known);
                continue;
            }
            let i = ent;
            // complete a pending request
            match std::mem::replace(&mut st[i], St::Ready) {
                St::Wait(pid) => {
                    let s = unsafe { &mut (*self.shm).slots[i] };
                    match actors.iter_mut().find(|a| a.slot == i && a.pid == pid && !a.reaped) {
                        Some(a) => {
                            a.reaped = true;
                            s.rpc_ret = pid;
                            s.rpc_a[2] = a.status as i64;
                        }
                        None => {
                            s.rpc_ret = -1;
                            s.rpc_errno = libc::ECHILD;
                        }
                    }
                }
                St::Read(vp, want) => {
                    let s = unsafe { &mut (*self.shm).slots[i] };
                    let mut k = 0;
                    if let Some(p) = pipes.get_mut(&(i, vp)) {
                        while k < want && k < BUFSZ {
                            match p.buf.pop_front() {
                                Some(b) => {
                                    s.rpc_buf[k] = b;
                                    k += 1
                                }
                                None => break,
                            }
                        }
                    }
                    s.rpc_ret = k as i64;
                }
                St::Poll(l) => {
                    let s = unsafe { &mut (*self.shm).slots[i] };
                    for (j, vp) in l.iter().enumerate() {
                        let mut r = 0i64;
                        if *vp >= 0 {
                            match pipes.get(&(i, *vp)) {
                                Some(p) => {
                                    if !p.buf.is_empty() {
                                        r |= libc::POLLIN as i64
                                    }
                                    if p.writers == 0 {
                                        r |= libc::POLLHUP as i64
                                    }
                                }
                                None => r |= libc::POLLHUP as i64,
                            }
                        }
                        s.rpc_buf[j * 8..j * 8 + 8].copy_from_slice(&r.to_le_bytes());
                    }
                }
                _ => {}
            }
            self.slot(i).budget = slice;
            self.res[i].write_all(&[1]).unwrap();
            let m = self.next_msg();
            if m.slot as usize != i {
                harness("message from an instance that was not running");
            }
            match m.kind {
                M_DEAD => {
                    st[i] = St::Dead;
                    status[i] = m.val;
                }
                M_REQ => {
                    let s = unsafe { &mut (*self.shm).slots[i] };
                    match s.rpc_op {
                        R_PARK | R_SLEEP => {}
                        R_SPAWN => {
                            let raw = &s.rpc_buf[..s.rpc_len as usize];
                            let parts: Vec<String> = raw.split(|b| *b == 0).map(|x| String::from_utf8_lossy(x).into_owned()).collect();
                            let nargs = s.rpc_a[2] as usize;
                            let cwd = parts[0].clone();
                            let file = parts[1].clone();
                            let argv: Vec<String> = parts[2..2 + nargs].to_vec();
                            match ph.comp.tools.get(&file) {
                                None => {
                                    s.rpc_ret = -1;
                                    s.rpc_errno = libc::ENOENT;
                                }
                                Some(t) => {
                                    let pid = 5000 + actors.len() as i64;
                                    let seq = unsafe { (*self.shm).gseq };
                                    let run = comps.len();
                                    // a run that asks the compiler without end
                                    if comps.iter().filter(|c| c.inst == i).count() > comp_limit {
                                        s.max_ops = 0;
                                    }
                                    comps.push(CompRun::new(i, seq, file, argv.clone(), cwd.clone(), t.clone()));
                                    let (o, e) = (s.rpc_a[0], s.rpc_a[1]);
                                    for v in [o, e] {
                                        if v >= 0 {
                                            pipes.entry((i, v)).or_insert(Pipe { buf: VecDeque::new(), writers: 0 }).writers += 1;
                                        }
                                    }
                                    actors.push(Actor { slot: i, pid, run, argv, cwd, tool: t.clone(), out: o, err: e, step: 0, outcome: None, opos: 0, done: false, reaped: false, status: 0, lag: ph.comp.lag });
                                    s.rpc_ret = pid;
                                }
                            }
                        }
                        R_WAIT => {
                            let pid = s.rpc_a[0];
                            if s.rpc_a[1] != 0 {
                                // WNOHANG
                                match actors.iter_mut().find(|a| a.slot == i && a.pid == pid && !a.reaped) {
                                    Some(a) if a.done => {
                                        a.reaped = true;
                                        s.rpc_ret = pid;
                                        s.rpc_a[2] = a.status as i64;
                                    }
                                    Some(_) => s.rpc_ret = 0,
                                    None => {
                                        s.rpc_ret = -1;
                                        s.rpc_errno = libc::ECHILD
                                    }
                                }
                            } else {
                                st[i] = St::Wait(pid);
                            }
                        }
                        R_PREAD => {
                            let vp = s.rpc_a[0];
                            let want = s.rpc_a[1] as usize;
                            let ready = pipes.get(&(i, vp)).map_or(true, |p| !p.buf.is_empty() || p.writers == 0);
                            if s.rpc_a[2] != 0 && !ready {
                                s.rpc_ret = -1;
                                s.rpc_errno = libc::EAGAIN;
                            } else {
                                st[i] = St::Read(vp, want);
                            }
                        }
                        R_POLL => {
                            let k = s.rpc_a[0] as usize;
                            st[i] = St::Poll((0..k).map(|j| i64::from_le_bytes(s.rpc_buf[j * 8..j * 8 + 8].try_into().unwrap())).collect());
                        }
                        R_HARNESS_ERROR => {
                            let t = String::from_utf8_lossy(&s.rpc_buf[..s.rpc_len as usize]).into_owned();
                            harness(&t)
                        }
                        x => harness(&format!("unknown request {x}")),
                    }
                }
                _ => harness("unexpected message"),
            }
        }
        let after = snapshot(&fsroot);
        let mut insts = vec![];
        let mut trace = 0u64;
        for i in 0..n {
            let out = std::fs::read(root.join(format!("out{i}"))).unwrap_or_default();
            let err = std::fs::read(root.join(format!("err{i}"))).unwrap_or_default();
            let s = unsafe { &mut (*self.shm).slots[i] };
            let log = parse_log(&s.log[..s.log_len as usize]);
            let fired: Vec<u32> = (0..s.nfaults as usize).map(|j| s.faults[j].fired).collect();
            let injected_crash = ph.insts[i].faults.iter().zip(&fired).any(|(f, k)| *k > 0 && matches!(f.action, Action::CrashBefore | Action::CrashAfter | Action::Torn(_)));
            let w = status[i];
            let end = if libc::WIFEXITED(w) {
                End::Exit(libc::WEXITSTATUS(w))
            } else {
                let sig = libc::WTERMSIG(w);
                if s.limit_hit != 0 || sig == libc::SIGVTALRM {
                    End::Hang
                } else if sig == libc::SIGKILL && injected_crash {
                    End::Crashed
                } else if sig == libc::SIGABRT && String::from_utf8_lossy(&err).contains("memory allocation of") {
                    End::OutOfMemory
                } else {
                    End::Signal(sig)
                }
            };
            let disk_full = log.iter().filter(|e| e.fault == 0xffff).count() as u32;
            if !matches!(end, End::Hang | End::OutOfMemory) {
                trace = mix(trace ^ crate::rng::fnv(&s.log[..s.log_len as usize]) ^ crate::rng::fnv(&out).rotate_left(1) ^ crate::rng::fnv(&err).rotate_left(2));
            }
            insts.push(InstRes { end, out, err, log, ops: s.opcount, total_ops: s.total_ops, fired, disk_full, log_overflow: s.log_overflow != 0 });
        }
        for (k, v) in &after {
            let h = match v {
                Node::File(b) => crate::rng::fnv(b),
                Node::Dir => 7,
            };
            if !insts.iter().any(|i| matches!(i.end, End::Hang | End::OutOfMemory)) {
                trace = mix(trace ^ crate::rng::fnv(k.as_bytes()) ^ h.rotate_left(3));
            }
        }
        for d in &decisions {
            trace = mix(trace ^ *d as u64);
        }
        PhaseRes { insts, comps, before, after, decisions, switches, trace }
    }

    #[allow(clippy::too_many_arguments)]
    fn step_actor(&mut self, plan: &Plan, ph: &Phase, a: &mut Actor, comps: &mut [CompRun], pipes: &mut BTreeMap<(usize, i64), Pipe>, fsroot: &Path, known: &compiler::Known) {
        unsafe { (*self.shm).gseq += 1 };
        let seq = unsafe { (*self.shm).gseq };
        if a.lag > 0 {
            a.lag -= 1;
            return;
        }
        a.lag = ph.comp.lag;
        let c = &mut comps[a.run];
        match a.step {
            0 => {
                let fault = ph.comp.faults.iter().find(|(k, _)| *k as usize == a.run).map(|(_, f)| f.clone());
                c.read_seq = seq;
                a.outcome = Some(compiler::decide(plan, ph, &a.argv, &a.cwd, &a.tool, fsroot, fault, known, c));
                a.step = 1;
            }
            1 => {
                let o = a.outcome.as_mut().unwrap();
                if let Some((p, _)) = &o.write {
                    let rp = real(fsroot, p);
                    if let Some(d) = rp.parent() {
                        let _ = std::fs::create_dir_all(d);
                    }
                    if std::fs::write(&rp, b"").is_err() {
                        o.write = None;
                        o.status = 1 << 8;
                    } else {
                        stamp(&rp, ph.insts[a.slot].clock_ns);
                    }
                }
                a.step = 2;
            }
            2 => {
                let o = a.outcome.as_mut().unwrap();
                if let Some((p, b)) = &o.write {
                    let rp = real(fsroot, p);
                    if std::fs::write(&rp, b).is_err() {
                        o.status = 1 << 8;
                    } else {
                        c.wrote = Some((p.clone(), seq));
                        stamp(&rp, ph.insts[a.slot].clock_ns);
                    }
                }
                a.step = 3;
            }
            3 => {
                let o = a.outcome.as_ref().unwrap();
                let chunk = if ph.comp.chunk == 0 { usize::MAX } else { ph.comp.chunk as usize };
                let k = o.stdout.len().saturating_sub(a.opos).min(chunk);
                let piece: Vec<u8> = o.stdout[a.opos..a.opos + k].to_vec();
                a.opos += k;
                let fin = a.opos >= o.stdout.len();
                let errout = if fin { o.stderr.clone() } else { vec![] };
                self.deliver(a.slot, a.out, &piece, pipes);
                self.deliver(a.slot, a.err, &errout, pipes);
                if fin {
                    a.step = 4;
                }
            }
            _ => {
                a.status = a.outcome.as_ref().unwrap().status;
                c.status = a.status;
                c.end_seq = seq;
                a.done = true;
                for v in [a.out, a.err] {
                    if v >= 0 {
                        pipes.get_mut(&(a.slot, v)).unwrap().writers -= 1;
                    }
                }
            }
        }
    }
    fn deliver(&mut self, slot: usize, to: i64, b: &[u8], pipes: &mut BTreeMap<(usize, i64), Pipe>) {
        if b.is_empty() {
            return;
        }
        if to >= 0 {
            pipes.get_mut(&(slot, to)).unwrap().buf.extend(b);
        } else if to == -1 {
            let s = self.slot(slot);
            let z = s.outpath.iter().position(|c| *c == 0).unwrap();
            let p = String::from_utf8_lossy(&s.outpath[..z]).into_owned();
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(p) {
                let _ = f.write_all(b);
            }
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.server.kill();
        let _ = self.server.wait();
        unsafe { libc::munmap(self.shm as *mut _, std::mem::size_of::<Shm>()) };
    }
}
pub fn real(fsroot: &Path, v: &str) -> PathBuf {
    fsroot.join(v.trim_start_matches('/'))
}
pub fn stamp(p: &Path, clock_ns: i64) {
    let c = CString::new(p.to_str().unwrap()).unwrap();
    let ts = libc::timespec { tv_sec: clock_ns.div_euclid(1_000_000_000), tv_nsec: clock_ns.rem_euclid(1_000_000_000) };
    let t = [ts, ts];
    unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), t.as_ptr(), 0) };
}
pub fn normalise(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{cwd}/{p}") };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
pub fn snapshot(fsroot: &Path) -> Snap {
    fn walk(d: &Path, pre: &str, out: &mut Snap) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let name = e.file_name().to_string_lossy().into_owned();
                let v = format!("{pre}/{name}");
                let ft = e.file_type().unwrap();
                if ft.is_dir() {
                    out.insert(v.clone(), Node::Dir);
                    walk(&e.path(), &v, out);
                } else {
                    out.insert(v, Node::File(std::fs::read(e.path()).unwrap_or_default()));
                }
            }
        }
    }
    let mut s = Snap::new();
    walk(fsroot, "", &mut s);
    s
}
fn parse_log(b: &[u8]) -> Vec<Ev> {
    let mut v = vec![];
    let mut o = 0;
    let u64at = |x: usize| u64::from_le_bytes(b[x..x + 8].try_into().unwrap());
    let u32at = |x: usize| u32::from_le_bytes(b[x..x + 4].try_into().unwrap());
    let u16at = |x: usize| u16::from_le_bytes(b[x..x + 2].try_into().unwrap()) as usize;
    while o + 56 <= b.len() {
        let (l1, l2) = (u16at(o + 52), u16at(o + 54));
        v.push(Ev {
            seq: u64at(o),
            last: u64at(o + 8),
            op: u32at(o + 16),
            ret: u32at(o + 20) as i32,
            n: u64at(o + 24),
            bytes: u64at(o + 32),
            hash: u64at(o + 40),
            fault: u32at(o + 48),
            p1: String::from_utf8_lossy(&b[o + 56..o + 56 + l1]).into_owned(),
            p2: String::from_utf8_lossy(&b[o + 56 + l1..o + 56 + l1 + l2]).into_owned(),
        });
        o += (56 + l1 + l2 + 7) & !7;
    }
    v
}
