//! Mirror of simshm.h.
use crate::plan::NCLS;
pub const NSLOT: usize = 4;
pub const MAXF: usize = 48;
pub const STRSZ: usize = 65536;
pub const BUFSZ: usize = 262144;
pub const LOGSZ: usize = 4 << 20;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFault {
    pub cls: u32,
    pub nth: u32,
    pub action: u32,
    pub arg: i32,
    pub fired: u32,
    pub pad: u32,
}
#[repr(C)]
pub struct Slot {
    pub argc: u32,
    pub envc: u32,
    pub pid: u32,
    pub nfaults: u32,
    pub stdout_tty: u32,
    pub tty_cols: u32,
    pub cpu_secs: u32,
    pub pad0: u32,
    pub hashseed: u64,
    pub clock_ns: i64,
    pub clock_step: i64,
    pub mono_ns: i64,
    pub disk_left: u64,
    pub max_ops: u64,
    pub root: [u8; 256],
    pub cwd: [u8; 1024],
    pub outpath: [u8; 256],
    pub errpath: [u8; 256],
    pub faults: [CFault; MAXF],
    pub strs: [u8; STRSZ],
    pub budget: u64,
    pub total_ops: u64,
    pub opcount: [u32; NCLS],
    pub vpipes: u32,
    pub limit_hit: u32,
    pub rpc_op: u32,
    pub rpc_errno: i32,
    pub rpc_a: [i64; 6],
    pub rpc_ret: i64,
    pub rpc_len: u32,
    pub pad1: u32,
    pub rpc_buf: [u8; BUFSZ],
    pub log_len: u32,
    pub log_overflow: u32,
    pub log: [u8; LOGSZ],
}
#[repr(C)]
pub struct Shm {
    pub gseq: u64,
    pub pad: u64,
    pub slots: [Slot; NSLOT],
}
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Msg {
    pub kind: u32,
    pub slot: u32,
    pub val: i32,
    pub pad: u32,
}
pub const M_REQ: u32 = 1;
pub const M_DEAD: u32 = 2;
pub const M_STARTED: u32 = 3;
pub const M_READY: u32 = 4;
pub const R_PARK: u32 = 1;
pub const R_SPAWN: u32 = 2;
pub const R_WAIT: u32 = 3;
pub const R_POLL: u32 = 4;
pub const R_PREAD: u32 = 5;
pub const R_SLEEP: u32 = 6;
pub const R_HARNESS_ERROR: u32 = 7;
