// Mirror of shim/proto.h.
pub const NSLOTS: usize = 640;
pub const NPROCS: usize = 8;
pub const SLOT_DATA: usize = 1 << 21;
pub const PATH_CAP: usize = 4096;
pub const BLOB_CAP: usize = 1 << 18;
pub const COV_CAP: usize = 1 << 18;
pub const ENVQ_CAP: usize = 8192;
pub const VFD_BASE: i32 = 500;
pub const FD_SHM: i32 = 190;
pub const FD_CTL: i32 = 191;

macro_rules! ops { ($($n:ident),*) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    #[repr(u32)]
    pub enum Op { $($n),* }
    pub const ALL_OPS: &[Op] = &[$(Op::$n),*];
    pub const OP_NAMES: &[&str] = &[$(stringify!($n)),*];
} }
ops!(
    NONE, OPEN, READ, WRITE, CLOSE, LSEEK, STAT, FSYNC, TRUNC, RENAME, UNLINK, MKDIR, LINK, SYMLINK, READLINK,
    REALPATH, CHMOD, CHOWN, ACCESS, UTIMENS, READDIR, GETCWD, CHDIR, DUP, FLOCK, FDFLAGS, FALLOC, FUTEX_WAIT,
    FUTEX_WAKE, SPAWN, JOIN, THREAD_EXIT, YIELD, SLEEP, TICK, CLOCK, RANDOM, EXIT, DETACH, ESCAPE, MMAP, FORK,
    START, EDITOR
);
impl Op {
    pub fn from_u32(n: u32) -> Op {
        ALL_OPS.get(n as usize).copied().unwrap_or(Op::NONE)
    }
    pub fn name(self) -> &'static str {
        OP_NAMES[self as usize]
    }
}

#[repr(C)]
pub struct Slot {
    pub reply: u32,
    pub op: u32,
    pub a: [i64; 8],
    pub ret: i64,
    pub err: i32,
    pub datalen: u32,
    pub quantum: u64,
    pub ticks: u64,
    pub path1: [u8; PATH_CAP],
    pub path2: [u8; PATH_CAP],
    pub data: [u8; SLOT_DATA],
}
#[repr(C)]
pub struct ProcBlk {
    pub heap_seed: u64,
    pub fail_alloc_at: u64,
    pub fail_alloc_n: u64,
    pub alloc_count: u64,
    pub pid: u64,
    pub ncpu: u64,
    pub stack_limit: u64,
    pub spare: [u64; 9],
    pub argc: u32,
    pub envc: u32,
    pub envq_len: u32,
    pub tty: u32,
    pub envq: [u8; ENVQ_CAP],
    pub blob: [u8; BLOB_CAP],
}
#[repr(C)]
pub struct Shm {
    pub n_guards: u32,
    pub pad: [u32; 15],
    pub cov: [u8; COV_CAP],
    pub proc_: [ProcBlk; NPROCS],
    pub slot: [Slot; NSLOTS],
}
#[repr(C)]
pub struct StatRep {
    pub ino: u64,
    pub size: u64,
    pub mode: u64,
    pub nlink: u64,
    pub uid: u64,
    pub gid: u64,
    pub mtime_ns: u64,
    pub ctime_ns: u64,
    pub blksize: u64,
    pub isvirt: u64,
}
