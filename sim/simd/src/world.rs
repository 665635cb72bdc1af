// One simulated execution: real processes parked at their libc seam, a virtual disk, clock and scheduler, and faults.
use crate::host::{harness, Host};
use crate::proto::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::vfs::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Bytes = Rc<Vec<u8>>;

mod bytes_serde {
    use super::Bytes;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::rc::Rc;
    #[derive(Serialize, Deserialize)]
    #[serde(untagged)]
    enum Rep {
        Text(String),
        Raw { hex: String },
    }
    pub fn serialize<S: Serializer>(b: &Bytes, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(b) {
            Ok(t) => Rep::Text(t.to_string()).serialize(s),
            Err(_) => Rep::Raw { hex: b.iter().map(|x| format!("{:02x}", x)).collect() }.serialize(s),
        }
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Bytes, D::Error> {
        Ok(Rc::new(match Rep::deserialize(d)? {
            Rep::Text(t) => t.into_bytes(),
            Rep::Raw { hex } => (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(),
        }))
    }
}

fn is_false(b: &bool) -> bool {
    !*b
}
fn is_zero32(b: &u32) -> bool {
    *b == 0
}
fn is_zero(b: &u64) -> bool {
    *b == 0
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    File(#[serde(with = "bytes_serde")] Bytes),
    Dir,
    Symlink(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileSpec {
    pub path: String,
    pub node: Node,
    pub mode: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProcSpec {
    pub bin: usize, // 0: afmt, 1: library driver
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: String,
    pub cpus: u64,
    pub hash_seed: u64,
    pub heap_seed: u64,
    pub pid: u64,
    #[serde(default, skip_serializing_if = "is_zero32")]
    pub tty: u32, // bit n: descriptor n is a terminal
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub max_fds: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub max_threads: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail_alloc: Option<(u64, u64)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub out_limit: Option<(u64, i32)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub err_limit: Option<(u64, i32)>,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub start_at: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EditSave {
    pub path: String,
    pub node: Node, // File: atomic replacement; Dir: removal of the name
    pub after: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Phase {
    pub procs: Vec<ProcSpec>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub editors: Vec<Vec<EditSave>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub free: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Scenario {
    pub kind: String,
    pub files: Vec<FileSpec>,
    pub phases: Vec<Phase>,
    pub seed: u64,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub preempt: u64, // mean number of basic blocks between forced scheduling points; 0: only at calls
    #[serde(default, skip_serializing_if = "is_zero")]
    pub probes: u64, // power-loss variants examined after every change of the disk
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub watch: Vec<String>,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub par: BTreeMap<String, String>, // parameters for the oracle
    #[serde(default, skip_serializing_if = "is_false")]
    pub no_dir_sync: bool, // fsync of a file does not commit directory entries
}

/// the virtual instant at which the monotonic clock read zero
const MONOTONIC_ZERO: u64 = 1_699_000_000_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Errno(i32),
    Short(u32),
    Eintr,
    Kill,
    KillMid(u32),
    Power(u64),
    Delay(u64),
    Jump(i64),
    Spurious,
    Sched(String),
}
impl Act {
    pub fn kind(&self) -> &'static str {
        match self {
            Act::Errno(_) => "error",
            Act::Short(_) => "short",
            Act::Eintr => "interrupted",
            Act::Kill => "kill",
            Act::KillMid(_) => "kill_mid_write",
            Act::Power(_) => "power_loss",
            Act::Delay(_) => "delay",
            Act::Jump(_) => "clock_jump",
            Act::Spurious => "spurious_wakeup",
            Act::Sched(_) => "schedule",
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ov {
    pub at: String,
    pub seq: u64,
    pub act: Act,
}

/// How faults and schedules are drawn when a run is generated (never consulted in a replay).
#[derive(Clone, Debug, Default)]
pub struct FaultCfg {
    pub err: u64, // per 10000
    pub err_ops: Option<Vec<Op>>,
    pub err_path: Option<String>,
    pub err_max: u64,
    pub err_at: Option<(u64, u64)>, // (process, index of its operation): exactly one error, there
    pub short: u64,
    pub short_tiny: bool,
    pub eintr: u64,
    pub delay: u64,
    pub jump: u64,
    pub spurious: u64,
    pub kill_at: Option<(u64, u64)>, // (process, op index)
    pub kill_mid: bool,
    pub power: bool, // the kill is a power cut
    pub sched: Sched,
    pub phase: Option<usize>, // restrict faults (not schedules) to this phase
    pub upto: Option<usize>,  // restrict faults to phases below this
    pub no_create_perm: bool, // never refuse the permission to put a new file in the place of the old one (writing in place is all that is left then)
}
#[derive(Clone, Debug, Default, PartialEq)]
pub enum Sched {
    #[default]
    Default,
    Random(u64), // switch chance per 1000
    Pct(u64),    // priorities with this many change points per 1000 decisions
    Starve,      // one random actor runs only when nobody else can
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    Killed,
    Unfinished,
}
#[derive(Clone, Debug)]
pub struct ProcOut {
    pub exit: Exit,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub start: u64, // step at which it began / ended
    pub end: u64,
    pub ticks: u64,
    pub allocs: u64,
    pub memory: u64,
    pub ops: u64,
    pub spawned: u64,
    pub asked: Vec<String>, // environment variables it looked up
    pub missed: Vec<String>, // paths it looked for in vain, or created
}
#[derive(Clone, Debug)]
pub struct Fired {
    pub phase: usize,
    pub proc_: usize,
    pub label: String,
    pub op: Op,
    pub path: String,
    pub act: Act,
    pub create: bool,
}
#[derive(Clone, Debug)]
pub struct Version {
    pub step: u64,
    pub data: Option<Bytes>,
}
pub type Tree = BTreeMap<String, (u8, u32, Bytes, u64, Ino)>;
pub struct RunResult {
    pub procs: Vec<Vec<ProcOut>>, // [phase][proc]
    pub trees: Vec<Tree>,         // before each phase, and after the last
    pub history: BTreeMap<String, Vec<Version>>,
    pub phase_steps: Vec<u64>,
    pub fired: Vec<Fired>,
    pub ovs: Vec<Ov>,
    pub stuck: Option<String>,
    pub escapes: Vec<String>,
    pub probe_fail: Option<String>,
    pub probes_done: u64,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub states: BTreeSet<u64>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub log: Vec<String>,
    pub vfs: Vfs,
}
impl RunResult {
    pub fn errors(&self) -> bool {
        self.fired.iter().any(|f| matches!(f.act, Act::Errno(_) | Act::Kill | Act::KillMid(_) | Act::Power(_)))
    }
}

#[derive(Clone, Debug)]
struct OpenFile {
    ino: Ino,
    path: String,
    off: u64,
    read: bool,
    write: bool,
    append: bool,
    std: u8, // 1 stdout, 2 stderr, 3 stdin, 0 ordinary
}
struct SimProc {
    spec: ProcSpec,
    pid: i32,
    sock: i32,
    alive: bool,
    exiting: Option<i32>,
    fds: BTreeMap<i32, usize>,
    cwd: String,
    out: Vec<u8>,
    err: Vec<u8>,
    nthreads: u32,
    live_threads: u32,
    start: u64,
    end: u64,
    exit: Exit,
    ticks: u64,
    ops: u64,
    rng: u64,
    allocs: u64,
    memory: u64,
    asked: Vec<String>,
    missed: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready,             // request pending at the seam
    Futex(u64, u64),   // address, deadline (0: none)
    Join(usize),       // actor
    Until(u64),        // sleeping / delayed: then Ready (the request is executed then)
    Sleep(u64),        // then answered
    Done,
}
struct Actor {
    label: String,
    proc_: usize, // index in this phase; usize::MAX for editors
    slot: usize,
    st: St,
    seq: u64,
    dseq: u64,
    op: Op,
    delayed: bool,
    editor: Option<(Vec<EditSave>, usize)>,
    prio: u64,
    woken: Option<i64>,
}

pub struct World<'h> {
    host: &'h mut Host,
    sc: &'h Scenario,
    pub vfs: Vfs,
    gen: Option<(Rng, FaultCfg)>,
    ovs: HashMap<(String, u64), Vec<Act>>,
    allowed: Option<&'h BTreeMap<String, Vec<Bytes>>>,
    phase: usize,
    procs: Vec<SimProc>,
    actors: Vec<Actor>,
    ofs: Vec<OpenFile>,
    flocks: HashMap<Ino, Vec<(usize, bool)>>,
    now: u64,
    jump: i64,
    step: u64,
    nerr: u64,
    starve: usize,
    next_slot: usize,
    trace: bool,
    last_change: u64,
    max_ticks: u64,
    res: RunResult,
}

const MAX_STEPS: u64 = 400_000;
const MAX_TICKS: u64 = 4_000_000_000;

/// Basic blocks which are in proportion to a text of `n` bytes (see `props::judge_c15`)
pub fn work(n: u64) -> u64 {
    1_000_000 + 5_000 * n + 8 * n * n
}

enum Done {
    Reply(i64, i32),
    Block,
    Gone, // the process was killed
}
const OK: fn(i64) -> Done = |v| Done::Reply(v, 0);
fn er(e: i32) -> Done {
    Done::Reply(-1, e)
}

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).to_string()
}

impl<'h> World<'h> {
    pub fn run(host: &'h mut Host, sc: &'h Scenario, gen: Option<(Rng, FaultCfg)>, ovs: &[Ov], allowed: Option<&'h BTreeMap<String, Vec<Bytes>>>, trace: bool) -> RunResult {
        let mut vfs = Vfs::new();
        vfs.fsync_commits_names = !sc.no_dir_sync;
        for f in &sc.files {
            match &f.node {
                Node::File(b) => vfs.add_file(&f.path, (**b).clone(), f.mode),
                Node::Symlink(t) => vfs.add_symlink(&f.path, t),
                Node::Dir => vfs.add_dir(&f.path),
            }
        }
        for f in &sc.files {
            if let (Node::Dir, Some(&i)) = (&f.node, vfs.names.get(&f.path)) {
                vfs.inodes[i].mode = 0o40000 | f.mode;
            }
        }
        let mut m: HashMap<(String, u64), Vec<Act>> = HashMap::new();
        for o in ovs {
            m.entry((o.at.clone(), o.seq)).or_default().push(o.act.clone());
        }
        let res = RunResult {
            procs: vec![],
            trees: vec![],
            history: BTreeMap::new(),
            phase_steps: vec![],
            fired: vec![],
            ovs: vec![],
            stuck: None,
            escapes: vec![],
            probe_fail: None,
            probes_done: 0,
            log_hash: 0,
            sched_hash: 0,
            states: BTreeSet::new(),
            steps: 0,
            switches: 0,
            sim_ns: 0,
            log: vec![],
            vfs: Vfs::new(),
        };
        let mut w = World {
            host,
            sc,
            vfs,
            gen,
            ovs: m,
            allowed,
            phase: 0,
            procs: vec![],
            actors: vec![],
            ofs: vec![],
            flocks: HashMap::new(),
            now: 1_700_000_000_000_000_000,
            jump: 0,
            step: 0,
            nerr: 0,
            starve: 0,
            next_slot: 0,
            trace,
            last_change: u64::MAX,
            // a process is stopped when it has worked far beyond any proportion to the texts there are
            max_ticks: MAX_TICKS.min(
                work(sc.files.iter().map(|f| if let Node::File(b) = &f.node { b.len() as u64 } else { 0 }).sum()).saturating_mul(if sc.kind == "growth" { 2 } else { 200 }),
            ),
            res,
        };
        let t0 = w.now;
        w.note_versions();
        for ph in 0..sc.phases.len() {
            w.res.phase_steps.push(w.step);
            w.res.trees.push(w.vfs.tree());
            w.run_phase(ph);
            if w.res.stuck.is_some() {
                break;
            }
            w.now += 1_000_000_000;
        }
        w.res.phase_steps.push(w.step);
        w.res.trees.push(w.vfs.tree());
        w.res.steps = w.step;
        w.res.sim_ns = w.now - t0;
        let h = w.vfs.state_hash();
        w.mixlog(h);
        w.res.vfs = w.vfs;
        w.res
    }

    fn mixlog(&mut self, v: u64) {
        self.res.log_hash = mix(self.res.log_hash ^ v);
    }
    fn log(&mut self, s: String) {
        let h = hash_bytes(s.as_bytes());
        self.mixlog(h);
        if self.trace {
            let t = (self.now - 1_700_000_000_000_000_000) as f64 / 1e6;
            self.res.log.push(format!("{:>6} {:>10.3}ms {}", self.step, t, s));
        }
    }

    fn note_versions(&mut self) {
        if self.vfs.changes == self.last_change {
            return;
        }
        self.last_change = self.vfs.changes;
        for p in &self.sc.watch {
            let cur = self.vfs.content(p);
            let h = self.res.history.entry(p.clone()).or_default();
            let same = match (h.last(), &cur) {
                (Some(Version { data: Some(a), .. }), Some(b)) => Rc::ptr_eq(a, b) || a == b,
                (Some(Version { data: None, .. }), None) => true,
                _ => false,
            };
            if !same {
                h.push(Version { step: self.step, data: cur });
            }
        }
        let sh = self.vfs.state_hash();
        self.res.states.insert(sh);
        if let Some(al) = self.allowed {
            if self.sc.probes > 0 && self.res.probe_fail.is_none() {
                for j in 0..self.sc.probes {
                    let variant = mix(self.sc.seed ^ (self.vfs.changes << 8) ^ j);
                    let after = self.vfs.power_loss(variant);
                    self.res.probes_done += 1;
                    for (p, ok) in al {
                        let c = after.content(p);
                        if !c.as_ref().is_some_and(|c| ok.iter().any(|o| o == c)) {
                            let what = match c {
                                None => "is missing".to_string(),
                                Some(c) => format!("holds {} bytes that are neither an earlier text nor a complete formatted text", c.len()),
                            };
                            self.res.probe_fail = Some(format!("power loss at step {} (variant {:#x}): {} {}", self.step, variant, p, what));
                            return;
                        }
                    }
                }
            }
        }
    }

    fn start_phase(&mut self, ph: usize) {
        self.phase = ph;
        self.procs.clear();
        self.actors.clear();
        self.ofs.clear();
        self.flocks.clear();
        self.next_slot = 0;
        self.vfs.free = self.sc.phases[ph].free;
        let phase = &self.sc.phases[ph];
        for (k, spec) in phase.procs.iter().enumerate() {
            if k >= NPROCS {
                harness("too many processes");
            }
            let slot = self.new_slot();
            unsafe {
                let pb = &mut (*self.host.shm).proc_[k];
                pb.heap_seed = spec.heap_seed;
                pb.alloc_count = 0;
                pb.spare[1] = 0;
                pb.spare[2] = 0;
                pb.envq_len = 0;
                pb.tty = spec.tty;
                let fa = spec.fail_alloc.unwrap_or((0, 0));
                pb.fail_alloc_at = fa.0;
                pb.fail_alloc_n = fa.1;
                pb.pid = spec.pid;
                pb.ncpu = spec.cpus.max(1);
                pb.spare[0] = if spec.bin == 1 { (COV_CAP / 2) as u64 } else { 0 };
                let mut o = 0;
                for s in spec.argv.iter().map(|a| a.clone()).chain(spec.env.iter().map(|(a, b)| format!("{}={}", a, b))) {
                    if o + s.len() + 1 > BLOB_CAP {
                        harness("arguments too long");
                    }
                    pb.blob[o..o + s.len()].copy_from_slice(s.as_bytes());
                    pb.blob[o + s.len()] = 0;
                    o += s.len() + 1;
                }
                pb.argc = spec.argv.len() as u32;
                pb.envc = spec.env.len() as u32;
            }
            let (pid, sock) = self.host.fork(spec.bin, k, slot);
            let mut p = SimProc {
                spec: spec.clone(),
                pid,
                sock,
                alive: true,
                exiting: None,
                fds: BTreeMap::new(),
                cwd: spec.cwd.clone(),
                out: vec![],
                err: vec![],
                nthreads: 1,
                live_threads: 1,
                start: u64::MAX,
                end: 0,
                exit: Exit::Unfinished,
                ticks: 0,
                ops: 0,
                rng: mix(spec.hash_seed ^ 0x7777),
                allocs: 0,
                memory: 0,
                asked: vec![],
                missed: vec![],
            };
            for (fd, std) in [(0, 3u8), (1, 1), (2, 2)] {
                self.ofs.push(OpenFile { ino: 0, path: ["<stdin>", "<stdout>", "<stderr>"][fd as usize].into(), off: 0, read: std == 3, write: std != 3, append: false, std });
                p.fds.insert(fd, self.ofs.len() - 1);
            }
            self.procs.push(p);
            let label = format!("s{}p{}.t0", ph, k);
            self.push_actor(label, k, slot, None);
            let t = self.now + spec.start_at;
            let a = self.actors.len() - 1;
            if spec.start_at > 0 {
                self.actors[a].st = St::Until(t);
            }
        }
        for (k, e) in phase.editors.iter().enumerate() {
            self.push_actor(format!("s{}ed{}", ph, k), usize::MAX, usize::MAX, Some((e.clone(), 0)));
            let a = self.actors.len() - 1;
            self.actors[a].op = Op::EDITOR;
            let d = e.first().map(|x| x.after).unwrap_or(0);
            if d > 0 {
                self.actors[a].st = St::Until(self.now + d);
            }
            if e.is_empty() {
                self.actors[a].st = St::Done;
            }
        }
        if let Some((r, _)) = &mut self.gen {
            self.starve = r.below(self.actors.len() as u64 + 3) as usize;
        }
    }
    fn new_slot(&mut self) -> usize {
        if self.next_slot >= NSLOTS {
            harness("out of slots");
        }
        let s = self.next_slot;
        self.next_slot += 1;
        unsafe {
            let x = &mut (*self.host.shm).slot[s];
            x.reply = 0;
            x.a = [0; 8];
            x.path1[0] = 0;
            x.path2[0] = 0;
        }
        s
    }
    fn push_actor(&mut self, label: String, proc_: usize, slot: usize, editor: Option<(Vec<EditSave>, usize)>) {
        let prio = match &mut self.gen {
            Some((r, _)) => r.next() >> 8,
            None => 0,
        };
        self.actors.push(Actor { label, proc_, slot, st: St::Ready, seq: 0, dseq: 0, op: Op::START, delayed: false, editor, prio, woken: None });
    }

    fn run_phase(&mut self, ph: usize) {
        self.start_phase(ph);
        let mut last: Option<usize> = None;
        loop {
            if self.actors.iter().all(|a| a.st == St::Done) {
                break;
            }
            self.step += 1;
            if self.step > MAX_STEPS {
                self.res.stuck = Some(format!("livelock: more than {} operations", MAX_STEPS));
                break;
            }
            let Some(a) = self.choose(last) else {
                if self.res.stuck.is_some() {
                    break;
                }
                continue;
            };
            if last != Some(a) {
                self.res.switches += 1;
                let h = hash_bytes(self.actors[a].label.as_bytes()) ^ mix(self.actors[a].op as u64);
                self.res.sched_hash = mix(self.res.sched_hash ^ h);
            }
            last = Some(a);
            self.act(a);
            self.note_versions();
            if self.res.stuck.is_some() {
                break;
            }
        }
        for k in 0..self.procs.len() {
            if self.procs[k].alive {
                self.kill_proc(k, Exit::Unfinished);
            }
        }
        let outs = self
            .procs
            .drain(..)
            .map(|p| ProcOut { exit: p.exit, out: p.out, err: p.err, start: p.start, end: p.end, ticks: p.ticks, allocs: p.allocs, memory: p.memory, ops: p.ops, spawned: p.nthreads as u64 - 1, asked: p.asked, missed: p.missed })
            .collect();
        self.res.procs.push(outs);
    }

    fn enabled(&self, a: &Actor) -> bool {
        match &a.st {
            St::Ready => true,
            St::Join(t) => self.actors[*t].st == St::Done,
            St::Until(t) | St::Sleep(t) => *t <= self.now,
            St::Futex(_, d) => *d != 0 && *d <= self.now,
            St::Done => false,
        }
    }
    fn choose(&mut self, last: Option<usize>) -> Option<usize> {
        let en: Vec<usize> = (0..self.actors.len()).filter(|&i| self.enabled(&self.actors[i])).collect();
        if en.is_empty() {
            let t = self
                .actors
                .iter()
                .filter_map(|a| match a.st {
                    St::Until(t) | St::Sleep(t) => Some(t),
                    St::Futex(_, d) if d != 0 => Some(d),
                    _ => None,
                })
                .min();
            match t {
                Some(t) => self.now = self.now.max(t),
                None => {
                    let w: Vec<String> = self.actors.iter().filter(|a| a.st != St::Done).map(|a| format!("{}:{:?}", a.label, a.st)).collect();
                    self.res.stuck = Some(format!("deadlock: nothing can run ({})", w.join(", ")));
                }
            }
            return None;
        }
        let def = match last {
            Some(l) if en.contains(&l) => l,
            _ => en[0],
        };
        if en.len() == 1 {
            return Some(en[0]);
        }
        let (key, seq) = match last {
            Some(l) => {
                // the n-th time somebody else could run in its place
                self.actors[l].dseq += 1;
                (format!("after {}", self.actors[l].label), self.actors[l].dseq)
            }
            None => (format!("s{}start", self.phase), 0),
        };
        let mut pick = def;
        if let Some((r, cfg)) = &mut self.gen {
            match cfg.sched {
                Sched::Default => {}
                Sched::Random(p) => {
                    if r.chance(p, 1000) {
                        pick = *r.pick(&en);
                    }
                }
                Sched::Pct(p) => {
                    if r.chance(p, 1000) {
                        if let Some(l) = last {
                            self.actors[l].prio = r.below(1000);
                        }
                    }
                    pick = *en.iter().max_by_key(|&&i| self.actors[i].prio).unwrap();
                }
                Sched::Starve => {
                    let s = self.starve;
                    let others: Vec<usize> = en.iter().copied().filter(|&i| i != s).collect();
                    if r.chance(300, 1000) {
                        pick = if others.is_empty() { en[0] } else { *r.pick(&others) };
                    } else if pick == s && !others.is_empty() {
                        pick = others[0];
                    }
                }
            }
            if pick != def {
                let to = self.actors[pick].label.clone();
                self.res.ovs.push(Ov { at: key, seq, act: Act::Sched(to) });
            }
        } else if let Some(v) = self.ovs.get(&(key.clone(), seq)) {
            let mut found = None;
            for x in v {
                if let Act::Sched(to) = x {
                    if let Some(&i) = en.iter().find(|&&i| self.actors[i].label == *to) {
                        found = Some((i, x.clone()));
                    }
                }
            }
            if let Some((i, x)) = found {
                pick = i;
                self.res.ovs.push(Ov { at: key, seq, act: x });
            }
        }
        Some(pick)
    }

    /// Decide what goes wrong at this operation (None: nothing).
    fn decide(&mut self, a: usize, path: &str, create: bool, n: u64, std: u8) -> Option<Act> {
        let (label, seq, op, pr) = {
            let x = &self.actors[a];
            (x.label.clone(), x.seq, x.op, x.proc_)
        };
        if self.gen.is_none() {
            let v = self.ovs.get(&(label.clone(), seq))?;
            let delayed = self.actors[a].delayed;
            let act = v.iter().find(|x| !matches!(x, Act::Sched(_)) && !(delayed && matches!(x, Act::Delay(_))))?.clone();
            self.res.ovs.push(Ov { at: label, seq, act: act.clone() });
            return Some(act);
        }
        let opix = if pr == usize::MAX { 0 } else { self.procs[pr].ops };
        let delayed = self.actors[a].delayed;
        let nerr = self.nerr;
        let phase = self.phase;
        let (r, c) = self.gen.as_mut().unwrap();
        if c.phase.is_some_and(|p| p != phase) || c.upto.is_some_and(|u| phase >= u) {
            return None;
        }
        let mut act = None;
        let faultable = matches!(
            op,
            Op::OPEN | Op::READ | Op::WRITE | Op::CLOSE | Op::STAT | Op::FSYNC | Op::TRUNC | Op::RENAME | Op::UNLINK | Op::MKDIR | Op::LINK | Op::SYMLINK | Op::READLINK | Op::REALPATH | Op::CHMOD
                | Op::CHOWN | Op::ACCESS | Op::UTIMENS | Op::READDIR | Op::GETCWD | Op::FLOCK | Op::FALLOC | Op::SPAWN
        ) && !path.starts_with("/drv/")
            && !path.starts_with("/proc/")
            && !path.starts_with("/dev/");
        if let Some((kp, kn)) = c.kill_at {
            if pr as u64 == kp && opix == kn {
                act = Some(if c.power {
                    Act::Power(r.next())
                } else if c.kill_mid && op == Op::WRITE && n > 0 {
                    Act::KillMid(r.below(n + 1) as u32)
                } else {
                    Act::Kill
                });
            }
        }
        if act.is_none() && faultable {
            let targeted = c.err_at == Some((pr as u64, opix));
            let okop = c.err_ops.as_ref().is_none_or(|v| v.contains(&op)) && c.err_path.as_ref().is_none_or(|p| path.contains(p.as_str()));
            if targeted || (okop && nerr < c.err_max && c.err > 0 && r.chance(c.err, 10000)) {
                let list: &[i32] = match op {
                    Op::OPEN if create && c.no_create_perm => &[libc::EIO, libc::ENOSPC, libc::EMFILE, libc::ENFILE, libc::EDQUOT],
                    Op::OPEN if create => &[libc::EIO, libc::ENOSPC, libc::EMFILE, libc::ENFILE, libc::EDQUOT, libc::EACCES, libc::EROFS],
                    Op::OPEN => &[libc::EIO, libc::EMFILE, libc::ENFILE, libc::EACCES, libc::ENOMEM, libc::ETXTBSY, libc::ENOENT, libc::ESTALE, libc::ETIMEDOUT],
                    Op::READ => &[libc::EIO, libc::ENOMEM, libc::ESTALE, libc::ETIMEDOUT, libc::EAGAIN, libc::ENXIO],
                    Op::WRITE if std != 0 => &[libc::EPIPE, libc::EIO, libc::ENOSPC, libc::EAGAIN],
                    Op::WRITE => &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::ESTALE, libc::ETIMEDOUT],
                    Op::FSYNC => &[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::ESTALE],
                    Op::RENAME if c.no_create_perm => &[libc::EIO, libc::ENOSPC, libc::EBUSY],
                    Op::RENAME => &[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EBUSY, libc::EXDEV, libc::ESTALE],
                    Op::SPAWN => &[libc::EAGAIN],
                    Op::CHMOD | Op::CHOWN | Op::UTIMENS if c.no_create_perm => &[libc::EIO],
                    Op::CHMOD | Op::CHOWN | Op::UTIMENS => &[libc::EPERM, libc::EIO],
                    Op::FLOCK => &[libc::ENOLCK],
                    Op::MKDIR | Op::LINK | Op::SYMLINK | Op::TRUNC | Op::FALLOC => &[libc::ENOSPC, libc::EIO],
                    Op::STAT | Op::REALPATH => &[libc::EIO, libc::ENOENT, libc::ESTALE, libc::ETIMEDOUT, libc::ENOMEM],
                    _ => &[libc::EIO],
                };
                act = Some(Act::Errno(*r.pick(list)));
            }
        }
        if act.is_none() {
            match op {
                Op::READ | Op::WRITE if n > 1 && c.short > 0 && faultable && r.chance(c.short, 10000) => {
                    let k = if c.short_tiny {
                        // pieces of a few bytes, but not a million of them
                        let least = if n > 20_000 { n / 5000 } else { 0 };
                        r.range(1, 3.min(n - 1)) + least
                    } else if r.chance(1, 3) {
                        // around the end of the piece
                        n - r.range(1, 4.min(n - 1))
                    } else {
                        r.range(1, n - 1)
                    };
                    act = Some(Act::Short(k as u32));
                }
                Op::READ | Op::WRITE | Op::OPEN if c.eintr > 0 && faultable && r.chance(c.eintr, 10000) => act = Some(Act::Eintr),
                Op::FUTEX_WAIT if c.spurious > 0 && r.chance(c.spurious, 10000) => act = Some(Act::Spurious),
                Op::CLOCK if c.jump > 0 && r.chance(c.jump.max(3000), 10000) => {
                    let j = match r.below(4) {
                        0 => -(r.below(3_600_000_000_000) as i64),
                        1 => r.below(86_400_000_000_000) as i64,
                        2 => -(1_600_000_000_000_000_000),
                        _ => 2_000_000_000_000_000_000,
                    };
                    act = Some(Act::Jump(j));
                }
                Op::FUTEX_WAIT => {}
                _ if c.delay > 0 && !delayed && r.chance(c.delay, 10000) => {
                    let d = match r.below(7) {
                        0 | 1 => r.below(1_000_000),
                        2 | 3 => r.below(100_000_000),
                        4 | 5 => r.below(5_000_000_000),
                        // a stalled network disk, a suspended machine
                        _ => r.below(7_200_000_000_000),
                    };
                    act = Some(Act::Delay(d + 1));
                }
                _ => {}
            }
        }
        if let Some(x) = &act {
            self.res.ovs.push(Ov { at: label, seq, act: x.clone() });
        }
        act
    }

    fn kill_proc(&mut self, k: usize, exit: Exit) {
        let p = &mut self.procs[k];
        if !p.alive {
            return;
        }
        unsafe {
            libc::kill(p.pid, libc::SIGKILL);
        }
        self.reap(k, Some(exit));
    }
    fn reap(&mut self, k: usize, exit: Option<Exit>) {
        let (bin, pid, sock) = (self.procs[k].spec.bin, self.procs[k].pid, self.procs[k].sock);
        let st = self.host.wait(bin, pid);
        unsafe {
            libc::close(sock);
        }
        let (allocs, memory) = unsafe { ((*self.host.shm).proc_[k].alloc_count, (*self.host.shm).proc_[k].spare[2]) };
        let asked: Vec<String> = unsafe {
            let pb = &(*self.host.shm).proc_[k];
            let n = (pb.envq_len as usize).min(ENVQ_CAP);
            pb.envq[..n].split(|c| *c == 0).filter(|s| !s.is_empty()).map(|s| String::from_utf8_lossy(s).to_string()).collect()
        };
        let step = self.step;
        let p = &mut self.procs[k];
        p.alive = false;
        p.end = step;
        p.allocs = allocs;
        p.memory = memory;
        p.asked = asked;
        let wif = libc::WIFEXITED(st);
        p.exit = exit.unwrap_or(if wif { Exit::Code(libc::WEXITSTATUS(st)) } else { Exit::Signal(libc::WTERMSIG(st)) });
        if wif && p.exiting.is_none() && libc::WEXITSTATUS(st) == 113 {
            harness("the seam inside a simulated process failed");
        }
        let e = format!("p{} ended {:?}", k, p.exit);
        let ofs: Vec<usize> = p.fds.values().copied().collect();
        for l in self.flocks.values_mut() {
            l.retain(|(o, _)| !ofs.contains(o));
        }
        for a in self.actors.iter_mut().filter(|a| a.proc_ == k) {
            a.st = St::Done;
        }
        self.log(e);
    }

    /// Let actor a's thread run until its process makes the next request or ends.
    fn resume(&mut self, a: usize, ret: i64, err: i32) {
        let (slot, k) = (self.actors[a].slot, self.actors[a].proc_);
        let q = if self.sc.preempt == 0 {
            0
        } else {
            let h = mix(self.sc.seed ^ hash_bytes(self.actors[a].label.as_bytes()) ^ self.actors[a].seq.wrapping_mul(0x9E37));
            match h % 4 {
                0 => 1 + (h >> 8) % (self.sc.preempt / 16 + 1),
                1 | 2 => 1 + (h >> 8) % (self.sc.preempt * 2),
                _ => 1 + (h >> 8) % (self.sc.preempt * 20),
            }
        };
        let was = self.actors[a].op;
        {
            let s = self.host.slot(slot);
            s.ret = ret;
            s.err = err;
            s.quantum = q;
        }
        self.actors[a].seq += 1;
        self.actors[a].delayed = false;
        self.host.answer(slot);
        if was == Op::THREAD_EXIT {
            self.actors[a].st = St::Done;
            self.procs[k].live_threads -= 1;
            return;
        }
        let sock = self.procs[k].sock;
        let mut b = [0u8; 2];
        let n = unsafe {
            let mut pf = libc::pollfd { fd: sock, events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut pf, 1, 120_000) <= 0 {
                self.res.stuck = Some("a thread ran for 120 s without reaching a scheduling point".into());
                return;
            }
            libc::recv(sock, b.as_mut_ptr() as *mut _, 2, libc::MSG_WAITALL)
        };
        if n <= 0 {
            self.reap(k, None);
            return;
        }
        let sl = u16::from_ne_bytes(b) as usize;
        let Some(t) = self.actors.iter().position(|x| x.slot == sl && x.proc_ == k && x.st != St::Done) else { harness("request from an unknown thread") };
        let s = self.host.slot(sl);
        let op = Op::from_u32(s.op);
        self.actors[t].op = op;
        self.actors[t].st = St::Ready;
        let ticks = s.ticks;
        self.procs[k].ticks += ticks;
        self.now += 1_000 + ticks / 4; // a quarter of a nanosecond of virtual time per basic block
        if self.procs[k].ticks > self.max_ticks {
            self.res.stuck = Some("livelock: a process computes without end".into());
        }
        if op == Op::FUTEX_WAIT {
            // the value check and the queueing are one atomic step
            let (addr, to, abs, clk) = (s.a[0] as u64, s.a[1], s.a[2], s.a[3]);
            let dl = if to < 0 {
                0
            } else if abs == 0 {
                self.now.saturating_add(to as u64)
            } else if clk == 0 {
                ((to - self.jump).max(0) as u64).max(1)
            } else {
                (to.max(0) as u64).saturating_add(MONOTONIC_ZERO)
            };
            let spurious = matches!(self.decide(t, "", false, 0, 0), Some(Act::Spurious));
            self.log(format!("{} FUTEX_WAIT {}", self.actors[t].label, if spurious { "[spurious]" } else { "" }));
            if spurious {
                self.fire(t, "", &Act::Spurious, false);
                self.actors[t].woken = Some(0);
            } else {
                self.actors[t].st = St::Futex(addr, dl);
            }
        }
    }

    fn fire(&mut self, a: usize, path: &str, act: &Act, create: bool) {
        let x = &self.actors[a];
        self.res.fired.push(Fired { phase: self.phase, proc_: x.proc_, label: x.label.clone(), op: x.op, path: path.to_string(), act: act.clone(), create });
    }

    /// Execute the pending operation of actor a.
    fn act(&mut self, a: usize) {
        if self.actors[a].editor.is_some() {
            return self.editor(a);
        }
        let k = self.actors[a].proc_;
        self.now += 2_000;
        match self.actors[a].st.clone() {
            St::Futex(..) => {
                self.actors[a].st = St::Ready;
                self.log(format!("{} futex timed out", self.actors[a].label));
                return self.resume(a, -1, libc::ETIMEDOUT);
            }
            St::Sleep(_) => {
                self.actors[a].st = St::Ready;
                return self.resume(a, 0, 0);
            }
            St::Join(_) => {
                self.actors[a].st = St::Ready;
                return self.resume(a, 0, 0);
            }
            _ => self.actors[a].st = St::Ready,
        }
        let op = self.actors[a].op;
        if op == Op::START {
            if self.procs[k].start == u64::MAX {
                self.procs[k].start = self.step;
            }
            return self.resume(a, 0, 0);
        }
        if let Some(r) = self.actors[a].woken.take() {
            return self.resume(a, r, if r < 0 { libc::EINTR } else { 0 });
        }
        let slot = self.actors[a].slot;
        let (args, p1, p2) = {
            let s = self.host.slot(slot);
            (s.a, cstr(&s.path1), cstr(&s.path2))
        };
        let fd = args[0] as i32;
        let uses_fd = matches!(op, Op::READ | Op::WRITE | Op::CLOSE | Op::FSYNC | Op::LSEEK | Op::DUP | Op::FLOCK | Op::FDFLAGS | Op::FALLOC)
            || (matches!(op, Op::TRUNC) && p1.is_empty())
            || (op == Op::STAT && args[2] == 1)
            || (matches!(op, Op::CHMOD | Op::CHOWN) && args[2] == 1)
            || (op == Op::UTIMENS && args[1] == 1);
        let of = if uses_fd { self.procs[k].fds.get(&fd).copied() } else { None };
        let std = of.map(|o| self.ofs[o].std).unwrap_or(0);
        let named = matches!(
            op,
            Op::OPEN | Op::STAT | Op::TRUNC | Op::RENAME | Op::UNLINK | Op::MKDIR | Op::LINK | Op::SYMLINK | Op::READLINK | Op::REALPATH | Op::CHMOD | Op::CHOWN | Op::ACCESS | Op::UTIMENS | Op::READDIR | Op::CHDIR | Op::ESCAPE
        );
        let path = if uses_fd {
            of.map(|o| self.ofs[o].path.clone()).unwrap_or_default()
        } else if op == Op::SYMLINK {
            self.full(k, args[0], &p2)
        } else if p1.is_empty() || !named {
            String::new()
        } else {
            self.full(k, if op == Op::REALPATH || op == Op::CHDIR { libc::AT_FDCWD as i64 } else { args[0] }, &p1)
        };
        let create = op == Op::OPEN && args[1] as i32 & libc::O_CREAT != 0;
        let n = if matches!(op, Op::READ | Op::WRITE) { args[1] as u64 } else { 0 };
        let counted = !matches!(op, Op::TICK | Op::FUTEX_WAKE | Op::CLOCK | Op::RANDOM);
        if counted {
            self.procs[k].ops += 1;
        }
        // a short read only makes sense on the bytes that are there
        let avail = if op == Op::READ {
            of.map(|o| {
                let f = &self.ofs[o];
                if f.std != 0 {
                    0
                } else {
                    let off = if args[2] >= 0 { args[2] as u64 } else { f.off };
                    n.min((self.vfs.inodes[f.ino].data.len() as u64).saturating_sub(off))
                }
            })
            .unwrap_or(0)
        } else {
            n
        };
        let mut act = if op == Op::TICK && self.gen.is_some() { None } else { self.decide(a, &path, create, avail, std) };
        if let Some(x) = &act {
            let x = x.clone();
            match &x {
                Act::Delay(d) => {
                    self.fire(a, &path, &x, create);
                    self.actors[a].delayed = true;
                    self.actors[a].st = St::Until(self.now + d);
                    if counted {
                        self.procs[k].ops -= 1;
                    }
                    self.log(format!("{} delayed {}", self.actors[a].label, d));
                    return;
                }
                Act::Jump(j) => {
                    self.fire(a, &path, &x, create);
                    self.jump += j;
                    act = None;
                }
                Act::Power(v) => {
                    self.fire(a, &path, &x, create);
                    self.log(format!("{} POWER LOSS before {} {}", self.actors[a].label, op.name(), path));
                    for p in 0..self.procs.len() {
                        self.kill_proc(p, Exit::Killed);
                    }
                    for x in &mut self.actors {
                        x.st = St::Done;
                    }
                    self.vfs = self.vfs.power_loss(*v);
                    return;
                }
                Act::Kill => {
                    self.fire(a, &path, &x, create);
                    self.log(format!("{} KILLED before {} {}", self.actors[a].label, op.name(), path));
                    return self.kill_proc(k, Exit::Killed);
                }
                _ => {}
            }
        }
        let before = self.res.fired.len();
        if let Some(x) = act.clone() {
            self.fire(a, &path, &x, create);
        }
        let absent = matches!(op, Op::OPEN | Op::STAT | Op::ACCESS | Op::READLINK | Op::REALPATH | Op::READDIR | Op::RENAME | Op::LINK | Op::MKDIR | Op::SYMLINK);
        if absent && self.procs[k].missed.len() < 12 {
            let to = if matches!(op, Op::RENAME | Op::LINK) { self.full(k, args[1], &p2) } else { path.clone() };
            if !to.is_empty() && matches!(self.vfs.resolve("/", &to, false), Ok((_, None)) | Err(libc::ENOENT)) && !self.procs[k].missed.contains(&to) {
                self.procs[k].missed.push(to);
            }
        }
        let d = self.exec(a, k, op, &args, &p1, &p2, &path, of, act.as_ref());
        let label = self.actors[a].label.clone();
        let tag = if self.res.fired.len() > before { format!(" [{:?}]", self.res.fired[before].act) } else { String::new() };
        match d {
            Done::Reply(r, e) => {
                if !matches!(op, Op::TICK) {
                    let es = if e != 0 { format!(" errno={}", e) } else { String::new() };
                    let ex = match op {
                        Op::WRITE | Op::READ => {
                            let h = if r > 0 { hash_bytes(&self.host.slot(slot).data[..r as usize]) & 0xffff } else { 0 };
                            format!(" fd={} n={} #{:x}", fd, n, h)
                        }
                        Op::RENAME | Op::LINK => format!(" -> {}", p2),
                        Op::OPEN => format!(" flags={:#o}", args[1]),
                        Op::FUTEX_WAKE | Op::CLOCK | Op::RANDOM | Op::TICK => String::new(),
                        _ => format!(" {:x}", if named || uses_fd { args[1] } else { 0 }),
                    };
                    let ret = if op == Op::CLOCK { 0 } else { r };
                    self.log(format!("{} {} {}{} = {}{}{}", label, op.name(), path, ex, ret, es, tag));
                }
                if op == Op::TICK {
                    self.mixlog(7);
                }
                self.resume(a, r, e);
            }
            Done::Block => self.log(format!("{} {} blocks", label, op.name())),
            Done::Gone => {}
        }
    }

    fn editor(&mut self, a: usize) {
        let (script, i) = self.actors[a].editor.clone().unwrap();
        let e = &script[i];
        self.now += 2_000;
        let now = self.now;
        match &e.node {
            Node::File(b) => {
                if let Ok((p, old)) = self.vfs.resolve("/", &e.path, true) {
                    let mode = old.map(|i| self.vfs.inodes[i].mode & 0o7777).unwrap_or(0o644);
                    // a careful editor: durable temporary file, then rename
                    let t = format!("{}.editor-save", p);
                    if let Ok(i) = self.vfs.create(&t, mode, now) {
                        self.vfs.inodes[i].mode = 0o100000 | mode;
                        self.vfs.data_op(i, DataOp::Write(0, b.clone()), now);
                        self.vfs.fsync(i);
                        let _ = self.vfs.rename(&t, &p, now);
                    }
                }
            }
            Node::Dir => {
                if let Ok((p, Some(_))) = self.vfs.resolve("/", &e.path, false) {
                    let _ = self.vfs.unlink(&p, false);
                }
            }
            Node::Symlink(t) => {
                if let Ok((p, _)) = self.vfs.resolve("/", &e.path, false) {
                    let q = format!("{}.editor-link", p);
                    let _ = self.vfs.symlink(t, &q, now);
                    let _ = self.vfs.rename(&q, &p, now);
                }
            }
        }
        self.log(format!("{} saves {}", self.actors[a].label, e.path));
        self.actors[a].seq += 1;
        if i + 1 < script.len() {
            let d = script[i + 1].after;
            self.actors[a].st = if d > 0 { St::Until(self.now + d) } else { St::Ready };
            self.actors[a].editor = Some((script, i + 1));
        } else {
            self.actors[a].st = St::Done;
        }
    }

    fn base(&self, k: usize, dfd: i64) -> String {
        if dfd as i32 == libc::AT_FDCWD {
            return self.procs[k].cwd.clone();
        }
        self.procs[k].fds.get(&(dfd as i32)).map(|&o| self.ofs[o].path.clone()).unwrap_or_else(|| self.procs[k].cwd.clone())
    }
    fn full(&self, k: usize, dfd: i64, p: &str) -> String {
        if p.starts_with('/') {
            p.to_string()
        } else {
            normalize(&self.base(k, dfd), p)
        }
    }
    fn res(&self, k: usize, dfd: i64, p: &str, follow: bool) -> Res<(String, Option<Ino>)> {
        self.vfs.resolve(&self.base(k, dfd), p, follow)
    }
    fn new_fd(&mut self, k: usize, of: OpenFile) -> Res<i32> {
        let p = &mut self.procs[k];
        let open = p.fds.len() as u32;
        if open >= p.spec.max_fds.map(|m| m + 3).unwrap_or(1024) {
            return Err(libc::EMFILE);
        }
        let mut fd = VFD_BASE;
        while p.fds.contains_key(&fd) {
            fd += 1;
        }
        self.ofs.push(of);
        p.fds.insert(fd, self.ofs.len() - 1);
        Ok(fd)
    }
    fn put(&self, a: usize, b: &[u8]) {
        let s = self.host.slot(self.actors[a].slot);
        s.data[..b.len()].copy_from_slice(b);
    }

    #[allow(clippy::too_many_arguments)]
    fn exec(&mut self, a: usize, k: usize, op: Op, args: &[i64; 8], p1: &str, p2: &str, path: &str, of: Option<usize>, act: Option<&Act>) -> Done {
        match act {
            Some(Act::Errno(e)) if op != Op::CLOSE => return er(*e),
            Some(Act::Eintr) => return er(libc::EINTR),
            _ => {}
        }
        match self.exec2(a, k, op, args, p1, p2, path, of, act) {
            Ok(d) => match act {
                Some(Act::Errno(e)) => er(*e), // close: takes effect and reports an error
                _ => d,
            },
            Err(e) => er(e),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn exec2(&mut self, a: usize, k: usize, op: Op, args: &[i64; 8], p1: &str, p2: &str, _path: &str, of: Option<usize>, act: Option<&Act>) -> Res<Done> {
        let now = self.now;
        let fd = args[0] as i32;
        let need = |o: Option<usize>| o.ok_or(libc::EBADF);
        Ok(match op {
            Op::OPEN => {
                let fl = args[1] as i32;
                let acc = fl & libc::O_ACCMODE;
                let wr = acc != libc::O_RDONLY;
                let (p, i) = self.res(k, args[0], p1, fl & libc::O_NOFOLLOW == 0)?;
                let i = match i {
                    Some(i) => {
                        if fl & libc::O_CREAT != 0 && fl & libc::O_EXCL != 0 {
                            return Err(libc::EEXIST);
                        }
                        let n = &self.vfs.inodes[i];
                        if n.kind == Kind::Symlink && fl & libc::O_PATH == 0 {
                            return Err(libc::ELOOP);
                        }
                        if n.kind == Kind::Dir && (wr || fl & libc::O_CREAT != 0) {
                            return Err(libc::EISDIR);
                        }
                        if fl & libc::O_DIRECTORY != 0 && n.kind != Kind::Dir {
                            return Err(libc::ENOTDIR);
                        }
                        if (wr && n.mode & 0o200 == 0) || (acc != libc::O_WRONLY && n.mode & 0o400 == 0 && fl & libc::O_PATH == 0) {
                            return Err(libc::EACCES);
                        }
                        if fl & libc::O_TRUNC != 0 && wr && n.kind == Kind::File && !n.data.is_empty() {
                            self.vfs.data_op(i, DataOp::Truncate(0), now);
                        }
                        i
                    }
                    None => {
                        if fl & libc::O_CREAT == 0 {
                            return Err(libc::ENOENT);
                        }
                        if self.procs[k].fds.len() as u32 >= self.procs[k].spec.max_fds.map(|m| m + 3).unwrap_or(1024) {
                            return Err(libc::EMFILE);
                        }
                        self.vfs.create(&p, args[2] as u32, now)?
                    }
                };
                let f = OpenFile { ino: i, path: p, off: 0, read: acc != libc::O_WRONLY, write: wr, append: fl & libc::O_APPEND != 0, std: 0 };
                OK(self.new_fd(k, f)? as i64)
            }
            Op::READ => {
                let o = need(of)?;
                let f = self.ofs[o].clone();
                if f.std == 3 {
                    return Ok(OK(0));
                }
                if !f.read {
                    return Err(libc::EBADF);
                }
                let want = args[1] as usize;
                let off = if args[2] >= 0 { args[2] as u64 } else { f.off } as usize;
                match self.vfs.inodes[f.ino].kind {
                    Kind::Dir => return Err(libc::EISDIR),
                    Kind::DevNull => return Ok(OK(0)),
                    Kind::DevRandom | Kind::DevFull => {
                        let z = self.vfs.inodes[f.ino].kind == Kind::DevFull;
                        let mut v = vec![0u8; want.min(4096)];
                        if !z {
                            self.fill_random(k, &mut v);
                        }
                        self.put(a, &v);
                        return Ok(OK(v.len() as i64));
                    }
                    _ => {}
                }
                let d = self.vfs.inodes[f.ino].data.clone();
                let mut n = want.min(d.len().saturating_sub(off));
                if let Some(Act::Short(s)) = act {
                    n = n.min((*s).max(1) as usize);
                }
                self.put(a, &d[off.min(d.len())..off.min(d.len()) + n]);
                if args[2] < 0 {
                    self.ofs[o].off += n as u64;
                }
                OK(n as i64)
            }
            Op::WRITE => {
                let o = need(of)?;
                let f = self.ofs[o].clone();
                if !f.write {
                    return Err(libc::EBADF);
                }
                let s = self.host.slot(self.actors[a].slot);
                let mut n = s.datalen as usize;
                let mut die = false;
                match act {
                    Some(Act::Short(x)) => n = n.min((*x).max(1) as usize),
                    Some(Act::KillMid(x)) => {
                        n = n.min(*x as usize);
                        die = true;
                    }
                    _ => {}
                }
                let data = s.data[..n].to_vec();
                let r = if f.std == 1 || f.std == 2 {
                    let p = &mut self.procs[k];
                    let lim = if f.std == 1 { p.spec.out_limit } else { p.spec.err_limit };
                    let sink = if f.std == 1 { &mut p.out } else { &mut p.err };
                    match lim {
                        Some((cap, e)) if sink.len() as u64 + n as u64 > cap => {
                            let fit = cap.saturating_sub(sink.len() as u64) as usize;
                            if fit == 0 && n > 0 {
                                self.res.fired.push(Fired { phase: self.phase, proc_: k, label: self.actors[a].label.clone(), op, path: format!("<std{}>", f.std), act: Act::Errno(e), create: false });
                                return Err(e);
                            }
                            sink.extend_from_slice(&data[..fit]);
                            fit
                        }
                        _ => {
                            sink.extend_from_slice(&data);
                            n
                        }
                    }
                } else {
                    match self.vfs.inodes[f.ino].kind {
                        Kind::DevNull => n,
                        Kind::DevFull => return Err(libc::ENOSPC),
                        Kind::Dir => return Err(libc::EISDIR),
                        _ => {
                            let len = self.vfs.inodes[f.ino].data.len() as u64;
                            let off = if args[2] >= 0 {
                                args[2] as u64
                            } else if f.append {
                                len
                            } else {
                                f.off
                            };
                            let room = self.vfs.room(f.ino, off, n as u64) as usize;
                            if room == 0 && n > 0 {
                                self.res.fired.push(Fired { phase: self.phase, proc_: k, label: self.actors[a].label.clone(), op, path: f.path.clone(), act: Act::Errno(libc::ENOSPC), create: false });
                                return Err(libc::ENOSPC);
                            }
                            let n = n.min(room);
                            if n > 0 {
                                self.vfs.data_op(f.ino, DataOp::Write(off, Rc::new(data[..n].to_vec())), now);
                            }
                            if args[2] < 0 {
                                self.ofs[o].off = off + n as u64;
                            }
                            n
                        }
                    }
                };
                if die {
                    self.log(format!("{} KILLED in the middle of a write ({} bytes reached {})", self.actors[a].label, r, f.path));
                    self.kill_proc(k, Exit::Killed);
                    return Ok(Done::Gone);
                }
                OK(r as i64)
            }
            Op::CLOSE => {
                let o = need(of)?;
                self.procs[k].fds.remove(&fd);
                let still = self.procs[k].fds.values().any(|&x| x == o);
                if !still {
                    for l in self.flocks.values_mut() {
                        l.retain(|(x, _)| *x != o);
                    }
                }
                OK(0)
            }
            Op::LSEEK => {
                let o = need(of)?;
                if self.ofs[o].std != 0 {
                    return Err(libc::ESPIPE);
                }
                let len = self.vfs.inodes[self.ofs[o].ino].data.len() as i64;
                let b = match args[2] as i32 {
                    libc::SEEK_SET => 0,
                    libc::SEEK_CUR => self.ofs[o].off as i64,
                    libc::SEEK_END => len,
                    _ => return Err(libc::EINVAL),
                };
                let n = b + args[1];
                if n < 0 {
                    return Err(libc::EINVAL);
                }
                self.ofs[o].off = n as u64;
                OK(n)
            }
            Op::STAT => {
                let i = if args[2] == 1 && fd != libc::AT_FDCWD {
                    let o = need(of)?;
                    if self.ofs[o].std != 0 {
                        let bit = if self.ofs[o].std == 3 { 0 } else { self.ofs[o].std as u32 };
                        let tty = self.procs[k].spec.tty >> bit & 1 == 1;
                        let r = StatRep { ino: 1, size: 0, mode: if tty { 0o020620 } else { 0o010600 }, nlink: 1, uid: 1000, gid: 1000, mtime_ns: now, ctime_ns: now, blksize: 4096, isvirt: 1 };
                        self.put_stat(a, &r);
                        return Ok(OK(0));
                    }
                    self.ofs[o].ino
                } else {
                    let p = if p1.is_empty() { "." } else { p1 };
                    self.res(k, args[0], p, args[1] as i32 & libc::AT_SYMLINK_NOFOLLOW == 0)?.1.ok_or(libc::ENOENT)?
                };
                let n = &self.vfs.inodes[i];
                let r = StatRep { ino: i as u64 + 1000, size: n.data.len() as u64, mode: n.mode as u64, nlink: n.nlink as u64, uid: n.uid as u64, gid: n.gid as u64, mtime_ns: n.mtime, ctime_ns: n.ctime, blksize: 4096, isvirt: 1 };
                self.put_stat(a, &r);
                OK(0)
            }
            Op::FSYNC => {
                if args[1] == 2 {
                    self.vfs.sync_all();
                } else {
                    let o = need(of)?;
                    if self.ofs[o].std == 0 {
                        let i = self.ofs[o].ino;
                        self.vfs.fsync(i);
                    }
                }
                OK(0)
            }
            Op::TRUNC => {
                let i = if p1.is_empty() {
                    let o = need(of)?;
                    if !self.ofs[o].write {
                        return Err(libc::EINVAL);
                    }
                    self.ofs[o].ino
                } else {
                    let i = self.res(k, libc::AT_FDCWD as i64, p1, true)?.1.ok_or(libc::ENOENT)?;
                    if self.vfs.inodes[i].mode & 0o200 == 0 {
                        return Err(libc::EACCES);
                    }
                    i
                };
                let len = self.vfs.inodes[i].data.len() as u64;
                let to = args[1] as u64;
                if to != len {
                    if to > len && self.vfs.room(i, len, to - len) < to - len {
                        return Err(libc::ENOSPC);
                    }
                    self.vfs.data_op(i, DataOp::Truncate(to), now);
                }
                OK(0)
            }
            Op::RENAME => {
                let (x, ix) = self.res(k, args[0], p1, false)?;
                let (y, iy) = self.res(k, args[1], p2, false)?;
                if ix.is_none() {
                    return Err(libc::ENOENT);
                }
                if args[3] & 1 != 0 && iy.is_some() {
                    return Err(libc::EEXIST);
                }
                if args[3] & 2 != 0 {
                    return Err(libc::EINVAL);
                }
                self.vfs.rename(&x, &y, now)?;
                OK(0)
            }
            Op::UNLINK => {
                let (x, i) = self.res(k, args[0], p1, false)?;
                i.ok_or(libc::ENOENT)?;
                self.vfs.unlink(&x, args[1] as i32 & libc::AT_REMOVEDIR != 0)?;
                OK(0)
            }
            Op::MKDIR => {
                let (x, i) = self.res(k, args[0], p1, false)?;
                if i.is_some() {
                    return Err(libc::EEXIST);
                }
                self.vfs.mkdir(&x, args[1] as u32, now)?;
                OK(0)
            }
            Op::LINK => {
                let (x, _) = self.res(k, args[0], p1, args[3] as i32 & libc::AT_SYMLINK_FOLLOW != 0)?;
                let (y, _) = self.res(k, args[1], p2, false)?;
                self.vfs.link(&x, &y)?;
                OK(0)
            }
            Op::SYMLINK => {
                let (y, _) = self.res(k, args[0], p2, false)?;
                self.vfs.symlink(p1, &y, now)?;
                OK(0)
            }
            Op::READLINK => {
                let i = self.res(k, args[0], p1, false)?.1.ok_or(libc::ENOENT)?;
                if self.vfs.inodes[i].kind != Kind::Symlink {
                    return Err(libc::EINVAL);
                }
                let t = self.vfs.inodes[i].data.clone();
                self.put(a, &t);
                OK(t.len() as i64)
            }
            Op::REALPATH => {
                let (x, i) = self.res(k, libc::AT_FDCWD as i64, p1, true)?;
                i.ok_or(libc::ENOENT)?;
                self.put(a, x.as_bytes());
                OK(x.len() as i64)
            }
            Op::CHMOD => {
                let i = if args[2] == 1 { self.ofs[need(of)?].ino } else { self.res(k, args[0], p1, true)?.1.ok_or(libc::ENOENT)? };
                let n = &mut self.vfs.inodes[i];
                n.mode = (n.mode & 0o170000) | (args[1] as u32 & 0o7777);
                self.vfs.changes += 1;
                OK(0)
            }
            Op::CHOWN => {
                let i = if args[2] == 1 { self.ofs[need(of)?].ino } else { self.res(k, args[0], p1, args[4] as i32 & libc::AT_SYMLINK_NOFOLLOW == 0)?.1.ok_or(libc::ENOENT)? };
                let (u, g) = (args[1] as u32, args[3] as u32);
                let n = &self.vfs.inodes[i];
                if (u != u32::MAX && u != n.uid) || (g != u32::MAX && g != n.gid) {
                    return Err(libc::EPERM);
                }
                OK(0)
            }
            Op::ACCESS => {
                let i = self.res(k, args[0], p1, true)?.1.ok_or(libc::ENOENT)?;
                let m = (self.vfs.inodes[i].mode >> 6) & 7;
                let w = args[1] as u32 & 7;
                if m & w != w {
                    return Err(libc::EACCES);
                }
                OK(0)
            }
            Op::UTIMENS => {
                let i = if args[1] == 1 { self.ofs[need(of)?].ino } else { self.res(k, args[0], p1, true)?.1.ok_or(libc::ENOENT)? };
                self.vfs.inodes[i].mtime = match args[3] {
                    0x3fff_ffff => now,
                    0x3fff_fffe => self.vfs.inodes[i].mtime,
                    ns => (args[4] * 1_000_000_000 + ns) as u64,
                };
                OK(0)
            }
            Op::READDIR => {
                let p = if p1.is_empty() { self.base(k, args[0]) } else { self.full(k, libc::AT_FDCWD as i64, p1) };
                let (x, i) = self.vfs.resolve("/", &p, true)?;
                let i = i.ok_or(libc::ENOENT)?;
                if !self.vfs.is_dir(i) {
                    return Err(libc::ENOTDIR);
                }
                let mut l = self.vfs.list(&x);
                // directory order is arbitrary: permute it
                let mut r = Rng::new(self.sc.seed ^ hash_bytes(x.as_bytes()));
                for i in (1..l.len()).rev() {
                    l.swap(i, r.below(i as u64 + 1) as usize);
                }
                let mut b = vec![];
                for (t, n) in l {
                    b.push(t);
                    b.extend_from_slice(n.as_bytes());
                    b.push(0);
                }
                self.put(a, &b);
                OK(b.len() as i64)
            }
            Op::GETCWD => {
                let c = self.procs[k].cwd.clone();
                self.put(a, c.as_bytes());
                OK(c.len() as i64)
            }
            Op::CHDIR => {
                let (x, i) = self.res(k, libc::AT_FDCWD as i64, p1, true)?;
                if !i.is_some_and(|i| self.vfs.is_dir(i)) {
                    return Err(libc::ENOTDIR);
                }
                self.procs[k].cwd = x;
                OK(0)
            }
            Op::DUP => {
                let o = need(of)?;
                if args[1] >= 0 {
                    self.procs[k].fds.insert(args[1] as i32, o);
                    OK(args[1])
                } else {
                    let f = self.ofs[o].clone();
                    let nfd = self.new_fd(k, f)?;
                    self.procs[k].fds.insert(nfd, o);
                    OK(nfd as i64)
                }
            }
            Op::FLOCK => {
                let o = need(of)?;
                let i = self.ofs[o].ino;
                let how = args[1] as i32;
                let l = self.flocks.entry(i).or_default();
                l.retain(|(x, _)| *x != o);
                if how & libc::LOCK_UN != 0 {
                    return Ok(OK(0));
                }
                let ex = how & libc::LOCK_EX != 0;
                if l.iter().any(|(_, e)| *e || ex) {
                    if how & libc::LOCK_NB != 0 {
                        return Err(libc::EAGAIN);
                    }
                    self.actors[a].st = St::Until(self.now + 1_000_000); // poll until free
                    return Ok(Done::Block);
                }
                l.push((o, ex));
                OK(0)
            }
            Op::FDFLAGS => match args[1] as i32 {
                libc::F_GETFL => {
                    let o = need(of)?;
                    let f = &self.ofs[o];
                    OK((if f.read && f.write { libc::O_RDWR } else if f.write { libc::O_WRONLY } else { 0 } | if f.append { libc::O_APPEND } else { 0 }) as i64)
                }
                _ => {
                    need(of)?;
                    OK(0)
                }
            },
            Op::FALLOC => {
                let o = need(of)?;
                let i = self.ofs[o].ino;
                let end = (args[1] + args[2]) as u64;
                let len = self.vfs.inodes[i].data.len() as u64;
                if end > len {
                    if self.vfs.room(i, len, end - len) < end - len {
                        return Err(libc::ENOSPC);
                    }
                    self.vfs.data_op(i, DataOp::Truncate(end), now);
                }
                OK(0)
            }
            Op::FUTEX_WAKE => {
                let addr = args[0] as u64;
                let mut n = 0;
                for i in 0..self.actors.len() {
                    if n >= args[1] {
                        break;
                    }
                    if self.actors[i].proc_ == k && matches!(self.actors[i].st, St::Futex(x, _) if x == addr) {
                        self.actors[i].st = St::Ready;
                        self.actors[i].woken = Some(0);
                        n += 1;
                    }
                }
                OK(n)
            }
            Op::SPAWN => {
                let p = &mut self.procs[k];
                if p.spec.max_threads.is_some_and(|m| p.live_threads > m) {
                    self.res.fired.push(Fired { phase: self.phase, proc_: k, label: self.actors[a].label.clone(), op, path: String::new(), act: Act::Errno(libc::EAGAIN), create: false });
                    return Err(libc::EAGAIN);
                }
                let t = p.nthreads;
                p.nthreads += 1;
                p.live_threads += 1;
                let s = self.new_slot();
                let label = format!("s{}p{}.t{}", self.phase, k, t);
                self.push_actor(label, k, s, None);
                OK(s as i64)
            }
            Op::JOIN => {
                let s = args[0] as usize;
                match self.actors.iter().position(|x| x.slot == s && x.proc_ == k) {
                    Some(t) if self.actors[t].st != St::Done => {
                        self.actors[a].st = St::Join(t);
                        Done::Block
                    }
                    _ => OK(0),
                }
            }
            Op::THREAD_EXIT | Op::YIELD | Op::TICK | Op::DETACH => OK(0),
            Op::SLEEP => {
                let t = match (args[1] != 0, args[2] as i32) {
                    (false, _) => self.now.saturating_add(args[0].max(0) as u64),
                    (true, libc::CLOCK_REALTIME) => args[0].saturating_sub(self.jump).max(0) as u64,
                    _ => (args[0].max(0) as u64).saturating_add(MONOTONIC_ZERO),
                };
                self.actors[a].st = St::Sleep(t.max(self.now + 1));
                Done::Block
            }
            Op::CLOCK => {
                let t = match args[0] as i32 {
                    libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => ((self.now as i64).saturating_add(self.jump)).max(0),
                    libc::CLOCK_PROCESS_CPUTIME_ID | libc::CLOCK_THREAD_CPUTIME_ID => (self.procs[k].ticks / 4) as i64,
                    _ => (self.now - MONOTONIC_ZERO) as i64,
                };
                OK(t)
            }
            Op::RANDOM => {
                let mut v = vec![0u8; args[0].clamp(0, 4096) as usize];
                self.fill_random(k, &mut v);
                self.put(a, &v);
                OK(v.len() as i64)
            }
            Op::EXIT => {
                self.procs[k].exiting = Some(args[0] as i32);
                OK(0)
            }
            Op::ESCAPE => {
                self.res.escapes.push(p1.to_string());
                OK(0)
            }
            _ => return Err(libc::ENOSYS),
        })
    }
    fn put_stat(&self, a: usize, r: &StatRep) {
        let b = unsafe { std::slice::from_raw_parts(r as *const _ as *const u8, std::mem::size_of::<StatRep>()) };
        self.put(a, b);
    }
    fn fill_random(&mut self, k: usize, v: &mut [u8]) {
        for c in v.chunks_mut(8) {
            self.procs[k].rng = mix(self.procs[k].rng);
            let b = self.procs[k].rng.to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
}
