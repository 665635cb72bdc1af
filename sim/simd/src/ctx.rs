// Per-worker context: fork servers, the corpus, memoised reference results and counters.
use crate::host::*;
use crate::proto::*;
use crate::rng::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Paths {
    pub shim: String,
    pub afmt: String,
    pub driver: String,
    pub corpus: String,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Set {
    pub w: u32,
    pub i: u32,
}
pub const DEFAULT: Set = Set { w: 80, i: 2 };
impl Set {
    pub fn toml(&self) -> String {
        format!("max_width = {}\nindent_size = {}\n", self.w, self.i)
    }
}
pub struct Ctx {
    pub host: Host,
    pub corpus: Vec<(String, Bytes)>,
    refs: HashMap<(Bytes, Set), (Option<Bytes>, Option<String>)>,
    ref_bytes: usize,
    pub ref_crash: BTreeSet<String>,
    pub st: Stats,
    pub dirty: bool,
}
#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub runs: u64,
    pub ref_runs: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u128,
    pub ops: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<String, u64>,
    pub scheds: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub distinct: BTreeSet<u64>,
    pub probes: u64,
    pub kinds: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub cov: Vec<u8>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.runs += o.runs;
        self.ref_runs += o.ref_runs;
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        for (k, v) in o.ops {
            *self.ops.entry(k).or_default() += v;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_default() += v;
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_default() += v;
        }
        self.scheds.extend(o.scheds);
        self.states.extend(o.states);
        self.distinct.extend(o.distinct);
        self.probes += o.probes;
        if self.cov.is_empty() {
            self.cov = o.cov;
        } else {
            for (a, b) in self.cov.iter_mut().zip(o.cov) {
                *a |= b;
            }
        }
    }
}

pub fn proc_default(bin: usize, argv: Vec<String>, cwd: &str) -> ProcSpec {
    ProcSpec {
        bin,
        argv,
        env: vec![("HOME".into(), "/home/u".into()), ("PATH".into(), "/bin".into())],
        cwd: cwd.into(),
        cpus: 4,
        hash_seed: 1,
        heap_seed: 0,
        pid: 4000,
        tty: 0,
        max_fds: None,
        max_threads: None,
        fail_alloc: None,
        out_limit: None,
        err_limit: None,
        start_at: 0,
    }
}
pub fn file(path: &str, b: Bytes) -> FileSpec {
    FileSpec { path: path.into(), node: Node::File(b), mode: 0o644 }
}
pub fn text(s: &str) -> Bytes {
    Rc::new(s.as_bytes().to_vec())
}
pub fn sargs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

impl Ctx {
    pub fn new(p: &Paths, k: usize) -> Ctx {
        pin_to_cpu(k);
        let host = Host::new(&p.shim, &[p.afmt.clone(), p.driver.clone()]);
        let mut corpus = vec![];
        let mut names: Vec<_> = std::fs::read_dir(&p.corpus).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for n in names {
            if let Ok(b) = std::fs::read(&n) {
                corpus.push((n.file_name().unwrap().to_string_lossy().to_string(), Rc::new(b)));
            }
        }
        if corpus.len() < 100 {
            crate::host::harness("corpus missing");
        }
        Ctx { host, corpus, refs: HashMap::new(), ref_bytes: 0, ref_crash: BTreeSet::new(), st: Stats::default(), dirty: false }
    }
    pub fn run(&mut self, sc: &Scenario, gen: Option<(Rng, FaultCfg)>, ovs: &[Ov], allowed: Option<&BTreeMap<String, Vec<Bytes>>>, trace: bool) -> RunResult {
        let r = World::run(&mut self.host, sc, gen, ovs, allowed, trace);
        self.st.runs += 1;
        self.st.steps += r.steps;
        self.st.switches += r.switches;
        self.st.sim_ns += r.sim_ns as u128;
        self.st.probes += r.probes_done;
        r
    }
    /// What an undisturbed dry run of the program under test prints for this text under these settings.
    pub fn fmt(&mut self, src: &Bytes, set: Set) -> Option<Bytes> {
        self.fmt_judged(src, set).0
    }
    /// Why the undisturbed result for this text is itself wrong (something lost, or a text accepted that is no program).
    pub fn flaw(&mut self, src: &Bytes, set: Set) -> Option<String> {
        self.fmt_judged(src, set).1
    }
    fn fmt_judged(&mut self, src: &Bytes, set: Set) -> (Option<Bytes>, Option<String>) {
        if let Some(r) = self.refs.get(&(src.clone(), set)) {
            return r.clone();
        }
        let r = self.fmt_run(src, set);
        let mut flaw = r.as_ref().and_then(|f| crate::oracle::wrong(src, f));
        // what it makes of a program is a program (comments at odd places are C20's)
        if let (None, Some(f)) = (&flaw, &r) {
            if f != src && crate::oracle::parts(src).is_some_and(|p| p.comments.is_empty()) {
                let again = match self.refs.get(&(f.clone(), set)) {
                    Some(r) => r.0.is_some(),
                    None => {
                        let g = self.fmt_run(f, set);
                        let wrong = g.as_ref().and_then(|g| crate::oracle::wrong(f, g));
                        let ok = g.is_some();
                        self.refs.insert((f.clone(), set), (g, wrong));
                        ok
                    }
                };
                if !again {
                    flaw = Some("the formatted text is no program any more: formatting it fails".into());
                }
            }
        }
        if self.ref_bytes > 200_000_000 {
            self.refs.clear();
            self.ref_bytes = 0;
        }
        self.ref_bytes += src.len() + r.as_ref().map(|b| b.len()).unwrap_or(0) + 100;
        self.refs.insert((src.clone(), set), (r.clone(), flaw.clone()));
        (r, flaw)
    }
    fn fmt_run(&mut self, src: &Bytes, set: Set) -> Option<Bytes> {
        let sc = Scenario {
            kind: "reference".into(),
            files: vec![file("/ref/In.cls", src.clone()), file("/ref/cfg.toml", text(&set.toml()))],
            phases: vec![Phase { procs: vec![proc_default(0, sargs(&["afmt", "-c", "/ref/cfg.toml", "/ref/In.cls"]), "/ref")], ..Default::default() }],
            ..Default::default()
        };
        let r = World::run(&mut self.host, &sc, None, &[], None, false);
        self.st.ref_runs += 1;
        let p = &r.procs[0][0];
        match p.exit {
            Exit::Code(0) if p.out.last() == Some(&b'\n') => Some(Rc::new(p.out[..p.out.len() - 1].to_vec())),
            Exit::Signal(s) => {
                self.ref_crash.insert(format!("signal {} on a {} byte text", s, src.len()));
                None
            }
            _ => None,
        }
    }
    /// The simulation is of no use where nothing can be formatted in it.
    pub fn sane(&mut self) {
        let some: Vec<Bytes> = self.corpus.iter().step_by(self.corpus.len() / 40 + 1).map(|x| x.1.clone()).collect();
        let n = some.iter().filter(|b| self.fmt(b, DEFAULT).is_some()).count();
        if n * 2 < some.len() {
            crate::host::harness(&format!("only {} of {} known good texts can be formatted in the simulation", n, some.len()));
        }
    }
    pub fn note(&mut self, k: &str) {
        *self.st.notes.entry(k.to_string()).or_default() += 1;
    }
    pub fn cov(&self) -> Vec<u8> {
        let mut v = vec![];
        self.host.cov_into(&mut v);
        v.truncate(COV_CAP);
        v
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Call {
    Panic,
    Config(String),
    Results(Vec<Result<Vec<u8>, String>>),
}
/// Results of library call n as the driver recorded them; None: the call never finished (or its record was lost).
pub fn calls(r: &RunResult, n: &str) -> Option<Call> {
    let d = r.vfs.content(&format!("/drv/out.{}", n))?;
    parse_call(&d)
}
fn parse_call(d: &[u8]) -> Option<Call> {
    let mut i = 0;
    let mut v = vec![];
    let mut special = None;
    loop {
        if d[i..].starts_with(b".\n") {
            return Some(special.unwrap_or(Call::Results(v)));
        }
        let e = i + d[i..].iter().position(|&c| c == b'\n')?;
        let h = std::str::from_utf8(&d[i..e]).ok()?;
        let (k, n) = h.split_once(' ')?;
        let n: usize = n.parse().ok()?;
        let body = d.get(e + 1..e + 1 + n)?;
        i = e + 1 + n + 1;
        match k {
            "O" => v.push(Ok(body.to_vec())),
            "E" => v.push(Err(String::from_utf8_lossy(body).to_string())),
            "P" => special = Some(Call::Panic),
            "C" => special = Some(Call::Config(String::from_utf8_lossy(body).to_string())),
            _ => return None,
        }
        if i >= d.len() {
            return None;
        }
    }
}
