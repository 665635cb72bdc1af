// Seeded search for a property, minimisation of what it finds, replay files and evidence.
use crate::ctx::*;
use crate::props;
use crate::rng::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: String,
    pub master_seed: u64,
    pub run: u64,
    pub log_hash: String,
    pub scenario: Scenario,
    pub overrides: Vec<Ov>,
    #[serde(default)]
    pub minimised: String,
    #[serde(default)]
    pub trace: Vec<String>,
}
pub struct Tier {
    pub name: &'static str,
    pub runs: u64,
    pub cap_s: u64,
    pub min_s: u64,
}
/// Simulated runs per property: (quick, thorough)
fn plan(id: &str) -> (u64, u64) {
    match id {
        "C01" => (55_000, 2_000_000),
        "C02" => (70_000, 2_000_000),
        "C03" => (64_000, 1_000_000),
        "C04" => (70_000, 2_000_000),
        "C05" => (14_000, 500_000),
        "C06" => (12_000, 500_000),
        "C07" => (14_000, 300_000),
        "C08" => (52_000, 1_500_000),
        "C09" => (26_000, 600_000),
        "C10" => (16_000, 900_000),
        "C11" => (90_000, 2_000_000),
        "C12" => (18_000, 1_000_000),
        "C15" => (22_000, 500_000),
        _ => (1000, 10_000),
    }
}
pub fn seed_of(master: u64, id: &str, i: u64) -> u64 {
    mix(mix(master ^ hash_bytes(id.as_bytes())) ^ i.wrapping_mul(0x9E3779B97F4A7C15))
}
pub struct Drawn {
    pub sc: Scenario,
    pub r: RunResult,
    pub violation: Option<String>,
}
/// One seeded run: generate, simulate, judge.
pub fn draw(c: &mut Ctx, id: &str, seed: u64, trace: bool) -> Drawn {
    let mut rng = Rng::new(seed);
    let (sc, f) = props::generate(c, id, &mut rng);
    let al = props::allowed(c, id, &sc);
    let r = c.run(&sc, Some((rng.fork(), f)), &[], al.as_ref(), trace);
    let violation = props::judge(c, id, &sc, &r, al.as_ref());
    Drawn { sc, r, violation }
}
/// The same from an explicit scenario and fault / schedule trace.
pub fn again(c: &mut Ctx, id: &str, sc: &Scenario, ovs: &[Ov], trace: bool) -> (RunResult, Option<String>) {
    let al = props::allowed(c, id, sc);
    let r = c.run(sc, None, ovs, al.as_ref(), trace);
    let v = props::judge(c, id, sc, &r, al.as_ref());
    (r, v)
}

fn account(c: &mut Ctx, d: &Drawn) {
    let st = &mut c.st;
    st.evals += 1;
    *st.kinds.entry(d.sc.kind.clone()).or_default() += 1;
    for f in &d.r.fired {
        *st.faults.entry(format!("{}:{}", f.act.kind(), format!("{:?}", f.op).to_lowercase())).or_default() += 1;
    }
    for ph in &d.sc.phases {
        for p in &ph.procs {
            for (k, on) in [("limit:allocation", p.fail_alloc.is_some()), ("limit:threads", p.max_threads.is_some()), ("limit:descriptors", p.max_fds.is_some()), ("limit:output", p.out_limit.is_some() || p.err_limit.is_some())] {
                if on {
                    *st.faults.entry(k.into()).or_default() += 1;
                }
            }
        }
        if ph.free.is_some() {
            *st.faults.entry("limit:disk_space".into()).or_default() += 1;
        }
        for e in &ph.editors {
            *st.faults.entry("concurrent:editor_save".into()).or_default() += e.len() as u64;
        }
    }
    let sched = d.r.ovs.iter().filter(|o| matches!(o.act, Act::Sched(_))).count() as u64;
    if sched > 0 {
        *st.faults.entry("schedule:deviations".into()).or_default() += sched;
    }
    st.scheds.insert(d.r.sched_hash);
    st.states.extend(d.r.states.iter());
    let limited = d.sc.phases.iter().any(|p| p.free.is_some() || !p.editors.is_empty() || p.procs.iter().any(|q| q.fail_alloc.is_some() || q.max_threads.is_some() || q.max_fds.is_some() || q.out_limit.is_some() || q.err_limit.is_some()));
    if !d.r.ovs.is_empty() || !d.r.fired.is_empty() || limited || d.sc.phases.len() > 1 || d.r.procs.iter().flatten().any(|p| p.spawned > 2) {
        st.distinct.insert(d.r.log_hash);
    }
}

struct Found {
    run: u64,
    seed: u64,
    violation: String,
}

pub fn check(paths: &Paths, id: &str, tier: &str, master: u64, only: Option<(u64, u64)>) -> i32 {
    let t0 = Instant::now();
    let (q, th) = plan(id);
    let runs = match only {
        Some((_, n)) => n,
        None => {
            if tier == "quick" {
                q
            } else {
                th
            }
        }
    };
    let first = only.map(|o| o.0).unwrap_or(0);
    let cap = Duration::from_secs(std::env::var("SIM_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 420 } else { 6 * 3600 }));
    let runs = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs);
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let next = Arc::new(AtomicU64::new(first));
    let best = Arc::new(AtomicU64::new(u64::MAX));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(vec![]));
    let capped = Arc::new(AtomicBool::new(false));
    let keep_going = std::env::var("SIM_ALL").is_ok();
    let mut hs = vec![];
    for k in 0..workers {
        let (next, best, found, capped) = (next.clone(), best.clone(), found.clone(), capped.clone());
        let (paths, id) = (paths.clone(), id.to_string());
        hs.push(std::thread::spawn(move || {
            let mut c = Ctx::new(&paths, k);
            if k == 0 {
                c.sane();
            }
            let mut samples: Vec<(u64, serde_json::Value)> = vec![];
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= first + runs || (i > best.load(Ordering::SeqCst) && !keep_going) {
                    break;
                }
                if t0.elapsed() > cap {
                    capped.store(true, Ordering::SeqCst);
                    break;
                }
                let seed = seed_of(master, &id, i);
                let d = draw(&mut c, &id, seed, false);
                account(&mut c, &d);
                for e in &d.r.escapes {
                    c.note(&format!("blocked escape: {}", e));
                }
                if i % (runs / 6).max(1) == 0 {
                    samples.push((i, sample(&d, i, seed)));
                }
                if let Some(v) = d.violation {
                    best.fetch_min(i, Ordering::SeqCst);
                    found.lock().unwrap().push(Found { run: i, seed, violation: v });
                }
            }
            c.st.cov = c.cov();
            (c.st, samples)
        }));
    }
    let mut st = Stats::default();
    let mut samples = vec![];
    for h in hs {
        match h.join() {
            Ok((s, v)) => {
                st.merge(s);
                samples.extend(v);
            }
            Err(_) => crate::host::harness("a simulation worker failed"),
        }
    }
    samples.sort_by_key(|s| s.0);
    let search_s = t0.elapsed().as_secs_f64();
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| f.run);
    let mut code = 0;
    let mut known_lines: Vec<String> = vec![];
    let mut nviol = 0;
    {
        let mut c = Ctx::new(paths, 0);
        for l in known(&mut c, paths, id) {
            match l {
                Known::Listed(s) => {
                    println!("KNOWN-FINDING: property={} {}", id, s);
                    known_lines.push(s);
                }
                Known::Gone(s) => println!("note: listed finding no longer fails: {}", s),
            }
        }
        if keep_going {
            for f in &found {
                println!("run {} seed {:#x}: {}", f.run, f.seed, f.violation);
            }
        }
        if let Some(f) = found.first() {
            nviol = 1;
            let path = report(&mut c, id, master, f, Duration::from_secs(if tier == "quick" { 40 } else { 240 }));
            println!("violated: {}", f.violation);
            println!("VIOLATION property={} replay={}", id, path);
            code = 1;
        }
    }
    if !capped.load(Ordering::SeqCst) && st.evals < runs && code == 0 {
        crate::host::harness("fewer runs than planned");
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(id, tier, master, &st, samples.into_iter().map(|s| s.1).collect(), search_s, wall, nviol, workers, capped.load(Ordering::SeqCst), known_lines);
    println!("{} {}: {} runs ({} simulated executions) in {:.1}s, {} distinct, {} violation(s)", id, tier, st.evals, st.runs + st.ref_runs, wall, st.distinct.len(), nviol);
    code
}

fn brief(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut t: String = s.chars().take(90).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t
}
fn sample(d: &Drawn, i: u64, seed: u64) -> serde_json::Value {
    let procs: Vec<_> = d
        .sc
        .phases
        .iter()
        .enumerate()
        .flat_map(|(ph, p)| {
            p.procs.iter().enumerate().map(move |(k, q)| {
                serde_json::json!({"argv": q.argv, "cwd": q.cwd, "exit": d.r.procs.get(ph).and_then(|v| v.get(k)).map(|o| format!("{:?}", o.exit))})
            })
        })
        .collect();
    let files: Vec<_> = d
        .sc
        .files
        .iter()
        .take(6)
        .map(|f| match &f.node {
            Node::File(b) => format!("{} ({} bytes): {}", f.path, b.len(), brief(b)),
            Node::Dir => format!("{}/", f.path),
            Node::Symlink(t) => format!("{} -> {}", f.path, t),
        })
        .collect();
    let ovs: Vec<_> = d.r.ovs.iter().take(12).map(|o| format!("{}#{} {:?}", o.at, o.seq, o.act)).collect();
    serde_json::json!({"run": i, "seed": format!("{:#x}", seed), "kind": d.sc.kind, "commands": procs, "files": files, "faults_and_schedule": ovs, "faults_and_schedule_total": d.r.ovs.len(), "operations": d.r.steps, "log_hash": format!("{:#x}", d.r.log_hash)})
}

// ---------------------------------------------------------------------------------------------- minimisation
/// What kind of violation a message reports, apart from its particulars.
fn class_of(m: &str) -> String {
    m.split_whitespace().filter(|w| w.chars().all(|c| c.is_ascii_alphabetic() || ",.:;-'".contains(c))).take(8).collect::<Vec<_>>().join(" ")
}
fn report(c: &mut Ctx, id: &str, master: u64, f: &Found, budget: Duration) -> String {
    let t0 = Instant::now();
    let d = draw(c, id, f.seed, false);
    let mut sc = d.sc.clone();
    let mut ovs = d.r.ovs.clone();
    let n0 = ovs.len();
    let mut tries = 0u64;
    let (r, v) = again(c, id, &sc, &ovs, false);
    let mut note = String::new();
    if v.is_none() || r.log_hash != d.r.log_hash {
        note = "the recorded trace does not reproduce the run; replay by seed".into();
    }
    if v.is_some() {
        let class = class_of(v.as_deref().unwrap_or(""));
        let bad = |c: &mut Ctx, sc: &Scenario, ovs: &[Ov], tries: &mut u64| -> bool {
            *tries += 1;
            again(c, id, sc, ovs, false).1.is_some_and(|m| class_of(&m) == class)
        };
        let over = || t0.elapsed() > budget;
        // 1. fewer faults and scheduling decisions
        ovs = ddmin(ovs, over, |x| !over() && bad(c, &sc, x, &mut tries));
        // 2. a simpler world
        loop {
            let mut progress = false;
            for k in (0..sc.files.len()).rev() {
                if over() {
                    break;
                }
                if sc.watch.contains(&sc.files[k].path) || sc.files[k].path.starts_with("/drv/") {
                    continue;
                }
                let mut s = sc.clone();
                s.files.remove(k);
                if bad(c, &s, &ovs, &mut tries) {
                    sc = s;
                    progress = true;
                }
            }
            let mut cands: Vec<Scenario> = vec![];
            if sc.preempt != 0 {
                let mut s = sc.clone();
                s.preempt = 0;
                cands.push(s);
            }
            if sc.probes > 1 {
                let mut s = sc.clone();
                s.probes = 1;
                cands.push(s);
            }
            for (ph, phase) in sc.phases.iter().enumerate() {
                for e in 0..phase.editors.len() {
                    let mut s = sc.clone();
                    s.phases[ph].editors.remove(e);
                    cands.push(s);
                    for j in 0..phase.editors[e].len() {
                        if phase.editors[e].len() > 1 {
                            let mut s = sc.clone();
                            s.phases[ph].editors[e].remove(j);
                            cands.push(s);
                        }
                    }
                }
                for (k, p) in phase.procs.iter().enumerate() {
                    let mut d = proc_default(p.bin, p.argv.clone(), &p.cwd);
                    d.env.clear();
                    if !p.env.is_empty() || p.heap_seed != 0 || p.hash_seed != 1 || p.pid != d.pid || p.cpus != d.cpus || p.tty != 0 {
                        let mut s = sc.clone();
                        let q = &mut s.phases[ph].procs[k];
                        q.env = d.env.clone();
                        q.heap_seed = 0;
                        q.hash_seed = 1;
                        q.pid = d.pid;
                        q.cpus = d.cpus;
                        q.tty = 0;
                        cands.push(s);
                    }
                    for e in 0..p.env.len() {
                        let mut s = sc.clone();
                        s.phases[ph].procs[k].env.remove(e);
                        cands.push(s);
                    }
                }
            }
            for s in cands {
                if over() {
                    break;
                }
                // candidates were cut from one scenario; re-check shape before use
                if s.files.len() == sc.files.len() && bad(c, &s, &ovs, &mut tries) {
                    sc = s;
                    progress = true;
                    break;
                }
            }
            // 3. shorter texts
            for k in 0..sc.files.len() {
                if over() {
                    break;
                }
                if let Node::File(b) = sc.files[k].node.clone() {
                    let Ok(t) = std::str::from_utf8(&b) else { continue };
                    let lines: Vec<String> = t.split_inclusive('\n').map(|s| s.to_string()).collect();
                    if lines.len() < 2 || lines.len() > 3000 {
                        continue;
                    }
                    let base = sc.clone();
                    let n = lines.len();
                    let left = ddmin(lines, over, |x| {
                        if over() {
                            return false;
                        }
                        let mut s = base.clone();
                        s.files[k].node = Node::File(Rc::new(x.concat().into_bytes()));
                        bad(c, &s, &ovs, &mut tries)
                    });
                    if left.len() < n {
                        sc.files[k].node = Node::File(Rc::new(left.concat().into_bytes()));
                        progress = true;
                    }
                }
            }
            let before = ovs.len();
            ovs = ddmin(ovs, over, |x| !over() && bad(c, &sc, x, &mut tries));
            progress |= ovs.len() < before;
            if !progress || over() {
                break;
            }
        }
    }
    let (r, v) = again(c, id, &sc, &ovs, true);
    let (r2, _) = again(c, id, &sc, &ovs, false);
    if r.log_hash != r2.log_hash {
        note.push_str(" (replay is not deterministic)");
    }
    let rep = Replay {
        property: id.into(),
        violation: v.unwrap_or_else(|| f.violation.clone()),
        master_seed: master,
        run: f.run,
        log_hash: format!("{:#x}", r.log_hash),
        scenario: sc,
        overrides: r.ovs.clone(),
        minimised: format!("{} of {} faults and scheduling decisions left after {} trial runs{}{}", r.ovs.len(), n0, tries, if note.is_empty() { "" } else { "; " }, note),
        trace: r.log,
    };
    let dir = replay_dir();
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}-{:016x}.json", dir, id, f.seed);
    if std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).is_err() {
        crate::host::harness("cannot write the replay file");
    }
    path
}
fn replay_dir() -> String {
    std::env::var("SIM_REPLAYS").unwrap_or("/verif/evidence/replay".into())
}
fn evidence_dir() -> String {
    std::env::var("SIM_EVIDENCE").unwrap_or("/verif/evidence".into())
}
/// Zeller's ddmin: a sublist for which `bad` still holds, with single elements removed at the end.
fn ddmin<T: Clone>(mut v: Vec<T>, over: impl Fn() -> bool, mut bad: impl FnMut(&[T]) -> bool) -> Vec<T> {
    if v.is_empty() {
        return v;
    }
    if bad(&[]) {
        return vec![];
    }
    let mut n = 2;
    while v.len() >= 2 {
        let size = v.len().div_ceil(n);
        let mut hit = false;
        let mut i = 0;
        while i < v.len() {
            if over() {
                return v;
            }
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[(i + size).min(v.len())..]);
            if !w.is_empty() && bad(&w) {
                v = w;
                hit = true;
            } else {
                i += size;
            }
        }
        if hit {
            n = (n - 1).max(2);
        } else if size == 1 {
            break;
        } else {
            n = (n * 2).min(v.len());
        }
    }
    v
}

pub fn replay(paths: &Paths, file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else { crate::host::harness("cannot read the replay file") };
    let rep: Replay = match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(e) => crate::host::harness(&format!("replay file: {}", e)),
    };
    let mut c = Ctx::new(paths, 0);
    let (r, v) = again(&mut c, &rep.property, &rep.scenario, &rep.overrides, true);
    for l in &r.log {
        println!("{}", l);
    }
    let same = format!("{:#x}", r.log_hash) == rep.log_hash;
    println!("log hash {:#x} ({} the recorded one)", r.log_hash, if same { "equals" } else { "differs from" });
    match v {
        Some(v) => {
            println!("violated: {}", v);
            println!("VIOLATION property={} replay={}", rep.property, file);
            1
        }
        None => {
            println!("not violated");
            0
        }
    }
}

// ---------------------------------------------------------------------------------------------- known findings
pub enum Known {
    Listed(String),
    Gone(String),
}
/// Listed findings are executed, so that the line is printed only while the defect is there.
fn known(c: &mut Ctx, paths: &Paths, id: &str) -> Vec<Known> {
    let root = std::path::Path::new(&paths.corpus).ancestors().nth(3).unwrap().to_path_buf();
    let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) else { return vec![] };
    let mut out = vec![];
    for l in s.lines() {
        let Some(l) = l.strip_prefix(&format!("known: property={} replay=", id)) else { continue };
        let Some((file, what)) = l.split_once(' ') else { crate::host::harness("known_findings.txt") };
        let Ok(s) = std::fs::read_to_string(root.join(file)) else { crate::host::harness(&format!("cannot read {}", file)) };
        let rep: Replay = match serde_json::from_str(&s) {
            Ok(r) => r,
            Err(x) => crate::host::harness(&format!("{}: {}", file, x)),
        };
        let (_, v) = again(c, id, &rep.scenario, &rep.overrides, false);
        out.push(if v.is_some() { Known::Listed(what.into()) } else { Known::Gone(what.into()) });
    }
    out
}
/// Write a replay file for an explicit scenario (used to record known findings).
pub fn record(paths: &Paths, id: &str, sc: Scenario, out: &str) {
    let mut c = Ctx::new(paths, 0);
    let (r, v) = again(&mut c, id, &sc, &[], false);
    println!("{}: {:?}", out, v);
    let rep = Replay { property: id.into(), violation: v.unwrap_or_default(), master_seed: 0, run: 0, log_hash: format!("{:#x}", r.log_hash), scenario: sc, overrides: vec![], minimised: String::new(), trace: vec![] };
    std::fs::write(out, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

// ---------------------------------------------------------------------------------------------- evidence
#[allow(clippy::too_many_arguments)]
fn evidence(id: &str, tier: &str, master: u64, st: &Stats, samples: Vec<serde_json::Value>, search_s: f64, wall: f64, nviol: u64, workers: usize, capped: bool, known: Vec<String>) {
    let guards = st.cov.iter().filter(|&&b| b != 0).count();
    let execs = st.runs + st.ref_runs;
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    for (k, v) in &st.faults {
        faults.insert(k, *v);
    }
    let j = serde_json::json!({
        "property": id,
        "tier": if tier == "quick" { "quick" } else { "thorough" },
        "seed": master,
        "level": "exploration",
        "wall_s": wall,
        "violations": nviol,
        "assumptions": [
            "the virtual disk, clock, scheduler and process table behave like a POSIX system (sim/simd/src/vfs.rs, world.rs)",
            "scheduling points are library calls, allocations and basic-block edges of the afmt and driver binaries; sequentially consistent memory",
            "reference texts come from undisturbed dry runs of the same binary on the same source and settings"
        ],
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.distinct.len(),
            "rule": "one evaluation is one seeded scenario executed under the simulator and judged; it is non-trivial if at least one fault fired, one resource limit or concurrent save was in force, one scheduling decision deviated from run-to-completion, several commands ran in sequence, or more than two workers ran; distinct by the hash of the full event log (every operation, its arguments, result and data, and the final disk)",
            "samples": samples,
            "simulated_executions": execs,
            "reference_executions": st.ref_runs,
            "runs_per_hour": (st.evals as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (st.evals as f64 / search_s * 3600.0) as u64,
            "simulated_time_s": st.sim_ns as f64 / 1e9,
            "operations": st.steps,
            "context_switches": st.switches,
            "power_loss_states_examined": st.probes,
            "faults_injected": faults,
            "scenario_kinds": st.kinds,
            "distinct_interleavings": st.scheds.len(),
            "interleaving_measure": "hash of the sequence of (actor, operation) at every context switch",
            "distinct_disk_states": st.states.len(),
            "program_edges_reached": guards,
            "workers": workers,
            "stopped_by_time_limit": capped,
            "notes": st.notes,
            "known_findings_confirmed": known,
            "real_code": ["the afmt binary built from /repo (main, args, formatter, parser, printer) including the Rust standard library, clap, toml, tree-sitter and the Apex grammar", "glibc above the intercepted entry points", "for library calls: sf_afmt linked into a small driver"],
            "stubbed": ["file system", "clock and timers", "thread scheduler, futexes, thread creation and join", "randomness", "process id, processor count, environment, terminal", "heap placement and allocation failure", "editors (atomic-replace saves)"]
        }
    });
    let dir = evidence_dir();
    std::fs::create_dir_all(&dir).ok();
    if std::fs::write(format!("{}/{}.json", dir, id), serde_json::to_string_pretty(&j).unwrap()).is_err() {
        crate::host::harness("cannot write the evidence file");
    }
}
