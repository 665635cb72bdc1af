// One generator and one judge per property.
use crate::ctx::*;
use crate::gen::*;
use crate::proto::Op;
use crate::rng::*;
use crate::vfs::normalize;
use crate::world::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Dry,
    Write,
    Check,
}
pub struct Cmd {
    pub mode: Mode,
    pub path: String,
    pub cfg: Option<String>,
    pub time: bool,
}
pub fn cmd(p: &ProcSpec) -> Cmd {
    let mut c = Cmd { mode: Mode::Dry, path: String::new(), cfg: None, time: false };
    let mut i = 1;
    let mut raw = false;
    while i < p.argv.len() {
        let a = p.argv[i].as_str();
        match a {
            _ if raw => c.path = normalize(&p.cwd, a),
            "--" => raw = true,
            "-w" | "--write" if c.mode != Mode::Check => c.mode = Mode::Write,
            "-w" | "--write" => {}
            "-C" | "--check" => c.mode = Mode::Check,
            "-t" | "--time" => c.time = true,
            "-c" | "--config" => {
                i += 1;
                c.cfg = Some(normalize(&p.cwd, &p.argv[i]));
            }
            _ if a.starts_with("--config=") => c.cfg = Some(normalize(&p.cwd, &a[9..])),
            _ => c.path = normalize(&p.cwd, a),
        }
        i += 1;
    }
    c
}
fn initial(sc: &Scenario, path: &str) -> Option<Bytes> {
    let mut p = path.to_string();
    for _ in 0..5 {
        match sc.files.iter().find(|f| f.path == p).map(|f| &f.node) {
            Some(Node::File(b)) => return Some(b.clone()),
            Some(Node::Symlink(t)) => p = normalize(&crate::vfs::parent(&p), t),
            _ => return None,
        }
    }
    None
}
/// Settings in a configuration text this module wrote itself.
fn parse_toml(b: &Bytes) -> Option<Set> {
    let s = std::str::from_utf8(b).ok()?;
    let mut set = DEFAULT;
    for l in s.lines() {
        let (k, v) = l.split_once(" = ")?;
        let v: u32 = v.parse().ok()?;
        match k {
            "max_width" => set.w = v,
            "indent_size" => set.i = v,
            _ => return None,
        }
    }
    Some(set)
}
fn set_of(sc: &Scenario, c: &Cmd) -> Set {
    match &c.cfg {
        None => DEFAULT,
        Some(p) => initial(sc, p).and_then(|b| parse_toml(&b)).unwrap_or(DEFAULT),
    }
}
fn argv(r: &mut Rng, mode: Mode, cfg: Option<&str>, time: bool, arg: &str) -> Vec<String> {
    let mut v = vec![];
    match mode {
        Mode::Dry => {}
        Mode::Write => v.push(r.pick(&["-w", "--write"]).to_string()),
        Mode::Check => v.push(r.pick(&["-C", "--check"]).to_string()),
    }
    if let Some(c) = cfg {
        match r.below(3) {
            0 => {
                v.push("-c".into());
                v.push(c.into());
            }
            1 => {
                v.push("--config".into());
                v.push(c.into());
            }
            _ => v.push(format!("--config={}", c)),
        }
    }
    if time {
        v.push("-t".into());
    }
    let at = if v.iter().any(|x| x == "-c" || x == "--config") { v.len() } else { r.below(v.len() as u64 + 1) as usize };
    v.insert(at, arg.to_string());
    v.insert(0, "afmt".into());
    v
}
struct Cli {
    sc: Scenario,
    pl: Place,
}
struct Opt {
    mode: Mode,
    set: Option<Set>, // None: no configuration named
    time: bool,
    plain: bool,
    neighbours: bool,
}
/// One command on one file.
fn cli(r: &mut Rng, src: Bytes, o: Opt) -> Cli {
    let pl = place(r, o.plain);
    let mut files = vec![file(&pl.path, src)];
    let cfg = "/cfg/named.toml";
    if let Some(s) = o.set {
        files.push(file(cfg, text(&s.toml())));
    }
    let mut p = proc_default(0, argv(r, o.mode, o.set.map(|_| cfg), o.time, &pl.arg), &pl.cwd);
    environment(r, &mut p);
    if o.neighbours {
        neighbours(r, &pl, p.pid, &mut files);
    }
    files.push(FileSpec { path: pl.cwd.clone(), node: Node::Dir, mode: 0o755 });
    let sc = Scenario { kind: format!("{:?}", o.mode).to_lowercase(), files, phases: vec![Phase { procs: vec![p], ..Default::default() }], seed: r.next() >> 1, watch: vec![pl.path.clone()], ..Default::default() };
    Cli { sc, pl }
}
/// The configuration under another name: long, odd, or of many lines (messages repeat it).
fn rename_config(r: &mut Rng, sc: &mut Scenario) {
    let n = r.below(250) as usize;
    let to = match r.below(5) {
        0 => format!("/cfg/{}c", "\n".repeat(n)),
        1 => format!("/cfg/{}.toml", "x".repeat(n)),
        2 => format!("/cfg/{}.toml", "deep/".repeat(n)),
        3 => r.pick(&["/cfg/a b.toml", "/cfg/.afmt.toml", "/cfg/ü.toml", "/cfg/%s{}\u{1b}[31m.toml", "/cfg/'q\".toml", "/cfg/c"]).to_string(),
        _ => format!("/cfg/{}{}", "\n".repeat(n), "y".repeat(250 - n)),
    };
    for f in sc.files.iter_mut().filter(|f| f.path == "/cfg/named.toml") {
        f.path = to.clone();
    }
    for p in sc.phases.iter_mut().flat_map(|p| p.procs.iter_mut()) {
        for a in p.argv.iter_mut() {
            *a = a.replace("/cfg/named.toml", &to);
        }
    }
}
fn opt_set(r: &mut Rng) -> Option<Set> {
    if r.chance(1, 3) {
        None
    } else {
        Some(settings(r))
    }
}
fn errors(r: &mut Rng) -> FaultCfg {
    let mut f = FaultCfg { err: *r.pick(&[300, 1000, 2500]), err_max: *r.pick(&[1, 1, 2, 20]), ..Default::default() };
    if r.chance(1, 2) {
        f.err_ops = Some(match r.below(6) {
            0 => vec![Op::WRITE],
            1 => vec![Op::READ],
            2 => vec![Op::OPEN],
            3 => vec![Op::FSYNC, Op::RENAME, Op::CHMOD, Op::TRUNC],
            4 => vec![Op::WRITE, Op::UNLINK, Op::CLOSE],
            _ => vec![Op::STAT, Op::REALPATH, Op::READLINK, Op::ACCESS, Op::CLOSE],
        });
        f.err = *r.pick(&[3000, 10000]);
    }
    benign(r, &mut f, 3);
    f
}
fn benign(r: &mut Rng, f: &mut FaultCfg, p: u64) {
    if r.chance(1, p) {
        f.short = *r.pick(&[2000, 5000, 10000]);
        f.short_tiny = r.chance(1, 3);
    }
    if r.chance(1, p) {
        f.eintr = *r.pick(&[500, 3000]);
    }
    if r.chance(1, p) {
        f.delay = *r.pick(&[500, 3000]);
    }
    if r.chance(1, p) {
        f.jump = 3000;
    }
    if r.chance(1, p) {
        f.spurious = *r.pick(&[2000, 6000]);
    }
}
fn sched(r: &mut Rng) -> Sched {
    match r.below(5) {
        0 => Sched::Random(30),
        1 => Sched::Random(300),
        2 => Sched::Random(900),
        3 => Sched::Pct(*r.pick(&[5, 30, 100])),
        _ => Sched::Starve,
    }
}
fn one_op(r: &mut Rng, n: u64) -> u64 {
    // operations near the end (the write-back) matter most
    if r.chance(1, 2) {
        n.saturating_sub(r.below(14)).max(1)
    } else {
        r.range(1, n.max(1) + 1)
    }
}

pub fn generate(c: &mut Ctx, id: &str, r: &mut Rng) -> (Scenario, FaultCfg) {
    let mut f = FaultCfg::default();
    match id {
        "C01" => {
            let src = any_source(c, r, 12);
            let o = Opt { mode: Mode::Write, set: opt_set(r), time: r.chance(1, 8), plain: false, neighbours: r.chance(1, 3) };
            let k = cli(r, src, o);
            let mut sc = k.sc;
            if r.chance(1, 5) {
                linkify(r, &mut sc, &k.pl);
            }
            if r.chance(1, 4) {
                let m = *r.pick(&[0o600, 0o755, 0o666, 0o444]);
                sc.files[0].mode = m;
            }
            sc.probes = *r.pick(&[0, 2, 6]);
            sc.no_dir_sync = r.chance(1, 4);
            let clean = c.run(&sc, None, &[], None, false);
            let n = clean.procs[0][0].ops;
            match r.below(8) {
                0 => {}
                1 | 2 => f = errors(r),
                3 => f.err_at = Some((0, one_op(r, n))),
                4 => f.kill_at = Some((0, one_op(r, n))),
                5 => {
                    f.kill_at = Some((0, one_op(r, n)));
                    f.power = true;
                }
                6 => {
                    let size = initial(&sc, &k.pl.path).map(|b| b.len() as u64).unwrap_or(0);
                    sc.phases[0].free = Some(match r.below(3) {
                        0 => 0,
                        1 => r.below(64),
                        _ => r.below(size * 2 + 2),
                    });
                    benign(r, &mut f, 2);
                }
                _ => {
                    f = errors(r);
                    f.kill_at = Some((0, one_op(r, n)));
                    f.power = r.chance(1, 2);
                }
            }
            f.kill_mid = r.chance(1, 2);
            f.no_create_perm = true;
            if r.chance(1, 3) {
                benign(r, &mut f, 2);
            }
            (sc, f)
        }
        "C02" => {
            let mode = *r.pick(&[Mode::Dry, Mode::Write, Mode::Check]);
            let set = opt_set(r);
            let mut src = any_source(c, r, 20);
            if mode == Mode::Check && r.chance(2, 3) {
                src = c.fmt(&src, set.unwrap_or(DEFAULT)).unwrap_or(src);
                if r.chance(1, 3) {
                    src = near_miss(r, &src);
                }
            }
            let o = Opt { mode, set, time: r.chance(1, 4), plain: r.chance(1, 2), neighbours: false };
            let k = cli(r, src, o);
            let mut sc = k.sc;
            match r.below(20) {
                0 => sc.files[0].mode = 0o200,
                1 => sc.files[0].mode = 0o444,
                2 => {
                    sc.files.remove(0);
                }
                3 => sc.files[0].node = Node::Dir,
                4 if set.is_some() => {
                    sc.files.retain(|f| !f.path.starts_with("/cfg/"));
                }
                5 => linkify(r, &mut sc, &k.pl),
                _ => {}
            }
            if set.is_some() && r.chance(1, 4) {
                if r.chance(1, 2) {
                    // a configuration with something wrong in it
                    if let Some(f) = sc.files.iter_mut().find(|f| f.path.starts_with("/cfg/")) {
                        f.node = Node::File(text(r.pick::<&str>(&["max_width = wide\n", "max_width\n", "indent_size = 2\nmax_width = -1\n", "[[\n", "max_width = 80\nmax_width = 80\n"])));
                    }
                    sc.par.insert("refuse".into(), "1".into());
                }
                rename_config(r, &mut sc);
            }
            let clean = c.run(&sc, None, &[], None, false);
            let n = clean.procs[0][0].ops;
            match r.below(8) {
                0 => {}
                1..=3 => f = errors(r),
                4 | 5 => f.err_at = Some((0, one_op(r, n))),
                6 => {
                    let p = &mut sc.phases[0].procs[0];
                    let e = *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]);
                    let total = clean.procs[0][0].out.len() as u64;
                    p.out_limit = Some((if r.chance(1, 3) { 0 } else { r.below(total + 2) }, e));
                    if r.chance(1, 4) {
                        p.err_limit = Some((r.below(40), e));
                    }
                }
                _ => {
                    let size = initial(&sc, &k.pl.path).map(|b| b.len() as u64).unwrap_or(0);
                    sc.phases[0].free = Some(r.below(size * 2 + 2));
                }
            }
            if r.chance(1, 3) {
                benign(r, &mut f, 2);
            }
            (sc, f)
        }
        "C03" => {
            let mode = *r.pick(&[Mode::Dry, Mode::Write, Mode::Check]);
            let set = opt_set(r);
            let mut src = any_source(c, r, 8);
            if mode == Mode::Check && r.chance(1, 2) {
                src = c.fmt(&src, set.unwrap_or(DEFAULT)).unwrap_or(src);
            }
            let o = Opt { mode, set, time: r.chance(1, 3), plain: r.chance(1, 2), neighbours: false };
            let k = cli(r, src, o);
            while f.short + f.eintr + f.delay + f.jump + f.spurious == 0 {
                benign(r, &mut f, 2);
            }
            let mut sc = k.sc;
            if sc.files[0].node_len() > 20_000 {
                f.short_tiny = false;
            }
            sc.preempt = *r.pick(&[0, 0, 2000]);
            f.sched = sched(r);
            (sc, f)
        }
        "C04" => {
            let mode = *r.pick(&[Mode::Dry, Mode::Write, Mode::Write, Mode::Check]);
            let set = opt_set(r);
            let mut src = any_source(c, r, 12);
            if r.chance(1, 4) {
                src = c.fmt(&src, set.unwrap_or(DEFAULT)).unwrap_or(src);
            }
            let o = Opt { mode, set, time: r.chance(1, 8), plain: false, neighbours: true };
            let k = cli(r, src, o);
            let mut sc = k.sc;
            if mode != Mode::Dry && r.chance(1, 12) {
                // both at once: whatever that means, --check modifies nothing
                let v = &mut sc.phases[0].procs[0].argv;
                let at = if r.chance(1, 2) { 1 } else { v.len() };
                v.insert(at, r.pick(if mode == Mode::Check { &["-w", "--write"] } else { &["-C", "--check"] }).to_string());
            }
            sc.files[0].mode = *r.pick(&[0o644, 0o600, 0o755, 0o640, 0o666, 0o444, 0o400, 0o700, 0o777]);
            if r.chance(1, 3) {
                linkify(r, &mut sc, &k.pl);
            }
            if r.chance(1, 10) {
                let d = k.pl.dir.clone();
                sc.files.retain(|f| f.path != d);
                sc.files.push(FileSpec { path: d, node: Node::Dir, mode: 0o555 });
            }
            let clean = c.run(&sc, None, &[], None, false);
            let n = clean.procs[0][0].ops;
            if r.chance(1, 3) {
                present(r, &mut sc, &clean.procs[0][0].missed);
            }
            match r.below(5) {
                0 => {}
                1 => f = errors(r),
                2 | 3 => f.err_at = Some((0, one_op(r, n))),
                _ => {
                    let size = initial(&sc, &k.pl.path).map(|b| b.len() as u64).unwrap_or(0);
                    sc.phases[0].free = Some(r.below(size * 2 + 2));
                }
            }
            (sc, f)
        }
        "C05" => gen_c05(c, r),
        "C06" => gen_batches(c, r, false),
        "C07" => gen_batches(c, r, true),
        "C08" => gen_c08(c, r),
        "C09" => gen_c09(c, r),
        "C10" => gen_c10(c, r),
        "C11" => gen_c11(c, r),
        "C12" => gen_c12(c, r),
        "C15" => gen_c15(c, r),
        _ => crate::host::harness("unknown property"),
    }
}

/// Turn the target into a symbolic link (possibly a chain) to the real file elsewhere.
fn linkify(r: &mut Rng, sc: &mut Scenario, pl: &Place) {
    let real = *r.pick(&["/real/dir/Target.cls", "/w2/Real.cls"]);
    let f = sc.files[0].clone();
    let rel = r.chance(1, 2);
    let up = "../".repeat(pl.dir.matches('/').count());
    let to = if rel { format!("{}{}", up, &real[1..]) } else { real.to_string() };
    sc.files[0] = FileSpec { path: real.into(), node: f.node, mode: f.mode };
    if r.chance(1, 3) {
        sc.files.push(FileSpec { path: "/links/l.cls".into(), node: Node::Symlink(real.into()), mode: 0o777 });
        sc.files.push(FileSpec { path: pl.path.clone(), node: Node::Symlink("/links/l.cls".into()), mode: 0o777 });
    } else {
        sc.files.push(FileSpec { path: pl.path.clone(), node: Node::Symlink(to), mode: 0o777 });
    }
}
impl FileSpec {
    pub fn node_len(&self) -> usize {
        match &self.node {
            Node::File(b) => b.len(),
            _ => 0,
        }
    }
}

fn gen_c05(c: &mut Ctx, r: &mut Rng) -> (Scenario, FaultCfg) {
    let src = any_source(c, r, 15);
    let set = settings(r);
    let mut sc = Scenario { kind: "variants".into(), seed: r.next() >> 1, ..Default::default() };
    sc.par.insert("w".into(), set.w.to_string());
    sc.par.insert("i".into(), set.i.to_string());
    let n = r.range(2, 4);
    for ph in 0..n {
        let pl = place(r, false);
        let dir = format!("/v{}", ph);
        // every variant in a directory of its own, so that nothing is shared but the text
        let path = format!("{}{}", dir, pl.path);
        let (arg, cwd) = match r.below(3) {
            0 => (path.clone(), format!("{}{}", dir, pl.dir)),
            1 => (pl.path.rsplit('/').next().unwrap().to_string(), format!("{}{}", dir, pl.dir)),
            _ => (path[1..].to_string(), "/".to_string()),
        };
        sc.files.push(file(&path, src.clone()));
        let named = set != DEFAULT || r.chance(1, 2);
        let cfg = format!("{}{}", dir, r.pick(&["/.afmt.toml", "/c.toml", "/x/y/config"]));
        if named {
            sc.files.push(file(&cfg, text(&set.toml())));
        }
        if r.chance(1, 2) {
            let mode = if r.chance(1, 2) { Mode::Dry } else { Mode::Write };
            let time = r.chance(1, 6);
            let mut p = proc_default(0, argv(r, mode, if named { Some(&cfg) } else { None }, time, &arg), &cwd);
            environment(r, &mut p);
            let mut fs = vec![];
            let pl2 = Place { dir: format!("{}{}", dir, pl.dir), path: path.clone(), arg: arg.clone(), cwd: cwd.clone() };
            if r.chance(1, 2) {
                neighbours(r, &pl2, p.pid, &mut fs);
                for f in fs {
                    if !sc.files.iter().any(|x| x.path == f.path) {
                        sc.files.push(f);
                    }
                }
            }
            sc.phases.push(Phase { procs: vec![p], ..Default::default() });
        } else {
            // among companions, in one or several calls of one process
            let mut script = String::new();
            let mut calls = vec![];
            let ncalls = r.range(1, 3);
            for k in 0..ncalls {
                let m = r.range(1, 5) as usize;
                let at = r.below(m as u64) as usize;
                let mut line = format!("{}\t{}{}\t{}", if r.chance(1, 3) { "fork" } else { "batch" }, ph, k, if named { &cfg } else { "-" });
                for j in 0..m {
                    if j == at {
                        line.push_str(&format!("\t{}", path));
                    } else {
                        let p = format!("{}/comp{}_{}.cls", dir, k, j);
                        let b = if r.chance(1, 3) {
                            // a close relative of the text
                            let x = near_miss(r, &src);
                            if x.is_empty() { text("\n") } else { x }
                        } else {
                            any_source(c, r, 25)
                        };
                        sc.files.push(file(&p, b));
                        line.push_str(&format!("\t{}", p));
                    }
                }
                calls.push(format!("{}{}:{}", ph, k, at));
                script.push_str(&line);
                script.push('\n');
            }
            script.push_str("join\n");
            sc.par.insert(format!("calls{}", ph), calls.join(","));
            sc.files.push(file(&format!("/drv/script.{}", ph), text(&script)));
            let mut p = proc_default(1, sargs(&["driver", &format!("/drv/script.{}", ph)]), &cwd);
            environment(r, &mut p);
            sc.phases.push(Phase { procs: vec![p], ..Default::default() });
        }
        sc.files.push(FileSpec { path: cwd, node: Node::Dir, mode: 0o755 });
    }
    // whatever the program asks its environment for, it gets
    if r.chance(1, 2) {
        let clean = c.run(&sc, None, &[], None, false);
        for (ph, outs) in clean.procs.iter().enumerate() {
            if r.chance(1, 2) {
                present(r, &mut sc, &outs[0].missed);
            }
            let p = &mut sc.phases[ph].procs[0];
            if r.chance(1, 3) {
                p.tty = r.below(8) as u32;
            }
            for name in &outs[0].asked {
                if name.starts_with("RUST_") || !r.chance(1, 2) {
                    continue;
                }
                p.env.retain(|(k, _)| k != name);
                p.env.push((name.clone(), r.pick(&["1", "0", "true", "", "100", "4", "40", "always", "debug", "/w", "C"]).to_string()));
            }
        }
    }
    sc.preempt = *r.pick(&[0, 500, 5000]);
    let mut f = FaultCfg { sched: sched(r), ..Default::default() };
    benign(r, &mut f, 3);
    (sc, f)
}

/// What the program looked for and did not find, or was about to create, is there already.
fn present(r: &mut Rng, sc: &mut Scenario, missed: &[String]) {
    for p in missed {
        if ["/proc/", "/sys/", "/dev/", "/etc/", "/usr/", "/lib"].iter().any(|d| p.starts_with(d)) || sc.files.iter().any(|f| f.path == *p) {
            continue;
        }
        if r.chance(2, 3) {
            let b = *r.pick(&["max_width = 33\nindent_size = 5\n", "", "public class Other {\n}\n", "{\"max_width\": 33}", "root = true\n[*]\nindent_size = 7\nmax_line_length = 44\n", "1\n", "precious\n"]);
            sc.files.push(file(p, text(b)));
        }
    }
}

fn gen_batches(c: &mut Ctx, r: &mut Rng, history: bool) -> (Scenario, FaultCfg) {
    let mut sc = Scenario { kind: if history { "history".into() } else { "batch".into() }, seed: r.next() >> 1, ..Default::default() };
    let set = settings(r);
    // now and then the many small files of a whole project
    let many = r.chance(1, 60);
    let nf = if many { r.range(60, 300) } else if r.chance(1, 6) { r.range(10, 30) } else { r.range(1, 8) };
    let mut paths = vec![];
    let bad = if history { 35 } else { 15 };
    let mut prev: Option<Bytes> = None;
    for k in 0..nf {
        if many {
            let p = format!("/b/d{}/F.cls", k);
            if !r.chance(1, 20) {
                let s = if r.chance(1, 10) { text("class {{") } else { text(&format!("class F{}{{Integer x={};}}", k, r.below(1000))) };
                sc.files.push(file(&p, s));
            } else {
                sc.files.push(FileSpec { path: format!("/b/d{}", k), node: Node::Dir, mode: 0o755 });
            }
            paths.push(p);
            continue;
        }
        let p = match r.below(10) {
            0 => format!("/b/missing{}.cls", k),
            _ => {
                let p = format!("/b/d{}/F.cls", k);
                let mut s = if r.chance(1, 300) { deep(r) } else { any_source(c, r, bad) };
                if let (true, Some(b)) = (r.chance(1, 5), &prev) {
                    s = near_miss(r, b);
                }
                prev = Some(s.clone());
                sc.files.push(FileSpec { path: p.clone(), node: Node::File(s), mode: if r.chance(1, 15) { 0 } else { 0o644 } });
                p
            }
        };
        paths.push(p);
    }
    if r.chance(1, 10) {
        sc.files.push(FileSpec { path: "/b/dir.cls".into(), node: Node::Dir, mode: 0o755 });
        paths.push("/b/dir.cls".into());
    }
    sc.files.push(file("/b/cfg.toml", text(&set.toml())));
    sc.files.push(file("/b/bad.toml", text("max_width = \"wide\"\n")));
    let mut script = String::new();
    let ncalls = if history { r.range(2, 6) } else { r.range(1, 2) };
    let mut threads = 0;
    for k in 0..ncalls {
        let n = match r.below(8) {
            0 if !many => 0,
            1 if !many => 1,
            _ if many && r.chance(3, 4) => nf,
            _ => r.range(1, paths.len() as u64 + 1),
        };
        if threads + n + 2 > if many { 600 } else { 150 } {
            break;
        }
        threads += n + 1;
        let cfg = match r.below(10) {
            0 if history => "/b/bad.toml",
            1 if history => "/b/none.toml",
            2..=5 => "-",
            _ => "/b/cfg.toml",
        };
        let mut v: Vec<String> = (0..n).map(|_| r.pick(&paths).clone()).collect();
        if r.chance(2, 3) && n as usize <= paths.len() {
            // each file once
            v = paths.clone();
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
            v.truncate(n as usize);
        }
        // between calls somebody saves a file or a configuration anew: what was read before is of no more use
        if k > 0 && r.chance(1, 3) {
            let staged = format!("/drv/new{}", k);
            let (to, b) = if r.chance(1, 3) {
                ("/b/cfg.toml".to_string(), text(&settings(r).toml()))
            } else {
                let to = r.pick(&paths).clone();
                let b = match initial(&sc, &to) {
                    Some(old) if r.chance(1, 2) => near_miss(r, &old),
                    _ => any_source(c, r, bad),
                };
                (to, b)
            };
            if !sc.files.iter().any(|f| f.path == to && !matches!(f.node, Node::File(_))) {
                sc.files.push(file(&staged, b));
                script.push_str(&format!("join\nput\t{}\t{}\n", staged, to));
            }
        }
        script.push_str(&format!("{}\t{}\t{}{}{}\n", if history && r.chance(1, 2) { "fork" } else { "batch" }, k, cfg, if v.is_empty() { "" } else { "\t" }, v.join("\t")));
        if history && r.chance(1, 4) {
            script.push_str("join\n");
        }
    }
    script.push_str("join\n");
    sc.files.push(file("/drv/script", text(&script)));
    let mut p = proc_default(1, sargs(&["driver"]), "/b");
    environment(r, &mut p);
    sc.phases.push(Phase { procs: vec![p], ..Default::default() });
    sc.preempt = *r.pick(&[0, 300, 3000, 30000]);
    let mut f = FaultCfg { sched: sched(r), ..Default::default() };
    benign(r, &mut f, 3);
    if r.chance(1, 3) {
        f.err = *r.pick(&[300, 2000]);
        f.err_max = 6;
        f.err_path = Some("/b/d".into());
        f.err_ops = Some(vec![Op::OPEN, Op::READ, Op::STAT, Op::CLOSE]);
    }
    (sc, f)
}

fn gen_c08(c: &mut Ctx, r: &mut Rng) -> (Scenario, FaultCfg) {
    let set = opt_set(r);
    let s = set.unwrap_or(DEFAULT);
    let pick = |c: &mut Ctx, r: &mut Rng| -> Bytes {
        let b = any_source(c, r, 10);
        match r.below(5) {
            0 => b,
            1 | 2 => c.fmt(&b, s).unwrap_or(b),
            _ => {
                let f = c.fmt(&b, s).unwrap_or(b);
                near_miss(r, &f)
            }
        }
    };
    let src = pick(c, r);
    let o = Opt { mode: Mode::Check, set, time: r.chance(1, 6), plain: r.chance(1, 2), neighbours: r.chance(1, 6) };
            let mut k = cli(r, src.clone(), o);
    let mut f = FaultCfg { sched: sched(r), ..Default::default() };
    match r.below(3) {
        0 => {
            // quiescent: the verdict against what -w then does
            let a: Vec<String> = k.sc.phases[0].procs[0].argv.iter().map(|x| if x == "-C" || x == "--check" { "-w".into() } else { x.clone() }).collect();
            let mut p = k.sc.phases[0].procs[0].clone();
            p.argv = a;
            k.sc.phases.push(Phase { procs: vec![p], ..Default::default() });
            k.sc.kind = "check-then-write".into();
            benign(r, &mut f, 3);
        }
        1 => {
            k.sc.kind = "check-under-faults".into();
            f = FaultCfg { sched: f.sched, ..errors(r) };
        }
        _ => {
            k.sc.kind = "check-while-saving".into();
            let n = r.range(1, 3);
            let mut saves = vec![];
            for _ in 0..n {
                let b = match r.below(3) {
                    0 => c.fmt(&src, s).unwrap_or(src.clone()),
                    1 => src.clone(),
                    _ => pick(c, r),
                };
                let after = if r.chance(1, 2) { 0 } else { r.below(60_000) };
                saves.push(EditSave { path: k.pl.path.clone(), node: Node::File(b), after });
            }
            k.sc.phases[0].editors.push(saves);
            benign(r, &mut f, 4);
        }
    }
    (k.sc, f)
}

fn gen_c09(c: &mut Ctx, r: &mut Rng) -> (Scenario, FaultCfg) {
    let set = opt_set(r);
    let src = settled_source(c, r, set.unwrap_or(DEFAULT));
    let o = Opt { mode: Mode::Write, set, time: false, plain: r.chance(1, 2), neighbours: r.chance(1, 4) };
            let k = cli(r, src, o);
    let mut sc = k.sc;
    sc.kind = "crash-history".into();
    let base = sc.phases[0].procs[0].clone();
    if r.chance(1, 6) {
        linkify(r, &mut sc, &k.pl);
    }
    let clean = c.run(&sc, None, &[], None, false);
    let n = clean.procs[0][0].ops;
    let faulty = r.range(0, 4) as usize;
    sc.phases.clear();
    for _ in 0..faulty {
        let mut p = base.clone();
        if r.chance(1, 2) {
            environment(r, &mut p);
        }
        let size = clean.procs[0][0].out.len() as u64 + 2000;
        sc.phases.push(Phase { procs: vec![p], free: if r.chance(1, 6) { Some(r.below(size)) } else { None }, ..Default::default() });
    }
    for m in [Mode::Write, Mode::Check, Mode::Write] {
        let mut p = base.clone();
        let cfg = set.map(|_| "/cfg/named.toml");
        p.argv = argv(r, m, cfg, false, &k.pl.arg);
        sc.phases.push(Phase { procs: vec![p], ..Default::default() });
    }
    sc.par.insert("faulty".into(), faulty.to_string());
    sc.no_dir_sync = r.chance(1, 4);
    let mut f = FaultCfg { upto: Some(faulty), no_create_perm: true, ..Default::default() };
    match r.below(4) {
        0 => f = FaultCfg { upto: Some(faulty), no_create_perm: true, ..errors(r) },
        _ => {
            f.kill_at = Some((0, one_op(r, n)));
            f.kill_mid = r.chance(1, 2);
            f.power = r.chance(1, 3);
            if r.chance(1, 3) {
                f.err = 500;
                f.err_max = 3;
            }
        }
    }
    (sc, f)
}

fn gen_c10(c: &mut Ctx, r: &mut Rng) -> (Scenario, FaultCfg) {
    let mut sc = Scenario { kind: "concurrent".into(), seed: r.next() >> 1, ..Default::default() };
    let nf = r.range(1, 2);
    let mut targets = vec![];
    for k in 0..nf {
        let p = format!("/w/{}.cls", if k == 0 { "A" } else { "B" });
        let b = any_source(c, r, 8);
        sc.files.push(FileSpec { path: p.clone(), node: Node::File(b), mode: *r.pick(&[0o644, 0o664, 0o600]) });
        sc.watch.push(p.clone());
        targets.push(p);
    }
    if nf == 1 && r.chance(1, 3) {
        sc.files.push(FileSpec { path: "/w/L.cls".into(), node: Node::Symlink("A.cls".into()), mode: 0o777 });
        targets.push("/w/L.cls".into());
    }
    let set = settings(r);
    sc.files.push(file("/w/c.toml", text(&set.toml())));
    let mut ph = Phase::default();
    let np = r.range(2, 4);
    let samepid = r.chance(1, 6); // pid namespaces: two containers on one directory
    for k in 0..np {
        let m = *r.pick(&[Mode::Write, Mode::Write, Mode::Write, Mode::Dry, Mode::Check]);
        let t = r.pick(&targets).clone();
        let cfg = if r.chance(1, 2) { Some("/w/c.toml") } else { None };
        let arg = if r.chance(1, 2) { t.clone() } else { t[3..].to_string() };
        let mut p = proc_default(0, argv(r, m, cfg, false, &arg), "/w");
        environment(r, &mut p);
        p.env.retain(|(k, _)| k != "TMPDIR");
        p.pid = if samepid { 7 } else { 4000 + k };
        p.start_at = if r.chance(1, 2) { 0 } else { r.below(80_000) };
        ph.procs.push(p);
    }
    let ne = r.below(3);
    for _ in 0..ne {
        let mut s = vec![];
        for _ in 0..r.range(1, 3) {
            let t = targets[r.below(nf) as usize].clone();
            s.push(EditSave { path: t, node: Node::File(any_source(c, r, 8)), after: if r.chance(1, 2) { 0 } else { r.below(80_000) } });
        }
        ph.editors.push(s);
    }
    sc.phases.push(ph);
    let mut f = FaultCfg { sched: sched(r), ..Default::default() };
    if r.chance(1, 3) {
        f.delay = 1500;
    }
    if r.chance(1, 4) {
        f.short = 5000;
    }
    if r.chance(1, 6) {
        f.err = 300;
        f.err_max = 2;
        f.no_create_perm = true;
    }
    (sc, f)
}

/// (text of a configuration file, the settings it means; None: it must be refused)
fn config_text(r: &mut Rng) -> (Bytes, Option<Set>) {
    // also settings nobody would choose: a named setting is honoured whatever it is
    let (w, i) = match r.below(8) {
        7 => (r.below(10) as u32, *r.pick(INDENTS)),
        6 => (*r.pick(&[1000, 4096, 32767, 32768, 65535, 65536, 65541, 65600, 70000, 131_112, 0x7fff_ffff, 0x8000_0000, 0xffff_ff00, u32::MAX]), *r.pick(INDENTS)),
        0 => (r.range(1, 700) as u32, r.range(1, 20) as u32),
        1 => (r.range(1, 24) as u32, r.range(1, 24) as u32),
        2 => (*r.pick(WIDTHS), r.range(1, 24) as u32),
        _ => (*r.pick(WIDTHS), *r.pick(INDENTS)),
    };
    let both = Some(Set { w, i });
    let (s, m): (String, Option<Set>) = match r.below(30) {
        0..=4 => (Set { w, i }.toml(), both),
        5 => (format!("max_width = {}", w), Some(Set { w, i: 2 })),
        6 => (format!("indent_size = {}\n", i), Some(Set { w: 80, i })),
        7 if r.chance(1, 4) => (format!("max_width = {}\nindent_size = 0\n", w), None),
        7 => (String::new(), Some(DEFAULT)),
        8 => (format!("# a comment — ünï\n\nindent_size={}\n  max_width   =   {}  # trailing\n", i, w), both),
        9 => (format!("indent_size = {}\r\nmax_width = {}\r\n", i, w), both),
        10 => (format!("\"max_width\" = {}\n'indent_size' = {}\n", w, i), both),
        11 => (format!("max_width = 0x{:x}\nindent_size = 0b{:b}\n", w, i), both),
        12 => (format!("{}\nmax_width = {}\nindent_size = {}\n", "# pad\n".repeat(r.below(3000) as usize), w, i), both),
        13 => (format!("max_width = 1_0{}\n", r.below(10)), None),
        14 => (format!("max_width = {}\nindent_size = \"{}\"\n", w, i), None),
        15 => (format!("max_width = -{}\n", w.max(1)), None),
        16 => (format!("max_width = {}.5\n", w), None),
        17 => ("max_width = 4294967296\n".into(), None),
        18 => (format!("max_width = {}\nmax_width = {}\n", w, w), None),
        19 => (format!("max_width: {}\n", w), None),
        20 => (format!("max_width = {}\nindent_size = \n", w), None),
        21 => ("max_width".into(), None),
        22 => ("[section\nmax_width = 3\n".into(), None),
        23 => ("{\"max_width\": 100}".into(), None),
        24 => (format!("max_width = {}\nindent_size = true\n", w), None),
        25 => (format!("indent_size = {}\n= 4\n", i), None),
        26 => {
            let mut b = Set { w, i }.toml().into_bytes();
            b.extend_from_slice(b"# \xff\xfe\n");
            return (Rc::new(b), None);
        }
        27 => return (Rc::new(vec![0xc3, 0x28]), None),
        28 => (format!("max_width = [{}]\n", w), None),
        _ => (format!("max_width = {}\nindent_size = {}\0\n", w, i), None),
    };
    if let (None, true) = (&m, s.starts_with("max_width = 1_0")) {
        let v: u32 = s.trim_end()[14..].parse().unwrap_or(0);
        return (text(&s), Some(Set { w: 100 + v, i: 2 }));
    }
    (text(&s), m)
}
fn enc(m: Option<Set>) -> String {
    match m {
        Some(s) => format!("{}x{}", s.w, s.i),
        None => "refuse".into(),
    }
}
fn dec(s: &str) -> Option<Set> {
    let (w, i) = s.split_once('x')?;
    Some(Set { w: w.parse().ok()?, i: i.parse().ok()? })
}

/// A text whose formatted text is known beforehand for all settings that leave it room.
fn ruler(a: usize, b: usize) -> Bytes {
    text(&format!("class R{{void f(){{if(a){{foo('{}','{}');}}}}}}", "x".repeat(a), "y".repeat(b)))
}
fn ruled(s: Set, a: usize, b: usize) -> Option<String> {
    let (w, i) = (s.w as usize, s.i as usize);
    let (x, y) = ("x".repeat(a), "y".repeat(b));
    let t = |n: usize| " ".repeat(n * i);
    if w < 2 * i + 7 {
        // not even the condition fits
        return Some(format!("class R {{\n{0}void f() {{\n{1}if (\n{2}a\n{1}) {{\n{2}foo(\n{3}'{4}',\n{3}'{5}'\n{2});\n{1}}}\n{0}}}\n}}\n", t(1), t(2), t(3), t(4), x, y));
    }
    if 2 * i + 9 > w || 4 * i > w {
        return None;
    }
    let (x, y) = ("x".repeat(a), "y".repeat(b));
    let t = |n: usize| " ".repeat(n * i);
    let body = if 3 * i + a + b + 12 <= w {
        format!("{}foo('{}', '{}');\n", t(3), x, y)
    } else {
        format!("{}foo(\n{}'{}',\n{}'{}'\n{});\n", t(3), t(4), x, t(4), y, t(3))
    };
    Some(format!("class R {{\n{}void f() {{\n{}if (a) {{\n{}{}}}\n{}}}\n}}\n", t(1), t(2), body, t(2), t(1)))
}
fn gen_ruler(r: &mut Rng) -> (Scenario, FaultCfg) {
    let none = r.chance(1, 6);
    loop {
        let (b, m) = if none { (text(""), Some(DEFAULT)) } else { config_text(r) };
        let Some(s) = m else { continue };
        let room = s.w as i64 - 3 * s.i as i64 - 12;
        let both = match r.below(3) {
            0 => room,
            1 => room + 1,
            _ => room + r.below(40) as i64 - 20,
        }
        .max(0) as usize;
        // a line as long as the widest settings allow is out of reach
        let both = if both > 140_000 || both > 1000 && r.chance(1, 2) { r.below(1000) as usize } else { both };
        let x = r.below(both as u64 + 1) as usize;
        let y = both - x;
        let mode = *r.pick(&[Mode::Dry, Mode::Write]);
        let o = Opt { mode, set: if none { None } else { Some(s) }, time: false, plain: r.chance(1, 2), neighbours: r.chance(1, 2) };
        let mut k = cli(r, ruler(x, y), o);
        if let Some(f) = k.sc.files.iter_mut().find(|f| f.path == "/cfg/named.toml") {
            f.node = Node::File(b);
        }
        k.sc.kind = "ruler".into();
        k.sc.par.insert("meaning".into(), enc(Some(s)));
        k.sc.par.insert("x".into(), x.to_string());
        k.sc.par.insert("y".into(), y.to_string());
        let mut f = FaultCfg { sched: sched(r), ..Default::default() };
        if r.chance(1, 3) {
            benign(r, &mut f, 2);
        }
        return (k.sc, f);
    }
}
fn gen_c11(c: &mut Ctx, r: &mut Rng) -> (Scenario, FaultCfg) {
    if r.chance(1, 8) {
        return gen_ruler(r);
    }
    let src = good_source(c, r);
    let mode = *r.pick(&[Mode::Dry, Mode::Dry, Mode::Write, Mode::Check]);
    let (b, m) = config_text(r);
    // --check: often a file formatted for exactly this, or for the default, configuration
    let src = if mode == Mode::Check {
        let s = match r.below(3) {
            0 => DEFAULT,
            _ => m.unwrap_or(DEFAULT),
        };
        c.fmt(&src, s).unwrap_or(src)
    } else {
        src
    };
    let o = Opt { mode, set: Some(DEFAULT), time: r.chance(1, 8), plain: r.chance(1, 2), neighbours: r.chance(1, 2) };
            let mut k = cli(r, src, o);
    let sc = &mut k.sc;
    sc.kind = "config".into();
    let ci = sc.files.iter().position(|f| f.path == "/cfg/named.toml").unwrap();
    sc.files[ci].node = Node::File(b);
    let mut meaning = vec![enc(m)];
    match r.below(16) {
        0 => {
            sc.files.remove(ci);
            meaning = vec!["refuse".into()];
        }
        1 => {
            sc.files[ci].mode = 0o200;
            meaning = vec!["refuse".into()];
        }
        2 => {
            sc.files[ci].node = Node::Dir;
            meaning = vec!["refuse".into()];
        }
        3 => {
            let x = sc.files[ci].clone();
            sc.files[ci].path = "/cfg/real/x.toml".into();
            sc.files.push(FileSpec { path: x.path, node: Node::Symlink("real/x.toml".into()), mode: 0o777 });
        }
        4 => {
            sc.files[ci].node = Node::Symlink("nowhere.toml".into());
            meaning = vec!["refuse".into()];
        }
        _ => {}
    }
    if r.chance(1, 4) && matches!(sc.files.get(ci).map(|f| &f.node), Some(Node::File(_))) {
        sc.kind = "config-replaced".into();
        let mut saves = vec![];
        for _ in 0..r.range(1, 2) {
            let (b, m) = config_text(r);
            meaning.push(enc(m));
            saves.push(EditSave { path: "/cfg/named.toml".into(), node: Node::File(b), after: if r.chance(1, 2) { 0 } else { r.below(50_000) } });
        }
        sc.phases[0].editors.push(saves);
        if sc.files[ci].mode == 0o200 {
            sc.files[ci].mode = 0o644;
            meaning[0] = enc(m);
        }
    }
    sc.par.insert("meaning".into(), meaning.join(","));
    if r.chance(1, 4) {
        // whatever else the program looks for is there, and says something different
        let clean = c.run(sc, None, &[], None, false);
        let missed: Vec<String> = clean.procs[0][0].missed.iter().filter(|p| !p.starts_with("/cfg/n") && !p.starts_with("/cfg/real")).cloned().collect();
        for p in missed {
            if !sc.files.iter().any(|f| f.path == p) && !["/proc/", "/sys/", "/dev/", "/etc/", "/usr/", "/lib"].iter().any(|d| p.starts_with(d)) && r.chance(3, 4) {
                let b = if r.chance(3, 4) { text("max_width = 33\nindent_size = 5\n") } else { config_text(r).0 };
                sc.files.push(file(&p, b));
            }
        }
    }
    let mut f = FaultCfg { sched: sched(r), ..Default::default() };
    match r.below(4) {
        0 => {
            f.err = *r.pick(&[2000, 6000, 10000]);
            f.err_max = *r.pick(&[1, 2]);
            f.err_path = Some("/cfg/".into());
        }
        1 => benign(r, &mut f, 2),
        _ => {}
    }
    (k.sc, f)
}

fn gen_c15(c: &mut Ctx, r: &mut Rng) -> (Scenario, FaultCfg) {
    if r.chance(1, 4) {
        return gen_c15_history(c, r);
    }
    let set = opt_set(r);
    let mode = *r.pick(&[Mode::Dry, Mode::Dry, Mode::Write, Mode::Check]);
    let (a, b) = if r.chance(3, 4) {
        growing(r)
    } else {
        let a = any_source(c, r, 8);
        (a.clone(), a)
    };
    let time = r.chance(1, 8);
    let k = cli(r, a, Opt { mode, set, time, plain: true, neighbours: false });
    let mut sc = k.sc;
    sc.kind = "growth".into();
    // the same command again, on the larger text
    let mut p = sc.phases[0].procs[0].clone();
    let big = format!("{}/Big.cls", k.pl.dir.trim_end_matches('/'));
    p.argv = argv(r, mode, set.map(|_| "/cfg/named.toml"), false, &big);
    sc.files.push(file(&big, b));
    sc.phases.push(Phase { procs: vec![p], ..Default::default() });
    sc.watch = vec![];
    if r.chance(1, 8) {
        // what cannot be read now will not be readable by waiting for it
        let named: Vec<usize> = (0..sc.files.len()).filter(|&j| matches!(sc.files[j].node, Node::File(_))).collect();
        let j = *r.pick(&named);
        match r.below(5) {
            0 => sc.files[j].mode = 0,
            1 => sc.files[j].node = Node::Dir,
            2 => sc.files[j].node = Node::Symlink("nowhere".into()),
            3 => sc.files[j].node = Node::File(text("")),
            _ => {
                let x = sc.files.remove(j);
                let dir = x.path.rsplit_once('/').unwrap().0.to_string();
                sc.files.push(file(&format!("{}/Another.cls", dir), text("class Another {}\n")));
            }
        }
    }
    let mut f = if r.chance(1, 2) { errors(r) } else { FaultCfg::default() };
    if f.err > 0 && r.chance(1, 4) {
        // something fails again and again for a while
        f.err = 10000;
        f.err_max = *r.pick(&[10, 100]);
    }
    benign(r, &mut f, 2);
    f.short_tiny = false;
    f.sched = sched(r);
    sc.preempt = *r.pick(&[0, 0, 20000]);
    (sc, f)
}
/// What crashed and concurrent commands leave behind on a file must not make later or other ones wait, retry or loop.
fn gen_c15_history(c: &mut Ctx, r: &mut Rng) -> (Scenario, FaultCfg) {
    let set = opt_set(r);
    let src = any_source(c, r, 6);
    let time = r.chance(1, 8);
    let (plain, neighbours) = (r.chance(1, 2), r.chance(1, 4));
    let k = cli(r, src, Opt { mode: Mode::Write, set, time, plain, neighbours });
    let mut sc = k.sc;
    sc.kind = "growth".into();
    let base = sc.phases[0].procs[0].clone();
    let clean = c.run(&sc, None, &[], None, false);
    let n = clean.procs[0][0].ops;
    let crashes = r.range(0, 3) as usize;
    sc.phases.clear();
    let same_pid = r.chance(1, 2);
    for ph in 0..=crashes {
        let several = if ph == crashes || r.chance(1, 4) { *r.pick(&[1, 1, 2, 3]) } else { 1 };
        let procs = (0..several)
            .map(|j| {
                let mut p = base.clone();
                if !same_pid {
                    p.pid = base.pid + 10 * ph as u64 + j;
                }
                if j > 0 && r.chance(1, 2) {
                    let m = *r.pick(&[Mode::Dry, Mode::Check]);
                    p.argv = argv(r, m, set.map(|_| "/cfg/named.toml"), time, &k.pl.arg);
                }
                p
            })
            .collect();
        sc.phases.push(Phase { procs, ..Default::default() });
    }
    sc.watch = vec![];
    let mut f = FaultCfg { upto: Some(crashes), kill_at: Some((0, one_op(r, n))), kill_mid: r.chance(1, 2), power: r.chance(1, 4), ..Default::default() };
    if r.chance(1, 4) {
        f = FaultCfg { err: 300, err_max: 20, ..Default::default() };
    }
    f.sched = sched(r);
    sc.preempt = *r.pick(&[0, 0, 20000]);
    (sc, f)
}
/// Work is measured in basic blocks of the program, allocations, operations and virtual time. The bounds are about ten times
/// what the worst of these texts needs; what they exclude is growth out of proportion.
fn judge_c15(sc: &Scenario, r: &RunResult) -> Option<String> {
    for (ph, k, p) in r.procs.iter().enumerate().flat_map(|(ph, v)| v.iter().enumerate().map(move |(k, p)| (ph, k, p))) {
        let q = cmd(&sc.phases[ph].procs[k]);
        let n = initial(sc, &q.path).map(|b| b.len()).unwrap_or(0) as u64;
        let faults = r.fired.iter().filter(|f| f.phase == ph).count() as u64;
        for (what, used, most) in [
            ("basic blocks", p.ticks, crate::world::work(n)),
            ("allocations", p.allocs, 20_000 + 100 * n),
            ("bytes of memory", p.memory, (32 << 20) + 40_000 * n),
            ("operations", p.ops, 400 + n + 8 * faults),
            ("threads", p.spawned, 16),
        ] {
            if used > most {
                return Some(format!("a text of {} bytes and {} faults take {} {} (at most {} would be in proportion)", n, faults, used, what, most));
            }
        }
        if p.exit == Exit::Unfinished {
            return Some("the command did not end".into());
        }
    }
    let slow = r.fired.iter().any(|f| matches!(f.act, Act::Delay(_) | Act::Jump(_)));
    if !slow && r.sim_ns > 60_000_000_000 {
        return Some(format!("{} s of virtual time went by, though nothing was slow", r.sim_ns / 1_000_000_000));
    }
    None
}
fn gen_c12(c: &mut Ctx, r: &mut Rng) -> (Scenario, FaultCfg) {
    let mut f = FaultCfg::default();
    if r.chance(1, 4) {
        let (mut sc, _) = gen_batches(c, r, false);
        sc.kind = "batch-exhaustion".into();
        let clean = c.run(&sc, None, &[], None, false);
        let p = &mut sc.phases[0].procs[0];
        match r.below(3) {
            0 => p.max_threads = Some(r.below(clean.procs[0][0].spawned + 2) as u32),
            1 => p.max_fds = Some(r.below(6) as u32),
            _ => p.fail_alloc = Some((r.range(1, clean.procs[0][0].allocs.max(1)), *r.pick(&[1, 1, 5, u64::MAX / 2]))),
        }
        f.sched = sched(r);
        return (sc, f);
    }
    let mode = *r.pick(&[Mode::Dry, Mode::Write, Mode::Write, Mode::Check]);
    let set = opt_set(r);
    let mut src = any_source(c, r, 8);
    if mode == Mode::Check {
        src = c.fmt(&src, set.unwrap_or(DEFAULT)).unwrap_or(src);
        if r.chance(1, 2) {
            src = near_miss(r, &src);
        }
    }
    let deep = r.chance(1, 40);
    if deep {
        let n = r.range(2000, 6000) as usize;
        src = text(&format!("class D {{ Integer f() {{ return {}1; }} }}\n", if r.chance(1, 2) { "a + ".repeat(n) } else { "(".repeat(n / 4) + "1" + &")".repeat(n / 4) + " + " }));
    }
    let o = Opt { mode, set, time: false, plain: true, neighbours: r.chance(1, 4) };
            let k = cli(r, src, o);
    let mut sc = k.sc;
    sc.kind = if deep { "deep".into() } else { "exhaustion".into() };
    let clean = c.run(&sc, None, &[], None, false);
    let a = clean.procs[0][0].allocs.max(1);
    let size = initial(&sc, &k.pl.path).map(|b| b.len() as u64).unwrap_or(0);
    for _ in 0..(if deep { 0 } else { r.range(1, 2) }) {
        match r.below(7) {
            0..=2 => {
                let at = match r.below(3) {
                    0 => r.range(1, 60.min(a)),
                    1 => a.saturating_sub(r.below(120)).max(1),
                    _ => r.range(1, a),
                };
                sc.phases[0].procs[0].fail_alloc = Some((at, *r.pick(&[1, 1, 3, 50, u64::MAX / 2])))
            }
            3 => sc.phases[0].procs[0].max_threads = Some(0),
            4 => sc.phases[0].procs[0].max_fds = Some(r.below(3) as u32),
            5 => sc.phases[0].free = Some(if r.chance(1, 3) { r.below(16) } else { r.below(size * 2 + 2) }),
            _ => sc.phases[0].procs[0].out_limit = Some((r.below(size + 50), libc::ENOSPC)),
        }
    }
    benign(r, &mut f, 5);
    (sc, f)
}

// ------------------------------------------------------------------------------------------------ judging

/// The contents the watched files may hold at any instant (None: not an invariant of this property).
pub fn allowed(c: &mut Ctx, id: &str, sc: &Scenario) -> Option<BTreeMap<String, Vec<Bytes>>> {
    if !matches!(id, "C01" | "C09" | "C12") || sc.watch.is_empty() {
        return None;
    }
    let mut m = BTreeMap::new();
    for p in &sc.watch {
        let Some(src) = initial(sc, p) else { continue };
        let mut v = vec![src.clone()];
        let k = cmd(&sc.phases[0].procs[0]);
        if k.mode == Mode::Write || id == "C09" {
            if let Some(f) = c.fmt(&src, set_of(sc, &k)) {
                v.push(f);
            }
        }
        m.insert(p.clone(), v);
    }
    Some(m)
}
fn show(b: Option<&Bytes>) -> String {
    match b {
        None => "nothing (missing)".into(),
        Some(b) if b.is_empty() => "an empty text".into(),
        Some(b) => format!("{} bytes starting {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(40)])),
    }
}
fn tail(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(160)).collect()
}

fn history_ok(r: &RunResult, al: &BTreeMap<String, Vec<Bytes>>) -> Option<String> {
    for (p, ok) in al {
        for v in r.history.get(p).map(|v| v.as_slice()).unwrap_or(&[]) {
            if !v.data.as_ref().is_some_and(|d| ok.iter().any(|o| o == d)) {
                return Some(format!("at step {} {} holds {}, which is neither the previous nor the complete formatted text", v.step, p, show(v.data.as_ref())));
            }
        }
    }
    None
}
/// Versions of `path` that existed at some moment between two steps.
fn versions<'a>(r: &'a RunResult, path: &str, from: u64, to: u64) -> Vec<Option<&'a Bytes>> {
    let mut out = vec![];
    let h = match r.history.get(path) {
        Some(h) => h,
        None => return out,
    };
    for (i, v) in h.iter().enumerate() {
        let end = h.get(i + 1).map(|n| n.step).unwrap_or(u64::MAX);
        if v.step <= to && end >= from {
            out.push(v.data.as_ref());
        }
    }
    out
}
fn dry_text<'a>(p: &'a ProcOut, time: bool) -> Option<&'a [u8]> {
    let mut o: &[u8] = &p.out;
    if time {
        let m = b"\n-- Execution time: ";
        let k = o.windows(m.len()).rposition(|w| w == m)?;
        o = &o[..k];
    }
    if o.last() == Some(&b'\n') {
        Some(&o[..o.len() - 1])
    } else {
        None
    }
}
fn masked(out: &[u8]) -> Vec<u8> {
    let m = b"\n-- Execution time: ";
    match out.windows(m.len()).rposition(|w| w == m) {
        Some(k) => out[..k + m.len()].to_vec(),
        None => out.to_vec(),
    }
}
fn fault_on(r: &RunResult, ph: usize, f: impl Fn(&Fired) -> bool) -> bool {
    r.fired.iter().any(|x| x.phase == ph && f(x))
}
fn ok0(p: &ProcOut) -> bool {
    p.exit == Exit::Code(0)
}
fn success_means_effect(c: &mut Ctx, sc: &Scenario, r: &RunResult, ph: usize, k: usize) -> Option<String> {
    let p = &r.procs[ph][k];
    if !ok0(p) {
        return None;
    }
    let q = cmd(&sc.phases[ph].procs[k]);
    let set = set_of(sc, &q);
    let Some(src) = initial(sc, &q.path) else { return Some(format!("exit 0 although {} cannot be read", q.path)) };
    if q.cfg.as_ref().is_some_and(|g| initial(sc, g).is_none()) {
        return Some("exit 0 although the named configuration does not exist".into());
    }
    if sc.par.contains_key("refuse") {
        return Some("exit 0 although the named configuration is malformed".into());
    }
    let Some(f) = c.fmt(&src, set) else { return Some("exit 0 although the text cannot be formatted".into()) };
    match q.mode {
        Mode::Dry => {
            if dry_text(p, q.time) != Some(&f[..]) {
                return Some(format!("exit 0, but standard output ({} bytes) is not the complete formatted text ({} bytes): ...{:?}", p.out.len(), f.len(), tail(&p.out)));
            }
        }
        Mode::Write => {
            let now = r.vfs.content(&q.path);
            if now.as_ref() != Some(&f) {
                return Some(format!("-w exits 0, but {} holds {} instead of its formatted text ({} bytes)", q.path, show(now.as_ref()), f.len()));
            }
        }
        Mode::Check => {
            if src != f {
                return Some(format!("--check exits 0, but {} differs from its formatted text", q.path));
            }
        }
    }
    if let Some(m) = c.flaw(&src, set) {
        return Some(format!("exit 0, but the formatted text is not the program: {}", m));
    }
    None
}

pub fn judge(c: &mut Ctx, id: &str, sc: &Scenario, r: &RunResult, al: Option<&BTreeMap<String, Vec<Bytes>>>) -> Option<String> {
    if let Some(s) = &r.stuck {
        return Some(format!("never completes: {}", s));
    }
    match id {
        "C01" => {
            if let Some(m) = &r.probe_fail {
                return Some(m.clone());
            }
            if let Some(m) = history_ok(r, al?) {
                return Some(m);
            }
            let set = set_of(sc, &cmd(&sc.phases[0].procs[0]));
            for (p, v) in al? {
                if v.len() > 1 {
                    if let Some(m) = c.flaw(&v[0], set) {
                        return Some(format!("the formatted text of {} lost something: {}", p, m));
                    }
                }
            }
            None
        }
        "C02" => {
            let p = &r.procs[0][0];
            if let Some(m) = success_means_effect(c, sc, r, 0, 0) {
                return Some(m);
            }
            let q = cmd(&sc.phases[0].procs[0]);
            let quiet = !r.errors();
            if !ok0(p) {
                let errout = fault_on(r, 0, |f| f.path == "<stderr>" && f.op == Op::WRITE && matches!(f.act, Act::Errno(_))) || fault_on(r, 0, |f| f.path == "<std2>");
                if p.err.is_empty() && !errout {
                    return Some(format!("{:?} without any message on standard error", p.exit));
                }
            }
            if quiet {
                let readable = sc.files.iter().find(|f| f.path == q.path || matches!(f.node, Node::File(_)) && !f.path.starts_with("/cfg")).is_some_and(|f| f.mode & 0o400 != 0);
                let writable = sc.files.iter().all(|f| f.mode & 0o200 != 0);
                let src = initial(sc, &q.path);
                let cfg_ok = q.cfg.as_ref().is_none_or(|g| initial(sc, g).is_some()) && !sc.par.contains_key("refuse");
                let f = match (&src, cfg_ok && readable) {
                    (Some(s), true) => c.fmt(s, set_of(sc, &q)),
                    _ => None,
                };
                let want = match (&f, q.mode) {
                    (None, _) => Some(false),
                    (Some(f), Mode::Check) => Some(Some(f) == src.as_ref()),
                    (Some(_), Mode::Write) if !writable => None,
                    (Some(_), _) => Some(true),
                };
                if let Some(w) = want {
                    if w != ok0(p) {
                        return Some(format!("undisturbed {:?} ends with {:?}: {}", q.mode, p.exit, tail(&p.err)));
                    }
                }
            }
            None
        }
        "C03" => {
            let clean = c.run(sc, None, &[], None, false);
            let (a, b) = (&clean.procs[0][0], &r.procs[0][0]);
            if a.exit != b.exit {
                return Some(format!("undisturbed run ends with {:?}, this one with {:?}: {}", a.exit, b.exit, tail(&b.err)));
            }
            if masked(&a.out) != masked(&b.out) {
                return Some(format!("standard output differs from the undisturbed run ({} bytes against {})", b.out.len(), a.out.len()));
            }
            if a.err != b.err {
                return Some(format!("standard error differs from the undisturbed run: {:?} against {:?}", tail(&b.err), tail(&a.err)));
            }
            for p in &sc.watch {
                if clean.vfs.content(p) != r.vfs.content(p) {
                    return Some(format!("{} differs from the undisturbed run: {} against {}", p, show(r.vfs.content(p).as_ref()), show(clean.vfs.content(p).as_ref())));
                }
            }
            let (x, y): (Vec<_>, Vec<_>) = (clean.vfs.names.keys().collect(), r.vfs.names.keys().collect());
            if x != y {
                return Some("the set of files differs from the undisturbed run".into());
            }
            None
        }
        "C04" => {
            let q = cmd(&sc.phases[0].procs[0]);
            let (a, b) = (&r.trees[0], &r.trees[1]);
            let real = crate_real(sc, &q.path);
            if let Some(e) = r.escapes.first() {
                return Some(format!("the command tried to reach outside: {}", e));
            }
            for (p, x) in a {
                let Some(y) = b.get(p) else { return Some(format!("{} disappeared", p)) };
                let target = q.mode == Mode::Write && *p == real;
                if x.0 != y.0 {
                    return Some(format!("{} changed its type", p));
                }
                if x.1 != y.1 {
                    return Some(format!("{} changed its permissions from {:o} to {:o}", p, x.1 & 0o7777, y.1 & 0o7777));
                }
                if !target && (x.2 != y.2 || x.3 != y.3 || x.4 != y.4) {
                    return Some(format!("{} was {}", p, if x.2 != y.2 { "changed" } else { "rewritten or replaced" }));
                }
            }
            let cleanup_failed = fault_on(r, 0, |f| f.op == Op::UNLINK);
            if !cleanup_failed {
                for p in b.keys() {
                    if !a.contains_key(p) {
                        return Some(format!("{} was left behind", p));
                    }
                }
            }
            None
        }
        "C05" => judge_c05(c, sc, r),
        "C06" | "C07" => judge_batches(c, id, sc, r),
        "C08" => judge_c08(c, sc, r),
        "C09" => {
            if let Some(m) = history_ok(r, al?) {
                return Some(m);
            }
            let n = sc.phases.len();
            let path = &sc.watch[0];
            let src = initial(sc, path)?;
            let q = cmd(&sc.phases[n - 3].procs[0]);
            let f = c.fmt(&src, set_of(sc, &q))?;
            let at = |ph: usize| -> Option<Bytes> {
                let s = r.phase_steps[ph];
                versions(r, path, s, s).last().and_then(|v| v.cloned())
            };
            if !ok0(&r.procs[n - 3][0]) {
                return Some(format!("an undisturbed -w after the history fails: {:?} {}", r.procs[n - 3][0].exit, tail(&r.procs[n - 3][0].err)));
            }
            if at(n - 2).as_ref() != Some(&f) {
                return Some(format!("after the history, -w leaves {} instead of the text a single -w produces ({} bytes)", show(at(n - 2).as_ref()), f.len()));
            }
            if !ok0(&r.procs[n - 2][0]) {
                return Some(format!("--check after a successful -w ends with {:?}: {}", r.procs[n - 2][0].exit, tail(&r.procs[n - 2][0].err)));
            }
            if !ok0(&r.procs[n - 1][0]) || r.vfs.content(path).as_ref() != Some(&f) {
                return Some(format!("a further -w changed the file: {}", show(r.vfs.content(path).as_ref())));
            }
            None
        }
        "C10" => judge_c10(c, sc, r),
        "C11" => judge_c11(c, sc, r),
        "C15" => judge_c15(sc, r),
        "C12" => {
            if sc.kind == "batch-exhaustion" {
                return judge_batches(c, id, sc, r);
            }
            if let Some(m) = success_means_effect(c, sc, r, 0, 0) {
                return Some(m);
            }
            if let Some(m) = history_ok(r, al?) {
                return Some(m);
            }
            if r.procs[0][0].exit == Exit::Unfinished {
                return Some("the command did not end".into());
            }
            None
        }
        _ => None,
    }
}
/// The name behind any symbolic links.
fn crate_real(sc: &Scenario, path: &str) -> String {
    let mut p = path.to_string();
    for _ in 0..5 {
        match sc.files.iter().find(|f| f.path == p).map(|f| &f.node) {
            Some(Node::Symlink(t)) => p = normalize(&crate::vfs::parent(&p), t),
            _ => break,
        }
    }
    p
}

fn judge_c05(c: &mut Ctx, sc: &Scenario, r: &RunResult) -> Option<String> {
    let set = Set { w: sc.par.get("w")?.parse().ok()?, i: sc.par.get("i")?.parse().ok()? };
    let src = match sc.files.first().map(|f| &f.node) {
        Some(Node::File(b)) => b.clone(),
        _ => return None,
    };
    let f = c.fmt(&src, set);
    for (ph, phase) in sc.phases.iter().enumerate() {
        let p = &r.procs[ph][0];
        if phase.procs[0].bin == 0 {
            let q = cmd(&phase.procs[0]);
            let got: Option<Bytes> = if ok0(p) {
                match q.mode {
                    Mode::Dry => dry_text(p, q.time).map(|b| Rc::new(b.to_vec())),
                    _ => r.vfs.content(&q.path),
                }
            } else {
                None
            };
            if got != f {
                return Some(format!("variant {} ({:?} {}): {} instead of {}", ph, q.mode, q.path, describe(&got), describe(&f)));
            }
        } else {
            for k in sc.par.get(&format!("calls{}", ph))?.split(',') {
                let (n, at) = k.split_once(':')?;
                let got = match calls(r, n) {
                    Some(Call::Results(v)) => v.get(at.parse::<usize>().ok()?).cloned().and_then(|x| x.ok()).map(Rc::new),
                    _ => None,
                };
                if got != f {
                    return Some(format!("variant {} (library call {}): {} instead of {}", ph, n, describe(&got), describe(&f)));
                }
            }
        }
    }
    None
}
fn describe(b: &Option<Bytes>) -> String {
    match b {
        None => "failure".into(),
        Some(b) => format!("a text of {} bytes (#{:x})", b.len(), hash_bytes(b) & 0xffffff),
    }
}

fn judge_batches(c: &mut Ctx, id: &str, sc: &Scenario, r: &RunResult) -> Option<String> {
    let script = initial(sc, "/drv/script")?;
    let p = &r.procs[0][0];
    let exhausted = sc.phases[0].procs[0].fail_alloc.is_some() || sc.phases[0].procs[0].max_threads.is_some() || sc.phases[0].procs[0].max_fds.is_some();
    if !exhausted && !ok0(p) {
        return Some(format!("the calling process ended with {:?}: {}", p.exit, tail(&p.err)));
    }
    let mut put: BTreeMap<String, Bytes> = BTreeMap::new();
    for line in std::str::from_utf8(&script).ok()?.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        if f[0] == "join" {
            continue;
        }
        if f[0] == "put" {
            put.insert(f[2].into(), initial(sc, f[1])?);
            continue;
        }
        let now = |p: &str| put.get(p).cloned().or_else(|| initial(sc, p));
        let n: usize = f[1].parse().ok()?;
        let got = calls(r, &n.to_string());
        if got.is_none() && exhausted {
            continue; // ended loudly before or during this call
        }
        let Some(got) = got else { return Some(format!("call {} never returned", n)) };
        if exhausted && matches!(got, Call::Panic | Call::Config(_)) {
            continue;
        }
        let set = match f[2] {
            "-" => DEFAULT,
            g => match now(g).and_then(|b| parse_toml(&b)) {
                Some(s) => s,
                None => {
                    if !matches!(got, Call::Config(_)) {
                        return Some(format!("call {} with an unusable configuration: {:?}", n, got));
                    }
                    continue;
                }
            },
        };
        let Call::Results(v) = got else { return Some(format!("call {}: {:?}", n, got)) };
        let files = &f[3..];
        if v.len() != files.len() {
            return Some(format!("call {}: {} files, {} results", n, files.len(), v.len()));
        }
        let mut wrong = None;
        for (k, path) in files.iter().enumerate() {
            let readable = put.contains_key(*path) || sc.files.iter().find(|x| x.path == *path).is_some_and(|x| x.mode & 0o400 != 0);
            let want = if readable { now(path).and_then(|s| c.fmt(&s, set)) } else { None };
            let excused = exhausted || fault_on(r, 0, |x| x.path == *path && matches!(x.act, Act::Errno(_)));
            let bad = match (&v[k], &want) {
                (Ok(t), Some(w)) => t != &**w,
                (Ok(_), None) => true,
                (Err(_), Some(_)) => !excused,
                (Err(_), None) => false,
            };
            if let (Ok(_), Some(src)) = (&v[k], now(path)) {
                if let Some(m) = c.flaw(&src, set) {
                    return Some(format!("call {}, result {} ({}): a success, but {}", n, k, path, m));
                }
            }
            if bad && wrong.is_none() {
                wrong = Some((k, path.to_string(), want));
            }
        }
        if let Some((k, path, want)) = wrong {
            if id == "C07" {
                // containment does not depend on the order of the results
                let mut a: Vec<Option<Vec<u8>>> = v.iter().map(|x| x.clone().ok()).collect();
                let mut b: Vec<Option<Vec<u8>>> = vec![];
                for path in files {
                    let readable = put.contains_key(*path) || sc.files.iter().find(|x| x.path == *path).is_some_and(|x| x.mode & 0o400 != 0);
                    let want = if readable { now(path).and_then(|s| c.fmt(&s, set)) } else { None };
                    b.push(want.map(|w| (*w).clone()));
                }
                a.sort();
                b.sort();
                if a == b {
                    continue;
                }
                // results missing because of injected read errors are excused
                if fault_on(r, 0, |x| matches!(x.act, Act::Errno(_))) && a.iter().flatten().all(|t| b.iter().flatten().any(|w| w == t)) {
                    let missing: Vec<&str> = files.iter().filter(|p| fault_on(r, 0, |x| x.path == **p && matches!(x.act, Act::Errno(_)))).copied().collect();
                    let na = a.iter().filter(|x| x.is_none()).count();
                    let nb = b.iter().filter(|x| x.is_none()).count();
                    if na <= nb + missing.len() {
                        continue;
                    }
                }
            }
            return Some(format!(
                "call {}, result {} ({}): {} instead of {}",
                n,
                k,
                path,
                match &v[k] {
                    Ok(t) => format!("a text of {} bytes (#{:x})", t.len(), hash_bytes(t) & 0xffffff),
                    Err(e) => format!("error {:?}", e),
                },
                describe(&want)
            ));
        }
    }
    None
}

fn judge_c08(c: &mut Ctx, sc: &Scenario, r: &RunResult) -> Option<String> {
    let p = &r.procs[0][0];
    let q = cmd(&sc.phases[0].procs[0]);
    let set = set_of(sc, &q);
    let vs: Vec<Option<Bytes>> = versions(r, &q.path, p.start, p.end).into_iter().map(|v| v.cloned()).collect();
    let mut some_ok = false;
    let mut some_bad = false;
    for v in &vs {
        let good = match v {
            None => false,
            Some(b) => c.fmt(b, set).as_ref() == Some(b),
        };
        some_ok |= good;
        some_bad |= !good;
    }
    let vs_n = vs.len();
    if ok0(p) && !some_ok {
        return Some(format!("--check exits 0, but none of the {} version(s) the file had equals its formatted text", vs_n));
    }
    if !ok0(p) && !some_bad && !r.fired.iter().any(|f| f.phase == 0 && matches!(f.act, Act::Errno(_))) {
        return Some(format!("--check ends with {:?}, but every version the file had ({}) equals its formatted text: {}", p.exit, vs_n, tail(&p.err)));
    }
    let stdout_failed = fault_on(r, 0, |f| f.path == "<stdout>" && matches!(f.act, Act::Errno(_)));
    if !ok0(p) && !stdout_failed && String::from_utf8_lossy(&p.out).contains("already formatted") {
        return Some("--check fails and yet prints 'already formatted'".into());
    }
    if sc.kind == "check-then-write" && sc.phases.len() == 2 {
        let before = initial(sc, &q.path);
        let after = r.vfs.content(&q.path);
        let w = ok0(&r.procs[1][0]);
        if ok0(p) != (w && before == after) {
            return Some(format!("--check ends with {:?}, while -w ends with {:?} and {} the file", p.exit, r.procs[1][0].exit, if before == after { "keeps" } else { "changes" }));
        }
    }
    None
}

fn judge_c10(c: &mut Ctx, sc: &Scenario, r: &RunResult) -> Option<String> {
    let mut sets = vec![];
    for p in &sc.phases[0].procs {
        let s = set_of(sc, &cmd(p));
        if !sets.contains(&s) {
            sets.push(s);
        }
    }
    // every text the file may legitimately hold: saved versions, and what formatting makes of them
    let mut legal: BTreeMap<String, Vec<Bytes>> = BTreeMap::new();
    for path in &sc.watch {
        let mut v: Vec<Bytes> = initial(sc, path).into_iter().collect();
        for e in &sc.phases[0].editors {
            for s in e {
                if s.path == *path {
                    if let Node::File(b) = &s.node {
                        v.push(b.clone());
                    }
                }
            }
        }
        let mut i = 0;
        let mut depth: Vec<usize> = vec![0; v.len()];
        while i < v.len() {
            if depth[i] < 4 {
                for s in &sets {
                    let b = v[i].clone();
                    if let Some(f) = c.fmt(&b, *s) {
                        if !v.contains(&f) {
                            v.push(f);
                            depth.push(depth[i] + 1);
                        }
                    }
                }
            }
            i += 1;
        }
        legal.insert(path.clone(), v);
    }
    for (path, v) in &legal {
        for h in r.history.get(path).map(|h| h.as_slice()).unwrap_or(&[]) {
            if !h.data.as_ref().is_some_and(|d| v.iter().any(|o| o == d)) {
                return Some(format!("at step {} {} holds {}, which is neither a saved version nor the formatted text of one", h.step, path, show(h.data.as_ref())));
            }
        }
    }
    for (k, p) in r.procs[0].iter().enumerate() {
        let q = cmd(&sc.phases[0].procs[k]);
        if !ok0(p) {
            continue;
        }
        let real = crate_real(sc, &q.path);
        let set = set_of(sc, &q);
        let vs: Vec<Bytes> = versions(r, &real, p.start, p.end).into_iter().flatten().cloned().collect();
        match q.mode {
            Mode::Dry => {
                let t = dry_text(p, q.time).map(|b| b.to_vec());
                let hit = vs.iter().any(|v| c.fmt(v, set).map(|f| (*f).clone()) == t);
                if !hit {
                    return Some(format!("dry run p{} exits 0 and prints {} bytes that are not the formatted text of any of the {} version(s) {} had meanwhile", k, p.out.len(), vs.len(), real));
                }
            }
            Mode::Check => {
                if !vs.iter().any(|v| c.fmt(v, set).as_ref() == Some(v)) {
                    return Some(format!("--check p{} exits 0 although no version of {} was formatted", k, real));
                }
            }
            Mode::Write => {
                let hit = vs.iter().any(|v| {
                    let f = c.fmt(v, set);
                    f.is_some() && vs.iter().any(|w| Some(w) == f.as_ref())
                });
                if !hit {
                    return Some(format!("-w p{} exits 0, but {} never held the formatted text of a version it had", k, real));
                }
            }
        }
    }
    None
}

fn judge_c11(c: &mut Ctx, sc: &Scenario, r: &RunResult) -> Option<String> {
    let p = &r.procs[0][0];
    let q = cmd(&sc.phases[0].procs[0]);
    let src = initial(sc, &q.path)?;
    // versions of the configuration: the initial one, then the editor's saves; which of them existed before the end?
    let meaning: Vec<Option<Set>> = sc.par.get("meaning")?.split(',').map(dec).collect();
    let now = r.vfs.content(&q.path);
    if let (Some(x), Some(y)) = (sc.par.get("x"), sc.par.get("y")) {
        let s = meaning[0]?;
        let want = ruled(s, x.parse().ok()?, y.parse().ok()?);
        let got = match q.mode {
            _ if !ok0(p) => None,
            Mode::Dry => dry_text(p, q.time).map(|t| t.to_vec()),
            _ => now.map(|b| (*b).clone()),
        };
        return match got {
            None => Some(format!("a usable configuration is refused: {:?} {}", p.exit, tail(&p.err))),
            // where there is no room, the indentation is still the one that was asked for
            Some(t) if want.is_none() => {
                let t = String::from_utf8_lossy(&t);
                let l: Vec<&str> = t.lines().collect();
                let pad = " ".repeat(s.i as usize);
                let fits = l.len() > 5 && l[1].strip_prefix(&pad).map_or(false, |x| x.starts_with("void")) && l[l.len() - 2] == format!("{}}}", pad);
                (!fits).then(|| format!("the indentation of {} is not honoured: {:?}", s.i, t))
            }
            Some(t) if want.as_ref().map(|w| w.as_bytes()) == Some(&t[..]) => None,
            Some(t) => Some(format!("the settings {} are not honoured: {:?} instead of {:?}", sc.par.get("meaning")?, String::from_utf8_lossy(&t), want.unwrap_or_default())),
        };
    }
    if !ok0(p) {
        if q.mode == Mode::Write && now.as_ref() != Some(&src) {
            return Some("the command fails but the file changed".into());
        }
        let clean = !r.fired.iter().any(|f| matches!(f.act, Act::Errno(_)));
        if clean && meaning.iter().all(|m| m.is_some()) {
            // every version is usable
            let mut all_fail = false;
            for m in meaning.iter().flatten() {
                let f = c.fmt(&src, *m);
                all_fail |= match q.mode {
                    Mode::Check => f.as_ref() != Some(&src),
                    _ => f.is_none(),
                };
            }
            if !all_fail {
                return Some(format!("a usable configuration is refused: {:?} {}", p.exit, tail(&p.err)));
            }
        }
        return None;
    }
    let mut ok = false;
    for m in meaning.iter().flatten() {
        let Some(f) = c.fmt(&src, *m) else { continue };
        ok |= match q.mode {
            Mode::Dry => dry_text(p, q.time) == Some(&f[..]),
            Mode::Write => now.as_ref() == Some(&f),
            Mode::Check => f == src,
        };
    }
    if !ok {
        let was_default = c.fmt(&src, DEFAULT).is_some_and(|f| match q.mode {
            Mode::Dry => dry_text(p, q.time) == Some(&f[..]),
            Mode::Write => now.as_ref() == Some(&f),
            Mode::Check => f == src,
        });
        return Some(format!("exit 0, but the result is not that of the named configuration (meaning {}){}", sc.par.get("meaning")?, if was_default { "; it is that of the defaults" } else { "" }));
    }
    None
}

/// The scenario of a listed finding: this text, with nothing disturbed.
pub fn finding(id: &str, src: Bytes) -> Scenario {
    match id {
        "C07" => {
            let mut sc = Scenario { kind: "batch".into(), ..Default::default() };
            sc.files = vec![file("/b/deep.cls", src), file("/b/small.cls", text("class A { Integer  x; }")), file("/drv/script", text("batch\t0\t-\t/b/deep.cls\t/b/small.cls\njoin\n"))];
            sc.phases.push(Phase { procs: vec![proc_default(1, sargs(&["driver"]), "/b")], ..Default::default() });
            sc
        }
        _ => {
            let mut sc = Scenario { kind: "crash-history".into(), files: vec![file("/w/A.cls", src)], watch: vec!["/w/A.cls".into()], ..Default::default() };
            for m in ["-w", "--check", "-w"] {
                sc.phases.push(Phase { procs: vec![proc_default(0, sargs(&["afmt", m, "A.cls"]), "/w")], ..Default::default() });
            }
            sc.par.insert("faulty".into(), "0".into());
            sc
        }
    }
}
