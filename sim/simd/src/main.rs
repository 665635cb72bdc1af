mod apex;
mod check;
mod ctx;
mod gen;
mod grammar;
mod host;
mod oracle;
mod props;
mod proto;
mod rng;
mod vfs;
mod world;
use ctx::*;
use std::rc::Rc;

fn paths() -> Paths {
    let root = std::env::var("SIM_BUILD").unwrap_or("/verif/.build".into());
    Paths { shim: format!("{}/shim.so", root), afmt: format!("{}/bin/afmt", root), driver: format!("{}/bin/driver", root), corpus: std::env::var("SIM_CORPUS").unwrap_or("/verif/corpus/good".into()) }
}

fn audit(files: &[String]) {
    let n = 8;
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let files = files.to_vec();
            std::thread::spawn(move || {
                let mut c = Ctx::new(&paths(), k);
                for f in files.iter().skip(k).step_by(n) {
                    let src = Rc::new(std::fs::read(f).unwrap());
                    let mut bad = vec![];
                    let mut ok = 0;
                    for w in [20, 30, 40, 60, 72, 80, 100, 120, 160, 200, 500] {
                        for i in [1, 2, 3, 4, 8] {
                            let s = Set { w, i };
                            match c.fmt(&src, s) {
                                None => bad.push(format!("{}x{} fails", w, i)),
                                Some(t) => {
                                    if let Some(m) = oracle::lost(&src, &t) {
                                        bad.push(format!("{}x{} {}", w, i, m));
                                    } else if c.fmt(&t, s).as_ref() != Some(&t) {
                                        bad.push(format!("{}x{} not idempotent", w, i));
                                    } else {
                                        ok += 1;
                                    }
                                }
                            }
                        }
                    }
                    if bad.is_empty() {
                        println!("OK {} {}", f, src.len());
                    } else {
                        println!("BAD {} {} ok={} bad={} {}", f, src.len(), ok, bad.len(), bad[0]);
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}

/// Generated programs: accepted, complete, settled?  What is not is kept in `dir` (for development).
fn apex_audit(seed: u64, n: u64, dir: &str, kind: &str) {
    let (comments, grammar, pumped) = (kind != "plain", kind.starts_with("grammar"), kind == "pumped");
    let bare = kind == "grammar";
    let hs: Vec<_> = (0..8u64)
        .map(|k| {
            let dir = dir.to_string();
            std::thread::spawn(move || {
                let mut c = Ctx::new(&paths(), k as usize);
                let mut v = [0u64; 5];
                for i in (k..n).step_by(8) {
                    let mut r = rng::Rng::new(rng::mix(seed ^ 77) ^ i.wrapping_mul(0x9E3779B97F4A7C15));
                    let size = *r.pick(&[60, 200, 600, 2000]);
                    let mut t = std::rc::Rc::new(if pumped { let n = r.range(2, 8) as usize; grammar::pumped(&mut r, n).0 } else if grammar { grammar::program(&mut r, size / 3) } else { apex::program(&mut r, size, 10, comments) }.into_bytes());
                    if !comments || grammar && !bare {
                        t = gen::sprinkle(&mut r, &t, 10);
                    }
                    let set = gen::settings(&mut r);
                    if std::env::var_os("KEEP_ALL").is_some() {
                        std::fs::write(format!("{}/all-{}.cls", dir, i), &*t).ok();
                    }
                    let keep = |what: &str, n: usize, v: &mut [u64; 5]| {
                        v[n] += 1;
                        std::fs::write(format!("{}/{}-{}-w{}i{}.cls", dir, what, i, set.w, set.i), &*t).ok();
                    };
                    match c.fmt(&t, set) {
                        None => keep("refused", 1, &mut v),
                        Some(f) => {
                            v[0] += 1;
                            if let Some(m) = oracle::lost(&t, &f) {
                                keep("lost", 2, &mut v);
                                println!("{}: {}", i, m);
                            } else if c.fmt(&f, set).is_none() {
                                keep("broken", 4, &mut v);
                            } else if c.fmt(&f, set).as_ref() != Some(&f) {
                                keep("unsettled", 3, &mut v);
                            }
                        }
                    }
                }
                v
            })
        })
        .collect();
    let mut t = [0u64; 5];
    for h in hs {
        for (a, b) in t.iter_mut().zip(h.join().unwrap()) {
            *a += b;
        }
    }
    println!("{} formatted, {} refused, {} lost, {} unsettled, {} not accepted again", t[0], t[1], t[2], t[3], t[4]);
}

fn first_diff(a: &[String], b: &[String]) -> String {
    let Some(k) = (0..a.len().max(b.len())).find(|&k| a.get(k) != b.get(k)) else { return String::new() };
    let mut s = String::from("\n");
    for l in &a[k.saturating_sub(8).min(a.len())..(k + 6).min(a.len())] {
        s.push_str(&format!("  A {}\n", l));
    }
    for l in &b[k.saturating_sub(2).min(b.len())..(k + 6).min(b.len())] {
        s.push_str(&format!("  B {}\n", l));
    }
    s
}
/// Is a run a function of its seed, and is its recorded trace enough to reproduce it?
fn selftest(master: u64, only: &str, n: u64) -> i32 {
    let hs: Vec<_> = (0..8u64)
        .map(|k| {
            let only = only.to_string();
            std::thread::spawn(move || {
                let mut a = Ctx::new(&paths(), k as usize);
                let mut b = Ctx::new(&paths(), k as usize);
                let mut bad = vec![];
                for id in props::IDS.iter().filter(|i| only.is_empty() || only == "all" || **i == only) {
                    for i in (k..n).step_by(8) {
                        let s = check::seed_of(master, id, i);
                        let x = check::draw(&mut a, id, s, true);
                        if i % 3 == 0 {
                            // a different history in the other context
                            check::draw(&mut b, id, s ^ 1, false);
                        }
                        let y = check::draw(&mut b, id, s, true);
                        if x.r.log_hash != y.r.log_hash || x.violation != y.violation {
                            bad.push(format!("{} run {}: two executions of one seed differ{}", id, i, first_diff(&x.r.log, &y.r.log)));
                        }
                        let (z, v) = check::again(&mut a, id, &x.sc, &x.r.ovs, true);
                        if z.log_hash != x.r.log_hash || v != x.violation {
                            bad.push(format!("{} run {}: the recorded trace does not reproduce the run{}", id, i, first_diff(&x.r.log, &z.log)));
                        }
                    }
                }
                bad
            })
        })
        .collect();
    let mut bad = vec![];
    for h in hs {
        bad.extend(h.join().unwrap());
    }
    for b in &bad {
        println!("{}", b);
    }
    println!("selftest: {} problems", bad.len());
    (!bad.is_empty()) as i32
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match arg(1).as_str() {
        "check" => {
            if !props::IDS.contains(&arg(2).as_str()) {
                host::harness("unknown property");
            }
            let only = arg(4).parse().ok().map(|f| (f, arg(5).parse().unwrap_or(1)));
            check::check(&paths(), &arg(2), &arg(3), seed, only)
        }
        "replay" => check::replay(&paths(), &arg(2)),
        "run" => {
            // one seeded run, traced
            let mut c = Ctx::new(&paths(), 0);
            let s = check::seed_of(seed, &arg(2), arg(3).parse().unwrap_or(0));
            let d = check::draw(&mut c, &arg(2), s, true);
            for l in &d.r.log {
                println!("{}", l);
            }
            println!("{}", serde_json::to_string(&d.sc).unwrap());
            for (p, t) in d.r.vfs.tree() {
                if p.starts_with("/drv/out") {
                    println!("{}: {}", p, String::from_utf8_lossy(&t.2));
                }
            }
            println!("hash {:#x} {:?} {:?}", d.r.log_hash, d.r.procs.iter().flatten().map(|p| &p.exit).collect::<Vec<_>>(), d.violation);
            0
        }
        "diff" => {
            let mut c = Ctx::new(&paths(), 0);
            let s = check::seed_of(seed, &arg(2), arg(3).parse().unwrap_or(0));
            let x = check::draw(&mut c, &arg(2), s, true);
            let (y, _) = if arg(4) == "seed" { let d = check::draw(&mut c, &arg(2), s, true); (d.r, None) } else { check::again(&mut c, &arg(2), &x.sc, &x.r.ovs, true) };
            if let Some(k) = (0..x.r.log.len().max(y.log.len())).find(|&k| x.r.log.get(k) != y.log.get(k)) {
                for l in &x.r.log[k.saturating_sub(6)..(k + 3).min(x.r.log.len())] {
                    println!("A {}", l);
                }
                for l in &y.log[k.saturating_sub(3).min(y.log.len())..(k + 3).min(y.log.len())] {
                    println!("B {}", l);
                }
                for (n, o) in x.r.ovs.iter().enumerate().filter(|(n, o)| y.ovs.get(*n) != Some(o)).take(4) {
                    println!("override {} {:?} / {:?}", n, o, y.ovs.get(n));
                }
            }
            println!("{:#x} {:#x} preempt {} ovs {} {}", x.r.log_hash, y.log_hash, x.sc.preempt, x.r.ovs.len(), y.ovs.len());
            0
        }
        "record" => {
            // replay files of listed findings
            let src = std::rc::Rc::new(std::fs::read(arg(3)).unwrap_or_else(|_| host::harness("cannot read the source text")));
            let sc = props::finding(&arg(2), src);
            check::record(&paths(), &arg(2), sc, &arg(4));
            0
        }
        "apex" => {
            apex_audit(seed, arg(2).parse().unwrap_or(1000), &arg(3), &arg(4));
            0
        }
        "selftest" => selftest(seed, &arg(2), arg(3).parse().unwrap_or(200)),
        "audit" => {
            audit(&a[2..]);
            0
        }
        _ => host::harness("usage: simd check ID TIER | replay FILE | run ID INDEX | audit FILES"),
    };
    std::process::exit(code);
}
