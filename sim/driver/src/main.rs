// A library user: reads a script of calls from /drv/script, makes them, and writes every result to /drv/out.<n>.
// Line format (fields separated by tabs):
//   batch <n> <config path or -> <file>...     one call, on this thread
//   fork  <n> <config path or -> <file>...     the same, on a caller thread of its own; joined by the next "join"
//   join
//   put   <staged file> <path>                 replace a file atomically
use sf_afmt::formatter::Formatter;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::thread;

fn call(f: &[String]) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let cfg = if f[2] == "-" { None } else { Some(f[2].as_str()) };
        match Formatter::create_from_config(cfg, f[3..].to_vec()) {
            Ok(fm) => Ok(sf_afmt::format(fm)),
            Err(e) => Err(e),
        }
    }));
    let mut out: Vec<u8> = vec![];
    let mut put = |k: &str, s: &str| {
        out.extend_from_slice(format!("{} {}\n", k, s.len()).as_bytes());
        out.extend_from_slice(s.as_bytes());
        out.push(b'\n');
    };
    match r {
        Err(_) => put("P", ""),
        Ok(Err(e)) => put("C", &e),
        Ok(Ok(v)) => {
            for x in v {
                match x {
                    Ok(s) => put("O", &s),
                    Err(e) => put("E", &e),
                }
            }
        }
    }
    out.extend_from_slice(b".\n");
    fs::write(format!("/drv/out.{}", f[1]), out).expect("driver output");
}

fn main() {
    let script = fs::read_to_string(std::env::args().nth(1).unwrap_or("/drv/script".into())).expect("driver script");
    let mut kids = vec![];
    for l in script.lines() {
        let f: Vec<String> = l.split('\t').map(String::from).collect();
        match f[0].as_str() {
            "batch" => call(&f),
            "fork" => kids.push(thread::spawn(move || call(&f))),
            "join" => {
                for k in kids.drain(..) {
                    k.join().expect("driver thread");
                }
            }
            // somebody saves a file between two calls
            "put" => fs::rename(&f[1], &f[2]).expect("driver: put"),
            _ => panic!("driver: bad line"),
        }
    }
}
