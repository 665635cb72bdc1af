// Workloads: source texts, configurations, paths, environments.
use crate::ctx::*;
use crate::rng::*;
use crate::world::*;
use std::rc::Rc;

pub const WIDTHS: &[u32] = &[20, 30, 40, 60, 72, 80, 100, 120, 160, 200, 500];
pub const INDENTS: &[u32] = &[1, 2, 3, 4, 8];

pub fn settings(r: &mut Rng) -> Set {
    if r.chance(1, 4) {
        DEFAULT
    } else {
        Set { w: *r.pick(WIDTHS), i: *r.pick(INDENTS) }
    }
}

const MB: &[&str] = &["ä", "é", "ß", "Ж", "日", "本", "€", "𝄞", "😀", "\u{301}", "\u{a0}", "\u{feff}", "ﬁ", "İ"];

fn ident(r: &mut Rng) -> String {
    let a = ["account", "opp", "ctx", "handler", "recordId", "i", "total", "nameMap", "x", "theVeryLongVariableNameOfThisMethod", "svc", "lst"];
    let mut s = r.pick(&a).to_string();
    if r.chance(1, 2) {
        s.push_str(&r.below(100).to_string());
    }
    s
}
fn string_lit(r: &mut Rng, mb: u64) -> String {
    let n = match r.below(5) {
        0 => 0,
        1 | 2 => r.below(12),
        3 => r.below(60),
        _ => r.below(200),
    };
    let mut s = String::from("'");
    for _ in 0..n {
        if r.chance(mb, 100) {
            s.push_str(r.pick::<&str>(MB));
        } else {
            s.push(*r.pick(&['a', 'b', 'Z', ' ', '0', '-', '.', '/', '*', '"', '%', '#', '{', '}']));
        }
    }
    s.push('\'');
    s
}
fn expr(r: &mut Rng, d: u64, mb: u64) -> String {
    match r.below(if d == 0 { 4 } else { 9 }) {
        0 => ident(r),
        1 => r.below(100000).to_string(),
        2 => string_lit(r, mb),
        3 => r.pick(&["true", "null", "this.name", "1.5", "false"]).to_string(),
        4 | 5 => {
            let n = r.below(6);
            let v: Vec<String> = (0..n).map(|_| expr(r, d - 1, mb)).collect();
            format!("{}({})", ident(r), v.join(if r.chance(1, 2) { ", " } else { "," }))
        }
        6 => format!("{} {} {}", expr(r, d - 1, mb), r.pick(&["+", "-", "*"]), expr(r, d - 1, mb)),
        7 => {
            let n = r.range(1, 4);
            let mut s = ident(r);
            for _ in 0..n {
                s.push_str(&format!(".{}({})", ident(r), if r.chance(1, 2) { expr(r, d - 1, mb) } else { String::new() }));
            }
            s
        }
        _ => format!("new List<String>{{ {} }}", (0..r.range(1, 5)).map(|_| expr(r, 0, mb)).collect::<Vec<_>>().join(", ")),
    }
}
fn comment(r: &mut Rng, ind: &str, mb: u64, out: &mut String) {
    let body = string_lit(r, mb).replace(['*', '/', '\''], "x").replace('\u{a0}', " ");
    if r.chance(1, 2) {
        out.push_str(&format!("{}// {}\n", ind, body));
    } else {
        out.push_str(&format!("{}/* {} */\n", ind, body));
    }
}
fn stmt(r: &mut Rng, d: u64, mb: u64, ind: &str, out: &mut String) {
    if r.chance(1, 8) {
        comment(r, ind, mb, out);
    }
    let more = format!("{}{}", ind, r.pick(&["  ", "    ", "\t", ""]));
    match r.below(if d == 0 { 4 } else { 7 }) {
        0 => out.push_str(&format!("{}String {} = {};\n", ind, ident(r), expr(r, 2, mb))),
        1 => out.push_str(&format!("{}{}  =  {} ;\n", ind, ident(r), expr(r, 2, mb))),
        2 => out.push_str(&format!("{}{}({});\n", ind, ident(r), expr(r, 1, mb))),
        3 => out.push_str(&format!("{}return {};\n", ind, expr(r, 1, mb))),
        4 => {
            out.push_str(&format!("{}if ({} == {}) {{\n", ind, ident(r), expr(r, 1, mb)));
            for _ in 0..r.range(1, 3) {
                stmt(r, d - 1, mb, &more, out);
            }
            if r.chance(1, 3) {
                out.push_str(&format!("{}}} else {{\n", ind));
                stmt(r, d - 1, mb, &more, out);
            }
            out.push_str(&format!("{}}}\n", ind));
        }
        5 => {
            out.push_str(&format!("{}for (Integer i=0;i<{};i++) {{\n", ind, r.below(50)));
            for _ in 0..r.range(1, 3) {
                stmt(r, d - 1, mb, &more, out);
            }
            out.push_str(&format!("{}}}\n", ind));
        }
        _ => {
            out.push_str(&format!("{}try {{\n", ind));
            stmt(r, d - 1, mb, &more, out);
            out.push_str(&format!("{}}} catch (Exception e) {{\n", ind));
            stmt(r, d - 1, mb, &more, out);
            out.push_str(&format!("{}}}\n", ind));
        }
    }
}
/// A synthetic class of roughly `size` bytes.
pub fn synth(r: &mut Rng, size: usize, mb: u64) -> String {
    let mut s = String::new();
    s.push_str(&format!("public   class {}{} {{\n", r.pick(&["Alpha", "Beta", "Gamma", "Delta"]), r.below(1000)));
    loop {
        match r.below(4) {
            0 => s.push_str(&format!("  private String {}={};\n", ident(r), string_lit(r, mb))),
            _ => {
                s.push_str(&format!("  public static void {}(String a,Integer b) {{\n", ident(r)));
                for _ in 0..r.range(1, 5) {
                    stmt(r, 2, mb, "    ", &mut s);
                }
                s.push_str("  }\n");
            }
        }
        if r.chance(1, 4) {
            s.push('\n');
        }
        if s.len() >= size {
            break;
        }
    }
    s.push('}');
    if r.chance(1, 2) {
        s.push('\n');
    }
    s
}

fn has_comment(b: &[u8]) -> bool {
    b.windows(2).any(|w| w == b"//" || w == b"/*")
}
/// Re-space a comment-free text (outside string literals): the program is the same, the layout is not.
fn respace(r: &mut Rng, src: &str) -> String {
    let mut out = String::new();
    let crlf = r.chance(1, 4);
    let mut instr = false;
    let mut prev = '\0';
    for c in src.chars() {
        if instr {
            out.push(c);
            if c == '\'' && prev != '\\' {
                instr = false;
            }
            prev = if prev == '\\' && c == '\\' { '\0' } else { c };
            continue;
        }
        prev = c;
        match c {
            '\'' => {
                instr = true;
                out.push(c);
            }
            ' ' if r.chance(1, 6) => out.push_str(r.pick(&["  ", "\t", " \t "])),
            '\n' if crlf => out.push_str("\r\n"),
            '{' | ';' | ',' if r.chance(1, 8) => {
                out.push(c);
                out.push_str(r.pick(&[" ", "  ", "\n", "\t"]));
            }
            _ => out.push(c),
        }
    }
    out
}

/// A source text that afmt formats (checked by the caller through the reference).
pub fn good_source(c: &mut Ctx, r: &mut Rng) -> Bytes {
    for _ in 0..20 {
        let b = candidate(c, r);
        if c.fmt(&b, DEFAULT).is_some() {
            return b;
        }
        c.note("generated text not formattable, redrawn");
    }
    text("class A{}")
}
pub fn corpus_file(c: &Ctx, r: &mut Rng, max: usize) -> Bytes {
    for _ in 0..50 {
        let (_, b) = r.pick(&c.corpus);
        if b.len() <= max {
            return b.clone();
        }
    }
    text("class A { Integer  x; }")
}
/// A text for histories of repeated formatting: an ordinary one, or one with comments at odd places whose formatted text
/// is a fixed point (whether it is for every text is C20, which is not decided here).
pub fn settled_source(c: &mut Ctx, r: &mut Rng, set: Set) -> Bytes {
    if r.chance(1, 5) {
        for _ in 0..4 {
            let b = corpus_file(c, r, 3000);
            let b = sprinkle(r, &b, 10);
            if let Some(f) = c.fmt(&b, set) {
                if c.fmt(&f, set) == Some(f) {
                    return b;
                }
                c.note("text whose formatted text is not a fixed point, redrawn");
            }
        }
    }
    for _ in 0..20 {
        let b = ordinary(c, r);
        if c.fmt(&b, DEFAULT).is_some() {
            return b;
        }
    }
    text("class A{}")
}
fn candidate(c: &mut Ctx, r: &mut Rng) -> Bytes {
    if r.chance(3, 20) {
        let b = if r.chance(1, 3) {
            let size = *r.pick(&[40, 120, 300, 700]);
            Rc::new(crate::apex::program(r, size, 10, false).into_bytes())
        } else {
            corpus_file(c, r, 3000)
        };
        return sprinkle(r, &b, 10);
    }
    ordinary(c, r)
}
/// A program derived from the grammar itself; many of them the formatter refuses.
fn derived(c: &mut Ctx, r: &mut Rng) -> Bytes {
    for _ in 0..4 {
        let size = *r.pick(&[20, 60, 150, 400, 1000]);
        let t = if r.chance(1, 6) {
            let n = r.range(2, 6) as usize;
            crate::grammar::pumped(r, n).0
        } else {
            crate::grammar::program(r, size)
        };
        let t = Rc::new(t.into_bytes());
        if c.fmt(&t, DEFAULT).is_some() {
            return t;
        }
        c.note("text derived from the grammar not formattable, redrawn");
    }
    corpus_file(c, r, 3000)
}
fn ordinary(c: &mut Ctx, r: &mut Rng) -> Bytes {
    match r.below(33) {
        0..=7 => corpus_file(c, r, 3000),
        27.. => derived(c, r),
        20.. => {
            let size = *r.pick(&[40, 120, 300, 700, 1500, 6000]);
            let mb = *r.pick(&[0, 10, 50]);
            let t = Rc::new(crate::apex::program(r, size, mb, true).into_bytes());
            if c.fmt(&t, DEFAULT).is_none() {
                c.note("generated program not formattable, redrawn");
                return corpus_file(c, r, 3000);
            }
            t
        }
        8 => corpus_file(c, r, 200_000),
        9 | 10 => {
            let b = corpus_file(c, r, 4000);
            if has_comment(&b) {
                return b;
            }
            let s = String::from_utf8_lossy(&b).to_string();
            Rc::new(respace(r, &s).into_bytes())
        }
        11..=13 => {
            let n = r.below(1500) as usize;
            let mb = *r.pick(&[0, 0, 20, 90]);
            Rc::new(synth(r, n, mb).into_bytes())
        }
        14 => {
            // straddle the usual buffer sizes
            let n = (*r.pick(&[8192usize, 16384, 32768, 65536]) as i64 + r.below(600) as i64 - 300) as usize;
            let n = if r.chance(1, 3) { n } else { 8192 + r.below(500) as usize };
            let mb = *r.pick(&[0, 30, 95]);
            let mut s = synth(r, n.saturating_sub(400), mb);
            while s.len() < n {
                s.push(*r.pick(&[' ', '\n']));
            }
            Rc::new(s.into_bytes())
        }
        15 | 16 => {
            let n = r.range(2, 5);
            let mut v = vec![];
            for _ in 0..n {
                let b = corpus_file(c, r, 2000);
                if !has_comment(&b) {
                    v.extend_from_slice(&b);
                    v.push(b'\n');
                }
            }
            if v.is_empty() {
                v = b"class Q{}\n".to_vec();
            }
            Rc::new(v)
        }
        _ => {
            let b = corpus_file(c, r, 3000);
            c.fmt(&b, DEFAULT).unwrap_or(b)
        }
    }
}
/// Comments at arbitrary places between tokens: afmt keeps them or refuses the text.
pub fn sprinkle(r: &mut Rng, src: &[u8], mb: u64) -> Bytes {
    let s = String::from_utf8_lossy(src).to_string();
    let spots = crate::oracle::boundaries(&s);
    let mut at: Vec<usize> = (0..r.range(1, 3)).map(|_| *r.pick(&spots)).collect();
    at.sort();
    at.dedup();
    let mut out = s;
    for k in at.into_iter().rev() {
        let body = string_lit(r, mb).replace(['*', '/', '\''], "x").replace('\u{a0}', " ");
        let c = match r.below(5) {
            0 => format!(" /* {} */ ", body),
            1 => format!("/*{}*/", body),
            2 => format!("\n/* {}\n {} */\n", body, body),
            3 => format!("\n// {}\n", body),
            _ => format!(" // {}\n", body),
        };
        out.insert_str(k, &c);
    }
    Rc::new(out.into_bytes())
}
/// Code nested so deeply that a recursive formatter needs much more stack than usual.
pub fn deep(r: &mut Rng) -> Bytes {
    let n = if r.chance(2, 3) { r.range(600, 900) } else { r.range(4100, 9000) } as usize;
    let (a, b, z): (&str, &str, &str) = *r.pick(&[("(", "1", ")"), ("", "a", ".b()"), ("a.f(", "1", ")"), ("new List<A>{", "", "}"), ("", "1", "+1"), ("!", "a", ""), ("a?b:", "c", "")]);
    text(&format!("class D {{ Object x = {}{}{}; }}", a.repeat(n), b, z.repeat(n)))
}
/// The same text twice, the second time with about twice as much of what it is made of: nested constructs, or long lists.
pub fn growing(r: &mut Rng) -> (Bytes, Bytes) {
    const NEST: &[(&str, &str)] = &[
        ("(", ")"), ("f(", ")"), ("longerFunctionName(firstArgument, ", ")"), ("a.b(", ").c()"), ("aaaaaaaaaaaa.bbbbbbbbbbbbbb(cccccccccccccccc, ", ", d).eeeeeeeeeeeeeeee()"), ("new List<A>{", "}"),
        ("new List<Object>{ 1, ", ", 2 }"), ("new Map<String, Object>{ 'key' => ", "}"), ("new Map<String, Object>{ 'k1' => 1, 'another key' => ", ", 'k3' => 3 }"), ("new Account(Name = ", ")"),
        ("new Acct(Name = 'x', Other__c = ", ", Third__c = 3)"), ("a ? b : ", ""), ("a ? (", ") : c"), ("aaaaaaaaaaaaaaaaaaaaa == bbbbbbbbbbbbb ? (", ") : ccccccccccccccccccc"), ("!", ""), ("-(", ")"), ("(String) ", ""),
        ("1 + (", " * 2)"), ("(a && ", " || b)"), ("(aaaaaaaaaaaaaaaaaa && bbbbbbbbbbbbbbbbbbbbb && ", " || cccccccccccccccccccc)"), ("x[", "]"), ("a = ", ""), ("f(/* note */ ", ")"), ("f( // note\n", ")"), ("(a /* one */ + ", ")"),
        ("", ".g()"), ("", ".longerMethodName(withArgument)"), ("", " + x"), ("", " + yyyyyyyyyyyyyyyyyyyy"), ("", " && z"), ("", "[0]"), ("", " instanceof A == b"), ("new A[]{ ", " }"), ("b?.c(", ")"), ("new List<List<A>>(", ")"),
        ("[SELECT Id FROM A WHERE Id IN :f(", ")]"),
    ];
    const BODY: &[(&str, &str)] = &[
        ("if (a) {", "}"), ("if (a) b(); else ", ""), ("if (a) { b(); } else ", ""), ("for (A a : b) {", "}"), ("for (Integer i = 0; i < 9; i++) ", ""), ("while (a) {", "}"), ("do {", "} while (a);"),
        ("try {", "} catch (E e) { c(); } finally { d(); }"), ("try { a(); } catch (E e) {", "}"), ("{", "}"), ("System.runAs(u) {", "}"), ("switch on a { when 1 {", "} when else { b(); } }"), ("// note\nif (a) { // note\n", "/* end */ }"),
    ];
    const LIST: &[&str] = &[
        "x();", "Integer a = 1;", "a = b + c * d;", "// a comment\n", "/* a comment */", "\n\n\n", "x(a, b, c);", "if (a) { b(); }", "return [SELECT Id, Name FROM Account WHERE Name = 'x' ORDER BY Id];", "a.b().c().d();",
        "String s = 'text' + v + 'text';", "List<A> l = new List<A>{ a, b };", "a.b(c /* d */, e); // f\n", "insert a;", "/** doc\n * more\n */", ";",
    ];
    const ITEM: &[&str] = &["a, ", "'a string', ", "f(x), ", "1 + 2, ", "a.b.c, ", "/* c */ d, ", "new A(B = 1), ", "x -> , "];
    const MEMBER: &[&str] = &[
        "Integer x;", "void f() {}", "public String s { get; set; }", "@Test static void f() { g(); }", "// note\n", "class I { Integer y; }", "enum E { A, B, C }", "static { a(); }", "/** doc */ public void f(A a, B b) { return; }", "\n\n",
    ];
    let n = r.range(8, 60) as usize;
    let k = r.range(1, 4) as usize;
    let make = |u: &dyn Fn(usize) -> String| (text(&u(n)), text(&u(2 * n)));
    match r.below(10) {
        7.. => {
            let (a, b) = crate::grammar::pumped(r, n);
            (text(&a), text(&b))
        }
        0..=2 => {
            let v: Vec<(&str, &str)> = (0..k).map(|_| *r.pick(NEST)).collect();
            let s = *r.pick(&["Object v = ", "return ", "f(", "a.b = "]);
            let e = if s == "f(" { ");" } else { ";" };
            let (p, q): (String, String) = (v.iter().map(|x| x.0).collect(), v.iter().rev().map(|x| x.1).collect());
            make(&|n| format!("class A {{ Object f() {{ {}{}z{}{} }} }}", s, p.repeat(n), q.repeat(n), e))
        }
        3 => {
            let v: Vec<(&str, &str)> = (0..k).map(|_| *r.pick(BODY)).collect();
            let (p, q): (String, String) = (v.iter().map(|x| x.0).collect(), v.iter().rev().map(|x| x.1).collect());
            make(&|n| format!("class A {{ void f() {{ {}z();{} }} }}", p.repeat(n), q.repeat(n)))
        }
        4 => {
            let v: String = (0..k).map(|_| *r.pick(LIST)).collect();
            let m = r.range(1, 12) as usize;
            make(&|n| format!("class A {{ void f() {{ {} }} }}", v.repeat(n * m)))
        }
        5 => {
            let v: String = (0..k).map(|_| *r.pick(&ITEM[..ITEM.len() - 1])).collect();
            let (p, q) = *r.pick(&[("f(", ")"), ("new List<Object>{ ", " }"), ("new Set<Object>{ ", " }"), ("x.y(", ").z()")]);
            let m = r.range(1, 12) as usize;
            make(&|n| format!("class A {{ void f() {{ Object o = {}{}z{}; }} }}", p, v.repeat(n * m), q))
        }
        _ => {
            let v: String = (0..k).map(|_| *r.pick(MEMBER)).collect();
            let m = r.range(1, 12) as usize;
            make(&|n| format!("class A {{ {} }}", v.repeat(n * m)))
        }
    }
}
/// A text that afmt must refuse (whether it does is decided by the reference).
pub fn bad_source(c: &mut Ctx, r: &mut Rng) -> Bytes {
    let b = match r.below(10) {
        0 => {
            let size = *r.pick(&[100, 1000, 6000]);
            Rc::new(crate::apex::program(r, size, 10, true).into_bytes())
        }
        1 => Rc::new(crate::grammar::program(r, 200).into_bytes()),
        2 => {
            let n = r.range(2, 60) as usize;
            Rc::new(crate::grammar::pumped(r, n).0.into_bytes())
        }
        3 => {
            let n = r.range(1, 500);
            let one = *r.pick(&["class F {}\n", "class F { void f() { a(); } }\n", "enum E { A }", "trigger T on A (before insert) {}\n", "a(); "]);
            text(&one.repeat(n as usize))
        }
        _ => corpus_file(c, r, 2000),
    };
    let mut v = (*b).clone();
    match r.below(9) {
        6 => {
            // a piece twice
            let k = r.below(v.len() as u64 + 1) as usize;
            let e = (k + r.below(40) as usize).min(v.len());
            let piece = v[k..e].to_vec();
            let at = r.below(v.len() as u64 + 1) as usize;
            v.splice(at..at, piece);
        }
        7 => {
            // a piece less
            let k = r.below(v.len() as u64 + 1) as usize;
            let e = (k + r.below(12) as usize).min(v.len());
            v.drain(k..e);
        }
        8 => {
            let at = r.below(v.len() as u64 + 1) as usize;
            let w = *r.pick(&[" class ", " ; ", " = ", " { ", " [SELECT ", " => ", " '", " /* ", " when ", " @", " <", " ?: "]);
            v.splice(at..at, w.bytes());
        }
        0 => {
            let k = r.below(v.len() as u64 + 1) as usize;
            v.truncate(k);
        }
        1 => {
            let k = r.below(v.len() as u64 + 1) as usize;
            v.insert(k, *r.pick(&[0xffu8, 0xc3, 0xe2, 0x80, 0xf0]));
        }
        2 => {
            if let Some(k) = v.iter().position(|&c| c == b'{') {
                v.remove(k);
            }
        }
        3 => v.extend_from_slice(b"\n}}} class {"),
        4 => v = b"// only a comment\n".to_vec(),
        _ => {
            let k = r.below(v.len() as u64 + 1) as usize;
            v.insert(k, *r.pick(b"{}();@'"));
        }
    }
    Rc::new(v)
}
pub fn any_source(c: &mut Ctx, r: &mut Rng, bad_pct: u64) -> Bytes {
    if r.chance(bad_pct, 100) {
        match r.below(12) {
            0 => text(""),
            1 => text("\n\n  \n"),
            _ => bad_source(c, r),
        }
    } else {
        good_source(c, r)
    }
}

/// Tiny edits of a formatted text.
pub fn near_miss(r: &mut Rng, b: &Bytes) -> Bytes {
    let mut v = (**b).clone();
    let lines: Vec<usize> = v.iter().enumerate().filter(|(_, &c)| c == b'\n').map(|(i, _)| i).collect();
    let nl = if lines.is_empty() { v.len() } else { *r.pick(&lines) };
    match r.below(15) {
        // characters nobody sees: byte order mark, no-break and zero-width space, NUL, form feed
        0 => {
            let c = r.pick(&["\u{feff}", "\u{a0}", "\u{200b}", "\0", "\u{c}", "\u{2028}", "\u{85}", "\x1a", "\u{3000}"]).as_bytes();
            let k = match r.below(4) {
                0 => nl,
                1 => v.len(),
                _ => 0,
            };
            v.splice(k..k, c.iter().copied());
        }
        1 => v.splice(0..0, "\u{feff}".bytes()).for_each(drop),
        12 => {
            // blank lines and white space in front
            let s = *r.pick(&["\n\n", "\r\n", " \n", "\t", "\n\t\n"]);
            v.splice(0..0, s.bytes());
        }
        13 => {
            // lone carriage returns
            v = String::from_utf8_lossy(&v).replace('\n', "\r").into_bytes();
        }
        2 => {
            v.pop();
        }
        3 => match r.below(3) {
            0 => v.push(b'\n'),
            1 => v.insert(nl, b' '),
            _ => v.insert(nl, b'\r'),
        },
        4 => {
            v = String::from_utf8_lossy(&v).replace('\n', "\r\n").into_bytes();
        }
        5 => v.insert(nl, b'\n'),
        6 => v.push(b' '),
        7 => v.insert(0, *r.pick(b"\n \t")),
        8 => {
            let sp: Vec<usize> = v.iter().enumerate().filter(|(_, &c)| c == b' ').map(|(i, _)| i).collect();
            if !sp.is_empty() {
                let k = *r.pick(&sp);
                match r.below(3) {
                    0 => v[k] = b'\t',
                    1 => v.insert(k, b' '),
                    _ => {
                        v.remove(k);
                    }
                }
            }
        }
        9 => {
            let ls: Vec<usize> = v.iter().enumerate().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
            if !ls.is_empty() {
                let k = *r.pick(&ls);
                v[k] ^= 0x20;
            }
        }
        10 => {
            if let Some(&k) = lines.last() {
                v.truncate(k + 1);
                v.extend_from_slice(b"\n\n");
            }
        }
        _ => {
            let s = String::from_utf8_lossy(&v).replace("  ", "\t");
            v = s.into_bytes();
        }
    }
    Rc::new(v)
}

pub struct Place {
    pub dir: String,
    pub path: String, // absolute
    pub arg: String,  // as given on the command line
    pub cwd: String,
}
pub fn place(r: &mut Rng, plain: bool) -> Place {
    let names = ["A.cls", "AccountTest.cls", "MyTrigger.trigger", "a.b.c.cls", "noext", "x.CLS", "Classe é.cls", "日本.cls", ".hidden.cls", "in.txt", "A.cls.bak.cls", "UPPER.TRIGGER", "t"];
    let dirs = ["/w", "/w/src/classes", "/home/u/my proj", "/w/ü", "/tmp", "/w/tests/static", "/w/target"];
    let mut name = r.pick(&names).to_string();
    if r.chance(1, 12) {
        name = format!("{}.cls", "L".repeat(r.range(200, 251) as usize));
    }
    let dir = r.pick(&dirs).to_string();
    let (dir, name) = if plain { ("/w".to_string(), "A.cls".to_string()) } else { (dir, name) };
    let path = format!("{}/{}", dir, name);
    let (arg, cwd) = match r.below(6) {
        0 | 1 => (path.clone(), "/w".to_string()),
        2 => (name.clone(), dir.clone()),
        3 => (format!("./{}", name), dir.clone()),
        4 => (format!("{}/../{}/{}", &dir, dir.rsplit('/').next().unwrap(), name), "/".to_string()),
        _ => {
            let d = dir.trim_start_matches('/');
            (format!("{}/{}", d, name), "/".to_string())
        }
    };
    Place { dir, path, arg, cwd }
}
pub fn environment(r: &mut Rng, p: &mut ProcSpec) {
    let pool: &[(&str, &[&str])] = &[
        ("HOME", &["/home/u", "/", "/nonexistent"]),
        ("LANG", &["C", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1"]),
        ("LC_ALL", &["C", "tr_TR.UTF-8"]),
        ("TERM", &["dumb", "xterm-256color"]),
        ("NO_COLOR", &["1"]),
        ("COLUMNS", &["40", "200"]),
        ("TZ", &["UTC", "Asia/Tokyo"]),
        ("CI", &["true"]),
        ("TMPDIR", &["/tmp", "/nonexistent", "/w"]),
        ("USER", &["u", "root"]),
        ("PWD", &["/", "/w"]),
        ("DEBUG", &["1"]),
        ("RUST_LOG", &["debug"]),
        ("AFMT_CONFIG", &["/w/.afmt.toml"]),
        ("EDITOR", &["vi"]),
        ("XDG_CONFIG_HOME", &["/home/u/.config"]),
    ];
    p.env = vec![("PATH".into(), "/bin".into())];
    for (k, v) in pool {
        if r.chance(1, 3) {
            p.env.push((k.to_string(), r.pick(v).to_string()));
        }
    }
    p.hash_seed = r.next();
    p.heap_seed = r.below(1 << 40);
    p.cpus = *r.pick(&[1, 1, 2, 3, 4, 8, 16, 64]);
    p.pid = *r.pick(&[2, 77, 4000, 4000, 32767, 4194303]);
}
/// Files lying about that nobody asked afmt to touch or to read.
pub fn neighbours(r: &mut Rng, pl: &Place, pid: u64, out: &mut Vec<FileSpec>) {
    let stem = pl.path.rsplit('/').next().unwrap().to_string();
    let base = stem.split('.').next().unwrap_or("x").to_string();
    let ns = [
        format!("{}.tmp", stem),
        format!("{}.bak", stem),
        format!("{}~", stem),
        format!("{}.orig", stem),
        format!(".{}.swp", stem),
        format!(".{}.tmp", stem),
        format!("{}.afmt.tmp", stem),
        format!("{}.new", stem),
        format!("{}.formatted", stem),
        format!("{}.{}", stem, pid),
        format!("{}.tmp.{}", stem, pid),
        format!("{}.tmp", base),
        format!("{}.cls-meta.xml", base),
        "B.cls".to_string(),
        "tmp".to_string(),
        ".afmt.tmp".to_string(),
        ".afmt-tmp".to_string(),
        ".tmp".to_string(),
        format!(".afmt.{}.tmp", pid),
        format!(".afmt-{}", pid),
    ];
    for n in ns {
        if n.len() < 250 && r.chance(1, 3) && format!("{}/{}", pl.dir, n) != pl.path {
            out.push(FileSpec { path: format!("{}/{}", pl.dir, n), node: Node::File(text(&format!("neighbour {}", n))), mode: *r.pick(&[0o644, 0o600, 0o666]) });
        }
    }
    if r.chance(1, 2) && pl.path != "/tmp/A.cls" {
        out.push(file("/tmp/A.cls", text("class Unrelated {}")));
    }
    // configuration files nobody named
    for d in [pl.dir.clone(), pl.cwd.clone(), "/home/u".into(), "/home/u/.config".into(), "/".into()] {
        if r.chance(1, 3) {
            for n in [".afmt.toml", "afmt.toml"] {
                let p = format!("{}/{}", if d == "/" { "" } else { &d }, n);
                if !out.iter().any(|f| f.path == p) {
                    out.push(file(&p, text("max_width = 33\nindent_size = 7\n")));
                }
            }
        }
    }
}
