// An independent reading of Apex text, shared with none of the code under test: which code words, symbols and comments
// does a text consist of?  Used to decide that a formatted text lost nothing of the original.

#[derive(PartialEq, Eq, Debug, Clone)]
pub struct Parts {
    pub code: Vec<String>,
    pub comments: Vec<String>, // sorted
    pub brackets: String,
}
fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c >= 0x80
}
pub fn parts(src: &[u8]) -> Option<Parts> {
    let s = std::str::from_utf8(src).ok()?;
    let b = s.as_bytes();
    let mut code = vec![];
    let mut comments = vec![];
    let mut brackets = String::new();
    let mut square: Vec<bool> = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let wide = if c >= 0x80 { s[i..].chars().next().filter(|&w| blank(w)) } else { None };
        if let Some(w) = wide {
            i += w.len_utf8();
        } else if c.is_ascii_whitespace() || c == 0x0b {
            i += 1;
        } else if b[i..].starts_with(b"//") {
            let e = b[i..].iter().position(|&x| x == b'\n').map(|n| i + n).unwrap_or(b.len());
            comments.push(squash(&s[i..e]));
            i = e;
        } else if b[i..].starts_with(b"/*") {
            let e = s[i + 2..].find("*/").map(|n| i + 2 + n + 2).unwrap_or(b.len());
            comments.push(squash(&s[i..e]));
            i = e;
        } else if c == b'\'' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'\'' {
                if b[j] == b'\\' {
                    j += 1;
                }
                j += 1;
            }
            let e = (j + 1).min(b.len());
            code.push(s.get(i..e).unwrap_or("?").to_string());
            i = e;
        } else if word(c) {
            let mut j = i;
            while j < b.len() && word(b[j]) && !(b[j] >= 0x80 && s.is_char_boundary(j) && s[j..].chars().next().is_some_and(blank)) {
                j += 1;
            }
            let w = s[i..j].to_lowercase();
            // the AS of an alias may go
            let shares = |c: &[String]| c.last().is_some_and(|l| l == "with" || l == "without" || l == "inherited");
            if w.len() > 7 && w.starts_with("sharing") && shares(&code) {
                // accepted without the space behind it
                code.push(w[..7].to_string());
                code.push(w[7..].to_string());
            } else if w != "as" || !square.iter().any(|q| *q) {
                code.push(w);
            }
            i = j;
        } else {
            if b"()[]{}".contains(&c) {
                brackets.push(c as char);
            }
            // brackets inside a query may be redundant, and so are those of an annotation without arguments
            if c == b'[' {
                square.push(query_starts(&s[i + 1..]));
            } else if c == b']' {
                square.pop();
            }
            // two signs are not a decrement or increment
            if (c == b'+' || c == b'-') && b.get(i + 1) == Some(&c) {
                code.push(format!("{0}{0}", c as char));
                i += 2;
                continue;
            }
            let in_query = square.iter().any(|q| *q);
            if c == b')' && code.last().is_some_and(|l| l == "(") && code.len() >= 3 && code[code.len() - 3] == "@" {
                code.pop();
                i += 1;
                continue;
            }
            // an empty statement means nothing, except in front of an else
            let empty_statement = c == b';' && next_word(&s[i + 1..]) != "else" && code.last().is_none_or(|l: &String| l == ";" || l == "{" || l == "}");
            if in_query && (c == b'(' || c == b')') {
                code.push(format!("\u{1}{}", c as char));
            } else if !empty_statement {
                code.push((c as char).to_string());
            }
            i += 1;
        }
    }
    let code = modifiers(groups(code));
    comments.sort();
    Some(Parts { code, comments, brackets })
}
/// White space that takes more than one byte, and the byte order mark.
fn blank(c: char) -> bool {
    c.is_whitespace() || c == '\u{feff}'
}
/// Does the text after `[` begin a query?
fn query_starts(s: &str) -> bool {
    let w = next_word(s);
    w == "select" || w == "find"
}
fn next_word(s: &str) -> String {
    let mut t = s.trim_start();
    loop {
        if let Some(r) = t.strip_prefix("//") {
            t = r.find('\n').map(|n| &r[n..]).unwrap_or("").trim_start();
        } else if let Some(r) = t.strip_prefix("/*") {
            t = r.find("*/").map(|n| &r[n + 2..]).unwrap_or("").trim_start();
        } else {
            break;
        }
    }
    t.chars().take_while(|c| c.is_ascii_alphabetic()).take(8).collect::<String>().to_lowercase()
}
/// Brackets around a condition of a query are kept only where they matter: around AND or OR next to the other one or to NOT.
fn groups(code: Vec<String>) -> Vec<String> {
    let is = |k: usize, w: &[&str]| code.get(k).is_some_and(|t| w.contains(&t.as_str()));
    let mut close = vec![usize::MAX; code.len()];
    let mut open = vec![];
    for k in 0..code.len() {
        match code[k].as_str() {
            "\u{1}(" => open.push(k),
            "\u{1})" => {
                if let Some(o) = open.pop() {
                    close[o] = k;
                }
            }
            _ => {}
        }
    }
    let mut drop = vec![false; code.len()];
    let mut cond = vec![false; code.len()]; // opens a condition
    for k in 0..code.len() {
        cond[k] = close[k] != usize::MAX && k > 0 && (is(k - 1, &["where", "having", "and", "or", "not"]) || cond[k - 1]);
    }
    for k in (0..code.len()).rev().filter(|&k| cond[k]) {
        // what is left of the brackets inside, and the neighbours outside
        let e = close[k];
        let (mut depth, mut inner, mut first) = (0, vec![], true);
        for j in k + 1..e {
            if !drop[j] {
                match code[j].as_str() {
                    "\u{1}(" | "(" | "[" | "{" => depth += 1,
                    "\u{1})" | ")" | "]" | "}" => depth -= 1,
                    w if depth == 0 && (w == "and" || w == "or" || w == "not" && first) => inner.push(w),
                    _ => {}
                }
                first = false;
            }
        }
        let mut outer: Vec<&str> = vec![];
        if is(k - 1, &["and", "or", "not"]) {
            outer.push(code[k - 1].as_str());
        }
        if is(e + 1, &["and", "or"]) {
            outer.push(code[e + 1].as_str());
        }
        if inner.is_empty() || outer.is_empty() || inner.iter().chain(outer.iter()).all(|w| *w == inner[0]) && inner[0] != "not" {
            drop[k] = true;
            drop[e] = true;
        }
    }
    // a list of one data category
    for k in 1..code.len() {
        if close[k] == k + 2 && is(k - 1, &["at", "above", "below", "above_or_below"]) {
            drop[k] = true;
            drop[k + 2] = true;
        }
    }
    code.iter().enumerate().filter(|(k, _)| !drop[*k]).map(|(_, t)| t.trim_start_matches('\u{1}').to_string()).collect()
}
const MODIFIERS: &[&str] = &["public", "private", "protected", "global", "static", "final", "abstract", "virtual", "override", "transient", "webservice", "testmethod"];
/// The order of modifiers and annotations in front of a declaration means nothing.
fn modifiers(code: Vec<String>) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut run: Vec<String> = vec![];
    let mut i = 0;
    while i < code.len() {
        if code[i] == "@" && i + 1 < code.len() {
            let mut unit = format!("@{}", code[i + 1]);
            i += 2;
            if code.get(i).is_some_and(|t| t == "(") {
                let mut depth = 0;
                while i < code.len() {
                    depth += (code[i] == "(") as i32 - (code[i] == ")") as i32;
                    unit.push(' ');
                    unit.push_str(&code[i]);
                    i += 1;
                    if depth == 0 {
                        break;
                    }
                }
            }
            run.push(unit);
        } else if ["with", "without", "inherited"].contains(&code[i].as_str()) && code.get(i + 1).is_some_and(|t| t == "sharing") {
            run.push(format!("{} sharing", code[i]));
            i += 2;
        } else if MODIFIERS.contains(&code[i].as_str()) {
            run.push(code[i].clone());
            i += 1;
        } else {
            run.sort();
            out.append(&mut run);
            out.push(code[i].clone());
            i += 1;
        }
    }
    run.sort();
    out.append(&mut run);
    out
}
fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != '*').collect()
}
/// Places between two tokens.
pub fn boundaries(s: &str) -> Vec<usize> {
    let b = s.as_bytes();
    let mut v = vec![0];
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"//") {
            i += b[i..].iter().position(|&x| x == b'\n').unwrap_or(b.len() - i);
        } else if b[i..].starts_with(b"/*") {
            i = s[i + 2..].find("*/").map(|n| i + 2 + n + 2).unwrap_or(b.len());
        } else if b[i] == b'\'' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'\'' {
                j += if b[j] == b'\\' { 2 } else { 1 };
            }
            i = (j + 1).min(b.len());
        } else if b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80 {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80) {
                i += 1;
            }
        } else if b[i].is_ascii_whitespace() {
            i += 1;
            continue;
        } else {
            i += 1;
            // operators of several characters stay in one piece
            if i < b.len() && b"=<>&|+-*/!?.:^".contains(&b[i]) && !b[i..].starts_with(b"//") && !b[i..].starts_with(b"/*") {
                continue;
            }
        }
        if s.is_char_boundary(i) {
            v.push(i);
        }
    }
    v
}
/// Brackets outside strings and comments match?
pub fn balanced(p: &Parts) -> bool {
    let mut st = vec![];
    for t in p.brackets.bytes() {
        match t {
            b'(' | b'[' | b'{' => st.push(t),
            _ => {
                let o = st.pop();
                if !matches!((o, t), (Some(b'('), b')') | (Some(b'['), b']') | (Some(b'{'), b'}')) {
                    return false;
                }
            }
        }
    }
    st.is_empty()
}
/// What is wrong with this formatted text of this source?
pub fn wrong(src: &[u8], new: &[u8]) -> Option<String> {
    let Some(p) = parts(src) else { return Some("a text that is not UTF-8 was accepted".into()) };
    if !balanced(&p) {
        return Some("a text with unmatched brackets was accepted".into());
    }
    lost(src, new)
}
/// None: nothing lost. Some(text): the first difference.
pub fn lost(orig: &[u8], new: &[u8]) -> Option<String> {
    let (a, b) = (parts(orig)?, match parts(new) {
        Some(b) => b,
        None => return Some("the formatted text is not valid UTF-8".into()),
    });
    if let Some(m) = differ(&a.code.iter().map(|x| x.as_str()).collect::<Vec<_>>(), &b.code.iter().map(|x| x.as_str()).collect::<Vec<_>>()) {
        return Some(m);
    }
    if a.comments != b.comments {
        return Some(format!("comments differ: {} became {}", a.comments.len(), b.comments.len()));
    }
    None
}
fn differ(a: &[&str], b: &[&str]) -> Option<String> {
    let mut j = 0;
    for (i, x) in a.iter().enumerate() {
        // a word may come out as several ("sharingclass" is accepted for "sharing class"), never several as one
        let mut got = String::new();
        let j0 = j;
        // at least one: two spaces within a string are not one
        while j < b.len() && (got.len() < x.len() || j == j0) {
            got.push_str(b[j]);
            j += 1;
        }
        // the same within what is compared as one: an annotation and its arguments
        let same = got == *x || j == j0 + 1 && x.starts_with('@') && x.contains(' ') && differ(&x.split(' ').collect::<Vec<_>>(), &got.split(' ').collect::<Vec<_>>()).is_none();
        if !same {
            return Some(format!("code differs at token {}: {:?} became {:?}", i, x, b.get(j0)));
        }
    }
    if j != b.len() {
        return Some(format!("code was added at the end: {:?}", b[j]));
    }
    None
}
