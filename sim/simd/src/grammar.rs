// Random derivations of the Apex grammar itself (the one afmt's parser is generated from), so that no construct is left out
// because nobody thought of it. `grammar.json` is made from tree-sitter-sfapex's grammar.json: ["s",..] sequence, ["a",..]
// alternatives, ["*",x] and ["+",x] repetitions, ["t",x] one token; "n:" rule, "k:" keyword, "l:" literal, "r:" pattern.
// A program consists of members each of which is steered through one alternative drawn from all of the grammar.
use crate::rng::Rng;
use serde_json::Value;
use std::collections::HashMap;
use std::rc::Rc;

enum N {
    Rule(usize),
    Word(String), // keyword, in any case
    Lit(String),
    Pat(String),
    Seq(Vec<N>),
    Alt(usize, Vec<N>),
    Rep(Box<N>, bool),
    Tok(Box<N>),
}
pub struct Grammar {
    rules: Vec<N>,
    names: HashMap<String, usize>,
    costs: Vec<u64>,
    targets: Vec<(usize, usize)>, // (alternatives, choice)
    dist: Vec<Vec<u32>>,          // per alternatives: distance from every rule
}
// Not supported by afmt (refused with an error)
const REFUSED: [&str; 3] = ["type_of_clause", "date_time", "currency_literal"];
// Not Apex, although the parser accepts it (remains of the Java grammar it comes from)
const NOT_APEX: [&str; 6] = ["type_bound", "annotated_type", "inferred_parameters", "java_type", "java_field_access", "element_value_array_initializer"];
const FAR: u32 = 1_000_000;

impl Grammar {
    pub fn load() -> Rc<Grammar> {
        thread_local!(static G: Rc<Grammar> = Rc::new(Grammar::parse(include_str!("grammar.json"))));
        G.with(|g| g.clone())
    }
    fn parse(text: &str) -> Grammar {
        let v: serde_json::Map<String, Value> = serde_json::from_str(text).unwrap();
        let names: HashMap<String, usize> = v.keys().enumerate().map(|(i, k)| (k.clone(), i)).collect();
        let mut g = Grammar { rules: vec![], names, costs: vec![], targets: vec![], dist: vec![] };
        let mut alts = 0;
        for x in v.values() {
            let n = g.node(x, &mut alts, false);
            g.rules.push(n);
        }
        g.costs = vec![FAR as u64; g.rules.len()];
        loop {
            let c: Vec<u64> = g.rules.iter().map(|r| g.cost(r)).collect();
            if c == g.costs {
                break;
            }
            g.costs = c;
        }
        let root = g.names["parser_output"];
        for a in 0..alts {
            let mut d = vec![FAR; g.rules.len()];
            loop {
                let e: Vec<u32> = g.rules.iter().map(|r| g.far(r, a, &d)).collect();
                if e == d {
                    break;
                }
                d = e;
            }
            g.dist.push(d);
        }
        let mut counts = vec![0; alts];
        fn visit(n: &N, c: &mut [usize]) {
            match n {
                N::Alt(id, v) => {
                    c[*id] = v.len();
                    v.iter().for_each(|x| visit(x, c));
                }
                N::Seq(v) => v.iter().for_each(|x| visit(x, c)),
                N::Rep(x, _) | N::Tok(x) => visit(x, c),
                _ => {}
            }
        }
        g.rules.iter().for_each(|r| visit(r, &mut counts));
        g.targets = (0..alts).filter(|a| g.dist[*a][root] < FAR).flat_map(|a| (0..counts[a]).map(move |k| (a, k))).collect();
        g
    }
    fn node(&self, v: &Value, alts: &mut usize, token: bool) -> N {
        if let Value::String(s) = v {
            let t = s[2..].to_string();
            return match &s[..2] {
                "n:" => N::Rule(self.names[&t]),
                "k:" => N::Word(t),
                "l:" => N::Lit(t),
                _ => N::Pat(t),
            };
        }
        let a = v.as_array().unwrap();
        let banned = |x: &Value| x.as_str().map_or(false, |s| NOT_APEX.contains(&&s[2..]) || REFUSED.contains(&&s[2..]));
        let kids: Vec<&Value> = a[1..].iter().filter(|x| a[0] != "a" || !banned(x)).collect();
        let sub = |alts: &mut usize| kids.iter().map(|x| self.node(x, alts, token)).collect::<Vec<N>>();
        match a[0].as_str().unwrap() {
            "s" => N::Seq(sub(alts)),
            "a" => {
                let k = sub(alts);
                *alts += 1;
                N::Alt(*alts - 1, k)
            }
            "*" => N::Rep(Box::new(self.node(&a[1], alts, token)), false),
            "+" => N::Rep(Box::new(self.node(&a[1], alts, token)), true),
            _ => N::Tok(Box::new(self.node(&a[1], alts, true))),
        }
    }
    fn cost(&self, n: &N) -> u64 {
        let c = match n {
            N::Rule(i) => self.costs[*i] + 1,
            N::Seq(v) => v.iter().map(|x| self.cost(x)).sum(),
            N::Alt(_, v) => v.iter().map(|x| self.cost(x)).min().unwrap(),
            N::Rep(x, one) => if *one { self.cost(x) } else { 0 },
            N::Tok(_) => 1,
            _ => 1,
        };
        c.min(FAR as u64)
    }
    fn far(&self, n: &N, target: usize, d: &[u32]) -> u32 {
        match n {
            N::Rule(i) => d[*i].saturating_add(1).min(FAR),
            N::Alt(id, _) if *id == target => 0,
            N::Seq(v) | N::Alt(_, v) => v.iter().map(|x| self.far(x, target, d)).min().unwrap_or(FAR),
            N::Rep(x, _) => self.far(x, target, d),
            _ => FAR,
        }
    }
    /// A derivation of `rule`: its tokens.
    fn derive(&self, r: &mut Rng, rule: &str, target: Option<(usize, usize)>, size: usize) -> Vec<String> {
        self.derivation(r, rule, target, size).0
    }
    /// The same with what can be repeated in it: (start, end, start, end) of a phrase and one of the same kind within it, which
    /// is empty for an item of a list.
    fn derivation(&self, r: &mut Rng, rule: &str, target: Option<(usize, usize)>, size: usize) -> (Vec<String>, Vec<[usize; 4]>) {
        let mut d = D { g: self, r, out: vec![], size, target, mb: 10, depth: 0, token: false, spans: vec![], items: vec![] };
        d.rule(self.names[rule]);
        let mut loops: Vec<[usize; 4]> = d.items.iter().map(|&(a, b)| [a, b, b, b]).collect();
        for (k, &(x, a, b)) in d.spans.iter().enumerate() {
            // a phrase is recorded after those within it
            loops.extend(d.spans[..k].iter().filter(|&&(y, c, e)| x == y && a <= c && e <= b && (a, b) != (c, e)).map(|&(_, c, e)| [a, b, c, e]));
        }
        (d.out, loops)
    }
}
struct D<'a> {
    g: &'a Grammar,
    r: &'a mut Rng,
    out: Vec<String>,
    size: usize,
    target: Option<(usize, usize)>,
    mb: u64,
    depth: usize,
    token: bool,
    spans: Vec<(usize, usize, usize)>,
    items: Vec<(usize, usize)>,
}
impl<'a> D<'a> {
    fn rule(&mut self, i: usize) {
        self.depth += 1;
        let (g, k) = (self.g, self.out.len());
        self.go(&g.rules[i]);
        if !self.token {
            self.spans.push((i, k, self.out.len()));
        }
        self.depth -= 1;
    }
    fn far(&self, n: &N) -> u32 {
        self.target.map_or(FAR, |(a, _)| self.g.far(n, a, &self.g.dist[a]))
    }
    fn small(&self) -> bool {
        self.out.len() >= self.size || self.depth > 60
    }
    fn go(&mut self, n: &'a N) {
        match n {
            N::Rule(i) => self.rule(*i),
            N::Word(w) => {
                let w = match self.r.below(8) {
                    0 => w.to_uppercase(),
                    1 => w[..1].to_uppercase() + &w[1..],
                    _ => w.clone(),
                };
                self.out.push(w);
            }
            N::Lit(l) => self.out.push(l.clone()),
            N::Pat(p) => {
                let t = self.pattern(p);
                self.out.push(t);
            }
            N::Tok(x) => {
                let (k, within) = (self.out.len(), self.token);
                self.token = true;
                self.go(x);
                self.token = within;
                let t = self.out.split_off(k).concat();
                self.out.push(t);
            }
            N::Seq(v) => {
                // steer through one of the nearest parts
                let best = v.iter().map(|x| self.far(x)).min().unwrap_or(FAR);
                let near: Vec<usize> = (0..v.len()).filter(|&k| best < FAR && self.far(&v[k]) == best).collect();
                let via = if near.is_empty() { None } else { Some(*self.r.pick(&near)) };
                let saved = self.target;
                for (k, x) in v.iter().enumerate() {
                    self.target = if via == Some(k) { saved } else { None };
                    self.go(x);
                }
                self.target = None;
            }
            N::Alt(id, v) => {
                if let Some((a, k)) = self.target {
                    if a == *id {
                        self.target = None;
                        return self.go(&v[k]);
                    }
                    let d: Vec<u32> = v.iter().map(|x| self.far(x)).collect();
                    let best = *d.iter().min().unwrap();
                    if best < FAR {
                        // mostly the shortest way, sometimes another one that leads there as well
                        let ways: Vec<usize> = (0..v.len()).filter(|&k| d[k] == best || d[k] < FAR && d[k] <= best + 3 && self.depth < 25).collect();
                        let k = *self.r.pick(&ways);
                        return self.go(&v[k]);
                    }
                }
                let k = if self.small() {
                    let c: Vec<u64> = v.iter().map(|x| self.g.cost(x)).collect();
                    let m = *c.iter().min().unwrap();
                    let ks: Vec<usize> = (0..v.len()).filter(|&k| c[k] <= m + (self.depth < 40) as u64).collect();
                    *self.r.pick(&ks)
                } else {
                    self.r.below(v.len() as u64) as usize
                };
                self.go(&v[k]);
            }
            N::Rep(x, one) => {
                let steer = self.far(x) < FAR;
                let mut n = *one as u64;
                if !self.small() {
                    n += *self.r.pick(&[0, 0, 1, 1, 1, 2, 3]);
                }
                n = n.max(steer as u64);
                let saved = self.target;
                let via = self.r.below(n.max(1));
                for k in 0..n {
                    self.target = if k == via { saved } else { None };
                    let at = self.out.len();
                    self.go(x);
                    if !self.token && self.out.len() > at {
                        self.items.push((at, self.out.len()));
                    }
                }
                self.target = None;
            }
        }
    }
    fn digits(&mut self, lo: u64, hi: u64) -> String {
        (0..self.r.range(lo, hi)).map(|_| (b'0' + self.r.below(10) as u8) as char).collect()
    }
    fn pattern(&mut self, p: &str) -> String {
        match p {
            "[\\s\\n]*" => String::new(),
            "[\\s\\n]+" => self.r.pick(&[" ", " ", "  ", "\n", "\t"]).to_string(),
            "[eEpP]" => "e".into(),
            "[fFdD]" => self.r.pick(&["d", "D"]).to_string(),
            "_+" => "_".into(),
            "\\d+" | "[0-9]+" => self.digits(1, 4),
            "-?\\d+(\\.\\d+)?" => format!("{}{}.{}", if self.r.chance(1, 4) { "-" } else { "" }, self.digits(1, 3), self.digits(1, 2)),
            "\\w{3}\\d+(\\.\\d+)?" => format!("USD{}", self.digits(1, 4)),
            "(\\\\\\'|[^'])+" => self.r.pick(&["joe", "joe*", "{a} OR b", "map~1", "x y"]).to_string(),
            _ if p.starts_with("'") => {
                let s = *self.r.pick(&["", "a", "it\\'s", "\\\\", "%a_", "{ // no comment }", "/* no */", "x  y", "\\u00e9", "é𝄞", "\"", "\\n;"]);
                format!("'{}'", s)
            }
            _ if p.contains("T([0-1]") => format!("2024-0{}-1{}T0{}:1{}:2{}Z", self.r.range(1, 9), self.r.below(9), self.r.below(9), self.r.below(9), self.r.below(9)),
            _ if p.starts_with("[1-4]") => format!("2024-0{}-1{}", self.r.range(1, 9), self.r.below(9)),
            _ if p.contains("\\p{L}") => self.name(),
            _ => "x".into(),
        }
    }
    fn name(&mut self) -> String {
        if self.r.chance(self.mb, 200) {
            return self.r.pick(&["größe", "naïve", "имя", "$x", "名"]).to_string();
        }
        let base = *self.r.pick(&["a", "b", "x", "Account", "Id", "Name", "acc", "list", "Foo", "value", "i", "Contact", "aVeryLongIdentifierThatFillsALine", "my_Field__c", "Parent__r", "String", "Integer", "Object"]);
        if self.r.chance(1, 3) {
            format!("{}{}", base, self.r.below(30))
        } else {
            base.to_string()
        }
    }
}

/// Tokens as a text: with much, little or the least possible space.
fn join(r: &mut Rng, toks: &[String]) -> String {
    let style = r.below(4);
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '$';
    let mut s = String::new();
    for t in toks.iter().filter(|t| !t.is_empty()) {
        let (a, b) = (s.chars().last(), t.chars().next().unwrap());
        let need = match a {
            None => false,
            Some(a) if a.is_whitespace() => false,
            Some(a) => word(a) && word(b) || (word(a) || a == '\'') && b == '\'' || a == '\'' && word(b) || a == '.' && b.is_ascii_digit() || a.is_ascii_digit() && b == '.' || "+-*/<>=&|!?~^%:".contains(a) && "+-*/<>=&|!?~^%:.".contains(b),
        };
        let brk = b == '}' || a.map_or(false, |a| a == '{' || a == ';' || a == '}');
        match style {
            0 if r.chance(1, 6) || brk => s.push('\n'),
            1 if brk => s.push('\n'),
            0 | 1 | 2 if need || r.chance(1, 2) => s.push(' '),
            _ if need => s.push(' '),
            _ => {}
        }
        s.push_str(t);
    }
    s.push('\n');
    s
}

/// A program in which something that may be nested in itself, or repeated, is n times and once more 2n times.
pub fn pumped(r: &mut Rng, n: usize) -> (String, String) {
    let g = Grammar::load();
    loop {
        let t = *r.pick(&g.targets);
        let frame = *r.pick(&["_class_body_declaration", "statement", "statement", "expression", "expression", "query_expression"]);
        let rule = if g.dist[t.0][g.names[frame]] < FAR { frame } else { "_class_body_declaration" };
        let size = r.range(10, 50) as usize;
        let (body, loops) = g.derivation(r, rule, Some(t), size);
        if loops.is_empty() || body.len() > 300 {
            continue;
        }
        // as often an item as a phrase within a phrase
        let (list, nest): (Vec<&[usize; 4]>, Vec<&[usize; 4]>) = loops.iter().partition(|l| l[2] == l[1]);
        let &[a, b, c, e] = if nest.is_empty() || !list.is_empty() && r.chance(1, 3) { *r.pick(&list) } else { *r.pick(&nest) };
        let n = n.min(4000 / (b - a)).max(2);
        let (open, close) = match rule {
            "statement" => ("class A { void f () {", "} }"),
            "_class_body_declaration" => ("class A {", "}"),
            _ => ("class A { Object x =", "; }"),
        };
        let words = |s: &str| s.split(' ').map(String::from).collect::<Vec<_>>();
        let style = r.next();
        let make = |n: usize| {
            let mut v = words(open);
            v.extend_from_slice(&body[..a]);
            (0..n).for_each(|_| v.extend_from_slice(&body[a..c]));
            v.extend_from_slice(&body[c..e]);
            (0..n).for_each(|_| v.extend_from_slice(&body[e..b]));
            v.extend_from_slice(&body[b..]);
            v.extend(words(close));
            join(&mut Rng::new(style), &v)
        };
        return (make(n), make(2 * n));
    }
}

pub fn program(r: &mut Rng, size: usize) -> String {
    let g = Grammar::load();
    let mut toks: Vec<String> = vec![];
    let add = |s: &str| s.split(' ').map(String::from).collect::<Vec<_>>();
    let n = 1 + size / 60;
    if r.chance(1, 8) {
        for _ in 0..n.min(3) {
            let t = *r.pick(&g.targets);
            toks.extend(g.derive(r, "declaration", Some(t), size));
        }
        return join(r, &toks);
    }
    toks.extend(add("public class A {"));
    for k in 0..n {
        let t = *r.pick(&g.targets);
        let size = r.range(1, 30) as usize;
        let pick = |r: &mut Rng, v: &[&'static str]| *r.pick(v);
        // the smallest frame in which the target can occur
        let frame = pick(r, &["_class_body_declaration", "statement", "statement", "expression", "expression", "query_expression", "query_expression"]);
        let rule = if g.dist[t.0][g.names[frame]] < FAR { frame } else { "_class_body_declaration" };
        let body = g.derive(r, rule, Some(t), size);
        match rule {
            "statement" => {
                toks.extend(add(&format!("void f{} () {{", k)));
                toks.extend(body);
                toks.push("}".into());
            }
            "_class_body_declaration" => toks.extend(body),
            _ => {
                toks.extend(add(&format!("Object x{} =", k)));
                toks.extend(body);
                toks.push(";".into());
            }
        }
    }
    toks.push("}".into());
    join(r, &toks)
}
