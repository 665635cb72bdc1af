// Apex programs from a grammar: every construct the language has, in forms the repository's examples need not contain.
use crate::rng::*;

pub struct G<'a> {
    r: &'a mut Rng,
    s: String,
    mb: u64,
    left: i64,
    /// comments at ordinary places: before members and statements, at line ends, in empty blocks
    comments: bool,
}
const NAMES: &[&str] = &["a", "acc", "accountList", "x1", "theVeryLongVariableNameOfThisThing", "Opp", "ctx", "i", "resultMap", "key_value", "Custom__c", "handler", "ns__Thing__r", "result", "val", "SCALE"];
const TYPES: &[&str] = &["Integer", "String", "Account", "Decimal", "SObject", "Id", "Boolean", "My_Object__c", "Date", "Outer.Inner", "Object", "Blob", "System.PageReference", "Database.SaveResult"];

impl G<'_> {
    fn p(&mut self, s: &str) {
        self.s.push_str(s);
        self.left -= s.len() as i64;
    }
    fn c(&mut self, a: u64, b: u64) -> bool {
        self.r.chance(a, b)
    }
    fn one(&mut self, v: &[&str]) {
        let x = *self.r.pick(v);
        self.p(x);
    }
    fn name(&mut self) {
        let n = *self.r.pick(NAMES);
        self.p(n);
        if self.c(1, 3) {
            let k = self.r.below(100).to_string();
            self.p(&k);
        }
    }
    fn ty(&mut self, d: u64) {
        match self.r.below(if d == 0 { 6 } else { 12 }) {
            0..=5 => self.one(TYPES),
            6 => {
                self.p("List<");
                self.ty(d - 1);
                self.p(">");
            }
            7 => {
                self.p("Map<");
                self.ty(0);
                self.p(", ");
                self.ty(d - 1);
                self.p(">");
            }
            8 => {
                self.p("Set<");
                self.ty(d - 1);
                self.p(">");
            }
            9 => {
                self.ty(0);
                self.p("[]");
            }
            10 => {
                self.ty(0);
                self.p("[][]");
            }
            _ => {
                self.p("Iterable<");
                self.ty(d - 1);
                self.p(">");
            }
        }
    }
    fn string(&mut self) {
        self.p("'");
        let n = match self.r.below(6) {
            0 => 0,
            1..=3 => self.r.below(14),
            4 => self.r.below(50),
            _ => self.r.below(120),
        };
        for _ in 0..n {
            if self.r.chance(self.mb, 100) {
                self.one(&["ä", "Ж", "日", "€", "😀", "\u{301}", "\u{a0}"]);
            } else {
                self.one(&["a", "b", "Z", " ", "  ", "0", "-", ".", "/", "//", "/*", "*", "\"", "%", "{0}", "\\'", "\\n", "\\\\", "\\u00e4", ";", "}", "&", "<", "?"]);
            }
        }
        self.p("'");
    }
    fn literal(&mut self) {
        match self.r.below(10) {
            0 => self.one(&["null", "true", "false", "NULL", "True"]),
            1..=3 => {
                let n = self.r.below(100000).to_string();
                self.p(&n);
            }
            4 => self.one(&["10L", "0", "1.5", "3.14159D", "100000000000L", ".5", "1.5d"]),
            _ => self.string(),
        }
    }
    fn args(&mut self, d: u64) {
        self.p("(");
        let n = match self.r.below(8) {
            0 | 1 => 0,
            2..=4 => 1,
            5 => 2,
            _ => self.r.below(5),
        };
        for i in 0..n {
            if i > 0 {
                self.p(", ");
            }
            self.expr(d);
        }
        self.p(")");
    }
    fn atom(&mut self, d: u64) {
        match self.r.below(if d == 0 { 4 } else { 9 }) {
            0 | 1 => self.name(),
            2 | 3 => self.literal(),
            4 => {
                self.p("(");
                self.expr(d - 1);
                self.p(")");
            }
            5 => {
                self.name();
                self.args(d - 1);
            }
            6 => {
                self.one(&["this", "super", "acc", "System", "Trigger", "UserInfo", "Schema.SObjectType"]);
                self.p(".");
                self.name();
                self.args(d - 1);
            }
            7 => self.chain(d - 1),
            _ => {
                self.one(&["this", "acc", "Trigger", "x.y.z"]);
                self.p(".");
                self.name();
            }
        }
    }
    fn chain(&mut self, d: u64) {
        match self.r.below(4) {
            0 => {
                self.p("new ");
                self.one(TYPES);
                self.args(0);
            }
            1 => {
                self.name();
                self.args(0);
            }
            2 => {
                self.name();
                self.p("[");
                self.expr(0);
                self.p("]");
            }
            _ => self.name(),
        }
        for _ in 0..self.r.range(1, 5) {
            self.one(&[".", ".", ".", "?."]);
            self.name();
            match self.r.below(5) {
                0 => {}
                1 => {
                    self.args(d);
                    self.p("[");
                    self.expr(0);
                    self.p("]");
                }
                _ => self.args(d),
            }
        }
    }
    fn expr(&mut self, d: u64) {
        if d == 0 || self.left < 0 {
            return self.atom(0);
        }
        match self.r.below(30) {
            0..=7 => self.atom(d),
            8 | 9 => self.chain(d - 1),
            10..=13 => {
                let n = self.r.range(1, 4);
                self.expr(d - 1);
                let same = self.c(1, 2);
                let op = *self.r.pick(&["+", "-", "*", "/", "&&", "||", "==", "!=", "<", ">=", "<=", ">", "===", "!==", "&", "|", "^", "<<", ">>", ">>>", "<>", "??"]);
                for _ in 0..n {
                    self.p(" ");
                    if same && !["==", "!=", "<", ">=", "<=", ">", "===", "!==", "<>"].contains(&op) {
                        self.p(op);
                    } else {
                        self.one(&["+", "-", "*", "/", "&&", "||"]);
                    }
                    self.p(" ");
                    self.expr(d - 1);
                }
            }
            14 => {
                self.expr(d - 1);
                self.p(" ");
                self.one(&["==", "!=", "<", ">=", "===", "!=="]);
                self.p(" ");
                self.expr(d - 1);
            }
            15 | 16 => {
                self.atom(d - 1);
                self.p(" ? ");
                self.expr(d - 1);
                self.p(" : ");
                self.expr(d - 1);
            }
            17 => {
                self.one(&["!", "-", "~", "+"]);
                self.atom(d - 1);
            }
            18 => {
                self.p("(");
                self.ty(1);
                self.p(") ");
                self.atom(d - 1);
            }
            19 => {
                self.name();
                self.p(" instanceof ");
                self.ty(1);
            }
            20 => {
                self.p("new ");
                self.one(TYPES);
                self.p("(");
                let n = self.r.below(5);
                for i in 0..n {
                    if i > 0 {
                        self.p(", ");
                    }
                    self.name();
                    self.p(" = ");
                    self.expr(d - 1);
                }
                self.p(")");
            }
            21 => {
                self.p("new List<");
                self.ty(0);
                self.p(">");
                if self.c(1, 3) {
                    self.p("()");
                } else {
                    self.p("{ ");
                    let n = self.r.below(5);
                    for i in 0..n {
                        if i > 0 {
                            self.p(", ");
                        }
                        self.expr(d - 1);
                    }
                    self.p(" }");
                }
            }
            22 => {
                self.p("new Map<String, ");
                self.ty(1);
                self.p(">");
                if self.c(1, 4) {
                    self.p("()");
                } else {
                    self.p("{ ");
                    let n = self.r.range(1, 4);
                    for i in 0..n {
                        if i > 0 {
                            self.p(", ");
                        }
                        self.expr(0);
                        self.p(" => ");
                        self.expr(d - 1);
                    }
                    self.p(" }");
                }
            }
            23 => {
                self.p("new ");
                self.one(TYPES);
                if self.c(1, 2) {
                    self.p("[");
                    self.expr(0);
                    self.p("]");
                } else {
                    self.p("[]{ ");
                    let n = self.r.below(4);
                    for i in 0..n {
                        if i > 0 {
                            self.p(", ");
                        }
                        self.expr(d - 1);
                    }
                    self.p(" }");
                }
            }
            24 => {
                self.one(&["Account", "List<Account>", "Outer.Inner", "Map<String, List<Id>>"]);
                self.p(".class");
            }
            25 => {
                self.name();
                self.p("[");
                self.expr(d - 1);
                self.p("]");
            }
            26 => {
                self.name();
                self.p(" ");
                self.one(&["=", "+=", "-="]);
                self.p(" ");
                self.expr(d - 1);
            }
            27 | 28 => {
                self.p("[");
                self.query(d - 1, false);
                self.p("]");
                if self.c(1, 4) {
                    self.p(".");
                    self.name();
                } else if self.c(1, 6) {
                    self.p("[0].Name");
                }
            }
            _ => {
                if self.c(1, 2) {
                    self.p("[");
                    self.sosl();
                    self.p("]");
                } else {
                    self.name();
                    self.one(&["++", "--"]);
                }
            }
        }
    }
    fn field(&mut self) {
        self.one(&["Id", "Name", "Amount__c", "Owner.Name", "Account.Owner.Profile.Name", "CreatedDate", "LastModifiedBy.Email", "Is_Active__c"]);
    }
    fn query_value(&mut self, d: u64) {
        match self.r.below(10) {
            0 => self.one(&["true", "FALSE", "null"]),
            1 => {
                let n = self.r.below(10000).to_string();
                self.p(&n);
            }
            2 => self.one(&["'x'", "'a%'", "'O\\'Neil'", "''"]),
            3 => self.one(&["TODAY", "LAST_N_DAYS:30", "THIS_YEAR", "NEXT_WEEK"]),
            4 => self.one(&["2024-01-31", "2024-01-31T10:00:00Z", "1.5"]),
            _ => {
                self.p(":");
                if d > 0 && self.c(1, 3) {
                    self.atom(d - 1);
                } else {
                    self.name();
                }
            }
        }
    }
    fn condition(&mut self, d: u64) {
        match self.r.below(if d == 0 { 4 } else { 9 }) {
            0..=2 => {
                self.field();
                self.p(" ");
                self.one(&["=", "!=", "<", ">", "<=", ">=", "LIKE", "="]);
                self.p(" ");
                self.query_value(d);
            }
            3 => {
                self.field();
                self.one(&[" IN ", " NOT IN ", " in "]);
                match self.r.below(3) {
                    0 => {
                        self.p(":");
                        self.name();
                    }
                    1 => self.p("('a', 'b', 'c')"),
                    _ => self.p("(SELECT AccountId FROM Contact WHERE Name != null)"),
                }
            }
            4 => {
                self.p("Sector__c ");
                self.one(&["INCLUDES", "EXCLUDES"]);
                self.p(" ('a;b', 'c')");
            }
            5 => {
                self.p("(");
                self.condition(d - 1);
                self.one(&[" OR ", " AND "]);
                self.condition(d - 1);
                self.p(")");
            }
            6 => {
                self.p("NOT ");
                self.condition(0);
            }
            _ => {
                let op = *self.r.pick(&[" AND ", " OR ", " and "]);
                let n = self.r.range(1, 3);
                self.condition(d - 1);
                for _ in 0..n {
                    self.p(op);
                    self.condition(0);
                }
            }
        }
    }
    fn query(&mut self, d: u64, sub: bool) {
        self.one(&["SELECT ", "SELECT ", "select "]);
        let n = self.r.range(1, 5);
        if self.c(1, 10) && !sub {
            self.one(&["COUNT()", "FIELDS(ALL)", "COUNT(Id) total", "Name, COUNT(Id)", "MAX(Amount__c), Name n"]);
        } else {
            for i in 0..n {
                if i > 0 {
                    self.p(", ");
                }
                match self.r.below(12) {
                    0 if !sub => {
                        self.p("(");
                        self.query(0, true);
                        self.p(")");
                    }
                    1 if !sub && self.c(1, 15) => {
                        self.p("TYPEOF What WHEN Account THEN Phone, Name WHEN Opportunity THEN Amount ELSE Name END");
                    }
                    2 => self.one(&["toLabel(Status)", "FORMAT(Amount)", "convertCurrency(Amount)"]),
                    _ => self.field(),
                }
            }
        }
        self.one(&[" FROM ", " FROM ", " from "]);
        self.one(&["Account", "Contacts", "My_Object__c", "Account a", "Opportunity"]);
        if self.c(1, 12) && !sub {
            self.one(&[", Account.Contacts c", ", a.Owner o, a.Contacts", ", Contact"]);
        }
        if self.c(1, 12) && !sub {
            self.one(&[" USING SCOPE Mine", " USING SCOPE team", " using scope everything", " USING ListView = MyView", " USING LOOKUP Account.Owner", " USING LOOKUP a.b BIND c = 'x', d = 3"]);
        }
        if self.c(2, 3) {
            self.p(" WHERE ");
            self.condition(d.min(2));
        }
        if self.c(1, 8) {
            self.one(&[" WITH SECURITY_ENFORCED", " WITH USER_MODE", " WITH SYSTEM_MODE"]);
        }
        if self.c(1, 10) {
            self.p(" GROUP BY ");
            self.one(&["Name", "Name, Type", "ROLLUP(Name)", "CUBE(Name, Type)"]);
            if self.c(1, 2) {
                self.p(" HAVING COUNT(Id) > 1");
            }
        }
        if self.c(1, 4) {
            self.p(" ORDER BY ");
            self.field();
            self.one(&["", " ASC", " DESC NULLS LAST", " NULLS FIRST", ", Id desc"]);
        }
        if self.c(1, 4) {
            self.one(&[" LIMIT 1", " LIMIT :max", " limit 200"]);
        }
        if self.c(1, 10) {
            self.one(&[" OFFSET 10", " OFFSET :skip"]);
        }
        if self.c(1, 8) && !sub {
            self.one(&[" FOR UPDATE", " FOR VIEW", " FOR REFERENCE", " for view, reference", " FOR REFERENCE, UPDATE"]);
        }
        if self.c(1, 16) && !sub {
            self.one(&[" UPDATE TRACKING", " UPDATE VIEWSTAT", " update tracking, viewstat"]);
        }
        if self.c(1, 16) && !sub {
            self.p(" ALL ROWS");
        }
    }
    fn sosl(&mut self) {
        self.p("FIND ");
        self.one(&["'map*'", ":term", ":acc.Name"]);
        self.one(&[" IN ALL FIELDS", " IN NAME FIELDS", ""]);
        self.p(" RETURNING ");
        self.one(&["Account(Id, Name)", "Account(Id, Name WHERE Name = 'x' ORDER BY Name LIMIT 5), Contact", "Lead(Name), Contact(Id, Email)"]);
        self.one(&["", "", "", " RETURNING Case, Task(Id LIMIT 1 OFFSET 2)", ", Case(Id USING ListView = Mine)"]);
        self.one(&["", "", "", " WITH DIVISION = 'Global'", " WITH HIGHLIGHT", " WITH SNIPPET (target_length = 120)", " WITH METADATA = 'LABELS' WITH SPELL_CORRECTION = false", " WITH NETWORK = '0DB000'", " USING ADVANCED SEARCH"]);
        self.one(&["", "", " LIMIT 10", " LIMIT 10 OFFSET 3", " LIMIT :max"]);
        self.one(&["", "", "", "", " UPDATE TRACKING", " UPDATE VIEWSTAT, TRACKING"]);
    }
    fn nl(&mut self, ind: usize) {
        self.p("\n");
        let k = match self.r.below(6) {
            0 => 0,
            1 => ind * 4,
            _ => ind * 2,
        };
        let s = if self.c(1, 12) { "\t".repeat(ind) } else { " ".repeat(k) };
        self.p(&s);
    }
    fn words(&mut self) {
        for _ in 0..self.r.range(1, 8) {
            if self.s.ends_with('*') {
                self.p(" ");
            }
            self.one(&["the", "TODO:", "x = 1;", "fix", "  wide", "1.", "-", "{", "'quoted'", "ä€", "@param a", "http://x.y", "*", "a*b", "\"", "//"]);
            self.p(" ");
        }
        self.one(&["end", ".", "", "!"]);
    }
    fn comment(&mut self, ind: usize) {
        match self.r.below(7) {
            0 | 1 => {
                self.one(&["// ", "//", "//  ", "///"]);
                self.words();
            }
            2 => {
                self.p("/* ");
                self.words();
                self.p(" */");
            }
            3 => {
                self.p("/*");
                for _ in 0..self.r.range(1, 3) {
                    self.nl(ind);
                    self.one(&["", " * ", "*", "   "]);
                    self.words();
                }
                self.nl(ind);
                self.p("*/");
            }
            _ => {
                self.p("/**");
                if self.c(1, 4) {
                    self.p(" ");
                    self.words();
                }
                for _ in 0..self.r.range(0, 4) {
                    self.nl(ind);
                    self.one(&[" * ", "*", " *", " *   ", "   ", " *         ", " *\t", "          * "]);
                    if self.c(5, 6) {
                        self.words();
                    }
                }
                if self.c(1, 4) {
                    self.p(" */");
                } else {
                    self.nl(ind);
                    self.one(&[" */", "*/", "  */"]);
                }
            }
        }
    }
    /// The start of a line that a member or statement begins, with a comment before it now and then.
    fn line(&mut self, ind: usize) {
        if self.c(1, 8) {
            self.nl(0);
            if self.c(1, 4) {
                self.nl(0);
            }
        }
        self.nl(ind);
        if self.comments && self.c(1, 9) {
            self.comment(ind);
            self.nl(ind);
        }
    }
    fn end_comment(&mut self) {
        if self.comments && self.c(1, 14) {
            self.one(&[" // ", "  //", " // "]);
            self.words();
        }
    }
    fn block(&mut self, d: u64, ind: usize) {
        self.p("{");
        let n = match self.r.below(8) {
            0 => 0,
            1..=4 => 1,
            5 | 6 => 2,
            _ => self.r.below(6),
        };
        if n == 0 {
            if self.comments && self.c(1, 4) {
                self.nl(ind + 1);
                self.comment(ind + 1);
                self.nl(ind);
            } else if self.c(1, 2) {
                self.nl(ind);
            }
            self.p("}");
            return;
        }
        for _ in 0..n {
            self.line(ind + 1);
            self.stmt(d, ind + 1);
            self.end_comment();
        }
        self.nl(ind);
        self.p("}");
    }
    fn body(&mut self, d: u64, ind: usize) {
        if self.c(1, 5) {
            self.nl(ind + 1);
            self.simple(1);
        } else {
            self.block(d, ind);
        }
    }
    fn simple(&mut self, d: u64) {
        match self.r.below(9) {
            0 => {
                self.p("return");
                if self.c(4, 5) {
                    self.p(" ");
                    self.expr(d + 1);
                }
            }
            1 => {
                self.p("throw new ");
                self.one(&["MyException", "Outer.FailException", "IllegalArgumentException"]);
                self.args(d);
            }
            2 => {
                self.name();
                self.p(" ");
                self.one(&["=", "+=", "-=", "*=", "/=", "|=", "&=", "<<=", ">>="]);
                self.p(" ");
                self.expr(d + 1);
            }
            3 => self.chain(d),
            4 => {
                self.one(&["insert", "update", "delete", "undelete", "upsert", "INSERT", "insert as user", "update as system"]);
                self.p(" ");
                match self.r.below(3) {
                    0 => self.name(),
                    1 => self.p("new Account(Name = 'x')"),
                    _ => self.chain(0),
                }
            }
            5 => self.one(&["upsert accs External_Id__c", "merge a b", "i++", "--count", "count--"]),
            6 => {
                self.one(&["this.x", "acc.Name", "values[0]", "m.get('k')[1]"]);
                self.p(" = ");
                self.expr(d + 1);
            }
            _ => {
                self.name();
                self.args(d + 1);
            }
        }
        self.p(";");
    }
    fn stmt(&mut self, d: u64, ind: usize) {
        if d == 0 || self.left < 0 {
            return self.simple(1);
        }
        match self.r.below(22) {
            0..=5 => self.simple(1),
            6..=9 => {
                if self.c(1, 8) {
                    self.p("final ");
                }
                self.ty(2);
                self.p(" ");
                self.name();
                let n = if self.c(1, 10) { 2 } else { 1 };
                for i in 0..n {
                    if i > 0 {
                        self.p(", ");
                        self.name();
                    }
                    if self.c(1, 20) {
                        self.one(&["[]", " []", "[][]"]);
                    }
                    if self.c(4, 5) {
                        self.p(" = ");
                        self.expr(2);
                    }
                }
                self.p(";");
            }
            10 | 11 => {
                self.p("if (");
                self.expr(2);
                self.p(") ");
                self.body(d - 1, ind);
                for _ in 0..self.r.below(3) {
                    if self.c(1, 2) {
                        break;
                    }
                    self.one(&[" ", "\n"]);
                    self.p("else if (");
                    self.expr(1);
                    self.p(") ");
                    self.block(d - 1, ind);
                }
                if self.c(1, 2) {
                    self.one(&[" ", "\n"]);
                    self.p("else ");
                    self.body(d - 1, ind);
                }
            }
            12 => {
                self.p("for (");
                if self.c(1, 8) {
                    self.p(";;");
                } else {
                    self.one(&["Integer i = 0", "Integer i = 0, n = xs.size()", "i = 0"]);
                    self.p("; i < ");
                    self.expr(1);
                    self.p("; ");
                    self.one(&["i++", "i += 2", "--i", "i++, j--", "i++, count += xs.get(i).size(), theOtherVariableOfThisLoop = i"]);
                }
                self.p(") ");
                self.body(d - 1, ind);
            }
            13 | 14 => {
                self.p("for (");
                if self.c(1, 8) {
                    self.p("final ");
                }
                self.ty(1);
                self.p(" ");
                self.name();
                if self.c(1, 20) {
                    self.one(&["[]", " [][]"]);
                }
                self.p(" : ");
                self.expr(2);
                self.p(") ");
                self.body(d - 1, ind);
            }
            15 => {
                self.p("while (");
                self.expr(1);
                self.p(") ");
                self.body(d - 1, ind);
            }
            16 => {
                self.p("do ");
                self.block(d - 1, ind);
                self.p(" while (");
                self.expr(1);
                self.p(");");
            }
            17 | 18 => {
                self.p("try ");
                self.block(d - 1, ind);
                let n = self.r.below(3);
                for _ in 0..n {
                    self.p(" catch (");
                    self.one(&["Exception", "DmlException", "Outer.MyException"]);
                    self.p(" e) ");
                    self.block(d - 1, ind);
                }
                if n == 0 || self.c(1, 3) {
                    self.p(" finally ");
                    self.block(d - 1, ind);
                }
            }
            19 => {
                self.p("switch on ");
                self.atom(1);
                self.p(" {");
                let kind = self.r.below(4);
                for _ in 0..self.r.range(1, 3) {
                    self.nl(ind + 1);
                    self.p("when ");
                    match kind {
                        0 => self.one(&["1", "2, 3", "-1", "null"]),
                        1 => self.one(&["'a'", "'b', 'c'", "null"]),
                        2 => self.one(&["Account a", "Contact con", "My_Object__c obj"]),
                        _ => self.one(&["SPRING", "SUMMER, AUTUMN"]),
                    }
                    self.p(" ");
                    self.block(d - 1, ind + 1);
                }
                if self.c(1, 2) {
                    self.nl(ind + 1);
                    self.p("when else ");
                    self.block(d - 1, ind + 1);
                }
                self.nl(ind);
                self.p("}");
            }
            20 => match self.r.below(3) {
                0 => {
                    self.p("System.runAs(");
                    self.atom(1);
                    self.p(") ");
                    self.block(d - 1, ind);
                }
                1 => self.one(&["break;", "continue;"]),
                _ => self.block(d - 1, ind),
            },
            _ => {
                self.p("List<Account> found = [");
                self.query(2, false);
                self.p("];");
            }
        }
    }
    fn annotation(&mut self, ind: usize) {
        self.one(&["@IsTest", "@AuraEnabled", "@isTest(SeeAllData=true)", "@AuraEnabled(cacheable=true)", "@InvocableMethod(label='Do it' description='Does it, really')", "@future(callout=true)", "@TestVisible", "@SuppressWarnings('PMD.X')", "@RestResource(urlMapping='/x/*')", "@HttpGet", "@Deprecated", "@JsonAccess(serializable='always' deserializable='never')"]);
        if self.c(1, 2) {
            self.nl(ind);
        } else {
            self.p(" ");
        }
    }
    fn modifiers(&mut self, ind: usize, v: &[&str]) {
        if self.c(1, 5) {
            self.annotation(ind);
            if self.c(1, 8) {
                self.annotation(ind);
            }
        }
        self.one(v);
        self.p(" ");
    }
    fn params(&mut self) {
        self.p("(");
        let n = self.r.below(5);
        for i in 0..n {
            if i > 0 {
                self.p(", ");
            }
            if self.c(1, 8) {
                self.p("final ");
            }
            self.ty(2);
            self.p(" ");
            self.name();
        }
        self.p(")");
    }
    fn member(&mut self, ind: usize, depth: u64, class: &str) {
        match self.r.below(20) {
            0..=3 => {
                self.modifiers(ind, &["public", "private", "private static final", "protected", "global", "public static", "transient", "public transient", "static"]);
                self.ty(2);
                self.p(" ");
                self.name();
                if self.c(1, 10) {
                    self.p(", ");
                    self.name();
                }
                if self.c(1, 20) {
                    self.one(&["[]", " []", "[][]"]);
                }
                if self.c(1, 2) {
                    self.p(" = ");
                    self.expr(2);
                }
                self.p(";");
            }
            4 | 5 => {
                self.modifiers(ind, &["public", "public static", "global", "private"]);
                self.ty(2);
                self.p(" ");
                self.name();
                self.p(" { ");
                match self.r.below(5) {
                    0 => self.p("get; set; "),
                    1 => self.p("get; private set; "),
                    2 => self.p("get; "),
                    3 => {
                        self.p("get ");
                        self.block(1, ind + 1);
                        self.p(" set; ");
                    }
                    _ => {
                        self.p("get ");
                        self.block(1, ind + 1);
                        self.p(" set ");
                        self.block(1, ind + 1);
                    }
                }
                self.p("}");
            }
            6..=13 => {
                self.modifiers(ind, &["public", "private", "public static", "global static", "public override", "protected virtual", "public virtual", "private static", "global"]);
                if self.c(1, 2) {
                    self.p("void");
                } else {
                    self.ty(2);
                }
                self.p(" ");
                self.name();
                self.params();
                self.one(&[" ", " ", "", "\n"]);
                self.block(3, ind);
            }
            14 => {
                self.modifiers(ind, &["public abstract", "protected abstract", "global abstract"]);
                self.ty(1);
                self.p(" ");
                self.name();
                self.params();
                self.p(";");
            }
            15 => {
                self.modifiers(ind, &["public", "private", "global"]);
                self.p(class);
                self.params();
                self.p(" {");
                if self.c(1, 2) {
                    self.nl(ind + 1);
                    self.one(&["this", "super"]);
                    self.args(1);
                    self.p(";");
                }
                self.line(ind + 1);
                self.stmt(1, ind + 1);
                self.nl(ind);
                self.p("}");
            }
            16 => {
                self.one(&["static ", ""]);
                self.block(2, ind);
            }
            17 => {
                self.modifiers(ind, &["public", "private", "global"]);
                self.enumeration();
            }
            _ => {
                if depth > 0 {
                    self.declaration(ind, depth - 1);
                } else {
                    self.p("Integer ");
                    self.name();
                    self.p(";");
                }
            }
        }
    }
    fn enumeration(&mut self) {
        self.p("enum ");
        self.name();
        self.p(" { ");
        let n = self.r.below(5);
        for i in 0..n {
            if i > 0 {
                self.p(", ");
            }
            self.one(&["SPRING", "summer", "AUTUMN_LEAVES", "W"]);
        }
        self.p(" }");
    }
    fn declaration(&mut self, ind: usize, depth: u64) {
        match self.r.below(12) {
            0 => {
                self.modifiers(ind, &["public", "global"]);
                self.enumeration();
            }
            1 => {
                self.modifiers(ind, &["public", "global"]);
                self.p("interface ");
                self.name();
                if self.c(1, 3) {
                    self.p(" extends Base");
                    if self.c(1, 3) {
                        self.p(", Other<String>");
                    }
                }
                self.p(" {");
                for _ in 0..self.r.below(4) {
                    self.line(ind + 1);
                    self.ty(2);
                    self.p(" ");
                    self.name();
                    self.params();
                    self.p(";");
                    self.end_comment();
                }
                self.nl(ind);
                self.p("}");
            }
            _ => {
                self.modifiers(ind, &["public", "public with sharing", "private", "global without sharing", "public inherited sharing", "public abstract", "public virtual with sharing", "private virtual"]);
                let n = format!("C{}", self.r.below(100));
                self.p("class ");
                self.p(&n);
                if self.c(1, 4) {
                    self.one(&[" extends Base", " extends Outer.Base", " extends Gen<String>"]);
                }
                if self.c(1, 4) {
                    self.p(" implements ");
                    self.one(&["Queueable", "Database.Batchable<SObject>, Database.Stateful", "Comparable, I1, Outer.I2, Schedulable, System.Callable"]);
                }
                self.one(&[" {", " {", "\n{"]);
                let k = match self.r.below(6) {
                    0 => 0,
                    1 | 2 => 1,
                    _ => self.r.below(5),
                };
                for _ in 0..k {
                    self.line(ind + 1);
                    self.member(ind + 1, depth, &n);
                    self.end_comment();
                }
                self.nl(ind);
                self.p("}");
            }
        }
    }
    fn unit(&mut self) {
        if self.comments && self.c(1, 5) {
            self.comment(0);
            self.nl(0);
        }
        if self.c(1, 10) {
            self.p("trigger ");
            self.name();
            self.p(" on Account (");
            self.one(&["before insert", "before insert, after update", "after delete, after undelete, before update"]);
            self.p(") ");
            self.block(3, 0);
        } else {
            self.declaration(0, 1);
        }
        self.one(&["\n", "", "\n\n"]);
    }
}
/// A program of at most roughly `size` bytes.
pub fn program(r: &mut Rng, size: usize, mb: u64, comments: bool) -> String {
    let mut g = G { r, s: String::new(), mb, left: size as i64, comments };
    g.unit();
    g.s
}
