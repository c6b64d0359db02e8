//! Generator of Modelica sources: every production of the grammar, in every
//! layout, with comments anywhere between tokens.

use crate::lexref;
use crate::prng::Rng;

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    t: Vec<String>,
    fuel: i32,
    depth: u32,
    max_depth: u32,
    /// longest list and the chance in thousand of making a long one
    long: usize,
    lean: bool,
    non_ascii: bool,
    eol: u8,
}

#[derive(Clone, Debug)]
pub struct Style {
    /// comments per thousand gaps; `usual` restricts them to line ends and own lines
    pub comments: u32,
    pub usual: bool,
    pub non_ascii: bool,
    pub layout: u8,
    /// 0 LF, 1 CRLF, 2 CR, 3 mixed
    pub eol: u8,
    pub fuel: i32,
}

/// A line ending of the style.
fn nl(r: &mut Rng, eol: u8) -> &'static str {
    match eol {
        0 => "\n",
        1 => "\r\n",
        2 => "\r",
        _ => *r.pick(&["\n", "\n", "\r\n", "\r"]),
    }
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style {
            comments: *r.pick(&[0, 0, 15, 40, 100, 250]),
            usual: r.pct(40),
            non_ascii: r.pct(35),
            layout: r.below(6) as u8,
            eol: r.weighted(&[78, 14, 3, 5]) as u8,
            fuel: *r.pick(&[3, 8, 20, 40, 90, 200]),
        }
    }
}

const IDS: &[&str] = &[
    "x", "y", "a", "b1", "Foo", "Bar", "R", "T_start", "_u", "Modelica", "Real", "Integer", "Boolean", "String", "SI",
    "k", "n", "phi", "time", "annotationx", "endx", "ify", "e1", "E", "within_", "aVeryLongIdentifierNameThatGoesOn",
    "'quoted id'", "'a.b'", "'+'", "'it\\'s'", "'end'", "'x//y'", "'/*q*/'", "'1'",
];
const STRS: &[&str] = &[
    "\"\"",
    "\"text\"",
    "\"a \\\"quoted\\\" word\"",
    "\"back\\\\slash\"",
    "\"// not a comment\"",
    "\"/* nor this */\"",
    "\"two\nlines\"",
    "\"three\n  indented\n\tlines \"",
    "\"<html><p>Info</p></html>\"",
    "\"semi;colon, comma\"",
    "\"tab\there\"",
    "\"a quite long descriptive string that would not easily fit on one line of the output file\"",
];
const USTRS: &[&str] = &["\"Größe\"", "\"température °C\"", "\"日本語\"", "\"ö\"", "\"😀 smile\"", "\"naïve \\\" é\""];
const NUMS: &[&str] = &["0", "1", "42", "3.14", "1e-3", "2.5E+6", "1.", "0.5e3", "100000000000000000000", "007", "1E5", "9.e1"];
const BITS: &[&str] = &[
    "a", "Z", "0", "text", " ", "  ", "\t", "\\\\", "\\\"", "\\n", "\\t", "\\'", "\\?", "\\\\\\\\", "//", "/*", "*/", "'", ";", ",", "(", ")", "{", "}", "%", "$", "#", "@", "!",
    "end", "equation", "=", ":=", "&", "|", "`", "~", "<br>", "\u{1}",
];
const UBITS: &[&str] = &["ö", "é", "日本", "\u{1F600}", "\u{2028}", "\u{85}", "\u{a0}", "e\u{301}", "\u{200b}", "°", "\u{feff}", "ß", "\u{7ff}\u{800}", "\u{10ffff}"];
const KEYS: &[&str] = &[
    "model", "end", "if", "then", "in", "or", "and", "not", "der", "for", "equation", "true", "false", "type", "each", "when", "loop", "initial", "within", "flow", "pure", "break", "import",
];

/// A string literal put together from pieces.
fn odd_string(r: &mut Rng, non_ascii: bool, eol: u8) -> String {
    let mut s = String::from("\"");
    let n = *r.pick(&[1usize, 2, 3, 5, 8, 20]);
    for _ in 0..n {
        if r.pct(8) {
            let e = nl(r, eol);
            s.push_str(e);
        } else if non_ascii && r.pct(25) {
            s.push_str(*r.pick(UBITS));
        } else {
            s.push_str(*r.pick(BITS));
        }
    }
    s.push('"');
    s
}

/// An identifier or a quoted identifier put together from characters.
fn odd_ident(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(4) {
        0 => {
            let k = *r.pick(KEYS);
            match r.below(5) {
                0 => s = format!("{k}_"),
                1 => s = format!("_{k}"),
                2 => s = format!("{k}{}", r.below(100)),
                3 => s = k.to_uppercase(),
                _ => s = format!("{k}{}", r.pick(KEYS)),
            }
        }
        1 => {
            for _ in 0..r.range(1, 12) {
                s.push(*r.pick(&['a', 'e', 'E', 'x', 'Z', '_', '0', '9', 'm']));
            }
            if s.starts_with(|c: char| c.is_ascii_digit()) {
                s.insert(0, 'q');
            }
        }
        _ => {
            s.push('\'');
            for _ in 0..r.range(1, 8) {
                match r.below(6) {
                    0 => s.push_str(*r.pick(&["\\\\", "\\'", "\\\"", "\\n", "\\?", "\\a"])),
                    1 | 2 => s.push(*r.pick(&['a', 'B', '1', '_', 'x'])),
                    _ => {
                        let all = "_!#$%&()*+,-./:;<>=?@[]^{}|~ \"";
                        s.push(all.as_bytes()[r.below(all.len())] as char);
                    }
                }
            }
            s.push('\'');
        }
    }
    s
}

fn odd_number(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        s.push((b'0' + r.below(10) as u8) as char);
    }
    if r.pct(60) {
        s.push('.');
        for _ in 0..r.below(4) {
            s.push((b'0' + r.below(10) as u8) as char);
        }
    }
    if r.pct(60) {
        s.push(*r.pick(&['e', 'E']));
        s.push_str(*r.pick(&["", "+", "-"]));
        for _ in 0..r.range(1, 3) {
            s.push((b'0' + r.below(10) as u8) as char);
        }
    }
    s
}

const CBITS: &[&str] = &[
    "a", "note", "TODO", " ", "  ", "\t", "*", "**", "***", "/", "//", "/ *", "\"", "'", "\\", ";", "end A;", "=", "-", "---", "#", "!", ".", "(", "{", "@", "<", ">", "0", "model B", "\u{c}", "%",
];

const COMM: &[&str] = &[
    "note", " note", " TODO: fix; this", " \"quoted\" text", "", " ", " end Foo;", " a // b", " trailing blanks   ", "\ttabbed",
    " model x", "----------", " * star", " it's", "!", "/ triple", " x = y", " within A;",
];
const UCOMM: &[&str] = &[" ö", " Größe", " °", " 日本語", " caf\u{e9}", " \u{1F600}", " – dash –", " \u{a0}nbsp", " \u{2028}sep"];

impl<'r> Gen<'r> {
    fn p(&mut self, s: &str) {
        self.t.push(s.to_string());
        self.fuel -= 1;
    }
    fn ps(&mut self, s: &[&str]) {
        for x in s {
            self.p(x);
        }
    }
    fn c(&mut self, pct: u32) -> bool {
        // everything optional gets rarer as fuel runs out
        let k = if self.fuel < 0 { pct / 4 } else { pct };
        self.rng.pct(k)
    }
    fn deep(&self) -> bool {
        self.depth > self.max_depth || self.fuel < -60
    }
    fn id(&mut self) {
        if self.rng.pct(3) {
            let s = odd_ident(self.rng);
            self.p(&s);
            return;
        }
        let odd = self.rng.pct(12);
        let s = *self.rng.pick(if odd { IDS } else { &IDS[..18] });
        self.p(s);
    }
    fn strlit(&mut self) {
        if self.rng.pct(30) {
            let s = odd_string(self.rng, self.non_ascii, self.eol);
            self.p(&s);
            return;
        }
        let s = *self.rng.pick(STRS);
        self.p(s);
    }
    fn name(&mut self) {
        self.id();
        while self.c(25) {
            self.p(".");
            self.id();
        }
    }
    fn tspec(&mut self) {
        if self.c(8) {
            self.p(".");
        }
        self.name();
    }
    fn list(&mut self, more: u32, f: fn(&mut Self)) {
        f(self);
        let mut n = 0;
        if self.long > 0 && self.rng.pct(4) {
            // once in a while a list longer than anybody would write by hand
            let k = self.rng.range(12, self.long);
            self.long = 0;
            while n < k {
                self.p(",");
                f(self);
                n += 1;
            }
            return;
        }
        while self.c(more) && n < 12 {
            self.p(",");
            f(self);
            n += 1;
        }
    }

    pub fn stored(&mut self) {
        if self.c(40) {
            self.p("within");
            if self.c(80) {
                self.name();
            }
            self.p(";");
        }
        if self.rng.pct(40) {
            self.spotlight();
            return;
        }
        let n = *self.rng.pick(&[1, 1, 1, 1, 2, 3, 0]);
        for _ in 0..n {
            if self.c(8) {
                self.p("final");
            }
            self.class_def();
            self.p(";");
        }
    }
    /// A class that holds a few instances of one production, each with fuel of
    /// its own, so that no production is left out because it comes late.
    fn spotlight(&mut self) {
        self.prefixes();
        self.id();
        let name = self.t.last().unwrap().clone();
        let which = self.rng.below(20);
        if which < 4 {
            let eq = which < 2;
            if self.rng.pct(20) {
                self.p("initial");
            }
            self.p(if eq { "equation" } else { "algorithm" });
        } else if which < 8 {
            self.p(if which < 6 { "equation" } else { "algorithm" });
        } else if which == 8 {
            self.p("external");
            if self.rng.pct(40) {
                self.strlit();
            }
        }
        let n = if which == 8 { 1 } else { self.rng.range(1, 4) };
        for _ in 0..n {
            self.fuel = if self.lean { *self.rng.pick(&[0, 2, 4, 8]) } else { *self.rng.pick(&[4, 12, 25, 50]) };
            match which {
                0 | 1 => {
                    self.compound(true);
                    self.descr();
                }
                2 | 3 => {
                    self.compound(false);
                    self.descr();
                }
                4 | 5 => self.equation(),
                6 | 7 => self.statement(),
                8 => {
                    if self.rng.pct(50) {
                        self.cref();
                        self.p("=");
                    }
                    self.id();
                    self.p("(");
                    if self.rng.pct(80) {
                        self.list(60, Self::expr);
                    }
                    self.p(")");
                    if self.rng.pct(50) {
                        self.annot();
                    }
                }
                9 => {
                    self.prefixes();
                    self.short();
                }
                10 => {
                    self.id();
                    self.p("=");
                    self.ps(&["enumeration", "("]);
                    self.list(70, |g| {
                        g.id();
                        g.descr()
                    });
                    self.p(")");
                    self.descr();
                    let k = self.t.len();
                    // `type` goes in front of what was just made
                    let from = self.t[..k].iter().rposition(|x| x == "enumeration").unwrap() - 2;
                    self.t.insert(from, "type".into());
                }
                11 => self.class_def(),
                12 => self.element_of(0),
                13 => self.element_of(1),
                14 => {
                    self.p("replaceable");
                    if self.rng.pct(40) {
                        self.class_def();
                    } else {
                        self.type_prefix();
                        self.tspec();
                        self.list(20, |g| {
                            g.declaration();
                            g.descr();
                        });
                    }
                    if self.rng.pct(80) {
                        self.constraining();
                        self.descr();
                    }
                }
                15 => {
                    self.p("extends");
                    self.tspec();
                    self.p("(");
                    self.list(60, Self::argument);
                    self.p(")");
                    if self.rng.pct(20) {
                        self.annot();
                    }
                }
                16 => {
                    self.ps(&["annotation"]);
                    self.class_mod();
                    if self.rng.pct(50) {
                        // it ends the class
                        self.p(";");
                        break;
                    }
                    self.t.pop();
                    while self.t.last().is_some_and(|x| x != "annotation") {
                        self.t.pop();
                    }
                    self.t.pop();
                    self.ps(&["Real"]);
                    self.declaration();
                    self.annot();
                }
                _ => {
                    self.tspec();
                    self.list(25, |g| {
                        g.id();
                        if g.rng.pct(20) {
                            g.subs();
                        }
                        if g.rng.pct(40) {
                            g.class_mod();
                        }
                        g.p("=");
                        g.expr();
                        if g.c(20) {
                            g.p("if");
                            g.expr();
                        }
                        g.descr();
                    });
                }
            }
            self.p(";");
        }
        self.ps(&["end", &name, ";"]);
    }
    fn class_def(&mut self) {
        self.depth += 1;
        if self.c(8) {
            self.p("encapsulated");
        }
        self.prefixes();
        match self.rng.weighted(&[70, 20, 5, 5]) {
            0 => self.long(false),
            1 => self.short(),
            2 => {
                self.id();
                self.ps(&["=", "der", "("]);
                self.tspec();
                self.p(",");
                self.list(30, Self::id);
                self.p(")");
                self.descr();
            }
            _ => self.long(true),
        }
        self.depth -= 1;
    }
    fn prefixes(&mut self) {
        if self.c(12) {
            self.p("partial");
        }
        let k = *self.rng.pick(&[
            "class", "model", "model", "model", "block", "type", "package", "record", "connector", "function", "expandable connector",
            "operator", "operator record", "operator function", "pure function", "impure function", "pure operator function",
        ]);
        for w in k.split(' ') {
            self.p(w);
        }
    }
    fn long(&mut self, ext: bool) {
        if ext {
            self.p("extends");
        }
        self.id();
        let name = self.t.last().unwrap().clone();
        if ext && self.c(50) {
            self.class_mod();
        }
        self.dstring();
        self.composition();
        self.p("end");
        self.p(&name);
    }
    fn short(&mut self) {
        self.id();
        self.p("=");
        if self.c(30) {
            self.ps(&["enumeration", "("]);
            if self.c(20) {
                self.p(":");
            } else if self.c(90) {
                self.list(60, |g| {
                    g.id();
                    g.descr()
                });
            }
            self.p(")");
        } else {
            if self.c(15) {
                let k = *self.rng.pick(&["input", "output"]);
                self.p(k);
            }
            self.tspec();
            if self.c(25) {
                self.subs();
            }
            if self.c(40) {
                self.class_mod();
            }
        }
        self.descr();
    }
    fn composition(&mut self) {
        self.elements();
        while self.c(55) {
            match self.rng.below(4) {
                0 => {
                    let k = *self.rng.pick(&["public", "protected"]);
                    self.p(k);
                    self.elements();
                }
                k => {
                    if self.c(20) {
                        self.p("initial");
                    }
                    let eq = k < 3 && self.rng.pct(75);
                    self.p(if eq { "equation" } else { "algorithm" });
                    self.block(eq, 60);
                }
            }
        }
        if self.c(10) {
            self.p("external");
            if self.c(70) {
                self.strlit();
            }
            if self.c(70) {
                if self.c(50) {
                    self.cref();
                    self.p("=");
                }
                self.id();
                self.p("(");
                if self.c(70) {
                    self.list(50, Self::expr);
                }
                self.p(")");
            }
            if self.c(50) {
                self.annot();
            }
            self.p(";");
        }
        if self.c(20) {
            self.annot();
            self.p(";");
        }
    }
    fn elements(&mut self) {
        while self.c(62) {
            self.element();
            self.p(";");
        }
    }
    fn element(&mut self) {
        let k = self.rng.weighted(&[12, 12, 76]);
        self.element_of(k);
    }
    fn element_of(&mut self, which: usize) {
        match which {
            0 => {
                self.p("import");
                match self.rng.below(4) {
                    0 => {
                        self.id();
                        self.p("=");
                        self.name();
                    }
                    1 => {
                        self.name();
                        self.p(".*");
                    }
                    2 => {
                        self.name();
                        self.ps(&[".", "{"]);
                        self.list(50, Self::id);
                        self.p("}");
                    }
                    _ => self.name(),
                }
                self.descr();
            }
            1 => {
                self.p("extends");
                self.tspec();
                if self.c(50) {
                    self.p("(");
                    if self.c(90) {
                        self.list(50, |g| {
                            if g.c(15) {
                                g.p("break");
                                if g.c(50) {
                                    g.connect();
                                } else {
                                    g.id();
                                }
                            } else {
                                g.argument();
                            }
                        });
                    }
                    self.p(")");
                }
                if self.c(15) {
                    self.annot();
                }
            }
            _ => {
                for (k, c) in [("redeclare", 6), ("final", 8), ("inner", 5), ("outer", 5)] {
                    if self.c(c) {
                        self.p(k);
                    }
                }
                let repl = self.c(12);
                if repl {
                    self.p("replaceable");
                }
                if !self.deep() && self.c(18) {
                    self.class_def();
                } else {
                    self.type_prefix();
                    self.tspec();
                    if self.c(15) {
                        self.subs();
                    }
                    self.list(18, |g| {
                        g.declaration();
                        if g.c(8) {
                            g.p("if");
                            g.expr();
                        }
                        g.descr();
                    });
                }
                if repl && self.c(50) {
                    self.constraining();
                    self.descr();
                }
            }
        }
    }
    fn constraining(&mut self) {
        self.p("constrainedby");
        self.tspec();
        if self.c(40) {
            self.class_mod();
        }
    }
    fn type_prefix(&mut self) {
        for ks in [&["flow", "stream"][..], &["discrete", "parameter", "constant"], &["input", "output"]] {
            if self.c(15) {
                let k = *self.rng.pick(ks);
                self.p(k);
            }
        }
    }
    fn declaration(&mut self) {
        self.id();
        if self.c(15) {
            self.subs();
        }
        if self.c(45) {
            self.modification();
        }
    }
    fn modification(&mut self) {
        let m = self.rng.below(3);
        if m == 0 {
            self.class_mod();
            if self.c(50) {
                self.p("=");
                self.mod_expr();
            }
        } else {
            let assign = self.rng.pct(12);
            self.p(if assign { ":=" } else { "=" });
            self.mod_expr();
        }
    }
    fn mod_expr(&mut self) {
        if self.c(6) {
            self.p("break");
        } else {
            self.expr();
        }
    }
    fn class_mod(&mut self) {
        self.depth += 1;
        self.p("(");
        if self.c(92) && !self.deep() {
            self.list(45, Self::argument);
        }
        self.p(")");
        self.depth -= 1;
    }
    fn argument(&mut self) {
        let each = self.c(10);
        let fin = self.c(10);
        let redecl = self.c(12);
        if redecl {
            self.p("redeclare");
        }
        if each {
            self.p("each");
        }
        if fin {
            self.p("final");
        }
        let repl = self.c(12);
        if repl {
            self.p("replaceable");
        }
        if repl || redecl {
            if self.c(30) {
                self.prefixes();
                self.short();
            } else {
                self.type_prefix();
                self.tspec();
                self.declaration();
                self.descr();
            }
            if repl && self.c(40) {
                self.constraining();
            }
        } else {
            self.name();
            if self.c(85) {
                self.modification();
            }
            self.dstring();
        }
    }
    fn connect(&mut self) {
        self.ps(&["connect", "("]);
        self.cref();
        self.p(",");
        self.cref();
        self.p(")");
    }
    fn block(&mut self, eq: bool, more: u32) {
        self.depth += 1;
        while self.c(more) {
            if eq {
                self.equation();
            } else {
                self.statement();
            }
            self.p(";");
        }
        self.depth -= 1;
    }
    fn compound(&mut self, eq: bool) {
        match self.rng.below(if eq { 3 } else { 4 }) {
            0 => {
                self.p("if");
                self.expr();
                self.p("then");
                self.block(eq, 55);
                while self.c(25) {
                    self.p("elseif");
                    self.expr();
                    self.p("then");
                    self.block(eq, 55);
                }
                if self.c(40) {
                    self.p("else");
                    self.block(eq, 55);
                }
                self.ps(&["end", "if"]);
            }
            1 => {
                self.p("for");
                self.indices();
                self.p("loop");
                self.block(eq, 55);
                self.ps(&["end", "for"]);
            }
            2 => {
                self.p("when");
                self.expr();
                self.p("then");
                self.block(eq, 55);
                while self.c(25) {
                    self.p("elsewhen");
                    self.expr();
                    self.p("then");
                    self.block(eq, 55);
                }
                self.ps(&["end", "when"]);
            }
            _ => {
                self.p("while");
                self.expr();
                self.p("loop");
                self.block(eq, 55);
                self.ps(&["end", "while"]);
            }
        }
    }
    fn equation(&mut self) {
        if !self.deep() && self.c(25) {
            self.compound(true);
        } else if self.c(20) {
            self.connect();
        } else {
            self.simple();
            if self.c(85) {
                self.p("=");
                self.expr();
            }
        }
        self.descr();
    }
    fn statement(&mut self) {
        if !self.deep() && self.c(25) {
            self.compound(false);
        } else {
            match self.rng.below(10) {
                0 => self.p("break"),
                1 => self.p("return"),
                2 => {
                    self.p("(");
                    self.outputs();
                    self.ps(&[")", ":="]);
                    self.cref();
                    self.call();
                }
                3 => {
                    self.cref();
                    self.call();
                }
                _ => {
                    self.cref();
                    self.p(":=");
                    self.expr();
                }
            }
        }
        self.descr();
    }
    fn indices(&mut self) {
        self.list(20, |g| {
            g.id();
            if g.c(85) {
                g.p("in");
                g.expr();
            }
        });
    }
    fn expr(&mut self) {
        self.depth += 1;
        if !self.deep() && self.c(8) {
            self.p("if");
            self.expr();
            self.p("then");
            self.expr();
            while self.c(20) {
                self.p("elseif");
                self.expr();
                self.p("then");
                self.expr();
            }
            self.p("else");
            self.expr();
        } else {
            self.simple();
        }
        self.depth -= 1;
    }
    fn simple(&mut self) {
        self.logical();
        if self.c(7) {
            self.p(":");
            self.logical();
            if self.c(30) {
                self.p(":");
                self.logical();
            }
        }
    }
    fn logical(&mut self) {
        loop {
            if self.c(5) {
                self.p("not");
            }
            self.arith();
            if self.c(10) {
                let k = *self.rng.pick(&["<", "<=", ">", ">=", "==", "<>"]);
                self.p(k);
                self.arith();
            }
            if !self.c(8) {
                return;
            }
            let k = *self.rng.pick(&["or", "and"]);
            self.p(k);
        }
    }
    fn arith(&mut self) {
        if self.c(10) {
            let k = *self.rng.pick(&["-", "-", "+", ".+", ".-"]);
            self.p(k);
        }
        loop {
            self.primary();
            if self.c(6) {
                let k = *self.rng.pick(&["^", ".^"]);
                self.p(k);
                self.primary();
            }
            if !self.c(25) {
                return;
            }
            let k = *self.rng.pick(&["+", "-", "*", "/", ".+", ".-", ".*", "./"]);
            self.p(k);
        }
    }
    fn primary(&mut self) {
        self.depth += 1;
        let w: &[u32] = if self.deep() { &[20, 5, 5, 2, 30] } else { &[20, 5, 5, 2, 30, 8, 4, 6, 6, 10] };
        match self.rng.weighted(w) {
            0 if self.rng.pct(25) => {
                let s = odd_number(self.rng);
                self.p(&s)
            }
            0 => {
                let s = *self.rng.pick(NUMS);
                self.p(s)
            }
            1 => self.strlit(),
            2 => {
                let s = *self.rng.pick(&["true", "false"]);
                self.p(s)
            }
            3 => self.p("end"),
            4 => self.cref(),
            5 => {
                self.p("(");
                self.outputs();
                self.p(")");
                if self.c(10) {
                    self.subs();
                }
            }
            6 => {
                self.p("[");
                self.list(40, Self::expr);
                while self.c(30) {
                    self.p(";");
                    self.list(40, Self::expr);
                }
                self.p("]");
            }
            7 => {
                self.p("{");
                self.expr();
                if self.c(15) {
                    self.p("for");
                    self.indices();
                } else {
                    while self.c(50) {
                        self.p(",");
                        self.expr();
                    }
                }
                self.p("}");
            }
            8 => {
                let k = *self.rng.pick(&["der", "initial", "pure"]);
                self.p(k);
                self.call();
            }
            _ => {
                self.cref();
                self.call();
            }
        }
        self.depth -= 1;
    }
    fn cref(&mut self) {
        if self.c(5) {
            self.p(".");
        }
        loop {
            self.id();
            if !self.deep() && self.c(12) {
                self.subs();
            }
            if !self.c(25) {
                return;
            }
            self.p(".");
        }
    }
    fn subs(&mut self) {
        self.p("[");
        self.list(25, |g| {
            if g.c(30) {
                g.p(":")
            } else {
                g.expr()
            }
        });
        self.p("]");
    }
    fn call(&mut self) {
        self.p("(");
        if self.c(85) {
            match self.rng.below(6) {
                0 => self.named(),
                1 => {
                    self.partial_app();
                    self.rest_args();
                }
                2 => {
                    self.plain_arg();
                    self.p("for");
                    self.indices();
                }
                _ => {
                    self.plain_arg();
                    self.rest_args();
                }
            }
        }
        self.p(")");
    }
    fn plain_arg(&mut self) {
        self.expr();
    }
    fn rest_args(&mut self) {
        while self.c(35) {
            self.p(",");
            if self.c(25) {
                self.named();
                return;
            }
            self.farg();
        }
    }
    fn named(&mut self) {
        self.list(40, |g| {
            g.id();
            g.p("=");
            g.farg();
        });
    }
    fn farg(&mut self) {
        if self.c(6) {
            self.partial_app();
        } else {
            self.expr();
        }
    }
    fn partial_app(&mut self) {
        self.p("function");
        self.tspec();
        self.p("(");
        if self.c(70) {
            self.named();
        }
        self.p(")");
    }
    fn outputs(&mut self) {
        if self.c(80) {
            self.expr();
        }
        while self.c(15) {
            self.p(",");
            if self.c(70) {
                self.expr();
            }
        }
    }
    fn descr(&mut self) {
        self.dstring();
        if self.c(7) && !self.deep() {
            self.annot();
        }
    }
    fn dstring(&mut self) {
        if self.c(14) {
            self.strlit();
            while self.c(12) {
                self.p("+");
                self.strlit();
            }
        }
    }
    fn annot(&mut self) {
        self.p("annotation");
        self.class_mod();
    }
}

pub fn tokens(rng: &mut Rng, st: &Style) -> Vec<String> {
    let max_depth = *rng.pick(&[4, 7, 7, 7, 10, 14]);
    let long = if rng.pct(6) { 60 } else { 0 };
    let mut g = Gen { rng, t: vec![], fuel: st.fuel, depth: 0, max_depth, long, lean: false, non_ascii: st.non_ascii, eol: st.eol };
    g.stored();
    g.t
}

/// A class with one or few specimens of a single production.
pub fn lean_tokens(rng: &mut Rng, st: &Style) -> Vec<String> {
    let mut g = Gen { rng, t: vec![], fuel: 8, depth: 0, max_depth: 7, long: 0, lean: true, non_ascii: st.non_ascii, eol: st.eol };
    g.spotlight();
    g.p(";");
    g.t
}

fn comment_text(r: &mut Rng, st: &Style, lines: bool) -> String {
    let mut s = String::new();
    for _ in 0..*r.pick(&[0usize, 1, 2, 3, 5, 9]) {
        if lines && r.pct(12) {
            let e = nl(r, st.eol);
            s.push_str(e);
        } else if st.non_ascii && r.pct(20) {
            s.push_str(*r.pick(UBITS));
        } else {
            s.push_str(*r.pick(CBITS));
        }
    }
    while s.contains("*/") {
        s = s.replace("*/", "* /");
    }
    s
}

fn comment(r: &mut Rng, st: &Style) -> (String, bool) {
    let txt = |r: &mut Rng| -> &'static str {
        if st.non_ascii && r.pct(40) {
            *r.pick(UCOMM)
        } else {
            *r.pick(COMM)
        }
    };
    match r.below(13) {
        0..=4 => (format!("//{}", txt(r)), true),
        5..=7 => (format!("/*{}*/", txt(r)), false),
        8 => {
            let eol = nl(r, st.eol);
            (format!("/*{eol}   {}{eol}*/", txt(r)), false)
        }
        9 => {
            let eol = nl(r, st.eol);
            (format!("/*{eol}{eol} * {}{eol}{eol}\t{} */", txt(r), txt(r)), false)
        }
        10 | 11 => (format!("//{}", comment_text(r, st, false)), true),
        _ => {
            let mut s = comment_text(r, st, true);
            if s.starts_with('/') {
                s.insert(0, ' ');
            }
            (format!("/*{s}*/"), false)
        }
    }
}

fn glue_ok(a: &str, b: &str) -> bool {
    let br = "(),;[]{}";
    let (x, y) = (a.chars().last().unwrap_or(' '), b.chars().next().unwrap_or(' '));
    br.contains(x) || br.contains(y) || (a == "." && y.is_ascii_alphabetic()) || (b == "." && (x.is_ascii_alphanumeric() && !a.starts_with(|c: char| c.is_ascii_digit())))
}

/// Lay the tokens out as text.
pub fn render(toks: &[String], rng: &mut Rng, st: &Style) -> String {
    for attempt in 0..3 {
        let s = render_once(toks, rng, st, attempt > 0);
        if let Ok(l) = lexref::lex(&s) {
            if lexref::code(&l).iter().map(|x| x.to_string()).eq(toks.iter().cloned()) {
                return s;
            }
        }
    }
    toks.join(" ") + "\n"
}

fn render_once(toks: &[String], r: &mut Rng, st: &Style, safe: bool) -> String {
    let mut s = String::new();
    let nl_permille = match st.layout {
        0 => 0,
        1 => 30,
        2 => 120,
        3 => 400,
        4 => 1000,
        _ => 10,
    };
    for i in 0..=toks.len() {
        let a: &str = if i == 0 { "" } else { &toks[i - 1] };
        let b: &str = toks.get(i).map(|x| x.as_str()).unwrap_or("");
        let line_end = matches!(a, ";" | "equation" | "algorithm" | "then" | "loop" | "else" | "public" | "protected" | "");
        let mut sep = String::new();
        let own_line = st.layout != 0 && st.layout != 5 && line_end;
        if i > 0 && i < toks.len() {
            if own_line && r.pct(85) {
                let mut k = 1;
                if r.pct(12) {
                    k = *r.pick(&[2, 2, 2, 3, 4, 12]);
                }
                for _ in 0..k {
                    sep.push_str(nl(r, st.eol));
                }
                for _ in 0..r.below(3) {
                    sep.push_str("  ");
                }
            } else if r.below(1000) < nl_permille {
                let k = if r.pct(10) { r.range(2, 3) } else { 1 };
                for _ in 0..k {
                    sep.push_str(nl(r, st.eol));
                }
                for _ in 0..r.below(3) {
                    sep.push(*r.pick(&[' ', '\t', ' ']));
                }
            } else if safe || !glue_ok(a, b) || r.pct(30) {
                sep.push_str(*r.pick(&[" ", " ", " ", " ", " ", "  ", "  ", "\t", "\t", "\u{c}"]));
            }
        } else if i == 0 && r.pct(10) {
            sep.push_str(*r.pick(&["\n", " ", "\r\n", "\n\n\n", "\t"]));
        }
        let want = if st.usual { line_end || i == toks.len() } else { true };
        let rate = if st.usual { st.comments * 3 } else { st.comments };
        if want && (r.below(1000) as u32) < rate {
            let n = if r.pct(2) { r.range(4, 12) } else { 1 + r.weighted(&[75, 18, 7]) };
            let same = if r.pct(10) { Some(comment(r, st)) } else { None };
            let mut c = String::new();
            for k in 0..n {
                let (txt, line) = match &same {
                    Some(c) => c.clone(),
                    None => comment(r, st),
                };
                if k > 0 || r.pct(60) {
                    match r.below(5) {
                        0 => c.push(' '),
                        1 => {}
                        2 => c.push_str(nl(r, st.eol)),
                        3 => {
                            for _ in 0..*r.pick(&[2, 2, 3, 5]) {
                                c.push_str(nl(r, st.eol));
                            }
                        }
                        _ => c.push_str("  "),
                    }
                }
                if a.ends_with('/') && c.is_empty() && k == 0 {
                    c.push(' ');
                }
                if a.ends_with('*') && c.is_empty() {
                    c.push(' ');
                }
                c.push_str(&txt);
                if line {
                    if i == toks.len() && k + 1 == n && r.pct(40) {
                        // a line comment may end the file without a newline
                    } else {
                        c.push_str(nl(r, st.eol));
                    }
                }
            }
            if r.pct(50) {
                sep = sep + &c;
            } else {
                sep = c + &sep;
            }
        }
        s.push_str(&sep);
        s.push_str(b);
    }
    match r.below(8) {
        0 => {}
        1 => s.push_str("\n\n"),
        2 => s.push_str("  "),
        _ => s.push_str(nl(r, st.eol)),
    }
    s
}

/// Swap some plain strings for ones with non-ASCII text.
pub fn localise(toks: &mut [String], r: &mut Rng) {
    for t in toks.iter_mut() {
        if t.starts_with('"') && r.pct(40) {
            *t = r.pick(USTRS).to_string();
        }
    }
}

pub fn source(rng: &mut Rng, st: &Style) -> String {
    let mut t = tokens(rng, st);
    if st.non_ascii {
        localise(&mut t, rng);
    }
    render(&t, rng, st)
}

/// Legal files of unusual shape.
pub const SHAPES: usize = 25;

pub fn shaped(r: &mut Rng, big: bool, kind: Option<usize>) -> String {
    let n = match (big, r.below(10)) {
        (false, _) => r.range(20, 300),
        (_, 0 | 1) => r.range(4000, 20000),
        _ => r.range(500, 4000),
    };
    let d = match (big, r.below(10)) {
        (false, _) => r.range(5, 40),
        (_, 0) => r.range(1000, 4000),
        (_, 1..=3) => r.range(120, 1000),
        _ => r.range(40, 120),
    };
    // as deep as the parser goes, and further
    let deep = match (big, r.below(24)) {
        (true, 0 | 1) => r.range(5000, 34_000),
        (true, 2) => r.range(60_000, 90_000),
        _ => d,
    };
    match kind.unwrap_or(r.below(SHAPES)) {
        21 => format!("model M\nequation\n  x = {}1{};\nend M;\n", "[".repeat(deep), "]".repeat(deep)),
        22 => format!("model M\nequation\n  x = {}1{};\nend M;\n", "f(function g(a=".repeat(d), "))".repeat(d)),
        23 => format!("model M\nequation\n  x = {}1{};\nend M;\n", "not (".repeat(deep), ")".repeat(deep)),
        // gaps that a small counter takes for none
        24 => {
            let mut gap = || "\n".repeat(*r.pick(&[255usize, 256, 257, 512, 513, 65_535, 65_536, 65_537]));
            format!("// a{}// b{}model M // c{}// d{}Real x;{}Real y /* e */ /* f{}*/; // g{}end M;{}// h{}/* i */{}// j\n", gap(), gap(), gap(), gap(), gap(), gap(), gap(), gap(), gap(), gap())
        }
        // more words than a small counter holds
        20 if big => format!("model M\nequation\n{}// last\nz = /* but one */ y;\nend M;\n", "x=y;\n".repeat(r.range(16_384, 22_000))),
        0 => format!("model M\n  Real x[{n}] = {{{}}};\nend M;\n", vec!["1.0"; n].join(",")),
        1 => format!("model M\nequation\n  x = f({});\nend M;\n", vec!["a + 1"; n].join(", ")),
        2 => format!("model M\nequation\n  x = {};\nend M;\n", vec!["y"; n].join(" + ")),
        3 => format!("model M\nequation\n  x = {}1{};\nend M;\n", "(".repeat(deep), ")".repeat(deep)),
        4 => format!("model M\nequation\n  x = {}1{};\nend M;\n", "{".repeat(deep), "}".repeat(deep)),
        5 => {
            // indentation alone grows with the square
            let d = d.min(900);
            let mut s = String::new();
            for i in 0..d {
                s += &format!("package P{i}\n");
            }
            for i in (0..d).rev() {
                s += &format!("end P{i};\n");
            }
            s
        }
        6 => {
            let d = d.min(900);
            format!("model M\nequation\n{}x = 1;\n{}end M;\n", "if a then\n".repeat(d), "end if;\n".repeat(d))
        }
        7 => format!("model M \"{}\"\nend M;\n", "long text ".repeat(n)),
        8 => format!("model M\n{}end M;\n", (0..n).map(|i| format!("  Real x{i};\n")).collect::<String>()),
        9 => format!("model M\n  {}\nend M;\n", (0..n).map(|i| format!("// line {i}\n  ")).collect::<String>()),
        10 => format!("model M\n  type E = enumeration({});\nend M;\n", (0..n).map(|i| format!("e{i} \"d\"")).collect::<Vec<_>>().join(", ")),
        11 => format!("model M\n  Real y({});\nend M;\n", (0..n).map(|i| format!("a{i} = {i}")).collect::<Vec<_>>().join(", ")),
        12 => format!("model M\nequation\n  x = f({});\nend M;\n", (0..n).map(|i| format!("a{i} = {i}")).collect::<Vec<_>>().join(", ")),
        13 => format!("model M\nequation\n  x = {}0;\nend M;\n", "if a then 1 else ".repeat(d)),
        14 => format!("model M\n  annotation({}x = 1{});\nend M;\n", "a(".repeat(d.min(300)), ")".repeat(d.min(300))),
        15 => format!("model M\nequation\n  x = {}1{};\nend M;\n", "f(".repeat(deep), ")".repeat(deep)),
        16 => format!("model M\nequation\n  x = {}1{};\nend M;\n", "a[".repeat(deep), "]".repeat(deep)),
        17 => {
            // more than any buffer
            let k = if big { r.range(1000, 20000) } else { r.range(120, 1500) };
            let l = "x".repeat(r.range(20, 60));
            format!("model M\n{}end M;\n", (0..k).map(|i| format!("  Real {l}{i};\n")).collect::<String>())
        }
        18 => {
            let k = if big { r.range(1000, 8000) } else { r.range(120, 1500) };
            format!("model M\n/*\n{}*/\nend M;{}\n", "  some long lines of text\n".repeat(k), " ".repeat(r.below(9)))
        }
        _ => format!("model M\nalgorithm\n{}end M;\n", "  x := a.b[1].c + f(x, y = 2);\n".repeat(n.min(5000))),
    }
}

/// Files that are all layout and comments.
pub fn hollow(r: &mut Rng, st: &Style) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) {
        let (c, line) = comment(r, st);
        s.push_str(&c);
        if line || r.pct(70) {
            s.push('\n');
        }
        if r.pct(20) {
            s.push('\n');
        }
    }
    if r.pct(20) {
        s.push_str(*r.pick(&["\n", " ", "\t\n", "\n\n\n"]));
    }
    s
}
