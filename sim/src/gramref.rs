//! Reference recogniser for Modelica stored definitions: which token
//! sequences are well-formed.  It follows the concrete syntax of the Modelica
//! specification (appendix A) with the documented leniencies of mofmt: any
//! simple expression is accepted as an equation, and an equation section may
//! mix them.  Independent of mofmt's parser; used only to decide which files
//! must be accepted and which must be refused.

pub struct P<'a> {
    t: &'a [&'static str],
    i: usize,
}
type R = Result<(), usize>;

const PREFS: &[&str] = &[
    "partial", "class", "model", "record", "function", "block", "type", "operator", "connector", "package",
    "pure", "impure", "expandable",
];
const BREAKERS: &[&str] = &["protected", "public", "initial", "equation", "algorithm", "end", "annotation", "external"];

pub fn valid(t: &[&'static str]) -> R {
    let mut p = P { t, i: 0 };
    p.stored()
}

impl<'a> P<'a> {
    fn at(&self, n: usize) -> &'static str {
        self.t.get(self.i + n).copied().unwrap_or("<eof>")
    }
    fn is(&self, k: &str) -> bool {
        self.at(0) == k
    }
    fn any(&self, ks: &[&str]) -> bool {
        ks.contains(&self.at(0))
    }
    fn opt(&mut self, k: &str) -> bool {
        if self.is(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn opts(&mut self, ks: &[&str]) -> bool {
        if self.any(ks) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, k: &str) -> R {
        if self.opt(k) {
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn sep(&mut self, f: fn(&mut Self) -> R) -> R {
        f(self)?;
        while self.opt(",") {
            f(self)?;
        }
        Ok(())
    }
    fn ident(&mut self) -> R {
        self.need("ident")
    }

    fn stored(&mut self) -> R {
        if self.opt("within") {
            if !self.is(";") {
                self.name()?;
            }
            self.need(";")?;
        }
        while self.i < self.t.len() {
            self.opt("final");
            self.class_def()?;
            self.need(";")?;
        }
        Ok(())
    }
    fn class_def(&mut self) -> R {
        self.opt("encapsulated");
        self.prefixes()?;
        if self.is("extends") || (self.is("ident") && self.at(1) != "=") {
            self.long()
        } else if self.is("ident") && self.at(2) == "der" {
            self.der_spec()
        } else if self.is("ident") {
            self.short()
        } else {
            Err(self.i)
        }
    }
    fn prefixes(&mut self) -> R {
        self.opt("partial");
        match self.at(0) {
            "class" | "model" | "block" | "type" | "package" | "record" | "connector" | "function" => self.i += 1,
            "expandable" => {
                self.i += 1;
                self.need("connector")?;
            }
            "operator" => {
                self.i += 1;
                self.opts(&["record", "function"]);
            }
            "pure" | "impure" => {
                self.i += 1;
                self.opt("operator");
                self.need("function")?;
            }
            _ => return Err(self.i),
        }
        Ok(())
    }
    fn long(&mut self) -> R {
        if self.opt("extends") {
            self.ident()?;
            if self.is("(") {
                self.class_mod()?;
            }
        } else {
            self.ident()?;
        }
        self.dstring()?;
        self.composition()?;
        self.need("end")?;
        self.ident()
    }
    fn short(&mut self) -> R {
        self.ident()?;
        self.need("=")?;
        if self.opt("enumeration") {
            self.need("(")?;
            if !self.opt(":") && self.is("ident") {
                self.sep(|p| {
                    p.ident()?;
                    p.descr()
                })?;
            }
            self.need(")")?;
        } else {
            self.opts(&["input", "output"]);
            self.tspec()?;
            if self.is("[") {
                self.subs()?;
            }
            if self.is("(") {
                self.class_mod()?;
            }
        }
        self.descr()
    }
    fn der_spec(&mut self) -> R {
        self.ident()?;
        self.need("=")?;
        self.need("der")?;
        self.need("(")?;
        self.tspec()?;
        self.need(",")?;
        self.sep(Self::ident)?;
        self.need(")")?;
        self.descr()
    }
    fn composition(&mut self) -> R {
        self.elements()?;
        loop {
            match self.at(0) {
                "public" | "protected" => {
                    self.i += 1;
                    self.elements()?;
                }
                "initial" | "equation" | "algorithm" => {
                    self.opt("initial");
                    let eq = self.is("equation");
                    if !self.opts(&["equation", "algorithm"]) {
                        return Err(self.i);
                    }
                    while !self.any(BREAKERS) {
                        if eq {
                            self.equation()?;
                        } else {
                            self.statement()?;
                        }
                        self.need(";")?;
                    }
                }
                _ => break,
            }
        }
        if self.opt("external") {
            self.opt("string");
            if self.any(&[".", "ident"]) {
                if self.at(1) != "(" {
                    self.cref()?;
                    self.need("=")?;
                }
                self.ident()?;
                self.need("(")?;
                if !self.is(")") {
                    self.sep(Self::expr)?;
                }
                self.need(")")?;
            }
            if self.is("annotation") {
                self.annot()?;
            }
            self.need(";")?;
        }
        if self.is("annotation") {
            self.annot()?;
            self.need(";")?;
        }
        Ok(())
    }
    fn elements(&mut self) -> R {
        while !self.any(BREAKERS) {
            self.element()?;
            self.need(";")?;
        }
        Ok(())
    }
    fn element(&mut self) -> R {
        if self.opt("import") {
            if self.at(1) == "=" {
                self.ident()?;
                self.need("=")?;
                self.name()?;
            } else {
                self.name()?;
                if !self.opt(".*") && self.opt(".") {
                    self.need("{")?;
                    self.sep(Self::ident)?;
                    self.need("}")?;
                }
            }
            return self.descr();
        }
        if self.opt("extends") {
            self.tspec()?;
            if self.opt("(") {
                if !self.opt(")") {
                    self.sep(|p| {
                        if p.opt("break") {
                            if p.is("connect") {
                                p.connect()
                            } else {
                                p.ident()
                            }
                        } else {
                            p.argument()
                        }
                    })?;
                    self.need(")")?;
                }
            }
            if self.is("annotation") {
                self.annot()?;
            }
            return Ok(());
        }
        for k in ["redeclare", "final", "inner", "outer"] {
            self.opt(k);
        }
        let repl = self.opt("replaceable");
        if self.any(PREFS) || self.is("encapsulated") {
            self.class_def()?;
        } else {
            self.type_prefix();
            self.tspec()?;
            if self.is("[") {
                self.subs()?;
            }
            self.sep(|p| {
                p.declaration()?;
                if p.opt("if") {
                    p.expr()?;
                }
                p.descr()
            })?;
        }
        if repl && self.is("constrainedby") {
            self.constraining()?;
            self.descr()?;
        }
        Ok(())
    }
    fn constraining(&mut self) -> R {
        self.need("constrainedby")?;
        self.tspec()?;
        if self.is("(") {
            self.class_mod()?;
        }
        Ok(())
    }
    fn type_prefix(&mut self) {
        self.opts(&["flow", "stream"]);
        self.opts(&["discrete", "parameter", "constant"]);
        self.opts(&["input", "output"]);
    }
    fn declaration(&mut self) -> R {
        self.ident()?;
        if self.is("[") {
            self.subs()?;
        }
        if self.any(&["(", "=", ":="]) {
            self.modification()?;
        }
        Ok(())
    }
    fn modification(&mut self) -> R {
        if self.opts(&["=", ":="]) {
            return self.mod_expr();
        }
        self.class_mod()?;
        if self.opt("=") {
            self.mod_expr()?;
        }
        Ok(())
    }
    fn mod_expr(&mut self) -> R {
        if self.opt("break") {
            Ok(())
        } else {
            self.expr()
        }
    }
    fn class_mod(&mut self) -> R {
        self.need("(")?;
        if self.opt(")") {
            return Ok(());
        }
        self.sep(Self::argument)?;
        self.need(")")
    }
    fn argument(&mut self) -> R {
        if self.opt("redeclare") {
            self.opt("each");
            self.opt("final");
            if self.is("replaceable") {
                self.repl()
            } else {
                self.redecl_body()
            }
        } else {
            self.opt("each");
            self.opt("final");
            if self.is("replaceable") {
                return self.repl();
            }
            self.name()?;
            if self.any(&["(", "=", ":="]) {
                self.modification()?;
            }
            self.dstring()
        }
    }
    fn repl(&mut self) -> R {
        self.need("replaceable")?;
        self.redecl_body()?;
        if self.is("constrainedby") {
            self.constraining()?;
        }
        Ok(())
    }
    fn redecl_body(&mut self) -> R {
        if self.any(PREFS) {
            self.prefixes()?;
            self.short()
        } else {
            self.type_prefix();
            self.tspec()?;
            self.declaration()?;
            self.descr()
        }
    }
    fn connect(&mut self) -> R {
        self.need("connect")?;
        self.need("(")?;
        self.cref()?;
        self.need(",")?;
        self.cref()?;
        self.need(")")
    }
    fn block(&mut self, eq: bool, until: &[&str]) -> R {
        while !self.any(until) {
            if eq {
                self.equation()?;
            } else {
                self.statement()?;
            }
            self.need(";")?;
        }
        Ok(())
    }
    /// `if`, `for`, `when` and `while`, shared by equations and statements
    fn compound(&mut self, eq: bool) -> R {
        match self.at(0) {
            "if" => {
                self.i += 1;
                self.expr()?;
                self.need("then")?;
                self.block(eq, &["elseif", "else", "end"])?;
                while self.opt("elseif") {
                    self.expr()?;
                    self.need("then")?;
                    self.block(eq, &["elseif", "else", "end"])?;
                }
                if self.opt("else") {
                    self.block(eq, &["end"])?;
                }
                self.need("end")?;
                self.need("if")
            }
            "for" => {
                self.i += 1;
                self.indices()?;
                self.need("loop")?;
                self.block(eq, &["end"])?;
                self.need("end")?;
                self.need("for")
            }
            "while" => {
                self.i += 1;
                self.expr()?;
                self.need("loop")?;
                self.block(eq, &["end"])?;
                self.need("end")?;
                self.need("while")
            }
            _ => {
                self.need("when")?;
                self.expr()?;
                self.need("then")?;
                self.block(eq, &["elsewhen", "end"])?;
                while self.opt("elsewhen") {
                    self.expr()?;
                    self.need("then")?;
                    self.block(eq, &["elsewhen", "end"])?;
                }
                self.need("end")?;
                self.need("when")
            }
        }
    }
    fn equation(&mut self) -> R {
        match self.at(0) {
            "if" | "for" | "when" => self.compound(true)?,
            "connect" => self.connect()?,
            _ => {
                self.simple()?;
                if self.opt("=") {
                    self.expr()?;
                }
            }
        }
        self.descr()
    }
    fn statement(&mut self) -> R {
        match self.at(0) {
            "if" | "for" | "when" | "while" => self.compound(false)?,
            "break" | "return" => self.i += 1,
            "(" => {
                self.i += 1;
                self.outputs()?;
                self.need(")")?;
                self.need(":=")?;
                self.cref()?;
                self.call()?;
            }
            _ => {
                self.cref()?;
                if self.opt(":=") {
                    self.expr()?;
                } else {
                    self.call()?;
                }
            }
        }
        self.descr()
    }
    fn indices(&mut self) -> R {
        self.sep(|p| {
            p.ident()?;
            if p.opt("in") {
                p.expr()?;
            }
            Ok(())
        })
    }
    fn expr(&mut self) -> R {
        if !self.opt("if") {
            return self.simple();
        }
        self.expr()?;
        self.need("then")?;
        self.expr()?;
        while self.opt("elseif") {
            self.expr()?;
            self.need("then")?;
            self.expr()?;
        }
        self.need("else")?;
        self.expr()
    }
    fn simple(&mut self) -> R {
        self.logical()?;
        for _ in 0..2 {
            if !self.opt(":") {
                break;
            }
            self.logical()?;
        }
        Ok(())
    }
    fn logical(&mut self) -> R {
        loop {
            self.opt("not");
            self.arith()?;
            if self.opts(&["<", "<=", ">", ">=", "==", "<>"]) {
                self.arith()?;
            }
            if !self.opts(&["or", "and"]) {
                return Ok(());
            }
        }
    }
    fn arith(&mut self) -> R {
        self.opts(&["+", "-", ".+", ".-"]);
        loop {
            self.primary()?;
            if self.opts(&["^", ".^"]) {
                self.primary()?;
            }
            if !self.opts(&["+", "-", ".+", ".-", "*", ".*", "/", "./"]) {
                return Ok(());
            }
        }
    }
    fn primary(&mut self) -> R {
        match self.at(0) {
            "ureal" | "uint" | "string" | "bool" | "end" => self.i += 1,
            "(" => {
                self.i += 1;
                self.outputs()?;
                self.need(")")?;
                if self.is("[") {
                    self.subs()?;
                }
            }
            "[" => {
                self.i += 1;
                self.sep(Self::expr)?;
                while self.opt(";") {
                    self.sep(Self::expr)?;
                }
                self.need("]")?;
            }
            "{" => {
                self.i += 1;
                self.expr()?;
                if self.opt(",") {
                    self.sep(Self::expr)?;
                } else if self.opt("for") {
                    self.indices()?;
                }
                self.need("}")?;
            }
            "der" | "initial" | "pure" => {
                self.i += 1;
                self.call()?;
            }
            _ => {
                self.cref()?;
                if self.is("(") {
                    self.call()?;
                }
            }
        }
        Ok(())
    }
    fn tspec(&mut self) -> R {
        self.opt(".");
        self.name()
    }
    fn name(&mut self) -> R {
        self.ident()?;
        while self.is(".") {
            match self.at(1) {
                "ident" => self.i += 2,
                "{" => break,
                _ => return Err(self.i),
            }
        }
        Ok(())
    }
    fn cref(&mut self) -> R {
        self.opt(".");
        loop {
            self.ident()?;
            if self.is("[") {
                self.subs()?;
            }
            if !self.opt(".") {
                return Ok(());
            }
        }
    }
    fn subs(&mut self) -> R {
        self.need("[")?;
        self.sep(|p| if p.opt(":") { Ok(()) } else { p.expr() })?;
        self.need("]")
    }
    fn call(&mut self) -> R {
        self.need("(")?;
        if self.opt(")") {
            return Ok(());
        }
        if self.at(1) == "=" {
            self.named()?;
        } else if self.is("function") {
            self.partial_app()?;
            if self.opt(",") {
                self.rest_args()?;
            }
        } else {
            self.expr()?;
            if self.opt(",") {
                self.rest_args()?;
            } else if self.opt("for") {
                self.indices()?;
            }
        }
        self.need(")")
    }
    fn rest_args(&mut self) -> R {
        loop {
            if self.at(1) == "=" {
                return self.named();
            }
            self.farg()?;
            if !self.opt(",") {
                return Ok(());
            }
        }
    }
    fn named(&mut self) -> R {
        self.sep(|p| {
            p.ident()?;
            p.need("=")?;
            p.farg()
        })
    }
    fn farg(&mut self) -> R {
        if self.is("function") {
            self.partial_app()
        } else {
            self.expr()
        }
    }
    fn partial_app(&mut self) -> R {
        self.need("function")?;
        self.tspec()?;
        self.need("(")?;
        if self.is("ident") {
            self.named()?;
        }
        self.need(")")
    }
    fn outputs(&mut self) -> R {
        if self.is(")") {
            return Ok(());
        }
        if !self.is(",") {
            self.expr()?;
        }
        while self.opt(",") {
            if !self.any(&[")", ","]) {
                self.expr()?;
            }
        }
        Ok(())
    }
    fn descr(&mut self) -> R {
        self.dstring()?;
        if self.is("annotation") {
            self.annot()?;
        }
        Ok(())
    }
    fn dstring(&mut self) -> R {
        if self.opt("string") {
            while self.opt("+") {
                self.need("string")?;
            }
        }
        Ok(())
    }
    fn annot(&mut self) -> R {
        self.need("annotation")?;
        self.class_mod()
    }
}
