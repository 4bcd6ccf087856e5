//! Reference parser: the LL(1) grammar of Python 3.9 (Grammar/Grammar of the 3.9 sources), plus
//! `except*`, parenthesised `with` items and the 3.8 function-type input, written as plain
//! recursive descent over the reference lexer's tokens. It builds trees with this code base's
//! node names; field order mirrors the public node definitions, lists are in source order.
use crate::toks::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T { N(&'static str, Vec<T>), L(usize), G(Vec<T>), Nil }
use T::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { File, Eval, Single, FuncType }

/// Documented deviations of the implementation (known findings); all off = the grammar.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Dev {
    pub params: bool,     // def with parameters is rejected
    pub bare_yield: bool, // yield without a value is rejected
    pub star_rhs: bool,   // starred elements in an assigned value are rejected
    pub with_paren: bool, // '(' after with always opens an item list
    pub match_name: bool, // a statement that starts with the name match is rejected
    pub crlf: bool,       // lexical: CR LF takes the next character with it
}

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    /// highest token index examined
    pub seen: usize,
    pub dev: Dev,
    pub lex_end: usize,
    /// the grammar accepts something whose tree this model does not specify
    pub unspec: bool,
    /// either verdict is fine (the grammar accepts it, later stages of CPython reject it)
    pub dontcare: bool,
    /// first tokens of the statements being read; left as it is when parsing fails
    pub begun: Vec<usize>,
    stack: Vec<u64>,
    pub shifts: u64,
    pub states: Vec<u64>,
    pub want_states: bool,
}

type R = Result<T, ()>;

fn n(name: &'static str, f: Vec<T>) -> T { N(name, f) }

impl<'a> P<'a> {
    pub fn new(t: &'a [Tok], dev: Dev) -> P<'a> {
        P { t, i: 0, seen: 0, dev, lex_end: t.len(), unspec: false, dontcare: false, begun: vec![], stack: vec![0], shifts: 0, states: Vec::new(), want_states: false }
    }
    fn look(&mut self, k: usize) -> K {
        let j = self.i + k;
        if j > self.seen { self.seen = j; }
        if j < self.t.len() { self.t[j].k } else { K::LexErr }
    }
    fn k(&mut self) -> K { self.look(0) }
    fn text(&mut self) -> &'a str { self.look(0); if self.i < self.t.len() { &self.t[self.i].text } else { "" } }
    fn is(&mut self, k: K) -> bool { self.k() == k }
    fn shift(&mut self) -> T {
        if self.want_states {
            let h = self.stack[self.stack.len() - 1].wrapping_mul(31).wrapping_add(self.t[self.i].k as u64);
            self.states.push(h);
        }
        self.shifts += 1;
        self.i += 1;
        let _ = self.k(); // the lookahead is always one token ahead
        L(self.i - 1)
    }
    fn eat(&mut self, k: K) -> R { if self.is(k) { Ok(self.shift()) } else { Err(()) } }
    fn opt(&mut self, k: K) -> T { if self.is(k) { self.shift() } else { Nil } }
    fn rule<F: FnOnce(&mut Self) -> R>(&mut self, id: u64, f: F) -> R {
        let top = self.stack[self.stack.len() - 1];
        self.stack.push((top ^ id.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_mul(0xD6E8FEB86659FD93).rotate_left(17));
        let r = f(self);
        self.stack.pop();
        r
    }

    pub fn parse(&mut self, m: Mode) -> R {
        match m {
            Mode::File => self.file_input(),
            Mode::Eval => self.eval_input(),
            Mode::Single => self.single_input(),
            Mode::FuncType => self.func_type_input(),
        }
    }

    // ------------------------------------------------------------ entry points
    fn file_input(&mut self) -> R {
        let (mut nodes, mut nls) = (vec![], vec![]);
        loop {
            match self.k() {
                K::EOF => { let e = L(self.i); return Ok(n("FileInput", vec![G(nodes), G(nls), e])); }
                K::Newline => nls.push(self.shift()),
                _ => nodes.push(self.stmt()?),
            }
        }
    }
    fn eval_input(&mut self) -> R {
        let a = self.testlist()?;
        let nls = self.newlines();
        if !self.is(K::EOF) { return Err(()); }
        Ok(n("EvalInput", vec![a, G(nls), L(self.i)]))
    }
    fn newlines(&mut self) -> Vec<T> {
        let mut v = vec![];
        while self.is(K::Newline) { v.push(self.shift()); }
        v
    }
    fn single_input(&mut self) -> R {
        match self.k() {
            K::Newline => { let t = self.shift(); Ok(n("SingleInput", vec![Nil, t])) }
            K::PyIf | K::PyWhile | K::PyFor | K::PyTry | K::PyWith | K::PyDef | K::PyClass | K::PyAsync | K::PyMatrice => {
                let c = self.inside(|p| p.compound_stmt())?;
                match self.k() {
                    K::Newline => Ok(n("SingleInput", vec![c, L(self.i)])),
                    K::EOF => Ok(n("SingleInput", vec![c, Nil])),
                    _ => Err(()),
                }
            }
            _ => {
                if self.dev.match_name && self.is(K::AtomName) && self.text() == "match" { return Err(()); }
                let s = self.simple_stmt()?;
                Ok(n("SingleInput", vec![s, Nil]))
            }
        }
    }
    fn func_type_input(&mut self) -> R {
        let f = self.func_type()?;
        let nls = self.newlines();
        if !self.is(K::EOF) { return Err(()); }
        Ok(n("FuncTypeInput", vec![f, G(nls), L(self.i)]))
    }
    fn func_type(&mut self) -> R {
        let a = self.eat(K::PyLeftParen)?;
        let l = if self.is(K::PyRightParen) { Nil } else { self.rule(1, |p| p.typelist())? };
        let b = self.eat(K::PyRightParen)?;
        let c = self.eat(K::PyArrow)?;
        let r = self.test()?;
        Ok(n("FuncType", vec![a, l, b, c, r]))
    }
    fn typelist(&mut self) -> R {
        // test (',' test)* [',' ['*' [test] (',' test)* [',' '**' test] | '**' test]] | '*' ... | '**' test
        let (mut nodes, mut seps) = (vec![], vec![]);
        let (mut star, mut starn, mut pow, mut pown) = (Nil, Nil, Nil, Nil);
        let mut go_star = false;
        match self.k() {
            K::PyMul => go_star = true,
            K::PyPower => { pow = self.shift(); pown = self.test()?; }
            _ => {
                nodes.push(self.test()?);
                while self.is(K::PyComa) {
                    seps.push(self.shift());
                    match self.k() {
                        K::PyRightParen => break,
                        K::PyMul => { go_star = true; break; }
                        K::PyPower => { pow = self.shift(); pown = self.test()?; break; }
                        _ => nodes.push(self.test()?),
                    }
                }
            }
        }
        if go_star {
            star = self.shift();
            if !self.is(K::PyComa) && !self.is(K::PyRightParen) { starn = self.test()?; }
            while self.is(K::PyComa) {
                seps.push(self.shift());
                if self.is(K::PyPower) { pow = self.shift(); pown = self.test()?; break; }
                nodes.push(self.test()?);
            }
        }
        Ok(n("TypeList", vec![G(nodes), G(seps), star, starn, pow, pown]))
    }

    // ------------------------------------------------------------ statements
    fn inside<F: FnOnce(&mut Self) -> R>(&mut self, f: F) -> R {
        self.begun.push(self.i);
        let r = f(self);
        if r.is_ok() { self.begun.pop(); }
        r
    }
    pub fn stmt(&mut self) -> R { self.inside(|p| p.one_stmt()) }
    fn one_stmt(&mut self) -> R {
        match self.k() {
            K::PyIf | K::PyWhile | K::PyFor | K::PyTry | K::PyWith | K::PyDef | K::PyClass | K::PyAsync | K::PyMatrice => self.rule(2, |p| p.compound_stmt()),
            _ => {
                if self.dev.match_name && self.is(K::AtomName) && self.text() == "match" { return Err(()); }
                self.rule(3, |p| p.simple_stmt())
            }
        }
    }
    fn simple_stmt(&mut self) -> R {
        let (mut nodes, mut seps) = (vec![self.small_stmt()?], vec![]);
        while self.is(K::PySemiColon) {
            seps.push(self.shift());
            if self.is(K::Newline) { break; }
            nodes.push(self.small_stmt()?);
        }
        let nl = self.eat(K::Newline)?;
        Ok(n("SimpleStmtList", vec![G(nodes), G(seps), nl]))
    }
    fn small_stmt(&mut self) -> R { self.inside(|p| p.one_small_stmt()) }
    fn one_small_stmt(&mut self) -> R {
        let k = self.k();
        self.rule(100 + k as u64, |p| match k {
            K::PyDel => { let a = p.shift(); let l = p.exprlist()?; Ok(n("DelStmt", vec![a, l])) }
            K::PyPass => { let a = p.shift(); Ok(n("PassStmt", vec![a])) }
            K::PyBreak => { let a = p.shift(); Ok(n("BreakStmt", vec![a])) }
            K::PyContinue => { let a = p.shift(); Ok(n("ContinueStmt", vec![a])) }
            K::PyReturn => {
                let a = p.shift();
                let v = if p.is(K::Newline) || p.is(K::PySemiColon) { Nil } else { p.testlist_star_expr()? };
                Ok(n("ReturnStmt", vec![a, v]))
            }
            K::PyRaise => {
                let a = p.shift();
                if p.is(K::Newline) || p.is(K::PySemiColon) { return Ok(n("RaiseStmt", vec![a, Nil])); }
                let v = p.test()?;
                if p.is(K::PyFrom) {
                    let f = p.shift();
                    let w = p.test()?;
                    return Ok(n("RaiseStmt", vec![a, v, f, w]));
                }
                Ok(n("RaiseStmt", vec![a, v, Nil]))
            }
            K::PyYield => p.yield_expr(),
            K::PyImport => p.import_name(),
            K::PyFrom => p.import_from(),
            K::PyGlobal | K::PyNonLocal => {
                let a = p.shift();
                let (mut names, mut seps) = (vec![p.eat(K::AtomName)?], vec![]);
                while p.is(K::PyComa) { seps.push(p.shift()); names.push(p.eat(K::AtomName)?); }
                Ok(n(if k == K::PyGlobal { "GlobalStmt" } else { "NonLocalStmt" }, vec![a, G(names), G(seps)]))
            }
            K::PyAssert => {
                let a = p.shift();
                let v = p.test()?;
                if p.is(K::PyComa) {
                    let c = p.shift();
                    let w = p.test()?;
                    return Ok(n("AssertStmt", vec![a, v, c, w]));
                }
                Ok(n("AssertStmt", vec![a, v, Nil]))
            }
            _ => p.expr_stmt(),
        })
    }
    /// The value of an assignment: yield_expr | testlist_star_expr. A single-operand list stands
    /// for itself; a longer one is a TestList node.
    fn assigned(&mut self) -> R {
        if self.is(K::PyYield) { return self.yield_expr(); }
        if self.dev.star_rhs { return self.testlist(); }
        self.star_list("TestList")
    }
    fn expr_stmt(&mut self) -> R {
        let left = self.testlist_star_expr()?;
        let k = self.k();
        let name = match k {
            K::PyColon => {
                let c = self.shift();
                let a = self.test()?;
                if self.is(K::PyAssign) {
                    let e = self.shift();
                    let v = self.assigned()?;
                    return Ok(n("AnnAssignStmt", vec![left, c, a, e, v]));
                }
                return Ok(n("AnnAssignStmt", vec![left, c, a, Nil]));
            }
            K::PyAssign => {
                let mut pairs = vec![];
                while self.is(K::PyAssign) { pairs.push(self.shift()); pairs.push(self.assigned()?); }
                let tc = self.opt(K::TypeComment);
                return Ok(n("AssignmentStmt", vec![left, G(pairs), tc]));
            }
            K::PyPlusAssign => "PlusAssignStmt",
            K::PyMinusAssign => "MinusAssignStmt",
            K::PyMulAssign => "MulAssignStmt",
            K::PyDivAssign => "DivAssignStmt",
            K::PyFloorDivAssign => "FloorDivAssignStmt",
            K::PyModuloAssign => "ModuloAssignStmt",
            K::PyMatriceAssign => "MatriceAssignStmt",
            K::PyPowerAssign => "PowerAssignStmt",
            K::PyShiftLeftAssign => "ShiftLeftAssignStmt",
            K::PyShiftRightAssign => "ShiftRightAssignStmt",
            K::PyBitOrAssign => "BitOrAssignStmt",
            K::PyBitXorAssign => "BitXorAssignStmt",
            K::PyBitAndAssign => "BitAndAssignStmt",
            _ => return Ok(left),
        };
        let o = self.shift();
        let v = if self.is(K::PyYield) { self.yield_expr()? } else { self.testlist()? };
        Ok(n(name, vec![left, o, v]))
    }
    fn import_name(&mut self) -> R {
        let a = self.eat(K::PyImport)?;
        let (mut nodes, mut seps) = (vec![self.dotted_as_name()?], vec![]);
        while self.is(K::PyComa) { seps.push(self.shift()); nodes.push(self.dotted_as_name()?); }
        Ok(n("ImportNameStmt", vec![a, n("DottedAsNamesStmt", vec![G(nodes), G(seps)])]))
    }
    fn dotted_as_name(&mut self) -> R {
        let d = self.dotted_name()?;
        if self.is(K::PyAs) {
            let a = self.shift();
            let b = self.eat(K::AtomName)?;
            return Ok(n("DottedAsNameStmt", vec![d, a, b]));
        }
        Ok(n("DottedAsNameStmt", vec![d, Nil]))
    }
    fn dotted_name(&mut self) -> R {
        let (mut names, mut dots) = (vec![self.eat(K::AtomName)?], vec![]);
        while self.is(K::PyDot) { dots.push(self.shift()); names.push(self.eat(K::AtomName)?); }
        Ok(n("DottedNameStmt", vec![G(names), G(dots)]))
    }
    fn import_from(&mut self) -> R {
        let f = self.eat(K::PyFrom)?;
        let mut dots = vec![];
        while self.is(K::PyDot) || self.is(K::PyElipsis) { dots.push(self.shift()); }
        let m = if self.is(K::PyImport) && !dots.is_empty() { Nil } else { self.dotted_name()? };
        let i = self.eat(K::PyImport)?;
        let (mut l, mut r, mut names) = (Nil, Nil, Nil);
        match self.k() {
            K::PyMul => l = self.shift(),
            K::PyLeftParen => {
                l = self.shift();
                names = self.import_as_names(true)?;
                r = self.eat(K::PyRightParen)?;
            }
            _ => names = self.import_as_names(false)?,
        }
        Ok(n("ImportFromStmt", vec![f, G(dots), m, i, l, names, r]))
    }
    fn import_as_names(&mut self, paren: bool) -> R {
        let (mut nodes, mut seps) = (vec![], vec![]);
        loop {
            let a = self.eat(K::AtomName)?;
            if self.is(K::PyAs) {
                let b = self.shift();
                let c = self.eat(K::AtomName)?;
                nodes.push(n("ImportAsName", vec![a, b, c]));
            } else {
                nodes.push(n("ImportAsName", vec![a, Nil]));
            }
            if !self.is(K::PyComa) { break; }
            seps.push(self.shift());
            if paren && self.is(K::PyRightParen) { break; }
        }
        Ok(n("ImportAsNamesStmt", vec![G(nodes), G(seps)]))
    }

    fn compound_stmt(&mut self) -> R {
        let k = self.k();
        self.rule(200 + k as u64, |p| match k {
            K::PyIf => p.if_stmt(),
            K::PyWhile => {
                let a = p.shift();
                let c = p.namedexpr_test()?;
                let b = p.eat(K::PyColon)?;
                let s = p.suite()?;
                let e = p.else_opt()?;
                Ok(n("WhileStmt", vec![a, c, b, s, e]))
            }
            K::PyFor => p.for_stmt(),
            K::PyTry => p.try_stmt(),
            K::PyWith => p.with_stmt(),
            K::PyDef => p.funcdef(),
            K::PyClass => p.classdef(),
            K::PyMatrice => p.decorated(),
            K::PyAsync => {
                let a = p.shift();
                let s = match p.k() {
                    K::PyDef => p.funcdef()?,
                    K::PyWith => p.with_stmt()?,
                    K::PyFor => p.for_stmt()?,
                    _ => return Err(()),
                };
                Ok(n("AsyncStmt", vec![a, s]))
            }
            _ => Err(()),
        })
    }
    fn if_stmt(&mut self) -> R {
        let a = self.eat(K::PyIf)?;
        let c = self.namedexpr_test()?;
        let b = self.eat(K::PyColon)?;
        let s = self.suite()?;
        let mut elifs = vec![];
        while self.is(K::PyElif) {
            let a = self.shift();
            let c = self.namedexpr_test()?;
            let b = self.eat(K::PyColon)?;
            let s = self.suite()?;
            elifs.push(n("ElifStmt", vec![a, c, b, s]));
        }
        let e = self.else_opt()?;
        Ok(n("IfStmt", vec![a, c, b, s, G(elifs), e]))
    }
    fn else_opt(&mut self) -> R {
        if !self.is(K::PyElse) { return Ok(Nil); }
        let a = self.shift();
        let b = self.eat(K::PyColon)?;
        let s = self.rule(5, |p| p.suite())?;
        Ok(n("ElseStmt", vec![a, b, s]))
    }
    fn for_stmt(&mut self) -> R {
        let a = self.eat(K::PyFor)?;
        let t = self.exprlist()?;
        let i = self.eat(K::PyIn)?;
        let v = self.testlist()?;
        let c = self.eat(K::PyColon)?;
        let tc = self.opt(K::TypeComment);
        let s = self.suite()?;
        let e = self.else_opt()?;
        Ok(n("ForStmt", vec![a, t, i, v, c, tc, s, e]))
    }
    fn try_stmt(&mut self) -> R {
        let a = self.eat(K::PyTry)?;
        let b = self.eat(K::PyColon)?;
        let s = self.rule(6, |p| p.suite())?;
        let mut clauses = vec![];
        let mut starred: Option<bool> = None;
        while self.is(K::PyExcept) {
            let x = self.shift();
            let star = self.opt(K::PyMul);
            if starred.is_some() && starred != Some(star != Nil) { return Err(()); }
            starred = Some(star != Nil);
            let mut f = vec![x, star.clone()];
            if !self.is(K::PyColon) || star != Nil {
                f.push(self.test()?);
                if self.is(K::PyAs) {
                    f.push(self.shift());
                    f.push(self.eat(K::AtomName)?);
                } else {
                    f.push(Nil);
                }
            } else {
                f.push(Nil);
            }
            let c = self.eat(K::PyColon)?;
            let id = if star != Nil { 7 } else { 8 };
            let s = self.rule(id, |p| p.suite())?;
            clauses.push(n("ExceptStmt", vec![n("ExceptClauseStmt", f), c, s]));
        }
        let e = if clauses.is_empty() { Nil } else { self.else_opt()? };
        let mut fin = Nil;
        if self.is(K::PyFinally) {
            let x = self.shift();
            let c = self.eat(K::PyColon)?;
            let s = self.rule(9, |p| p.suite())?;
            fin = n("FinallyStmt", vec![x, c, s]);
        } else if clauses.is_empty() {
            return Err(());
        }
        Ok(n("TryStmt", vec![a, b, s, if clauses.is_empty() { Nil } else { G(clauses) }, e, fin]))
    }
    fn with_stmt(&mut self) -> R {
        let a = self.eat(K::PyWith)?;
        if self.is(K::PyLeftParen) {
            // with '(' with_item (',' with_item)* [','] ')' ':'   else fall back to plain items
            let save = (self.i, self.shifts, self.unspec, self.dontcare);
            let r = self.with_parens();
            match r {
                Ok((l, nodes, seps, rp, c)) => {
                    let s = self.suite()?;
                    return Ok(n("WithStmt", vec![a, l, G(nodes), G(seps), rp, c, s]));
                }
                Err(()) => {
                    if self.dev.with_paren { return Err(()); }
                    self.i = save.0;
                    self.shifts = save.1;
                    self.unspec = save.2;
                    self.dontcare = save.3;
                }
            }
        }
        let (mut nodes, mut seps) = (vec![self.with_item()?], vec![]);
        while self.is(K::PyComa) { seps.push(self.shift()); nodes.push(self.with_item()?); }
        let c = self.eat(K::PyColon)?;
        let s = self.suite()?;
        Ok(n("WithStmt", vec![a, Nil, G(nodes), G(seps), Nil, c, s]))
    }
    fn with_parens(&mut self) -> Result<(T, Vec<T>, Vec<T>, T, T), ()> {
        let l = self.shift();
        let (mut nodes, mut seps) = (vec![self.with_item()?], vec![]);
        while self.is(K::PyComa) {
            seps.push(self.shift());
            if self.is(K::PyRightParen) { break; }
            nodes.push(self.with_item()?);
        }
        let r = self.eat(K::PyRightParen)?;
        let c = self.eat(K::PyColon)?;
        Ok((l, nodes, seps, r, c))
    }
    fn with_item(&mut self) -> R {
        let t = self.test()?;
        if self.is(K::PyAs) {
            let a = self.shift();
            let e = self.expr()?;
            return Ok(n("WithItem", vec![t, a, e]));
        }
        Ok(n("WithItem", vec![t, Nil]))
    }
    fn suite(&mut self) -> R {
        if !self.is(K::Newline) { return self.rule(10, |p| p.simple_stmt()); }
        let a = self.shift();
        let b = self.eat(K::Indent)?;
        let mut nodes = vec![];
        loop {
            nodes.push(self.rule(11, |p| p.stmt())?);
            if self.is(K::Dedent) { break; }
        }
        let c = self.shift();
        Ok(n("SuiteStmt", vec![a, b, G(nodes), c]))
    }
    fn decorated(&mut self) -> R {
        let mut ds = vec![];
        while self.is(K::PyMatrice) {
            let a = self.shift();
            let d = self.dotted_name()?;
            let (mut l, mut args, mut r) = (Nil, Nil, Nil);
            if self.is(K::PyLeftParen) {
                l = self.shift();
                if !self.is(K::PyRightParen) { args = self.arglist()?; }
                r = self.eat(K::PyRightParen)?;
            }
            let nl = self.eat(K::Newline)?;
            ds.push(n("Decorator", vec![a, d, l, args, r, nl]));
        }
        let d = match self.k() {
            K::PyClass => self.classdef()?,
            K::PyDef => self.funcdef()?,
            K::PyAsync => { let a = self.shift(); let f = self.funcdef()?; n("AsyncStmt", vec![a, f]) }
            _ => return Err(()),
        };
        Ok(n("Decorated", vec![n("Decorators", vec![G(ds)]), d]))
    }
    fn funcdef(&mut self) -> R {
        let a = self.eat(K::PyDef)?;
        let b = self.eat(K::AtomName)?;
        let l = self.eat(K::PyLeftParen)?;
        if !self.is(K::PyRightParen) {
            if self.dev.params { return Err(()); }
            self.typedargslist()?;
            self.unspec = true; // no tree shape is specified for parameters
        }
        let r = self.eat(K::PyRightParen)?;
        let p = n("Parameter", vec![l, Nil, r]);
        let mut f = vec![a, b, p];
        if self.is(K::PyArrow) {
            let x = self.shift();
            let t = self.test()?;
            f.push(x);
            f.push(t);
        } else {
            f.push(Nil);
        }
        f.push(self.eat(K::PyColon)?);
        f.push(self.opt(K::TypeComment));
        let s = self.rule(12, |p| p.func_body_suite())?;
        f.push(s);
        Ok(n("FuncDef", f))
    }
    fn func_body_suite(&mut self) -> R {
        if !self.is(K::Newline) { return self.simple_stmt(); }
        let a = self.shift();
        let (mut tc, mut tn) = (Nil, Nil);
        if self.is(K::TypeComment) {
            tc = self.shift();
            tn = self.eat(K::Newline)?;
        }
        let b = self.eat(K::Indent)?;
        let mut nodes = vec![];
        loop {
            nodes.push(self.stmt()?);
            if self.is(K::Dedent) { break; }
        }
        let c = self.shift();
        Ok(n("FuncBodySuite", vec![a, tc, tn, b, G(nodes), c]))
    }
    /// Recognised only: tfpdef ['=' test] (',' ...)* with '/', '*', '**'.
    fn typedargslist(&mut self) -> Result<(), ()> {
        let (mut slash, mut star, mut pow, mut count) = (false, false, false, 0);
        loop {
            match self.k() {
                K::PyDiv if !slash && !star && !pow && count > 0 => { self.shift(); slash = true; }
                K::PyMul if !star && !pow => {
                    self.shift();
                    star = true;
                    if self.is(K::AtomName) { self.tfpdef()?; }
                    else {
                        if self.look(1) != K::AtomName || !self.is(K::PyComa) { self.dontcare = true; } // a bare star needs a name after it; only later stages say so
                        if self.is(K::PyRightParen) { return Ok(()); }
                    }
                }
                K::PyPower if !pow => { self.shift(); self.tfpdef()?; pow = true; }
                K::AtomName if !pow => {
                    self.tfpdef()?;
                    if self.is(K::PyAssign) { self.shift(); self.test()?; }
                    count += 1;
                }
                _ => return Err(()),
            }
            if self.is(K::TypeComment) { self.shift(); }
            if !self.is(K::PyComa) { break; }
            self.shift();
            if self.is(K::TypeComment) { self.shift(); }
            if self.is(K::PyRightParen) { break; }
        }
        Ok(())
    }
    fn tfpdef(&mut self) -> Result<(), ()> {
        self.eat(K::AtomName)?;
        if self.is(K::PyColon) { self.shift(); self.test()?; }
        Ok(())
    }
    fn classdef(&mut self) -> R {
        let a = self.eat(K::PyClass)?;
        let b = self.eat(K::AtomName)?;
        let (mut l, mut args, mut r) = (Nil, Nil, Nil);
        if self.is(K::PyLeftParen) {
            l = self.shift();
            if !self.is(K::PyRightParen) { args = self.arglist()?; }
            r = self.eat(K::PyRightParen)?;
        }
        let c = self.eat(K::PyColon)?;
        let s = self.suite()?;
        Ok(n("ClassDef", vec![a, b, l, args, r, c, s]))
    }

    // ------------------------------------------------------------ expressions
    pub fn namedexpr_test(&mut self) -> R {
        let a = self.test()?;
        if self.is(K::PyColonAssign) {
            let o = self.shift();
            let b = self.test()?;
            return Ok(n("NamedExpr", vec![a, o, b]));
        }
        Ok(a)
    }
    pub fn test(&mut self) -> R { self.rule(20, |p| p.test_()) }
    fn test_(&mut self) -> R {
        if self.is(K::PyLambda) { return self.lambdef(true); }
        let a = self.or_test()?;
        if self.is(K::PyIf) {
            let i = self.shift();
            let c = self.or_test()?;
            let e = self.eat(K::PyElse)?;
            let b = self.test()?;
            return Ok(n("Test", vec![a, i, c, e, b]));
        }
        Ok(a)
    }
    fn test_nocond(&mut self) -> R { if self.is(K::PyLambda) { self.lambdef(false) } else { self.or_test() } }
    fn lambdef(&mut self, cond: bool) -> R {
        let a = self.eat(K::PyLambda)?;
        let l = if self.is(K::PyColon) { Nil } else { self.rule(21, |p| p.varargslist())? };
        let c = self.eat(K::PyColon)?;
        let b = if cond { self.test()? } else { self.test_nocond()? };
        Ok(n("Lambda", vec![a, l, c, b]))
    }
    fn varargslist(&mut self) -> R {
        let (mut nodes, mut seps) = (vec![], vec![]);
        let (mut star, mut starn, mut pow, mut pown, mut slash) = (Nil, Nil, Nil, Nil, Nil);
        loop {
            match self.k() {
                K::PyDiv if slash == Nil && star == Nil && !nodes.is_empty() => slash = self.shift(),
                K::PyMul if star == Nil => {
                    star = self.shift();
                    if self.is(K::AtomName) { let x = self.shift(); starn = n("VFPDef", vec![x]); }
                    else if !self.is(K::PyComa) { self.dontcare = true; } // the grammar allows it, later stages of CPython reject it
                }
                K::PyPower => {
                    pow = self.shift();
                    let x = self.eat(K::AtomName)?;
                    pown = n("VFPDef", vec![x]);
                    if self.is(K::PyComa) { seps.push(self.shift()); }
                    break;
                }
                K::AtomName => {
                    let x = self.shift();
                    let d = n("VFPDef", vec![x]);
                    if self.is(K::PyAssign) {
                        let o = self.shift();
                        let v = self.test()?;
                        nodes.push(n("VFPAssign", vec![d, o, v]));
                    } else {
                        nodes.push(d);
                    }
                }
                _ => return Err(()),
            }
            if !self.is(K::PyComa) { break; }
            seps.push(self.shift());
            if self.is(K::PyColon) || (star != Nil && starn == Nil && nodes.is_empty() && self.is(K::PyPower)) {
                // '*' ',' ':' and '*' ',' '**': grammatical, but CPython's later stages want a name after a bare star
                if star != Nil && starn == Nil && seps.len() == nodes.len() + (slash != Nil) as usize + 1 { self.dontcare = true; }
            }
            if star != Nil && starn == Nil && self.is(K::PyPower) { self.dontcare = true; }
            if self.is(K::PyColon) { break; }
        }
        Ok(n("VarArgsList", vec![G(nodes), G(seps), star, starn, pow, pown, slash]))
    }
    fn left(&mut self, sub: fn(&mut Self) -> R, ops: &[(K, &'static str)]) -> R {
        let mut a = sub(self)?;
        loop {
            let k = self.k();
            match ops.iter().find(|x| x.0 == k) {
                None => return Ok(a),
                Some(x) => {
                    let o = self.shift();
                    let b = sub(self)?;
                    a = n(x.1, vec![a, o, b]);
                }
            }
        }
    }
    fn or_test(&mut self) -> R { self.left(Self::and_test, &[(K::PyOr, "OrTest")]) }
    fn and_test(&mut self) -> R { self.left(Self::not_test, &[(K::PyAnd, "AndTest")]) }
    fn not_test(&mut self) -> R {
        if self.is(K::PyNot) {
            let o = self.shift();
            let a = self.not_test()?;
            return Ok(n("NotTest", vec![o, a]));
        }
        self.comparison()
    }
    fn comparison(&mut self) -> R {
        let mut a = self.expr()?;
        loop {
            let name = match self.k() {
                K::PyLess => "LessComparison",
                K::PyGreater => "GreaterComparison",
                K::PyEqual => "EqualComparison",
                K::PyGreaterEqual => "GreaterEqualComparison",
                K::PyLessEqual => "LessEqualComparison",
                K::PyNotEqual => "NotEqualComparison",
                K::PyIn => "InComparison",
                K::PyIs => {
                    let o = self.shift();
                    if self.is(K::PyNot) {
                        let p = self.shift();
                        let b = self.expr()?;
                        a = n("IsNotComparison", vec![a, o, p, b]);
                    } else {
                        let b = self.expr()?;
                        a = n("IsComparison", vec![a, o, b]);
                    }
                    continue;
                }
                K::PyNot => {
                    let o = self.shift();
                    let p = self.eat(K::PyIn)?;
                    let b = self.expr()?;
                    a = n("NotInComparison", vec![a, o, p, b]);
                    continue;
                }
                _ => return Ok(a),
            };
            let o = self.shift();
            let b = self.expr()?;
            a = n(name, vec![a, o, b]);
        }
    }
    fn star_expr(&mut self) -> R {
        let o = self.eat(K::PyMul)?;
        let a = self.expr()?;
        Ok(n("StarExpr", vec![o, a]))
    }
    pub fn expr(&mut self) -> R { self.left(Self::xor_expr, &[(K::PyBitOr, "Expr")]) }
    fn xor_expr(&mut self) -> R { self.left(Self::and_expr, &[(K::PyBitXor, "XorExpr")]) }
    fn and_expr(&mut self) -> R { self.left(Self::shift_expr, &[(K::PyBitAnd, "AndExpr")]) }
    fn shift_expr(&mut self) -> R { self.left(Self::arith_expr, &[(K::PyShiftLeft, "ShiftLeftExpr"), (K::PyShiftRight, "ShiftRightExpr")]) }
    fn arith_expr(&mut self) -> R { self.left(Self::term, &[(K::PyPlus, "PlusArithExpr"), (K::PyMinus, "MinusArithExpr")]) }
    fn term(&mut self) -> R {
        self.left(Self::factor, &[(K::PyMul, "MulTerm"), (K::PyDiv, "DivTerm"), (K::PyFloorDiv, "FloorDivTerm"), (K::PyModulo, "ModuloTerm"), (K::PyMatrice, "MatriceTerm")])
    }
    fn factor(&mut self) -> R {
        let name = match self.k() {
            K::PyPlus => "UnaryPlus",
            K::PyMinus => "UnaryMinus",
            K::PyBitInvert => "UnaryInvert",
            _ => return self.power(),
        };
        let o = self.shift();
        let a = self.factor()?;
        Ok(n(name, vec![o, a]))
    }
    fn power(&mut self) -> R {
        let a = self.atom_expr()?;
        if self.is(K::PyPower) {
            let o = self.shift();
            let b = self.factor()?;
            return Ok(n("PowerExpr", vec![a, o, b]));
        }
        Ok(a)
    }
    fn atom_expr(&mut self) -> R {
        let w = self.opt(K::PyAwait);
        let a = self.atom()?;
        let mut tr = vec![];
        loop {
            match self.k() {
                K::PyLeftParen => {
                    let l = self.shift();
                    let args = if self.is(K::PyRightParen) { Nil } else { self.rule(22, |p| p.arglist())? };
                    let r = self.eat(K::PyRightParen)?;
                    tr.push(n("CallTrailer", vec![l, args, r]));
                }
                K::PyLeftBracket => {
                    let l = self.shift();
                    let s = self.rule(23, |p| p.subscriptlist())?;
                    let r = self.eat(K::PyRightBracket)?;
                    tr.push(n("IndexTrailer", vec![l, s, r]));
                }
                K::PyDot => {
                    let d = self.shift();
                    let x = self.eat(K::AtomName)?;
                    tr.push(n("DotNameTrailer", vec![d, x]));
                }
                _ => break,
            }
        }
        if w == Nil && tr.is_empty() { return Ok(a); }
        Ok(n("AtomExpr", vec![w, a, G(tr)]))
    }
    fn atom(&mut self) -> R {
        let name = match self.k() {
            K::AtomName => "AtomName",
            K::AtomNumber => "AtomNumber",
            K::PyElipsis => "AtomElipsis",
            K::PyNone => "AtomNone",
            K::PyTrue => "AtomTrue",
            K::PyFalse => "AtomFalse",
            K::AtomString => {
                let mut v = vec![];
                while self.is(K::AtomString) { v.push(self.shift()); }
                return Ok(n("AtomString", vec![G(v)]));
            }
            K::PyLeftParen => {
                let l = self.shift();
                let m = match self.k() {
                    K::PyRightParen => Nil,
                    K::PyYield => self.yield_expr()?,
                    _ => self.rule(24, |p| p.testlist_comp())?,
                };
                let r = self.eat(K::PyRightParen)?;
                return Ok(n("AtomTuple", vec![l, m, r]));
            }
            K::PyLeftBracket => {
                let l = self.shift();
                let m = if self.is(K::PyRightBracket) { Nil } else { self.rule(25, |p| p.testlist_comp())? };
                let r = self.eat(K::PyRightBracket)?;
                return Ok(n("AtomList", vec![l, m, r]));
            }
            K::PyLeftCurly => {
                let l = self.shift();
                if self.is(K::PyRightCurly) { let r = self.shift(); return Ok(n("AtomDictionary", vec![l, Nil, r])); }
                let (dict, m) = self.dictorsetmaker()?;
                let r = self.eat(K::PyRightCurly)?;
                return Ok(n(if dict { "AtomDictionary" } else { "AtomSet" }, vec![l, m, r]));
            }
            _ => return Err(()),
        };
        let x = self.shift();
        Ok(n(name, vec![x]))
    }
    fn testlist_comp(&mut self) -> R {
        let item = |p: &mut Self| if p.is(K::PyMul) { p.star_expr() } else { p.namedexpr_test() };
        let (mut nodes, mut seps) = (vec![item(self)?], vec![]);
        if self.is(K::PyFor) || self.is(K::PyAsync) {
            nodes.push(self.comp_for()?);
        } else {
            while self.is(K::PyComa) {
                seps.push(self.shift());
                if self.is(K::PyRightParen) || self.is(K::PyRightBracket) { break; }
                nodes.push(item(self)?);
            }
        }
        Ok(n("TestListComp", vec![G(nodes), G(seps)]))
    }
    fn subscriptlist(&mut self) -> R {
        let (mut nodes, mut seps) = (vec![self.subscript()?], vec![]);
        while self.is(K::PyComa) {
            seps.push(self.shift());
            if self.is(K::PyRightBracket) { break; }
            nodes.push(self.subscript()?);
        }
        Ok(n("SubscriptList", vec![G(nodes), G(seps)]))
    }
    fn subscript(&mut self) -> R {
        let mut f = vec![Nil, Nil, Nil, Nil, Nil];
        if !self.is(K::PyColon) { f[0] = self.test()?; }
        if self.is(K::PyColon) {
            f[1] = self.shift();
            if !matches!(self.k(), K::PyColon | K::PyComa | K::PyRightBracket) { f[2] = self.test()?; }
            if self.is(K::PyColon) {
                f[3] = self.shift();
                if !matches!(self.k(), K::PyComa | K::PyRightBracket) { f[4] = self.test()?; }
            }
        }
        Ok(n("Subscript", f))
    }
    /// element (',' element)* [','] ; one element without a comma stands for itself
    fn list(&mut self, name: &'static str, elem: fn(&mut Self) -> R, ends: &[K]) -> R {
        let (mut nodes, mut seps) = (vec![elem(self)?], vec![]);
        while self.is(K::PyComa) {
            seps.push(self.shift());
            let k = self.k();
            if ends.contains(&k) { break; }
            nodes.push(elem(self)?);
        }
        if seps.is_empty() { return Ok(nodes.pop().unwrap()); }
        Ok(n(name, vec![G(nodes), G(seps)]))
    }
    fn exprlist(&mut self) -> R {
        let e = |p: &mut Self| if p.is(K::PyMul) { p.star_expr() } else { p.expr() };
        self.rule(26, |p| p.list("ExprList", e, &[K::PyIn, K::Newline, K::PySemiColon]))
    }
    const LIST_ENDS: [K; 8] = [K::PyColon, K::PyAssign, K::TypeComment, K::Newline, K::PySemiColon, K::EOF, K::PyRightParen, K::LexErr];
    pub fn testlist(&mut self) -> R { self.rule(27, |p| p.list("TestList", Self::test, &Self::LIST_ENDS)) }
    fn star_list(&mut self, name: &'static str) -> R {
        let e = |p: &mut Self| if p.is(K::PyMul) { p.star_expr() } else { p.test() };
        let ends = [
            K::PyColon, K::PyAssign, K::TypeComment, K::Newline, K::PySemiColon, K::EOF, K::PyRightParen, K::PyPlusAssign, K::PyMinusAssign,
            K::PyMulAssign, K::PyDivAssign, K::PyFloorDivAssign, K::PyModuloAssign, K::PyMatriceAssign, K::PyPowerAssign, K::PyShiftLeftAssign,
            K::PyShiftRightAssign, K::PyBitOrAssign, K::PyBitXorAssign, K::PyBitAndAssign,
        ];
        self.rule(28, |p| p.list(name, e, &ends))
    }
    fn testlist_star_expr(&mut self) -> R { self.star_list("TestListStarExpr") }
    fn dictorsetmaker(&mut self) -> Result<(bool, T), ()> {
        let (mut nodes, mut seps) = (vec![], vec![]);
        let mut dict: Option<bool> = None;
        loop {
            let (is_dict, e) = match self.k() {
                K::PyPower => { let o = self.shift(); let a = self.expr()?; (true, n("PowerDictionary", vec![o, a])) }
                K::PyMul => { let o = self.shift(); let a = self.expr()?; (false, n("MulSet", vec![o, a])) }
                _ => {
                    let a = self.test()?;
                    if dict != Some(false) && self.is(K::PyColon) {
                        let c = self.shift();
                        let b = self.test()?;
                        (true, n("DictionaryEntry", vec![a, c, b]))
                    } else {
                        (false, a)
                    }
                }
            };
            if dict.is_some() && dict != Some(is_dict) { return Err(()); }
            dict = Some(is_dict);
            nodes.push(e);
            if nodes.len() == 1 && (self.is(K::PyFor) || self.is(K::PyAsync)) {
                nodes.push(self.comp_for()?);
                break;
            }
            if !self.is(K::PyComa) { break; }
            seps.push(self.shift());
            if self.is(K::PyRightCurly) { break; }
        }
        let d = dict == Some(true);
        Ok((d, n(if d { "DictionaryContainer" } else { "SetContainer" }, vec![G(nodes), G(seps)])))
    }
    fn arglist(&mut self) -> R {
        let (mut nodes, mut seps) = (vec![self.argument()?], vec![]);
        while self.is(K::PyComa) {
            seps.push(self.shift());
            if self.is(K::PyRightParen) { break; }
            nodes.push(self.argument()?);
        }
        Ok(n("ArgList", vec![G(nodes), G(seps)]))
    }
    fn argument(&mut self) -> R {
        if self.is(K::PyMul) || self.is(K::PyPower) {
            let o = self.shift();
            let a = self.test()?;
            return Ok(n("Argument", vec![Nil, o, a]));
        }
        let a = self.test()?;
        if self.is(K::PyFor) || self.is(K::PyAsync) {
            let c = self.comp_for()?;
            return Ok(n("Argument", vec![a, Nil, c]));
        }
        if self.is(K::PyAssign) || self.is(K::PyColonAssign) {
            let o = self.shift();
            let b = self.test()?;
            return Ok(n("Argument", vec![a, o, b]));
        }
        Ok(n("Argument", vec![a, Nil, Nil]))
    }
    fn comp_for(&mut self) -> R {
        if self.is(K::PyAsync) {
            let a = self.shift();
            let f = self.sync_comp_for()?;
            return Ok(n("CompForComprehension", vec![a, f]));
        }
        self.sync_comp_for()
    }
    fn sync_comp_for(&mut self) -> R {
        let f = self.eat(K::PyFor)?;
        let t = self.exprlist()?;
        let i = self.eat(K::PyIn)?;
        let v = self.or_test()?;
        let x = self.comp_iter()?;
        Ok(n("SyncCompForComprehension", vec![f, t, i, v, x]))
    }
    fn comp_iter(&mut self) -> R {
        match self.k() {
            K::PyFor | K::PyAsync => self.rule(29, |p| p.comp_for()),
            K::PyIf => {
                let a = self.shift();
                let c = self.test_nocond()?;
                let x = self.comp_iter()?;
                Ok(n("CompIfComprehension", vec![a, c, x]))
            }
            _ => Ok(Nil),
        }
    }
    fn yield_expr(&mut self) -> R {
        let a = self.eat(K::PyYield)?;
        if self.is(K::PyFrom) {
            let f = self.shift();
            let t = self.test()?;
            return Ok(n("YieldFromExpr", vec![a, f, t]));
        }
        if matches!(self.k(), K::Newline | K::PySemiColon | K::PyRightParen | K::PyAssign | K::TypeComment | K::EOF) {
            if self.dev.bare_yield { return Err(()); }
            self.unspec = true; // no tree shape is specified for a yield without a value
            return Ok(n("YieldExpr", vec![a, Nil]));
        }
        let l = self.testlist_star_expr()?;
        Ok(n("YieldExpr", vec![a, l]))
    }
}
