//! Runs the implementation (the code in /repo) on one input and records what can be observed.
use crate::dump::{self, Walk};
use crate::refparse::{Mode, T};
use crate::sys::Shm;
use crate::toks::*;
use python_core_rust::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Stat { Ok, Err, Panic(String), Runaway }

pub struct ILex { pub toks: Vec<Tok>, pub stat: Stat, pub final_ok: bool }

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = match i.payload().downcast_ref::<&str>() { Some(s) => s.to_string(), None => match i.payload().downcast_ref::<String>() { Some(s) => s.clone(), None => "panic".into() } };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
    }));
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

pub const KIND_LEX: u8 = 10;
pub const KIND_OTHER: u8 = 20;
pub fn mode_kind(m: Mode) -> u8 { match m { Mode::File => 0, Mode::Eval => 1, Mode::Single => 2, Mode::FuncType => 3 } }
pub fn kind_name(k: u8) -> &'static str { match k { 0 => "file", 1 => "eval", 2 => "single", 3 => "func_type", 10 => "tokens", _ => "other" } }

/// Read all tokens of `src`, then a few more requests past the end of file.
pub fn lex_impl(shm: &Shm, src: &str) -> ILex {
    shm.enter(KIND_LEX, src.as_bytes());
    let limit = 4 * src.chars().count() + 64;
    let mut out = ILex { toks: Vec::new(), stat: Stat::Runaway, final_ok: true };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut l = PythonCoreTokenizer::new(src.to_string());
        for _ in 0..limit {
            match l.get_symbol() {
                Err(_) => { out.stat = Stat::Err; return; }
                Ok(t) => {
                    let t = from_impl(&t);
                    let eof = t.k == K::EOF;
                    let p = t.s;
                    out.toks.push(t);
                    if eof {
                        out.stat = Stat::Ok;
                        for _ in 0..4 {
                            match l.get_symbol() {
                                Ok(t) => { let t = from_impl(&t); if t.k != K::EOF || t.s != p || !t.triv.is_empty() { out.final_ok = false; } }
                                Err(_) => out.final_ok = false,
                            }
                        }
                        return;
                    }
                }
            }
        }
    }));
    shm.leave();
    if r.is_err() { out.stat = Stat::Panic(last_panic()); }
    out
}

pub const OPEN: u32 = 0x8000_0001;
pub const CLOSE: u32 = 0x8000_0002;
pub const NIL: u32 = 0x8000_0003;
pub const END: u32 = 0x8000_0004;
pub const NODE: u32 = 0xC000_0000;
pub const TOK: u32 = 0xA000_0000;

pub fn name_code(n: &str) -> u32 {
    let mut h = 0x811c9dc5u32;
    for b in n.bytes() { h = (h ^ b as u32).wrapping_mul(0x01000193); }
    NODE | (h & 0x0fff_ffff)
}

pub struct Span { pub name: &'static str, pub s: u32, pub e: u32, pub first: u32, pub last: u32, pub depth: u32 }

#[derive(Default)]
pub struct Full { pub toks: Vec<Tok>, pub spans: Vec<Span>, pub disorder: Option<String>, pub fields: Option<String> }

struct W<'a> { out: Vec<u32>, full: Option<&'a mut Full>, stack: Vec<usize>, lstack: Vec<(usize, i64)>, order: Vec<(i64, i64)> }

impl<'a> W<'a> {
    /// The fields of a node stand in source order: a plain field after everything before it, a list element after all plain fields before it.
    fn field(&mut self, p: u32) {
        if p == NOPOS || self.full.is_none() { return; }
        let in_list = self.lstack.last().map(|l| l.0 == self.stack.len()).unwrap_or(false);
        let name = match (self.stack.last(), &self.full) { (Some(i), Some(f)) => f.spans[*i].name, _ => return };
        let o = self.order.last_mut().unwrap();
        let p = p as i64;
        let bad = if in_list { p < o.0 } else { p < o.1 }; // empty tokens share a place
        if !in_list && p > o.0 { o.0 = p; }
        if p > o.1 { o.1 = p; }
        if bad && !["VarArgsList", "TypeList", "TypedArgsList"].contains(&name) { if let Some(f) = &mut self.full { if f.fields.is_none() { f.fields = Some(format!("in a node {} a field at {} stands after one that comes later in the source", name, p)); } } }
    }
    fn seen(&mut self, s: u32, e: u32) {
        if let Some(f) = &mut self.full {
            for i in &self.stack { let x = &mut f.spans[*i]; if s < x.first { x.first = s; } if e > x.last || x.last == NOPOS { x.last = e; } }
        }
    }
}

impl<'a> Walk for W<'a> {
    fn begin(&mut self, name: &'static str, s: u32, e: u32) {
        self.out.push(name_code(name));
        if let Some(f) = &mut self.full {
            let depth = self.stack.len() as u32;
            self.stack.push(f.spans.len());
            self.order.push((-1, -1));
            f.spans.push(Span { name, s, e, first: NOPOS, last: NOPOS, depth });
        }
    }
    fn end(&mut self) {
        self.out.push(END);
        if let Some(f) = &mut self.full {
            let i = self.stack.pop().unwrap();
            let depth = self.stack.len();
            // order of the elements of a list field, by the position of their first token
            if let Some(l) = self.lstack.last_mut() {
                let (p, name) = (f.spans[i].first, f.spans[i].name);
                if l.0 == depth && p != NOPOS {
                    if (p as i64) <= l.1 && f.disorder.is_none() { f.disorder = Some(format!("list element {} at {} comes after one at {}", name, p, l.1)); }
                    l.1 = p as i64;
                }
            }
            self.order.pop();
            let first = self.full.as_ref().map(|f| f.spans[i].first).unwrap_or(NOPOS);
            self.field(first);
        }
    }
    fn open(&mut self) { self.out.push(OPEN); if self.full.is_some() { let d = self.stack.len(); self.lstack.push((d, -1)); } }
    fn close(&mut self) { self.out.push(CLOSE); if self.full.is_some() { self.lstack.pop(); } }
    fn nil(&mut self) { self.out.push(NIL); }
    fn tok(&mut self, t: &Token) {
        let (k, s, e) = kind_of(t);
        self.out.push(TOK | k as u32);
        self.out.push(s);
        self.out.push(e);
        if self.full.is_some() {
            if s != NOPOS { self.seen(s, e); self.field(s); }
            let depth = self.stack.len();
            if let Some(f) = &mut self.full {
                f.toks.push(from_impl(t));
                if s != NOPOS {
                    if let Some(l) = self.lstack.last_mut() {
                        if l.0 == depth {
                            if (s as i64) <= l.1 && f.disorder.is_none() { f.disorder = Some(format!("list token at {} comes after one at {}", s, l.1)); }
                            l.1 = s as i64;
                        }
                    }
                }
            }
        }
    }
    fn node(&mut self, n: &ASTNode) { dump::walk(self, n) }
}

/// The tree as a flat list of numbers: node names, fields, lists and leaf tokens (kind, start, end).
pub fn serialise(n: &ASTNode, full: Option<&mut Full>) -> Vec<u32> {
    let mut w = W { out: Vec::with_capacity(64), full, stack: vec![], lstack: vec![], order: vec![] };
    dump::walk(&mut w, n);
    w.out
}

/// The same for a reference tree.
pub fn serialise_ref(t: &T, toks: &[Tok], out: &mut Vec<u32>) {
    match t {
        T::N(n, f) => { out.push(name_code(n)); for x in f { serialise_ref(x, toks, out); } out.push(END); }
        T::L(i) => { let t = &toks[*i]; out.push(TOK | t.k as u32); out.push(t.s); out.push(t.e); }
        T::G(v) => { out.push(OPEN); for x in v { serialise_ref(x, toks, out); } out.push(CLOSE); }
        T::Nil => out.push(NIL),
    }
}

/// Readable form of a serialised tree.
pub fn show(v: &[u32], src: &str) -> String {
    let c: Vec<char> = src.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() && o.len() < 6000 {
        let x = v[i];
        if x == OPEN { o.push_str("[ "); }
        else if x == CLOSE { o.push_str("] "); }
        else if x == NIL { o.push_str("- "); }
        else if x == END { o.push_str(") "); }
        else if x & NODE == NODE { let n = dump::NAMES.iter().find(|n| name_code(n) == x).unwrap_or(&"?"); o.push_str(n); o.push_str("( "); }
        else {
            let (s, e) = (v[i + 1], v[i + 2]);
            if s == NOPOS { o.push_str(if x & 0xff == K::Indent as u32 { "INDENT " } else { "DEDENT " }); }
            else { let t: String = c[(s as usize).min(c.len())..(e as usize).min(c.len())].iter().collect(); o.push_str(&format!("{:?}@{} ", t, s)); }
            i += 2;
        }
        i += 1;
    }
    o
}

pub struct IParse { pub stat: Stat, pub tree: Vec<u32>, pub pos: u32, pub err: String }

pub fn entry(p: &mut PythonCoreParser, mode: Mode) -> Result<Box<ASTNode>, String> {
    match mode {
        Mode::File => p.parse_blocks_file_input(),
        Mode::Eval => p.parse_blocks_eval_input(),
        Mode::Single => p.parse_blocks_single_input(),
        Mode::FuncType => p.parse_blocks_func_type_input(),
    }
}

pub fn parse_impl(shm: &Shm, src: &str, mode: Mode, full: Option<&mut Full>) -> IParse {
    shm.enter(mode_kind(mode), src.as_bytes());
    let mut out = IParse { stat: Stat::Err, tree: Vec::new(), pos: 0, err: String::new() };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(src.to_string())));
        let r = entry(&mut p, mode);
        out.pos = p.lexer.get_position();
        match r { Ok(t) => { out.stat = Stat::Ok; out.tree = serialise(&t, full); } Err(e) => out.err = e }
    }));
    shm.leave();
    if r.is_err() { out.stat = Stat::Panic(last_panic()); }
    out
}
