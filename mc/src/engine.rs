//! The explorer: work units shared between worker processes, counters, verdicts, evidence.
use crate::imp::*;
use crate::reflex::{lex, End, LexDev, Lexed};
use crate::refparse::{Dev, Mode, P};
use crate::sys::*;
use crate::toks::*;
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub src: String, pub what: String }

#[derive(Default)]
struct FastHash;
pub struct Id(u64);
impl std::hash::Hasher for Id {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, x: u64) { self.0 = x.wrapping_mul(0x9E3779B97F4A7C15); }
}
impl std::hash::BuildHasher for FastHash { type Hasher = Id; fn build_hasher(&self) -> Id { Id(0) } }

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub shm: Shm,
    pub worker: usize,
    unit: usize,
    pub runs: u64,
    pub transitions: u64,
    pub accepted: u64,
    states: HashSet<u64, FastHash>,
    pub viol: Vec<Viol>,
    pub known: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
    pub families: Vec<(String, u64, u64)>,
    pub devs: Vec<String>,
    pub capped: bool,
    deadline: Instant,
    tick: u32,
    /// where check_tree writes what the model says (design-time comparison with CPython; MC_DUMP)
    pub dump: Option<std::io::BufWriter<std::fs::File>>,
}

pub const DEVS: [&str; 6] = ["params", "bare_yield", "star_rhs", "with_paren", "match_name", "crlf"];
pub const MAX_STATES: usize = 3_000_000;
pub const MAX_VIOL: usize = 40;

impl Ctx {
    pub fn new(id: &str, tier: Tier, shm: Shm, worker: usize, devs: Vec<String>) -> Ctx {
        let secs = if tier == Tier::Quick { 240 } else { 800 };
        Ctx { id: id.into(), tier, shm, worker, unit: 0, runs: 0, transitions: 0, accepted: 0, states: HashSet::with_hasher(FastHash), viol: vec![], known: BTreeMap::new(), samples: vec![], families: vec![], devs, capped: false, deadline: Instant::now() + Duration::from_secs(secs), tick: 0, dump: None }
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    /// quick or thorough value of a bound
    pub fn q<X>(&self, q: X, t: X) -> X { if self.thorough() { t } else { q } }
    pub fn stopped(&mut self) -> bool {
        self.tick += 1;
        if self.tick & 0xff == 0 {
            if Instant::now() > self.deadline { self.capped = true; }
        }
        self.capped || self.shm.stop_flag().load(std::sync::atomic::Ordering::Relaxed) != 0
    }
    /// Work units are numbered in the same order by every worker; each is done by whoever claims it first.
    pub fn claim(&mut self) -> bool {
        let u = self.unit;
        self.unit += 1;
        !self.stopped() && self.shm.claim(u)
    }
    pub fn state(&mut self, h: u64) { if self.states.len() < MAX_STATES { self.states.insert(h); } }
    pub fn states_vec(&self) -> Vec<u64> { self.states.iter().cloned().collect() }
    pub fn violation(&mut self, kind: &str, src: &str, what: String) {
        if self.viol.len() < MAX_VIOL { self.viol.push(Viol { kind: kind.into(), src: src.into(), what }); }
        else { self.shm.stop_flag().store(1, std::sync::atomic::Ordering::Relaxed); }
    }
    pub fn known(&mut self, dev: &str, src: &str) {
        let e = self.known.entry(dev.into()).or_insert((0, src.into()));
        e.0 += 1;
        if (src.chars().count(), src) < (e.1.chars().count(), e.1.as_str()) { e.1 = src.into(); }
    }
    pub fn sample(&mut self, s: String) { if self.samples.len() < 3 || (self.runs.is_power_of_two() && self.samples.len() < 24) { self.samples.push(s); } }
    pub fn family(&mut self, name: &str, runs0: u64, acc0: u64) {
        let (r, a) = (self.runs - runs0, self.accepted - acc0);
        if let Some(f) = self.families.iter_mut().find(|f| f.0 == name) { f.1 += r; f.2 += a; return; }
        self.families.push((name.to_string(), r, a));
    }
    pub fn allows(&self, d: &str) -> bool { self.devs.iter().any(|x| x == d) }
    fn dev_flags(&self) -> Vec<&'static str> {
        DEVS.iter().cloned().filter(|d| self.allows(d)).collect()
    }
}

pub fn set(d: &mut Dev, f: &str) {
    match f { "params" => d.params = true, "bare_yield" => d.bare_yield = true, "star_rhs" => d.star_rhs = true, "with_paren" => d.with_paren = true, "match_name" => d.match_name = true, "crlf" => d.crlf = true, _ => panic!("{}", f) }
}

pub enum Expect { Tree(Vec<u32>), Accept, Reject, Any }

pub struct Model { pub lx: Lexed, pub expect: Expect, pub seen: usize, pub failed: bool, pub begun: Vec<usize> }

/// What the model says about a source.
pub fn model(src: &str, mode: Mode, dev: Dev, ctx: Option<&mut Ctx>) -> Model {
    let lx = lex(src, LexDev { crlf: dev.crlf });
    let mut p = P::new(&lx.toks, dev);
    p.want_states = ctx.is_some();
    let r = p.parse(mode);
    let (seen, dontcare, unspec) = (p.seen, p.dontcare, p.unspec);
    if let Some(c) = ctx {
        c.transitions += p.shifts;
        for s in &p.states { c.state(*s); }
        for s in &lx.states { c.state(*s ^ 0x5555_0000_0000_0000); }
    }
    let failed = r.is_err();
    let begun = std::mem::take(&mut p.begun);
    let open = lx.end == End::Open && seen + 1 >= lx.toks.len();
    let expect = if open || (dontcare && !failed) { Expect::Any } else {
        match r {
            Err(()) => Expect::Reject,
            Ok(_) if unspec => Expect::Accept,
            Ok(t) => { let mut v = Vec::with_capacity(64); serialise_ref(&t, &lx.toks, &mut v); Expect::Tree(v) }
        }
    };
    Model { lx, expect, seen, failed, begun }
}

fn agrees(m: &Expect, i: &IParse) -> bool {
    match (m, &i.stat) {
        (_, Stat::Panic(_)) | (_, Stat::Runaway) => false,
        (Expect::Any, _) => true,
        (Expect::Reject, Stat::Err) => true,
        (Expect::Accept, Stat::Ok) => true,
        (Expect::Tree(v), Stat::Ok) => *v == i.tree,
        _ => false,
    }
}

pub fn describe(i: &IParse, src: &str) -> String {
    match &i.stat { Stat::Ok => format!("tree {}", show(&i.tree, src)), Stat::Err => "error".into(), Stat::Panic(m) => format!("PANIC {}", m), Stat::Runaway => "no end".into() }
}
pub fn describe_model(m: &Expect, src: &str) -> String {
    match m { Expect::Tree(v) => format!("tree {}", show(v, src)), Expect::Accept => "some tree".into(), Expect::Reject => "error".into(), Expect::Any => "anything".into() }
}

/// The places an error may name: from the start of the innermost statement of which something was read
/// to the first token that cannot follow what was read.
fn window(m: &Model, src: &str, mode: Mode) -> Option<(u64, u64)> {
    if !m.failed { return None; }
    let end = if m.lx.end == End::Eof { src.chars().count() as u64 } else { m.lx.err_at as u64 };
    let at = |k: usize| -> u64 { m.lx.toks[k.min(m.lx.toks.len())..].iter().find(|t| t.s != NOPOS).map(|t| t.s as u64).unwrap_or(end) };
    let stmts = mode == Mode::File || mode == Mode::Single;
    let open = m.lx.end == End::Open && m.seen + 1 >= m.lx.toks.len(); // the last literal may be an error
    let lo = m.begun.iter().rev().find(|b| **b + (open as usize) < m.seen).map(|b| *b).unwrap_or(0);
    Some((if lo == 0 || !stmts { 0 } else { at(lo) }, if open { src.chars().count() as u64 } else { at(m.seen) }))
}

/// A rejected source: does the error name a place inside the window of the grammar, or of the grammar with listed deviations?
pub fn check_place(ctx: &mut Ctx, src: &str, mode: Mode) -> Seen {
    let m = model(src, mode, Dev::default(), Some(ctx));
    let i = parse_impl(&ctx.shm, src, mode, None);
    ctx.runs += 1;
    if i.stat != Stat::Err { if i.stat == Stat::Ok { ctx.accepted += 1; } return Seen { m, i }; }
    let digits: String = i.err.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    let x: Option<u64> = digits.parse().ok();
    if ctx.runs.is_power_of_two() { ctx.sample(format!("{} {:?} -> {:?} {:?}", kind_name(mode_kind(mode)), src, i.err, window(&m, src, mode))); }
    let fits = |m: &Model| match (x, window(m, src, mode)) { (Some(x), Some((lo, hi))) => lo <= x && x <= hi, _ => false };
    if fits(&m) || (x.is_some() && !m.failed && matches!(m.expect, Expect::Any)) { return Seen { m, i }; }
    for s in 1..64u32 {
        let mut d = Dev::default();
        for (j, f) in DEVS.iter().enumerate() { if s >> j & 1 == 1 { set(&mut d, f); } }
        if fits(&model(src, mode, d, None)) { return Seen { m, i }; }
    }
    if !m.failed && x.map(|x| x <= src.chars().count() as u64).unwrap_or(false) { return Seen { m, i }; } // wrongly rejected: not this property's matter
    let w = match window(&m, src, mode) { Some((lo, hi)) => format!("expected an error that names a place in {}..={}; got {:?}", lo, hi, i.err), None => format!("expected an error that names a place in the source; got {:?}", i.err) };
    ctx.violation(kind_name(mode_kind(mode)), src, w);
    Seen { m, i }
}

/// Which listed deviations, if any, make the model say what the implementation does.
pub fn explain(ctx: &Ctx, src: &str, mode: Mode, i: &IParse) -> Option<Vec<&'static str>> {
    let f = ctx.dev_flags();
    let mut subsets: Vec<u32> = (1..1u32 << f.len()).collect();
    subsets.sort_by_key(|s| s.count_ones());
    for s in subsets {
        let mut d = Dev::default();
        let mut names = vec![];
        for (j, x) in f.iter().enumerate() { if s >> j & 1 == 1 { set(&mut d, x); names.push(*x); } }
        let m = model(src, mode, d, None);
        if !matches!(m.expect, Expect::Any) && agrees(&m.expect, i) { return Some(names); }
    }
    None
}

fn dump_line(ctx: &mut Ctx, src: &str, mode: Mode, m: &Model) {
    use std::io::Write;
    fn spans(t: &crate::refparse::T, toks: &[Tok], depth: usize, out: &mut String) -> (u32, u32) {
        use crate::refparse::T;
        let mut r = (u32::MAX, 0);
        let mut add = |x: (u32, u32)| { if x.0 < r.0 { r.0 = x.0; } if x.1 > r.1 { r.1 = x.1; } };
        match t {
            T::L(i) => { if toks[*i].s != NOPOS { add((toks[*i].s, toks[*i].e)); } }
            T::G(v) => for x in v { add(spans(x, toks, depth, out)); },
            T::Nil => {}
            T::N(n, f) => {
                let mut below = String::new();
                for x in f { add(spans(x, toks, depth + 1, &mut below)); }
                out.push_str(&format!("{}:{}:{}:{} ", depth, n, r.0, r.1));
                out.push_str(&below);
            }
        }
        r
    }
    let v = match m.expect { Expect::Tree(_) => "T", Expect::Accept => "A", Expect::Reject => "R", Expect::Any => return };
    let mut sp = String::new();
    if v == "T" { let mut p = P::new(&m.lx.toks, Dev::default()); if let Ok(t) = p.parse(mode) { spans(&t, &m.lx.toks, 0, &mut sp); } }
    let mut hex = String::new();
    for b in src.bytes() { hex.push_str(&format!("{:02x}", b)); }
    let _ = writeln!(ctx.dump.as_mut().unwrap(), "{}\t{}\t{}\t{}", kind_name(mode_kind(mode)), v, hex, sp);
}

pub struct Seen { pub m: Model, pub i: IParse }

/// Compare the implementation's tree (or rejection) with the model's.
pub fn check_tree(ctx: &mut Ctx, src: &str, mode: Mode) -> Seen {
    let m = model(src, mode, Dev::default(), Some(ctx));
    let i = parse_impl(&ctx.shm, src, mode, None);
    ctx.runs += 1;
    if i.stat == Stat::Ok { ctx.accepted += 1; if ctx.accepted.is_power_of_two() { ctx.sample(format!("{} {:?} -> {}", kind_name(mode_kind(mode)), src, show(&i.tree, src))); } }
    if ctx.dump.is_some() { dump_line(ctx, src, mode, &m); }
    if !agrees(&m.expect, &i) {
        match explain(ctx, src, mode, &i) {
            Some(d) => for x in d { ctx.known(x, src); },
            None => {
                let w = format!("expected {}; got {}", describe_model(&m.expect, src), describe(&i, src));
                ctx.violation(kind_name(mode_kind(mode)), src, w);
            }
        }
    }
    Seen { m, i }
}

/// Model and implementation on a source, without judging.
pub fn check_quiet(ctx: &mut Ctx, src: &str, mode: Mode) -> Seen {
    let m = model(src, mode, Dev::default(), None);
    let i = parse_impl(&ctx.shm, src, mode, None);
    Seen { m, i }
}

// ------------------------------------------------------------------------------ bounded search

pub struct Fam {
    pub name: &'static str,
    pub mode: Mode,
    pub prefix: &'static str,
    pub suffix: &'static str,
    pub sep: &'static str,
    pub pieces: &'static [&'static str],
    pub quick: usize,
    pub thorough: usize,
}

/// How many leading tokens of `lex(head)` stay as they are whatever is appended, and where the last of them starts.
fn stable(head: &str, glued: bool) -> (usize, i64, bool) {
    let lx = lex(head, LexDev::default());
    let mut n = lx.eof_from.min(lx.toks.len());
    // a last token that touches the end of the text may still grow
    if glued && n > 0 && lx.toks[n - 1].e as usize == head.chars().count() && lx.toks[n - 1].k != K::Newline { n -= 1; }
    let mut last = -1i64;
    let mut layout = false;
    for t in &lx.toks[..n] { if t.s != NOPOS { last = t.s as i64; } else { layout = true; } }
    if lx.end == End::Error {
        let c: Vec<char> = head.chars().collect();
        let ch = c.get(lx.err_at as usize).cloned().unwrap_or(' ');
        // an unclosed string or a backslash at the very end may still become something else
        if !(ch == '\'' || ch == '"' || ch == '\\' || ch.is_alphanumeric() || lx.err_at as usize + 2 >= c.len()) { return (n + 1, lx.err_at as i64, layout); }
    }
    (n, last, layout)
}

/// Depth-first search over all strings of at most `depth` pieces. A prefix is abandoned only when
/// both the model and the implementation have failed without looking past tokens that no
/// continuation can change: then every longer string is rejected by both.
pub fn explore<F: FnMut(&mut Ctx, &str) -> Option<Seen>>(ctx: &mut Ctx, f: &Fam, depth: usize, judge: &mut F) {
    let (r0, a0) = (ctx.runs, ctx.accepted);
    let mut split = 1;
    let mut k = f.pieces.len();
    while k < 300 && split < depth { split += 1; k *= f.pieces.len(); }
    let mut head = String::from(f.prefix);
    dfs(ctx, f, depth, split, 0, &mut head, judge);
    ctx.family(&format!("{} (<= {} of {} pieces)", f.name, depth, f.pieces.len()), r0, a0);
}

fn dfs<F: FnMut(&mut Ctx, &str) -> Option<Seen>>(ctx: &mut Ctx, f: &Fam, depth: usize, split: usize, at: usize, head: &mut String, judge: &mut F) {
    if at == split && !ctx.claim() { return; }
    if ctx.stopped() { return; }
    let src = format!("{}{}", head, f.suffix);
    // nodes above the split are evaluated by every worker and counted by one
    let (r, a, t) = (ctx.runs, ctx.accepted, ctx.transitions);
    let seen = judge(ctx, &src);
    if at < split && ctx.worker != 0 { ctx.runs = r; ctx.accepted = a; ctx.transitions = t; }
    if at == depth { return; }
    if let Some(s) = seen {
        if s.m.failed && s.i.stat == Stat::Err {
            let glued = f.sep.is_empty() && !f.pieces.iter().all(|p| p.starts_with(' ') || p.starts_with('\n'));
            let (n, last, layout) = stable(head, glued);
            let pos = s.i.pos as i64;
            if s.m.seen < n && (pos < last || (pos == last && !layout)) { return; }
        }
    }
    let keep = head.len();
    for p in f.pieces {
        if at > 0 { head.push_str(f.sep); }
        head.push_str(p);
        dfs(ctx, f, depth, split, at + 1, head, judge);
        head.truncate(keep);
    }
}

/// All strings over `alphabet` of length at most `n`, in parallel, each inside prefix and suffix.
pub fn strings<F: FnMut(&mut Ctx, &str) + ?Sized>(ctx: &mut Ctx, name: &str, alphabet: &[&str], n: usize, ctxs: &[(&str, &str)], f: &mut F) {
    let (r0, a0) = (ctx.runs, ctx.accepted);
    for (pre, post) in ctxs {
        let mut split = 0;
        let mut k = 1;
        while k < 300 && split < n { split += 1; k *= alphabet.len(); }
        let mut head = pre.to_string();
        all(ctx, alphabet, n, split, 0, &mut head, post, f);
    }
    ctx.family(&format!("{} (<= {} of {}, {} contexts)", name, n, alphabet.len(), ctxs.len()), r0, a0);
}
fn all<F: FnMut(&mut Ctx, &str) + ?Sized>(ctx: &mut Ctx, al: &[&str], n: usize, split: usize, at: usize, head: &mut String, post: &str, f: &mut F) {
    if at == split { if !ctx.claim() { return; } }
    if ctx.stopped() { return; }
    if at >= split || ctx.worker == 0 {
        let keep = head.len();
        head.push_str(post);
        f(ctx, head);
        head.truncate(keep);
    }
    if at == n { return; }
    let keep = head.len();
    for c in al { head.push_str(c); all(ctx, al, n, split, at + 1, head, post, f); head.truncate(keep); }
}

/// A list of cases, one work unit per chunk.
pub fn list<X, F: FnMut(&mut Ctx, &X)>(ctx: &mut Ctx, name: &str, items: &[X], chunk: usize, f: &mut F) {
    let (r0, a0) = (ctx.runs, ctx.accepted);
    for c in items.chunks(chunk) {
        if !ctx.claim() { continue; }
        for x in c { if ctx.stopped() { break; } f(ctx, x); }
    }
    ctx.family(&format!("{} ({} cases)", name, items.len()), r0, a0);
}
