//! The same small cases again in many surroundings, and lists of whole items.
use crate::engine::*;
use crate::refparse::Mode::{self, *};
use crate::reflex::{KEYWORDS, OPERATORS};

fn mirror(s: &str) -> String { s.chars().rev().map(|x| match x { '(' => ')', '[' => ']', '{' => '}', x => x }).collect() }
fn stairs(n: usize, step: &str) -> String { (0..n).map(|i| format!("{}if a:\n", step.repeat(i))).collect() }

// ------------------------------------------------------------------------------ lexical surroundings

/// Tokens and short token sequences of every kind.
pub fn cores(all: bool) -> Vec<String> {
    let mut v: Vec<String> = OPERATORS.iter().map(|x| x.0.to_string()).filter(|x| x != "\0").collect();
    v.extend(KEYWORDS.iter().map(|x| x.0.to_string()));
    for s in ["a", "_", "é1", "Z_9", "match", "iff", "If", "not_", "async1", "r", "b", "rb", "f", "u", "0", "00", "0_0", "7", "10", "1_0", "0x1F", "0X_f", "0o17", "0b1", "1.", ".5", "1.5", "0.0", "1e5", "1E+5", "1.e-5", ".5e5", "1j", "0j", "1.j", "1.5J", "1e5j", "1e1_0", "01.5", "01e1", "01j", "1_0.0_1e+1_0J", "0_7.5",
        "1if", "1or 2", "0x1for", "1.real", "1..a", "1...", "1_", "1__0", "01", "0x", "0xg", "0b2", "0o8", "1e", "1e+", "1e_1", "1._5", "1_a", "0_", "1e5_", "0x_", "5a", "1.5.5",
        "''", "\"\"", "'s'", "\"s\"", "''''''", "\"\"\"\"\"\"", "'''s'''", "\"\"\"s\"\"\"", "r's'", "R\"s\"", "b's'", "rb''", "Br\"\"\"s\"\"\"", "u's'", "f's'", "fR'''s'''", "'\\''", "\"\\\"\"", "'\\\\'", "'\\\n'", "'''\n'''", "'''\n\n  s'\n'''", "\"\"\"\n\"\n\"\"\"", "'#'", "'('", "\")]\"", "'''\n)\n'''", "r'\\'", "'a' 'b'", "'a'\"b\"", "'''a''''b'", "'a'b'c'", "'", "\"a", "'a\n'", "'''a", "'''a''", "ur's'", "bu's'", "rr's'",
        "#", "# c", "# type: x", "#type: x", "# type:x", "# (", "# '", "## type: x", "\\\n", "\\\r", "\\", "\\ ", "\\a", "$", "?", "!", "`", "!=", "<>", "->", ":=", ":=:", "...", "..", "....", ".....", "**=", "***", "//=", "///", "<<=", "<<<", ">>=", "@=", "~=", "==", "===", "=!", "=:", "-->", "+-", "a.b", "a .b", "a. b", "a=b", "a:b", "a,b", "a;b", "not in", "is not", "notin", "a if b", "lambda:a",
        "()", "[]", "{}", "(a)", "([{}])", "(]", "[)", "{)", "(()", "())", ")", "]", "}", "(", "[", "{", "(\n)", "[\n a]", "{\n\n}", "(# c\n)", "(a,\n  b)", "(\\\n)", "(]a", "a)b", "(a]:b)", "f(x)[y]", "a\nb", "a\n\nb", "a\rb", "a;\nb", "\n", "\r", "\n\n", " \n", "a\n", "a \n", "a # c\nb", "a\n# c\nb", "a\n  # c\nb", "a\\\nb", "a\\\n b", "a \\\n  \\\n b", "\\\n\n", "if a: b", "if a: # c", "é", "ñ= 'é中'", "中", "\u{1f600}", "\u{a0}", "\u{feff}", "\u{301}", "\0"] { v.push(s.to_string()); }
    if all {
        let ops: Vec<String> = OPERATORS.iter().map(|x| x.0.to_string()).filter(|x| x != "\0").collect();
        for a in &ops { for b in &ops { v.push(format!("{}{}", a, b)); v.push(format!("{}a{}", a, b)); } }
        for (k, _) in KEYWORDS.iter() { for (q, _) in KEYWORDS.iter() { v.push(format!("{} {}", k, q)); } for s in ["(", ".", "=", ":", "1", "_", "'s'", "\n", "\t", "#", "\\\n"] { v.push(format!("{}{}", k, s)); v.push(format!("{}{}", s, k)); } }
        for p in ["0x", "0X_", "0o", "0O_", "0b", "0B", "1.", ".", "1e", "1e+", "1E-", "1.5e", "1_0", "0", "00", "1"] { for d in ["0", "1", "7", "9", "f", "1_0", "_1", "00", "0_0", "1j", "0J", "9.", "1.5", "1e1", "1.e1j", "8a"] { v.push(format!("{}{}", p, d)); } }
        for p in ["", "r", "b", "f", "u", "Rb", "bR", "rF"] { for q in ["'", "\"", "'''", "\"\"\""] { for b in ["", "a", "\\\\", "\\'", "\\\"", "#", "(", "é", "{x}", "a b", "''", "\"\"", "\\\n", "a\nb"] { v.push(format!("{}{}{}{}", p, q, b, q)); v.push(format!("{}{}{}{}x", p, q, b, q)); } } }
    }
    v
}

/// What can stand before and after.
pub fn around(wide: bool) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let depths: Vec<usize> = if wide { (1..=40).chain([64, 100]).collect() } else { vec![1, 2, 3, 4, 5, 6, 8, 12, 16, 33] };
    for n in &depths {
        for o in ["(", "[", "{", "([{", "f(", "(a,\n", "[\n  ", "{# c\n"] { let o = o.repeat(*n); let k = mirror(&o.chars().filter(|x| "([{".contains(*x)).collect::<String>()); v.push((o.clone(), k.clone())); v.push((format!("{}a ", o), format!(" b{}\nc\n", k))); v.push((o.clone(), String::new())); }
        for step in [" ", "    ", "\t"] {
            let s = stairs(*n, step);
            let i = step.repeat(*n);
            v.push((format!("{}{}", s, i), "\n".into()));
            v.push((format!("{}{}a ", s, i), format!(" b\n{}c\n", i)));
            v.push((format!("{}{}", s, i), "\nd\n".into()));
            v.push((format!("{}{}a\n{}", s, i, i), String::new()));
            v.push((format!("{}{}a\n", s, i), "\n".into()));
            v.push((format!("{}{}a\n{}", s, i, step.repeat(*n / 2)), "\nb\n".into()));
            v.push((format!("{}{}(", s, i), format!(")\n{}b\nc\n", i)));
            v.push((format!("{}{}[a,\n", s, i), "]\nc\n".into()));
        }
    }
    let far: Vec<usize> = if wide { (10..130).chain([200, 254, 255, 256, 257, 300, 511, 512, 1000, 1023, 4095]).collect() } else { vec![20, 31, 40, 64, 80, 100, 128, 200, 255, 256, 300, 1000, 4095] };
    for n in &far {
        for (w, t) in [("z", " "), (" ", ""), ("z\n", ""), ("\n", ""), ("#", "\n"), ("# c\n", ""), ("z ", ""), ("\\\n", ""), ("'s' ", ""), ("1,", ""), ("+", " "), ("()", ""), ("z;", ""), ("é", "\n"), ("if z: z\n", ""), ("if z:\n  z\n", ""), ("(\n)\n", "")] { v.push((format!("{}{}", w.repeat(*n), t), "\n".into())); }
        for (w, t) in [("z, ", ""), ("\n", " "), ("# c\n", ""), (" ", ""), ("\\\n", ""), ("[a],", ""), ("{}\n", "")] { v.push((format!("({}{}", w.repeat(*n), t), ")\nb\n".into())); }
    }
    for k in 1..if wide { 12 } else { 7 } { for w in [" ", "\t", " \t", "\\\n", " \\\n", "\\\r\t", "# c\n", "\n", "  # c\n\n"] { let w = w.repeat(k); v.push((w.clone(), w.clone())); v.push((format!("a{}", w), format!("{}b\n", w))); v.push((format!("({}", w), format!("{})\n", w))); v.push((format!("((a{}", w), format!("{}b))\nc\n", w))); v.push((format!("if a:\n  b{}", w), format!("{}\nc\n", w))); } }
    for a in ["", "a", "1", "'s'", "'''x\ny'''", "if", "# type: x\n", "...", ".", "=", ")", "]", ":", ",", ";", "->", "@", "é", "not", "0x1f", "1.5e5", "a\r", "a\\\n", "(a)", "x = (a,\n b)\n", "if a:\n  b\n", "if a:\n  b\n  ", "(\n", "[a,\r", "\u{4e2d}\u{1f600} ", "'\u{e9}'"] {
        for g in ["", " ", "  ", "\t", "\\\n"] { for b in ["", "\n", " z\n", " \\\nz", ")\n", " 'x'", " 1", " # c", ":\n  z\n"] { v.push((format!("{}{}", a, g), b.to_string())); } }
    }
    v
}

/// Every core in every surrounding.
pub fn lexical(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let some = cores(false);
    let all = cores(true);
    let env = around(c.thorough());
    let small = if c.thorough() { all.len() } else { some.len() };
    let v: Vec<(usize, (String, String))> = env.into_iter().enumerate().collect();
    let n = v.len();
    let every = c.q(12, 1);
    list(c, &format!("{} texts in each of {} surroundings, {} more in one of {}", small, n, all.len() - small, every), &v, 4, &mut |c, (k, (a, b))| {
        for (i, x) in all.iter().enumerate() {
            if i >= small && (i + k) % every != 0 { continue; }
            if c.stopped() { return; }
            let s = format!("{}{}{}", a, x, b);
            if !s.contains("\r\n") { f(c, &s); }
        }
    });
}

/// Every sequence of pieces of layout at a place, in many places.
pub fn trivia(c: &mut Ctx, n: usize, pieces: &[&str], ctxs: &[(&str, &str)], f: &mut dyn FnMut(&mut Ctx, &str)) {
    strings(c, "sequences of layout", pieces, n, ctxs, &mut |c, s| if !s.contains("\r\n") { f(c, s) });
}
pub const LAYOUT: &[&str] = &[" ", "\t", "# c\n", "\\\n", "\\\r", "\n", "\r"];
pub const PLACES: &[(&str, &str)] = &[
    ("", ""), ("", "a\n"), ("a", ""), ("a", "b\n"), ("a =", "b\n"), ("a\n", "b\n"), ("(", ")\n"), ("(a", "+ b)\n"), ("((a", "+ b))\n"), ("[(a, ", "b)]\nc\n"), ("f({(a", ")})\n"), ("x[f([{(a,", "b)}])]\nc"), ("a + (", "b"),
    ("if a:", "b\n"), ("if a:\n  b", "\n  c\nd\n"), ("if a:\n", "  b\nc\n"), ("if a:\n  b\n", "  c\nd\n"), ("if a:\n  if b:\n    c\n", "  d\ne\n"), ("if a:\n  if b:\n    (c", ", d)\n  e\nf"), ("if a:\n  b\n", "else: c\n"), ("@a", "\ndef f(): b\n"), ("'s'", "'t'\n"), ("a;", "b\n"),
];

// ------------------------------------------------------------------------------ lists of items

pub struct Items { pub id: &'static str, pub mode: Mode, pub pre: &'static str, pub post: &'static str, pub sep: &'static str, pub items: &'static [&'static str], pub quick: usize, pub thorough: usize }
const fn i(id: &'static str, mode: Mode, pre: &'static str, post: &'static str, sep: &'static str, items: &'static [&'static str], quick: usize, thorough: usize) -> Items { Items { id, mode, pre, post, sep, items, quick, thorough } }

pub const ITEMS: &[Items] = &[
    i("C10", Eval, "", "", " ", &["a +", "b *", "-", "c **", "d |", "(e) <<", "~", "f //", "g @", "h"], 5, 6),
    i("C11", Eval, "lambda ", ": z", ", ", &["a", "b=c", "/", "*", "*d", "**e"], 6, 8),
    i("C11", File, "x = lambda ", ": z\n", ", ", &["a", "b=c", "/", "*", "*d", "**e"], 5, 7),
    i("C11", Eval, "f(lambda ", ": z, y)", ", ", &["a", "b=c", "c=(d, e)", "/", "*", "*d", "**e"], 5, 6),
    i("C11", Eval, "", "", " ", &["a or", "b and", "not", "c <", "d in", "e not in", "f is not", "g if h else", "lambda:", "i"], 5, 6),
    i("C11", Eval, "[x for y in z if ", "]", " if ", &["a", "lambda: b", "lambda c: d", "lambda e, f=g: h", "i or j", "not k", "(l if m else n)", "o := p"], 4, 5),
    i("C11", Eval, "(", ")", ", ", &["a", "b := c", "d if e else f", "lambda: g", "h := lambda: i", "not j", "k < l < m"], 5, 6),
    i("C12", Eval, "(", ")", ", ", &["a", "*b", "c := d", "e.f", "*g | h", "(i,)", "'j'"], 5, 6),
    i("C12", Eval, "[", "]", ", ", &["a", "*b", "c := d", "e.f", "*g | h", "[i]", "'j'"], 5, 6),
    i("C12", Eval, "{", "}", ", ", &["a", "*b", "c := d", "e: f", "**g", "h: i if j else k", "**l | m"], 5, 6),
    i("C12", Eval, "[a ", "]", " ", &["for b in c", "async for d in e", "if f", "for g, in h", "if not i", "for j, *k in l or m", "if n := o", "for p[0].q in r"], 4, 6),
    i("C12", Eval, "{a: b ", "}", " ", &["for b in c", "async for d in e", "if f", "for g, in h", "if not i", "for j, *k in l or m", "if (n := o)"], 4, 6),
    i("C12", Eval, "f(a ", ")", " ", &["for b in c", "async for d in e", "if f", "for g, in h", "if not i", "for j, *k in l or m", "if (n := o)"], 4, 6),
    i("C12", Eval, "", "", " ", &["'a'", "b''", "r\"c\"", "'''d'''", "f'e'", "u'f'", "''"], 5, 6),
    i("C13", Eval, "f(", ")", ", ", &["a", "b=c", "*d", "**e", "g := h", "i if j else k", "m.n=o", "(p for q in r)"], 5, 6),
    i("C13", File, "class C(", "): pass\n", ", ", &["a", "b=c", "*d", "**e", "g := h", "i[j]"], 5, 6),
    i("C13", File, "@f(", ")\ndef g(): pass\n", ", ", &["a", "b=c", "*d", "**e", "g := h"], 5, 6),
    i("C13", Eval, "a[", "]", ", ", &["b", ":", "c:", ":d", "e:f", "::", "g::", "::h", "i:j:k", ":l:", "*m", "n := o"], 4, 5),
    i("C13", Eval, "a", "", "", &["(b)", "()", "[c]", "[d:]", ".e", "(f, g=h)", "(*i)", "[j, k]", ".l.m"], 5, 6),
    i("C13", Eval, "await a", " ** b", "", &["(b)", "()", "[c]", "[d:]", ".e", "(f, g=h)", "[j, k]"], 4, 5),
    i("C14", File, "", "\n", "; ", &["pass", "a", "del b, c", "return d", "raise e from f", "global g, h", "assert i, j", "yield k", "import l", "m = n", "break", "continue"], 4, 5),
    i("C14", File, "", "", "\n", &["pass", "a; b", "del b,", "return", "raise", "nonlocal g", "assert i", "yield from k", "from . import l", "m += n", "return a, *b", ""], 4, 5),
    i("C14", File, "del ", "\n", ", ", &["a", "b.c", "d[e]", "(f, g)", "[h]", "*j", "k(l).m", "()"], 5, 6),
    i("C14", File, "return ", "\n", ", ", &["a", "*b", "c if d else e", "lambda: f", "(g)", "*h | i", "not j"], 5, 6),
    i("C14", File, "global ", "\n", ", ", &["a", "b", "_", "match", "c.d", "1"], 5, 6),
    i("C14", File, "yield ", "\n", ", ", &["a", "*b", "c if d else e", "lambda: f", "(yield g)", "*h | i"], 5, 6),
    i("C15", File, "", "\n", " = ", &["a", "b, c", "*d, e", "f.g", "(h)", "yield i", "[j, k]", "yield", "l,"], 5, 6),
    i("C15", File, "", "\n", "; ", &["a = b", "c: d", "e: f = g", "h += i", "j = k = l", "m, n = o", "p = yield q", "r **= s, t"], 4, 5),
    i("C15", File, "", "", "", &["a = b\n", "c: d\n", "e: f = g # type: t\n", "h += i\n", "j = k = l # type: t\n", "m = yield # type: t\n", "  \n", "# type: u\n"], 4, 5),
    i("C15", File, "x += ", "\n", ", ", &["a", "b if c else d", "lambda: e", "*f", "(g)", "not h"], 5, 6),
    i("C16", File, "import ", "\n", ", ", &["a", "b.c", "d as e", "f.g.h as i", "_", ".j", "k as l.m"], 5, 6),
    i("C16", File, "from a import ", "\n", ", ", &["b", "c as d", "_ as _", "*", "e.f", "(g)", "match"], 5, 6),
    i("C16", File, "from . import (", ")\n", ", ", &["b", "c as d", "_ as _", "*", "e.f", "(g)", "match"], 5, 6),
    i("C16", File, "from ", " import a, b as c\n", "", &[".", "..", "...", " ", "b", ".c", "...."], 5, 6),
    i("C16", File, "", "", "", &["import a\n", "from b import c\n", "from . import (d,\n e)\n", "import f as g, h; ", "from .. import *\n", "from .i import j as k; ", "l\n"], 4, 6),
    i("C17", File, "with ", ": z\n", ", ", &["a", "b as c", "(d)", "e.f as g.h", "i() as (j, k)", "l as *m", "n if o else p", "q := r"], 5, 6),
    i("C17", File, "with (", "): z\n", ", ", &["a", "b as c", "(d)", "e.f as g.h", "i() as (j, k)", "l as *m", "n if o else p", "q := r"], 5, 6),
    i("C17", File, "async with (", "):\n  z\n", ", ", &["a", "b as c", "(d)", "e.f as g.h", "i() as (j, k)"], 5, 6),
    i("C17", File, "for ", " in z: y\n", ", ", &["a", "*b", "c.d", "e[f]", "(g, h)", "*i.j", "k | l"], 5, 6),
    i("C17", File, "for a in ", ": y\n", ", ", &["a", "*b", "c if d else e", "lambda: f", "(g)", "not h"], 5, 6),
    i("C17", File, "if a: b\n", "", "", &["elif c: d\n", "elif e:\n  f\n", "elif g := h: i; j\n", "elif k: # c\n  l\n", "else: m\n", "else:\n  n\n", "# c\n", "o\n", "\n"], 5, 6),
    i("C17", File, "", "", "", &["if a: b\n", "while c:\n  d\n", "for e in f: g\n", "else: h\n", "else:\n  i\n", "with j: k\n", "async with l:\n  m\n", "async for n in o: p\n", "q\n"], 5, 6),
    i("C17", File, "if a:\n", "", "", &["  b\n", "  if c: d\n", "  else: e\n", "  while f:\n    g\n", "else: h\n", "else:\n    i\n", "    j\n", "k\n", "\n"], 5, 6),
    i("C18", File, "try: a\n", "", "", &["except: b\n", "except c: d\n", "except e as f:\n  g\n", "except* h: i\n", "except* j as k:\n  l\n", "else: m\n", "else:\n  n\n", "finally: o\n", "finally:\n  p\n"], 5, 6),
    i("C18", File, "try:\n", "", "", &["  a\n", "  try: b\n", "  except c: d\n", "  except* e: f\n", "  finally: g\n", "except h: i\n", "except* j: k\n", "else: l\n", "finally: m\n"], 5, 6),
    i("C19", File, "", "", "", &["@a\n", "@b.c(d)\n", "@e()\n", "def f(): g\n", "class h: i\n", "async def j(): k\n", "def l() -> m:\n  n\n", "class o(p):\n  q\n", "r\n", "\n"], 4, 6),
    i("C19", File, "class C:\n", "", "", &["  @a\n", "  b\n", "  def c(): d\n", "  async def e():\n    f\n", "  class g: h\n", "  pass\n", "i\n", "\n", "  # j\n"], 5, 6),
    i("C19", File, "def f():\n", "", "", &["  @a\n", "  b\n", "  def c(): d\n", "  return e\n", "  class g: h\n", "  # type: t\n", "  yield k\n", "i\n", "\n"], 5, 6),
    i("C19", File, "class C(", "):\n  z\n", ", ", &["a", "b=c", "*d", "**e", "f.g", "h()", "i := j"], 5, 6),
    i("C20", FuncType, "(", ") -> z", ", ", &["a", "*b", "**c", "d.e", "f[g]", "lambda: h", "*i.j", "**(k)"], 5, 6),
    i("C20", FuncType, "(", ") -> z\n", ",", &["a", "*b", "**c", "d if e else f", "(g)"], 5, 6),
    i("C20", File, "", "", "", &["a\n", "b; c\n", "\n", "# d\n", "if e: f\n", "if g:\n  h\n", "@i\ndef j(): k\n", "  l\n", "m"], 5, 6),
    i("C20", Single, "", "", "", &["a\n", "b; c\n", "\n", "# d\n", "if e: f\n", "if g:\n  h\n", "@i\ndef j(): k\n", "else: l\n", "m"], 4, 5),
    i("C20", Eval, "", "", "", &["a", ", ", "\n", " # b\n", "*c", "(d)", " ", "if e else f", "\\\n"], 5, 6),
];

fn rec(c: &mut Ctx, x: &Items, n: usize, at: usize, head: &mut String, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    if at == 2 && !c.claim() { return; }
    if c.stopped() { return; }
    if at >= 2 || c.worker == 0 {
        let tails: &[&str] = if x.sep.trim() == "," || x.sep.trim() == ";" { if at > 0 { &["", ",", ";", ",,"] } else { &["", ","] } } else { &[""] };
        for t in tails { if *t == ";" && x.sep.trim() != ";" { continue; } let s = format!("{}{}{}{}", x.pre, head, t, x.post); f(c, &s, x.mode); }
    }
    if at == n { return; }
    let keep = head.len();
    for p in x.items { if at > 0 { head.push_str(x.sep); } head.push_str(p); rec(c, x, n, at + 1, head, f); head.truncate(keep); }
}

/// All lists of whole items up to a length.
pub fn items(c: &mut Ctx, id: Option<&str>, less: usize, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    for x in ITEMS {
        if let Some(id) = id { if x.id != id { continue; } }
        let (r0, a0) = (c.runs, c.accepted);
        let n = c.q(x.quick, x.thorough).saturating_sub(less);
        rec(c, x, n, 0, &mut String::new(), f);
        c.family(&format!("lists of items {:?} .. {:?} (<= {} of {})", x.pre, x.post, n, x.items.len()), r0, a0);
    }
}

// ------------------------------------------------------------------------------ the same source, varied

/// The source with every name replaced (keywords and names that are part of a string prefix stay).
pub fn rename(s: &str, with: &dyn Fn(&str) -> String) -> String {
    let ch: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < ch.len() {
        if ch[i] == '#' { while i < ch.len() && ch[i] != '\n' && ch[i] != '\r' { o.push(ch[i]); i += 1; } continue; }
        if ch[i] == '\'' || ch[i] == '"' {
            let q = ch[i];
            o.push(q); i += 1;
            while i < ch.len() && ch[i] != q { o.push(ch[i]); i += 1; }
            if i < ch.len() { o.push(q); i += 1; }
            continue;
        }
        if ch[i].is_alphabetic() || ch[i] == '_' {
            let j = i;
            while i < ch.len() && (ch[i].is_alphanumeric() || ch[i] == '_') { i += 1; }
            let w: String = ch[j..i].iter().collect();
            if KEYWORDS.iter().any(|k| k.0 == w) || (i < ch.len() && (ch[i] == '\'' || ch[i] == '"')) || (j > 0 && ch[j - 1].is_ascii_digit()) { o.push_str(&w); } else { o.push_str(&with(&w)); }
            continue;
        }
        o.push(ch[i]);
        i += 1;
    }
    o
}

/// Variants of a source that change names, operands, spacing or the place in the file, but not its tokens in other ways.
/// What each of them means is for the model to say.
pub fn variants(s: &str, mode: Mode, k: usize) -> Vec<(Mode, String)> {
    let mut v: Vec<String> = vec![];
    v.push(rename(s, &|w| format!("{}_{}", w, "n".repeat(34))));
    v.push(rename(s, &|w| match w { "a" => "(x, y)".into(), _ => format!("{}.y", w) }));
    let w = ["1.5", "'s'", "f(x)", "x[y]", "(x)", "[x]", "{x: y}", "None", "...", "lambda: x", "-x", "not x", "x < y", "await x", "é1", "x ** y", "()", "x if y else z", "'s' 't'", "{x}", "x or y", "_", "case", "print", "x.y.z", "f(x)(y)", "[x for y in z]", "(yield x)", "True", "x + y", "0x1F"];
    for j in 0..2 { let t = w[(k + j * 13) % w.len()]; v.push(rename(s, &|_| t.to_string())); }
    let t = w[(k * 7 + 3) % w.len()];
    let n = std::cell::Cell::new(0usize);
    v.push(rename(s, &|x| { n.set(n.get() + 1); if n.get() % 2 == k % 2 { t.to_string() } else { x.to_string() } }));
    let words: Vec<&str> = s.split_inclusive('\n').collect();
    let lines = |f: &dyn Fn(&str) -> String| -> String { words.iter().map(|l| { let n = l.len() - l.trim_start_matches(' ').len(); format!("{}{}", &l[..n], f(&l[n..])) }).collect() };
    v.push(lines(&|l| l.replace(' ', " \t ")));
    v.push(lines(&|l| { let mut o = String::new(); let ch: Vec<char> = l.chars().collect(); for i in 0..ch.len() { let word = |x: Option<&char>| x.map(|x| x.is_alphanumeric() || *x == '_' || *x == '"' || *x == '\'').unwrap_or(false); if ch[i] == ' ' && !(i > 0 && word(ch.get(i - 1)) && word(ch.get(i + 1))) { continue; } o.push(ch[i]); } o }));
    let mut o: Vec<(Mode, String)> = v.into_iter().map(|x| (mode, x)).collect();
    o.push((mode, format!("#{}\n{}", "c".repeat(60 + k % 200), s)));
    let gap = [" \t ", "  ", " \\\n ", "\t\\\n", " \\\r\t "][k % 5];
    o.push((mode, format!("#{}\n{}", "c".repeat(40 + k % 100), lines(&|l| l.replace(' ', gap)))));
    if !s.contains('\n') {
        let gap = [" # c\n\t", "\n\n ", " \r #\n", "# type: t\n ", " \\\n # c\n"][k % 5];
        if mode == Eval { o.push((Eval, format!("({}{})", " ".repeat(45 + k % 50), s.replace(' ', gap)))); o.push((File, format!("{}[\n{}\n]\n", "z\n".repeat(20 + k % 30), s.replace(' ', gap)))); }
    }
    match mode {
        File => {
            o.push((File, format!("{}{}", "z\n".repeat(20 + k % 60), s)));
            let ind: String = words.iter().map(|l| if l.trim().is_empty() { l.to_string() } else { format!("  {}", l) }).collect();
            let bl = crate::checks::blocks();
            let (h, t) = bl[k % bl.len()];
            let nl = if s.ends_with('\n') { "" } else { "\n" };
            o.push((File, format!("{}{}{}{}", h, ind, nl, t)));
            o.push((File, format!("if z:\n  y\n{}{}x\n", s, nl)));
        }
        Eval => {
            let (a, b) = [("(", ")"), ("[", "]"), ("{", "}"), ("f(", ")"), ("a[", "]"), ("{a: ", "}"), ("((((((", "))))))"), ("[[[[[[[[[[", "]]]]]]]]]]"), ("f(*", ")"), ("f(k=", ")"), ("lambda: (", ")"), ("-(", ")"), ("not ", ""), ("z, ", ""), ("[z, *", "]"), ("z if y else ", ""), ("", " if y else z"), ("await (", ")"), ("(yield ", ")"), ("[z for y in ", "]"), ("[z for y in x if ", "]"), ("{**", "}"), ("a[b:", "]"), ("z + ", ""), ("z < ", " < y")][k % 25];
            o.push((Eval, format!("{}{}{}", a, s, b)));
            o.push((File, format!("x = {}\n", s)));
            let (a, b) = [("", ""), ("return ", ""), ("if ", ": z"), ("while ", ": z"), ("for x in ", ": z"), ("assert ", ", z"), ("x += ", ""), ("x: ", " = y"), ("with z as ", ": y"), ("del z, ", ""), ("raise ", ""), ("yield ", ""), ("class C(", "): z"), ("def f() -> ", ": z"), ("if z: y; ", "; x"), ("try: z\nexcept ", ": y"), ("for ", " in z: y")][k % 17];
            o.push((File, format!("{}{}{}\n", a, s, b)));
        }
        _ => {}
    }
    o
}

/// The sequences of a property's families again, each in several variants.
pub fn varied(c: &mut Ctx, id: Option<&str>, most: usize, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    for (p, fam) in crate::fams::FAMS {
        if let Some(id) = id { if *p != id { continue; } }
        let d = c.q(fam.quick.saturating_sub(2), fam.thorough.saturating_sub(3)).min(most);
        let mode = fam.mode;
        let mut k = 0usize;
        explore(c, fam, d, &mut |c, s| {
            let seen = check_quiet(c, s, mode);
            k = s.bytes().fold(5381usize, |h, b| h.wrapping_mul(33) ^ b as usize) % 10007;
            for (m, t) in variants(s, mode, k) { if c.stopped() { break; } f(c, &t, m); }
            Some(seen)
        });
    }
}
