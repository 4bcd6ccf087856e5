//! Small valid programs covering every construct; the starting points of the edit, layout,
//! context, type-comment and bad-token searches.

/// One statement each (simple statements without the line break).
pub const SIMPLE: &[&str] = &[
    "pass", "break", "continue", "a", "a, b", "a, *b", "*a, b,", "del a", "del a, b.c,", "return", "return a", "return a, *b",
    "raise", "raise a", "raise a from b", "global a", "nonlocal a, b", "assert a", "assert a, b", "yield a", "yield a, b", "yield from a",
    "a = b", "a = b = c, d", "a, b = c", "a.b[c] = yield d", "a: b", "a: b = c", "a += b", "a -= b, c", "a *= yield b", "a **= b", "a //= b", "a >>= b",
    "a <<= b", "a @= b", "a /= b", "a %= b", "a &= b", "a ^= b", "a |= b",
    "import a", "import a.b.c as d, e", "from a import b", "from .a.b import c as d, e", "from ... import *", "from .. import (a, b as c,)", "from .....a import b",
    "print(a)", "a.b(c)[d]", "f(a, b=c, *d, **e)", "await a.b()", "lambda: a", "a if b else c", "'s' 't'", "...", "x = {1: 2, **a}", "x = {1, *a}", "x = [a, b]", "x = (a,)",
    "a; b; pass", "a; b;", "x = a[1:2, ::3, b]", "x = not a in b", "x = a is not b", "x = -a ** -b",
];

pub const EXPRS: &[&str] = &[
    "a", "1", "'s'", "...", "None", "True", "False", "a.b", "a(b)", "a[b]", "a[b:c, d]", "a(b, c=d, *e, **f)", "-a", "~a", "+a", "a ** b", "a + b * c", "a - b - c",
    "a << b >> c", "a & b ^ c | d", "a < b <= c", "a in b", "a not in b", "a is b", "a is not b", "not a", "a and b or c", "a if b else c", "lambda: a",
    "lambda a, b=c, *d, **e: f", "lambda *, a: b", "lambda a, /, b: c", "(a)", "()", "(a,)", "(a, b)", "(a for b in c)", "(yield a)", "(a := b)", "[]", "[a]", "[a, *b]", "[a for b in c if d]",
    "{}", "{a: b}", "{a: b, **c}", "{a}", "{a, *b}", "{a for b in c}", "{a: b for c in d}", "[a async for b in c]", "await a", "await a.b(c)", "a.b.c(d)(e)[f].g", "a @ b % c // d / e", "'a' 'b'", "0x1f", "1.5e3j",
    "a == b != c > d >= e", "[[a, b], (c, d), {e: [f]}]", "f(a for b in c)", "f(a := b)", "a[:, ::, b:]",
];

/// Blocks: every line break and indentation spelled out.
pub const COMPOUND: &[&str] = &[
    "if a: b\n",
    "if a:\n  b\n",
    "if a:\n  b\nelse:\n  c\n",
    "if a:\n  b\nelif c:\n  d\nelif e:\n  f\nelse:\n  g\n",
    "if a := b: c\n",
    "while a:\n  b\nelse: c\n",
    "while a: break\n",
    "for a in b:\n  c\n",
    "for a, *b in c, d:\n  e\nelse:\n  f\n",
    "for a in b: # type: int\n  c\n",
    "async for a in b: c\n",
    "with a: b\n",
    "with a as b, c:\n  d\n",
    "with (a as b, c,): d\n",
    "async with a as b: c\n",
    "try: a\nexcept: b\n",
    "try:\n  a\nexcept b:\n  c\nexcept d as e:\n  f\nelse:\n  g\nfinally:\n  h\n",
    "try: a\nfinally: b\n",
    "try: a\nexcept* b: c\nexcept* d as e: f\n",
    "try:\n  try: a\n  except* b: c\nexcept d:\n  e\n",
    "try: a\nexcept b:\n  try: c\n  except* d: e\nexcept f: g\n",
    "def f(): pass\n",
    "def f() -> a:\n  b\n  return c\n",
    "def f(): # type: () -> int\n  pass\n",
    "def f():\n  # type: () -> int\n  pass\n",
    "async def f(): await a\n",
    "class C: pass\n",
    "class C(): pass\n",
    "class C(a, b=c):\n  d\n  def e(): pass\n",
    "@a\ndef f(): pass\n",
    "@a.b\n@c(d, e=f)\nclass C: pass\n",
    "@a()\nasync def f(): pass\n",
    "if a:\n  if b:\n    c\n  d\ne\n",
    "if a:\n  if b: c\n  else: d\nelse: e\n",
    "for a in b:\n  while c:\n    d\n  else:\n    e\nelse:\n  f\n",
    "class C:\n  x = 1\n\n  # c\n  def f():\n    if a: b\n    return c; d\n",
    "def f():\n  def g():\n    pass\n  return g\n",
    "with a:\n  for b in c: d\n  e = [f,\n g]\n",
    "if a: b; c; d;\n",
    "while (a\n  and b): c\n",
    "\n\na\n\nb\n\n",
    "a = b # type: int\n",
];

/// Valid programs with parts that are known findings of some property; never used where they would mask others.
pub fn programs() -> Vec<String> {
    let mut v: Vec<String> = SIMPLE.iter().map(|s| format!("{}\n", s)).collect();
    v.extend(EXPRS.iter().map(|s| format!("x = {}\n", s)));
    v.extend(COMPOUND.iter().map(|s| s.to_string()));
    v
}

pub const FUNCTYPES: &[&str] = &["() -> a", "(a) -> b", "(a, b) -> c", "(a, *b) -> c", "(*a, **b) -> c", "(**a) -> b", "(a, *b, **c) -> d[e]", "(a, b,) -> c"];

/// Tokens for replacement and insertion.
pub const EDITS: &[&str] = &[
    "a", "1", "'s'", "(", ")", "[", "]", "{", "}", ",", ":", ".", ";", "=", "+=", "->", ":=", "...", "+", "-", "*", "**", "/", "@", "|", "~", "<", "==", "not", "in", "is", "and", "or",
    "if", "else", "elif", "for", "while", "lambda", "yield", "await", "async", "from", "import", "as", "def", "class", "try", "except", "finally", "with", "return", "raise", "pass", "del",
    "global", "assert", "None", "match", "\n", "\n  ", "\n    ",
];

/// Texts that are not tokens.
pub const BAD: &[&str] = &["$", "?", "`", "!", "'abc", "\"", "0x", "1__0", "01", "0b2", "1e5_", "\\ ", "'''x", "b'", "0_", "\u{20ac}"];
