//! The bounded search spaces of the parser properties: piece alphabets inside a context.
use crate::engine::Fam;
use crate::refparse::Mode::{self, *};

const fn f(name: &'static str, mode: Mode, prefix: &'static str, suffix: &'static str, pieces: &'static [&'static str], quick: usize, thorough: usize) -> Fam {
    Fam { name, mode, prefix, suffix, sep: " ", pieces, quick, thorough }
}
/// Pieces are whole lines (or end with a space).
const fn l(name: &'static str, mode: Mode, prefix: &'static str, suffix: &'static str, pieces: &'static [&'static str], quick: usize, thorough: usize) -> Fam {
    Fam { name, mode, prefix, suffix, sep: "", pieces, quick, thorough }
}

const BIN: &[&str] = &["+ a", "- b", "* c", "/ d", "// e", "% f", "@ g", "** h", "<< i", ">> j", "& k", "^ l", "| m"];

pub const FAMS: &[(&str, Fam)] = &[
    // ---------------------------------------------------------------- C10
    ("C10", f("operators, operands, parentheses", Eval, "", "", &["a", "+", "-", "~", "*", "**", "/", "//", "%", "@", "<<", ">>", "&", "^", "|", "(", ")"], 6, 8)),
    ("C10", f("chains of binary operators", Eval, "z ", "", BIN, 5, 6)),
    ("C10", f("one operator per level, with signs", Eval, "", "\n", &["a", "-", "**", "*", "+", "<<", "&", "^", "|"], 8, 10)),
    ("C10", f("powers and signs", Eval, "", "", &["a", "-", "**", "~", "*", "(", ")"], 9, 11)),
    ("C10", f("signed operands", Eval, "", "", &["-a", "~b", "+c", "d", "**", "*", "+", "|", "//"], 7, 9)),
    ("C10", f("same-level operators", Eval, "", "", &["a", "*", "/", "//", "%", "@", "+", "-"], 7, 9)),
    ("C10", f("in a statement", File, "x = ", "\n", &["a", "-", "~", "**", "*", "+", ">>", "&", "^", "|", "(", ")"], 6, 7)),
    ("C10", f("as call argument", Eval, "f(", ")", &["a", "-", "**", "//", "@", "+", "<<", "&", "^", "|"], 6, 8)),
    ("C10", f("as subscript", Eval, "f[", "]", &["a", "-", "**", "%", "+", ">>", "&", "^", "|"], 6, 8)),
    ("C10", f("operands with trailers and literals", Eval, "", "", &["a.b", "c(d)", "e[0]", "1", "'s'", "await f", "...", "None", "**", "-", "*", "+", "|"], 5, 7)),
    // ---------------------------------------------------------------- C11
    ("C11", f("comparison and boolean operators", Eval, "", "", &["a", "or", "and", "not", "<", ">", "==", ">=", "<=", "!=", "<>", "in", "is"], 7, 8)),
    ("C11", f("boolean operators", Eval, "", "", &["a", "or", "and", "not", "<", "in", "is", "(", ")"], 8, 10)),
    ("C11", f("comparison chains", Eval, "z ", "", &["< a", "> b", "== c", ">= d", "<= e", "!= f", "in g", "not in h", "is i", "is not j", "and k", "or l", "<> m"], 5, 6)),
    ("C11", f("comparison of arithmetic", Eval, "", "", &["a", "+", "|", "<", "not", "in", "is", "and", "-"], 7, 9)),
    ("C11", f("conditional expressions", Eval, "", "", &["a", "if", "else", "or", "not", "lambda", ":", "(", ")"], 8, 10)),
    ("C11", f("nested conditionals", Eval, "", "", &["a", "if b", "else c", "if", "else", "lambda: d"], 8, 10)),
    ("C11", f("lambda parameters", Eval, "lambda ", ": z", &["a", "b = c", ",", "/", "*", "**", "=", ":"], 8, 10)),
    ("C11", f("lambda parameter list, whole items", Eval, "lambda ", ": z", &["a", "b", "c = d", "*", "*e", "**g", "/", ","], 9, 11)),
    ("C11", f("lambda headers", Eval, "lambda", "", &["a", ":", ",", "=", "*", "b", "lambda"], 8, 9)),
    ("C11", f("lambda default values", Eval, "lambda a = ", ": z", &["b", "if", "else", "lambda", ":", "or", ","], 7, 9)),
    ("C11", f("lambda bodies", Eval, "lambda: ", "", &["a", "if", "else", "lambda", "b", ":", "or", ","], 7, 8)),
    ("C11", f("lambda without condition in a comprehension", Eval, "[x for x in y if ", "]", &["lambda", ":", "a", "if", "else", "or", "for b in c"], 7, 9)),
    ("C11", f("named expressions in parentheses", Eval, "(", ")", &["a", ":=", "if", "else", ",", "lambda", ":", "(", ")"], 7, 9)),
    ("C11", f("named expressions bare", Eval, "", "", &["a", ":=", "(", ")", ",", "or"], 7, 9)),
    ("C11", f("named expressions in if", File, "if ", ": pass\n", &["a", ":=", "(", ")", ",", "or", "lambda", ":"], 7, 8)),
    ("C11", f("named expressions in while", File, "while ", ": pass\n", &["a", ":=", "(", ")", ",", "not"], 7, 8)),
    ("C11", f("named expressions in call", Eval, "f(", ")", &["a", ":=", "(", ")", ",", "if", "else", "="], 7, 8)),
    ("C11", f("named expressions in list", Eval, "[", "]", &["a", ":=", "[", "]", ",", "if", "else", "for b in c"], 7, 8)),
    ("C11", f("in a statement", File, "x = ", "\n", &["a", "or", "and", "not", "in", "is", "if", "else", "lambda:"], 7, 8)),
    // ---------------------------------------------------------------- C12
    ("C12", f("parenthesised forms", Eval, "(", ")", &["a", ",", "*", "b", ":=", "for", "in", "async", "if", "(", ")"], 7, 9)),
    ("C12", f("list displays", Eval, "[", "]", &["a", ",", "*", "b", ":=", "for", "in", "async", "if", "[", "]"], 7, 9)),
    ("C12", f("set and dict displays", Eval, "{", "}", &["a", ",", "*", "**", ":", "for", "in", "async", "if"], 8, 9)),
    ("C12", f("dict entries", Eval, "{", "}", &["a: b", "**c", "*d", "e", ","], 9, 11)),
    ("C12", f("list elements", Eval, "[", "]", &["a", "*b", "c := d", ",", "for e in f"], 9, 11)),
    ("C12", f("tuple elements", Eval, "(", ")", &["a", "*b", "c := d", ",", "for e in f"], 9, 11)),
    ("C12", f("generator clauses", Eval, "(a", ")", &["for b in c", "async for d in e", "if f", "for", "async", "if lambda: g", ","], 6, 8)),
    ("C12", f("list comprehension clauses", Eval, "[a", "]", &["for b in c", "async for d in e", "if f", "for b, c in d", "for *g, h in i", "if", ","], 6, 8)),
    ("C12", f("set comprehension clauses", Eval, "{a", "}", &["for b in c", "async for d in e", "if f", "for", "async", "if", ",", ": g"], 6, 8)),
    ("C12", f("dict comprehension clauses", Eval, "{a: b", "}", &["for b in c", "async for d in e", "if f", "for", "async", "if", ", g: h"], 6, 8)),
    ("C12", f("comprehension targets and iterables", Eval, "[a for ", "]", &["b", ",", "*", "in", "(", ")", "or", "if", "c", "|"], 7, 9)),
    ("C12", f("nested brackets", Eval, "", "", &["(", ")", "[", "]", "{", "}", "a", ",", ":"], 8, 10)),
    ("C12", f("yield in parentheses", Eval, "(", ")", &["yield", "from", "a", ",", "*", "(", ")"], 7, 9)),
    ("C12", f("displays in statements", File, "", "\n", &["(", ")", "[", "]", "{", "}", "a", ",", "=", ":"], 7, 9)),
    ("C12", f("displays as for iterables", File, "for x in ", ": pass\n", &["(", ")", "[", "]", "{", "}", "a", ",", ":"], 7, 8)),
    // ---------------------------------------------------------------- C13
    ("C13", f("trailer chains", Eval, "a", "", &["(b)", "[c]", ".d", "()", "(e, f)", "[g:h]", ".", "[]", "(", ")"], 6, 7)),
    ("C13", f("await and trailers", Eval, "", "", &["await", "a", "(", ")", "[", "]", ".", "b", "**", "-"], 7, 9)),
    ("C13", f("call arguments", Eval, "f(", ")", &["a", ",", "=", "*", "**", ":=", "for", "in", "b"], 7, 9)),
    ("C13", f("call argument items", Eval, "f(", ")", &["a", "b = c", "*d", "**e", "g := h", "i for j in k", ",", "async for l in m", ":"], 7, 8)),
    ("C13", f("subscripts", Eval, "a[", "]", &["b", ":", ",", "*", ":=", "c"], 9, 11)),
    ("C13", f("slices", Eval, "a[", "]", &["b", ":", ",", "::", "(", ")"], 8, 10)),
    ("C13", f("slice bounds", Eval, "a[", "]", &["-b", "c if d else e", "lambda: g", ":", ",", "h.i"], 7, 9)),
    ("C13", f("trailers inside trailers", Eval, "a", "", &["(", ")", "[", "]", ".b", "c", ","], 9, 11)),
    ("C13", f("trailers on every atom", Eval, "", "", &["1", "'s'", "None", "...", "(a)", "[a]", "{a}", ".b", "(c)", "[d]", "True"], 5, 6)),
    ("C13", f("calls as statements", File, "", "\n", &["a", "(", ")", "[", "]", ".", "=", ",", ":", "*"], 7, 8)),
    // ---------------------------------------------------------------- C14
    ("C14", f("del", File, "", "\n", &["del", "a", ",", "*", "(", ")", ";", "."], 7, 9)),
    ("C14", f("flow statements", File, "", "\n", &["pass", "break", "continue", ";", "a", "return", ","], 6, 8)),
    ("C14", f("return", File, "return ", "\n", &["a", ",", "*", ";", "return", "(", ")", "lambda:", "yield"], 7, 8)),
    ("C14", f("raise", File, "", "\n", &["raise", "a", "from", ",", ";", "b"], 7, 9)),
    ("C14", f("global and nonlocal", File, "", "\n", &["global", "nonlocal", "a", ",", ";", "."], 7, 9)),
    ("C14", f("assert", File, "", "\n", &["assert", "a", ",", ";", "if", "else", "from"], 7, 9)),
    ("C14", f("yield", File, "", "\n", &["yield", "from", "a", ",", "*", ";", "(", ")"], 7, 9)),
    ("C14", f("expression statements", File, "", "\n", &["a", ",", "*", ";", "(", ")", ":="], 8, 10)),
    ("C14", l("statement lists", File, "", "\n", &["pass ", "; ", "a ", "del b ", "return c, d ", "import e ", "raise f from g ", "global h ", "assert i, j ", "\n"], 7, 8)),
    ("C14", f("statement keywords", File, "", "\n", &["pass", "break", "continue", "del", "return", "raise", "global", "nonlocal", "assert", "yield", "import", "from", "a", ";"], 5, 6)),
    ("C14", l("names that look special", File, "", "\n", &["match ", "case ", "type ", "_ ", "a ", "= ", "( ", ") ", ": ", "\n"], 6, 7)),
    ("C14", l("single input lists", Single, "", "\n", &["pass ", "; ", "a ", "del b ", "return c ", "yield d ", "\n"], 7, 8)),
    // ---------------------------------------------------------------- C15
    ("C15", f("chained assignment", File, "", "\n", &["a", "=", ",", "*", "yield", "b", ":", "+="], 8, 9)),
    ("C15", f("assigned values", File, "x = ", "\n", &["a", "=", ",", "*", "yield", "from", "lambda:", "(", ")"], 7, 8)),
    ("C15", f("annotations", File, "", "\n", &["a", ":", "=", ",", "(", ")", "yield", ".", "*"], 7, 9)),
    ("C15", f("all augmented operators", File, "", "\n", &["a", "=", "+=", "-=", "*=", "/=", "//=", "%=", "@=", "**=", "<<=", ">>=", "&=", "^=", "|=", ":", ","], 5, 6)),
    ("C15", f("augmented values", File, "x += ", "\n", &["a", ",", "yield", "from", "=", "*", "-=", "if", "else"], 7, 8)),
    ("C15", f("augmented targets", File, "", " -= z\n", &["a", ",", "*", "(", ")", ".b", "[c]", "="], 7, 8)),
    ("C15", l("assignments with type comments", File, "", "", &["a ", "= ", ", ", "# type: int\n", "\n", "yield b ", "+= ", ": "], 7, 9)),
    ("C15", l("assignments in statement lists", File, "", "\n", &["a = b ", "c += d ", "e: f ", "e: f = g ", "; ", ", ", "= "], 6, 8)),
    // ---------------------------------------------------------------- C16
    ("C16", f("import and from", File, "", "\n", &["import", "from", "a", ".", "...", "as", ",", "*", "(", ")"], 7, 9)),
    ("C16", f("import names", File, "import ", "\n", &["a", "b", ".", ",", "as", ";"], 9, 10)),
    ("C16", f("relative levels", File, "from ", " import x\n", &[".", "...", "a", ". .", "b"], 9, 11)),
    ("C16", f("imported names", File, "from a import ", "\n", &["b", "as", ",", "(", ")", "*", "c", ";"], 8, 9)),
    ("C16", f("parenthesised names", File, "from . import (", ")\n", &["b", "c", "as", ",", "d as e", "(", "*"], 8, 9)),
    ("C16", l("imports in statement lists", File, "", "\n", &["import a ", "from b import c ", "import d.e as f ", "from . import (g, h,) ", "; ", ", ", "as i ", "\n"], 6, 7)),
    // ---------------------------------------------------------------- C17
    ("C17", f("if headers", File, "", "\n", &["if", "elif", "else", "a", ":", ":=", "pass", ";"], 8, 9)),
    ("C17", f("while headers", File, "", "\n", &["while", "else", "a", ":", ":=", "pass", ","], 8, 9)),
    ("C17", f("for headers", File, "for ", "\n", &["a", "in", ",", "*", ":", "pass", "b", "("], 8, 9)),
    ("C17", f("for targets", File, "for ", " in x: pass\n", &["a", ",", "*", "(", ")", ".b", "[c]", "in", "|"], 7, 9)),
    ("C17", f("for values", File, "for x in ", ": pass\n", &["a", ",", "*", "(", ")", "lambda:", "if", "else"], 7, 9)),
    ("C17", f("with headers", File, "with ", "\n", &["a", "as", ",", "(", ")", ":", "pass"], 8, 9)),
    ("C17", f("with items", File, "with ", ": pass\n", &["a", "as", "b", ",", "(", ")", "*"], 8, 9)),
    ("C17", f("with parenthesised items", File, "with (", "): pass\n", &["a", "as", "b", ",", "c as d", "(", ")", ".e"], 8, 9)),
    ("C17", f("async statements", File, "async ", "\n", &["for", "with", "a", "in", "b", ":", "pass", "def", "while", "as"], 7, 9)),
    ("C17", l("if structure", File, "", "", &["if a:\n", "elif b:\n", "else:\n", "pass\n", " if a:\n", " elif b:\n", " else:\n", " pass\n", "  pass\n"], 6, 7)),
    ("C17", l("if and elif inline", File, "", "", &["if a: b\n", "elif c: d\n", "else: e\n", "if a:\n", " if b: c\n", " elif d: e\n", " else: f\n", " g\n"], 6, 8)),
    ("C17", l("loop structure", File, "", "", &["while a:\n", "for b in c:\n", "else:\n", " while d:\n", " for e in f:\n", " else:\n", " pass\n", "  pass\n", "pass\n"], 6, 7)),
    ("C17", l("loops inline", File, "", "", &["while a: b\n", "for c in d: e\n", "else: f\n", "if g: h\n", "elif i: j\n", "while k:\n", " for l in m: n\n", " else: o\n", " p\n"], 6, 7)),
    ("C17", l("blocks", File, "", "", &["if a:\n", "x\n", " while b:\n", " y\n", "  z\n", "\n", "# c\n", "   w\n"], 6, 8)),
    ("C17", l("with structure", File, "", "", &["with a:\n", "with (b as c, d):\n", " with e as f, g: h\n", " async with i: j\n", " pass\n", "pass\n", "else: k\n", "async for l in m:\n", "async with n:\n"], 6, 7)),
    ("C17", l("suites and statement lists", File, "if a:", "", &[" b", " ; ", "\n", "\n c", "\n  d", " if e: f", "\nelse:", " pass", "\n\n"], 6, 8)),
    // ---------------------------------------------------------------- C18
    ("C18", l("one try statement", File, "", "", &["try: a\n", "except: b\n", "except c: d\n", "except e as f: g\n", "except* h: i\n", "except* j as k: l\n", "else: m\n", "finally: n\n"], 6, 7)),
    ("C18", l("except headers", File, "try: a\nexcept", ": b\n", &[" c", " as", " *", " ,", " (d, e)", " :", " f"], 6, 8)),
    ("C18", l("try in try body", File, "try:\n", "", &[" try: a\n", " except: b\n", " except* c: d\n", " finally: e\n", "except: f\n", "except* g: h\n", "finally: i\n", " j\n"], 7, 8)),
    ("C18", l("try in except body", File, "try: a\nexcept b:\n", "", &[" try: a\n", " except c: b\n", " except* c: d\n", " finally: e\n", " else: j\n", "except f: g\n", "except* g: h\n", "finally: i\n", "else: k\n"], 6, 8)),
    ("C18", l("try in except* body", File, "try: a\nexcept* b:\n", "", &[" try: a\n", " except c: b\n", " except* c: d\n", " finally: e\n", " else: j\n", "except f: g\n", "except* g: h\n", "finally: i\n", "else: k\n"], 6, 8)),
    ("C18", l("try in else and finally bodies", File, "try: a\nexcept* b: c\nelse:\n", "", &[" try: a\n", " except c: b\n", " except* c: d\n", " e\n", "finally:\n", "finally: i\n", "except f: g\n", "except* g: h\n"], 6, 8)),
    ("C18", l("try in deeper blocks", File, "try:\n", "", &[" if z:\n", "  try: a\n", "  except: b\n", "  except* c: d\n", "  finally: e\n", " else: f\n", "except: g\n", "except* h: i\n"], 6, 8)),
    ("C18", l("try blocks", File, "", "", &["try:\n", " a\n", "except b:\n", "except* b:\n", "else:\n", "finally:\n", " try:\n", "  c\n", " except:\n"], 7, 8)),
    ("C18", l("try in functions and classes", File, "try:\n", "", &[" def f():\n", " class C:\n", "  try: a\n", "  except b: c\n", "  except* d: e\n", "except g: h\n", "except* i: j\n", "finally: k\n"], 6, 8)),
    ("C18", l("consecutive try statements", File, "", "", &["try: a\nexcept b: c\n", "try: d\nexcept* e: f\n", "try: g\n", "finally: h\n", "except i: j\n", "except* k: l\n", "else: m\n", "n\n"], 6, 7)),
    // ---------------------------------------------------------------- C19
    ("C19", f("function headers", File, "def ", "\n", &["f", "(", ")", "->", "a", ":", "pass", ","], 8, 9)),
    ("C19", f("function parameters", File, "def f(", "): pass\n", &["a", "=", ",", "*", "**", "/", ":", "b"], 7, 8)),
    ("C19", f("return annotations", File, "def f() ", ": pass\n", &["->", "a", "if", "else", ",", "lambda", ":", "(", ")"], 7, 8)),
    ("C19", f("class headers", File, "class ", "\n", &["C", "(", ")", ":", "a", ",", "pass", "="], 8, 9)),
    ("C19", f("class arguments", File, "class C(", "): pass\n", &["a", "=", ",", "*", "**", "b", "for", "in"], 7, 8)),
    ("C19", l("decorators", File, "", "", &["@a\n", "@a.b.c\n", "@d()\n", "@e(f, g=h)\n", "@\n", "def f(): pass\n", "async def g(): pass\n", "class C: pass\n", "x\n", "\n"], 5, 7)),
    ("C19", f("decorator lines", File, "@", "\ndef f(): pass\n", &["a", ".", "b", "(", ")", ",", "=", "[", "]"], 7, 8)),
    ("C19", l("function bodies", File, "def f():", "", &["\n", " a\n", " # type: () -> int\n", " def g(): b\n", "  c\n", " @d\n", " pass; e\n", "x\n"], 6, 8)),
    ("C19", l("function type comments", File, "def f()", "", &[": ", "-> a ", "# type: x\n", "\n", " # type: y\n", " pass\n", "pass\n", " "], 6, 8)),
    ("C19", l("nested definitions", File, "", "", &["def f():\n", "class C:\n", " def g():\n", " class D:\n", " @a\n", "  pass\n", " pass\n", "@b\n", "async def h():\n"], 6, 7)),
    ("C19", l("async definitions", File, "", "", &["async ", "def f(): pass\n", "class C: pass\n", "@a\n", "for b in c: pass\n", "with d: pass\n", " ", "x\n", "await e\n"], 5, 6)),
    // ---------------------------------------------------------------- C20
    ("C20", l("file input", File, "", "", &["a ", ", ", "\n", "; ", "pass ", "if b: c\n", "( ", ") ", " d\n"], 6, 8)),
    ("C20", l("eval input", Eval, "", "", &["a ", ", ", "\n", "; ", "pass ", "( ", ") ", "* ", "= ", " "], 7, 8)),
    ("C20", l("single input", Single, "", "", &["a ", ", ", "\n", "; ", "pass ", "if b: c\n", "if d:\n", " e\n", "else: f\n", " "], 6, 8)),
    ("C20", l("single input, compound", Single, "", "", &["while a:\n", " b\n", "  c\n", "try: d\n", "except: e\n", "\n", "class C: f\n", "@g\n", "def h(): i\n", "async "], 5, 7)),
    ("C20", f("function types", FuncType, "", "\n", &["(", ")", "->", "a", ",", "*", "**", "b"], 8, 10)),
    ("C20", f("function type arguments", FuncType, "(", ") -> z", &["a", ",", "*", "**", "b", "(", ")", "lambda:"], 8, 10)),
    ("C20", f("function type argument items", FuncType, "(", ") -> z", &["a", "*b", "**c", "*", ",", "d[e]"], 9, 11)),
    ("C20", l("function type results", FuncType, "(a) -> ", "", &["b ", ", ", "\n", "( ", ") ", "-> ", "[c] ", "if ", "else "], 6, 8)),
    ("C20", l("blank lines around statements", File, "", "", &["\n", " \n", "# c\n", "a\n", "if b:\n", " c\n", "\t\n", " # d\n"], 6, 8)),
    ("C20", l("eval newlines", Eval, "", "", &["a", "\n", " ", "# c", "\n\n", "(", ")", "\\\n"], 6, 8)),
];

pub const SINGLE_OF: &str = "C20";
