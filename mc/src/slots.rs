//! Every place of every construct filled with every kind of expression, name or suite.
//! In a template `¤` stands for an expression, `¢` for a name and `§` for a suite.
use crate::engine::*;
use crate::refparse::Mode::{self, *};

/// One expression of every level of the grammar, and the forms that only some places admit.
const EX: &[&str] = &[
    "a", "1", "'s' 't'", "...", "None", "a.b", "a(b)", "a[b:c]", "await a.b", "-a", "a ** -b", "a * b", "a - b", "a >> b", "a & b", "a ^ b", "a | b",
    "a < b", "a not in b", "a is not b", "not a", "a and b", "a or b", "a if b else c", "lambda: a", "lambda b: a if c else d", "(a)", "()", "[a]", "{a: b}", "{a}", "(yield a)", "(a := b)",
    "a := b", "*a", "*a | b", "*a or b", "*a if b else c", "**a", "**a | b", "**a or b", "**a if b else c", "yield a", "yield from a", "a, b", "a,", "*a, b", "a for b in c", "a async for b in c if d", "a: b", "a = b", "a := b if c else d", "a := lambda: b", "",
];
/// A smaller set for pairs of places.
const EX2: &[&str] = &["a", "a.b", "-a", "a ** b", "a | b", "not a", "a < b", "a if b else c", "lambda: a", "*a", "**a", "a := b", "a, b", "yield a", "a for b in c", "[a]", "", "await a", "a = b", "a: b", "*a or b", "a or b"];
const NAMES: &[&str] = &["a", "_", "__x__", "case", "type", "é1", "Z9", "print", "nönlocal", "self", "x_if", "None", "if", "1", "a.b", "'s'", "(a)", "*", "", "async", "True", "a b", "as", "notin", "_1", "match"];
const SUITES: &[&str] = &[
    " p", " p; q", " p; q;", "\n+p", "\n+p\n+q", "\n\n+# c\n+p\n", " # c\n+p", " # type: x\n+p", "\n+# type: x\n+p", " p # type: x", "\n++p\n++q", "\n++p\n+q", "\n+p\n++q", "", "\n", " # c", " if p: q", "\n+if p: q\n+else: r", "\n+if p:\n++q\n+elif r:\n++s\n+t",
    "\n+try: p\n+except* q: r", "\n+try: p\n+finally: q", "\n+def g(): p\n+q", "\n+@d\n+class E: p", "\n+with p as q: r\n+s", "\n+while p:\n++q\n+else: r", "\n+for p in q: r", "\n+async with p: q", "\n+try: p\n+except q: r\n+except s: t\n+else: u", " pass", " return p, q", "\n+return p; q;\n+(r,\ns)\n", "\n+import p\n\n+from . import q\n", ":", " p = q # c", "\n+p = (\n+ q)", "\n\\\n+p", " \\\n p", "\n+p \\\n+ + q", " p\n+q", "\n+else: p", "\n+yield p\n+await q",
];

fn tpl(id: &str) -> Vec<(Mode, String)> {
    let mut v: Vec<(Mode, String)> = vec![];
    let mut e = |m: Mode, s: &str| for t in s.split('|').map(|t| t.trim_matches(' ')).filter(|t| !t.is_empty()) { v.push((m, t.replace('¦', "|").replace('~', "\n"))); };
    match id {
        "C10" => {
            let ops = ["+", "-", "*", "/", "//", "%", "@", "**", "<<", ">>", "&", "^", "¦"];
            for o in ops {
                e(Eval, &format!("¤ {} ¤", o)); e(Eval, &format!("(¤) {} ¤", o)); e(File, &format!("x = ¤ {} ¤~", o)); e(Eval, &format!("f(¤ {} ¤)", o));
                for p in ops { e(Eval, &format!("¤ {} ¤ {} ¤", o, p)); }
            }
            v.push((Eval, "-¤".into())); v.push((Eval, "+¤".into())); v.push((Eval, "~¤".into())); v.push((Eval, "-¤ ** ¤".into())); v.push((Eval, "¤ ** ~¤".into())); v.push((Eval, "a[~¤ + ¤]".into())); v.push((Eval, "-+~¤".into()));
            for o in ops { let o = o.replace('¦', "|"); for u in ["-", "+", "~"] { v.push((Eval, format!("¤ {} {}¤", o, u))); v.push((Eval, format!("{}¤ {} ¤", u, o))); } }
        }
        "C11" => {
            let ops = ["<", ">", "==", ">=", "<=", "!=", "in", "not in", "is", "is not", "and", "or"];
            for o in ops { e(Eval, &format!("¤ {} ¤", o)); e(Eval, &format!("not ¤ {} not ¤", o)); for p in ops { e(Eval, &format!("¤ {} ¤ {} ¤", o, p)); } }
            e(Eval, "not ¤ | not not ¤ | ¤ if ¤ else ¤ | ¤ if ¤ else ¤ if ¤ else ¤ | lambda: ¤ | lambda ¢: ¤ | lambda ¢=¤: ¤ | lambda ¢, ¢=¤: ¤ | lambda ¢=¤, ¢=¤,: ¤ | lambda *¢: ¤ | lambda *¢,: ¤ | lambda *¢, ¢=¤: ¤ | lambda *¢, ¢, ¢=¤, **¢: ¤ | lambda **¢: ¤ | lambda **¢,: ¤");
            e(Eval, "lambda ¢, /: ¤ | lambda ¢, /, ¢=¤: ¤ | lambda ¢, ¢=¤, /, ¢=¤, *, ¢=¤, **¢: ¤ | lambda ¢, /, *, ¢: ¤ | lambda ¢=¤, /, *¢, ¢, **¢,: ¤ | lambda *, ¢: ¤ | lambda *, ¢=¤, ¢: ¤ | lambda *, ¢, **¢: ¤ | lambda ¢, *, ¢: ¤ | lambda ¢, *¢, **¢: ¤ | lambda ¢, **¢: ¤ | lambda ¢, /, **¢: ¤ | lambda ¢, /,: ¤ | lambda ¢=¤, *¢, ¢=¤: ¤ | lambda ¢, *, ¢=¤,: ¤ | lambda ¢: lambda ¢: ¤ | (lambda ¢=¤: ¤)(¤) | lambda ¢=lambda ¢: ¤: ¤");
            e(Eval, "(¢ := ¤) | (¤ := ¤) | [¢ := ¤] | [¢ := ¤, ¢ := ¤] | {¢ := ¤} | f(¢ := ¤) | f(¤, ¢ := ¤) | (¢ := ¤, ¤) | [¤ for a in b if ¤ if ¤] | [¢ := ¤ for a in b] | a if (¢ := ¤) else b | [a for b in c if ¢ := ¤] | ¤ < ¤ < ¤ == ¤ | not ¤ == ¤ and ¤ or ¤");
            e(File, "if ¢ := ¤: p~ | if a: p~elif ¢ := ¤: p~ | while ¢ := ¤: p~ | x = ¤ if ¤ else ¤~ | x = lambda ¢, ¢=¤: ¤~ | assert ¢ := ¤~ | return lambda ¢: ¤~ | x = ¤ and not ¤ or ¤~");
        }
        "C12" => {
            for (o, k) in [("(", ")"), ("[", "]"), ("{", "}")] {
                for b in ["¤", "¤,", "¤, ¤", "¤, ¤,", "¤, ¤, ¤", "¤, ¤, ¤,", "*¤", "*¤,", "*¤, ¤", "¤, *¤", "¤, *¤, *¤,", "*¤, *¤", "¤ for ¤ in ¤", "¤ for ¤ in ¤ if ¤", "¤ for ¤ in ¤ if ¤ if ¤", "¤ for ¤ in ¤ for ¤ in ¤", "¤ async for ¤ in ¤ for ¤ in ¤ if ¤", "¤ for ¤, ¤ in ¤", "¤ for ¤, in ¤", "¤ for *¤, ¤ in ¤", "¤ for a in b async for ¤ in ¤", "¤ for a in b if ¤ for ¤ in ¤ if ¤", "¤ for a in ¤, ¤", "¤, ¤ for a in b", "¤ := ¤, ¤"] { e(Eval, &format!("{}{}{}", o, b, k)); }
            }
            e(Eval, "{¤: ¤} | {¤: ¤,} | {¤: ¤, ¤: ¤} | {¤: ¤, ¤: ¤, ¤: ¤,} | {**¤} | {**¤,} | {**¤, **¤} | {**¤, ¤: ¤} | {¤: ¤, **¤} | {¤: ¤, **¤, ¤: ¤} | {¤: ¤, ¤: ¤, **¤,} | {¤: ¤, ¤} | {¤, ¤: ¤} | {**¤, ¤} | {*¤, ¤: ¤} | {¤, **¤} | {¤: ¤ for ¤ in ¤} | {¤: ¤ for ¤ in ¤ if ¤} | {¤: ¤ async for ¤ in ¤ if ¤ for a in b} | {**¤ for a in b} | {¤: ¤ for ¤, ¤ in ¤} | (yield ¤) | (yield from ¤) | (yield ¤, ¤) | (yield ¤,) | (yield *¤, ¤) | [yield ¤] | f(¤ for ¤ in ¤ if ¤) | f(¤ async for ¤ in ¤) | [[¤], (¤,), {¤}, {¤: ¤}] | (((¤))) | {¤: ¤, a: b for c in d}");
            e(File, "x = (¤, ¤)~ | x = [¤ for ¤ in ¤]~ | for a in [¤, ¤]: p~ | return {¤: ¤, **¤}~ | (¤, ¤) = ¤~ | [¤, *¤] = ¤~ | del (¤, ¤), [¤]~");
        }
        "C13" => {
            e(Eval, "¤.a | ¤.¢ | a.¢.¢ | ¤(¤) | ¤[¤] | ¤() | f(¤, ¤) | f(¤,) | f(¤, ¤, ¤) | f(¤, ¤,) | f(¢=¤) | f(¢=¤, ¢=¤) | f(¢=¤, ¤) | f(¤, ¢=¤, *¤, **¤) | f(*¤) | f(*¤, *¤) | f(*¤, ¤) | f(**¤) | f(**¤, **¤,) | f(**¤, ¢=¤) | f(¢ := ¤) | f(¤, ¢ := ¤, ¤) | f(¤ for ¤ in ¤) | f(¤, ¤ for a in b) | f(¤ for a in b, ¤) | f(¤=¤) | f(¤ := ¤) | f(*¤, ¢=¤) | f(¢=¤, *¤, ¢=¤, **¤, ¢=¤,)");
            e(Eval, "a[¤:¤] | a[¤:¤:¤] | a[:¤] | a[¤:] | a[::¤] | a[¤::¤] | a[:¤:¤] | a[:¤:] | a[¤:¤:] | a[¤::] | a[¤, ¤] | a[¤,] | a[¤, ¤,] | a[¤:¤, ¤:¤] | a[¤, ¤:¤:¤, ¤] | a[:, ¤] | a[::, ¤::, :¤:] | await ¤ | await ¤.a(b) | await await ¤ | a(¤)(¤)[¤].¢ | a[¤][¤] | a(¤).b[¤] | ¤.a ** ¤.b | -¤.a | await ¤ ** ¤ | a[¤ for b in c] | a[*¤] | a[¤ := ¤] | (¤).a(¤)[¤] | ¤[¤].a(¤) | 's'.¢(¤)");
            e(File, "f(¤, ¢=¤)~ | a[¤:¤] = ¤~ | a.¢ = ¤~ | await ¤~ | x = await ¤[¤]~ | del a[¤:¤:¤], b.¢~ | class C(¤, ¢=¤, *¤, **¤): p~ | @f(¤, ¢=¤)~class C: p~");
        }
        "C14" => {
            e(File, "del ¤~ | del ¤, ¤~ | del ¤, ¤,~ | return ¤~ | return ¤, ¤~ | return ¤, ¤,~ | raise ¤~ | raise ¤ from ¤~ | raise ¤, ¤~ | global ¢~ | global ¢, ¢~ | global ¢, ¢, ¢~ | nonlocal ¢~ | nonlocal ¢, ¢~ | nonlocal ¢, ¢, ¢~ | assert ¤~ | assert ¤, ¤~ | assert ¤, ¤, ¤~ | yield ¤~ | yield ¤, ¤~ | yield ¤, ¤,~ | yield from ¤~ | yield from ¤, ¤~ | ¤~ | ¤, ¤~ | ¤, ¤,~ | ¤; ¤~ | ¤; ¤;~ | ¤; ¤; ¤; ¤~ | pass; ¤~ | ¤; pass; ¤;~ | ¤; return ¤~ | del ¤; raise ¤ from ¤; assert ¤, ¤~ | break; ¤~ | continue; ¤;~ | raise; ¤~ | return; ¤~ | return; return ¤;~ | global ¢; nonlocal ¢, ¢; ¤~ | pass ¤~ | break ¤~ | continue ¤~ | del ¤; ¤~ | *¤, ¤~ | ¤, *¤~ | *¤,~ | if a: return ¤; ¤~ | if a: ¤; ¤;~");
            e(Single, "del ¤~ | return ¤~ | raise ¤ from ¤~ | ¤; ¤~ | assert ¤, ¤; pass~ | global ¢~ | yield ¤~");
        }
        "C15" => {
            e(File, "¤ = ¤~ | ¤ = ¤ = ¤~ | ¤ = ¤ = ¤ = ¤~ | ¤, ¤ = ¤~ | ¤, ¤ = ¤, ¤~ | ¤, = ¤,~ | ¤ = ¤, ¤ = ¤~ | *¤, ¤ = ¤~ | ¤, *¤ = ¤~ | ¤ = yield ¤~ | ¤ = ¤ = yield ¤~ | ¤ = yield ¤, ¤~ | ¤ = yield ¤ = ¤~ | ¤ = yield from ¤~ | ¤ = yield from ¤ = ¤~ | ¤: ¤~ | ¤: ¤ = ¤~ | ¤: ¤ = ¤, ¤~ | ¤: ¤ = ¤ = ¤~ | ¤: ¤ = yield ¤~ | ¤: ¤ = yield from ¤~ | ¤, ¤: ¤~ | (¤): ¤ = ¤~ | ¤ = ¤ # type: x~ | ¤ = ¤ = ¤ # type: x~ | ¤ = yield ¤ # type: x~ | ¤: ¤ = ¤ # type: x~ | ¤ += ¤ # type: x~ | ¤ = ¤ # c~ | ¤ = ¤; ¤ = ¤~ | ¤ = ¤; ¤: ¤ = ¤; ¤ += ¤;~ | if a: ¤ = ¤~ | ¤: ¤ += ¤~ | ¤ += ¤ = ¤~ | ¤ = ¤ += ¤~ | ¤ += ¤: ¤~ | ¤ = # type: x~ | ¤ # type: x~");
            for o in ["+=", "-=", "*=", "/=", "//=", "%=", "@=", "**=", "<<=", ">>=", "&=", "^=", "¦="] {
                e(File, &format!("¤ {} ¤~ | ¤ {} yield ¤~ | ¤ {} ¤, ¤~ | ¤ {} ¤,~ | ¤, ¤ {} ¤~ | ¤ {} yield from ¤~ | ¤ {} ¤; ¤ {} yield ¤~", o, o, o, o, o, o, o, o));
            }
            e(Single, "¤ = ¤~ | ¤: ¤ = ¤~ | ¤ *= ¤~ | ¤ = yield ¤~");
        }
        "C16" => {
            e(File, "import ¢~ | import ¢.¢~ | import ¢.¢.¢~ | import ¢ as ¢~ | import ¢.¢.¢ as ¢~ | import ¢, ¢~ | import ¢, ¢, ¢~ | import ¢ as ¢, ¢.¢ as ¢~ | import ¢, ¢ as ¢, ¢.¢, ¢~ | import ¢; import ¢~ | import ¢, ¢,~ | import ¢.~ | import .¢~ | import (¢)~ | import ¢ as~ | import ¢ as ¢.¢~");
            for (a, b) in [("¢", ""), (".¢", ""), (".", ""), ("..", ""), ("...", ""), ("....", ""), (". .. ...", ""), ("..¢.¢", ""), (". . . .¢.¢", ""), ("¢.¢", ""), ("... ...", ""), (".....¢", "")] {
                let _ = b;
                e(File, &format!("from {0} import ¢~ | from {0} import ¢ as ¢~ | from {0} import *~ | from {0} import (¢)~ | from {0} import (¢ as ¢,)~ | from {0} import ¢, ¢~ | from {0} import ¢ as ¢, ¢~ | from {0} import ¢, ¢ as ¢, ¢ as ¢~ | from {0} import (¢, ¢ as ¢, ¢)~ | from {0} import (¢ as ¢, ¢ as ¢,)~ | from {0} import ¢,~ | from {0} import ()~ | from {0} import (*)~ | from {0} import *, ¢~ | from {0} import ¢; from {0} import (¢)~ | from {0} import~ | from {0} import (¢~, ¢~)~", a));
            }
            e(File, "from ¢ import ¢.¢~ | from ¢ import (¢, (¢))~ | from ¢ as ¢ import ¢~ | from import ¢~ | if a: from ¢ import ¢~ | from . ¢ . ¢ import ¢~");
        }
        "C17" => {
            e(File, "if ¤:§~ | if ¤:§~else:§~ | if ¤:§~elif ¤:§~ | if ¤:§~elif ¤:§~else:§~ | if ¤:§~elif ¤:§~elif ¤:§~else:§~ | if a:§~elif b:§~elif c:§~elif d:§~ | while ¤:§~ | while ¤:§~else:§~ | for ¤ in ¤:§~ | for ¤ in ¤:§~else:§~ | for ¤, ¤ in ¤:§~ | for ¤, in ¤, ¤:§~ | for *¤, ¤ in ¤,:§~ | for ¤ in *¤, ¤:§~ | async for ¤ in ¤:§~ | async for ¤ in ¤:§~else:§~ | for ¤ in ¤: # type: x~ p~");
            e(File, "with ¤:§~ | with ¤ as ¤:§~ | with ¤, ¤:§~ | with ¤ as ¤, ¤ as ¤:§~ | with ¤, ¤ as ¤, ¤:§~ | with (¤):§~ | with (¤ as ¤):§~ | with (¤, ¤):§~ | with (¤ as ¤, ¤ as ¤,):§~ | with (¤, ¤ as ¤, ¤):§~ | async with ¤:§~ | async with ¤ as ¤, ¤:§~ | async with (¤ as ¤, ¤):§~ | with ¤,:§~ | with (¤ as ¤), ¤:§~ | with a as ¤.b, c as (¤, ¤):§~");
            e(File, "if a:~ if ¤:§~ else:§~else:§~ | while a:~ for ¤ in ¤:§~ else:§~else:§~ | if a:~ while ¤:§~elif b:§~ | for a in b:~ with ¤:§~ c~else:§~ | if a: b~else:~ if ¤:§~ elif ¤:§~ else:§~ | x~if a:§~y~ | x~while a:§~y~ | x~for a in b:§~y~ | x~with a:§~y~ | else:§~ | if a:§~else:§~else:§~ | if a:§~else:§~elif b:§~ | while a:§~elif b:§~ | with a:§~else:§~ | async while a:§~ | async if a:§~");
            e(Single, "if ¤:§~ | while ¤:§~else:§~ | with ¤ as ¤:§~ | for ¤ in ¤:§~");
        }
        "C18" => {
            for s in ["", "*"] {
                e(File, &format!("try:§~except{0} ¤:§~ | try:§~except{0} ¤ as ¢:§~ | try:§~except{0} ¤:§~except{0} ¤ as ¢:§~ | try:§~except{0} ¤:§~else:§~ | try:§~except{0} ¤ as ¢:§~finally:§~ | try:§~except{0} ¤:§~else:§~finally:§~ | try:§~except{0} a:§~except{0} b:§~except{0} c as ¢:§~else:§~finally:§~ | x~try:§~except{0} a:§~y~ | if a:~ try:§~ except{0} ¤ as ¢:§~ else:§~ finally:§~ | try:~ try:§~ except{0} a:§~except{0} b:§~ | try: p~except{0} a:~ try:§~ except{0} a:§~except{0} b:§~ | try: p~except{0} a: q~else:~ try:§~ except{0} a:§~finally:§~ | try: p~finally:~ try:§~ except{0} a:§~q~ | try:§~except{0} ¤, ¤:§~ | try:§~except{0} ¤ as ¤:§~ | try:§~else:§~except{0} a:§~ | try:§~finally:§~except{0} a:§~ | try:§~except{0} a:§~finally:§~else:§~ | try:§~except{0} a:§~else:§~else:§~ | try:§~except{0} a:§~finally:§~finally:§~", s));
                for t in ["", "*"] { e(File, &format!("try:§~except{0} a:§~except{1} b:§~ | try:~ try:§~ except{0} a:§~except{1} b:§~ | try: p~except{0} a:~ try:§~ except{1} b:§~except{0} c:§~ | try:§~except{0} a:§~try:§~except{1} b:§~", s, t)); }
            }
            e(File, "try:§~except:§~ | try:§~except a:§~except:§~ | try:§~except:§~except a:§~ | try:§~finally:§~ | try:§~except:§~else:§~finally:§~ | try:§~ | try:§~else:§~ | try:§~else:§~finally:§~ | try:§~except*:§~ | except a:§~ | finally:§~ | try ¤:§~finally:§~ | try:§~finally ¤:§~ | async try:§~finally:§~");
            e(Single, "try:§~except ¤ as ¢:§~ | try:§~finally:§~");
        }
        "C19" => {
            e(File, "def ¢():§~ | def ¢() -> ¤:§~ | def f() -> ¤, ¤:§~ | async def ¢():§~ | async def ¢() -> ¤:§~ | class ¢:§~ | class ¢():§~ | class C(¤):§~ | class C(¤, ¤):§~ | class C(¤, ¢=¤,):§~ | class C(*¤, **¤):§~ | class C(¤, ¢=¤, *¤, **¤):§~ | class C(¤ for a in b):§~ | x~def f():§~y~ | x~class C:§~y~ | x~async def f():§~y~ | def f():~ def g():§~ class D:§~ p~ | class C:~ def f():§~ @a~ def g():§~ async def h():§~x~ | def f() -> ¤: # type: x~ p~ | def ¤(): p~ | class ¤: p~ | def f:§~ | class C(¤:§~ | def f()¤:§~");
            for d in ["def f():§", "class C:§", "async def f():§", "def ¢() -> ¤:§", "class ¢(¤):§", "x", "async with a: b"] {
                e(File, &format!("@¢~{0}~ | @¢.¢~{0}~ | @¢.¢.¢()~{0}~ | @¢(¤)~{0}~ | @¢(¤, ¢=¤)~{0}~ | @¢.¢(*¤, **¤,)~{0}~ | @a~@¢~{0}~ | @a(¤)~@b.¢~@c()~{0}~ | @¤~{0}~ | @a ¤~{0}~ | if a:~ @¢(¤)~ {0}~", d));
            }
            e(Single, "def ¢():§~ | class ¢(¤):§~ | @¢(¤)~def f():§~ | async def ¢():§~");
        }
        "C20" => {
            e(Eval, "¤ | ¤, ¤ | ¤, ¤, ¤ | ¤, | ¤~ | ¤~~ | ¤~¤ | ¤; ¤ | ~¤ | (¤, ¤)~ | ¤, *¤~ | *¤, ¤ | *¤");
            e(Single, "~ | ¤~ | ¤, ¤~ | ¤; ¤;~ | ¤ | ¤~¤~ | ¤~~ | if ¤:§~ | if ¤:§~~ | if ¤:§~x~ | import ¢~ | class C:§~ | while ¤:§~else:§~ | with ¤:§~ | ~¤~ | async def f():§~ | async for ¤ in ¤:§~ | async with ¤:§~ | @¢~def f():§~ | try:§~except ¤:§~ | for ¤ in ¤:§~ | pass; ¤~");
            e(File, "¤~ | ¤~¤~ | ~¤~~¤~~ | ¤ | ¤~¤ | if ¤:§~¤~ | ~~if a:§~~¤ | # c~¤~# d~ | ¤; ¤~¤~ |  ¤~ | ¤~ ¤~ | class C:§~@a~class D:§~ | ~");
            e(FuncType, "() -> ¤ | (¤) -> ¤ | (¤, ¤) -> ¤ | (¤, ¤, ¤) -> ¤ | (¤,) -> ¤ | (*¤) -> ¤ | (**¤) -> ¤ | (*¤, **¤) -> ¤ | (¤, *¤) -> ¤ | (¤, **¤) -> ¤ | (¤, *¤, **¤) -> ¤ | (¤, ¤, *¤, **¤) -> ¤ | (*¤, ¤) -> ¤ | (**¤, ¤) -> ¤ | (**¤, *¤) -> ¤ | (*¤, *¤) -> ¤ | (*¤, ¤, **¤) -> ¤ | (*¤, **¤,) -> ¤ | (¤) -> ¤~ | (¤) -> ¤~~ | (¤) -> ¤~¤ | (¤) ¤ | ¤ -> ¤ | (¤) -> ¤, ¤ | (¤ ¤) -> ¤");
        }
        _ => {}
    }
    v
}

/// `+` at the start of a suite line stands for one more step of indentation than the line of the header.
fn suite(w: &str, base: &str) -> String {
    let mut o = String::new();
    for (i, l) in w.split('\n').enumerate() {
        if i > 0 { o.push('\n'); }
        let n = l.len() - l.trim_start_matches('+').len();
        if i > 0 && n > 0 { o.push_str(base); for _ in 0..n { o.push(' '); } }
        o.push_str(&l[n..]);
    }
    o
}

fn fill(t: &[char], at: &[usize], w: &[&str]) -> String {
    let mut s = String::new();
    let mut k = 0;
    for (i, c) in t.iter().enumerate() {
        if k < at.len() && at[k] == i {
            if *c == '§' {
                let line = s.rsplit('\n').next().unwrap_or("");
                let base: String = line.chars().take_while(|x| *x == ' ').collect();
                let x = suite(w[k], &base);
                s.push_str(&x);
            } else { s.push_str(w[k]); }
            k += 1;
        } else { s.push(*c); }
    }
    s
}

/// The templates of a property with one place for an expression left open.
pub fn places(id: &str) -> Vec<(Mode, String)> {
    let mut v = vec![];
    for (m, t) in tpl(id) {
        let ch: Vec<char> = t.chars().collect();
        let at: Vec<usize> = (0..ch.len()).filter(|i| "¤¢§".contains(ch[*i])).collect();
        let base: Vec<&str> = at.iter().enumerate().map(|(k, i)| default(ch[*i], k)).collect();
        for i in 0..at.len() { if ch[at[i]] == '¤' { let mut b = base.clone(); b[i] = "¤"; v.push((m, fill(&ch, &at, &b))); } }
    }
    v
}

/// The templates of a property with their default filling, and with one more.
pub fn plain(id: &str) -> Vec<(Mode, String)> {
    let mut v = vec![];
    for (m, t) in tpl(id) {
        let ch: Vec<char> = t.chars().collect();
        let at: Vec<usize> = (0..ch.len()).filter(|i| "¤¢§".contains(ch[*i])).collect();
        let base: Vec<&str> = at.iter().enumerate().map(|(k, i)| default(ch[*i], k)).collect();
        v.push((m, fill(&ch, &at, &base)));
        let more: Vec<&str> = at.iter().map(|i| match ch[*i] { '¤' => "(b, c)", '¢' => "é", _ => "\n+x\n+y" }).collect();
        v.push((m, fill(&ch, &at, &more)));
    }
    v
}

fn default(c: char, k: usize) -> &'static str { match c { '¤' => ["a", "b", "c", "d", "e", "f"][k % 6], '¢' => ["m", "n", "o", "p", "q", "r"][k % 6], _ => " z" } }

/// What a place may begin with.
const STARTS: &[&str] = &["a", "1", "'s'", "None", "True", "False", "...", "(a)", "[a]", "{a}", "{a: b}", "()", "-a", "~a", "not a", "await a", "a.b", "a(b)", "a[b]", "lambda: a", "'s' 't'", "a if b else c", "*a", "match", "_"];
const BETWEEN: &[&str] = &["+", "*", "**", "@", "//", "<<", "&", "^", "|", "<", "==", "in", "not in", "is", "is not", "and", "or", ":=", "=", ":", ",", ".", ";", "if", "else", "for", "async for", "from", "as", "not", "lambda", "await", "->", "+=", "yield", "import", "(", ")", "[", "]", "{", "}", "\n", "\n ", "~", "!=", "<>", "...", "1", "'s'", "None", "b", "match", "case", "async", "del", "# c\n", "# type: x\n"];

/// Every way to begin with one thing and to go on with every token, for expressions and for names.
fn deep(ch: char) -> &'static [String] {
    use std::sync::OnceLock;
    static E: OnceLock<Vec<String>> = OnceLock::new();
    static N: OnceLock<Vec<String>> = OnceLock::new();
    match ch {
        '¤' => E.get_or_init(|| {
            let mut v = vec![];
            for s in STARTS {
                for t in BETWEEN {
                    v.push(format!("{} {}", s, t)); v.push(format!("{} {}", t, s)); v.push(format!("{} {} b", s, t)); v.push(format!("b {} {}", t, s));
                    if *s != "*a" { v.push(format!("*{} {} b", s, t)); v.push(format!("**{} {} b", s, t)); v.push(format!("k={} {} b", s, t)); v.push(format!("(k := {} {} b)", s, t)); v.push(format!("{} {} b if c else d", s, t)); v.push(format!("c if {} {} b else d", s, t)); v.push(format!("c if d else {} {} b", s, t)); }
                }
            }
            v
        }),
        '¢' => N.get_or_init(|| {
            let mut v = vec![];
            for s in ["m", "match", "case", "_", "type", "print", "é", "m.n", "async", "None"] {
                v.push(s.to_string());
                for t in BETWEEN { v.push(format!("{} {}", s, t)); v.push(format!("{} {}", t, s)); v.push(format!("{} {} n", s, t)); v.push(format!("{} {} n {} o", s, t, t)); }
            }
            v
        }),
        _ => &[],
    }
}

/// One place at a time filled in depth.
fn deeper(t: &str, every: usize, from: usize) -> Vec<String> {
    let t: Vec<char> = t.chars().collect();
    let at: Vec<usize> = (0..t.len()).filter(|i| "¤¢§".contains(t[*i])).collect();
    let base: Vec<&str> = at.iter().enumerate().map(|(k, i)| default(t[*i], k)).collect();
    let mut out = vec![];
    for i in 0..at.len() { for (k, w) in deep(t[at[i]]).iter().enumerate() { if (k + i + from) % every == 0 { let mut b = base.clone(); b[i] = w; out.push(fill(&t, &at, &b)); } } }
    out
}

/// All sources of one template: `ways` places at a time take every filling, the others their default.
fn sources_of(t: &str, ways: usize, wide: bool) -> Vec<String> {
    let t: Vec<char> = t.chars().collect();
    let at: Vec<usize> = (0..t.len()).filter(|i| "¤¢§".contains(t[*i])).collect();
    let base: Vec<&str> = at.iter().enumerate().map(|(k, i)| default(t[*i], k)).collect();
    let one = |i: usize| -> &'static [&'static str] { match t[i] { '¤' => EX, '¢' => NAMES, _ => SUITES } };
    let two = |i: usize| -> &'static [&'static str] { match t[i] { '¤' => if wide { EX } else { EX2 }, '¢' => if wide { NAMES } else { &NAMES[..17] }, _ => if wide { SUITES } else { &SUITES[..24] } } };
    let mut out = vec![fill(&t, &at, &base)];
    for i in 0..at.len() { for w in one(at[i]) { let mut b = base.clone(); b[i] = w; out.push(fill(&t, &at, &b)); } }
    if ways >= 2 {
        for i in 0..at.len() { for j in i + 1..at.len() { for w in two(at[i]) { for x in two(at[j]) { let mut b = base.clone(); b[i] = w; b[j] = x; out.push(fill(&t, &at, &b)); } } } }
    }
    if ways >= 3 {
        let three = |i: usize| -> &'static [&'static str] { match t[i] { '¤' => &EX2[..16], '¢' => &NAMES[..6], _ => &SUITES[..12] } };
        for i in 0..at.len() { for j in i + 1..at.len() { for k in j + 1..at.len() { for w in three(at[i]) { for x in three(at[j]) { for y in three(at[k]) { let mut b = base.clone(); b[i] = w; b[j] = x; b[k] = y; out.push(fill(&t, &at, &b)); } } } } } }
    }
    out
}

pub const ALL: &[&str] = &["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

/// The templates of the named properties, `ways` places at a time.
pub fn slots(c: &mut Ctx, ids: &[&str], ways: usize, wide: bool, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let mut v: Vec<(Mode, String)> = vec![];
    for id in ids { v.extend(tpl(id)); }
    let n = v.len();
    list(c, &format!("{} templates, {} of their places at a time filled with every kind of expression, name and suite", n, ways), &v, 1, &mut |c, (m, t)| {
        for s in sources_of(t, ways, wide) { if c.stopped() { break; } f(c, &s, *m); }
    });
}

pub fn own(c: &mut Ctx) {
    let id = c.id.clone();
    let (ways, wide) = (c.q(2, 3), c.thorough());
    slots(c, &[id.as_str()], ways, wide, &mut |c, s, m| { check_tree(c, s, m); });
    in_depth(c, &[id.as_str()], 1, &mut |c, s, m| { check_tree(c, s, m); });
    in_blocks(c, &[id.as_str()], 1, &mut |c, s, m| { check_tree(c, s, m); });
    in_environments(c, &[id.as_str()], 1, &mut |c, s, m| { check_tree(c, s, m); });
}

/// The templates of the named properties, one place at a time filled with everything a place may begin with, followed by every token
/// (one filling in `every`, another one at every place).
pub fn in_depth(c: &mut Ctx, ids: &[&str], every: usize, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let mut v: Vec<(Mode, String)> = vec![];
    for id in ids { v.extend(tpl(id)); }
    let n = v.len();
    let v: Vec<(usize, (Mode, String))> = v.into_iter().enumerate().collect();
    list(c, &format!("{} templates, one place at a time begun with every kind of operand and gone on with every token", n), &v, 1, &mut |c, (k, (m, t))| {
        for s in deeper(t, every, *k) { if c.stopped() { break; } f(c, &s, *m); }
    });
}

/// Suites that hold every program, alone and next to other statements, and every pair of blocks one in the other.
fn bodies() -> &'static [String] {
    use std::sync::OnceLock;
    static B: OnceLock<Vec<String>> = OnceLock::new();
    B.get_or_init(|| {
        let mut v = vec![];
        let ind = |p: &str| -> String { p.split_inclusive('\n').map(|l| if l.trim().is_empty() { l.to_string() } else { format!("+{}", l) }).collect() };
        for p in crate::corpus::programs() { for q in [p.clone(), format!("{}z\n", p), format!("z\n{}", p)] { v.push(format!("\n{}", ind(&q).trim_end_matches('\n'))); } }
        let bl = crate::checks::blocks();
        for (h, t) in &bl { for (g, u) in &bl {
            let one = |b: &str| -> String { b.split_inclusive('\n').map(|l| format!(" {}", l)).collect() };
            let q = format!("{}{}{}", h, one(&format!("{} x\n y\n{}z\n", g, u)), t);
            v.push(format!("\n{}", ind(&q).trim_end_matches('\n')));
        } }
        v
    })
}

/// One suite of a template at a time filled with every body (one in `every`, another one at every place).
pub fn in_blocks(c: &mut Ctx, ids: &[&str], every: usize, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let mut v: Vec<(Mode, String)> = vec![];
    for id in ids { v.extend(tpl(id).into_iter().filter(|x| x.1.contains('§'))); }
    let n = v.len();
    let v: Vec<(usize, (Mode, String))> = v.into_iter().enumerate().collect();
    list(c, &format!("{} templates, one suite at a time filled with every program and every pair of blocks", n), &v, 1, &mut |c, (k, (m, t))| {
        let t: Vec<char> = t.chars().collect();
        let at: Vec<usize> = (0..t.len()).filter(|i| "¤¢§".contains(t[*i])).collect();
        let base: Vec<&str> = at.iter().enumerate().map(|(k, i)| default(t[*i], k)).collect();
        for i in 0..at.len() { if t[at[i]] == '§' { for (j, w) in bodies().iter().enumerate() { if (i + j + k) % every == 0 { if c.stopped() { return; } let mut b = base.clone(); b[i] = w; f(c, &fill(&t, &at, &b), *m); } } } }
    });
}

pub fn everywhere(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let (ways, wide) = (c.q(1, 2), false);
    slots(c, ALL, ways, wide, f);
    let every = if c.thorough() { 1 } else if c.id == "C23" { 2 } else { 6 };
    in_depth(c, ALL, every, f);
    let every = if c.thorough() { 1 } else if c.id == "C23" { 5 } else { 15 };
    in_blocks(c, ALL, every, f);
    let every = if c.thorough() { 1 } else if c.id == "C23" { 5 } else { 7 };
    in_environments(c, ALL, every, f);
}

/// The templates with their default filling, and with one place at a time filled from the smaller sets (`first` tells the default filling).
pub fn layouts(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, Mode, &str, bool)) {
    let mut v: Vec<(Mode, String)> = vec![];
    for id in ALL { v.extend(tpl(id)); }
    let n = v.len();
    let wide = c.thorough();
    list(c, &format!("layout variants of {} templates, one place at a time filled", n), &v, 1, &mut |c, (m, t)| {
        let t: Vec<char> = t.chars().collect();
        let at: Vec<usize> = (0..t.len()).filter(|i| "¤¢§".contains(t[*i])).collect();
        let base: Vec<&str> = at.iter().enumerate().map(|(k, i)| default(t[*i], k)).collect();
        f(c, *m, &fill(&t, &at, &base), true);
        for i in 0..at.len() {
            let set: &[&str] = match (t[at[i]], wide) { ('¤', true) => EX, ('¤', false) => &["f(x, *y)", "[x for y in z if w]", "lambda x: y", "{x: y.z[w:v]}"], ('¢', true) => NAMES, ('¢', false) => &["é1"], (_, true) => SUITES, _ => &["\n+p\n+q", "\n+if p: q\n+else: r", " p; q"] };
            for w in set { if c.stopped() { return; } let mut b = base.clone(); b[i] = w; f(c, *m, &fill(&t, &at, &b), false); }
        }
    });
}

// ------------------------------------------------------------------------------ environments

fn indent(p: &str, by: &str) -> String { p.split_inclusive('\n').map(|l| if l.trim().is_empty() { l.to_string() } else { format!("{}{}", by, l) }).collect() }

/// The same construct in many environments: deep in brackets, deep in blocks, far into a long source, after and before
/// every kind of statement, inside every kind of expression, with other line breaks, with comments and continuations.
/// Whether the result is grammatical is for the model to say.
pub fn environments(mode: Mode, p: &str, wide: bool) -> Vec<(Mode, String)> {
    let mut v: Vec<(Mode, String)> = vec![];
    let bl = crate::checks::blocks();
    match mode {
        Eval => {
            for (a, b) in [("((((((((", "))))))))"), ("[[[[[[[[[", "]]]]]]]]]"), ("{{{{{", "}}}}}"), ("([{([{([", "])}])}])"), ("f(g(h(i(j(", ")))))"), ("a[b[c[d[e[", "]]]]]"), ("{a: {b: {c: {d: ", "}}}}"), ("lambda: lambda: lambda: (", ")"), ("-+~-+~(", ")"), ("a if b else c if d else (", ")"),
                ("[", " for a in b]"), ("[a for b in ", "]"), ("[a for b in c if ", "]"), ("[a async for b in c for d in e if f if ", "]"), ("{", ": a}"), ("{a: ", "}"), ("{**a, b: ", ", **c}"), ("{a, *b, ", "}"), ("f(a, *b, c=", ", **d)"), ("f(a)(b)[c].d(", ")"), ("a[b:c, ", "]"), ("a[::", "]"), ("a[", ":b]"), ("lambda a, b=", ", *c: d"), ("lambda *, a=", ", **b: c"), ("(yield ", ")"), ("(yield from ", ")"), ("(a := ", ")"), ("await (", ")"), ("not (", ")"), ("a and ", " or b"), ("a + (", ") * b"), ("a < (", ") in b"), ("a, *b, ", ""), ("", ", a, *b,"), ("(a, ", ", b)"), ("[", ", a]"), ("f(", ", a=b)"), ("f(", " for a in b)"), ("f(a := ", ")"), ("(", ")(a)[b].c"), ("(", ") ** -a"), ("*(", "), a"), ("'s' 't', ", ""), ("0x1f + (", ")")] { v.push((Eval, format!("{}{}{}", a, p, b))); }
            for t in ["\n", "\n\n\n", " # c", "  # c\n# d\n\n", "\t", " \\\n"] { v.push((Eval, format!("{}{}", p, t))); }
            for g in ["  ", "\t", " \\\n ", " \\\r\t"] { v.push((Eval, p.replace(' ', g))); }
            for g in [" # c\n", "\n\n  ", " #)\r", "\r"] { v.push((Eval, format!("({})", p.replace(' ', g)))); v.push((File, format!("x = [\n{}\n]\ny\n", p.replace(' ', g)))); }
            for n in [60usize, 250, 1000, 5000, 65530] { v.push((Eval, format!("({}{})", " ".repeat(n), p))); v.push((Eval, format!("{}, {}", "z".repeat(n), p))); v.push((Eval, format!("(#{}\n{})", "z".repeat(n), p))); }
            for n in [10usize, 40, 130] { v.push((Eval, format!("{}{}", "z, ".repeat(n), p))); v.push((Eval, format!("f({}{})", "z = z, ".repeat(n), p))); v.push((Eval, format!("[{}{}]", "*z, ".repeat(n), p))); v.push((Eval, format!("{{{}k: {}}}", "**z, ".repeat(n), p))); v.push((Eval, format!("z{} + ({})", " + z".repeat(n), p))); v.push((Eval, format!("z{}[{}]", ".z(z)".repeat(n), p))); v.push((Eval, format!("{}{}{}", "(".repeat(n), p, ")".repeat(n)))); }
            for (a, b) in [("", ""), ("x = ", ""), ("x = y = ", ""), ("x: y = ", ""), ("x += ", ""), ("x **= ", ""), ("x: ", ""), ("return ", ""), ("raise a from ", ""), ("del a, ", ""), ("assert a, ", ""), ("yield ", ""), ("yield from ", ""), ("x = yield ", ""), ("if a: b; ", "; c"), ("if ", ": a"), ("if a: b\nelif ", ": c"), ("while ", ": a\nelse: b"), ("for a in ", ": b"), ("for a in b, ", ": c"), ("async for a, b in ", ": c"), ("with a as b, ", ": c"), ("with a, (", ") as b: c"), ("try: a\nexcept ", " as b: c"), ("try: a\nexcept b: c\nexcept ", ": d\nfinally: e"), ("try: a\nexcept* ", ": b"), ("class C(", "): a"), ("class C(a, b=", "): c"), ("def f() -> ", ": a"), ("@a\n@b(", ")\ndef f(): c"), ("print(a); ", ""), ("x = ", " # type: t"), ("x = ", " # c"), ("global a; ", "; import b"), ("for ", " in a: b"), ("with a as ", ": b"), ("del ", ""), ("", " = a"), ("", " += a"), ("", ": a = b")] {
                v.push((File, format!("{}{}{}\n", a, p, b)));
                if wide { for k in 0..bl.len() { let s = format!("{}{}{}\n", a, p, b); v.push((File, format!("{}{}{}", bl[k].0, indent(&s, "  "), bl[k].1))); } }
            }
            let s = format!("x = {}\n", p);
            for (m, q) in environments(File, &s, false) { v.push((m, q)); }
            v.push((FuncType, format!("({}) -> {}", p, p))); v.push((FuncType, format!("(a, *{}, **b) -> c", p))); v.push((FuncType, format!("(*a, **{}) -> b\n", p)));
            v.push((Single, format!("{}\n", p))); v.push((Single, format!("if {}: a\n", p)));
        }
        File => {
            let simple = p.lines().count() == 1 && !p.contains(": ");
            let whole = p.ends_with('\n');
            if whole {
                for n in [60usize, 250, 1000, 5000, 65530] { v.push((File, format!("{}\n{}", "z".repeat(n), p))); v.push((File, format!("#{}\n{}", "z".repeat(n), p))); v.push((File, format!("'''{}'''\n{}", "z\n".repeat(n / 2), p))); }
                for n in [10usize, 40, 130, 520] { v.push((File, format!("{}{}", "z\n".repeat(n), p))); v.push((File, format!("{}{}", "if z: z\n".repeat(n), p))); v.push((File, format!("{}{}", "\n".repeat(n), p))); v.push((File, format!("{}z\n{}", "# c\n".repeat(n), p))); v.push((File, format!("if z:\n{}{}", "  z\n".repeat(n), indent(p, "  ")))); v.push((File, format!("{}{}", p, "z\n".repeat(n)))); if n < 500 { v.push((File, p.repeat(n / 4))); } }
                for (k, (h, t)) in bl.iter().enumerate() {
                    let one = format!("{}{}{}", h, indent(p, "  "), t);
                    v.push((File, one.clone()));
                    v.push((File, format!("{}{}{}", h, indent(&format!("y\n{}z\n", p), "\t"), t)));
                    let (h2, t2) = bl[(k * 5 + 3) % bl.len()];
                    v.push((File, format!("{}{}{}", h2, indent(&one, " "), t2)));
                    v.push((File, format!("{}  z\n{}{}", h, t, p)));
                    v.push((File, format!("{}{}  z\n{}", p, h, t)));
                    if wide { for (h2, t2) in &bl { v.push((File, format!("{}{}{}", h2, indent(&format!("{}w\n", one), "    "), t2))); } }
                }
                for k in 0..6usize { for n in [4usize, 8, 14] {
                    let mut s = p.to_string();
                    for i in 0..n { let (h, t) = bl[(i * (k + 2) + k * 5) % bl.len()]; s = format!("{}{}{}", h, indent(&s, " "), t); }
                    v.push((File, s.clone()));
                    v.push((File, format!("{}{}", s, p)));
                } }
                let simples = crate::corpus::SIMPLE;
                for (k, x) in simples.iter().enumerate() { if wide || k % 3 == p.len() % 3 { v.push((File, format!("{}\n{}{}\n", x, p, x))); v.push((File, format!("{}; {}", x, p))); if simple { v.push((File, format!("{}; {}\n", p.trim_end(), x))); } } }
                for x in crate::corpus::COMPOUND { v.push((File, format!("{}{}", x, p))); v.push((File, format!("{}{}", p, x))); }
                if simple { for (a, b) in [("if a: ", ""), ("if a: b\nelse: ", ""), ("while a: ", "else: b\n"), ("for a in b: ", ""), ("with a: ", ""), ("try: ", "finally: a\n"), ("try: a\nexcept b: ", "else: c\n"), ("def f(): ", ""), ("class C: ", "z\n"), ("@a\ndef f(): ", ""), ("async def f(): ", "z\n"), ("try: a\nexcept* b: ", ""), ("if a: z; ", ""), ("def f() -> a: z; ", "")] { v.push((File, format!("{}{}{}", a, p, b))); } }
                for t in ["\r", "\n\n\n", " # c\n", "  \n", "\n# c\n", "\n   # c (\n\n", "\n\t\n"] { v.push((File, p.replace('\n', t))); }
                v.push((File, p.trim_end_matches('\n').to_string()));
                v.push((File, p.split_inclusive('\n').map(|l| { let k = l.len() - l.trim_start_matches(' ').len(); format!("{}{}", "\t".repeat(k), &l[k..]) }).collect()));
                v.push((File, p.split_inclusive('\n').map(|l| { let k = l.len() - l.trim_start_matches(' ').len(); format!("{}{}", "       ".repeat(k), &l[k..]) }).collect()));
                v.push((File, p.split_inclusive('\n').map(|l| { let k = l.len() - l.trim_start_matches(' ').len(); format!("{}{}", &l[..k], l[k..].replace(' ', " \\\n ")) }).collect()));
                v.push((File, p.split_inclusive('\n').map(|l| { let k = l.len() - l.trim_start_matches(' ').len(); format!("{}{}", &l[..k], l[k..].replace(' ', "\t ")) }).collect()));
                for pre in ["\u{e9} = '\u{4e2d}\u{1f600}'\n", "# \u{4e2d}\n", "\n\n# c\n\n", "'''\n'''\n", "(a,\n b)\n", "x = \\\n y\n", "# type: ignore\n", "a = b # type: t\n"] { v.push((File, format!("{}{}", pre, p))); v.push((File, format!("if z:\n{}{}", indent(pre, "  "), indent(p, "  ")))); }
                v.push((Single, p.to_string())); v.push((Single, format!("{}\n", p)));
            }
        }
        Single => { v.push((Single, format!("{}\n", p))); v.push((Single, p.trim_end_matches('\n').to_string())); v.push((Single, p.replace('\n', "\r"))); v.push((Single, format!("# c\n{}", p))); v.push((File, p.to_string())); }
        FuncType => {
            for t in ["\n", "\n\n\n", " # c", "\n# c\n"] { v.push((FuncType, format!("{}{}", p, t))); }
            for g in ["  ", "\t", " \\\n "] { v.push((FuncType, p.replace(' ', g))); }
            for n in [60usize, 1000, 65530] { v.push((FuncType, p.replacen('(', &format!("({}", " ".repeat(n)), 1))); }
            for n in [10usize, 40, 130] { v.push((FuncType, p.replacen('(', &format!("({}", "z, ".repeat(n)), 1))); }
            for (a, b) in [("(", "(\n"), (",", ", # c\n"), (")", "\r)"), ("*", "* ")] { v.push((FuncType, p.replace(a, b))); }
        }
    }
    v
}

/// Every template (places with their default filling and with a few others) and the lists and chains of some lengths in every environment.
pub fn in_environments(c: &mut Ctx, ids: &[&str], every: usize, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let mut v: Vec<(Mode, String)> = vec![];
    for id in ids { v.extend(tpl(id)); }
    let n = v.len();
    let wide = c.thorough();
    let v: Vec<(usize, (Mode, String))> = v.into_iter().enumerate().collect();
    list(c, &format!("{} templates in every environment", n), &v, 1, &mut |c, (k, (m, t))| {
        let t: Vec<char> = t.chars().collect();
        let at: Vec<usize> = (0..t.len()).filter(|i| "¤¢§".contains(t[*i])).collect();
        let mut fills: Vec<String> = vec![];
        for set in [["a", "m", " z"], ["(b, c)", "é", "\n+x\n+y"], ["'s' 't'", "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", " x; y;"], ["f(x=y)[z].w", "_0", "\n+if x:\n+ y\n+z"]].iter().take(if wide { 4 } else { 2 }) {
            let w: Vec<&str> = at.iter().map(|i| match t[*i] { '¤' => set[0], '¢' => set[1], _ => set[2] }).collect();
            fills.push(fill(&t, &at, &w));
        }
        fills.dedup();
        let mut i = *k;
        for p in &fills { for (em, q) in environments(*m, p, wide) { i += 1; if i % every == 0 { if c.stopped() { return; } f(c, &q, em); } } }
    });
}

/// One environment of a source, the `k`-th of a fixed cycle.
pub fn environment(mode: Mode, p: &str, k: usize) -> Option<(Mode, String)> {
    use std::sync::OnceLock;
    static E: OnceLock<Vec<(Mode, String)>> = OnceLock::new();
    static S: OnceLock<Vec<(Mode, String)>> = OnceLock::new();
    let short = |v: Vec<(Mode, String)>| -> Vec<(Mode, String)> { v.into_iter().filter(|x| x.1.len() < 6000 && x.1.contains("PLACE")).collect() };
    match mode {
        Eval if !p.contains('\n') => { let v = E.get_or_init(|| short(environments(Eval, "PLACE", false))); let (m, t) = &v[k % v.len()]; Some((*m, t.replace("PLACE", p))) }
        File if p.ends_with('\n') && p.lines().count() == 1 => { let v = S.get_or_init(|| short(environments(File, "PLACE\n", false))); let (m, t) = &v[k % v.len()]; Some((*m, t.replace("PLACE", p.trim_end_matches('\n')))) }
        File => {
            let bl = crate::checks::blocks();
            let (h, t) = bl[k % bl.len()];
            let p = if p.ends_with('\n') { p.to_string() } else { format!("{}\n", p) };
            Some((File, match k / bl.len() % 4 { 0 => format!("{}{}{}", h, indent(&p, "  "), t), 1 => format!("{}  x\n{}{}", h, indent(&p, "  "), t), 2 => format!("{}  y\n{}{}z\n", h, t, p), _ => format!("if z:\n{}w\n", indent(&format!("{}{}{}", h, indent(&p, "  "), t), " ")) }))
        }
        _ => None,
    }
}
