//! Constructs one inside the other several levels deep, the same construct many times over, and near twins.
use crate::engine::*;
use crate::refparse::Mode::{self, *};
use crate::reflex::{KEYWORDS, OPERATORS};

/// Expressions with one place, each with the property it belongs to.
const AROUND: &[(&str, &[&str])] = &[
    ("C10", &["-¤", "~¤", "¤ + a", "a * ¤", "a ** ¤", "¤ ** a", "¤ | a", "a << ¤", "a @ ¤ - b"]),
    ("C11", &["not ¤", "¤ < a", "a not in ¤", "a and ¤", "¤ or a", "lambda: ¤", "lambda b=¤, **c: d", "¤ if a else b", "a if ¤ else b", "a if b else ¤", "(a := ¤)", "a is not ¤ == b", "lambda *a, b=¤: ¤"]),
    ("C12", &["(¤)", "(¤, a)", "(*¤,)", "[¤]", "[a, ¤]", "{¤}", "{¤: a}", "{a: ¤}", "{a: ¤, **b}", "{**¤}", "{*¤, a}", "[¤ for a in b]", "[a for b in ¤]", "[a for b in c if ¤]", "[a for b in c if ¤ if d]", "[a for ¤ in b]", "{¤: a for b in c}", "{a async for b in ¤ for c in d}", "(a for b in ¤)", "(yield ¤)"]),
    ("C13", &["f(¤)", "f(a=¤)", "f(*¤, b)", "f(**¤)", "f(¤ for a in b)", "f(a for b in c if ¤)", "f(a := ¤)", "a[¤]", "a[¤:b]", "a[b:¤]", "a[b, ::¤]", "(¤).a", "a(b)[¤].c", "await ¤", "await f(¤)"]),
];
const LEAVES: &[&str] = &["a", "b.c(d)[e]", "1", "'s' 't'", "(b)", "()", "-a", "a ** b", "a + b", "lambda: a", "a if b else c", "not a", "a < b", "a or b", "a := b", "yield a", "a, b", "a,", "a for b in c", "*a", "**a", "a: b", "[a, *b]", "{a: b}", "{**a}", "await a", "...", "lambda a, b=c: d", "(yield a)", "(a := b)", "f(a, *b, c=d)", "a[b:c]", "(d if e else f)", ""];
/// Statements with one place.
const FRAMES: &[(Mode, &str)] = &[(Eval, "¤"), (File, "x = ¤\n"), (File, "¤\n"), (File, "if ¤: z\n"), (File, "return ¤\n"), (File, "x: ¤ = y\n"), (File, "x: y = ¤\n"), (File, "x += ¤\n"), (File, "for x in ¤: y\nz\n"), (File, "while ¤:\n  x\nelse: y\n"), (File, "assert ¤, x\n"), (File, "raise x from ¤\n"), (File, "with x as y, ¤: z\n"), (File, "class C(x, k=¤): y\n"), (File, "@d(¤)\ndef f() -> x: y\n"), (File, "def f() -> ¤: y\n"), (File, "try: x\nexcept ¤ as y: z\n"), (File, "x; ¤; y\n"), (File, "if x:\n  y = ¤\n  z\n"), (File, "x[¤] = y\n"), (File, "del x, (y), z[¤]\n"), (Eval, "x, ¤"), (FuncType, "(x, *y) -> ¤"), (Single, "x = ¤\n"), (File, "x = ¤ # type: t\n"), (File, "yield from ¤\n"), (File, "for x, y[¤] in z: w\n"), (File, "if x: y\nelif ¤: z\nelse: w\n")];

/// The listed findings that a source may not contain when its property has none of them.
fn fits(s: &str, mode: Mode) -> bool {
    if s.contains("yield )") || s.contains("yield \n") || s.contains("yield from \n") { return false; }
    if mode == Eval || mode == FuncType { return true; }
    // the right-hand side of an assignment that begins with a star
    let b = s.as_bytes();
    for i in 0..b.len() { if b[i] == b'=' { let r = s[i + 1..].trim_start_matches(' '); if r.starts_with('*') { let mut d = 0i32; for x in s[..i].bytes() { match x { b'(' | b'[' | b'{' => d += 1, b')' | b']' | b'}' => d -= 1, _ => {} } } if d == 0 { return false; } } } }
    true
}

/// The chains of `depth` expressions one inside the other, `leaves` of the innermost expressions (another part of them for each chain)
/// and as many of the statements around; at least one of the expressions belongs to `id`.
pub fn chains(c: &mut Ctx, id: Option<&str>, depth: usize, leaves: usize, every: usize, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let all: Vec<(&str, &str)> = AROUND.iter().flat_map(|(p, v)| v.iter().map(move |s| (*p, *s))).collect();
    let n = all.len();
    let tops: Vec<usize> = (0..n * n).collect();
    list(c, &format!("chains of {} of {} expressions one inside the other, {} of {} innermost ones, one in {}", depth, n, leaves, LEAVES.len(), every), &tops, 4, &mut |c, top| {
        let mut ix = vec![0usize; depth];
        ix[0] = top / n;
        if depth > 1 { ix[1] = top % n; } else if top % n > 0 { return; }
        let rest = if depth > 2 { n.pow(depth as u32 - 2) } else { 1 };
        for r in 0..rest {
            let mut q = r;
            for k in 2..depth { ix[k] = q % n; q /= n; }
            if let Some(id) = id { if !ix.iter().any(|i| all[*i].0 == id) { continue; } }
            let h = ix.iter().fold(7usize, |h, i| h.wrapping_mul(61).wrapping_add(*i * 17 + 3)) >> 1;
            if h / 97 % every != 0 { continue; }
            if c.stopped() { return; }
            for j in 0..leaves {
                let mut s = LEAVES[(h + j * 5) % LEAVES.len()].to_string();
                for i in ix.iter().rev() { s = all[*i].1.replace('¤', &s); }
                let (m, t) = FRAMES[(h / 31 + j) % FRAMES.len()];
                let s = t.replace('¤', &s);
                if fits(&s, m) { f(c, &s, m); }
            }
        }
    });
}

/// The templates of a property, one place at a time filled with every chain of two.
pub fn filled(c: &mut Ctx, id: &str, every: usize, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let v = crate::slots::places(id);
    let all: Vec<&str> = AROUND.iter().flat_map(|x| x.1.iter().copied()).collect();
    let v: Vec<(usize, (Mode, String))> = v.into_iter().enumerate().collect();
    list(c, &format!("{} places filled with every chain of two of {} expressions, one in {}", v.len(), all.len(), every), &v, 1, &mut |c, (k, (m, t))| {
        for (i, a) in all.iter().enumerate() { for (j, b) in all.iter().enumerate() {
            let h = k * 7 + i * 31 + j * 5;
            if (k + i * 3 + j) % every != 0 { continue; }
            if c.stopped() { return; }
            let e = a.replace('¤', &b.replace('¤', LEAVES[h % LEAVES.len()]));
            let s = t.replace('¤', &e);
            let with = s.match_indices("with").any(|(i, _)| s[i + 4..].trim_start().starts_with('('));
            if fits(&s, *m) && (!with || id == "C17") { f(c, &s, *m); }
        } }
    });
}

/// A program with something of everything, none of it a listed finding.
pub fn probe() -> String {
    let mut s = String::new();
    for p in crate::corpus::programs() { if p.starts_with("with (") || p.starts_with("return") || p.trim_end().len() < 2 { continue; } s.push_str(&p); }
    s
}

/// Every source of a property many times over, then a program with something of everything.
pub fn repeated(c: &mut Ctx, ids: &[&str], times: &[usize], f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let mut v: Vec<(Mode, String)> = vec![];
    for id in ids { v.extend(crate::slots::plain(id)); }
    let probe = probe();
    list(c, &format!("{} constructs {:?} times over, then a program with something of everything", v.len(), times), &v, 2, &mut |c, (m, t)| {
        for n in times {
            if c.stopped() { return; }
            match m {
                File if t.ends_with('\n') => { f(c, &format!("{}{}", t.repeat(*n), probe), File); let l: String = t.lines().map(|l| format!("  {}\n", l)).collect(); f(c, &format!("if z:\n{}{}", l.repeat(*n), probe), File); }
                Eval => { if !fits(&format!("({})", t), Eval) { continue; } f(c, &format!("({})\n", t).repeat(*n).to_string().as_str().to_owned().as_str().chars().chain(probe.chars()).collect::<String>(), File); f(c, &format!("[{}{}]", format!("({}), ", t).repeat(*n), "a, (b := c), lambda d: e, *f | g, h(i, *j, k=l, **m)[n:o, ::p].q if r else s and not t in u, (v for w in x if lambda: y if z)"), Eval); f(c, &format!("{}{}", format!("({}) + ", t).repeat(*n / 2), "a ** -b"), Eval); }
                _ => {}
            }
        }
    });
}

/// Every token many times over, then a program with something of everything.
pub fn lexical_repeated(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let v = crate::wider::cores(false);
    let probe = format!("{}'a''b' r\"\"\"c\"d\n\"\"\" 0x1f 1_0.5e-3j 00 .5 [é, (b), {{c}}] not in is ... -> := **= >>= # c\nif a:\n\tb # type: t\n\n\tif c:\n\t\td\n\te\\\n f\n(# g\n)\n", probe());
    let times: &[usize] = if c.thorough() { &[140, 300, 1100, 5000] } else { &[140, 300] };
    list(c, &format!("{} texts {:?} times over, then a program with something of everything", v.len(), times), &v, 2, &mut |c, x| {
        for n in times { for sep in [" ", "\n", ", ", "\n  "] {
            if c.stopped() { return; }
            let s = format!("{}{}", x, sep).repeat(*n);
            if s.contains("\r\n") { continue; }
            f(c, &format!("{}\n{}", s, probe));
            f(c, &format!("({})\n{}", s, probe));
            f(c, &format!("a{}{}", sep, s));
        } }
    });
}

/// Every ordered pair of texts, and texts that differ from one another in a single place.
pub fn twins(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let v = crate::wider::cores(false);
    let seps: &[&str] = if c.thorough() { &[" ", "\n", ", ", "", "\t", "\\\n", " + "] } else { &[" ", "\n"] };
    list(c, &format!("every ordered pair of {} texts", v.len()), &v, 2, &mut |c, x| {
        for y in &v { for sep in seps { if c.stopped() { return; } let s = format!("{}{}{}", x, sep, y); if !s.contains("\r\n") { f(c, &s); } } }
    });
    // the same place with another character, in words of every length
    let base = "value_name12x_total_count";
    let num = "1234567890123456789012345";
    let mut w: Vec<(String, String)> = vec![];
    for n in 1..if c.thorough() { 25 } else { 14 } {
        let (b, d) = (&base[..n], &num[..n]);
        for i in 0..n {
            for x in ["Q", "_", "0", "é", "z", "e", "f"] { if i == 0 && x == "0" { continue; } w.push((b.into(), format!("{}{}{}", &b[..i], x, &b[i + 1..]))); }
            for x in ["0", "7", "_", ".", "e", "j"] { w.push((d.into(), format!("{}{}{}", &d[..i], x, &d[i + 1..]))); }
            for (p, q) in [("'", "'"), ("\"\"\"", "\"\"\""), ("r'", "'"), ("b\"", "\"")] { for x in ["q", "\\", "#", "é"] { w.push((format!("{}{}{}", p, b, q), format!("{}{}{}{}{}", p, &b[..i], x, &b[i + 1..], q))); } }
            w.push((format!("# {}\n", b), format!("# {}Q{}\n", &b[..i], &b[i + 1..])));
            w.push((format!("# type: {}\n", b), format!("# type: {}Q{}\n", &b[..i], &b[i + 1..])));
            w.push((format!("0x{}", "abcdef0123456789abcdef012"[..n].to_string()), { let mut h: Vec<char> = "abcdef0123456789abcdef012"[..n].chars().collect(); h[i] = '7'; format!("0x{}", h.iter().collect::<String>()) }));
        }
        for i in 0..=n { w.push((b.into(), format!("{}q{}", &b[..i], &b[i..]))); w.push((b.into(), b[..i].to_string() + "." + &b[i..])); w.push((d.into(), format!("{}5{}", &d[..i], &d[i..]))); }
    }
    for (k, _) in KEYWORDS.iter() { for i in 0..k.len() { w.push((k.to_string(), format!("{}q{}", &k[..i], &k[i + 1..]))); w.push((k.to_string(), k[..i].to_string())); w.push((k.to_string(), format!("{}{}", k, &k[i..]))); } }
    for (a, _) in OPERATORS.iter() { for (b, _) in OPERATORS.iter() { if a.len() == b.len() && *a != "\0" && *b != "\0" { w.push((a.to_string(), b.to_string())); } } }
    list(c, &format!("{} pairs of texts that differ in one place", w.len()), &w, 50, &mut |c, (a, b)| {
        if c.stopped() { return; }
        for s in [format!("{} + {}", a, b), format!("{} + {}", b, a), format!("{} {} {}", a, b, a), format!("{}\n{}\n{}\n", a, b, b), format!("{0}({1})[{0}, {1}].x\n{1} = {0}\n", a, b), format!("if {}:\n  {}\n{}", a, b, a)] { if !s.contains("\r\n") { f(c, &s); } }
    });
    // everything next to every character
    let edge: Vec<String> = OPERATORS.iter().map(|x| x.0.to_string()).filter(|x| x != "\0").chain(["a", "_", "1", "0", "0x1", "1.5", "1.", "1e5", "1j", "00", "'s'", "'''s'''", "r's'", "# c", "# c\n", "if", "not", "lambda", "...", "\\\n", "\\", "(", "\n", " ", "\t", "$", "0_", "1e"].iter().map(|s| s.to_string())).collect();
    let most = if c.thorough() { 0x3000 } else { 0x300 };
    let chars: Vec<char> = (1u32..most).filter_map(char::from_u32).chain(['\u{20ac}', '\u{3000}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{1f600}', '\u{10ffff}', '\u{ffff}', '\u{2160}', '\u{2460}', '\u{2070}', '\u{2153}', '\u{663}', '\u{966}', '\u{ff11}', '\u{1d7d8}', '\u{301}', '\u{203f}', '\u{200d}', '\u{4e2d}', '\u{ac00}', '\u{5d0}']).filter(|x| "\u{c}".find(*x).is_none()).filter(|x| !x.is_alphanumeric() || !x.is_ascii() || true).collect();
    list(c, &format!("{} texts before and after each of {} characters", edge.len(), chars.len()), &chars, 4, &mut |c, x| {
        if c.stopped() { return; }
        for e in &edge { for s in [format!("{}{}", e, x), format!("{}{}", x, e), format!("{} {} {}", e, x, e), format!("({}{}a)", e, x)] { if !s.contains("\r\n") { f(c, &s); } } }
    });
    // quotes and braces inside every kind of string
    let n = c.q(5, 6);
    for p in ["f", "F", "rf", "", "b"] {
        for (q, r) in [("'", "\""), ("\"\"\"", "'")] {
            let _ = r;
            let ctxs = [(format!("{}{}", p, q), q.to_string()), (format!("(x, {}{}", p, q), format!("{}) + 1\n", q))];
            let ctxs: Vec<(&str, &str)> = ctxs.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
            strings(c, "braces and quotes in strings", &["{", "}", "'", "\"", "\\", "a", " "], n, &ctxs, f);
        }
    }
    // a token of every kind far into a long source
    let times: &[usize] = if c.thorough() { &[1 << 15, 1 << 16, 1 << 20, 1 << 24] } else { &[1 << 15, 1 << 16, 1 << 20] };
    let mut w: Vec<String> = vec![];
    for n in times { for (a, b) in [("#", "\n"), ("'''", "'''\n"), (" ", ""), ("\n", ""), ("z", " + "), ("(", "")] {
        if a == "(" { w.push(format!("({}", " ".repeat(*n))); continue; }
        w.push(match a { "'''" => format!("'''{}'''\n", "s".repeat(*n)), _ => format!("{}{}", a.repeat(*n), b) });
    } }
    list(c, "tokens of every kind far into a long source", &w, 1, &mut |c, w| {
        if c.stopped() { return; }
        f(c, &format!("{}a += 1.5e3j ** 'b' \"c\" r'''d\n''' if e else (f, [g]) # h\nif i:\n  j \\\n  k # type: l\nm", w));
        f(c, &format!("{}\n\n  n\n", w));
    });
}

/// Long tokens of every kind with something unusual late in them.
pub fn late(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let prefixes: &[&str] = if c.thorough() { &["", "r", "R", "u", "U", "b", "B", "f", "F", "br", "bR", "Br", "BR", "rb", "rB", "Rb", "RB", "fr", "fR", "Fr", "FR", "rf", "rF", "Rf", "RF"] } else { &["", "r", "R", "b", "f", "Rb", "br", "U"] };
    let pieces = ["\r\n", "\r", "\n", "\\\r\n", "\\\n", "\\\r", "\\'", "\\\"", "\\\\", "'", "\"", "''", "\"\"", "'\"", "\"'", "\\N{X}", "\u{e9}", "\u{20ac}", "\u{1f600}", "#", "# type: t", "{", "}", "{'x'}", "{{", "$", "?", "\t", "  ", "(", ")", "]", "\\", "\n\n", "\n  \n", "\\x41", "\\u00e9", "\u{7f}", "\u{ad}", "\u{feff}", "%s", ";", ":", "'''", "\"\"\"", "\\'''", "\\\"\"\""];
    let lens: &[usize] = if c.thorough() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 24, 30, 31, 32, 33, 40, 50, 64, 80, 100, 120, 127, 128, 200, 256, 260, 512, 1024, 4100] } else { &[0, 3, 7, 10, 16, 20, 31, 33, 41, 50, 65, 100, 130, 257, 1030] };
    let mut v: Vec<(&str, &str)> = vec![];
    for p in prefixes { for q in ["'", "\"", "'''", "\"\"\""] { v.push((p, q)); } }
    list(c, &format!("{} kinds of long strings with each of {} pieces late in them", v.len(), pieces.len()), &v, 1, &mut |c, (p, q)| {
        for n in lens { for x in &pieces { for y in ["", "b", " 'c'"] {
            if c.stopped() { return; }
            let s = format!("{}{}{}{}{}{}", p, q, "a".repeat(*n), x, y, q);
            f(c, &format!("{}\n", s));
            if y == "b" { f(c, &format!("if x:\n  y = [{}, 'z'] # {}\n", s, "w".repeat(*n))); f(c, &format!("{}{} {}", "d".repeat(*n), "", s)); }
        } } }
    });
    let tails = ["_", "__", "1", "_1", "\u{e9}", "\u{4e2d}", "\u{663}", "A", ".", "..", "...", ".5", "5.", "e5", "e", "e+5", "E-5", "j", "J", ".j", "1_0", "_0", "x", "0x1", "'s'", "\"s\"", "#", "# type: t", " # type: t", "\\\n", "\t", "\t ", " \t", "$", "?", "!", "!=", "<>", "->", ":=", "**=", "//=", "(", ")", "]", "}", ",", "\n", "\n ", "\r", "\u{a0}", "\u{301}", "\u{2028}", "lambda", "if", "0", "00", "0_0"];
    let starts = ["a", "_", "A", "1", "0", "9", "\u{e9}", "#", "# type:", "# ", " ", "\t", "(", "[", "{", "0x", "0b1", "0o7", "1.", ".1", "1e1", "\n", "# c\n", "\\\n", ".", "...", "-", "~", "not ", "a.", "a,", "a;", "'s' ", "()", "if a: b\n"];
    let st: Vec<&str> = starts.to_vec();
    list(c, &format!("{} kinds of long runs with each of {} endings", st.len(), tails.len()), &st, 1, &mut |c, a| {
        for n in lens { for t in &tails {
            if c.stopped() { return; }
            let fill = match *a { "_" | "1" | "0" | "9" | "A" | "\u{e9}" | "#" | " " | "\t" | "(" | "[" | "{" | "." | "-" | "~" | "\n" | "a" => a.repeat(*n), "0x" => format!("0x{}", "f".repeat(*n)), "0b1" => format!("0b1{}", "0".repeat(*n)), "0o7" => "0o7".to_string() + &"1".repeat(*n), "1." | ".1" | "1e1" => format!("{}{}", a, "2".repeat(*n)), "# type:" | "# " => format!("{}{}", a, "c".repeat(*n)), _ => a.repeat(*n) };
            for s in [format!("{}{}", fill, t), format!("{}{}b\n", fill, t), format!("x = {}{}\ny\n", fill, t), format!("if x:\n  {}{}\n  y\nz\n", fill, t)] { if !s.contains("\r\n") { f(c, &s); } }
        } }
    });
}

/// Many different names, numbers, strings and comments in one source, and then each again.
pub fn distinct(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let times: &[usize] = if c.thorough() { &[70, 300, 1100, 5000, 20000, 70000] } else { &[70, 300, 1100, 5000] };
    let kinds = ["name", "short", "long", "caps", "unicode", "number", "hex", "float", "string", "bytes", "triple", "type", "comment", "attribute", "keyword argument", "mixed", "import", "global", "spaces"];
    let mut v: Vec<(usize, &str)> = vec![];
    for n in times { for k in kinds { v.push((*n, k)); } }
    let probe = probe();
    list(c, &format!("sources of {:?} different tokens of each of {} kinds", times, kinds.len()), &v, 1, &mut |c, (n, k)| {
        if c.stopped() { return; }
        let word = |i: usize| -> String { let mut s = String::new(); let mut i = i + 26; while i > 0 { s.push((b'a' + (i % 26) as u8) as char); i /= 26; } format!("{}_", s) };
        let one = |i: usize| -> String { match *k {
            "name" => format!("name{}", i), "short" => word(i), "long" => format!("{}{}", "long_prefix_".repeat(3), word(i)), "caps" => word(i).to_uppercase(), "unicode" => format!("\u{e9}{}\u{4e2d}", i),
            "number" => format!("{}", i + 1), "hex" => format!("0x{:X}", i), "float" => format!("{}.{}e-{}", i, i, i), "string" => format!("'s{}'", i), "bytes" => format!("rb\"{}\"", word(i)), "triple" => format!("'''t\n{}'''", i),
            "attribute" => format!("a.b{}", i), "keyword argument" => format!("f(k{}=v{})", i, i), "mixed" => ["name", "'s", "1", "\"\"\"t"][i % 4].to_string() + &i.to_string() + ["", "'", "", "\"\"\""][i % 4],
            _ => format!("n{}", i),
        } };
        let m = *n;
        let body: String = match *k {
            "type" => (0..m).map(|i| format!("x = y # type: t{}\n", i)).collect(),
            "comment" => (0..m).map(|i| format!("x # c{}\n", i)).collect(),
            "import" => (0..m).map(|i| format!("from m{}.n import o{} as p{}\n", i, i, i)).collect(),
            "global" => format!("global {}\n", (0..m).map(|i| format!("g{}", i)).collect::<Vec<_>>().join(", ")),
            "spaces" => (0..m.min(2000)).map(|i| format!("{}if x: y{}\n", "", " ".repeat(i))).collect(),
            _ => format!("[{}]\n", (0..m).map(one).collect::<Vec<_>>().join(", ")),
        };
        f(c, &format!("{}{}", body, probe), File);
        f(c, &format!("{}{}", body, body), File);
        if !["type", "comment", "import", "global", "spaces"].contains(k) {
            f(c, &(0..m).map(|i| format!("{}\n", one(i))).collect::<String>(), File);
            f(c, &(0..m).map(|i| format!("{}\n", one(m - 1 - i))).collect::<String>(), File);
            f(c, &format!("({})", (0..m.min(1100)).map(one).collect::<Vec<_>>().join(" + ")), Eval);
        }
    });
}

/// Every template, and every different way of it to go wrong, far into the source.
pub fn far(c: &mut Ctx, wrong: bool, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let many = c.thorough();
    let ahead = [format!("#{}\n", "z".repeat(270)), format!("#{}\n", "z".repeat(66000)), format!("{}# {}\n\n", "#\n".repeat(140), "\u{e9}".repeat(33000)), format!("'''{}'''\n", "z\n".repeat(33000)), "z\n".repeat(300)];
    crate::slots::layouts(c, &mut |c, mode, p, first| {
        if !(first || many) { return; }
        let mut seen = std::collections::HashSet::new();
        let mut v = vec![p.to_string()];
        if wrong { v.extend(crate::checks::edits_of(p, 1, false)); }
        for s in &v {
            if c.stopped() { return; }
            if wrong {
                let m = crate::engine::model(s, mode, crate::refparse::Dev::default(), None);
                let kind = |i: usize| m.lx.toks.get(i).map(|t| format!("{:?}", t.k));
                if s.contains("\r\n") || !seen.insert((m.failed, m.lx.end == crate::reflex::End::Eof, kind(m.seen), if m.seen > 0 { kind(m.seen - 1) } else { None })) { continue; }
            }
            for (k, a) in ahead.iter().enumerate() {
                if k > 2 && mode != File { continue; }
                if k > 1 && wrong && !many { continue; }
                f(c, &format!("{}{}", a, s), mode);
            }
        }
    });
}
