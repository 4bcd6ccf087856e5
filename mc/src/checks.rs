//! What is enumerated and compared for each property.
use crate::corpus::*;
use crate::engine::*;
use crate::fams::FAMS;
use crate::imp::*;
use crate::reflex::*;
use crate::refparse::{Dev, Mode};
use crate::toks::*;
use python_core_rust::*;
use std::collections::HashMap;

pub fn known_id(id: &str) -> bool {
    id.len() == 3 && id.starts_with('C') && id[1..].parse::<u32>().map(|n| (1..=31).contains(&n)).unwrap_or(false)
}

pub fn run(c: &mut Ctx) {
    match c.id.clone().as_str() {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => c08(c),
        "C09" => c09(c),
        "C20" => { crate::slots::own(c); families(c, 0); ladders(c); entry_points(c); own_lists(c); compositions(c); }
        "C21" => leaves(c),
        "C22" => spans(c),
        "C23" => edits(c),
        "C24" => layout(c),
        "C25" => surroundings(c),
        "C26" => cursor(c),
        "C27" => type_comments(c),
        "C28" => bad_tokens(c),
        "C29" => error_places(c),
        "C30" => rebuild(c),
        _ => { crate::slots::own(c); families(c, 0); ladders(c); far_offsets(c); known_cases(c); own_lists(c); compositions(c); }
    }
}

/// Judge one source the way the property's check would.
pub fn replay(c: &mut Ctx, kind: &str, src: &str) {
    let mode = match kind { "file" => Some(Mode::File), "eval" => Some(Mode::Eval), "single" => Some(Mode::Single), "func_type" => Some(Mode::FuncType), _ => None };
    match (c.id.clone().as_str(), mode) {
        ("C01", _) | ("C02", _) | ("C03", _) | ("C04", _) => judge_lex(c, src, Aspect::Text),
        ("C05", _) => judge_lex(c, src, Aspect::Tiling),
        ("C06", _) => judge_lex(c, src, Aspect::Newlines),
        ("C07", _) => judge_lex(c, src, Aspect::Indents),
        ("C08", _) => judge_lex(c, src, Aspect::Brackets),
        ("C09", _) => total(c, src),
        ("C21", Some(m)) => { judge_leaves(c, src, m); }
        ("C22", Some(m)) => { judge_spans(c, src, m); }
        ("C28", Some(m)) => { judge_lexerr(c, src, m); }
        ("C30", Some(m)) => { judge_rebuild(c, src, m); }
        ("C29", Some(m)) => { check_place(c, src, m); }
        ("C27", None) => { judge_lex(c, src, Aspect::Text); judge_lex(c, src, Aspect::Tiling); }
        (_, Some(m)) => { check_tree(c, src, m); }
        _ => {}
    }
}

// =============================================================================== lexical checks

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Aspect { Text, Tiling, Newlines, Indents, Brackets }

fn h(s: &str) -> u32 { let mut h = 0x811c9dc5u32; for b in s.bytes() { h = (h ^ b as u32).wrapping_mul(0x01000193); } h }

/// The part of a token sequence a property talks about.
fn project(toks: &[Tok], a: Aspect, out: &mut Vec<u32>) {
    out.clear();
    let mut after_newline = true;
    for t in toks {
        match a {
            Aspect::Text => match t.k {
                K::Newline | K::Indent | K::Dedent | K::EOF => {}
                _ => { out.push(t.k as u32); out.push(t.s); out.push(t.e); out.push(h(&t.text)); out.push(t.prefix.as_ref().map(|p| h(p)).unwrap_or(7)); }
            },
            Aspect::Tiling => for x in &t.triv { out.push(x.k as u32); out.push(x.s); out.push(x.e); out.push(h(&x.text)); },
            Aspect::Newlines => match t.k {
                K::Newline => { out.push(1); out.push(t.s); out.push(t.e); out.push(t.nl.0 as u32); out.push(t.nl.1 as u32); after_newline = true; }
                K::Indent | K::Dedent => {}
                _ => { out.push(2); out.push(t.s); if !after_newline { out.push(t.e); } after_newline = false; }
            },
            Aspect::Indents => match t.k {
                K::Indent => out.push(1),
                K::Dedent => out.push(2),
                K::EOF => out.push(3),
                K::Newline => {}
                _ => { out.push(4); out.push(t.s); }
            },
            Aspect::Brackets => match t.k {
                K::PyLeftParen | K::PyRightParen | K::PyLeftBracket | K::PyRightBracket | K::PyLeftCurly | K::PyRightCurly => { out.push(t.k as u32); out.push(t.s); out.push(t.e); }
                K::Newline | K::Indent | K::Dedent => out.push(t.k as u32),
                _ => {}
            },
        }
    }
}

fn lex_agrees(lx: &Lexed, il: &ILex, a: Aspect) -> bool {
    let (mut x, mut y) = (Vec::new(), Vec::new());
    match (lx.end, &il.stat) {
        (_, Stat::Panic(_)) | (_, Stat::Runaway) => return false,
        (End::Eof, Stat::Ok) | (End::Error, Stat::Err) => {
            project(&lx.toks, a, &mut x);
            project(&il.toks, a, &mut y);
            x == y
        }
        (End::Open, _) => {
            let n = lx.toks.len();
            if il.toks.len() + 1 < n || (il.toks.len() < n && il.stat != Stat::Err) { return false; }
            let k = n.min(il.toks.len());
            project(&lx.toks[..k], a, &mut x);
            project(&il.toks[..k], a, &mut y);
            x == y && (a != Aspect::Text || il.toks[k..].iter().all(|t| t.k != K::AtomNumber || valid_number(&t.text.chars().collect::<Vec<_>>())))
        }
        _ => false,
    }
}

pub fn judge_lex(c: &mut Ctx, src: &str, a: Aspect) {
    let il = lex_impl(&c.shm, src);
    let lx = lex(src, LexDev::default());
    c.runs += 1;
    c.transitions += lx.toks.len() as u64;
    for s in &lx.states { c.state(*s); }
    if lx.end == End::Eof { c.accepted += 1; }
    if c.runs.is_power_of_two() { c.sample(format!("{:?} -> {:?} ({:?})", src, lx.toks.iter().map(|t| t.k).collect::<Vec<_>>(), lx.end)); }
    let mut ok = lex_agrees(&lx, &il, a);
    let mut what = String::new();
    if ok && a == Aspect::Tiling { if let Some(m) = tiling(src, &il) { ok = false; what = m; } }
    if ok { return; }
    if c.allows("crlf") {
        let dv = lex(src, LexDev { crlf: true });
        if lex_agrees(&dv, &il, a) { c.known("crlf", src); return; }
    }
    if what.is_empty() {
        let sh = |t: &Tok| if t.s == NOPOS { format!("{:?}", t.k) } else { format!("{:?}@{}..{}{}{}", t.k, t.s, t.e, if t.text.is_empty() { String::new() } else { format!(" {:?}", t.text) }, if t.triv.is_empty() { String::new() } else { format!(" {:?}", t.triv.iter().map(|x| (x.k, x.s, x.e, x.text.as_str())).collect::<Vec<_>>()) }) };
        what = format!("expected [{}] {:?}; got [{}] {:?}", lx.toks.iter().map(sh).collect::<Vec<_>>().join(", "), lx.end, il.toks.iter().map(sh).collect::<Vec<_>>().join(", "), il.stat);
    }
    c.violation("tokens", src, what);
}

/// Every character lies in exactly one token or trivia item, except indentation.
fn tiling(src: &str, il: &ILex) -> Option<String> {
    let c: Vec<char> = src.chars().collect();
    let slice = |s: u32, e: u32| -> String { if s <= e && e as usize <= c.len() { c[s as usize..e as usize].iter().collect() } else { "<out of range>".into() } };
    let mut pos = 0usize;
    let gap = |pos: usize, s: usize| -> Option<String> {
        if s < pos { return Some(format!("item at {} overlaps what ends at {}", s, pos)); }
        if s == pos { return None; }
        let bol = pos == 0 || c[pos - 1] == '\n' || c[pos - 1] == '\r';
        if s > c.len() || !bol || !c[pos..s].iter().all(|x| *x == ' ' || *x == '\t') { return Some(format!("characters {}..{} are in no token or trivia item", pos, s)); }
        None
    };
    for t in &il.toks {
        for x in &t.triv {
            if let Some(m) = gap(pos, x.s as usize) { return Some(m); }
            let sl = slice(x.s, x.e);
            let good = match x.k { TrK::White => !sl.is_empty() && sl.chars().all(|q| x.text.starts_with(q)), _ => sl == x.text };
            if !good { return Some(format!("trivia {:?} at {}..{} stands for {:?}, the source has {:?}", x.k, x.s, x.e, x.text, sl)); }
            pos = x.e as usize;
        }
        if t.s == NOPOS { continue; }
        if let Some(m) = gap(pos, t.s as usize) { return Some(m); }
        let sl = slice(t.s, t.e);
        let good = match t.k {
            K::AtomName | K::AtomNumber | K::TypeComment => sl == t.text,
            K::AtomString => sl == format!("{}{}", t.prefix.clone().unwrap_or_default(), t.text),
            K::Newline => sl == [t.nl.0, t.nl.1].iter().filter(|q| **q != ' ').collect::<String>(),
            _ => true,
        };
        if !good { return Some(format!("token {:?} at {}..{} carries {:?}, the source has {:?}", t.k, t.s, t.e, t.text, sl)); }
        if (t.e as usize) < t.s as usize { return Some("token ends before it starts".into()); }
        pos = t.e as usize;
    }
    if il.stat == Stat::Ok && pos != c.len() { return Some(format!("end of file at {} of {}", pos, c.len())); }
    None
}

fn text(c: &mut Ctx, s: &str) { judge_lex(c, s, Aspect::Text) }

const PLAIN: &[(&str, &str)] = &[("", "")];

fn c01(c: &mut Ctx) {
    crate::wider::lexical(c, &mut |c, s| text(c, s));
    crate::more::twins(c, &mut |c, s| text(c, s));
    crate::more::lexical_repeated(c, &mut |c, s| text(c, s));
    crate::more::late(c, &mut |c, s| text(c, s));
    crate::more::distinct(c, &mut |c, s, _| text(c, s));
    let all: Vec<&str> = "* / < > = ! - + % @ & | ^ ~ : . , ; $ ? ` a 1".split(' ').chain([" "]).collect();
    let n = c.q(5, 6);
    strings(c, "operator characters", &all, n, PLAIN, &mut text);
    let core = ["*", "/", "<", ">", "=", "!", "-", ".", ":", "a", "1"];
    let n = c.q(6, 7);
    strings(c, "characters of long operators", &core, n, PLAIN, &mut text);
    let n = c.q(4, 5);
    strings(c, "operator characters in context", &all, n, &[("a", "b"), ("(", ")"), ("\n", "\n"), ("x ", " y"), ("1", "2"), ("'s'", "'t'"), ("if a:\n ", "\n"), ("a\\\n", "\\\nb"), ("[\n", "\n]"), ("# c\n", "# d"), (")", ""), ("\t", "\t")], &mut text);
    // every operator next to every other, in every spacing, and every single character
    let ops: Vec<&str> = OPERATORS.iter().map(|x| x.0).filter(|x| *x != "\0").chain(["(", ")", "[", "]", "{", "}", "a", "1", "'s'", "not", "1.", "# c\n", "\n", "\\\n"]).collect();
    let mut v = vec![];
    for a in &ops { for b in &ops { for sep in ["", " ", "\t", "\\\n"] { v.push(format!("{}{}{}", a, sep, b)); v.push(format!("({}{}{}", a, sep, b)); v.push(format!("({}{}{}x", a, sep, b)); } } }
    for a in &ops { for b in &ops { for d in &ops { v.push(format!("{}{}{}", a, b, d)); } } }
    list(c, "operator pairs and triples", &v, 500, &mut |c, s| text(c, s));
    let mut v = vec![];
    for u in (1u32..0x300).chain([0x20ac, 0x3000, 0x2028, 0xfeff, 0x1f600, 0x10ffff, 0xffff, 0xe000]) {
        let ch = match char::from_u32(u) { Some(x) => x, None => continue };
        // what counts as a letter outside ASCII is not part of this property; control characters used as white space by Python neither
        if (ch.is_alphanumeric() && !ch.is_ascii()) || ch == '\u{c}' { continue; }
        for (a, b) in [("", ""), ("a", ""), ("", "a"), ("(", ")"), ("a ", " b"), ("=", "="), ("\n", "\n"), ("1", "1")] { v.push(format!("{}{}{}", a, ch, b)); }
    }
    list(c, "every character up to U+02FF", &v, 200, &mut |c, s| text(c, s));
    // in brackets, at every depth
    let mut v = vec![];
    for o in &ops { for n in (1..c.q(40, 140)).chain([199, 255, 256, 257]) { for (a, b) in [("(", ")"), ("[", "]"), ("{", "}")] { v.push(format!("{}{}{}", a.repeat(n), o, b.repeat(n))); v.push(format!("{} a{}b", "([{".repeat(n), o)); } } }
    list(c, "in brackets, at every depth", &v, 200, &mut |c, s| text(c, s));
    // far into a long source
    let mut v = vec![];
    for o in &ops { for n in [255usize, 256, 4095, 65534, 65535, 65536, 70000] { v.push(format!("{}{}{}", "x".repeat(n), o, o)); } }
    list(c, "far offsets", &v, 20, &mut |c, s| text(c, s));
}

fn c02(c: &mut Ctx) {
    crate::wider::lexical(c, &mut |c, s| text(c, s));
    crate::more::twins(c, &mut |c, s| text(c, s));
    crate::more::lexical_repeated(c, &mut |c, s| text(c, s));
    crate::more::late(c, &mut |c, s| text(c, s));
    crate::more::distinct(c, &mut |c, s, _| text(c, s));
    let n = c.q(6, 7);
    strings(c, "word characters", &["a", "Z", "_", "0", "é", "中", " ", "."], n, PLAIN, &mut text);
    let word: Vec<String> = (b'a'..=b'z').chain(b'A'..=b'Z').chain(b'0'..=b'9').map(|b| (b as char).to_string()).chain(["_".to_string(), "é".into()]).collect();
    let word: Vec<&str> = word.iter().map(|s| s.as_str()).collect();
    strings(c, "all words", &word, 3, &[("", ""), ("x ", " y")], &mut text);
    if c.thorough() {
        let low: Vec<&str> = word[..26].to_vec();
        strings(c, "all lower-case words", &low, 5, PLAIN, &mut text);
    }
    // the neighbourhood of every keyword
    let mut v: Vec<String> = vec![];
    let mut near: Vec<String> = vec![];
    for (k, _) in KEYWORDS.iter() {
        let ch: Vec<char> = k.chars().collect();
        near.push(k.to_string());
        for i in 0..=ch.len() {
            for w in &word { near.push(format!("{}{}{}", &k[..i], w, &k[i..])); if i < ch.len() { near.push(format!("{}{}{}", &k[..i], w, &k[i + 1..])); } }
            if i < ch.len() {
                near.push(format!("{}{}", &k[..i], &k[i + 1..]));
                for j in 0..i { let mut d = ch.clone(); d.swap(i, j); near.push(d.iter().collect()); }
            }
        }
        near.push(k.to_uppercase());
        near.push(k.to_lowercase());
        for i in 0..ch.len() { let mut d = ch.clone(); d[i] = if d[i].is_uppercase() { d[i].to_ascii_lowercase() } else { d[i].to_ascii_uppercase() }; near.push(d.iter().collect()); }
        for (q, _) in KEYWORDS.iter() { for s in ["", "_", "0", " ", ".", "(", "\t", "\\\n", "=", ","] { v.push(format!("{}{}{}", k, s, q)); } }
        for n in 1..4 { near.push(k.repeat(n)); }
        for i in 1..ch.len() { near.push(format!("{} {}", &k[..i], &k[i..])); near.push(format!("{}\\\n{}", &k[..i], &k[i..])); }
    }
    for x in &near { for (a, b) in [("", ""), ("x ", " y"), ("(", ")"), ("\n", "\n"), (".", "."), ("1 ", "+1"), ("if a:\n  ", "\n"), ("", ":"), ("'s'", "'t'"), ("[\n", "]"), ("", "#"), ("a=", ";")] { v.push(format!("{}{}{}", a, x, b)); } }
    list(c, "keywords and their neighbours", &v, 500, &mut |c, s| text(c, s));
    let mut v = vec![];
    for n in (1..300).chain([1000, 65535, 65536, 65537, 70001]) { for w in ["a", "_", "é", "if", "x1"] { v.push(format!("{} b", w.repeat(n))); v.push(format!("{}\nb", w.repeat(n))); } }
    list(c, "long words", &v, 20, &mut |c, s| text(c, s));
    let mut v = vec![];
    for p in ["", "r", "R", "u", "U", "b", "B", "f", "F", "br", "bR", "Br", "BR", "rb", "rB", "Rb", "RB", "fr", "fR", "Fr", "FR", "rf", "rF", "Rf", "RF"] {
        for w in &word { for q in ["'", "\"", " ", "("] { v.push(format!("{}{}{}x{}", p, w, q, q)); v.push(format!("{}{}{}x{}", w, p, q, q)); } }
        for (k, _) in KEYWORDS.iter() { v.push(format!("{}{}", p, k)); v.push(format!("{}{}", k, p)); v.push(format!("{}{}'s'", k, p)); v.push(format!("{}{}'s'", p, k)); v.push(format!("{} {}'s'", k, p)); }
    }
    list(c, "words around string prefixes", &v, 500, &mut |c, s| text(c, s));
    let mut v = vec![];
    for u in "éßæøåñüλΩжя中日あ한ªµ".chars() { for s in ["@", "@@", "a@", "@a", "@1", "_@", "if@", "@if", "1 @", "@.@"] { v.push(s.replace('@', &u.to_string())); } }
    // decimal digits of other scripts continue a word
    for u in "٣०３߁๕".chars() { for s in ["a@", "a@b", "_@", "é@é", "if@", "a@@1_@", "x.a@(", "@", "1 @", "a @", "n0@c"] { v.push(s.replace('@', &u.to_string())); } }
    list(c, "letters outside ASCII", &v, 50, &mut |c, s| text(c, s));
}

fn c03(c: &mut Ctx) {
    crate::wider::lexical(c, &mut |c, s| text(c, s));
    crate::more::twins(c, &mut |c, s| text(c, s));
    crate::more::lexical_repeated(c, &mut |c, s| text(c, s));
    crate::more::late(c, &mut |c, s| text(c, s));
    crate::more::distinct(c, &mut |c, s, _| text(c, s));
    let ctxs: &[(&str, &str)] = &[("", ""), ("(", ")"), ("x = ", "\n")];
    let n = c.q(6, 7);
    strings(c, "decimal literals", &["0", "1", "9", "_", ".", "e", "+", "-", "j"], n, ctxs, &mut text);
    let n = c.q(7, 8);
    strings(c, "zeros, dots and exponents", &["0", "7", "_", ".", "e", "j"], n, PLAIN, &mut text);
    let n = c.q(8, 9);
    strings(c, "leading zeros", &["0", "_", "1", "j", "."], n, PLAIN, &mut text);
    let n = c.q(5, 6);
    strings(c, "hexadecimal bodies", &["0", "9", "a", "F", "g", "_", ".", "x", "L"], n, &[("0x", ""), ("0X", " "), ("-0x", ")"), ("0x_", "")], &mut text);
    let n = c.q(6, 7);
    strings(c, "octal bodies", &["0", "7", "8", "_", ".", "o", "a"], n, &[("0o", ""), ("0O", " "), ("0o_", "")], &mut text);
    strings(c, "binary bodies", &["0", "1", "2", "_", ".", "b", "9"], n, &[("0b", ""), ("0B", " "), ("0b_", "")], &mut text);
    let n = c.q(6, 7);
    strings(c, "exponents", &["0", "5", "_", "+", "-", "e", "E", "J", "."], n, &[("1e", ""), ("1.5E", ""), (".5e", "\n"), ("1_0.e", ""), ("0e", ""), ("00.e", "")], &mut text);
    let n = c.q(5, 6);
    strings(c, "everything", &["0", "1", "8", "_", ".", "e", "E", "+", "j", "J", "x", "X", "o", "O", "b", "B", "a", "f", " "], n, PLAIN, &mut text);
    let n = c.q(5, 6);
    strings(c, "after other tokens", &["0", "1", "_", ".", "e", "j", "x"], n, &[("a", ""), ("a.", ""), (".", ""), ("..", ""), ("...", ""), ("1", ""), ("'s'", ""), ("-", "-1"), ("1 ", " 1"), ("[", ":]"), ("1if ", ""), ("\n", "\r"), ("x=", ";y"), ("(\n", "\n)"), ("if a:\n\t", "\n")], &mut text);
    let mut v = vec![];
    for (n, w) in (1..130).chain([1000, 4000]).flat_map(|n| ["1", "0", "1_", "9", "f", "7"].iter().map(move |w| (n, *w))) {
        for (a, b) in [("", ""), ("", "1"), ("0x", "1"), ("0o", "1"), ("0b", "1"), ("1.", ""), ("1.", "1"), (".", "5"), ("1e", "1"), ("1e-", "5"), ("1", "j"), ("1", ".5e5j"), ("0", ".5"), ("1", "e5"), ("0x", ""), ("0b", "")] { v.push(format!("{}{}{}", a, w.repeat(n), b)); }
    }
    for n in [65535usize, 65536, 70000] { v.push("1".repeat(n)); v.push("0".repeat(n)); v.push(format!("0x{} f", "f".repeat(n))); v.push(format!("1.{}\n", "0_1".repeat(n))); v.push(format!("x{}", " 1".repeat(n))); }
    list(c, "long literals", &v, 20, &mut |c, s| text(c, s));
    let lits = ["0", "00", "0_0", "1", "10", "1_0", "0x1F", "0X_f", "0o17", "0b1", "1.", ".5", "1.5", "0.", "0.0", "1e5", "1E+5", "1.e-5", ".5e5", "0e0", "1j", "0j", "1.5J", "1e5j", "00j", "01.5", "01e1", "01j", "1_0.0_1e1_0j"];
    let foll: Vec<String> = (1u32..0x100).filter_map(char::from_u32).filter(|x| !x.is_alphabetic() || x.is_ascii()).filter(|x| *x != '\u{c}').map(|x| x.to_string()).chain(["if x", "or y", "and z", "in w", "is v", "else u", "not in t", "for s", "..", "...", ".a", ".e1", "e", "e+", "e+1", "_1", "__", "\\\n1", "\r\n", "\n\n"].iter().map(|s| s.to_string())).collect();
    let mut v = vec![];
    for l in lits { for f in &foll { v.push(format!("{}{}", l, f)); v.push(format!("({}{})", l, f)); v.push(format!("{} {}", l, f)); } }
    list(c, "literals followed by every character", &v, 300, &mut |c, s| text(c, s));
    let tails = ["", " ", "+1", "-1", "+", "-", ".", ".a", "..", ".5", "e", "e1", "E+1", "e-1_0", "e_1", "j", "J", "_", "_1", "__1", "a", "f", "g", "x", "8", "2", "9", "l", "L", "if", "or", "in", "is", "and", "else", "not", "for", "'s'", "\n", "\r\n", "\\\n", "#", ")", ":", ",1", "=", "*", "**", "//", "@", "$", "é"];
    let most = c.q(40, 140);
    let mut v = vec![];
    for n in (1..=most).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        for (a, ws) in [("", &["1", "9", "0", "1_", "10", "_1"][..]), ("0x", &["1", "f", "0", "a_", "E"][..]), ("0X_", &["9", "F", "e"][..]), ("0o", &["1", "7", "0", "7_"][..]), ("0b", &["1", "0", "1_"][..]), ("1.", &["1", "0", "5_", "_5"][..]), (".", &["5", "0", "1_"][..]), ("1e", &["1", "0", "1_"][..]), ("1E+", &["9", "0_"][..]), (".1e-", &["5"][..]), ("0", &["0", "_0"][..])] {
            for w in ws { let b = format!("{}{}", a, w.repeat(n)); let b2 = b.trim_end_matches('_').to_string(); for t in tails { v.push(format!("{}{}", b, t)); if b2 != b { v.push(format!("{}{}", b2, t)); } } }
        }
    }
    list(c, "digit runs of every length followed by every tail", &v, 500, &mut |c, s| text(c, s));
}

fn c04(c: &mut Ctx) {
    crate::wider::lexical(c, &mut |c, s| text(c, s));
    crate::more::twins(c, &mut |c, s| text(c, s));
    crate::more::lexical_repeated(c, &mut |c, s| text(c, s));
    crate::more::late(c, &mut |c, s| text(c, s));
    crate::more::distinct(c, &mut |c, s, _| text(c, s));
    let n = c.q(7, 8);
    strings(c, "quotes and escapes", &["'", "\"", "\\", "\n", "a", "r"], n, PLAIN, &mut text);
    let n = c.q(7, 8);
    strings(c, "single-quoted bodies", &["'", "\\", "\n", "\r", "a", "#", "("], n, &[("'", ""), ("x = '", "'"), ("r'", "'\n")], &mut text);
    strings(c, "double-quoted bodies", &["\"", "\\", "\n", "\r", "'", "b", ")"], n, &[("\"", ""), ("(\"", "\")"), ("B\"", "\"\n")], &mut text);
    let n = c.q(7, 8);
    strings(c, "triple-quoted bodies", &["'", "\\", "\n", "\r", "\"", "a"], n, &[("'''", ""), ("'''", "'''"), ("f'''", "''' x"), ("(\n'''", "''')\n")], &mut text);
    strings(c, "triple double-quoted bodies", &["\"", "\\", "\n", "'", "é", "#"], n, &[("\"\"\"", ""), ("\"\"\"", "\"\"\""), ("Rb\"\"\"", "\"\"\" x")], &mut text);
    let n = c.q(6, 7);
    strings(c, "strings among other tokens", &["'", "\"", "b", "(", ")", "\n", "\\", " "], n, PLAIN, &mut text);
    // all words of up to three prefix letters, before every kind of literal
    let al = ["r", "R", "b", "B", "u", "U", "f", "F", "a", "_", "t"];
    let lits = ["'x'", "\"x\"", "'''x'''", "\"\"\"x\"\"\"", "''", "\"\"", "''''''", "'\\''", "\"\\\"\"", "'\\\n'", "'''\n'''", "'", "'''", "'x\n'", "'\"'", "'\\\\'", "\"\\\\\"y\""];
    let mut words: Vec<String> = vec!["".into()];
    let mut cur = words.clone();
    for _ in 0..3 { let mut nx = vec![]; for w in &cur { for a in al { nx.push(format!("{}{}", w, a)); } } words.extend(nx.iter().cloned()); cur = nx; }
    let mut v = vec![];
    for w in &words { for l in lits { for (a, b) in [("", ""), ("x ", " y"), ("(", ")"), ("=", "\n"), ("1 ", "'z'")] { v.push(format!("{}{}{}{}", a, w, l, b)); } } }
    list(c, "prefixes", &v, 500, &mut |c, s| text(c, s));
    let mut v = vec![];
    for n in (0..70).chain([255, 256, 257, 65533, 65536, 70000]) {
        for (a, w, b) in [("'", "a", "'"), ("\"", "\\n", "\""), ("'''", "\n", "'''"), ("'''", "'\\", "'''"), ("'", "\\'", "'"), ("\"\"\"", "\"'", " \"\"\""), ("rb'", "é", "'"), ("'", "\\\n", "'"), ("'", "\\\\", "'"), ("'", "#(", "'")] {
            v.push(format!("{}{}{} + b", a, w.repeat(n), b));
            v.push(format!("f({}{}{})\n", a, w.repeat(n), b));
            v.push(format!("{}{}", a, w.repeat(n)));
        }
    }
    list(c, "long strings", &v, 20, &mut |c, s| text(c, s));
    let mut v = vec![];
    for u in (1u32..0x180).filter_map(char::from_u32).chain(['\u{20ac}', '\u{3000}', '\u{1f600}', '\u{2028}', '\u{ffff}', '中']) {
        for (a, b) in [("'", "'"), ("\"", "\""), ("'''", "'''"), ("'\\", "'"), ("\"\\", "\""), ("'''\\", "'''"), ("r'\\", "'"), ("b\"", "\" 1"), ("'a", "b' c")] { v.push(format!("{}{}{}", a, u, b)); }
    }
    list(c, "every character inside a string", &v, 200, &mut |c, s| text(c, s));
    // line ends inside strings
    let ends = ["\n", "\r", "\r\n", "\\\n", "\\\r", "\\\r\n", "\\\\\n", "\\\\\\\n", "\n\r", "\\\n\n"];
    let mut v = vec![];
    for e in ends { for f in ends { for q in ["'", "\"", "'''", "\"\"\""] { for p in ["", "r", "b", "f"] { v.push(format!("{}{}a{}b{}c{} + d\n", p, q, e, f, q)); v.push(format!("{}{}{}{}{}", p, q, e, f, q)); v.push(format!("{}{}{}", p, q, e)); } } } }
    list(c, "line breaks inside strings", &v, 200, &mut |c, s| text(c, s));
}

fn tiles(c: &mut Ctx, s: &str) { judge_lex(c, s, Aspect::Tiling) }

fn c05(c: &mut Ctx) {
    crate::wider::lexical(c, &mut |c, s| tiles(c, s));
    crate::more::twins(c, &mut |c, s| tiles(c, s));
    crate::more::lexical_repeated(c, &mut |c, s| tiles(c, s));
    crate::more::late(c, &mut |c, s| tiles(c, s));
    crate::more::distinct(c, &mut |c, s, _| tiles(c, s));
    let n = c.q(4, 6);
    crate::wider::trivia(c, n, crate::wider::LAYOUT, crate::wider::PLACES, &mut |c, s| tiles(c, s));
    let n = c.q(7, 8);
    strings(c, "layout characters", &["a", " ", "\t", "\n", "#", "\\"], n, PLAIN, &mut tiles);
    let n = c.q(7, 8);
    strings(c, "layout characters in brackets", &["a", " ", "\t", "\n", "#", "(", ")"], n, PLAIN, &mut tiles);
    let n = c.q(7, 8);
    strings(c, "CR LF", &["a", "\r\n", "\n", "(", ")", " ", "#", "\\\r\n", "'''\r\n'''"], n - 1, PLAIN, &mut tiles);
    strings(c, "line ends", &["a", " ", "\n", "\r", "#", "\\\n", "\\\r"], n, PLAIN, &mut tiles);
    let n = c.q(6, 7);
    strings(c, "between tokens", &[" ", "\t", "  ", "\\\n", "\\\r", "a", "="], n, &[("x", "y"), ("(", ")"), ("x", "\n"), ("if a:\n ", "\n")], &mut tiles);
    let n = c.q(6, 7);
    strings(c, "lines", &["a\n", " a\n", "  a\n", "\n", " \n", "\t\n", "# c\n", "  # c\n", "a # c\n", "(\n", ")\n", "\t\ta\n"], n, PLAIN, &mut tiles);
    strings(c, "lines without end", &["a", "\n ", "\n\t", "\n", "#c", "\n  ", "\\\n ", "[", "]"], n, &[("", ""), ("if a:\n  b", "")], &mut tiles);
    let n = c.q(5, 6);
    strings(c, "all token kinds", &["a", "1", "'s'", "+", "**=", "(", ")", " ", "\t", "\n", "#", "\"\"\"\n\"\"\"", "if", "\\\n", "# type: x"], n, PLAIN, &mut tiles);
    let n = c.q(5, 6);
    strings(c, "comments", &["#", " ", "t", "\t", "\"", "(", "\\", "\n", "é", "# type: y"], n, &[("", ""), ("a", "\nb"), ("#", "\n"), ("(", ")"), (" ", "")], &mut tiles);
    let mut v = vec![];
    for n in (0..140).chain([255, 256, 65535, 65536, 70000]) {
        for w in [" ", "\t", "#", "# ", "\n", "\\\n", " \t", "\t ", "#\n", " \n", "\r"] { for (a, b) in [("", ""), ("a", "b"), ("(", ")"), ("a\n", "b"), ("if a:\n  b\n", "c"), ("x", "\n")] { v.push(format!("{}{}{}", a, w.repeat(n), b)); } }
    }
    list(c, "long layout", &v, 50, &mut |c, s| tiles(c, s));
    // every kind of token after every short sequence of trivia
    let mut items: Vec<String> = OPERATORS.iter().map(|x| x.0.to_string()).filter(|x| x != "\0").collect();
    items.extend(KEYWORDS.iter().map(|x| x.0.to_string()));
    items.extend(["a", "é1", "0", "0x1", "0b1", "0o7", "1.5", ".5", "1e5", "1j", "00", "0.", "'s'", "\"s\"", "''", "\"\"", "'''s'''", "\"\"\"s\"\"\"", "r's'", "rb''", "f'''s'''", "B\"\"\"s\"\"\"", "# type: x", "(", ")", "[", "]", "{", "}", "\n", "\r", ""].iter().map(|s| s.to_string()));
    let tr = [" ", "\t", "\\\n", "\\\r", "# c\n", "\n", "\r", "   "];
    let mut seqs: Vec<String> = vec!["".into()];
    let mut cur = seqs.clone();
    for _ in 0..c.q(3, 4) { let mut nx = vec![]; for w in &cur { for a in tr { nx.push(format!("{}{}", w, a)); } } seqs.extend(nx.iter().cloned()); cur = nx; }
    let mut v = vec![];
    for i in &items { for q in &seqs { for (a, b) in [("x", ""), ("(", ""), ("", " y"), ("[x", "]\n"), ("if a:\n b\n", "\n")] { v.push(format!("{}{}{}{}", a, q, i, b)); } } }
    list(c, "every kind of token after every sequence of trivia", &v, 500, &mut |c, s| tiles(c, s));
    let mut p = programs();
    let q: Vec<String> = p.iter().map(|s| s.replace('\n', "\r")).collect();
    p.extend(q);
    comment_texts(c, &mut |c, s| tiles(c, s));
    list(c, "programs", &p, 20, &mut |c, s| tiles(c, s));
}

fn newlines(c: &mut Ctx, s: &str) { judge_lex(c, s, Aspect::Newlines) }

fn c06(c: &mut Ctx) {
    crate::wider::lexical(c, &mut |c, s| newlines(c, s));
    crate::more::twins(c, &mut |c, s| newlines(c, s));
    crate::more::lexical_repeated(c, &mut |c, s| newlines(c, s));
    crate::more::late(c, &mut |c, s| newlines(c, s));
    crate::more::distinct(c, &mut |c, s, _| newlines(c, s));
    let n = c.q(4, 6);
    crate::wider::trivia(c, n, crate::wider::LAYOUT, crate::wider::PLACES, &mut |c, s| newlines(c, s));
    newlines(c, "a\r\nb\n");
    let n = c.q(8, 9);
    strings(c, "line breaks", &["a", "\n", "\r", " ", "#", "\\"], n, PLAIN, &mut newlines);
    let n = c.q(8, 9);
    strings(c, "line breaks in brackets", &["a", "\n", "(", ")", "#", " ", "\\\n"], n, PLAIN, &mut newlines);
    let n = c.q(6, 7);
    strings(c, "CR LF", &["a", "\r\n", "\n", "(", ")", " ", "#", "\\\r\n", "b"], n, PLAIN, &mut newlines);
    let n = c.q(6, 7);
    strings(c, "lines", &["a\n", "  b\n", "\n", " \n", "# c\n", "(\n", ")\n", "\\\n", "a\\\n", "a\r", "'''\n'''\n", "c"], n, PLAIN, &mut newlines);
    strings(c, "brackets of all kinds", &["[", "]", "{", "}", "\n", "a", "\r"], n + 1, PLAIN, &mut newlines);
    let n = c.q(6, 7);
    strings(c, "missing line break at the end", &["a", " ", "\t", "#", "\n", "\\\n", "  b", ")"], n, &[("x", ""), ("if a:\n  b", ""), ("(", ""), ("# c", ""), ("\n", "")], &mut newlines);
    let mut v = vec![];
    for n in (0..100).chain([256, 65536]) { for w in ["\n", "\r", "a\n", "# c\n", " \n", "\\\n", "(\n"] { for (a, b) in [("", ""), ("a", "b"), ("a\n", "b\n"), ("(", ")\n"), ("if a:\n b\n", "c\n")] { v.push(format!("{}{}{}", a, w.repeat(n), b)); } } }
    list(c, "many line breaks", &v, 50, &mut |c, s| newlines(c, s));
    let mut p = vec![];
    for s in programs() { p.push(s.replace('\n', "\r")); p.push(s.trim_end_matches('\n').to_string()); p.push(s); }
    comment_texts(c, &mut |c, s| newlines(c, s));
    list(c, "programs", &p, 20, &mut |c, s| newlines(c, s));
}

fn indents(c: &mut Ctx, s: &str) { judge_lex(c, s, Aspect::Indents) }

fn c07(c: &mut Ctx) {
    crate::wider::lexical(c, &mut |c, s| indents(c, s));
    crate::more::twins(c, &mut |c, s| indents(c, s));
    crate::more::lexical_repeated(c, &mut |c, s| indents(c, s));
    crate::more::late(c, &mut |c, s| indents(c, s));
    crate::more::distinct(c, &mut |c, s, _| indents(c, s));
    let n = c.q(4, 6);
    crate::wider::trivia(c, n, crate::wider::LAYOUT, crate::wider::PLACES, &mut |c, s| indents(c, s));
    comment_texts(c, &mut |c, s| indents(c, s));
    let n = c.q(6, 7);
    strings(c, "columns in spaces", &["a\n", " a\n", "  a\n", "   a\n", "    a\n", "\n", "  \n", " # c\n"], n, PLAIN, &mut indents);
    let n = c.q(6, 7);
    strings(c, "tabs", &["a\n", "\ta\n", " \ta\n", "    a\n", "   \ta\n", "\t a\n", "\t\ta\n", "        a\n", "     a\n"], n, PLAIN, &mut indents);
    let n = c.q(5, 6);
    let mut col: Vec<String> = vec![];
    for k in 0..=9 { col.push(format!("{}a\n", " ".repeat(k))); }
    for t in ["\t", "\t\t", " \t", "  \t", "   \t", "    \t", "\t ", "\t  ", "\t    ", " \t \t"] { col.push(format!("{}a\n", t)); }
    let colr: Vec<&str> = col.iter().map(|s| s.as_str()).collect();
    strings(c, "all columns", &colr, n, PLAIN, &mut indents);
    let n = c.q(6, 7);
    strings(c, "brackets and continuation lines", &["a\n", "  a\n", "    b\n", "(\n", ")\n", "  (\n", "    )\n", "a\\\n", " \\\n", "\n", "   # c\n"], n, PLAIN, &mut indents);
    let n = c.q(8, 9);
    strings(c, "characters", &["a", " ", "\n", "\t", "(", ")"], n, PLAIN, &mut indents);
    let n = c.q(7, 8);
    strings(c, "characters after an indent", &["a", " ", "\n", "\t", "#", "\\\n", "\r"], n, &[("if a:\n  b\n", ""), ("a\n b\n", "c\n")], &mut indents);
    let n = c.q(7, 8);
    strings(c, "without a line break at the end", &["a", "\n", "\n ", "\n  ", "\n   ", "\n#", "\n\t"], n, PLAIN, &mut indents);
    let n = c.q(5, 6);
    strings(c, "other line breaks", &["a\r", " a\r", "  a\n", "a\n", "\r", " \r", "  \n", "   a\r", "'''\n x'''\n", "  '''\nx'''\r"], n, PLAIN, &mut indents);
    // below blocks of every depth, two more lines indented by every mix of spaces and tabs
    let mixes: Vec<String> = { let mut o: Vec<String> = vec!["".into()]; let mut cur = o.clone(); for _ in 0..c.q(5, 7) { let mut nx = vec![]; for w in &cur { for b in [" ", "\t"] { nx.push(format!("{}{}", w, b)); } } o.extend(nx.iter().cloned()); cur = nx; } for k in 5..26 { o.push(" ".repeat(k)); o.push(format!("{}\t", " ".repeat(k))); } for k in 5..9 { o.push("\t".repeat(k)); } o };
    let mut v = vec![];
    for step in [" ", "  ", "    ", "\t", "        "] {
        for n in 0..c.q(7, 12) {
            let s: String = (0..=n).map(|i| format!("{}a\n", step.repeat(i))).collect();
            for x in &mixes {
                for y in &mixes { if c.thorough() || x.len() < 5 || y.len() < 3 || y == x { v.push(format!("{}{}b\n{}c\n", s, x, y)); } }
                for b in ["\n", "# c\n", "\n\t\n", "  # c\n\n"] { v.push(format!("{}{}{}{}b\nc\n", s, x, b, x)); }
                v.push(format!("{}{}b", s, x));
                v.push(format!("{}{}# c", s, x));
            }
        }
    }
    list(c, "mixes of spaces and tabs below blocks of every depth", &v, 500, &mut |c, s| indents(c, s));
    // blocks one in the other, something between, and back to every level
    let mut v = vec![];
    let between = ["", "\n", "#\n", "# c\n", "    # c\n", "\n\n", " \n", "\t\n", "#\n#\n", "(\n)\n", "\\\n", "#\r", "\r", "'''\n'''\n", "a\\\n", "# c\n\n  # d\n"];
    for n in 1..c.q(28, 70) {
        for step in [" ", "    ", "\t"] {
            let s: String = (0..n).map(|i| format!("{}if a:\n", step.repeat(i))).collect::<String>() + &step.repeat(n) + "x\n";
            for m in 0..=n {
                for (k, b) in between.iter().enumerate() {
                    v.push(format!("{}{}{}b\n", s, b, step.repeat(m)));
                    if k < 5 { v.push(format!("{}{}{}b\n{}c\n", s, b, step.repeat(m), step.repeat(m / 2))); v.push(format!("{}{}{}if b:\n{}c\n{}d", s, b, step.repeat(m), step.repeat(m + 1), b)); }
                }
            }
            // the same between the headers
            for b in between { let t: String = (0..n).map(|i| format!("{}if a:\n{}", step.repeat(i), b)).collect::<String>() + &step.repeat(n) + "x\n"; v.push(t.clone()); v.push(format!("{}{}b\n", t, b)); v.push(format!("{}{}{}b\n{}c", t, b, step.repeat(n / 2), b)); }
        }
    }
    list(c, "blocks one in the other, layout, and back to every level", &v, 100, &mut |c, s| indents(c, s));
    // stairs: up to n levels, then back to every level, with every step width
    let mut v = vec![];
    for n in (1..40).chain([63, 64, 65, 99, 100, 101, 127, 128, 200]) {
        for step in [" ", "  ", "    ", "\t", " \t"] {
            let mut s = String::new();
            for i in 0..n { s.push_str(&step.repeat(i)); s.push_str("a\n"); }
            for back in (0..n).filter(|b| n < 30 || b % 7 == 0 || *b + 2 > n) {
                v.push(format!("{}{}b\n", s, step.repeat(back)));
                v.push(format!("{}{}b\n{}c\n", s, step.repeat(back), step.repeat(back / 2)));
                if n < 20 { v.push(format!("{}{} b\n", s, step.repeat(back))); }
                v.push(format!("{}{}b", s, step.repeat(back)));
            }
            v.push(s.clone());
            v.push(s.trim_end().to_string());
            v.push(format!("{}\n\n# c\n", s));
        }
    }
    for w in [63usize, 64, 127, 128, 255, 256, 257, 1000, 65535, 65536] { let s = " ".repeat(w); v.push(format!("a\n{}b\n{}c\nd\n", s, s)); v.push(format!("a\n{}b\n{} c\n{}d\ne\n", s, s, s)); v.push(format!("a\n{}b\n c\n", s)); }
    list(c, "stairs", &v, 50, &mut |c, s| indents(c, s));
    list(c, "programs", &programs(), 20, &mut |c, s| indents(c, s));
}

fn brackets(c: &mut Ctx, s: &str) { if !s.contains("\r\n") { judge_lex(c, s, Aspect::Brackets) } }

fn c08(c: &mut Ctx) {
    crate::wider::lexical(c, &mut |c, s| brackets(c, s));
    crate::more::twins(c, &mut |c, s| brackets(c, s));
    crate::more::lexical_repeated(c, &mut |c, s| brackets(c, s));
    crate::more::late(c, &mut |c, s| brackets(c, s));
    crate::more::distinct(c, &mut |c, s, _| brackets(c, s));
    let n = c.q(4, 6);
    crate::wider::trivia(c, n, crate::wider::LAYOUT, crate::wider::PLACES, &mut |c, s| brackets(c, s));
    let n = c.q(8, 9);
    strings(c, "brackets", &["(", ")", "[", "]", "{", "}"], n, PLAIN, &mut brackets);
    let n = c.q(7, 8);
    strings(c, "brackets and lines", &["(", ")", "[", "]", "{", "}", "\n", "a", " "], n, PLAIN, &mut brackets);
    let n = c.q(8, 9);
    strings(c, "one kind, lines and indentation", &["(", ")", "\n", "  ", "a", "#"], n, PLAIN, &mut brackets);
    let n = c.q(6, 7);
    strings(c, "brackets in strings and comments", &["(", ")", "]", "'('", "\")\"", "# (\n", "\n", "\\\n", "'''\n'''", "a"], n, PLAIN, &mut brackets);
    let n = c.q(6, 7);
    strings(c, "brackets in blocks", &["(", ")", "[", "]", "\n", "\n  ", "\n    ", "a"], n, &[("if a:\n  b", ""), ("if a:\n  b\n", "\nc\n"), ("if a:\n  (", "\n")], &mut brackets);
    // one other token at every place of every short sequence of brackets
    let mut w: Vec<String> = vec!["".into()];
    let mut cur = w.clone();
    for _ in 0..c.q(4, 5) { let mut nx = vec![]; for x in &cur { for b in ["(", ")", "[", "]", "{", "}"] { nx.push(format!("{}{}", x, b)); } } w.extend(nx.iter().cloned()); cur = nx; }
    let mut other: Vec<String> = OPERATORS.iter().map(|x| x.0.to_string()).filter(|x| x != "\0" && !"()[]{}".contains(x.as_str())).collect();
    for x in ["a", "1", "'s'", "if", "lambda", "\n", "\n  ", "\r", "# c\n", "\\\n", "# type: x\n", "'''\n'''", "é", "\t", "$", "0x"] { other.push(x.into()); }
    list(c, "one other token at every place of every short sequence of brackets", &w, 4, &mut |c, w| {
        for t in &other { for i in 0..=w.len() {
            if c.stopped() { return; }
            brackets(c, &format!("{}{}{}", &w[..i], t, &w[i..]));
            brackets(c, &format!("if a:\n  {}{}{}\nb\n", &w[..i], t, &w[i..]));
            brackets(c, &format!("a{}{}a{}\n b", &w[..i], t, &w[i..]));
        } for (i, u) in other.iter().enumerate() { if w.len() < 3 || i % 8 == w.len() { brackets(c, &format!("{}{}{}{}", t, w, u, w)); let k = w.len() / 2; brackets(c, &format!("{}{}a{}{}\nb", &w[..k], t, u, &w[k..])); } } }
    });
    let mut v = vec![];
    for n in (1..140).chain([199, 200, 201, 255, 256, 257, 1000, 65536]) {
        for (o, k) in [("(", ")"), ("[", "]"), ("{", "}"), ("([", "])"), ("([{", "}])"), ("(\n", ")\n"), ("a(", ")"), ("[\n  ", "]")] {
            v.push(format!("{}{}\nb\n", o.repeat(n), k.repeat(n)));
            v.push(format!("{}{}\nb\n", o.repeat(n), k.repeat(n - 1)));
            v.push(format!("{}{}\n  b\n", o.repeat(n), k.repeat(n + 1)));
            v.push(format!("{}{}\nb\n", o.repeat(n), k.repeat(n.saturating_sub(1)) + "}"));
            v.push(format!("{}{}\nb\n", o.repeat(n), "]".to_string() + &k.repeat(n.saturating_sub(1))));
        }
    }
    list(c, "nesting depth", &v, 30, &mut |c, s| brackets(c, s));
    // what is inside a string or a comment closes and opens nothing, whatever is open around it
    let open: Vec<String> = { let mut o: Vec<String> = vec!["".into()]; let mut cur = o.clone(); for _ in 0..c.q(3, 4) { let mut nx = vec![]; for w in &cur { for b in ["(", "[", "{"] { nx.push(format!("{}{}", w, b)); } } o.extend(nx.iter().cloned()); cur = nx; } o };
    let mut open = open;
    for n in 4..c.q(12, 34) { for k in 0..9usize { open.push((0..n).map(|i| ["(", "[", "{"][if k < 3 { k } else if k < 6 { (i + k) % 3 } else { (i * i / 2 + k) % 3 }]).collect()); } }
    let close = |s: &str| -> String { s.chars().rev().map(|x| match x { '(' => ')', '[' => ']', _ => '}' }).collect() };
    let mut v = vec![];
    for o in &open {
        let k = close(o);
        for x in ["(", ")", "[", "]", "{", "}", "()", "[]", "{}", ")(", "][", "([{", "}])", "(]", "\\", "\n", ""] {
            for q in ["'", "\"", "'''", "\"\"\""] { for p in ["", "r", "b", "f", "Rb"] { for y in ["", "x", "\\", "\n", "#"] {
                let l = format!("{}{}{}{}{}{}", p, q, y, x, y, q);
                v.push(format!("{}{}{}\nb\n", o, l, k));
                v.push(format!("{}{}\n a{}\nb\n", o, l, k));
                v.push(format!("if a:\n  {}{},{}{}\nb\n", o, l, l, k));
                v.push(format!("{}{}{}\n  b\n", o, l, &k[..k.len().saturating_sub(1)]));
                v.push(format!("{}{}{})\n", o, l, k));
                v.push(format!("{} {} + {} {}\n c", l, o, k, l));
            } } }
            for y in ["# ", "#", "a # ", "1# '", ", # type: "] {
                v.push(format!("{}{}{}\n{}\nb\n", o, y, x, k));
                v.push(format!("{}\n  {}{}\n  {}\n  b\n", o, y, x, k));
                v.push(format!("{}{}{}{}\nb\n", o, k, y, x));
                v.push(format!("{}{}{}", o, y, x));
            }
        }
    }
    list(c, "brackets inside strings and comments inside open brackets", &v, 500, &mut |c, s| brackets(c, s));
    comment_texts(c, &mut |c, s| brackets(c, s));
    list(c, "programs", &programs(), 20, &mut |c, s| brackets(c, s));
}

/// Comments with every short beginning (and end), in every surrounding.
fn comment_texts(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let al = [" ", ":", "!", "#", "t", "type", "'", "(", ")", "\\", "-", "%", "=", ",", "\t", "\u{e9}"];
    let ctxs: &[(&str, &str)] = &[("#", ""), ("#", "\nb\n"), ("a = b #", "\nc\n"), ("(a, #", "\nb)\nc\n"), ("((a, #", "\nb))\nc\n"), ("f([(a, #", "\nb)])\nc\n"), ("f([{(a, #", "\nb)}])\nc\n"), ("x[f([{(#", "\n)}])]\n"), ("if a:\n  b #", "\n  c\n"), ("if a:\n  #", "\n  c\n"), ("if a:\n#", "\n  b\n#x\nc\n"), ("if a:\n  if b:\n    c\n  #", "\nd\n"), ("def f(): #", "\n  b\n"), ("# #", " :\r"), ("a\\\n #", " x :)\n")];
    let n = c.q(4, 5);
    strings(c, "comments with every short text", &al, n, ctxs, &mut |c, s| f(c, s));
    let al = [" ", ":", "!", "t", "type:", "'", "(", ")", "\\"];
    let n = c.q(4, 5);
    strings(c, "comments with every short end", &al, n, &[("# c", ""), ("a # type", "\nc\n"), ("((((a, # x", "\nb))))\nc\n"), ("if a:\n  (b # x", "\n  ,c)\nd\n"), ("if a:\n# x", "\n  b\nc\n")], &mut |c, s| f(c, s));
}

// =============================================================================== C09

/// Every entry point and the tokenizer come to an end, without a panic, and end of file is final.
fn total(c: &mut Ctx, src: &str) {
    let il = lex_impl(&c.shm, src);
    let lx = lex(src, LexDev::default());
    c.transitions += lx.toks.len() as u64;
    for s in &lx.states { c.state(*s); }
    c.runs += 1;
    let n = src.chars().count();
    match &il.stat {
        Stat::Panic(m) => c.violation("tokens", src, format!("panic {}", m)),
        Stat::Runaway => c.violation("tokens", src, format!("more than {} tokens without an end", il.toks.len())),
        Stat::Ok => {
            c.accepted += 1;
            if !il.final_ok { c.violation("tokens", src, "after end of file something else than end of file was delivered".into()); }
            if il.toks.len() > 2 * n + 4 { c.violation("tokens", src, format!("{} tokens for {} characters", il.toks.len(), n)); }
        }
        Stat::Err => {}
    }
    for m in [Mode::File, Mode::Eval, Mode::Single, Mode::FuncType] {
        let i = parse_impl(&c.shm, src, m, None);
        c.runs += 1;
        if i.stat == Stat::Ok { c.accepted += 1; }
        if let Stat::Panic(p) = &i.stat { c.violation(kind_name(mode_kind(m)), src, format!("panic {}", p)); }
    }
    if c.runs.is_power_of_two() { c.sample(format!("{:?}: {:?}", src, il.stat)); }
}

fn nests() -> Vec<(&'static str, &'static str, &'static str)> {
    vec![
        ("(", "a", ")"), ("[", "a", "]"), ("{", "a", "}"), ("{a: ", "b", "}"), ("f(", "a", ")"), ("a[", "b", "]"), ("-", "a", ""), ("not ", "a", ""), ("~", "a", ""), ("+-", "a", ""),
        ("lambda: ", "a", ""), ("a if b else ", "c", ""), ("a if (", "c", ") else d"), ("a ** ", "b", ""), ("(a, ", "b", ")"), ("[*", "a", "]"), ("{**", "a", "}"), ("f(k=", "a", ")"), ("f(*", "a", ")"),
        ("[a for b in ", "c", "]"), ("(a for b in c if ", "d", ")"), ("{a: ", "b", " for c in d}"), ("a[b:", "c", "]"), ("(a := ", "b", ")"), ("(yield ", "a", ")"), ("await (", "a", ")"), ("(lambda a=", "b", ": c)"),
        ("a + (", "b", ")"), ("a < (", "b", ")"), ("a.b(", "c", ").d"), ("(a and ", "b", ")"), ("'s' if (", "a", ") else 't'"),
    ]
}

pub fn blocks() -> Vec<(&'static str, &'static str)> {
    vec![
        ("if a:\n", ""), ("while a:\n", ""), ("for a in b:\n", ""), ("with a:\n", ""), ("def f():\n", ""), ("class C:\n", ""), ("try:\n", "finally: b\n"), ("try:\n", "except a: b\n"), ("try:\n", "except* a: b\n"), ("try:\n", "except: b\nelse: c\nfinally: d\n"), ("try:\n", "except* a as b: c\nelse: d\n"), ("try: a\nexcept* b:\n", "except* c: d\n"), ("try: a\nexcept b:\n", "except c: d\nfinally: e\n"), ("async def f():\n", ""),
        ("if a: b\nelse:\n", ""), ("if a: b\nelif c:\n", ""), ("try: a\nexcept b:\n", ""), ("try: a\nexcept* b:\n", ""), ("try: a\nexcept b: c\nelse:\n", ""), ("try: a\nfinally:\n", ""), ("while a: b\nelse:\n", ""),
        ("@a\ndef f():\n", ""), ("@a\nclass C:\n", ""), ("async with a:\n", ""), ("async for a in b:\n", ""), ("if a:\n", "else: b\n"), ("for a in b: c\nelse:\n", ""), ("with (a as b):\n", ""),
    ]
}

/// `n` nested copies of a block header, with its trailer lines.
fn nested_block(n: usize, pick: &dyn Fn(usize) -> (&'static str, &'static str)) -> String {
    let mut s = String::new();
    for i in 0..n { for l in pick(i).0.lines() { s.push_str(&" ".repeat(i)); s.push_str(l); s.push('\n'); } }
    s.push_str(&" ".repeat(n));
    s.push_str("x\n");
    for i in (0..n).rev() { for l in pick(i).1.lines() { s.push_str(&" ".repeat(i)); s.push_str(l); s.push('\n'); } }
    s
}

fn tokens_total(c: &mut Ctx, src: &str) {
    let il = lex_impl(&c.shm, src);
    c.runs += 1;
    match &il.stat {
        Stat::Panic(p) => c.violation("tokens", src, format!("panic {}", p)),
        Stat::Runaway => c.violation("tokens", src, "no end".into()),
        Stat::Ok => c.accepted += 1,
        _ => {}
    }
}

fn c09(c: &mut Ctx) {
    for (n, al, k) in [
        ("characters of all kinds", vec!["a", "0", "'", "(", ")", " ", "\n", "#", "\\", ".", "=", "*", ":", "é", "\0", "$", "\r", "\t", "[", "}"], c.q(4, 5)),
        ("quotes, escapes and line ends", vec!["'", "\"", "\\", "\n", "\r", "r", "#", "\0"], c.q(6, 7)),
        ("layout", vec!["a", " ", "\t", "\n", "\r", "(", ")", "\\"], c.q(6, 7)),
        ("numbers", vec!["0", "1", ".", "e", "_", "x", "j", "+"], c.q(6, 7)),
    ] { strings(c, n, &al, k, PLAIN, &mut total); }
    let words = ["if", "else", "for", "in", "def", "class", "try", "except", "with", "as", "import", "from", "lambda", "yield", "async", "await", "match", "case", "not", "return", "del", "raise", "assert", "global", "while", "elif", "finally", "pass", "a", "1", "'s'", "(", ")", "[", "]", "{", "}", ",", ":", "=", "*", "**", "@", "->", ":=", ".", "...", ";", "\n", "\n  ", "# type: x\n", "+=", "-", "!"];
    let sp: Vec<String> = words.iter().map(|w| format!("{} ", w)).collect();
    let sp: Vec<&str> = sp.iter().map(|s| s.as_str()).collect();
    let n = c.q(3, 4);
    strings(c, "sequences of tokens", &sp, n, PLAIN, &mut total);
    strings(c, "sequences of tokens in context", &sp, c.q(2, 3), &[("if a:\n  ", "\n"), ("(", ")"), ("x = ", "\n"), ("def f", ":\n  pass\n"), ("try: a\n", "\n"), ("[a ", "]"), ("lambda ", ": b"), ("{", "}"), ("f(", ")"), ("@", "\n"), ("import ", "\n"), ("class C", ": x\n"), ("match ", ":\n  case ")], &mut total);
    let cuts: Vec<String> = programs().into_iter().flat_map(|p| { let ch: Vec<char> = p.chars().collect(); (0..=ch.len()).map(move |i| ch[..i].iter().collect::<String>()).collect::<Vec<_>>() }).collect();
    list(c, "every prefix of the programs", &cuts, 50, &mut |c, s| total(c, s));
    let dels: Vec<String> = programs().into_iter().flat_map(|p| { let ch: Vec<char> = p.chars().collect(); (0..ch.len()).map(move |i| { let mut d = ch.clone(); d.remove(i); d.into_iter().collect::<String>() }).collect::<Vec<_>>() }).collect();
    list(c, "every program without one character", &dels, 50, &mut |c, s| total(c, s));
    // multi-byte characters at every byte offset of every kind of token
    let mut v = vec![];
    for t in ["# type: int", "# c", "#type:", "'abcdef'", "\"abc\"", "'''abcdef'''", "b'abc'", "abcdef", "nonlocal", "0x1f", "1_0.5e1", "    a", "a\\\n  b", "(a,\n b)", "import a", "match a", "print(a)", "\\\n"] {
        let ch: Vec<char> = t.chars().collect();
        for i in 0..=ch.len() { for u in ["é", "中", "\u{1f600}", "\u{feff}", "\u{301}", "éé", "中é", "\u{85}", "\u{2028}"] { for (a, b) in [("", ""), ("a ", "\n"), ("(", ")"), ("if a:\n  ", "\nb"), ("é = ", "")] {
            let mut d: String = ch[..i].iter().collect(); d.push_str(u); d.extend(&ch[i..]);
            v.push(format!("{}{}{}", a, d, b));
            let mut d: String = ch[..i].iter().collect(); d.push_str(u);
            v.push(format!("{}{}{}", a, d, b));
        } } }
    }
    list(c, "multi-byte characters at every offset of every kind of token", &v, 200, &mut |c, s| total(c, s));
    let uni: Vec<String> = (0u32..0x11000).filter_map(char::from_u32).chain((0x11000u32..0x110000).step_by(c.q(257, 17)).filter_map(char::from_u32)).collect::<Vec<_>>().chunks(1).map(|x| format!("a{}1 {}", x[0], x[0])).collect();
    list(c, "every character of the first 0x11000 and a grid of the rest", &uni, 500, &mut |c, s| total(c, s));
    // long tokens and runs with something unusual late in them, alone and where the grammar does not expect them
    let mut k = 0usize;
    crate::more::late(c, &mut |c, s| {
        k += 1;
        total(c, s);
        if k % 3 == 0 { total(c, &format!("a {}", s)); }
        if k % 3 == 1 { total(c, &format!("x = (b, {} c", s)); }
        if k % 3 == 2 { total(c, &format!("if d:\n  import {}\n", s)); }
    });
    crate::more::lexical_repeated(c, &mut total);
    // many blocks and brackets open at once, only the tokens
    let v: Vec<usize> = (1..=c.q(140, 300)).chain([255, 256, 257, 258, 300, 400, 520]).collect();
    list(c, "hundreds of blocks and thousands of brackets open at once", &v, 4, &mut |c, n| {
        let n = *n;
        for (a, b) in [(" ", "x\n"), (" ", ""), (" ", "(\n"), (" ", "$"), ("\t", "x\n"), ("\t ", "# c\n\nx\n")] {
            let mut s = String::new();
            for i in 0..n { s.push_str(&a.repeat(i)); s.push_str("if a:\n"); }
            s.push_str(&a.repeat(n)); s.push_str("b");
            if a == " " { tokens_total(c, &s); }
            s.push('\n');
            let mut t = s.clone();
            s.push_str(b);
            tokens_total(c, &s);
            for i in (0..n).rev() { t.push_str(&a.repeat(i)); t.push_str("c\n"); }
            if b == "x\n" { tokens_total(c, &t); t.push_str(&s); tokens_total(c, &t); }
        }
        for k in [1, 7, 40] {
            let n = n * k;
            for (o, e) in [("(", ")"), ("[", "]"), ("{", "}"), ("([{", "}])"), ("(a, [\n", "], b)\n")] {
                tokens_total(c, &format!("{}{}\n", o.repeat(n), e.repeat(n)));
                tokens_total(c, &format!("{}{}{}\nx", o.repeat(n), e.repeat(n), e));
                tokens_total(c, &o.repeat(n));
                tokens_total(c, &format!("{}{}", o.repeat(n), e.repeat(n - 1)));
            }
        }
    });
    // wide characters at every byte offset of long tokens of every kind, ended and not
    let mut v: Vec<(String, &str)> = vec![];
    for q in ["'", "\"", "'''", "\"\"\""] { for p in ["", "r", "b", "f", "Rb", "u"] { v.push((format!("{}{}", p, q), q)); } }
    for p in ["# ", "# type: ", "a", "_", "", "1", "0x", "a.", "\\", "$", "import ", "f(", "(", "    ", "a\n"] { v.push((p.to_string(), "")); }
    list(c, "long tokens of wide characters, ended and not", &v, 1, &mut |c, (p, q)| {
        for u in ["\u{e9}", "\u{4e2d}", "\u{1f600}", "a\u{e9}b", "\u{301}", "\u{ff}x"] { for n in [1usize, 2, 5, 9, 20, 33, 70, 140, 300] { for shift in 0..4 {
            let t = format!("{}{}{}", p, "a".repeat(shift), u.repeat(n));
            for end in ["", "\n", "\\", "\r", "$", "\0", " \\ ", "' \""] { if c.stopped() { return; } total(c, &format!("{}{}", t, end)); total(c, &format!("{}{}{}", t, q, end)); }
            for (a, b) in [("x = ", "\n"), ("if x:\n  y ", "\n  z\n"), ("(x, ", ")"), ("[x ", "\n"), ("import ", " as\n"), ("def ", "(): x\n"), ("x y ", ""), ("", " x y\n"), ("class C: ", " 1"), ("@", "\n"), ("try: ", "\nx\n")] { total(c, &format!("{}{}{}{}", a, t, q, b)); total(c, &format!("{}{}{}", a, t, b)); }
        } } }
    });
    // what the other properties explore, right and wrong, by every way in
    let once = |c: &mut Ctx, s: &str, m: Mode| {
        let i = parse_impl(&c.shm, s, m, None);
        c.runs += 1;
        if i.stat == Stat::Ok { c.accepted += 1; }
        if let Stat::Panic(p) = &i.stat { c.violation(kind_name(mode_kind(m)), s, format!("panic {}", p)); }
    };
    let v = edit_cases(c);
    list(c, "one-token and one-line edits of every program", &v, 300, &mut |c, x| { total(c, &x.1); });
    more_edits(c, &mut |c, s, m| once(c, s, m));
    crate::slots::everywhere(c, &mut |c, s, m| once(c, s, m));
    again(c, &mut |c, s, m| once(c, s, m));
    all_families(c, (2, 2), &[Mode::File, Mode::Eval, Mode::FuncType, Mode::Single], |c, s, m| { let x = model(s, m, Dev::default(), Some(c)); let i = parse_impl(&c.shm, s, m, None); c.runs += 1; if i.stat == Stat::Ok { c.accepted += 1; } if let Stat::Panic(p) = &i.stat { c.violation(kind_name(mode_kind(m)), s, format!("panic {}", p)); } Some(Seen { m: x, i }) });
    // two kinds of nesting in turn
    let ns = nests();
    let pairs: Vec<(usize, usize)> = (0..ns.len()).flat_map(|i| (0..ns.len()).map(move |j| (i, j))).collect();
    let levels = c.q(vec![50], vec![7, 25, 50]);
    list(c, "two kinds of nesting in turn, to a hundred levels on an 8 MB stack", &pairs, 8, &mut |c, (i, j)| {
        for n in &levels {
            if c.stopped() { return; }
            let a = format!("{}{}", ns[*i].0, ns[*j].0);
            let b = format!("{}{}", ns[*j].2, ns[*i].2);
            deep(c, Mode::Eval, &format!("{}{}{}", a.repeat(*n), ns[*j].1, b.repeat(*n)), true);
            deep(c, Mode::File, &format!("f = [x, {}{}{}]\n", a.repeat(*n), ns[*j].1, b.repeat(*n)), true);
        }
    });
    // very many requests after the end of file
    let mut v = programs();
    for x in ["", "a", "a\n", "if a:\n  b", "if a:\n  if b:\n    c\n", "(", "# c", "# type: a", "\\\n", "  ", "\n\n", "a # b", "a\\\n", "'s'", "  a", "\u{e9}", "f(\n", "[\n  a\n", "if a:\n  b\n  # c\n"] { v.push(x.to_string()); }
    list(c, "thousands of requests after end of file", &v, 10, &mut |c, s| {
        c.shm.enter(KIND_LEX, s.as_bytes());
        let r = std::panic::catch_unwind(|| {
            let mut l = PythonCoreTokenizer::new(s.to_string());
            let mut end: Option<u32> = None;
            for k in 0..70000u32 {
                match l.get_symbol() {
                    Err(_) => return if end.is_some() { Some(k) } else { None },
                    Ok(t) => { let t = from_impl(&t); match end { None => if t.k == K::EOF { end = Some(t.s); }, Some(p) => if t.k != K::EOF || t.s != p || !t.triv.is_empty() { return Some(k); } } }
                }
            }
            None
        });
        c.shm.leave();
        c.runs += 1;
        match r { Err(_) => c.violation("tokens", s, format!("panic after end of file {}", last_panic())), Ok(Some(k)) => c.violation("tokens", s, format!("request {} delivers something else than the same end of file", k)), _ => {} }
    });
    // depth: a stack of 8 MB, as a main thread has
    let depths: Vec<usize> = c.q(vec![1, 2, 5, 10, 25, 50, 75, 100], (1..=100).collect());
    let mut v: Vec<(Mode, String, bool)> = vec![];
    for n in &depths {
        for (a, m, b) in nests() {
            v.push((Mode::Eval, format!("{}{}{}", a.repeat(*n), m, b.repeat(*n)), true));
            v.push((Mode::File, format!("x = {}{}{}\n", a.repeat(*n), m, b.repeat(*n)), true));
            if *n == 100 || *n == 50 { v.push((Mode::Eval, format!("{}{}", a.repeat(*n), m), false)); v.push((Mode::Eval, a.repeat(*n), false)); }
        }
        let bl = blocks();
        for b in &bl { let b = *b; v.push((Mode::File, nested_block(*n, &move |_| b), true)); }
        for k in 0..3 { let bl = bl.clone(); v.push((Mode::File, nested_block(*n, &move |i| bl[(i * 7 + k) % bl.len()]), true)); }
        for (a, m, b) in nests() {
            let bl = blocks();
            if *n <= 50 || *n == 100 { let inner = format!("{}{}{}", a.repeat(*n), m, b.repeat(*n)); v.push((Mode::File, nested_block(*n / 2, &move |i| bl[i % bl.len()]).replace("x\n", &format!("{}\n", inner)), true)); }
        }
    }
    list(c, "nesting up to a hundred levels on an 8 MB stack", &v, 4, &mut |c, x| deep(c, x.0, &x.1, x.2));
}

fn deep(c: &mut Ctx, mode: Mode, src: &str, must_parse: bool) {
    let shm = &c.shm;
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || parse_impl(shm, src, mode, None)).expect("thread").join()
    });
    c.runs += 1;
    match r {
        Ok(i) => {
            let m = model(src, mode, Dev::default(), Some(c));
            match &i.stat {
                Stat::Panic(p) => c.violation(kind_name(mode_kind(mode)), src, format!("panic {}", p)),
                Stat::Ok => c.accepted += 1,
                _ => if must_parse && !m.failed { c.violation(kind_name(mode_kind(mode)), src, "nested syntax is not processed".into()) },
            }
        }
        Err(_) => c.violation(kind_name(mode_kind(mode)), src, "panic".into()),
    }
}

// =============================================================================== parser families

fn own_lists(c: &mut Ctx) {
    let id = c.id.clone();
    crate::wider::items(c, Some(&id), 0, &mut |c, s, m| { check_tree(c, s, m); });
    // a with statement whose first item begins with a parenthesis belongs to C17 (listed finding there)
    let with = |s: &str| s.match_indices("with").any(|(i, _)| s[i + 4..].trim_start_matches(|x| x == ' ' || x == '\t').starts_with('('));
    crate::wider::varied(c, Some(&id), 9, &mut |c, s, m| { if c.id == "C17" || !with(s) { check_tree(c, s, m); } });
}

/// Constructs one inside the other, and the same many times over.
fn compositions(c: &mut Ctx) {
    let id = c.id.clone();
    let mut j = |c: &mut Ctx, s: &str, m: Mode| { check_tree(c, s, m); };
    if ["C10", "C11", "C12", "C13"].contains(&id.as_str()) {
        let l = c.q(12, 34);
        crate::more::chains(c, Some(&id), 2, 34, 1, &mut j);
        crate::more::chains(c, Some(&id), 3, l, 1, &mut j);
        let e = c.q(8, 1);
        crate::more::chains(c, Some(&id), 4, 1, e, &mut j);
    }
    let e = c.q(2, 1);
    crate::more::filled(c, &id, e, &mut j);
    let times: &[usize] = if c.thorough() { &[130, 260, 1030, 2060] } else { &[140, 300] };
    crate::more::repeated(c, &[&id], times, &mut j);
}

fn families(c: &mut Ctx, less: usize) {
    let id = c.id.clone();
    for (p, f) in FAMS {
        if *p != id { continue; }
        let d = c.q(f.quick, f.thorough).saturating_sub(less);
        let mode = f.mode;
        explore(c, f, d, &mut |c, s| Some(check_tree(c, s, mode)));
    }
}

/// Inputs that show the listed findings of a property.
fn known_cases(c: &mut Ctx) {
    let v: Vec<String> = match c.id.as_str() {
        "C14" => ["yield\n", "match\n", "match = a\n", "match(a)\n"].iter().map(|s| s.to_string()).collect(),
        "C15" => ["a = *b\n", "a = *b, c\n", "a = yield\n"].iter().map(|s| s.to_string()).collect(),
        "C17" => ["with (a).b: c\n", "with (a, b) as c: d\n", "with (yield): a\n", "with (): a\n"].iter().map(|s| s.to_string()).collect(),
        "C19" => ["def f(a): pass\n", "def f(*a, b=c, **d): pass\n"].iter().map(|s| s.to_string()).collect(),
        _ => vec![],
    };
    list(c, "listed findings", &v, 10, &mut |c, s| { check_tree(c, s, Mode::File); });
}

fn join(n: usize, f: &dyn Fn(usize) -> String, sep: &str) -> String { (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep) }

/// Long lists and chains of `n` parts, of the constructs of a property.
fn ladder(id: &str, n: usize, v: &mut Vec<(Mode, String)>) {
    let name = |i: usize| format!("n{}", i);
        let e = |s: String| (Mode::Eval, s);
        let f = |s: String| (Mode::File, s);
        match id {
            "C10" => {
                for op in ["+", "-", "*", "/", "//", "%", "@", "**", "<<", ">>", "&", "^", "|"] { v.push(e(join(n + 1, &name, &format!(" {} ", op)))); }
                for op in ["-", "~", "+", "-~", "+-"] { v.push(e(format!("{}a", op.repeat(n)))); v.push(e(format!("a ** {}b ** c", op.repeat(n)))); }
                v.push(e(format!("{}a{}", "(".repeat(n), ")".repeat(n))));
                v.push(e(format!("a {} b", "- ( c + d ) * e ".repeat(n))));
            }
            "C11" => {
                for op in ["or", "and", "<", "==", "in", "not in", "is", "is not", "!="] { v.push(e(join(n + 1, &name, &format!(" {} ", op)))); }
                v.push(e(format!("{}a", "not ".repeat(n))));
                v.push(e(format!("{}z", "a if b else ".repeat(n))));
                v.push(e(format!("{}z", "lambda: ".repeat(n))));
                for t in ["", ","] {
                    v.push(e(format!("lambda {}{}: z", join(n, &name, ", "), t)));
                    v.push(e(format!("lambda {}{}: z", join(n, &|i| format!("n{} = {}", i, i), ", "), t)));
                    v.push(e(format!("lambda a, /, {}{}: z", join(n, &name, ", "), t)));
                    v.push(e(format!("lambda *a, {}{}: z", join(n, &name, ", "), t)));
                    v.push(e(format!("lambda *, {}{}: z", join(n, &|i| format!("n{} = {}", i, i), ", "), t)));
                    v.push(e(format!("lambda {}, /, b, *c, d, **e{}: z", join(n, &name, ", "), t)));
                    v.push(e(format!("lambda {}, *, d, **e{}: z", join(n, &name, ", "), t)));
                }
            }
            "C12" => {
                for w in ["'s'", "\"t\"", "r'u'", "b'v'", "'''w\nx'''", "f'y'", "''"] { for (a, b) in [("", ""), ("(", ")"), ("[a, ", "]"), ("f(", ").b")] { v.push(e(format!("{}{}{}", a, join(n + 1, &|_| w.to_string(), " "), b))); } }
                v.push(e(join(n + 1, &|i| ["'s'", "\"t\"", "r'u'", "b'v'", "f'''w'''"][i % 5].to_string(), if n % 2 == 0 { " " } else { "" })));
                for t in ["", ",", ",,"] {
                    for (o, k) in [("(", ")"), ("[", "]"), ("{", "}")] {
                        v.push(e(format!("{}{}{}{}", o, join(n, &name, ", "), t, k)));
                        v.push(e(format!("{}{}{}{}", o, join(n, &|i| format!("*n{}", i), ", "), t, k)));
                        v.push(e(format!("{}{}{}{}", o, join(n, &|i| if i % 3 == 1 { format!("*n{}", i) } else { format!("n{}", i) }, ", "), t, k)));
                    }
                    v.push(e(format!("{{{}{}}}", join(n, &|i| format!("n{}: m{}", i, i), ", "), t)));
                    v.push(e(format!("{{{}{}}}", join(n, &|i| format!("**n{}", i), ", "), t)));
                    v.push(e(format!("{{{}{}}}", join(n, &|i| if i % 2 == 1 { format!("**n{}", i) } else { format!("n{}: {}", i, i) }, ", "), t)));
                    // one wrong entry at the end, in the middle, at the start
                    for bad in ["x", "*x"] { v.push(e(format!("{{{}, {}{}}}", join(n, &|i| format!("n{}: m{}", i, i), ", "), bad, t))); }
                    for bad in ["x: y", "**x"] { v.push(e(format!("{{{}, {}{}}}", join(n, &name, ", "), bad, t))); v.push(e(format!("{{{}, {}{}}}", bad, join(n, &name, ", "), t))); }
                }
                for (o, k) in [("(a ", ")"), ("[a ", "]"), ("{a ", "}"), ("{a: b ", "}"), ("f(a ", ")")] {
                    v.push(e(format!("{}{}{}", o, join(n, &|i| format!("for n{} in m{}", i, i), " "), k)));
                    v.push(e(format!("{}{}{}", o, "for c in d ".to_string() + &join(n, &|i| format!("if n{}", i), " "), k)));
                    v.push(e(format!("{}{}{}", o, "for c in d ".to_string() + &join(n, &|i| if i % 2 == 0 { format!("async for n{} in m{}", i, i) } else { format!("if n{}", i) }, " "), k)));
                    v.push(e(format!("{}for {} in z{}", o, join(n, &name, ", "), k)));
                }
                for (o, k) in [("(", ")"), ("[", "]"), ("{", "}"), ("{a: ", "}"), ("(b, ", ")"), ("[*", ", c]")] { v.push(e(format!("{}{}{}", o.repeat(n), "z", k.repeat(n)))); }
            }
            "C13" => {
                for t in ["", ",", ",,"] {
                    v.push(e(format!("f({}{})", join(n, &name, ", "), t)));
                    v.push(e(format!("f({}{})", join(n, &|i| format!("n{} = {}", i, i), ", "), t)));
                    v.push(e(format!("f({}{})", join(n, &|i| format!("*n{}", i), ", "), t)));
                    v.push(e(format!("f({}{})", join(n, &|i| match i % 5 { 0 => format!("n{}", i), 1 => format!("n{} = m{}", i, i), 2 => format!("*n{}", i), 3 => format!("**n{}", i), _ => format!("n{} := m{}", i, i) }, ", "), t)));
                    v.push(e(format!("a[{}{}]", join(n, &name, ", "), t)));
                    v.push(e(format!("a[{}{}]", join(n, &|i| ["b", ":", "b:", ":c", "b:c", "::", "b::", ":c:", "::d", "b:c:d", "b::d", ":c:d", "b:c:"][i % 13].to_string(), ", "), t)));
                    v.push(e(format!("a[{}{}]", join(n, &|i| ["b", ":", "b:", ":c", "b:c", "::", "b::", ":c:", "::d", "b:c:d", "b::d", ":c:d", "b:c:"][(i * 5 + 3) % 13].to_string(), ", "), t)));
                }
                for w in ["", "await "] {
                    v.push(e(format!("{}a{}", w, join(n, &|i| format!(".n{}", i), ""))));
                    v.push(e(format!("{}a{}", w, "()".repeat(n))));
                    v.push(e(format!("{}a{}", w, join(n, &|i| format!("[n{}]", i), ""))));
                    v.push(e(format!("{}a{}", w, join(n, &|i| [".n", "(b)", "[c]", "(d, e)", "[f:]"][(i * 3 + i / 5) % 5].to_string(), ""))));
                }
            }
            "C14" => {
                for t in ["", ";", ";;"] {
                    v.push(f(format!("{}{}\n", join(n, &name, "; "), t)));
                    v.push(f(format!("{}{}\n", join(n, &|i| ["pass", "a", "del b", "return", "raise c", "global d", "assert e", "import f", "break", "g = h", "yield i"][i % 11].to_string(), ";"), t)));
                }
                for t in ["", ","] {
                    v.push(f(format!("del {}{}\n", join(n, &name, ", "), t)));
                    v.push(f(format!("global {}{}\n", join(n, &name, ", "), t)));
                    v.push(f(format!("nonlocal {}{}\n", join(n, &name, ", "), t)));
                    v.push(f(format!("return {}{}\n", join(n + 1, &name, ", "), t)));
                    v.push(f(format!("yield {}{}\n", join(n + 1, &name, ", "), t)));
                    v.push(f(format!("{}{}\n", join(n, &|i| if i % 3 == 2 { format!("*n{}", i) } else { format!("n{}", i) }, ", "), t)));
                }
                v.push(f(join(n, &name, "\n") + "\n"));
            }
            "C15" => {
                v.push(f(format!("{}z\n", join(n, &|i| format!("n{} = ", i), ""))));
                v.push(f(format!("{}z # type: t\n", join(n, &|i| format!("n{} = ", i), ""))));
                v.push(f(format!("{}yield z\n", join(n, &|i| if i % 4 == 3 { "yield a = ".into() } else { format!("n{}, m = ", i) }, ""))));
                for o in ["=", "+=", "-=", "*=", "/=", "//=", "%=", "@=", "**=", "<<=", ">>=", "&=", "^=", "|="] { for t in ["", ","] { v.push(f(format!("{}{} {} {}{}\n", join(n, &name, ", "), t, o, join(n + 1, &name, ", "), t))); } }
                for t in ["", ","] { v.push(f(format!("a: b = {}{}\n", join(n + 1, &name, ", "), t))); }
            }
            "C16" => {
                for t in ["", ","] {
                    v.push(f(format!("import {}{}\n", join(n, &name, ", "), t)));
                    v.push(f(format!("import {}{}\n", join(n, &|i| if i % 2 == 0 { format!("n{} as m{}", i, i) } else { format!("a.n{}.b", i) }, ", "), t)));
                    v.push(f(format!("from a import {}{}\n", join(n, &|i| if i % 3 == 1 { format!("n{} as m{}", i, i) } else { format!("n{}", i) }, ", "), t)));
                    v.push(f(format!("from a import ({}{})\n", join(n, &|i| if i % 3 == 1 { format!("n{} as m{}", i, i) } else { format!("n{}", i) }, ", "), t)));
                }
                v.push(f(format!("import {}\n", join(n + 1, &name, "."))));
                v.push(f(format!("import {} as z, y\n", join(n + 1, &name, "."))));
                v.push(f(format!("from {} import *\n", join(n + 1, &name, "."))));
                v.push(f(format!("from {} import a\n", ".".repeat(n))));
                v.push(f(format!("from {}b.c import a\n", ".".repeat(n))));
                v.push(f(format!("from {} import a\n", ". ... ".repeat(n))));
                v.push(f(format!("from {} b import a\n", ".. ".repeat(n))));
            }
            "C17" => {
                v.push(f(format!("if a: b\n{}else: c\n", join(n, &|i| format!("elif n{}: m{}\n", i, i), ""))));
                v.push(f(format!("if a:\n  b\n{}", join(n, &|i| format!("elif n{}:\n  m{}\n", i, i), ""))));
                v.push(f(format!("if a:\n{}c\n", join(n, &|i| format!("  n{}\n", i), ""))));
                v.push(f(format!("while a:\n{}else:\n  c\n", join(n, &|i| format!("  n{}\n", i), ""))));
                v.push(f(format!("for a in b:\n{}\nelse:\n  c\n", join(n, &|i| ["  n\n", "  if m: o\n", "\n", "  while p:\n    q\n", "# r\n"][i % 5].to_string(), ""))));
                for t in ["", ","] {
                    v.push(f(format!("for {}{} in b: c\n", join(n, &name, ", "), t)));
                    v.push(f(format!("for a in {}{}: c\n", join(n, &name, ", "), t)));
                    v.push(f(format!("with {}{}: c\n", join(n, &|i| if i % 2 == 1 { format!("n{} as m{}", i, i) } else { name(i) }, ", "), t)));
                    v.push(f(format!("with ({}{}): c\n", join(n, &|i| if i % 2 == 1 { format!("n{} as m{}", i, i) } else { name(i) }, ", "), t)));
                }
                if n <= 100 {
                    for b in blocks() { v.push(f(nested_block(n, &move |_| b))); }
                    for k in 0..4 { let bl = blocks(); v.push(f(nested_block(n, &move |i| bl[(i * (2 * k + 3) + k) % bl.len()]))); }
                }
                v.push(f(join(n, &|i| ["if a: b\n", "while c:\n  d\n", "for e in f: g\nelse: h\n", "with i as j: k\n"][i % 4].to_string(), "")));
            }
            "C18" => {
                for (x, y) in [("except", "except"), ("except*", "except*"), ("except*", "except"), ("except", "except*")] {
                    v.push(f(format!("try: a\n{}{} z: c\n", join(n, &|i| format!("{} n{}: b\n", x, i), ""), y)));
                    v.push(f(format!("try: a\n{}{} z as y: c\nelse: d\nfinally: e\n", join(n, &|i| format!("{} n{} as m{}: b\n", x, i, i), ""), y)));
                }
                v.push(f(format!("try: a\n{}except: c\nexcept: d\n", join(n, &|i| format!("except n{}: b\n", i), ""))));
                v.push(f(join(n, &|i| ["try: a\nexcept: b\n", "try: a\nexcept* b: c\n", "try: a\nfinally: b\n", "try: a\nexcept b: c\nelse: d\n"][i % 4].to_string(), "")));
                if n <= 100 {
                    let tries = [("try:\n", "finally: b\n"), ("try:\n", "except a: b\n"), ("try:\n", "except* a: b\n"), ("try: a\nexcept b:\n", ""), ("try: a\nexcept* b:\n", ""), ("try: a\nexcept b: c\nelse:\n", ""), ("try: a\nfinally:\n", ""), ("try: a\nexcept* b: c\nelse:\n", "finally: d\n"), ("if a:\n", ""), ("try: a\nexcept b:\n", "except c: d\n"), ("try: a\nexcept* b:\n", "except* c: d\n"), ("try: a\nexcept* b:\n", "except c: d\n")];
                    for k in 0..12 { v.push(f(nested_block(n, &move |_| tries[k]))); }
                    for k in 0..24 { v.push(f(nested_block(n, &move |i| tries[(i * (k / 2 + 1) + k) % 11]))); }
                }
            }
            "C19" => {
                v.push(f(format!("{}def f(): pass\n", join(n, &|i| format!("@n{}\n", i), ""))));
                v.push(f(format!("{}class C: pass\n", join(n, &|i| format!("@n{}.m(a, b=c)\n", i), ""))));
                v.push(f(format!("{}async def f(): pass\n", join(n, &|i| ["@a\n", "@b()\n", "@c.d\n", "@e(f, *g)\n"][i % 4].to_string(), ""))));
                v.push(f(format!("@{}\ndef f(): pass\n", join(n + 1, &name, "."))));
                for t in ["", ","] { v.push(f(format!("class C({}{}): pass\n", join(n, &|i| match i % 4 { 1 => format!("n{} = {}", i, i), 2 => format!("*n{}", i), 3 => format!("**n{}", i), _ => name(i) }, ", "), t))); v.push(f(format!("@a({}{})\ndef f(): pass\n", join(n, &|i| if i % 2 == 1 { format!("n{} = {}", i, i) } else { name(i) }, ", "), t))); }
                v.push(f(format!("def f():\n{}  return\n", join(n, &|i| format!("  n{}\n", i), ""))));
                v.push(f(format!("def f():\n  # type: x\n{}  return\n", join(n, &|i| ["  n\n", "  @d\n  def g(): m\n", "  class C: o\n", "  async def h(): p\n"][i % 4].to_string(), ""))));
                v.push(f(format!("class C:\n{}  x\n", join(n, &|i| format!("  def n{}(): pass\n", i), ""))));
                if n <= 100 { let d = [("def f():\n", ""), ("class C:\n", ""), ("@a\ndef f():\n", ""), ("@a\nclass C:\n", ""), ("async def f():\n", ""), ("@a\n@b\nasync def f():\n", "")]; for k in 0..6 { v.push(f(nested_block(n, &move |_| d[k]))); v.push(f(nested_block(n, &move |i| d[(i + k) % 6]))); } }
            }
            "C20" => {
                v.push(f(join(n, &name, "\n") + "\n"));
                v.push(f(join(n, &name, "\n")));
                v.push(f(join(n, &|i| ["\n", "a\n", "if b: c\n", "# d\n", "if e:\n  f\n\n"][i % 5].to_string(), "")));
                v.push(f("\n".repeat(n)));
                v.push(e(format!("a{}", "\n".repeat(n))));
                for t in ["", ","] {
                    v.push(e(format!("{}{}\n", join(n, &name, ", "), t)));
                    v.push((Mode::FuncType, format!("({}{}) -> z", join(n, &name, ", "), t)));
                    v.push((Mode::FuncType, format!("({}, *a{}) -> z", join(n, &name, ", "), t)));
                    v.push((Mode::FuncType, format!("({}, *a, **b{}) -> z", join(n, &name, ", "), t)));
                    v.push((Mode::FuncType, format!("(*a, {}{}) -> z", join(n, &name, ", "), t)));
                    v.push((Mode::FuncType, format!("({}, **b{}) -> z", join(n, &name, ", "), t)));
                }
                v.push((Mode::FuncType, format!("(a) -> b{}", "\n".repeat(n))));
                v.push((Mode::Single, join(n, &name, "; ") + "\n"));
                v.push((Mode::Single, format!("if a:\n{}  z\n", join(n, &|i| format!("  n{}\n", i), ""))));
            }
            _ => {}
        }
}

/// Every length up to a bound.
fn ladders(c: &mut Ctx) {
    let mut v: Vec<(Mode, String)> = vec![];
    let id = c.id.clone();
    for n in (0..c.q(70, 300)).chain([100, 127, 128, 129, 256, 511, 513, 1000]) { ladder(&id, n, &mut v); }
    list(c, "lengths", &v, 20, &mut |c, x| { check_tree(c, &x.1, x.0); });
}

/// The lists and chains of every property.
fn all_ladders(sizes: &[usize]) -> Vec<(Mode, String)> {
    let mut v: Vec<(Mode, String)> = vec![];
    for n in sizes { for id in ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"] { ladder(id, *n, &mut v); } }
    v
}
fn many(c: &Ctx) -> Vec<usize> { let mut v: Vec<usize> = (0..c.q(20, 80)).collect(); v.extend(c.q(vec![31, 32, 33, 34, 63, 64, 65, 66, 100, 128, 130, 257, 520, 1030], vec![100, 127, 128, 129, 130, 255, 256, 257, 512, 513, 1024, 1030, 2050])); v }

/// The same constructs far into a long source.
fn far_offsets(c: &mut Ctx) {
    let mut v = vec![];
    let id = c.id.clone();
    let items: Vec<String> = match id.as_str() {
        "C10" | "C11" | "C12" | "C13" => EXPRS.iter().map(|s| format!("x = {}\n", s)).collect(),
        "C14" | "C15" | "C16" => SIMPLE.iter().map(|s| format!("{}\n", s)).collect(),
        _ => COMPOUND.iter().map(|s| s.to_string()).collect(),
    };
    for i in &items {
        for n in [250usize, 65530] { v.push(format!("{}\n{}", "z".repeat(n), i)); v.push(format!("#{}\n{}", "z".repeat(n), i)); }
        v.push(format!("'''{}'''\n{}{}", "z\n".repeat(33000), i, i));
    }
    list(c, "far offsets", &v, 10, &mut |c, s| { check_tree(c, s, Mode::File); });
}

fn entry_points(c: &mut Ctx) {
    // every program through every entry point, and with something after its end
    let mut v = vec![];
    for p in programs().into_iter().chain(EXPRS.iter().map(|s| s.to_string())).chain(FUNCTYPES.iter().map(|s| s.to_string())) {
        for m in [Mode::File, Mode::Eval, Mode::Single, Mode::FuncType] {
            let t = p.trim_end_matches('\n');
            for s in [p.clone(), t.to_string(), format!("{}\n", t), format!("{}\n\n", t), format!("{}\n# c\n\n", t), format!("{} x\n", t), format!("{}\nx\n", t), format!("{}\n)", t), format!("\n{}", p), format!(" {}", p), format!("{}\n$", t), format!("{};", t), format!("{}\n  y\n", t), format!("{},", t), format!("{} -> z", t), format!("({}) -> z", t)] { v.push((m, s)); }
        }
    }
    list(c, "every program through every entry point", &v, 50, &mut |c, x| { check_tree(c, &x.1, x.0); });
}

// =============================================================================== C21, C22, C23, C28: all families again

fn all_families<F: FnMut(&mut Ctx, &str, Mode) -> Option<Seen>>(c: &mut Ctx, less: (usize, usize), modes: &[Mode], mut j: F) {
    for (_, f) in FAMS {
        if !modes.contains(&f.mode) { continue; }
        let d = c.q(f.quick.saturating_sub(less.0).min(5).max(2), f.thorough.saturating_sub(less.1).min(7).max(3));
        let mode = f.mode;
        explore(c, f, d, &mut |c, s| j(c, s, mode));
    }
}

fn key(t: &Tok) -> (u32, u32, u8, String, Option<String>, (char, char), Vec<(u8, u32, u32, String)>) {
    (t.s, t.e, t.k as u8, t.text.clone(), t.prefix.clone(), t.nl, t.triv.iter().map(|x| (x.k as u8, x.s, x.e, x.text.clone())).collect())
}

/// C21: the leaves of an accepted tree are the tokens of the source.
fn judge_leaves(c: &mut Ctx, src: &str, mode: Mode) -> Option<Seen> {
    let mut full = Full::default();
    let i = parse_impl(&c.shm, src, mode, Some(&mut full));
    let m = model(src, mode, Dev::default(), Some(c));
    c.runs += 1;
    match &i.stat {
        Stat::Ok => {
            c.accepted += 1;
            let il = lex_impl(&c.shm, src);
            let mut a: Vec<_> = full.toks.iter().map(key).collect();
            let mut b: Vec<_> = il.toks.iter().map(key).collect();
            a.sort();
            b.sort();
            if c.accepted.is_power_of_two() { c.sample(format!("{} {:?}: {} leaves, {} tokens", kind_name(mode_kind(mode)), src, a.len(), b.len())); }
            if a != b {
                let miss: Vec<_> = b.iter().filter(|x| !a.contains(x)).collect();
                let extra: Vec<_> = a.iter().filter(|x| !b.contains(x)).collect();
                c.violation(kind_name(mode_kind(mode)), src, format!("tokens missing from the tree: {:?}; in the tree but not in the source: {:?}; {} leaves, {} tokens", miss, extra, a.len(), b.len()));
            } else if let Some(d) = full.disorder.or(full.fields) {
                c.violation(kind_name(mode_kind(mode)), src, d);
            }
        }
        Stat::Panic(p) => c.violation(kind_name(mode_kind(mode)), src, format!("panic {}", p)),
        _ => {}
    }
    Some(Seen { m, i })
}

fn sources(c: &Ctx) -> Vec<(Mode, String)> {
    let mut v: Vec<(Mode, String)> = vec![];
    for p in programs() {
        v.push((Mode::File, p.clone()));
        v.push((Mode::File, p.trim_end_matches('\n').to_string()));
        v.push((Mode::File, format!("# c\n\n{}\n# d\n", p)));
        v.push((Mode::File, p.replace(' ', "  ")));
        for q in programs() { v.push((Mode::File, format!("{}{}", p, q))); }
    }
    for e in EXPRS { for t in ["", "\n", "\n\n# c\n", " # c"] { v.push((Mode::Eval, format!("{}{}", e, t))); } for f in EXPRS { v.push((Mode::Eval, format!("{}, {}", e, f))); v.push((Mode::Eval, format!("({}) + ({})", e, f))); v.push((Mode::Eval, format!("[{}, {},]", e, f))); v.push((Mode::Eval, format!("{{({}): ({})}}", e, f))); } }
    for f in FUNCTYPES { for t in ["", "\n", "\n\n"] { v.push((Mode::FuncType, format!("{}{}", f, t))); } for e in EXPRS { v.push((Mode::FuncType, format!("({}) -> {}", e, e))); } }
    for h in COMPOUND { for p in programs() { v.push((Mode::File, format!("if z:\n{}{}", p.lines().map(|l| format!("    {}\n", l)).collect::<String>(), h))); } }
    for n in (0..c.q(20, 100)).chain([200]) {
        let l = |f: &dyn Fn(usize) -> String, s: &str| join(n, f, s);
        let nm = |i: usize| format!("n{}", i);
        for t in ["", ","] {
            for (o, k) in [("(", ")"), ("[", "]"), ("{", "}"), ("f(", ")"), ("a[", "]")] { v.push((Mode::Eval, format!("{}{}{}{}", o, l(&nm, ", "), t, k))); }
            v.push((Mode::Eval, format!("{{{}{}}}", l(&|i| format!("n{}: {}", i, i), ", "), t)));
            v.push((Mode::Eval, format!("lambda {}{}: z", l(&nm, ", "), t)));
            v.push((Mode::File, format!("from a import ({}{})\n", l(&nm, ", "), t)));
            v.push((Mode::File, format!("with ({}{}): z\n", l(&nm, ", "), t)));
            v.push((Mode::FuncType, format!("({}{}) -> z", l(&nm, ", "), t)));
        }
        for o in [" + ", " ** ", " < ", " and ", " or ", ".", " = ", "; ", "\n", ", "] { v.push((Mode::File, format!("{}\n", join(n + 1, &nm, o)))); }
        for b in ["if a: b\n", "try: a\nexcept b: c\n", "@a\ndef f(): b\n", "class C(a): b\n", "import a.b as c\n"] { v.push((Mode::File, b.repeat(n))); }
        v.push((Mode::File, format!("try: a\n{}finally: b\n", "except c as d: e\n".repeat(n))));
        v.push((Mode::File, format!("if a: b\n{}else: b\n", "elif c: e\n".repeat(n))));
        v.push((Mode::File, format!("{}def f(): b\n", "@c.d(e)\n".repeat(n))));
        if n <= 100 { for b in blocks() { v.push((Mode::File, nested_block(n, &move |_| b))); } }
    }
    v
}

const THREE: &[Mode] = &[Mode::File, Mode::Eval, Mode::FuncType];

/// Lists of whole items and the varied families of all properties.
fn again(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    crate::wider::items(c, None, 1, f);
    let most = c.q(3, 4);
    crate::wider::varied(c, None, most, f);
    let l = c.q(2, 8);
    crate::more::chains(c, None, 3, l, 1, f);
    let e = c.q(60, 6);
    crate::more::chains(c, None, 4, 1, e, f);
    let times: &[usize] = if c.thorough() { &[140, 530] } else { &[140] };
    crate::more::repeated(c, crate::slots::ALL, times, f);
    crate::more::distinct(c, f);
    crate::more::far(c, false, f);
}

fn leaves(c: &mut Ctx) {
    crate::slots::everywhere(c, &mut |c, s, m| if m != Mode::Single { judge_leaves(c, s, m); });
    all_families(c, (2, 2), THREE, judge_leaves);
    again(c, &mut |c, s, m| if m != Mode::Single { judge_leaves(c, s, m); });
    let v = sources(c);
    list(c, "programs, pairs and lengths", &v, 100, &mut |c, x| { judge_leaves(c, &x.1, x.0); });
    let v = all_ladders(&many(c));
    list(c, "lists and chains of every length", &v, 50, &mut |c, x| if x.0 != Mode::Single { judge_leaves(c, &x.1, x.0); });
    let v = layout_variants(c, false);
    list(c, "layout variants", &v, 100, &mut |c, x| if !x.1.contains("\r\n") { judge_leaves(c, &x.1, Mode::File); });
    type_comment_sources(c, &mut |c, s| { judge_leaves(c, s, Mode::File); });
}

/// C22: every node starts at its first token and ends between its last token and the next one.
fn judge_spans(c: &mut Ctx, src: &str, mode: Mode) -> Option<Seen> {
    let mut full = Full::default();
    let i = parse_impl(&c.shm, src, mode, Some(&mut full));
    let m = model(src, mode, Dev::default(), Some(c));
    c.runs += 1;
    match &i.stat {
        Stat::Ok => {
            c.accepted += 1;
            let il = lex_impl(&c.shm, src);
            let starts: Vec<u32> = il.toks.iter().filter(|t| t.s != NOPOS).map(|t| t.s).collect();
            if c.accepted.is_power_of_two() { c.sample(format!("{} {:?}: {:?}", kind_name(mode_kind(mode)), src, full.spans.iter().map(|x| (x.name, x.s, x.e)).collect::<Vec<_>>())); }
            for x in &full.spans {
                if x.first == NOPOS { continue; }
                let p = starts.partition_point(|s| *s < x.last);
                // where the text ends in a lexical error (an interactive statement before it), the next token is that error
                let next = if p < starts.len() { starts[p] } else if il.toks.last().map_or(false, |t| t.k == K::EOF) { *starts.last().unwrap_or(&0) } else { x.last.max(starts.last().map_or(0, |_| il.toks.iter().map(|t| if t.s == NOPOS { 0 } else { t.e }).max().unwrap_or(0))) };
                if x.s != x.first || x.e < x.last || x.e > next {
                    let w = format!("node {} has span {}..{}, its tokens span {}..{}, the next token starts at {}", x.name, x.s, x.e, x.first, x.last, next);
                    c.violation(kind_name(mode_kind(mode)), src, w);
                    break;
                }
            }
        }
        Stat::Panic(p) => c.violation(kind_name(mode_kind(mode)), src, format!("panic {}", p)),
        _ => {}
    }
    Some(Seen { m, i })
}

fn spans(c: &mut Ctx) {
    crate::slots::everywhere(c, &mut |c, s, m| { judge_spans(c, s, m); });
    all_families(c, (2, 2), &[Mode::File, Mode::Eval, Mode::FuncType, Mode::Single], judge_spans);
    again(c, &mut |c, s, m| { judge_spans(c, s, m); });
    let v = sources(c);
    list(c, "programs, pairs and lengths", &v, 100, &mut |c, x| { judge_spans(c, &x.1, x.0); });
    let v = all_ladders(&many(c));
    list(c, "lists and chains of every length", &v, 50, &mut |c, x| { judge_spans(c, &x.1, x.0); });
    let v = layout_variants(c, false);
    list(c, "layout variants", &v, 100, &mut |c, x| if !x.1.contains("\r\n") { judge_spans(c, &x.1, Mode::File); });
    type_comment_sources(c, &mut |c, s| { judge_spans(c, s, Mode::File); });
}

/// C28: a lexical error before end of file makes every whole-source entry point fail.
fn judge_lexerr(c: &mut Ctx, src: &str, mode: Mode) -> Option<Seen> {
    let i = parse_impl(&c.shm, src, mode, None);
    let m = model(src, mode, Dev::default(), Some(c));
    c.runs += 1;
    match &i.stat {
        Stat::Ok => {
            c.accepted += 1;
            let il = lex_impl(&c.shm, src);
            if il.stat != Stat::Ok || m.lx.end == End::Error {
                let w = format!("a tree was returned although reading the tokens fails ({:?} after {} tokens): {}", il.stat, il.toks.len(), show(&i.tree, src));
                c.violation(kind_name(mode_kind(mode)), src, w);
            }
        }
        Stat::Panic(p) => c.violation(kind_name(mode_kind(mode)), src, format!("panic {}", p)),
        _ => if m.lx.end == End::Error && c.runs.is_power_of_two() { c.sample(format!("{} {:?}: rejected", kind_name(mode_kind(mode)), src)); },
    }
    Some(Seen { m, i })
}

/// The source cut into pieces: positions where a token starts or ends.
fn boundaries(src: &str) -> Vec<usize> {
    let lx = lex(src, LexDev::default());
    let mut v: Vec<usize> = lx.toks.iter().filter(|t| t.s != NOPOS).flat_map(|t| [t.s as usize, t.e as usize]).collect();
    v.push(0);
    v.push(src.chars().count());
    v.sort();
    v.dedup();
    v
}
fn splice(src: &str, a: usize, b: usize, with: &str) -> String {
    let c: Vec<char> = src.chars().collect();
    let mut s: String = c[..a].iter().collect();
    s.push_str(with);
    s.extend(c[b..].iter());
    s
}

fn bad_cases(c: &Ctx) -> Vec<(Mode, String)> {
    let mut v = vec![];
    let mut base: Vec<(Mode, String)> = programs().into_iter().map(|p| (Mode::File, p)).collect();
    base.extend(EXPRS.iter().map(|e| (Mode::Eval, e.to_string())));
    base.extend(FUNCTYPES.iter().map(|e| (Mode::FuncType, e.to_string())));
    let more = if c.thorough() { vec!["", "\nx\n"] } else { vec![""] };
    for (m, p) in &base {
        for tail in &more {
            let p = format!("{}{}", p, tail);
            for b in boundaries(&p) {
                for bad in BAD { v.push((*m, splice(&p, b, b, bad))); v.push((*m, splice(&p, b, b, &format!(" {} ", bad)))); v.push((*m, splice(&p, b, b, &format!("\n{}\n", bad)))); v.push((*m, splice(&p, b, b, &format!("\n      {}", bad)))); }
                for bad in [")", "]", "}", "(", "[", "{", "\\"] { v.push((*m, splice(&p, b, b, bad))); v.push((*m, splice(&p, b, b, &format!("\n{}", bad)))); v.push((*m, splice(&p, b, b, &format!("{}\n", bad)))); }
                for k in 1..6 { v.push((*m, splice(&p, b, b, &format!("\n{}x\n", " ".repeat(k))))); }
            }
            for bad in BAD { v.push((*m, format!("{}\n{}", p.trim_end(), bad))); v.push((*m, format!("{}\n\n\n  {}\n", p.trim_end(), bad))); v.push((*m, format!("{} {}", p.trim_end(), bad))); v.push((*m, format!("{} # c\n{}\n", p.trim_end(), bad))); }
        }
    }
    v
}

fn bad_tokens(c: &mut Ctx) {
    let v = bad_cases(c);
    list(c, "a bad token at every place of every program", &v, 300, &mut |c, x| { judge_lexerr(c, &x.1, x.0); });
    // and of every template
    let step = c.q(2, 1);
    crate::slots::layouts(c, &mut |c, mode, p, first| {
        if mode == Mode::Single || !(first || c.thorough()) || model(p, mode, Dev::default(), None).failed { return; }
        for (i, b) in boundaries(p).into_iter().enumerate() {
            if c.stopped() { return; }
            for (k, bad) in BAD.iter().chain(&[")", "]", "}", "(", "[", "{", "\\"]).enumerate() {
                judge_lexerr(c, &splice(p, b, b, &format!(" {} ", bad)), mode);
                if (i + k) % step == 0 { judge_lexerr(c, &splice(p, b, b, bad), mode); judge_lexerr(c, &splice(p, b, b, &format!("\n{}", bad)), mode); judge_lexerr(c, &splice(p, b, b, &format!("\n{}\n", bad)), mode); }
            }
        }
    });
    // and of lists and chains of a few lengths
    let v = all_ladders(&c.q(vec![3, 6, 11], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33]));
    let every = c.q(3, 1);
    list(c, "a bad token at every place of lists and chains", &v, 3, &mut |c, x| {
        if x.0 == Mode::Single || model(&x.1, x.0, Dev::default(), None).failed { return; }
        for (i, b) in boundaries(&x.1).into_iter().enumerate() {
            if c.stopped() { return; }
            for (k, bad) in BAD.iter().chain(&[")", "]", "}", "(", "\\"]).enumerate() { if (i + k) % every == 0 { judge_lexerr(c, &splice(&x.1, b, b, &format!(" {} ", bad)), x.0); judge_lexerr(c, &splice(&x.1, b, b, &format!("\n{}", bad)), x.0); } }
        }
    });
    // a bad character instead of one piece of every family
    all_families(c, (3, 3), THREE, |c, s, m| {
        let r = judge_lexerr(c, s, m);
        let t = format!("{} $", s.trim_end());
        judge_lexerr(c, &t, m);
        let t = format!("{}\n\n?", s);
        judge_lexerr(c, &t, m);
        r
    });
    again(c, &mut |c, s, m| if m != Mode::Single { judge_lexerr(c, s, m); let t = format!("{} $", s.trim_end()); judge_lexerr(c, &t, m); });
}

fn edit_cases(c: &Ctx) -> Vec<(Mode, String)> {
    let mut base: Vec<(Mode, String)> = programs().into_iter().map(|p| (Mode::File, p)).collect();
    base.extend(EXPRS.iter().map(|e| (Mode::Eval, e.to_string())));
    base.extend(FUNCTYPES.iter().map(|e| (Mode::FuncType, e.to_string())));
    base.extend(COMPOUND.iter().map(|e| (Mode::Single, e.to_string())));
    let mut v: Vec<(Mode, String)> = vec![];
    for (m, p) in &base { for s in edits_of(p, 1, c.thorough()) { v.push((*m, s)); } }
    v.dedup();
    v
}

/// The text with one token deleted, doubled, exchanged, replaced by or preceded by another (one in `every`), with one line deleted, doubled, indented otherwise or exchanged.
pub fn edits_of(p: &str, every: usize, two: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let lx = lex(p, LexDev::default());
    let t: Vec<(usize, usize)> = lx.toks.iter().filter(|t| t.s != NOPOS && t.e > t.s).map(|t| (t.s as usize, t.e as usize)).collect();
    let ch: Vec<char> = p.chars().collect();
    let txt = |x: (usize, usize)| -> String { ch[x.0..x.1].iter().collect() };
    for i in 0..t.len() {
        v.push(splice(p, t[i].0, t[i].1, " "));                                     // delete
        v.push(splice(p, t[i].1, t[i].1, &format!(" {} ", txt(t[i]))));              // double
        for (k, e) in EDITS.iter().enumerate() { if (k + i) % every == 0 { v.push(splice(p, t[i].0, t[i].1, &format!(" {} ", e))); v.push(splice(p, t[i].0, t[i].0, &format!(" {} ", e))); } }
        if i + 1 < t.len() { v.push(format!("{}{} {} {}", ch[..t[i].0].iter().collect::<String>(), txt(t[i + 1]), txt(t[i]), ch[t[i + 1].1..].iter().collect::<String>())); }
        if two {
            for j in i + 1..t.len() {
                let s = splice(p, t[j].0, t[j].1, " ");
                v.push(splice(&s, t[i].0, t[i].1, " "));                           // delete two
                let s = splice(p, t[j].0, t[j].1, &txt(t[i]));
                v.push(splice(&s, t[i].0, t[i].1, &txt(t[j])));                    // exchange two
            }
        }
    }
    for e in EDITS { v.push(format!("{} {}", p, e)); v.push(format!("{}{}\n", p, e)); }
    // lines: deleted, doubled, re-indented
    let lines: Vec<&str> = p.split_inclusive('\n').collect();
    for i in 0..lines.len() {
        let with = |x: String| { let mut l: Vec<String> = lines.iter().map(|s| s.to_string()).collect(); l[i] = x; l.concat() };
        v.push(with(String::new()));
        v.push(with(format!("{}{}", lines[i], lines[i])));
        for k in 0..8 { v.push(with(format!("{}{}", " ".repeat(k), lines[i].trim_start_matches(' ')))); }
        for j in 0..i { let mut l: Vec<&str> = lines.clone(); l.swap(i, j); v.push(l.concat()); let mut l: Vec<&str> = lines.clone(); let x = l.remove(j); l.insert(i, x); v.push(l.concat()); let mut l: Vec<&str> = lines.clone(); let x = l.remove(i); l.insert(j, x); v.push(l.concat()); let mut l: Vec<&str> = lines.clone(); l.insert(i + 1, lines[j]); v.push(l.concat()); }
    }
    v
}

/// Edits of lists and chains of a few lengths and of every template.
fn more_edits(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str, Mode)) {
    let v = all_ladders(&c.q(vec![2, 3, 4, 5, 7], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17]));
    let every = c.q(13, 3);
    list(c, "one-token and one-line edits of lists and chains", &v, 3, &mut |c, x| { if x.1.lines().count() < 30 { for (k, s) in edits_of(&x.1, every, false).into_iter().enumerate() { if c.stopped() { return; } f(c, &s, x.0); if let Some((m, s)) = crate::slots::environment(x.0, &s, k * 7 + x.1.len()) { f(c, &s, m); } } } });
    let every = c.q(5, 1);
    crate::slots::layouts(c, &mut |c, mode, p, first| { if first || c.thorough() { for (k, s) in edits_of(p, every, false).into_iter().enumerate() { if c.stopped() { return; } f(c, &s, mode); for j in 0..2 { if let Some((m, s)) = crate::slots::environment(mode, &s, k * 11 + p.len() * 3 + j * 97) { f(c, &s, m); } } } } });
}

fn edits(c: &mut Ctx) {
    crate::slots::everywhere(c, &mut |c, s, m| { check_tree(c, s, m); });
    let v = edit_cases(c);
    list(c, "one-token and one-line edits of every program", &v, 300, &mut |c, x| { check_tree(c, &x.1, x.0); });
    more_edits(c, &mut |c, s, m| { check_tree(c, s, m); });
    all_families(c, (2, 2), &[Mode::File, Mode::Eval, Mode::FuncType, Mode::Single], |c, s, m| Some(check_tree(c, s, m)));
    again(c, &mut |c, s, m| { check_tree(c, s, m); });
    let words: Vec<&str> = EDITS.iter().filter(|e| !e.starts_with('\n')).cloned().collect();
    let sp: Vec<String> = words.iter().map(|w| format!("{} ", w)).collect();
    let sp: Vec<&str> = sp.iter().map(|s| s.as_str()).collect();
    strings(c, "all short token sequences", &sp, 3, &[("", "\n")], &mut |c, s| { check_tree(c, s, Mode::File); });
    strings(c, "all short token sequences, other entry points", &sp, c.q(2, 3), &[("", ""), ("a ", " b\n"), ("(", ")")], &mut |c, s| { check_tree(c, s, Mode::Eval); check_tree(c, s, Mode::Single); check_tree(c, s, Mode::FuncType); });
    strings(c, "short token sequences in context", &sp, c.q(2, 3), &[("x = ", "\n"), ("if a: ", "\n"), ("f(", ")\n"), ("x = [", "]\n"), ("def f", ": pass\n"), ("class C", ": pass\n"), ("for a", ": pass\n"), ("with a", ": pass\n"), ("import a", "\n"), ("from a", "\n"), ("try: a\n", ": b\n"), ("lambda", ": a\n"), ("a", "\n"), ("{", "}\n"), ("a[", "]\n"), ("return", "\n"), ("@a", "\ndef f(): pass\n")], &mut |c, s| { check_tree(c, s, Mode::File); });
}

// =============================================================================== C24

/// Node names, token kinds and token texts, without positions.
fn shape(src: &str, tree: &[u32], full: &Full) -> Vec<u32> {
    let _ = src;
    let mut o = Vec::with_capacity(tree.len());
    let (mut i, mut n) = (0, 0);
    while i < tree.len() {
        let x = tree[i];
        o.push(x);
        if x & 0xF000_0000 == TOK { let t = &full.toks[n]; n += 1; o.push(h(&t.text)); o.push(t.prefix.as_ref().map(|p| h(p)).unwrap_or(0)); i += 2; }
        i += 1;
    }
    o
}

fn shape_of(c: &mut Ctx, src: &str, mode: Mode) -> Result<Vec<u32>, String> {
    let mut full = Full::default();
    let i = parse_impl(&c.shm, src, mode, Some(&mut full));
    c.runs += 1;
    match i.stat { Stat::Ok => { c.accepted += 1; Ok(shape(src, &i.tree, &full)) } s => Err(format!("{:?}", s)) }
}

/// (base program, variant that differs in layout only)
fn layout_variants(c: &Ctx, pairs: bool) -> Vec<(String, String)> {
    let mut base = programs();
    for n in 2..c.q(7, 12) {
        let down: String = (0..n).map(|i| format!("{}if a:\n", "  ".repeat(i))).collect();
        let back: String = (0..=n).rev().map(|i| format!("{}b\n{}c\n", "  ".repeat(i), "  ".repeat(i))).collect();
        base.push(format!("{}{}", down, back));
    }
    let mut out = vec![];
    for p in base { for x in variants_of(&p, pairs, c.id == "C24", true) { out.push((p.clone(), x)); } }
    out.retain(|(a, b)| a != b);
    out
}

/// The text with every gap between two tokens, every line break, every blank line and every indentation spelled in every other way.
fn variants_of(p: &str, pairs: bool, crlf: bool, indentation: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let lx = lex(p, LexDev::default());
    let ch: Vec<char> = p.chars().collect();
    // edits: (position, length, variants)
    let mut sites: Vec<(usize, usize, Vec<String>)> = vec![];
    let mut depth = 0i32;
    let mut prev: Option<&Tok> = None;
    let mut bol = true;
    for t in lx.toks.iter() {
        if t.s == NOPOS { continue; }
        let ind: String = ch[..t.s as usize].iter().rev().take_while(|x| **x == ' ').collect();
        if bol {
            let start = t.s as usize - ind.len();
            let mut v: Vec<String> = vec![];
            if t.k != K::Newline { for b in ["\n", "   \n", "# c\n", "\t# c: (\n", "\n\n#\n \n", "\r", " \r", "        # 'd\n", "#\r"] { v.push(format!("{}{}", b, ind)); } }
            if t.k == K::EOF { v.push(" ".into()); v.push("# c".into()); v.push("\t".into()); v.push("  # c\n ".into()); }
            sites.push((start, ind.len(), v));
        } else if let Some(q) = prev {
            let (a, b) = (q.e as usize, t.s as usize);
            let mut v: Vec<String> = vec![];
            let tc = q.k == K::TypeComment;
            if t.k == K::Newline {
                if !tc { for w in ["", " ", "\t", "  # c", "# '(", " #\\", " # type x", "    ", "\\\n"] { v.push(w.into()); } }
            } else if !tc {
                for w in ["", " ", "   ", "\t", " \t ", " \\\n", "\\\n   ", " \\\r", "\\\n\\\n\t"] { v.push(w.into()); }
                if depth > 0 { for w in ["\n", " # c (\n", "\n\n      ", "\r", "\n# x '\n\t", " \n \\\n"] { v.push(w.into()); } }
            }
            // only changes that keep the tokens apart
            v.retain(|w| { let s = splice(p, a, b, w); let l2 = lex(&s, LexDev::default()); l2.end == End::Eof && l2.toks.len() == lx.toks.len() && l2.toks.iter().zip(&lx.toks).all(|(x, y)| x.k == y.k && x.text == y.text && x.prefix == y.prefix) });
            sites.push((a, b - a, v));
        }
        match t.k { K::PyLeftParen | K::PyLeftBracket | K::PyLeftCurly => depth += 1, K::PyRightParen | K::PyRightBracket | K::PyRightCurly => depth -= 1, _ => {} }
        bol = t.k == K::Newline;
        prev = Some(t);
    }
    for (a, n, v) in &sites { for w in v { out.push(splice(p, *a, a + n, w)); } }
    // one choice at all places at once
    for k in 0..16 {
        let mut s = p.to_string();
        for (a, n, v) in sites.iter().rev() { if !v.is_empty() { s = splice(&s, *a, a + n, &v[k % v.len()]); } }
        out.push(s);
    }
    if pairs {
        for i in 0..sites.len() { for j in i + 1..sites.len() { for w in &sites[i].2 { for x in &sites[j].2 {
            let s = splice(p, sites[j].0, sites[j].0 + sites[j].1, x);
            out.push(splice(&s, sites[i].0, sites[i].0 + sites[i].1, w));
        } } } }
    }
    // indentation step
    if indentation { for step in [" ", "   ", "    ", "        ", "\t", " \t", "\t\t", "          "] {
        let s: String = p.split_inclusive('\n').map(|l| { let k = l.len() - l.trim_start_matches(' ').len(); if l.trim().is_empty() { l.to_string() } else { format!("{}{}", step.repeat(k / 2), &l[k - k % 2..]) } }).collect();
        out.push(s);
    } }
    // the same columns spelled with tabs from some depth on, and every line alone
    if indentation { for (step, f) in [(4usize, "\t"), (4, " \t"), (4, "   \t"), (8, "\t\t"), (8, "\t  \t"), (8, "     \t"), (12, "\t\t\t")] {
        let lines: Vec<&str> = p.split_inclusive('\n').collect();
        let ind = |l: &str, g: &str| -> String { let k = l.len() - l.trim_start_matches(' ').len(); if l.trim().is_empty() { l.to_string() } else { format!("{}{}", g.repeat(k / 2), &l[k - k % 2..]) } };
        let sp = " ".repeat(step);
        // a run of spaces that ends in a tab stands for the next multiple of the tab size (4)
        out.push(lines.iter().map(|l| ind(l, f)).collect());
        for d in 1..6 { out.push(lines.iter().map(|l| { let k = (l.len() - l.trim_start_matches(' ').len()) / 2; ind(l, if k >= d { f } else { &sp }) }).collect()); }
        for i in 0..lines.len() { out.push(lines.iter().enumerate().map(|(j, l)| ind(l, if i == j { f } else { &sp })).collect()); out.push(lines.iter().enumerate().map(|(j, l)| ind(l, if i != j { f } else { &sp })).collect()); }
    } }
    // line breaks
    out.push(p.replace('\n', "\r"));
    out.push(p.replace('\n', "\n\n"));
    out.push(p.replace('\n', " \n"));
    out.push(p.trim_end_matches('\n').to_string());
    for t in [" ", "\n\n\n", "   ", "\n# c", "\n   # c\n", "\n\t", "#", " # c", "\r", "\\\n"] { if !p.trim_end().ends_with("int") || !t.starts_with(|x| x == ' ' || x == '#' || x == '\\') { out.push(format!("{}{}", p.trim_end_matches('\n'), t)); } }
    for (i, x) in ch.iter().enumerate() { if *x == '\n' { out.push(splice(p, i, i + 1, "\r")); } }
    if crlf { out.push(p.replace('\n', "\r\n")); for (i, x) in ch.iter().enumerate() { if *x == '\n' { out.push(splice(p, i, i + 1, "\r\n")); } } }
    out
}

/// (base program, the same with hundreds or thousands of characters of layout at one place or at all places)
fn bulk_variants(c: &Ctx) -> Vec<(String, String)> {
    let sizes: &[usize] = if c.thorough() { &[17, 33, 65, 129, 257, 1025, 4099, 66000] } else { &[33, 129, 257, 1025] };
    let mut out = vec![];
    let mut turn = 0usize;
    let deeper = |p: &str, n: usize| -> String { let mut s = String::new(); for i in 0..n { s.push_str(&format!("{}{}\n", "  ".repeat(i), ["if q:", "class q:", "try:", "for q in r:"][i % 4])); } for l in p.split_inclusive('\n') { if l.trim().is_empty() { s.push_str(l); } else { s.push_str(&"  ".repeat(n)); s.push_str(l); } } if n > 2 { s.push_str("    finally: q\n"); } s };
    let mut base = programs();
    for (k, p) in programs().into_iter().enumerate() { if !p.contains("'''") && !p.contains("\"\"\"") && p.ends_with('\n') && (c.thorough() || k % 3 == 0) { base.push(deeper(&p, 2 + 2 * (k % 2))); } }
    base.push("if a:\n  if b:\n    c\n    d(e, f)\n".into());
    base.push("class a:\n  def b():\n    if c:\n      d = [e, {f: g}]\n  h\n".into());
    for p in base {
        let lx = lex(&p, LexDev::default());
        let ch: Vec<char> = p.chars().collect();
        let mut depth = 0i32;
        let mut bol = true;
        let mut prev: Option<&Tok> = None;
        let mut sites: Vec<(usize, u8)> = vec![];
        for t in lx.toks.iter() {
            if t.s == NOPOS { continue; }
            if bol { let ind = ch[..t.s as usize].iter().rev().take_while(|x| **x == ' ').count(); sites.push((t.s as usize - ind, 0)); }
            else if let Some(q) = prev { if q.k != K::TypeComment { sites.push((q.e as usize, if t.k == K::Newline { 1 } else if depth > 0 { 2 } else { 3 })); } }
            match t.k { K::PyLeftParen | K::PyLeftBracket | K::PyLeftCurly => depth += 1, K::PyRightParen | K::PyRightBracket | K::PyRightCurly => depth -= 1, _ => {} }
            bol = t.k == K::Newline;
            prev = Some(t);
        }
        // every sequence of two and some of three or four short pieces at every place
        let pieces = |w: u8| -> Vec<&'static str> { match w {
            0 => vec!["\n", " \n", "# c\n", "\t# d\n", "      # e\n", "\r", "   \n"],
            1 => vec![" ", "\t", "\\\n", "# c", "   ", "\\\r"],
            2 => vec![" ", "\t", "\\\n", "# c\n", "\n", "\r", "# (\r"],
            _ => vec![" ", "\t", "\\\n", "\\\r", "   "],
        } };
        for (a, w) in &sites {
            let v = pieces(*w);
            for i in 0..v.len() { for j in 0..v.len() {
                out.push((p.clone(), splice(&p, *a, *a, &format!("{}{}", v[i], v[j]))));
                for k in 0..v.len() {
                    turn += 1;
                    if c.thorough() || turn % 3 == 0 { out.push((p.clone(), splice(&p, *a, *a, &format!("{}{}{}", v[i], v[j], v[k])))); }
                    if c.thorough() || turn % 7 == 0 { out.push((p.clone(), splice(&p, *a, *a, &format!("{}{}{}{}", v[i], v[j], v[k], v[(i + turn) % v.len()])))); }
                }
            } }
        }
        let kinds = |w: u8, n: usize| -> Vec<String> { match w {
            0 => vec!["\n".repeat(n), " \n".repeat(n), "# c\n".repeat(n), format!("#{}\n", "d".repeat(n)), format!("{}\n", " ".repeat(n)), format!("{}# e\n", "\t".repeat(n))],
            1 => vec![" ".repeat(n), "\t".repeat(n), format!(" # {}", "c".repeat(n)), format!(" #{}", "\u{e9}(".repeat(n)), "\\\n".repeat(n)],
            2 => vec![" ".repeat(n), "\t ".repeat(n), "\n".repeat(n), "# c (\n".repeat(n), format!("\n{}", " ".repeat(n)), " \\\n".repeat(n), format!("# {}\n", "'".repeat(n))],
            _ => vec![" ".repeat(n), "\t".repeat(n), " \t".repeat(n), " \\\n".repeat(n), format!(" \\\n{}", " ".repeat(n)), "\\\r ".repeat(n)],
        } };
        for n in sizes {
            for (a, w) in &sites {
                for x in kinds(*w, *n) { turn += 1; if *n > 300 && !c.thorough() && turn % 5 != 0 { continue; } if *n > 60000 && turn % 29 != 0 { continue; } out.push((p.clone(), splice(&p, *a, *a, &x))); }
            }
            if *n < 300 { for k in 0..7 {
                let mut s = p.clone();
                for (a, w) in sites.iter().rev() { let v = kinds(*w, *n); s = splice(&s, *a, *a, &v[k % v.len()]); }
                out.push((p.clone(), s));
            } }
        }
    }
    out.retain(|x| !x.1.contains("\r\n"));
    out
}

fn layout(c: &mut Ctx) {
    let pairs = c.thorough();
    let v = layout_variants(c, pairs);
    let mut base: HashMap<String, Result<Vec<u32>, String>> = HashMap::new();
    list(c, "layout variants of every program", &v, 100, &mut |c, (p, s)| {
        // a "\" before the line break of the last line leaves an empty continuation: the model decides
        if s.contains("\r\n") { check_tree(c, s, Mode::File); return; }
        if !base.contains_key(p) { let b = shape_of(c, p, Mode::File); base.insert(p.clone(), b); }
        let m = model(s, Mode::File, Dev::default(), Some(c));
        let b0 = model(p, Mode::File, Dev::default(), None);
        let same = m.lx.toks.len() == b0.lx.toks.len() && m.lx.toks.iter().zip(&b0.lx.toks).all(|(x, y)| x.k == y.k && x.text == y.text && x.prefix == y.prefix);
        if m.failed || !same { c.sample(format!("not a layout change: {:?}", s)); return; }
        let x = shape_of(c, s, Mode::File);
        if c.runs.is_power_of_two() { c.sample(format!("{:?} ~ {:?}", p, s)); }
        if base[p] != x {
            let w = match (&base[p], &x) { (Ok(_), Err(e)) => format!("the layout variant of {:?} is rejected ({})", p, e), (Err(e), _) => format!("{:?} is rejected ({})", p, e), _ => format!("the tree differs from that of {:?}", p) };
            c.violation("file", s, w);
        }
    });
    // the same with a great deal of layout at every place
    let v = bulk_variants(c);
    list(c, "a great deal of layout at every place of every program", &v, 50, &mut |c, (p, s)| {
        if !base.contains_key(p) { let b = shape_of(c, p, Mode::File); base.insert(p.clone(), b); }
        let m = model(s, Mode::File, Dev::default(), Some(c));
        let b0 = lex(p, LexDev::default());
        if m.failed || m.lx.toks.len() != b0.toks.len() || !m.lx.toks.iter().zip(&b0.toks).all(|(x, y)| x.k == y.k && x.text == y.text && x.prefix == y.prefix) { return; }
        let x = shape_of(c, s, Mode::File);
        if base[p] != x { c.violation("file", s, format!("with more layout {:?} gives {}", p, match &x { Ok(_) => "another tree".to_string(), Err(e) => format!("an error ({})", e) })); }
    });
    // every template, with its places filled one at a time
    crate::slots::layouts(c, &mut |c, mode, p, first| {
        if model(p, mode, Dev::default(), None).failed { return; }
        let b = match shape_of(c, p, mode) { Ok(b) => b, Err(_) => return };
        let b0 = lex(p, LexDev::default());
        for s in variants_of(p, pairs && first, false, false) {
            if c.stopped() { return; }
            if s.contains("\r\n") { check_tree(c, &s, mode); continue; }
            let m = model(&s, mode, Dev::default(), Some(c));
            if m.failed || m.lx.toks.len() != b0.toks.len() || !m.lx.toks.iter().zip(&b0.toks).all(|(x, y)| x.k == y.k && x.text == y.text && x.prefix == y.prefix) { continue; }
            match shape_of(c, &s, mode) {
                Err(e) => c.violation(kind_name(mode_kind(mode)), &s, format!("the layout variant of {:?} is rejected ({})", p, e)),
                Ok(x) => if x != b { c.violation(kind_name(mode_kind(mode)), &s, format!("the tree differs from that of {:?}", p)); },
            }
        }
    });
    comment_texts(c, &mut |c, s| { check_tree(c, s, Mode::File); });
    // character-level layout around every kind of gap, judged against the model
    let n = c.q(4, 5);
    let lay = [" ", "\t", "\n", "#", "\\\n", "\r", "  "];
    strings(c, "all short layouts", &lay, n, &[("x = (a", "b)\n"), ("x = [a", ", b]\ny\n"), ("if a:\n  b", "  c\nd\n"), ("if a:", "\n  b\n"), ("a", "\nb\n"), ("f(", ")"), ("a +", " b\n"), ("", "a\n"), ("a", ""), ("if a:\n b\n", "c\n"), ("class C:\n  a\n", "  b\n"), ("x = {", "}"), ("if a: b", "\nelse: c\n"), ("try: a\n", "finally: b\n")], &mut |c, s| { check_tree(c, s, Mode::File); });
}

// =============================================================================== C25

fn body(s: &[u32]) -> Vec<u32> {
    // FileInput( [ body ] [newlines] eof ) or EvalInput( body [newlines] eof )
    let mut end = s.len();
    // strip END, the end-of-file token (3 entries) and the newline list
    let mut i = end - 1 - 3;
    if s[i - 1] == CLOSE { let mut d = 1; i -= 1; while d > 0 { i -= 1; if s[i] == CLOSE { d += 1; } else if s[i] == OPEN { d -= 1; } } end = i; }
    let start = if s[0] == name_code("FileInput") { end -= 1; 2 } else { 1 };
    s[start..end].to_vec()
}
fn contains(hay: &[u32], needle: &[u32]) -> bool { !needle.is_empty() && hay.windows(needle.len()).any(|w| w == needle) }

fn surroundings(c: &mut Ctx) {
    let progs = programs();
    let alone: Vec<Result<Vec<u32>, String>> = progs.iter().map(|p| shape_of(c, p, Mode::File)).collect();
    for (p, a) in progs.iter().zip(&alone) { if let Err(e) = a { c.violation("file", p, format!("rejected on its own ({})", e)); return; } }
    let bod: Vec<Vec<u32>> = alone.iter().map(|a| body(a.as_ref().unwrap())).collect();
    // pairs in sequence
    let idx: Vec<(usize, usize)> = (0..progs.len()).flat_map(|i| (0..progs.len()).map(move |j| (i, j))).collect();
    list(c, "all pairs of statements in sequence", &idx, 200, &mut |c, (i, j)| {
        for mid in ["", "\n", "# c\n"] {
            let s = format!("{}{}{}", progs[*i], mid, progs[*j]);
            let m = model(&s, Mode::File, Dev::default(), Some(c));
            if m.failed { continue; }
            match shape_of(c, &s, Mode::File) {
                Err(e) => c.violation("file", &s, format!("rejected ({})", e)),
                Ok(x) => { let mut w = bod[*i].clone(); w.extend(&bod[*j]); if body(&x) != w { c.violation("file", &s, "the trees of the two statements are not those they have alone".into()); } }
            }
        }
    });
    // triples of the shorter statements
    if c.thorough() {
        let n = progs.len();
        let idx: Vec<(usize, usize, usize)> = (0..n).step_by(2).flat_map(|i| (0..n).flat_map(move |j| (1..n).step_by(3).map(move |k| (i, j, k)))).collect();
        list(c, "triples of statements", &idx, 500, &mut |c, (i, j, k)| {
            let s = format!("{}{}{}", progs[*i], progs[*j], progs[*k]);
            match shape_of(c, &s, Mode::File) {
                Err(e) => { if !model(&s, Mode::File, Dev::default(), Some(c)).failed { c.violation("file", &s, format!("rejected ({})", e)) } }
                Ok(x) => { let mut w = bod[*i].clone(); w.extend(&bod[*j]); w.extend(&bod[*k]); if body(&x) != w { c.violation("file", &s, "the trees of the three statements are not those they have alone".into()); } }
            }
        });
    }
    // the same statement many times over, then every other statement
    let times: &[usize] = if c.thorough() { &[130, 260, 520, 1030, 2060] } else { &[140, 300] };
    let pr = crate::more::probe();
    let probe = match shape_of(c, &pr, Mode::File) { Ok(x) => body(&x), Err(e) => { c.violation("file", &pr, format!("rejected ({})", e)); return; } };
    list(c, "every statement many times over, then every other", &(0..progs.len()).collect::<Vec<_>>(), 2, &mut |c, i| {
        for n in times {
            if c.stopped() { return; }
            let s = format!("{}{}", progs[*i].repeat(*n), pr);
            match shape_of(c, &s, Mode::File) {
                Err(e) => c.violation("file", &s, format!("rejected ({})", e)),
                Ok(x) => { let mut w: Vec<u32> = vec![]; for _ in 0..*n { w.extend(&bod[*i]); } w.extend(&probe); if body(&x) != w { c.violation("file", &s, format!("{} times {:?} and then other statements: the trees are not those they have alone", n, progs[*i])); } }
            }
        }
    });
    let v: Vec<(Mode, String)> = crate::slots::ALL.iter().flat_map(|id| crate::slots::plain(id)).collect();
    list(c, "every template many times over, then every statement", &v, 2, &mut |c, (m, t)| {
        let one = match m { Mode::File if t.ends_with('\n') => t.clone(), Mode::Eval => format!("({})\n", t), _ => return };
        if model(&one, Mode::File, Dev::default(), Some(c)).failed { return; }
        let b = match shape_of(c, &one, Mode::File) { Ok(x) => body(&x), Err(_) => return };
        for n in times.iter().take(if c.thorough() { 3 } else { 1 }) {
            if c.stopped() { return; }
            let s = format!("{}{}", one.repeat(*n), pr);
            if one.ends_with(":\n") || model(&format!("{}{}", one.repeat(2), pr), Mode::File, Dev::default(), None).failed { return; }
            match shape_of(c, &s, Mode::File) {
                Err(e) => c.violation("file", &s, format!("rejected ({})", e)),
                Ok(x) => { let mut w: Vec<u32> = vec![]; for _ in 0..*n { w.extend(&b); } w.extend(&probe); if body(&x) != w { c.violation("file", &s, format!("{} times {:?} and then other statements: the trees are not those they have alone", n, one)); } }
            }
        }
    });
    crate::more::distinct(c, &mut |c, s, m| { check_tree(c, s, m); judge_lex(c, s, Aspect::Text); judge_lex(c, s, Aspect::Tiling); });
    // nested in blocks, with neighbours
    let bl = blocks();
    let mut cases: Vec<(usize, Vec<usize>, usize)> = vec![];
    for i in 0..progs.len() {
        for a in 0..bl.len() {
            for around in 0..4 { cases.push((i, vec![a], around)); }
            for b in 0..bl.len() { cases.push((i, vec![a, b], (i + a + b) % 4)); }
            for d in 3..c.q(5, 9) { cases.push((i, (0..d).map(|k| (a + 5 * k) % bl.len()).collect(), d % 4)); }
        }
    }
    list(c, "statements nested in blocks", &cases, 100, &mut |c, (i, path, around)| {
        let (pre, post) = [("", ""), ("z\n", ""), ("", "z\n"), ("if z: z\n", "while z: z\n")][*around];
        let mut inner = format!("{}{}{}", pre, progs[*i], post);
        for k in path.iter().rev() {
            let (hd, tr) = bl[*k];
            let ind: String = inner.split_inclusive('\n').map(|l| if l.trim().is_empty() { l.to_string() } else { format!("  {}", l) }).collect();
            inner = format!("{}{}{}", hd, ind, tr);
        }
        let m = model(&inner, Mode::File, Dev::default(), Some(c));
        if m.failed { return; }
        match shape_of(c, &inner, Mode::File) {
            Err(e) => c.violation("file", &inner, format!("rejected ({})", e)),
            Ok(x) => if !contains(&x, &bod[*i]) { c.violation("file", &inner, format!("the tree of {:?} is not the one it has alone", progs[*i])); },
        }
    });
    wrong_stays_wrong(c);
    // every template, with its places filled one at a time, in every block, before and after other statements
    let step = c.q(3, 1);
    let mut n = 0usize;
    let mut one = |c: &mut Ctx, mode: Mode, p: &str| {
        if mode != Mode::File || !p.ends_with('\n') || p.starts_with(' ') || model(p, mode, Dev::default(), None).failed { return; }
        let b = match shape_of(c, p, mode) { Ok(b) => body(&b), Err(_) => return };
        if b.is_empty() { return; }
        n += 1;
        let mut outs: Vec<String> = vec![];
        for (k, (hd, tr)) in bl.iter().enumerate() {
            if (k + n) % step != 0 { continue; }
            let ind: String = p.split_inclusive('\n').map(|l| if l.trim().is_empty() { l.to_string() } else { format!("  {}", l) }).collect();
            outs.push(format!("{}{}{}", hd, ind, tr));
            let (h2, t2) = bl[(k * 3 + n) % bl.len()];
            let i2: String = outs.last().unwrap().split_inclusive('\n').map(|l| if l.trim().is_empty() { l.to_string() } else { format!("  {}", l) }).collect();
            outs.push(format!("{}{}{}", h2, if k % 2 == 0 { i2 } else { i2.clone() + &i2 }, t2));
        }
        for (pre, post) in [("z\n", ""), ("", "z\n"), ("if z: z\n", "while z: z\n"), ("\n# c\n", "\n\n"), ("import z\n", "@z\nclass z: z\n"), ("try: z\nexcept* z: z\n", "try: z\nexcept z: z\n"), ("if z:\n   z\n", "(z)\n")] { outs.push(format!("{}{}{}", pre, p, post)); }
        outs.push(format!("{}{}", p, p));
        for s in outs {
            if c.stopped() { return; }
            let m = model(&s, mode, Dev::default(), Some(c));
            if m.failed { continue; }
            match shape_of(c, &s, mode) {
                Err(e) => c.violation("file", &s, format!("rejected ({})", e)),
                Ok(x) => if !contains(&x, &b) { c.violation("file", &s, format!("the tree of {:?} is not the one it has alone", p)); },
            }
        }
    };
    crate::slots::layouts(c, &mut |c, mode, p, _| one(c, mode, p));
    let v = all_ladders(&c.q(vec![1, 2, 3, 4, 5, 7, 9, 14, 17], (1..20).chain([33, 65]).collect()));
    list(c, "lists and chains in blocks and next to other statements", &v, 5, &mut |c, x| one(c, x.0, &x.1));
    // expressions in every context
    let ctxs: Vec<(Mode, &str)> = vec![
        (Mode::Eval, "(@)"), (Mode::Eval, "[@]"), (Mode::Eval, "{@}"), (Mode::Eval, "{@: v}"), (Mode::Eval, "{k: @}"), (Mode::Eval, "f(@)"), (Mode::Eval, "f(a, @)"), (Mode::Eval, "f(k=@)"), (Mode::Eval, "f(*@)"), (Mode::Eval, "f(**@)"), (Mode::Eval, "f(@, a)"),
        (Mode::Eval, "a[@]"), (Mode::Eval, "a[@:]"), (Mode::Eval, "a[:@]"), (Mode::Eval, "a[::@]"), (Mode::Eval, "a[b, @]"), (Mode::Eval, "lambda: @"), (Mode::Eval, "lambda a=@: b"), (Mode::Eval, "a if b else @"), (Mode::Eval, "(@, a)"), (Mode::Eval, "[a, @]"), (Mode::Eval, "[@ for a in b]"), (Mode::Eval, "a, @"), (Mode::Eval, "@, a"),
        (Mode::Eval, "((@))"), (Mode::Eval, "-(@)"), (Mode::Eval, "(@).a"), (Mode::Eval, "(@)(a)"), (Mode::Eval, "a + (@)"), (Mode::Eval, "(@) ** a"), (Mode::Eval, "not (@)"), (Mode::Eval, "(a := @)"), (Mode::Eval, "(yield @)"), (Mode::Eval, "(yield from @)"), (Mode::Eval, "{**a, k: @}"), (Mode::Eval, "{k: a, @: b}"),
        (Mode::File, "@\n"), (Mode::File, "x = @\n"), (Mode::File, "x = y = @\n"), (Mode::File, "x: @\n"), (Mode::File, "x: t = @\n"), (Mode::File, "x += @\n"), (Mode::File, "return @\n"), (Mode::File, "raise @\n"), (Mode::File, "raise a from @\n"), (Mode::File, "assert @\n"), (Mode::File, "assert a, @\n"), (Mode::File, "yield @\n"),
        (Mode::File, "if @: a\n"), (Mode::File, "if a: b\nelif @: c\n"), (Mode::File, "while @: a\n"), (Mode::File, "for a in @: b\n"), (Mode::File, "for a in b, @: c\n"), (Mode::File, "with a, @: b\n"), (Mode::File, "with (a, @): b\n"), (Mode::File, "try: a\nexcept @: b\n"), (Mode::File, "try: a\nexcept* @ as b: c\n"), (Mode::File, "class C(@): a\n"), (Mode::File, "class C(k=@): a\n"), (Mode::File, "def f() -> @: a\n"), (Mode::File, "@@(@)\ndef f(): a\n"),
        (Mode::File, "if a: return @; b\n"), (Mode::File, "a; @; b\n"), (Mode::File, "if a:\n  if b:\n    @\n"), (Mode::FuncType, "(@) -> a"), (Mode::FuncType, "() -> @"), (Mode::FuncType, "(*@) -> a"), (Mode::FuncType, "(a, **@) -> b"), (Mode::Single, "@\n"), (Mode::Single, "if @: a\n"),
    ];
    let ex: Vec<Vec<u32>> = EXPRS.iter().map(|e| match shape_of(c, e, Mode::Eval) { Ok(x) => body(&x), Err(er) => { c.violation("eval", e, format!("rejected ({})", er)); vec![NIL] } }).collect();
    let cases: Vec<(usize, usize, usize)> = (0..EXPRS.len()).flat_map(|i| (0..ctxs.len()).flat_map(move |j| (0..2).map(move |k| (i, j, k)))).collect();
    let fill = |t: &str, e: &str| t.replace("@@", "\u{1}").replace('@', e).replace('\u{1}', "@z");
    list(c, "expressions in every context", &cases, 100, &mut |c, (i, j, k)| {
        let (mode, t) = ctxs[*j];
        let e = if *k == 1 { format!("( {} )", EXPRS[*i]) } else { EXPRS[*i].to_string() };
        let s = fill(t, &e);
        let m = model(&s, mode, Dev::default(), Some(c));
        if m.failed { return; }
        match shape_of(c, &s, mode) {
            Err(e) => c.violation(kind_name(mode_kind(mode)), &s, format!("rejected ({})", e)),
            Ok(x) => if !contains(&x, &ex[*i]) { c.violation(kind_name(mode_kind(mode)), &s, format!("the tree of {:?} is not the one it has alone", EXPRS[*i])); },
        }
    });
    // contexts nested in contexts
    let ev: Vec<&str> = ctxs.iter().filter(|x| x.0 == Mode::Eval).map(|x| x.1).collect();
    let step = c.q(5, 1);
    let cases: Vec<(usize, usize, usize)> = (0..EXPRS.len()).flat_map(|i| { let n = ev.len(); let m = ctxs.len(); (0..n).flat_map(move |j| ((i + j) % step..m).step_by(step).map(move |k| (i, j, k))) }).collect();
    list(c, "expressions in contexts in contexts", &cases, 300, &mut |c, (i, j, k)| {
        let (mode, t) = ctxs[*k];
        let s = fill(t, &fill(ev[*j], EXPRS[*i]));
        let m = model(&s, mode, Dev::default(), Some(c));
        if m.failed { return; }
        match shape_of(c, &s, mode) {
            Err(e) => c.violation(kind_name(mode_kind(mode)), &s, format!("rejected ({})", e)),
            Ok(x) => if !contains(&x, &ex[*i]) { c.violation(kind_name(mode_kind(mode)), &s, format!("the tree of {:?} is not the one it has alone", EXPRS[*i])); },
        }
    });
    histories(c);
    abandoned(c);
    interleavings(c);
}

/// What is wrong in itself stays wrong, whatever stands in its blocks, around it or next to it.
fn wrong_stays_wrong(c: &mut Ctx) {
    let deeper = |s: &str| -> String { s.split_inclusive('\n').map(|l| if l.trim().is_empty() { l.to_string() } else { format!("  {}", l) }).collect() };
    // wrong whatever block stands at the place of §
    let frames = ["try: x\nexcept y:\n§except* z: w\n", "try: x\nexcept* y:\n§except z: w\n", "try:\n§except y: z\nexcept* w: v\n", "try:\n§except* y: z\nexcept w: v\n", "try: x\nexcept y: z\nexcept w:\n§except* v: u\n", "try: x\nexcept* y: z\nexcept* w:\n§except v: u\n", "try: x\nexcept* y:\n§except: u\n", "try: x\nexcept y:\n§x = try\n",
        "try: x\nelse:\n§", "try:\n§x\n", "try: x\nfinally:\n§else: y\n", "try: x\nfinally:\n§except y: z\n", "try: x\nexcept:\n§else:\n§else: y\n", "try: x\nexcept y: z\nfinally:\n§finally: w\n", "try: x\nexcept y:\n§else: z\nexcept w: v\n",
        "if x:\n§else: y\nelse: z\n", "if x:\n§else: y\nelif z: w\n", "else:\n§", "elif x:\n§", "except x:\n§", "finally:\n§", "while x:\n§elif y: z\n", "while x:\n§else:\n§else: y\n", "for x in y:\n§except z: w\n", "for x in y:\n§else: z\nfinally: w\n", "for x y in z:\n§", "with x as y:\n§else: z\n", "with x, as y:\n§", "def f():\n§else: x\n", "def f(a, a b):\n§", "def f x:\n§", "class C(:\n§", "class C:\n§finally: x\n", "@x\nif y:\n§", "@x\n\ny\nif z:\n§", "async x\nif y:\n§", "async class C:\n§", "async while x:\n§", "if x\n§", "if x:\n§ y\n", "if x:\n y\n§", "def f() -> :\n§", "while :\n§", "for x in :\n§", "with :\n§", "if x y:\n§", "lambda:\n§", "x:\n§"];
    let mut fills: Vec<String> = programs();
    fills.extend(COMPOUND.iter().map(|s| s.to_string()));
    fills.extend(SIMPLE.iter().map(|s| format!("{}\n", s)));
    for (h, t) in blocks() { fills.push(format!("{}  x\n{}", h, t)); fills.push(format!("{}  x\n  y\n{}", h, t)); fills.push(format!("{}  x\n{}{}  y\n{}z\n", h, t, h, t)); }
    fills.push("def f():\n  x\n  y\n".into());
    fills.push("try: x\nexcept y: z\ntry: x\nexcept* y: z\n".into());
    fills.push("try: x\nexcept* y: z\ntry: x\nexcept y: z\n".into());
    fills.push("class C:\n  def f():\n    try: x\n    except* y:\n      try: x\n      except z: w\n".into());
    let bl = blocks();
    let every = c.q(7, 1);
    let reject = |c: &mut Ctx, s: &str| {
        let m = model(s, Mode::File, Dev::default(), Some(c));
        if !m.failed { return; }
        c.runs += 1;
        let i = parse_impl(&c.shm, s, Mode::File, None);
        match &i.stat {
            Stat::Ok => { for k in 1..64u32 { let mut d = Dev::default(); for (j, f) in crate::engine::DEVS.iter().enumerate() { if k >> j & 1 == 1 { crate::engine::set(&mut d, f); } } if !model(s, Mode::File, d, None).failed { return; } } c.violation("file", s, format!("what is wrong in itself is accepted here: {}", show(&i.tree, s))) }
            Stat::Panic(p) => c.violation("file", s, format!("panic {}", p)),
            _ => {}
        }
    };
    list(c, "blocks that are wrong in themselves around everything", &(0..fills.len()).collect::<Vec<_>>(), 3, &mut |c, k| {
        let p = &fills[*k];
        for (i, f) in frames.iter().enumerate() {
            if c.stopped() { return; }
            let s = f.replace('§', &deeper(p));
            reject(c, &s);
            let (h, t) = bl[(i * 5 + k) % bl.len()];
            reject(c, &format!("{}{}{}", h, deeper(&s), t));
            reject(c, &format!("{}{}", p, s));
            reject(c, &format!("{}{}", s, p));
            let (h2, t2) = bl[(i + k * 3) % bl.len()];
            let two = format!("{}{}{}", h2, deeper(p), t2);
            reject(c, &f.replace('§', &deeper(&two)));
            reject(c, &f.replace('§', &deeper(&format!("{}z\n", two))));
            reject(c, &f.replace('§', &deeper(&format!("z\n{}{}", two, p))));
        }
    });
    // statements that are wrong in themselves in every block, next to everything
    let mut wrong: Vec<String> = vec![];
    for (m, p) in programs().into_iter().map(|p| (Mode::File, p)).chain(crate::slots::ALL.iter().flat_map(|id| crate::slots::plain(id))) {
        if m != Mode::File || !p.ends_with('\n') { continue; }
        for (k, s) in edits_of(&p, 9, false).into_iter().enumerate() { if (k + p.len()) % every == 0 && s.ends_with('\n') && !s.contains('\r') && model(&s, m, Dev::default(), None).failed { wrong.push(s); } }
    }
    wrong.dedup();
    let progs = programs();
    list(c, "statements that are wrong in themselves in blocks and next to others", &(0..wrong.len()).collect::<Vec<_>>(), 50, &mut |c, k| {
        let w = &wrong[*k];
        for j in 0..3 {
            if c.stopped() { return; }
            let (h, t) = bl[(k + j * 4) % bl.len()];
            let (h2, t2) = bl[(k * 3 + j) % bl.len()];
            let p = &progs[(k * 7 + j * 11) % progs.len()];
            reject(c, &format!("{}{}{}", h, deeper(w), t));
            reject(c, &format!("{}{}{}{}", p, h, deeper(&format!("{}{}{}", h2, deeper(w), t2)), t));
            reject(c, &format!("{}{}", p, w));
            reject(c, &format!("{}{}", w, p));
            reject(c, &format!("{}{}{}", h, deeper(&format!("{}{}{}", p, w, p)), t));
        }
    });
}

fn result_of(c: &mut Ctx, x: &(Mode, String)) -> (Stat, Vec<u32>) { let i = parse_impl(&c.shm, &x.1, x.0, None); c.runs += 1; (i.stat, i.tree) }

/// Every source parsed after every other gives what it gives alone.
fn histories(c: &mut Ctx) {
    let mut v: Vec<(Mode, String)> = programs().into_iter().map(|p| (Mode::File, p)).collect();
    for p in ["if a:\n  b\n c\n", "(", "'abc", "x = (1,\n", "try: a\nexcept* b: c\nexcept d: e\n", "try: a\nexcept b: c\nexcept* d: e\n", "try: a\n", "def f(\n", "[", "if a:\n      b\n    c\n", "1__0", "lambda", "\\", "if a:\n  try: b\n  except* c:", "class C:\n\tx\n        y\n", "'''"] { v.push((Mode::File, p.into())); }
    for p in EXPRS { v.push((Mode::Eval, p.to_string())); }
    for p in FUNCTYPES { v.push((Mode::FuncType, p.to_string())); }
    for p in COMPOUND.iter().step_by(3) { v.push((Mode::Single, p.to_string())); }
    let first: Vec<(Stat, Vec<u32>)> = v.iter().map(|x| result_of(c, x)).collect();
    for (x, r) in v.iter().zip(&first) {
        let m = model(&x.1, x.0, Dev::default(), Some(c));
        let ok = match &m.expect { Expect::Tree(t) => r.0 == Stat::Ok && r.1 == *t, Expect::Reject => r.0 == Stat::Err, _ => true };
        if !ok { c.violation(kind_name(mode_kind(x.0)), &x.1, "parsed at the start of the process, the result is not the model's".into()); return; }
    }
    let idx: Vec<(usize, usize)> = (0..v.len()).flat_map(|i| { let n = v.len(); (0..n).map(move |j| (i, j)) }).collect();
    list(c, "every source after every other", &idx, 300, &mut |c, (i, j)| {
        let a = result_of(c, &v[*i]);
        let b = result_of(c, &v[*j]);
        let a2 = result_of(c, &v[*i]);
        if a != first[*i] || a2 != first[*i] { c.violation(kind_name(mode_kind(v[*i].0)), &v[*i].1, format!("the result changed after parsing {:?}", v[*j].1)); }
        if b != first[*j] { c.violation(kind_name(mode_kind(v[*j].0)), &v[*j].1, format!("the result changed after parsing {:?}", v[*i].1)); }
    });
}

/// A tokenizer or parser given up after any number of steps leaves nothing behind; nor does one used on another thread.
fn abandoned(c: &mut Ctx) {
    let mut v: Vec<String> = programs();
    for p in ["if a:\n  (b, [c,\n", "try: a\nexcept* b: c\nexcept d: e\n", "if a:\n  if b:\n    c\n d\n", "x = 'a' 'b", "f(a, b, c d)\n", "lambda *a, **b: c d\n", "class C:\n  def f():\n    try: a\n    except* b: 1__0\n"] { v.push(p.into()); }
    let pr = crate::more::probe();
    let tail: Vec<(Mode, String)> = vec![(Mode::File, pr), (Mode::File, "try: a\nexcept b: c\n".into()), (Mode::File, "try: a\nexcept* b: c\n".into()), (Mode::Eval, "(a, [b, {c: d}], lambda e=f, *g: h)".into()), (Mode::FuncType, "(a, *b, **c) -> d".into()), (Mode::Single, "if a:\n  b\n".into()), (Mode::File, "  a\n".into()), (Mode::Eval, "a)".into())];
    let first: Vec<(Stat, Vec<u32>)> = tail.iter().map(|x| result_of(c, x)).collect();
    let thorough = c.thorough();
    list(c, "a tokenizer or parser given up after any number of steps, then other sources", &v, 1, &mut |c, s| {
        let n = lex(s, LexDev::default()).toks.len() + 1;
        for k in 0..=n { for how in 0..3 {
            if c.stopped() { return; }
            c.shm.enter(KIND_OTHER, format!("given up after {} steps ({}): {:?}", k, how, s).as_bytes());
            let go = |s: &str| { let _ = std::panic::catch_unwind(|| {
                let mut l = PythonCoreTokenizer::new(s.to_string());
                if how == 0 { for _ in 0..k { if l.get_symbol().is_err() { break; } } return; }
                let mut p = PythonCoreParser::new(Box::new(l));
                for _ in 0..k { p.advance(); }
                if how == 2 { let _ = p.parse_statements_stmt(); }
            }); };
            if k % 2 == 0 { go(s); } else { std::thread::scope(|t| { let _ = t.spawn(|| go(s)).join(); }); }
            c.shm.leave();
            for (i, x) in tail.iter().enumerate() {
                if !thorough && i > 0 && (i + k) % 3 != 0 { continue; }
                let r = result_of(c, x);
                if r != first[i] { c.violation("other", &format!("{:?} after {} steps of {:?} ({})", x.1, k, s, ["a tokenizer", "a parser", "a parser and a statement"][how]), "the result is not the one it had before".into()); return; }
            }
        } }
    });
    // on a thread of its own
    let v: Vec<(Mode, String)> = programs().into_iter().map(|p| (Mode::File, p)).chain(tail.iter().cloned()).collect();
    list(c, "every source on a thread of its own", &v, 10, &mut |c, x| {
        let a = result_of(c, x);
        let shm = &c.shm;
        let b = std::thread::scope(|t| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(t, || parse_impl(shm, &x.1, x.0, None)).expect("thread").join());
        c.runs += 1;
        match b { Ok(i) if (i.stat.clone(), i.tree.clone()) == a => {}, _ => c.violation(kind_name(mode_kind(x.0)), &x.1, "on a thread of its own the result is another".into()) }
    });
}

/// Two parsers, and two tokenizers, stepped in every order.
fn interleavings(c: &mut Ctx) {
    fn orders(a: usize, b: usize) -> Vec<Vec<bool>> {
        if a == 0 && b == 0 { return vec![vec![]]; }
        let mut v = vec![];
        if a > 0 { for mut x in orders(a - 1, b) { x.insert(0, false); v.push(x); } }
        if b > 0 { for mut x in orders(a, b - 1) { x.insert(0, true); v.push(x); } }
        v
    }
    let progs: Vec<(&str, usize)> = vec![
        ("try: a\nexcept* b: c\ntry: d\nexcept e: f\ng = (h,\n i)\n", 3), ("try: a\nexcept b: c\nif d:\n  try: e\n  except* f: g\nh\n", 3), ("if a:\n  b\nelse:\n  c\nd; e\nf(g)[h]\n", 3),
        ("x = [a for b in c]\n@d\ndef e(): f\nclass G(h): i\n", 3), ("for a in b:\n\tc\nwith d as e: f\nimport g.h as i\n", 3), ("a = 'b' \"c\"\nd = {e: f}\ntry: g\nfinally: h\n", 3),
    ];
    let run = |c: &mut Ctx, srcs: [&str; 2], order: &[bool]| -> Option<[Vec<Vec<u32>>; 2]> {
        let shm = &c.shm;
        shm.enter(KIND_OTHER, format!("interleaved: {:?} {:?}", srcs, order).as_bytes());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut p: Vec<PythonCoreParser> = srcs.iter().map(|s| PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(s.to_string())))).collect();
            for x in p.iter_mut() { x.advance(); }
            let mut out = [vec![], vec![]];
            for o in order { let k = *o as usize; out[k].push(match p[k].parse_statements_stmt() { Ok(t) => serialise(&t, None), Err(_) => vec![] }); }
            out
        }));
        shm.leave();
        c.runs += 1;
        r.ok()
    };
    let mut cases = vec![];
    for i in 0..progs.len() { for j in 0..progs.len() { for o in orders(progs[i].1, progs[j].1) { cases.push((i, j, o)); } } }
    list(c, "two parsers stepped statement by statement in every order", &cases, 50, &mut |c, (i, j, o)| {
        let alone = [run(c, [progs[*i].0, ""], &vec![false; progs[*i].1]), run(c, [progs[*j].0, ""], &vec![false; progs[*j].1])];
        let both = run(c, [progs[*i].0, progs[*j].0], o);
        let ok = match (&alone, &both) { ([Some(a), Some(b)], Some(x)) => a[0] == x[0] && b[0] == x[1], _ => false };
        if !ok { c.violation("other", &format!("{:?} and {:?} in order {:?}", progs[*i].0, progs[*j].0, o), "two parsers stepped in turn disturb each other".into()); }
    });
    let lexs = ["if a:\n  b\nc\n", "(a\n  b)\nc", "'x' \"y\"\n z", "\ta\n\t\tb\n", "# c\n\na # d\n", "1.5e3 0x_f\n", "((\n))", "a\\\n b\n"];
    let toks = |shm: &crate::sys::Shm, s: &str| lex_impl(shm, s).toks;
    let mut cases = vec![];
    for i in 0..lexs.len() { for j in 0..lexs.len() { for o in orders(5, 5) { cases.push((i, j, o)); } } }
    list(c, "two tokenizers stepped token by token in every order", &cases, 200, &mut |c, (i, j, o)| {
        c.shm.enter(KIND_OTHER, format!("interleaved tokenizers {:?} {:?} {:?}", lexs[*i], lexs[*j], o).as_bytes());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut l = [PythonCoreTokenizer::new(lexs[*i].to_string()), PythonCoreTokenizer::new(lexs[*j].to_string())];
            let mut out: [Vec<Option<Tok>>; 2] = [vec![], vec![]];
            for x in o { let k = *x as usize; out[k].push(l[k].get_symbol().ok().map(|t| from_impl(&t))); }
            out
        }));
        c.shm.leave();
        c.runs += 1;
        let (a, b) = (toks(&c.shm, lexs[*i]), toks(&c.shm, lexs[*j]));
        let same = |x: &Vec<Option<Tok>>, y: &Vec<Tok>| x.iter().enumerate().all(|(n, t)| n >= y.len() || t.as_ref() == Some(&y[n]));
        let ok = match &r { Ok(x) => same(&x[0], &a) && same(&x[1], &b), Err(_) => false };
        if !ok { c.violation("other", &format!("{:?} and {:?} in order {:?}", lexs[*i], lexs[*j], o), "two tokenizers stepped in turn disturb each other".into()); }
    });
}

// =============================================================================== C26

fn cursor(c: &mut Ctx) {
    // every text of up to n characters, every sequence of up to m calls
    let chars = ['a', 'é', '中', '\u{1f600}', '\n', '\0'];
    let n = c.q(4, 5);
    let m = c.q(6, 8);
    let mut texts: Vec<String> = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..n { let mut nx = vec![]; for t in &cur { for ch in chars { nx.push(format!("{}{}", t, ch)); } } texts.extend(nx.iter().cloned()); cur = nx; }
    fn check(b: &SourceBuffer, v: &[char], pos: usize) -> Option<String> {
        let at = |i: usize| if i < v.len() { v[i] } else { '\0' };
        if b.get_position() as usize != pos { return Some(format!("position {} after {} advances", b.get_position(), pos)); }
        if b.get_char() != at(pos) { return Some(format!("character {:?} at {}", b.get_char(), pos)); }
        if b.peek_three_chars() != (at(pos), at(pos + 1), at(pos + 2)) { return Some(format!("lookahead {:?} at {}", b.peek_three_chars(), pos)); }
        if b.count() as usize != v.len() { return Some(format!("length {} of {}", b.count(), v.len())); }
        None
    }
    list(c, "texts and call sequences", &texts, 20, &mut |c, t| {
        let v: Vec<char> = t.chars().collect();
        // all sequences over {advance, get_char, peek, position, count}, in base 5
        let depth = if v.len() < 3 { m } else { m - 2 };
        let total = 5usize.pow(depth as u32);
        for code in 0..total {
            c.shm.enter(KIND_OTHER, t.as_bytes());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut b = SourceBuffer::new(t.clone());
                let (mut x, mut pos) = (code, 0usize);
                for _ in 0..depth {
                    let at = |i: usize| if i < v.len() { v[i] } else { '\0' };
                    let bad = match x % 5 {
                        0 => { b.advance(); pos += 1; false }
                        1 => b.get_char() != at(pos),
                        2 => b.peek_three_chars() != (at(pos), at(pos + 1), at(pos + 2)),
                        3 => b.get_position() as usize != pos,
                        _ => b.count() as usize != v.len(),
                    };
                    if bad { return Some(format!("call {} of sequence {} differs at position {}", x % 5, code, pos)); }
                    x /= 5;
                }
                check(&b, &v, pos)
            }));
            c.shm.leave();
            c.runs += 1;
            c.transitions += depth as u64;
            c.state((h(t) as u64) << 20 | (code % 64) as u64);
            match r { Ok(None) => {} Ok(Some(w)) => { c.violation("cursor", t, w); return; } Err(_) => { c.violation("cursor", t, format!("panic {}", last_panic())); return; } }
        }
        c.accepted += 1;
        if c.accepted.is_power_of_two() { c.sample(format!("{:?}: {} call sequences of length {}", t, total, depth)); }
    });
    // every short text over the characters that are special somewhere
    let special: Vec<char> = "\0\u{1}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{e}\u{1a}\u{1b}\u{1c}\u{1f} \"#'/0A[\\a{~\u{7f}\u{80}\u{85}\u{9f}\u{a0}\u{ad}\u{df}é\u{ff}\u{100}\u{130}\u{2bc}\u{301}\u{3c2}\u{5d0}\u{7ff}\u{800}\u{e01}\u{200b}\u{200d}\u{200e}\u{2028}\u{2029}\u{202e}\u{2060}\u{3000}中\u{ac00}\u{d7ff}\u{e000}\u{fe0f}\u{feff}\u{fffc}\u{fffd}\u{fffe}\u{ffff}\u{10000}\u{1f600}\u{1f1e6}\u{e0001}\u{10fffe}\u{10ffff}".chars().collect();
    let mut v: Vec<Vec<char>> = vec![];
    for a in &special { for b in &special { v.push(vec![*a, *b]); for d in &special { v.push(vec![*a, *b, *d]); v.push(vec!['x', *a, *b, *d, 'y']); v.push(vec![*a, *b, *d, *a]); } } }
    if c.thorough() { for a in &special { for b in &special { for d in special.iter().step_by(2) { for e in special.iter().skip(1).step_by(2) { v.push(vec![*a, *d, *b, *e]); } } } } }
    list(c, "every short text over the special characters", &v, 2000, &mut |c, v| {
        let t: String = v.iter().collect();
        c.shm.enter(KIND_OTHER, t.as_bytes());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut b = SourceBuffer::new(t.clone());
            for pos in 0..v.len() + 3 { if let Some(m) = check(&b, v, pos) { return Some(m); } b.advance(); }
            None
        }));
        c.shm.leave();
        c.runs += 1;
        c.transitions += v.len() as u64 + 3;
        match r { Ok(None) => c.accepted += 1, Ok(Some(m)) => c.violation("cursor", &t, m), Err(_) => c.violation("cursor", &t, last_panic()) }
    });
    let mut big = vec![];
    for n in (0..80).chain([255, 256, 257, 1023, 4096, 65534, 65535, 65536, 65537, 70000, 100_000, c.q(600_000, 9_000_000)]) { for w in ["a", "é", "a中", "\u{1f600}b\n"] { big.push((w, n)); } }
    list(c, "long texts, every position", &big, 1, &mut |c, (w, n)| {
        let t = w.repeat(*n);
        let v: Vec<char> = t.chars().collect();
        c.shm.enter(KIND_OTHER, w.as_bytes());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut b = SourceBuffer::new(t.clone());
            for pos in 0..v.len() + 70 { if let Some(m) = check(&b, &v, pos) { return Some(m); } b.advance(); }
            None
        }));
        c.shm.leave();
        c.runs += 1;
        c.transitions += v.len() as u64;
        c.state(*n as u64 * 7 + w.len() as u64);
        match r { Ok(None) => c.accepted += 1, Ok(Some(m)) => c.violation("cursor", &format!("{:?} x {}", w, n), m), Err(_) => c.violation("cursor", &format!("{:?} x {}", w, n), format!("panic {}", last_panic())) }
    });
    // something unusual late, early, or in the middle of a long text
    let sizes: Vec<usize> = (1..c.q(140, 300)).chain([255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536]).collect();
    let mut v: Vec<(usize, char)> = vec![];
    for n in &sizes { for f in ['a', 'é', '中', '\u{1f600}', '\n', ' ', '\0'] { v.push((*n, f)); } }
    let odd = ["\u{e9}", "\u{4e2d}", "\u{1f600}", "\0", "\0\0", "\r\n", "\r", "\n", "\t", "\u{feff}", "\u{ad}", "e\u{301}", "\u{200d}", " ", "  ", "\n\n", "\u{1f1e9}\u{1f1ea}", "\u{2028}", "a", "\u{ffff}", "\u{10ffff}", "\\\n", "\u{1a}", "\u{85}", "\u{a0}"];
    list(c, "long texts with something unusual late in them", &v, 4, &mut |c, (n, f)| {
        for x in &odd { for w in 0..4 {
            if c.stopped() { return; }
            let fill: String = std::iter::repeat(*f).take(*n).collect();
            let t = match w { 0 => format!("{}{}", fill, x), 1 => format!("{}{}{}b", fill, x, fill), 2 => format!("{}{}", x, fill), _ => format!("{}{}b{}", fill, x, x) };
            let v: Vec<char> = t.chars().collect();
            c.shm.enter(KIND_OTHER, x.as_bytes());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut b = SourceBuffer::new(t.clone());
                for pos in 0..v.len() + 5 { if v.len() < 700 || pos + 40 > v.len() || pos < 20 || (pos + 20 > *n && pos < *n + 20) || pos % 61 == 0 { if let Some(m) = check(&b, &v, pos) { return Some(m); } } b.advance(); }
                None
            }));
            c.shm.leave();
            c.runs += 1;
            c.transitions += v.len() as u64;
            match r { Ok(None) => c.accepted += 1, Ok(Some(m)) => c.violation("cursor", &t, m), Err(_) => c.violation("cursor", &t, format!("panic {}", last_panic())) }
        } }
    });
    // two cursors moved in every order
    let texts = ["", "a", "ab\u{e9}c", "\u{1f600}\n\0x", "0123456789"];
    let mut v = vec![];
    for a in &texts { for b in &texts { for o in 0..1u32 << c.q(10, 14) { v.push((*a, *b, o)); } } }
    list(c, "two cursors moved in every order", &v, 500, &mut |c, (a, b, o)| {
        let (va, vb): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
        c.shm.enter(KIND_OTHER, a.as_bytes());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut x = SourceBuffer::new(a.to_string());
            let mut y = SourceBuffer::new(b.to_string());
            let (mut i, mut j) = (0, 0);
            for k in 0..14 { if o >> k == 0 && k > 9 { break; } if o >> k & 1 == 1 { x.advance(); i += 1; } else { y.advance(); j += 1; } if let Some(m) = check(&x, &va, i).or_else(|| check(&y, &vb, j)) { return Some(m); } }
            None
        }));
        c.shm.leave();
        c.runs += 1;
        match r { Ok(None) => c.accepted += 1, Ok(Some(m)) => c.violation("cursor", &format!("{:?} and {:?} in order {:b}", a, b, o), m), Err(_) => c.violation("cursor", &format!("{:?} and {:?} in order {:b}", a, b, o), last_panic()) }
    });
    // a short text and very many advances
    let far = vec!["", "a", "x\u{e9}\n\0y"];
    let most = c.q(1usize << 25, 1usize << 29);
    list(c, "many advances over a short text", &far, 1, &mut |c, w| {
        let v: Vec<char> = w.chars().collect();
        c.shm.enter(KIND_OTHER, w.as_bytes());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut b = SourceBuffer::new(w.to_string());
            for pos in 0..most { if pos.is_power_of_two() || pos < 300 || b.get_char() != '\0' || pos % 0xfff == 0 { if let Some(m) = check(&b, &v, pos) { return Some(m); } } b.advance(); }
            check(&b, &v, most)
        }));
        c.shm.leave();
        c.runs += 1;
        c.transitions += most as u64;
        match r { Ok(None) => c.accepted += 1, Ok(Some(m)) => c.violation("cursor", &format!("{:?} and many advances", w), m), Err(_) => c.violation("cursor", &format!("{:?} and many advances", w), format!("panic {}", last_panic())) }
    });
    let all: Vec<u32> = (0..0x110000u32).collect();
    list(c, "every character", &all, 20000, &mut |c, u| {
        if let Some(ch) = char::from_u32(*u) {
            for v in [vec!['x', ch, 'y'], vec![ch, 'y'], vec!['x', ch], vec![ch], vec![ch, ch, ch, 'z']] {
            let t: String = v.iter().collect();
            c.shm.enter(KIND_OTHER, t.as_bytes());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut b = SourceBuffer::new(t.clone());
                for pos in 0..6 { if let Some(m) = check(&b, &v, pos) { return Some(m); } b.advance(); }
                None
            }));
            c.shm.leave();
            c.runs += 1;
            c.transitions += 6;
            match r { Ok(None) => c.accepted += 1, Ok(Some(m)) => c.violation("cursor", &t, m), Err(_) => c.violation("cursor", &t, last_panic()) }
            }
        }
    });
}

// =============================================================================== C27

fn type_comment_sources(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let mut v = vec![];
    for p in programs() {
        for b in boundaries(&p) {
            for t in ["# type: int", " # type: ()->x", "# type:", "# not type: x", "#type: x"] {
                v.push(splice(&p, b, b, &format!("{}\n", t)));
                v.push(splice(&p, b, b, t));
                v.push(splice(&p, b, b, &format!("\n{}\n", t)));
                v.push(splice(&p, b, b, &format!("\n  {}", t)));
            }
        }
    }
    list(c, "type comments at every place of every program", &v, 200, &mut |c, s| f(c, s));
}

fn type_comments(c: &mut Ctx) {
    let mut lexj = |c: &mut Ctx, s: &str| { judge_lex(c, s, Aspect::Text); if !s.contains("\r\n") { judge_lex(c, s, Aspect::Tiling); } };
    // one edit away from '# type: x'
    let base = "# type: int";
    let ch: Vec<char> = base.chars().collect();
    let mut near: Vec<String> = vec![base.into()];
    let alpha: Vec<char> = (0x20u8..0x7f).map(|b| b as char).chain(['\t', 'é', '\u{c}', '\u{a0}']).collect();
    for i in 0..=ch.len() {
        for a in &alpha { let mut d = ch.clone(); d.insert(i, *a); near.push(d.iter().collect()); if i < ch.len() { let mut d = ch.clone(); d[i] = *a; near.push(d.iter().collect()); } }
        near.push(ch[..i].iter().collect());
        if i < ch.len() { let mut d = ch.clone(); d.remove(i); near.push(d.iter().collect()); near.push(ch[i..].iter().collect()); }
    }
    for w in ["ignore", "ignore[x]", "ignore # c", "(int) -> str", "(...) -> None", "List[int]", "", " ", "  x", "x # y", "int, str", "'s'", "# type: x", "\\", "(", "*a", "TYPE", "é", "noqa", "0", ":", "pragma: no cover"] { for m in ["# type:", "# type: ", "#  type: ", "# type : ", "# Type: ", "# types: ", "## type: ", "#\ttype: ", "# type:\t"] { near.push(format!("{}{}", m, w)); } }
    for w in ["noqa", "type", "type ignore", "-*- coding: utf-8 -*-", "!python", "fmt: off", "pylint: disable", "endif", "TODO", "region"] { near.push(format!("# {}", w)); near.push(format!("#{}", w)); }
    let mut v = vec![];
    for n in near.iter().filter(|n| n.starts_with('#')) { for (a, b) in [("", ""), ("", "\n"), ("a = b ", "\n"), ("a = b", "\nc\n"), ("(a ", "\n)"), ("for a in b: ", "\n  c\n"), ("def f(): ", "\n  c\n"), ("def f():\n  ", "\n  c\n"), ("a\n", "\nb"), ("a\n  ", "\n"), ("[", "\r]"), ("a \\\n ", "\r"), ("'s'", "")] { v.push(format!("{}{}{}", a, n, b)); } }
    list(c, "comments one edit away from a type comment", &v, 200, &mut |c, s| lexj(c, s));
    let n = c.q(7, 8);
    strings(c, "comments over the marker's characters", &["#", " ", "type", ":", "t", "x"], n, PLAIN, &mut lexj);
    strings(c, "type comments among other tokens", &["# type: x", "\n", "a", " ", "(", ")", "# c", "=", "\\\n"], c.q(5, 6), PLAIN, &mut lexj);
    let mut v = vec![];
    for n in (0..80).chain([255, 256, 65530, 70000]) { for w in ["x", "é", " ", "#", "'", "(", "\\", "# type: "] { v.push(format!("a = b # type: {}\nc\n", w.repeat(n))); v.push(format!("# type: {}", w.repeat(n))); v.push(format!("a{}# type: y\n", " ".repeat(n))); } }
    list(c, "long type comments", &v, 20, &mut |c, s| lexj(c, s));
    comment_texts(c, &mut |c, s| { lexj(c, s); check_tree(c, s, Mode::File); });
    // where the grammar takes them
    type_comment_sources(c, &mut |c, s| { check_tree(c, s, Mode::File); });
    for (p, f) in FAMS { if (*p == "C15" || *p == "C19") && f.pieces.iter().any(|x| x.contains("# type")) { let d = c.q(f.quick, f.thorough); explore(c, f, d, &mut |c, s| Some(check_tree(c, s, Mode::File))); } }
    use crate::engine::Fam;
    let fams = [
        Fam { name: "type comment lines", mode: Mode::File, prefix: "", suffix: "", sep: "", pieces: &["def f():", "for a in b:", "if c:", "class C:", " # type: x", "\n", "\n  ", "d", " = e", "# f"], quick: 6, thorough: 7 },
        Fam { name: "type comments after statements", mode: Mode::File, prefix: "", suffix: "\n", sep: "", pieces: &["a ", "= ", "b ", ": ", "+= ", "; ", ", ", "# type: x\n", "return ", "pass ", "yield "], quick: 6, thorough: 7 },
        Fam { name: "type comments after function headers", mode: Mode::File, prefix: "def f()", suffix: "", sep: "", pieces: &[":", " -> a", " # type: x", " # c", "\n", "\n  # type: y", "\n  # c", "\n  pass", " pass", "\n\n"], quick: 7, thorough: 8 },
        Fam { name: "type comments after loop headers", mode: Mode::File, prefix: "for a in b", suffix: "", sep: "", pieces: &[":", ", c", " # type: x", " # c", "\n", "\n  # type: y", "\n  pass", " pass", "\nelse:", "\n\n"], quick: 7, thorough: 8 },
    ];
    for f in &fams { let d = c.q(f.quick, f.thorough); explore(c, f, d, &mut |c, s| Some(check_tree(c, s, Mode::File))); }
    for m in [Mode::Eval, Mode::Single, Mode::FuncType] {
        strings(c, "type comments in other inputs", &["# type: x", "\n", "a ", "= ", "(", ")", "-> ", ": "], c.q(5, 6), PLAIN, &mut |c, s| { check_tree(c, s, m); });
    }
}

// =============================================================================== C29

fn error_places(c: &mut Ctx) {
    crate::slots::everywhere(c, &mut |c, s, m| { check_place(c, s, m); });
    let v = edit_cases(c);
    list(c, "one-token and one-line edits of every program", &v, 300, &mut |c, x| { check_place(c, &x.1, x.0); });
    more_edits(c, &mut |c, s, m| { check_place(c, s, m); });
    // the same programs with something before and after, so that places are not near the ends
    list(c, "the same inside a longer program", &v, 300, &mut |c, x| { if x.0 == Mode::File { let s = format!("if x:\n  y\n{}\nz\n", x.1); check_place(c, &s, x.0); } });
    let v = bad_cases(c);
    list(c, "a bad token at every place of every program", &v, 300, &mut |c, x| { check_place(c, &x.1, x.0); });
    all_families(c, (2, 2), &[Mode::File, Mode::Eval, Mode::FuncType, Mode::Single], |c, s, m| Some(check_place(c, s, m)));
    again(c, &mut |c, s, m| { check_place(c, s, m); });
    crate::more::far(c, true, &mut |c, s, m| { check_place(c, s, m); });
}

// =============================================================================== C30

/// The tokens of an accepted tree, with their trivia, put back in place give the source.
fn judge_rebuild(c: &mut Ctx, src: &str, mode: Mode) -> Option<Seen> {
    let mut full = Full::default();
    let i = parse_impl(&c.shm, src, mode, Some(&mut full));
    let m = model(src, mode, Dev::default(), Some(c));
    c.runs += 1;
    match &i.stat {
        Stat::Ok => {
            c.accepted += 1;
            let first = |t: &Tok| t.triv.iter().map(|x| x.s).min().unwrap_or(u32::MAX).min(t.s);
            let mut toks: Vec<Tok> = full.toks.into_iter().filter(|t| first(t) != NOPOS).collect();
            toks.sort_by_key(|t| (first(t), t.s, t.e, t.k == K::EOF));
            let n = src.chars().count() as u32;
            if c.accepted.is_power_of_two() { c.sample(format!("{} {:?}: {} tokens", kind_name(mode_kind(mode)), src, toks.len())); }
            let eof = toks.iter().any(|t| t.k == K::EOF && t.s == n);
            let il = ILex { toks, stat: Stat::Ok, final_ok: true };
            // the listed finding: exactly the tokens of the model with that deviation
            let crlf = || -> bool {
                let dv = lex(src, LexDev { crlf: true });
                let mut a: Vec<_> = dv.toks.iter().filter(|t| first(t) != NOPOS).map(key).collect();
                let mut b: Vec<_> = il.toks.iter().map(key).collect();
                a.sort();
                b.sort();
                a == b
            };
            if let Some(w) = tiling(src, &il) { if c.allows("crlf") && src.contains("\r\n") && crlf() { c.known("crlf", src); } else { c.violation(kind_name(mode_kind(mode)), src, w); } }
            else if !eof { c.violation(kind_name(mode_kind(mode)), src, "the tree does not reach the end of the source".into()); }
        }
        Stat::Panic(p) => c.violation(kind_name(mode_kind(mode)), src, format!("panic {}", p)),
        _ => {}
    }
    Some(Seen { m, i })
}

fn rebuild(c: &mut Ctx) {
    crate::slots::everywhere(c, &mut |c, s, m| if m != Mode::Single { judge_rebuild(c, s, m); });
    let v = sources(c);
    list(c, "programs, pairs and lengths", &v, 100, &mut |c, x| { judge_rebuild(c, &x.1, x.0); });
    let v = all_ladders(&many(c));
    list(c, "lists and chains of every length", &v, 50, &mut |c, x| if x.0 != Mode::Single { judge_rebuild(c, &x.1, x.0); });
    let v = edit_cases(c);
    list(c, "one-token and one-line edits of every program", &v, 300, &mut |c, x| if x.0 != Mode::Single { judge_rebuild(c, &x.1, x.0); });
    let v = layout_variants(c, c.thorough());
    list(c, "layout variants", &v, 100, &mut |c, x| if !x.1.contains("\r\n") { judge_rebuild(c, &x.1, Mode::File); });
    type_comment_sources(c, &mut |c, s| { judge_rebuild(c, s, Mode::File); });
    let al = ["a", " ", "\t", "\n", "\r", "\\\n", "# c", "# type: t", "(", ")", ",", ":", "'s'", "\u{e9}", "\u{20ac}"];
    strings(c, "short texts", &al, c.q(5, 6), &[("", ""), ("a = (", "b)\n")], &mut |c, s| { judge_rebuild(c, s, Mode::File); });
    strings(c, "short texts in a block", &al, c.q(4, 5), &[("if a:", "\n  b\nc\n"), ("if a:\n  b", "\nelse:\n  c\n"), ("@a\ndef f():", "\n\tb\n")], &mut |c, s| { judge_rebuild(c, s, Mode::File); });
    strings(c, "short expressions", &al, c.q(5, 6), &[("a", ""), ("[a,", "b]\n")], &mut |c, s| { judge_rebuild(c, s, Mode::Eval); });
    strings(c, "short function types", &al, c.q(4, 5), &[("(a", ") -> b"), ("() -> a", "")], &mut |c, s| { judge_rebuild(c, s, Mode::FuncType); });
    all_families(c, (3, 3), THREE, judge_rebuild);
    again(c, &mut |c, s, m| if m != Mode::Single { judge_rebuild(c, s, m); });
    let n = c.q(4, 6);
    crate::wider::trivia(c, n, crate::wider::LAYOUT, crate::wider::PLACES, &mut |c, s| { judge_rebuild(c, s, Mode::File); });
    crate::more::late(c, &mut |c, s| { judge_rebuild(c, s, Mode::File); });
}
