//! Reference lexer: a direct transcription of Python's lexical rules (Language Reference,
//! chapter 2) with the conventions of this code base (tab stops of four, trivia attached to the
//! next token, type comments as tokens). Written without looking for speed or sharing.
use crate::toks::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    /// end of file was delivered
    Eof,
    /// a lexical error must be reported instead of the next token
    Error,
    /// after the tokens so far, both an error (at the last token too) and any continuation are allowed
    Open,
}

pub struct Lexed {
    pub toks: Vec<Tok>,
    pub end: End,
    /// index of the first token that exists only because the source ends here
    pub eof_from: usize,
    /// model states passed through (brackets, indentation, flags), one per token
    pub states: Vec<u64>,
    /// where the erroneous token starts
    pub err_at: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct LexDev {
    /// known finding: a CR LF line break takes the following character with it
    pub crlf: bool,
}

pub const KEYWORDS: [(&str, K); 35] = [
    ("False", K::PyFalse), ("None", K::PyNone), ("True", K::PyTrue), ("and", K::PyAnd), ("as", K::PyAs),
    ("assert", K::PyAssert), ("async", K::PyAsync), ("await", K::PyAwait), ("break", K::PyBreak),
    ("class", K::PyClass), ("continue", K::PyContinue), ("def", K::PyDef), ("del", K::PyDel),
    ("elif", K::PyElif), ("else", K::PyElse), ("except", K::PyExcept), ("finally", K::PyFinally),
    ("for", K::PyFor), ("from", K::PyFrom), ("global", K::PyGlobal), ("if", K::PyIf), ("import", K::PyImport),
    ("in", K::PyIn), ("is", K::PyIs), ("lambda", K::PyLambda), ("nonlocal", K::PyNonLocal), ("not", K::PyNot),
    ("or", K::PyOr), ("pass", K::PyPass), ("raise", K::PyRaise), ("return", K::PyReturn), ("try", K::PyTry),
    ("while", K::PyWhile), ("with", K::PyWith), ("yield", K::PyYield),
];

/// Operators and delimiters other than brackets.
pub const OPERATORS: [(&str, K); 43] = [
    ("**=", K::PyPowerAssign), ("//=", K::PyFloorDivAssign), ("<<=", K::PyShiftLeftAssign), (">>=", K::PyShiftRightAssign), ("...", K::PyElipsis),
    ("**", K::PyPower), ("*=", K::PyMulAssign), ("//", K::PyFloorDiv), ("/=", K::PyDivAssign), ("<<", K::PyShiftLeft),
    ("<=", K::PyLessEqual), ("<>", K::PyNotEqual), (">>", K::PyShiftRight), (">=", K::PyGreaterEqual), ("+=", K::PyPlusAssign),
    ("-=", K::PyMinusAssign), ("->", K::PyArrow), ("%=", K::PyModuloAssign), ("@=", K::PyMatriceAssign), ("&=", K::PyBitAndAssign),
    ("|=", K::PyBitOrAssign), ("^=", K::PyBitXorAssign), (":=", K::PyColonAssign), ("==", K::PyEqual), ("!=", K::PyNotEqual),
    ("*", K::PyMul), ("/", K::PyDiv), ("<", K::PyLess), (">", K::PyGreater), (".", K::PyDot), ("+", K::PyPlus), ("-", K::PyMinus),
    ("%", K::PyModulo), ("@", K::PyMatrice), ("&", K::PyBitAnd), ("|", K::PyBitOr), ("^", K::PyBitXor), ("~", K::PyBitInvert),
    (":", K::PyColon), (",", K::PyComa), (";", K::PySemiColon), ("=", K::PyAssign), ("\u{0}", K::LexErr),
];

pub const PREFIXES: [&str; 24] = [
    "r", "R", "u", "U", "b", "B", "f", "F", "br", "bR", "Br", "BR", "rb", "rB", "Rb", "RB", "fr", "fR", "Fr", "FR", "rf", "rF", "Rf", "RF",
];

// ---------------------------------------------------------------- numbers

/// One or more digits of the given class with single underscores between them.
fn digits(s: &[char], ok: fn(char) -> bool) -> bool {
    !s.is_empty()
        && s[0] != '_' && s[s.len() - 1] != '_'
        && s.iter().all(|c| ok(*c) || *c == '_')
        && !s.windows(2).any(|w| w[0] == '_' && w[1] == '_')
}
fn dec(c: char) -> bool { c.is_ascii_digit() }
fn hex(c: char) -> bool { c.is_ascii_hexdigit() }
fn oct(c: char) -> bool { ('0'..='7').contains(&c) }
fn bin(c: char) -> bool { c == '0' || c == '1' }

fn valid_integer(s: &[char]) -> bool {
    if s.len() > 2 && s[0] == '0' {
        // "0x" (["_"] hexdigit)+ : one underscore may follow the radix letter
        let body = if s[2] == '_' { &s[3..] } else { &s[2..] };
        match s[1] {
            'x' | 'X' => return digits(body, hex),
            'o' | 'O' => return digits(body, oct),
            'b' | 'B' => return digits(body, bin),
            _ => {}
        }
    }
    digits(s, dec) && (s[0] != '0' || s.iter().all(|c| *c == '0' || *c == '_'))
}

fn valid_pointfloat(s: &[char]) -> bool {
    match s.iter().position(|c| *c == '.') {
        None => false,
        Some(p) => {
            let (a, b) = (&s[..p], &s[p + 1..]);
            match (a.is_empty(), b.is_empty()) {
                (true, true) => false,
                (false, true) => digits(a, dec),
                (true, false) => digits(b, dec),
                (false, false) => digits(a, dec) && digits(b, dec),
            }
        }
    }
}

fn valid_float(s: &[char]) -> bool {
    if valid_pointfloat(s) { return true; }
    match s.iter().position(|c| *c == 'e' || *c == 'E') {
        None => false,
        Some(p) => {
            let m = &s[..p];
            let mut x = &s[p + 1..];
            if !x.is_empty() && (x[0] == '+' || x[0] == '-') { x = &x[1..]; }
            (digits(m, dec) || valid_pointfloat(m)) && digits(x, dec)
        }
    }
}

pub fn valid_number(s: &[char]) -> bool {
    if s.is_empty() { return false; }
    if valid_integer(s) || valid_float(s) { return true; }
    let l = s.len() - 1;
    (s[l] == 'j' || s[l] == 'J') && (digits(&s[..l], dec) || valid_float(&s[..l]))
}

enum Num { Token(usize), TokenThenOpen(usize), Error }

/// The numeric literal that starts at the beginning of `s` (which starts with a digit, or a dot and a digit).
fn number(s: &[char]) -> Num {
    let mut m = 0;
    while m < s.len() && (s[m].is_ascii_alphanumeric() || "_.+-".contains(s[m])) { m += 1; }
    let mut l = 0;
    for k in (1..=m).rev() { if valid_number(&s[..k]) { l = k; break; } }
    let last = s[l - 1];
    let next = if l < s.len() { s[l] } else { ' ' };
    if next == '_' && (last.is_ascii_digit() || last == '.') { return Num::Error; }            // dangling or doubled underscore
    if next == '_' && s[0] == '0' && l > 2 && "xX".contains(s[1]) { return Num::Error; }
    if l == 1 && s[0] == '0' && "xXoObB".contains(next) { return Num::Error; }                 // radix prefix without digits
    if next.is_ascii_digit() && s[..l].iter().all(|c| *c == '0' || *c == '_') { return Num::Error; } // leading zero
    if next == '_' || next.is_alphanumeric() { return Num::TokenThenOpen(l); }
    Num::Token(l)
}

// ---------------------------------------------------------------- strings

/// Length of the string literal whose opening quote is s[0]; None if it is not closed.
fn string(s: &[char]) -> Option<usize> {
    let q = s[0];
    let at = |i: usize| if i < s.len() { s[i] } else { '\0' };
    let triple = at(1) == q && at(2) == q;
    if !triple && at(1) == q { return Some(2); }
    let mut i = if triple { 3 } else { 1 };
    loop {
        match at(i) {
            '\0' => return None,
            '\\' => {
                i += 1;
                match (at(i), at(i + 1)) {
                    ('\0', _) => return None,
                    ('\r', '\n') => i += 2,
                    _ => i += 1,
                }
            }
            '\r' | '\n' if !triple => return None,
            c if c == q && !triple => return Some(i + 1),
            c if c == q && at(i + 1) == q && at(i + 2) == q => return Some(i + 3),
            _ => i += 1,
        }
    }
}

// ---------------------------------------------------------------- the lexer

/// One step of the hash kept along with the bracket stack.
fn mix(h: u64, x: u64) -> u64 { (h ^ x).wrapping_mul(0x100000001b3) }

fn hash_state(parens: u64, indents: &[u32], flags: u32, last: K) -> u64 {
    let mut h = parens;
    let mut add = |x: u64| { h = mix(h, x); };
    add(7777);
    for c in indents { add(*c as u64); }
    add(8888);
    add(flags as u64);
    add(last as u64);
    h
}

pub fn lex(src: &str, dev: LexDev) -> Lexed {
    let c: Vec<char> = src.chars().collect();
    lex_chars(&c, dev)
}

pub fn lex_chars(c: &[char], dev: LexDev) -> Lexed {
    let at = |i: usize| if i < c.len() { c[i] } else { '\0' };
    let mut out = Lexed { toks: Vec::new(), end: End::Eof, eof_from: usize::MAX, states: Vec::new(), err_at: 0 };
    let mut pos = 0usize;
    let mut bol = true;
    let mut blank = false; // the current physical line started blank and holds no token yet
    let mut open = false; // the current logical line holds a token
    let mut parens: Vec<char> = Vec::new();
    let mut hashes: Vec<u64> = vec![0xcbf29ce484222325]; // of the bracket stack at every depth
    let mut indents: Vec<u32> = vec![0];
    let mut triv: Vec<Tr> = Vec::new();

    macro_rules! emit {
        ($k:expr, $s:expr, $e:expr) => {{
            let mut t = Tok::plain($k, $s as u32, $e as u32);
            t.triv = std::mem::take(&mut triv);
            out.states.push(hash_state(hashes[hashes.len() - 1], &indents, (open as u32) | (blank as u32) << 1, $k));
            out.toks.push(t);
        }};
    }
    macro_rules! fail {
        ($e:expr) => {{ out.end = $e; out.err_at = pos as u32; if out.eof_from > out.toks.len() { out.eof_from = out.toks.len(); } return out; }};
    }

    loop {
        if bol {
            bol = false;
            let mut col = 0u32;
            loop {
                match at(pos) {
                    ' ' => col += 1,
                    '\t' => col = (col / 4 + 1) * 4,
                    _ => break,
                }
                pos += 1;
            }
            blank = matches!(at(pos), '#' | '\r' | '\n' | '\0');
            if !blank && parens.is_empty() {
                let top = indents[indents.len() - 1];
                if col > top {
                    indents.push(col);
                    emit!(K::Indent, NOPOS, NOPOS);
                } else if col < top {
                    if !indents.contains(&col) { fail!(End::Error); }
                    while indents[indents.len() - 1] > col {
                        indents.pop();
                        emit!(K::Dedent, NOPOS, NOPOS);
                    }
                }
            }
        }
        // white space
        while at(pos) == ' ' || at(pos) == '\t' {
            let s = pos;
            if at(pos) == '\t' { pos += 1; } else { while at(pos) == ' ' { pos += 1; } }
            triv.push(Tr { k: TrK::White, s: s as u32, e: pos as u32, text: at(s).to_string() });
        }
        let s = pos;
        // comments
        if at(pos) == '#' {
            while !matches!(at(pos), '\r' | '\n' | '\0') { pos += 1; }
            let text: String = c[s..pos].iter().collect();
            if text.starts_with("# type:") {
                blank = false;
                open = true;
                emit!(K::TypeComment, s, pos);
                out.toks.last_mut().unwrap().text = text;
            } else {
                triv.push(Tr { k: TrK::Comment, s: s as u32, e: pos as u32, text });
            }
            continue;
        }
        // end of file
        if at(pos) == '\0' {
            out.eof_from = out.toks.len();
            if parens.is_empty() {
                if open {
                    emit!(K::Newline, pos, pos);
                    out.toks.last_mut().unwrap().nl = (' ', ' ');
                }
                while indents.len() > 1 {
                    indents.pop();
                    emit!(K::Dedent, NOPOS, NOPOS);
                }
            }
            emit!(K::EOF, pos, pos);
            return out;
        }
        // line breaks
        if at(pos) == '\r' || at(pos) == '\n' {
            let nl = if at(pos) == '\r' && at(pos + 1) == '\n' { ('\r', '\n') } else { (at(pos), ' ') };
            pos += if nl.1 == '\n' { if dev.crlf { 3 } else { 2 } } else { 1 };
            if blank || !parens.is_empty() {
                let text = if nl.1 == '\n' { "\r\n".to_string() } else { nl.0.to_string() };
                triv.push(Tr { k: TrK::Newline, s: s as u32, e: pos as u32, text });
            } else {
                open = false;
                emit!(K::Newline, s, pos);
                out.toks.last_mut().unwrap().nl = nl;
            }
            bol = true;
            continue;
        }
        // backslash continuation
        if at(pos) == '\\' {
            match (at(pos + 1), at(pos + 2)) {
                ('\r', '\n') => pos += 3,
                ('\r', _) | ('\n', _) => pos += 2,
                _ => fail!(End::Error),
            }
            triv.push(Tr { k: TrK::Continuation, s: s as u32, e: pos as u32, text: c[s..pos].iter().collect() });
            continue;
        }
        blank = false;
        open = true;
        let ch = at(pos);
        // brackets
        if let Some(i) = "([{".find(ch) {
            parens.push([')', ']', '}'][i]);
            hashes.push(mix(hashes[hashes.len() - 1], i as u64 + 1));
            pos += 1;
            emit!([K::PyLeftParen, K::PyLeftBracket, K::PyLeftCurly][i], s, pos);
            continue;
        }
        if let Some(i) = ")]}".find(ch) {
            if parens.pop() != Some(ch) { fail!(End::Error); }
            hashes.pop();
            pos += 1;
            emit!([K::PyRightParen, K::PyRightBracket, K::PyRightCurly][i], s, pos);
            continue;
        }
        // names, keywords, prefixed strings
        if ch.is_alphabetic() || ch == '_' {
            while at(pos).is_alphanumeric() || at(pos) == '_' { pos += 1; }
            let word: String = c[s..pos].iter().collect();
            if (at(pos) == '\'' || at(pos) == '"') && PREFIXES.contains(&word.as_str()) {
                let p = pos;
                match string(&c[p..]) {
                    None => { pos = s; fail!(End::Error) }
                    Some(n) => pos += n,
                }
                emit!(K::AtomString, s, pos);
                let t = out.toks.last_mut().unwrap();
                t.text = c[p..pos].iter().collect();
                t.prefix = Some(word);
                continue;
            }
            match KEYWORDS.iter().find(|x| x.0 == word) {
                Some(x) => emit!(x.1, s, pos),
                None => {
                    emit!(K::AtomName, s, pos);
                    out.toks.last_mut().unwrap().text = word;
                }
            }
            continue;
        }
        // numbers
        if ch.is_ascii_digit() || (ch == '.' && at(pos + 1).is_ascii_digit()) {
            let (n, open_after) = match number(&c[pos..]) {
                Num::Error => fail!(End::Error),
                Num::Token(n) => (n, false),
                Num::TokenThenOpen(n) => (n, true),
            };
            pos += n;
            emit!(K::AtomNumber, s, pos);
            out.toks.last_mut().unwrap().text = c[s..pos].iter().collect();
            if open_after { fail!(End::Open); }
            continue;
        }
        // strings
        if ch == '\'' || ch == '"' {
            match string(&c[pos..]) {
                None => fail!(End::Error),
                Some(n) => pos += n,
            }
            emit!(K::AtomString, s, pos);
            out.toks.last_mut().unwrap().text = c[s..pos].iter().collect();
            continue;
        }
        // operators: longest first
        let mut found = None;
        for n in [3usize, 2, 1] {
            if pos + n > c.len() { continue; }
            let cand: String = c[pos..pos + n].iter().collect();
            if let Some(x) = OPERATORS.iter().find(|x| x.0 == cand) { found = Some((n, x.1)); break; }
        }
        match found {
            None => fail!(End::Error),
            Some((n, k)) => {
                pos += n;
                emit!(k, s, pos);
            }
        }
    }
}
