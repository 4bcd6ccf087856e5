//! Token kinds and the conversion from the implementation's tokens to plain records.
use python_core_rust::{Token, Trivia};

macro_rules! kinds {
    ($($p:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        #[repr(u8)]
        #[allow(dead_code)]
        pub enum K { $($p,)* AtomName, AtomNumber, AtomString, Newline, Indent, Dedent, TypeComment, EOF, LexErr }

        /// Plain record of an implementation token.
        pub fn from_impl(t: &Token) -> Tok {
            match t {
                $( Token::$p(s, e, tr) => Tok::new(K::$p, *s, *e, tr), )*
                Token::AtomName(s, e, tr, x) => Tok::new(K::AtomName, *s, *e, tr).text(x),
                Token::AtomNumber(s, e, tr, x) => Tok::new(K::AtomNumber, *s, *e, tr).text(x),
                Token::AtomString(s, e, tr, x, p) => { let mut t = Tok::new(K::AtomString, *s, *e, tr).text(x); t.prefix = p.clone(); t },
                Token::Newline(s, e, tr, a, b) => { let mut t = Tok::new(K::Newline, *s, *e, tr); t.nl = (*a, *b); t },
                Token::Indent(tr) => Tok::new(K::Indent, NOPOS, NOPOS, tr),
                Token::Dedent(tr) => Tok::new(K::Dedent, NOPOS, NOPOS, tr),
                Token::TypeComment(s, e, tr, x) => Tok::new(K::TypeComment, *s, *e, tr).text(x),
                Token::EOF(p, tr) => Tok::new(K::EOF, *p, *p, tr),
                #[allow(unreachable_patterns)]
                _ => Tok::plain(K::LexErr, 0, 0),
            }
        }

        /// Kind and span only, without copying texts and trivia.
        pub fn kind_of(t: &Token) -> (K, u32, u32) {
            match t {
                $( Token::$p(s, e, _) => (K::$p, *s, *e), )*
                Token::AtomName(s, e, ..) => (K::AtomName, *s, *e),
                Token::AtomNumber(s, e, ..) => (K::AtomNumber, *s, *e),
                Token::AtomString(s, e, ..) => (K::AtomString, *s, *e),
                Token::Newline(s, e, ..) => (K::Newline, *s, *e),
                Token::Indent(..) => (K::Indent, NOPOS, NOPOS),
                Token::Dedent(..) => (K::Dedent, NOPOS, NOPOS),
                Token::TypeComment(s, e, ..) => (K::TypeComment, *s, *e),
                Token::EOF(p, _) => (K::EOF, *p, *p),
                #[allow(unreachable_patterns)]
                _ => (K::LexErr, 0, 0),
            }
        }
    };
}

kinds! {
    PyFalse, PyNone, PyTrue, PyAnd, PyAs, PyAssert, PyAsync, PyAwait, PyBreak, PyClass, PyContinue, PyDef, PyDel, PyElif, PyElse, PyExcept, PyFinally, PyFor, PyFrom, PyGlobal, PyIf, PyImport, PyIn, PyIs, PyLambda, PyNonLocal, PyNot, PyOr, PyPass, PyRaise, PyReturn, PyTry, PyWhile, PyWith, PyYield, PyPlus, PyMinus, PyMul, PyPower, PyDiv, PyFloorDiv, PyModulo, PyMatrice, PyShiftLeft, PyShiftRight, PyBitAnd, PyBitOr, PyBitXor, PyBitInvert, PyColonAssign, PyLess, PyGreater, PyLessEqual, PyGreaterEqual, PyEqual, PyNotEqual, PyLeftParen, PyLeftBracket, PyLeftCurly, PyRightParen, PyRightBracket, PyRightCurly, PyComa, PyColon, PyDot, PySemiColon, PyAssign, PyArrow, PyPlusAssign, PyMinusAssign, PyMulAssign, PyDivAssign, PyFloorDivAssign, PyModuloAssign, PyMatriceAssign, PyBitAndAssign, PyBitOrAssign, PyBitXorAssign, PyShiftLeftAssign, PyShiftRightAssign, PyPowerAssign, PyElipsis
}

/// Indent and dedent tokens carry no position.
pub const NOPOS: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum TrK { White, Newline, Continuation, Comment }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Tr { pub k: TrK, pub s: u32, pub e: u32, pub text: String }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tok {
    pub k: K, pub s: u32, pub e: u32,
    pub text: String, pub prefix: Option<String>, pub nl: (char, char),
    /// in source order
    pub triv: Vec<Tr>,
}

impl Tok {
    pub fn plain(k: K, s: u32, e: u32) -> Tok { Tok { k, s, e, text: String::new(), prefix: None, nl: ('-', '-'), triv: Vec::new() } }
    fn new(k: K, s: u32, e: u32, tr: &Option<Box<Vec<Box<Trivia>>>>) -> Tok {
        let mut t = Tok::plain(k, s, e);
        if let Some(v) = tr { for x in v.iter().rev() { t.triv.push(trivia(x)); } }
        t
    }
    fn text(mut self, x: &str) -> Tok { self.text = x.to_string(); self }
}

/// The text of a trivia item: the characters the item says it stands for.
fn trivia(t: &Trivia) -> Tr {
    fn chars(v: &[char]) -> String { v.iter().filter(|c| **c != ' ').collect() }
    match t {
        Trivia::WhiteSpace(s, e, c) => Tr { k: TrK::White, s: *s, e: *e, text: c.to_string() },
        Trivia::Newline(s, e, a, b) => Tr { k: TrK::Newline, s: *s, e: *e, text: chars(&[*a, *b]) },
        Trivia::LineContinuation(s, e, a, b, c) => Tr { k: TrK::Continuation, s: *s, e: *e, text: chars(&[*a, *b, *c]) },
        Trivia::Comment(s, e, x) => Tr { k: TrK::Comment, s: *s, e: *e, text: x.to_string() },
    }
}
