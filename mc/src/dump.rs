//! Walks an implementation tree field by field, in the order of the public node definitions, with
//! lists put in source order (this code base keeps most lists reversed). Written once from
//! src/parser/nodes.rs; it does not interpret anything.
use python_core_rust::{ASTNode, Token};

pub trait Walk {
    fn begin(&mut self, name: &'static str, s: u32, e: u32);
    fn end(&mut self);
    fn open(&mut self);
    fn close(&mut self);
    fn nil(&mut self);
    fn tok(&mut self, t: &Token);
    fn node(&mut self, n: &ASTNode);
}

pub fn walk<W: Walk>(w: &mut W, n: &ASTNode) {
    match n {
        ASTNode::NamedExpr(s, e, f0, f1, f2) => { w.begin("NamedExpr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::Test(s, e, f0, f1, f2, f3, f4) => { w.begin("Test", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.tok(f3); w.node(f4); w.end(); }
        ASTNode::Lambda(s, e, f0, f1, f2, f3) => { w.begin("Lambda", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.tok(f2); w.node(f3); w.end(); }
        ASTNode::OrTest(s, e, f0, f1, f2) => { w.begin("OrTest", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::AndTest(s, e, f0, f1, f2) => { w.begin("AndTest", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::NotTest(s, e, f0, f1) => { w.begin("NotTest", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::LessComparison(s, e, f0, f1, f2) => { w.begin("LessComparison", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::LessEqualComparison(s, e, f0, f1, f2) => { w.begin("LessEqualComparison", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::EqualComparison(s, e, f0, f1, f2) => { w.begin("EqualComparison", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::GreaterComparison(s, e, f0, f1, f2) => { w.begin("GreaterComparison", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::GreaterEqualComparison(s, e, f0, f1, f2) => { w.begin("GreaterEqualComparison", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::NotEqualComparison(s, e, f0, f1, f2) => { w.begin("NotEqualComparison", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::InComparison(s, e, f0, f1, f2) => { w.begin("InComparison", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::IsComparison(s, e, f0, f1, f2) => { w.begin("IsComparison", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::NotInComparison(s, e, f0, f1, f2, f3) => { w.begin("NotInComparison", *s, *e); w.node(f0); w.tok(f1); w.tok(f2); w.node(f3); w.end(); }
        ASTNode::IsNotComparison(s, e, f0, f1, f2, f3) => { w.begin("IsNotComparison", *s, *e); w.node(f0); w.tok(f1); w.tok(f2); w.node(f3); w.end(); }
        ASTNode::StarExpr(s, e, f0, f1) => { w.begin("StarExpr", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::Expr(s, e, f0, f1, f2) => { w.begin("Expr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::XorExpr(s, e, f0, f1, f2) => { w.begin("XorExpr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::AndExpr(s, e, f0, f1, f2) => { w.begin("AndExpr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::ShiftLeftExpr(s, e, f0, f1, f2) => { w.begin("ShiftLeftExpr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::ShiftRightExpr(s, e, f0, f1, f2) => { w.begin("ShiftRightExpr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::PlusArithExpr(s, e, f0, f1, f2) => { w.begin("PlusArithExpr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::MinusArithExpr(s, e, f0, f1, f2) => { w.begin("MinusArithExpr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::MulTerm(s, e, f0, f1, f2) => { w.begin("MulTerm", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::DivTerm(s, e, f0, f1, f2) => { w.begin("DivTerm", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::FloorDivTerm(s, e, f0, f1, f2) => { w.begin("FloorDivTerm", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::ModuloTerm(s, e, f0, f1, f2) => { w.begin("ModuloTerm", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::MatriceTerm(s, e, f0, f1, f2) => { w.begin("MatriceTerm", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::UnaryPlus(s, e, f0, f1) => { w.begin("UnaryPlus", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::UnaryMinus(s, e, f0, f1) => { w.begin("UnaryMinus", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::UnaryInvert(s, e, f0, f1) => { w.begin("UnaryInvert", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::PowerExpr(s, e, f0, f1, f2) => { w.begin("PowerExpr", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::AtomExpr(s, e, f0, f1, f2) => { w.begin("AtomExpr", *s, *e); match f0 { Some(x) => w.tok(x), None => w.nil() } w.node(f1); w.open(); for x in f2.iter() { w.node(x); } w.close(); w.end(); }
        ASTNode::AtomName(s, e, f0) => { w.begin("AtomName", *s, *e); w.tok(f0); w.end(); }
        ASTNode::AtomNumber(s, e, f0) => { w.begin("AtomNumber", *s, *e); w.tok(f0); w.end(); }
        ASTNode::AtomString(s, e, f0) => { w.begin("AtomString", *s, *e); w.open(); for x in f0.iter() { w.tok(x); } w.close(); w.end(); }
        ASTNode::AtomElipsis(s, e, f0) => { w.begin("AtomElipsis", *s, *e); w.tok(f0); w.end(); }
        ASTNode::AtomNone(s, e, f0) => { w.begin("AtomNone", *s, *e); w.tok(f0); w.end(); }
        ASTNode::AtomTrue(s, e, f0) => { w.begin("AtomTrue", *s, *e); w.tok(f0); w.end(); }
        ASTNode::AtomFalse(s, e, f0) => { w.begin("AtomFalse", *s, *e); w.tok(f0); w.end(); }
        ASTNode::AtomTuple(s, e, f0, f1, f2) => { w.begin("AtomTuple", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.tok(f2); w.end(); }
        ASTNode::AtomList(s, e, f0, f1, f2) => { w.begin("AtomList", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.tok(f2); w.end(); }
        ASTNode::AtomDictionary(s, e, f0, f1, f2) => { w.begin("AtomDictionary", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.tok(f2); w.end(); }
        ASTNode::AtomSet(s, e, f0, f1, f2) => { w.begin("AtomSet", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.tok(f2); w.end(); }
        ASTNode::TestListComp(s, e, f0, f1) => { w.begin("TestListComp", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::CallTrailer(s, e, f0, f1, f2) => { w.begin("CallTrailer", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.tok(f2); w.end(); }
        ASTNode::IndexTrailer(s, e, f0, f1, f2) => { w.begin("IndexTrailer", *s, *e); w.tok(f0); w.node(f1); w.tok(f2); w.end(); }
        ASTNode::DotNameTrailer(s, e, f0, f1) => { w.begin("DotNameTrailer", *s, *e); w.tok(f0); w.tok(f1); w.end(); }
        ASTNode::SubscriptList(s, e, f0, f1) => { w.begin("SubscriptList", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::Subscript(s, e, f0, f1, f2, f3, f4) => { w.begin("Subscript", *s, *e); match f0 { Some(x) => w.node(x), None => w.nil() } match f1 { Some(x) => w.tok(x), None => w.nil() } match f2 { Some(x) => w.node(x), None => w.nil() } match f3 { Some(x) => w.tok(x), None => w.nil() } match f4 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::ExprList(s, e, f0, f1) => { w.begin("ExprList", *s, *e); w.open(); for x in f0.iter() { w.node(x); } w.close(); w.open(); for x in f1.iter() { w.tok(x); } w.close(); w.end(); }
        ASTNode::TestList(s, e, f0, f1) => { w.begin("TestList", *s, *e); w.open(); for x in f0.iter() { w.node(x); } w.close(); w.open(); for x in f1.iter() { w.tok(x); } w.close(); w.end(); }
        ASTNode::DictionaryContainer(s, e, f0, f1) => { w.begin("DictionaryContainer", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::DictionaryEntry(s, e, f0, f1, f2) => { w.begin("DictionaryEntry", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::SetContainer(s, e, f0, f1) => { w.begin("SetContainer", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::MulSet(s, e, f0, f1) => { w.begin("MulSet", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::PowerDictionary(s, e, f0, f1) => { w.begin("PowerDictionary", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::ClassDef(s, e, f0, f1, f2, f3, f4, f5, f6) => { w.begin("ClassDef", *s, *e); w.tok(f0); w.tok(f1); match f2 { Some(x) => w.tok(x), None => w.nil() } match f3 { Some(x) => w.node(x), None => w.nil() } match f4 { Some(x) => w.tok(x), None => w.nil() } w.tok(f5); w.node(f6); w.end(); }
        ASTNode::ArgList(s, e, f0, f1) => { w.begin("ArgList", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::Argument(s, e, f0, f1, f2) => { w.begin("Argument", *s, *e); match f0 { Some(x) => w.node(x), None => w.nil() } match f1 { Some(x) => w.tok(x), None => w.nil() } match f2 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::SyncCompForComprehension(s, e, f0, f1, f2, f3, f4) => { w.begin("SyncCompForComprehension", *s, *e); w.tok(f0); w.node(f1); w.tok(f2); w.node(f3); match f4 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::CompForComprehension(s, e, f0, f1) => { w.begin("CompForComprehension", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::CompIfComprehension(s, e, f0, f1, f2) => { w.begin("CompIfComprehension", *s, *e); w.tok(f0); w.node(f1); match f2 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::YieldExpr(s, e, f0, f1) => { w.begin("YieldExpr", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::YieldFromExpr(s, e, f0, f1, f2) => { w.begin("YieldFromExpr", *s, *e); w.tok(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::FuncBodySuite(s, e, f0, f1, f2, f3, f4, f5) => { w.begin("FuncBodySuite", *s, *e); w.tok(f0); match f1 { Some(x) => w.tok(x), None => w.nil() } match f2 { Some(x) => w.tok(x), None => w.nil() } w.tok(f3); w.open(); for x in f4.iter().rev() { w.node(x); } w.close(); w.tok(f5); w.end(); }
        ASTNode::FuncTypeInput(s, e, f0, f1, f2) => { w.begin("FuncTypeInput", *s, *e); w.node(f0); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.tok(f2); w.end(); }
        ASTNode::FuncType(s, e, f0, f1, f2, f3, f4) => { w.begin("FuncType", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.tok(f2); w.tok(f3); w.node(f4); w.end(); }
        ASTNode::TypeList(s, e, f0, f1, f2, f3, f4, f5) => { w.begin("TypeList", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); match f2 { Some(x) => w.tok(x), None => w.nil() } match f3 { Some(x) => w.node(x), None => w.nil() } match f4 { Some(x) => w.tok(x), None => w.nil() } match f5 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::TestListStarExpr(s, e, f0, f1) => { w.begin("TestListStarExpr", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::SimpleStmtList(s, e, f0, f1, f2) => { w.begin("SimpleStmtList", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.tok(f2); w.end(); }
        ASTNode::PlusAssignStmt(s, e, f0, f1, f2) => { w.begin("PlusAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::MinusAssignStmt(s, e, f0, f1, f2) => { w.begin("MinusAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::MulAssignStmt(s, e, f0, f1, f2) => { w.begin("MulAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::DivAssignStmt(s, e, f0, f1, f2) => { w.begin("DivAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::FloorDivAssignStmt(s, e, f0, f1, f2) => { w.begin("FloorDivAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::ModuloAssignStmt(s, e, f0, f1, f2) => { w.begin("ModuloAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::MatriceAssignStmt(s, e, f0, f1, f2) => { w.begin("MatriceAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::PowerAssignStmt(s, e, f0, f1, f2) => { w.begin("PowerAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::ShiftLeftAssignStmt(s, e, f0, f1, f2) => { w.begin("ShiftLeftAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::ShiftRightAssignStmt(s, e, f0, f1, f2) => { w.begin("ShiftRightAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::BitOrAssignStmt(s, e, f0, f1, f2) => { w.begin("BitOrAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::BitXorAssignStmt(s, e, f0, f1, f2) => { w.begin("BitXorAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::BitAndAssignStmt(s, e, f0, f1, f2) => { w.begin("BitAndAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::AnnAssignStmt(s, e, f0, f1, f2, f3) => { w.begin("AnnAssignStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); match f3 { Some(x) => { w.tok(&x.0); w.node(&x.1); } None => w.nil() } w.end(); }
        ASTNode::AssignmentStmt(s, e, f0, f1, f2) => { w.begin("AssignmentStmt", *s, *e); w.node(f0); w.open(); for x in f1.iter() { w.tok(&x.0); w.node(&x.1); } w.close(); match f2 { Some(x) => w.tok(x), None => w.nil() } w.end(); }
        ASTNode::DelStmt(s, e, f0, f1) => { w.begin("DelStmt", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::PassStmt(s, e, f0) => { w.begin("PassStmt", *s, *e); w.tok(f0); w.end(); }
        ASTNode::BreakStmt(s, e, f0) => { w.begin("BreakStmt", *s, *e); w.tok(f0); w.end(); }
        ASTNode::ContinueStmt(s, e, f0) => { w.begin("ContinueStmt", *s, *e); w.tok(f0); w.end(); }
        ASTNode::ReturnStmt(s, e, f0, f1) => { w.begin("ReturnStmt", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::RaiseStmt(s, e, f0, f1) => { w.begin("RaiseStmt", *s, *e); w.tok(f0); match f1 { Some(x) => { w.node(&x.0); match &x.1 { Some(y) => { w.tok(&y.0); w.node(&y.1); } None => w.nil() } } None => w.nil() } w.end(); }
        ASTNode::ImportNameStmt(s, e, f0, f1) => { w.begin("ImportNameStmt", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::ImportFromStmt(s, e, f0, f1, f2, f3, f4, f5, f6) => { w.begin("ImportFromStmt", *s, *e); w.tok(f0); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); match f2 { Some(x) => w.node(x), None => w.nil() } w.tok(f3); match f4 { Some(x) => w.tok(x), None => w.nil() } match f5 { Some(x) => w.node(x), None => w.nil() } match f6 { Some(x) => w.tok(x), None => w.nil() } w.end(); }
        ASTNode::ImportAsName(s, e, f0, f1) => { w.begin("ImportAsName", *s, *e); w.tok(f0); match f1 { Some(x) => { w.tok(&x.0); w.tok(&x.1); } None => w.nil() } w.end(); }
        ASTNode::DottedAsNameStmt(s, e, f0, f1) => { w.begin("DottedAsNameStmt", *s, *e); w.node(f0); match f1 { Some(x) => { w.tok(&x.0); w.tok(&x.1); } None => w.nil() } w.end(); }
        ASTNode::ImportAsNamesStmt(s, e, f0, f1) => { w.begin("ImportAsNamesStmt", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::DottedAsNamesStmt(s, e, f0, f1) => { w.begin("DottedAsNamesStmt", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::DottedNameStmt(s, e, f0, f1) => { w.begin("DottedNameStmt", *s, *e); w.open(); for x in f0.iter().rev() { w.tok(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::GlobalStmt(s, e, f0, f1, f2) => { w.begin("GlobalStmt", *s, *e); w.tok(f0); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.open(); for x in f2.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::NonLocalStmt(s, e, f0, f1, f2) => { w.begin("NonLocalStmt", *s, *e); w.tok(f0); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.open(); for x in f2.iter().rev() { w.tok(x); } w.close(); w.end(); }
        ASTNode::AssertStmt(s, e, f0, f1, f2) => { w.begin("AssertStmt", *s, *e); w.tok(f0); w.node(f1); match f2 { Some(x) => { w.tok(&x.0); w.node(&x.1); } None => w.nil() } w.end(); }
        ASTNode::AsyncStmt(s, e, f0, f1) => { w.begin("AsyncStmt", *s, *e); w.tok(f0); w.node(f1); w.end(); }
        ASTNode::IfStmt(s, e, f0, f1, f2, f3, f4, f5) => { w.begin("IfStmt", *s, *e); w.tok(f0); w.node(f1); w.tok(f2); w.node(f3); w.open(); for x in f4.iter().rev() { w.node(x); } w.close(); match f5 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::ElifStmt(s, e, f0, f1, f2, f3) => { w.begin("ElifStmt", *s, *e); w.tok(f0); w.node(f1); w.tok(f2); w.node(f3); w.end(); }
        ASTNode::ElseStmt(s, e, f0, f1, f2) => { w.begin("ElseStmt", *s, *e); w.tok(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::WhileStmt(s, e, f0, f1, f2, f3, f4) => { w.begin("WhileStmt", *s, *e); w.tok(f0); w.node(f1); w.tok(f2); w.node(f3); match f4 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::ForStmt(s, e, f0, f1, f2, f3, f4, f5, f6, f7) => { w.begin("ForStmt", *s, *e); w.tok(f0); w.node(f1); w.tok(f2); w.node(f3); w.tok(f4); match f5 { Some(x) => w.tok(x), None => w.nil() } w.node(f6); match f7 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::TryStmt(s, e, f0, f1, f2, f3, f4, f5) => { w.begin("TryStmt", *s, *e); w.tok(f0); w.tok(f1); w.node(f2); match f3 { Some(v) => { w.open(); for x in v.iter().rev() { w.node(x); } w.close(); } None => w.nil() } match f4 { Some(x) => w.node(x), None => w.nil() } match f5 { Some(x) => w.node(x), None => w.nil() } w.end(); }
        ASTNode::FinallyStmt(s, e, f0, f1, f2) => { w.begin("FinallyStmt", *s, *e); w.tok(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::WithStmt(s, e, f0, f1, f2, f3, f4, f5, f6) => { w.begin("WithStmt", *s, *e); w.tok(f0); match f1 { Some(x) => w.tok(x), None => w.nil() } w.open(); for x in f2.iter().rev() { w.node(x); } w.close(); w.open(); for x in f3.iter().rev() { w.tok(x); } w.close(); match f4 { Some(x) => w.tok(x), None => w.nil() } w.tok(f5); w.node(f6); w.end(); }
        ASTNode::WithItem(s, e, f0, f1) => { w.begin("WithItem", *s, *e); w.node(f0); match f1 { Some(x) => { w.tok(&x.0); w.node(&x.1); } None => w.nil() } w.end(); }
        ASTNode::ExceptClauseStmt(s, e, f0, f1, f2) => { w.begin("ExceptClauseStmt", *s, *e); w.tok(f0); match f1 { Some(x) => w.tok(x), None => w.nil() } match f2 { Some(x) => { w.node(&x.0); match &x.1 { Some(y) => { w.tok(&y.0); w.tok(&y.1); } None => w.nil() } } None => w.nil() } w.end(); }
        ASTNode::ExceptStmt(s, e, f0, f1, f2) => { w.begin("ExceptStmt", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::SuiteStmt(s, e, f0, f1, f2, f3) => { w.begin("SuiteStmt", *s, *e); w.tok(f0); w.tok(f1); w.open(); for x in f2.iter().rev() { w.node(x); } w.close(); w.tok(f3); w.end(); }
        ASTNode::Decorator(s, e, f0, f1, f2, f3, f4, f5) => { w.begin("Decorator", *s, *e); w.tok(f0); w.node(f1); match f2 { Some(x) => w.tok(x), None => w.nil() } match f3 { Some(x) => w.node(x), None => w.nil() } match f4 { Some(x) => w.tok(x), None => w.nil() } w.tok(f5); w.end(); }
        ASTNode::Decorators(s, e, f0) => { w.begin("Decorators", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.end(); }
        ASTNode::Decorated(s, e, f0, f1) => { w.begin("Decorated", *s, *e); w.node(f0); w.node(f1); w.end(); }
        ASTNode::FuncDef(s, e, f0, f1, f2, f3, f4, f5, f6) => { w.begin("FuncDef", *s, *e); w.tok(f0); w.tok(f1); match f2 { Some(x) => w.node(x), None => w.nil() } match f3 { Some(x) => { w.tok(&x.0); w.node(&x.1); } None => w.nil() } w.tok(f4); match f5 { Some(x) => w.tok(x), None => w.nil() } w.node(f6); w.end(); }
        ASTNode::Parameter(s, e, f0, f1, f2) => { w.begin("Parameter", *s, *e); w.tok(f0); match f1 { Some(x) => w.node(x), None => w.nil() } w.tok(f2); w.end(); }
        ASTNode::TypedArgsList(s, e, f0, f1, f2, f3, f4) => { w.begin("TypedArgsList", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.open(); for x in f2.iter().rev() { w.tok(x); } w.close(); match f3 { Some(x) => { w.tok(&x.0); w.node(&x.1); } None => w.nil() } match f4 { Some(x) => { w.tok(&x.0); w.node(&x.1); } None => w.nil() } w.end(); }
        ASTNode::TFPAssign(s, e, f0, f1, f2) => { w.begin("TFPAssign", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::TFPDef(s, e, f0, f1) => { w.begin("TFPDef", *s, *e); w.tok(f0); match f1 { Some(x) => { w.tok(&x.0); w.node(&x.1); } None => w.nil() } w.end(); }
        ASTNode::VarArgsList(s, e, f0, f1, f2, f3, f4, f5, f6) => { w.begin("VarArgsList", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); match f2 { Some(x) => w.tok(x), None => w.nil() } match f3 { Some(x) => w.node(x), None => w.nil() } match f4 { Some(x) => w.tok(x), None => w.nil() } match f5 { Some(x) => w.node(x), None => w.nil() } match f6 { Some(x) => w.tok(x), None => w.nil() } w.end(); }
        ASTNode::VFPAssign(s, e, f0, f1, f2) => { w.begin("VFPAssign", *s, *e); w.node(f0); w.tok(f1); w.node(f2); w.end(); }
        ASTNode::VFPDef(s, e, f0) => { w.begin("VFPDef", *s, *e); w.tok(f0); w.end(); }
        ASTNode::SingleInput(s, e, f0, f1) => { w.begin("SingleInput", *s, *e); match f0 { Some(x) => w.node(x), None => w.nil() } match f1 { Some(x) => w.tok(x), None => w.nil() } w.end(); }
        ASTNode::FileInput(s, e, f0, f1, f2) => { w.begin("FileInput", *s, *e); w.open(); for x in f0.iter().rev() { w.node(x); } w.close(); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.tok(f2); w.end(); }
        ASTNode::EvalInput(s, e, f0, f1, f2) => { w.begin("EvalInput", *s, *e); w.node(f0); w.open(); for x in f1.iter().rev() { w.tok(x); } w.close(); w.tok(f2); w.end(); }
        #[allow(unreachable_patterns)]
        _ => { w.begin("?", 0, 0); w.end(); }
    }
}

pub const NAMES: [&str; 130] = ["NamedExpr", "Test", "Lambda", "OrTest", "AndTest", "NotTest", "LessComparison", "LessEqualComparison", "EqualComparison", "GreaterComparison", "GreaterEqualComparison", "NotEqualComparison", "InComparison", "IsComparison", "NotInComparison", "IsNotComparison", "StarExpr", "Expr", "XorExpr", "AndExpr", "ShiftLeftExpr", "ShiftRightExpr", "PlusArithExpr", "MinusArithExpr", "MulTerm", "DivTerm", "FloorDivTerm", "ModuloTerm", "MatriceTerm", "UnaryPlus", "UnaryMinus", "UnaryInvert", "PowerExpr", "AtomExpr", "AtomName", "AtomNumber", "AtomString", "AtomElipsis", "AtomNone", "AtomTrue", "AtomFalse", "AtomTuple", "AtomList", "AtomDictionary", "AtomSet", "TestListComp", "CallTrailer", "IndexTrailer", "DotNameTrailer", "SubscriptList", "Subscript", "ExprList", "TestList", "DictionaryContainer", "DictionaryEntry", "SetContainer", "MulSet", "PowerDictionary", "ClassDef", "ArgList", "Argument", "SyncCompForComprehension", "CompForComprehension", "CompIfComprehension", "YieldExpr", "YieldFromExpr", "FuncBodySuite", "FuncTypeInput", "FuncType", "TypeList", "TestListStarExpr", "SimpleStmtList", "PlusAssignStmt", "MinusAssignStmt", "MulAssignStmt", "DivAssignStmt", "FloorDivAssignStmt", "ModuloAssignStmt", "MatriceAssignStmt", "PowerAssignStmt", "ShiftLeftAssignStmt", "ShiftRightAssignStmt", "BitOrAssignStmt", "BitXorAssignStmt", "BitAndAssignStmt", "AnnAssignStmt", "AssignmentStmt", "DelStmt", "PassStmt", "BreakStmt", "ContinueStmt", "ReturnStmt", "RaiseStmt", "ImportNameStmt", "ImportFromStmt", "ImportAsName", "DottedAsNameStmt", "ImportAsNamesStmt", "DottedAsNamesStmt", "DottedNameStmt", "GlobalStmt", "NonLocalStmt", "AssertStmt", "AsyncStmt", "IfStmt", "ElifStmt", "ElseStmt", "WhileStmt", "ForStmt", "TryStmt", "FinallyStmt", "WithStmt", "WithItem", "ExceptClauseStmt", "ExceptStmt", "SuiteStmt", "Decorator", "Decorators", "Decorated", "FuncDef", "Parameter", "TypedArgsList", "TFPAssign", "TFPDef", "VarArgsList", "VFPAssign", "VFPDef", "SingleInput", "FileInput", "EvalInput"];
