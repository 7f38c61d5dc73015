//! Statements and expressions in the manner of the C-like example; entered at programs, statements and expressions.
use crate::gram::*;
use crate::show::{Out, Show};
use crate::{show, show_enum, show_fixed, Front, Lexeme};
use laps::ast::{NonEmptySepList, NonEmptySepSeq, SepSeq};
use laps::lexer::int_literal;
use laps::prelude::*;
use laps::reader::Reader;
use laps::span::{FileType, Result, Span};
use laps::token::TokenBuffer;
use std::collections::HashMap;
use std::{fmt, str::FromStr};

type Token = laps::token::Token<Kind>;

#[token_kind]
#[derive(Debug, Tokenize)]
enum Kind {
  #[skip(r"\s+|//[^\n]*")]
  _Skip,
  /// Keyword.
  #[regex(r"int|if|else|while|return")]
  Keyword(Keyword),
  /// Identifier.
  #[regex(r"[_a-zA-Z][_a-zA-Z0-9]*")]
  Ident(String),
  /// Integer-literal.
  #[regex(r"[0-9]|[1-9][0-9]+|0x[0-9a-fA-F]+", int_literal)]
  Int(u64),
  /// Operator.
  #[regex(r"\+|-|\*|==|!|=")]
  Operator(Operator),
  /// Other character.
  #[regex(r".")]
  Other(char),
  /// End-of-file.
  #[eof]
  Eof,
}

macro_rules! words {
  ($n:ident: $($v:ident $t:literal)*) => {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum $n {
      $($v,)*
    }
    impl FromStr for $n {
      type Err = ();
      fn from_str(s: &str) -> std::result::Result<Self, ()> {
        match s {
          $($t => Ok(Self::$v),)*
          _ => Err(()),
        }
      }
    }
    impl fmt::Display for $n {
      fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self { $(Self::$v => $t,)* })
      }
    }
  };
}
words!(Keyword: Int "int" If "if" Else "else" While "while" Return "return");
words!(Operator: Add "+" Sub "-" Mul "*" Eq "==" Not "!" Assign "=");

token_ast! {
  #[derive(Debug, PartialEq)]
  macro Token<Kind> {
    [ident] => { kind: Kind::Ident(_), prompt: "identifier" },
    [int] => { kind: Kind::Keyword(Keyword::Int) },
    [if] => { kind: Kind::Keyword(Keyword::If) },
    [else] => { kind: Kind::Keyword(Keyword::Else) },
    [while] => { kind: Kind::Keyword(Keyword::While) },
    [return] => { kind: Kind::Keyword(Keyword::Return) },
    [litint] => { kind: Kind::Int(_), prompt: "integer literal" },
    [+] => { kind: Kind::Operator(Operator::Add) },
    [-] => { kind: Kind::Operator(Operator::Sub) },
    [*] => { kind: Kind::Operator(Operator::Mul) },
    [==] => { kind: Kind::Operator(Operator::Eq) },
    [!] => { kind: Kind::Operator(Operator::Not) },
    [=] => { kind: Kind::Operator(Operator::Assign) },
    [,] => { kind: Kind::Other(',') },
    [;] => { kind: Kind::Other(';') },
    [lpr] => { kind: Kind::Other('(') },
    [rpr] => { kind: Kind::Other(')') },
    [lbk] => { kind: Kind::Other('{') },
    [rbk] => { kind: Kind::Other('}') },
    [lbc] => { kind: Kind::Other('[') },
    [rbc] => { kind: Kind::Other(']') },
    [eof] => { kind: Kind::Eof },
  }
}

#[derive(Parse, Debug)]
#[token(Token)]
enum DeclDef {
  FuncDef(Box<FuncDef>),
  Decl(Decl),
  End(Token![eof]),
}

#[derive(Parse, Debug)]
#[token(Token)]
#[starts_with(Token![int], Token![ident], Token![lpr])]
struct FuncDef {
  int: Token![int],
  ident: Token![ident],
  lpr: Token![lpr],
  params: SepSeq<FuncParam, Token![,]>,
  rpr: Token![rpr],
  block: Block,
}

#[derive(Parse, Debug)]
#[token(Token)]
struct FuncParam {
  int: Token![int],
  ident: Token![ident],
}

#[derive(Parse, Debug)]
#[token(Token)]
struct Decl {
  int: Token![int],
  var_defs: NonEmptySepSeq<VarDef, Token![,]>,
  semi: Token![;],
}

#[derive(Parse, Debug)]
#[token(Token)]
struct VarDef {
  ident: Token![ident],
  dim: Option<DimDef>,
  init_val: Option<Init>,
}

#[derive(Parse, Debug)]
#[token(Token)]
struct DimDef {
  lbc: Token![lbc],
  len: Token![litint],
  rbc: Token![rbc],
}

#[derive(Parse, Debug)]
#[token(Token)]
struct Init {
  assign: Token![=],
  init_val: InitVal,
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum InitVal {
  Aggregate(Aggregate),
  Exp(Box<Exp>),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Aggregate {
  lbk: Token![lbk],
  exps: SepSeq<Exp, Token![,]>,
  rbk: Token![rbk],
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Block {
  lbk: Token![lbk],
  items: Vec<BlockItem>,
  rbk: Token![rbk],
}

#[derive(Parse, Debug)]
#[token(Token)]
enum BlockItem {
  Decl(Decl),
  Stmt(Stmt),
}

#[derive(Parse, Debug)]
#[token(Token)]
enum Stmt {
  Empty(Token![;]),
  Block(Block),
  If(Box<If>),
  While(Box<While>),
  Return(Box<Return>),
  Exp(ExpStmt),
}

#[derive(Parse, Debug)]
#[token(Token)]
struct ExpStmt {
  exp: Exp,
  assign: Option<Assign>,
  semi: Token![;],
}

#[derive(Parse, Debug)]
#[token(Token)]
struct Assign(Token![=], Exp);

#[derive(Parse, Debug)]
#[token(Token)]
struct If {
  if_: Token![if],
  lpr: Token![lpr],
  cond: Exp,
  rpr: Token![rpr],
  then: Stmt,
  else_then: Option<Else>,
}

#[derive(Parse, Debug)]
#[token(Token)]
struct Else {
  else_: Token![else],
  body: Stmt,
}

#[derive(Parse, Debug)]
#[token(Token)]
struct While {
  while_: Token![while],
  lpr: Token![lpr],
  cond: Exp,
  rpr: Token![rpr],
  body: Stmt,
}

#[derive(Parse, Debug)]
#[token(Token)]
struct Return {
  ret: Token![return],
  value: Option<Exp>,
  semi: Token![;],
}

type Exp = NonEmptySepList<AddExp, Token![==]>;
type AddExp = NonEmptySepList<MulExp, AddOps>;

#[derive(Parse, Debug)]
#[token(Token)]
enum AddOps {
  Add(Token![+]),
  Sub(Token![-]),
}

type MulExp = NonEmptySepList<UnaryExp, Token![*]>;

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum UnaryExp {
  Unary(UnaryOps, Box<Self>),
  Primary(Box<PrimaryExp>),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum UnaryOps {
  Neg(Token![-]),
  Not(Token![!]),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum PrimaryExp {
  ParenExp(ParenExp),
  FuncCall(FuncCall),
  Access(Access),
  LitInt(Token![litint]),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct ParenExp {
  lpr: Token![lpr],
  exp: Exp,
  rpr: Token![rpr],
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
#[starts_with(Token![ident], Token![lpr])]
struct FuncCall {
  ident: Token![ident],
  lpr: Token![lpr],
  exps: SepSeq<Exp, Token![,]>,
  rpr: Token![rpr],
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Access {
  ident: Token![ident],
  #[try_span]
  index: Option<Index>,
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Index {
  lbc: Token![lbc],
  index: Exp,
  rbc: Token![rbc],
}

#[derive(Parse)]
#[token(Token)]
struct WholeStmt(Stmt, Token![eof]);

#[derive(Parse)]
#[token(Token)]
struct WholeExp(Exp, Token![eof]);

show_fixed! {
  Token![int] => "int";
  Token![if] => "if";
  Token![else] => "else";
  Token![while] => "while";
  Token![return] => "return";
  Token![+] => "+";
  Token![-] => "-";
  Token![*] => "*";
  Token![==] => "==";
  Token![!] => "!";
  Token![=] => "=";
  Token![,] => ",";
  Token![;] => ";";
  Token![lpr] => "(";
  Token![rpr] => ")";
  Token![lbk] => "{";
  Token![rbk] => "}";
  Token![lbc] => "[";
  Token![rbc] => "]";
}
impl Show for Token![ident] {
  fn show(&self, o: &mut Out) {
    let s: &String = self.unwrap_ref();
    o.tok(s, s)
  }
}
impl Show for Token![litint] {
  fn show(&self, o: &mut Out) {
    let s: &u64 = self.unwrap_ref();
    o.tok(&s.to_string(), &format!("0x{s:x}"))
  }
}
show! {
  FuncDef: "Func" [int ident lpr params rpr block];
  FuncParam: "Param" [int ident];
  Decl: "Decl" [int var_defs semi];
  VarDef: "Var" [ident dim init_val];
  DimDef: "Dim" [lbc len rbc];
  Init: "Init" [assign init_val];
  Aggregate: "Agg" [lbk exps rbk];
  Block: "Block" [lbk items rbk];
  ExpStmt: "Exp" [exp assign semi];
  Assign: "Assign" [0 1];
  If: "If" [if_ lpr cond rpr then else_then];
  Else: "Else" [else_ body];
  While: "While" [while_ lpr cond rpr body];
  Return: "Return" [ret value semi];
  ParenExp: "Par" [lpr exp rpr];
  FuncCall: "Call" [ident lpr exps rpr];
  Access: "Acc" [ident index];
  Index: "Idx" [lbc index rbc];
}
show_enum! {
  InitVal: Aggregate Exp;
  BlockItem: Decl Stmt;
  Stmt: Empty Block If While Return Exp;
  AddOps: Add Sub;
  UnaryOps: Neg Not;
  PrimaryExp: ParenExp FuncCall Access LitInt;
}
impl Show for UnaryExp {
  fn show(&self, o: &mut Out) {
    match self {
      Self::Unary(op, e) => {
        o.tree += "(Un ";
        op.show(o);
        o.tree += " ";
        e.show(o);
        o.tree += ")";
      }
      Self::Primary(p) => p.show(o),
    }
  }
}

macro_rules! stream {
  ($text:ident, $chunk:ident, $span:ident, $ts:ident) => {
    let reader = Reader::new(crate::Src { text: $text, chunk: $chunk }, FileType::Buffer);
    let $span = reader.span().clone();
    let mut $ts = TokenBuffer::new(Kind::lexer(reader));
  };
}

fn program(text: &[u8], chunk: usize, o: &mut Out) -> (Result<()>, Span) {
  stream!(text, chunk, span, tokens);
  o.tree += "(P [";
  let mut first = true;
  loop {
    let d = match tokens.parse::<DeclDef>() {
      Ok(DeclDef::End(_)) => break,
      Ok(d) => d,
      Err(e) => return (Err(e), span),
    };
    if !first {
      o.tree += " ";
    }
    first = false;
    match d {
      DeclDef::FuncDef(f) => f.show(o),
      DeclDef::Decl(d) => d.show(o),
      DeclDef::End(_) => {}
    }
  }
  o.tree += "])";
  (Ok(()), span)
}

fn stmt(text: &[u8], chunk: usize, o: &mut Out) -> (Result<()>, Span) {
  stream!(text, chunk, span, tokens);
  (tokens.parse::<WholeStmt>().map(|w| w.0.show(o)), span)
}

fn exp(text: &[u8], chunk: usize, o: &mut Out) -> (Result<()>, Span) {
  stream!(text, chunk, span, tokens);
  (tokens.parse::<WholeExp>().map(|w| w.0.show(o)), span)
}

const TOKENS: &[(&[&str], bool)] = &[
  (&["int"], false),
  (&["if"], false),
  (&["else"], false),
  (&["while"], false),
  (&["return"], false),
  (&["+"], true),
  (&["-"], true),
  (&["*"], true),
  (&["=="], false),
  (&["!"], true),
  (&["="], false),
  (&[","], true),
  (&[";"], true),
  (&["("], true),
  (&[")"], true),
  (&["{"], true),
  (&["}"], true),
  (&["["], true),
  (&["]"], true),
  (&["x", "iff", "_9", "Int"], false),
  (&["1", "20", "0xfF"], false),
];
const ALL: &[Tok] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20];
const INT: Tok = 0;
const IF: Tok = 1;
const ELSE: Tok = 2;
const WHILE: Tok = 3;
const RETURN: Tok = 4;
const PLUS: Tok = 5;
const MINUS: Tok = 6;
const STAR: Tok = 7;
const EQ: Tok = 8;
const NOT: Tok = 9;
const ASSIGN: Tok = 10;
const COMMA: Tok = 11;
const SEMI: Tok = 12;
const LPR: Tok = 13;
const RPR: Tok = 14;
const LBK: Tok = 15;
const RBK: Tok = 16;
const LBC: Tok = 17;
const RBC: Tok = 18;
const ID: Tok = 19;
const NUM: Tok = 20;

/// Longest match by hand.
fn lex(s: &str) -> Option<Vec<Lexeme>> {
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut out = vec![];
  while i < c.len() {
    let end = |p: fn(char) -> bool, from: usize| (from..c.len()).find(|k| !p(c[*k])).unwrap_or(c.len());
    let text = |a: usize, b: usize| c[a..b].iter().collect::<String>();
    let j;
    if c[i].is_whitespace() {
      j = i + 1;
    } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
      j = end(|c| c != '\n', i);
    } else if c[i].is_ascii_alphabetic() || c[i] == '_' {
      j = end(|c| c.is_ascii_alphanumeric() || c == '_', i);
      let w = text(i, j);
      let k = ["int", "if", "else", "while", "return"].iter().position(|k| *k == w);
      out.push((k.map_or(ID, |k| k as Tok), w));
    } else if c[i] == '0' {
      let hex = if c.get(i + 1) == Some(&'x') { end(|c| c.is_ascii_hexdigit(), i + 2) } else { i };
      if hex > i + 2 {
        j = hex;
        out.push((NUM, u64::from_str_radix(&text(i + 2, j), 16).ok()?.to_string()));
      } else if c.get(i + 1) == Some(&'x') {
        // "0x" without a digit: the prefix is not given back
        return None;
      } else {
        j = i + 1;
        out.push((NUM, "0".into()));
      }
    } else if c[i].is_ascii_digit() {
      j = end(|c| c.is_ascii_digit(), i);
      out.push((NUM, text(i, j).parse::<u64>().ok()?.to_string()));
    } else if c[i] == '=' && c.get(i + 1) == Some(&'=') {
      j = i + 2;
      out.push((EQ, "==".into()));
    } else {
      j = i + 1;
      let k = TOKENS[..ID as usize].iter().position(|t| t.0[0] == text(i, j))?;
      out.push((k as Tok, text(i, j)));
    }
    i = j;
  }
  Some(out)
}

fn rules(start: G) -> HashMap<&'static str, G> {
  let else_ = |s| node("Else", vec![t(ELSE), n(s)]);
  let stmt = |last: &'static str| {
    // `last`: what may stand at the end; a statement before "else" must not end in an "if" without one
    let whole = last == "stmt";
    let mut v = vec![
      t(SEMI),
      n("block"),
      node("While", vec![t(WHILE), t(LPR), n("exp"), t(RPR), n(last)]),
      node("Return", vec![t(RETURN), opt(n("exp")), t(SEMI)]),
      node("Exp", vec![n("exp"), opt(node("Assign", vec![t(ASSIGN), n("exp")])), t(SEMI)]),
      node("If", vec![t(IF), t(LPR), n("exp"), t(RPR), n("closed"), else_(last)]),
    ];
    if whole {
      v.push(node("If", vec![t(IF), t(LPR), n("exp"), t(RPR), n("stmt"), n("nothing")]));
    }
    alt(v)
  };
  HashMap::from([
    ("start", start),
    ("nothing", opt(alt(vec![]))),
    (
      "decldef",
      alt(vec![node("Func", vec![t(INT), t(ID), t(LPR), sep(0, node("Param", vec![t(INT), t(ID)]), t(COMMA)), t(RPR), n("block")]), n("decl")]),
    ),
    ("decl", node("Decl", vec![t(INT), sep(1, n("var"), t(COMMA)), t(SEMI)])),
    (
      "var",
      node(
        "Var",
        vec![
          t(ID),
          opt(node("Dim", vec![t(LBC), t(NUM), t(RBC)])),
          opt(node("Init", vec![t(ASSIGN), alt(vec![node("Agg", vec![t(LBK), sep(0, n("exp"), t(COMMA)), t(RBK)]), n("exp")])])),
        ],
      ),
    ),
    ("block", node("Block", vec![t(LBK), many(0, alt(vec![n("decl"), n("stmt")])), t(RBK)])),
    ("stmt", stmt("stmt")),
    ("closed", stmt("closed")),
    ("exp", list(n("add"), t(EQ))),
    ("add", list(n("mul"), alt(vec![t(PLUS), t(MINUS)]))),
    ("mul", list(n("unary"), t(STAR))),
    ("unary", alt(vec![node("Un", vec![alt(vec![t(MINUS), t(NOT)]), n("unary")]), n("primary")])),
    (
      "primary",
      alt(vec![
        node("Par", vec![t(LPR), n("exp"), t(RPR)]),
        node("Call", vec![t(ID), t(LPR), sep(0, n("exp"), t(COMMA)), t(RPR)]),
        node("Acc", vec![t(ID), opt(node("Idx", vec![t(LBC), n("exp"), t(RBC)]))]),
        t(NUM),
      ]),
    ),
  ])
}

pub fn fronts() -> Vec<Front> {
  let base = |name, read, start| Front {
    name,
    read,
    lex,
    rules: rules(start),
    tokens: TOKENS,
    words: &[],
    near: (0, 0),
    chars: &[],
    nchars: (0, 0),
  };
  let p: fn(&[u8], usize, &mut Out) -> (Result<()>, Span) = program;
  let s: fn(&[u8], usize, &mut Out) -> (Result<()>, Span) = stmt;
  let e: fn(&[u8], usize, &mut Out) -> (Result<()>, Span) = exp;
  vec![
    Front {
      words: &[(ALL, 4, 5), (&[INT, ID, LPR, RPR, LBK, RBK, SEMI, COMMA], 7, 8), (&[INT, ID, LBC, RBC, NUM, ASSIGN, SEMI, COMMA], 7, 8)],
      near: (9, 11),
      ..base("program", p, node("P", vec![many(0, n("decldef"))]))
    },
    Front {
      words: &[(ALL, 4, 5), (&[IF, ELSE, LPR, RPR, ID, SEMI], 8, 9), (&[WHILE, IF, ELSE, LPR, RPR, NUM, LBK, RBK, SEMI], 6, 7)],
      near: (7, 8),
      chars: &["if", "e", "else", " ", "(", ")", "1", ";", "{", "}", "//", "\n"],
      nchars: (6, 7),
      ..base("stmt", s, n("stmt"))
    },
    Front {
      words: &[(ALL, 4, 5), (&[ID, NUM, LPR, RPR, COMMA, MINUS, STAR], 7, 9), (&[ID, LBC, RBC, PLUS, NOT, EQ], 7, 8)],
      near: (5, 6),
      chars: &["x", "0", "1", "=", "-", "!", "(", ")", ",", " ", "f", "*"],
      nchars: (6, 7),
      ..base("exp", e, n("exp"))
    },
  ]
}
