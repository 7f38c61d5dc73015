//! Front ends of derived lexers, token macros and derived parsers.
use crate::obs::Rec;
use laps::ast::{NonEmptySepSeq, SepSeq};
use laps::prelude::*;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Span};
use laps::token::TokenBuffer;
use laps::input::InputStream;

pub const TEXT: &[&[u8]] = &[
  b"a", b"if", b"(", b")", b",", b"1", b"-", b"99", b"\"", b"'", b"\\", b"\n", "\u{e9}".as_bytes(), b"?", b"\xff",
];

macro_rules! value {
  ($($n:ident($t:ty);)*) => {$(
    #[derive(Clone, Debug, PartialEq)]
    struct $n($t);
    impl std::fmt::Display for $n {
      fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
      }
    }
  )*};
}
value! {
  Text(String);
  Letter(char);
  Bytes(Vec<u8>);
  More(Vec<u8>);
}

fn text_of(s: &str) -> Option<Text> {
  laps::lexer::str_literal(s).map(Text)
}

fn letter_of(s: &str) -> Option<Letter> {
  laps::lexer::char_literal(s).map(Letter)
}

#[token_kind]
#[derive(Debug, Tokenize)]
enum Kind {
  #[skip(r"[ \n]+")]
  _Skip,
  /// if
  #[regex("if")]
  If,
  /// identifier
  #[regex("[a-z]+")]
  Name(String),
  /// number
  #[regex("-?[0-9]+")]
  Num(i8),
  /// quoted
  #[regex(r#""([^"\\]|\\.)*""#, text_of)]
  Str(Text),
  /// quoted {character}
  #[regex(r"'([^'\\]|\\.)*'", letter_of)]
  Char(Letter),
  /// other
  #[regex(r"[^?]")]
  Other(char),
  #[eof]
  Eof,
}

type Token = laps::token::Token<Kind>;

token_ast! {
  #[derive(Debug, PartialEq)]
  macro Token<Kind> {
    [if] => { kind: Kind::If },
    [name] => { kind: Kind::Name(_), prompt: "a {name}" },
    [num] => { kind: Kind::Num(n) if *n >= 0, prompt: "a natural" },
    [str] => { kind: Kind::Str(_), prompt: "string" },
    [lpr] => { kind: Kind::Other('(') },
    [rpr] => { kind: Kind::Other(')') },
    [,] => { kind: Kind::Other(',') },
    [eof] => { kind: Kind::Eof },
  }
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
#[allow(dead_code)]
enum Stmt {
  If(Token![if], Token![name], Token![num]),
  Call(Call),
  List(Token![lpr], NonEmptySepSeq<Item, Token![,]>, Token![rpr]),
  Str(Token![str]),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
#[starts_with(Token![name], Token![lpr])]
#[allow(dead_code)]
struct Call {
  f: Token![name],
  l: Token![lpr],
  args: SepSeq<Item, Token![,]>,
  r: Token![rpr],
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
#[allow(dead_code)]
enum Item {
  Num(Token![num]),
  Name(Token![name]),
}

#[derive(Parse, Debug)]
#[token(Token)]
#[allow(dead_code)]
struct Program {
  stmts: Vec<Stmt>,
  eof: Token![eof],
}

pub fn text(r: &mut Rec, text: &[u8]) {
  let mut t = vec![b' '];
  t.extend_from_slice(text);
  let make = || {
    let mut rd = Reader::new(&t[..], FileType::Buffer);
    let span = match rd.next_char_span() {
      Ok((_, s)) => s,
      Err(_) => panic!("cannot read one character"),
    };
    (rd, span)
  };
  let (rd, span) = make();
  let mut lex = Kind::lexer(rd);
  for _ in 0..text.len() + 2 {
    r.op("next", &span, || lex.next_token());
  }
  let (rd, span) = make();
  let mut ts = TokenBuffer::new(Kind::lexer(rd));
  r.op("program?", &span, || Program::maybe(&mut ts));
  r.op("program", &span, || ts.parse::<Program>());
  r.op("next", &span, || ts.next_token());
  let (rd, span) = make();
  let mut ts = TokenBuffer::new(Kind::lexer(rd));
  r.op("call?", &span, || ts.lookahead().maybe(Token![name])?.maybe(Token![lpr])?.result());
  r.op("expect", &span, || ts.expect(Kind::Other('(')));
  r.op("stmt", &span, || ts.parse::<Stmt>().map(|s| s.span().to_string()));
  r.op("stmt", &span, || ts.parse::<Stmt>().map(|s| s.span().to_string()));
}

pub const BYTES: &[&[u8]] = &[b"a", b"x1", b"0", b"9", b" ", b"\n", b"\x00", b"\x80", b"\xff", b"!", b";"];

#[token_kind]
#[derive(Debug, Tokenize)]
#[char_type(u8)]
enum B {
  #[skip(r"[ \n]+")]
  _Skip,
  #[regex("[a-z]+[0-9]", low)]
  Word(Bytes),
  /// {bytes}
  #[regex(r"(?-u)[\x80-\xff]+", high)]
  High(More),
  #[regex(";")]
  Semi,
  #[eof]
  Eof,
}

fn low(w: &[u8]) -> Option<Bytes> {
  match w {
    [.., b'0'] => None,
    w => Some(Bytes(w.to_vec())),
  }
}

fn high(w: &[u8]) -> Option<More> {
  match w {
    [0xff] => None,
    w => Some(More(w.to_vec())),
  }
}

pub fn bytes(r: &mut Rec, text: &[u8]) {
  let mut t = vec![b' '];
  t.extend_from_slice(text);
  let mut rd = ByteReader::new(&t[..], FileType::Stdin);
  let span: Span = match rd.next_char_span() {
    Ok((_, s)) => s,
    Err(_) => panic!("cannot read one byte"),
  };
  let mut lex = B::lexer(rd);
  for _ in 0..text.len() + 2 {
    r.op("next", &span, || lex.next_token().map(|t| format!("{:?} {:?}", t.kind, t.span)));
  }
}
