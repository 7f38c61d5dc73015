//! The S-expressions of the documentation.
use crate::gram::*;
use crate::show::{Out, Show};
use crate::{show, show_enum, show_fixed, Front, Lexeme};
use laps::prelude::*;
use laps::reader::Reader;
use laps::span::{FileType, Result, Span};
use laps::token::TokenBuffer;
use std::collections::HashMap;

#[token_kind]
#[derive(Debug, Tokenize)]
enum TokenKind {
  // This token will be skipped.
  #[skip(r"\s+")]
  _Skip,
  /// Parentheses.
  #[regex(r"[()]")]
  Paren(char),
  /// Atom.
  #[regex(r"[^\s()]+")]
  Atom(String),
  /// End-of-file.
  #[eof]
  Eof,
}

type Token = laps::token::Token<TokenKind>;

token_ast! {
  #[derive(Clone, Debug, PartialEq)]
  macro Token<TokenKind> {
    [atom] => { kind: TokenKind::Atom(_), prompt: "atom" },
    [lpr] => { kind: TokenKind::Paren('(') },
    [rpr] => { kind: TokenKind::Paren(')') },
    [eof] => { kind: TokenKind::Eof },
  }
}

#[derive(Parse, Debug)]
#[token(Token)]
enum Statement {
  Elem(Elem),
  End(Token![eof]),
}

#[derive(Parse, Debug)]
#[token(Token)]
struct SExp(Token![lpr], Vec<Elem>, Token![rpr]);

#[derive(Parse, Debug)]
#[token(Token)]
enum Elem {
  Atom(Token![atom]),
  SExp(SExp),
}

show_fixed! {
  Token![lpr] => "(";
  Token![rpr] => ")";
}
impl Show for Token![atom] {
  fn show(&self, o: &mut Out) {
    let s: &String = self.unwrap_ref();
    o.tok(s, s)
  }
}
show! { SExp: "S" [0 1 2]; }
show_enum! { Elem: Atom SExp; }

pub fn read(text: &[u8], chunk: usize, o: &mut Out) -> (Result<()>, Span) {
  let reader = Reader::new(crate::Src { text, chunk }, FileType::Buffer);
  let span = reader.span().clone();
  let mut tokens = TokenBuffer::new(TokenKind::lexer(reader));
  o.tree += "(P [";
  let mut first = true;
  loop {
    match tokens.parse::<Statement>() {
      Ok(Statement::End(_)) => break,
      Ok(Statement::Elem(e)) => {
        if !first {
          o.tree += " ";
        }
        first = false;
        e.show(o);
      }
      Err(e) => return (Err(e), span),
    }
  }
  o.tree += "])";
  (Ok(()), span)
}

const L: Tok = 0;
const R: Tok = 1;
const A: Tok = 2;

fn lex(s: &str) -> Option<Vec<Lexeme>> {
  let mut out = vec![];
  let mut atom = String::new();
  for c in s.chars().chain([' ']) {
    if c.is_whitespace() || c == '(' || c == ')' {
      if !atom.is_empty() {
        out.push((A, std::mem::take(&mut atom)));
      }
    }
    match c {
      '(' => out.push((L, "(".into())),
      ')' => out.push((R, ")".into())),
      c if c.is_whitespace() => {}
      c => atom.push(c),
    }
  }
  Some(out)
}

pub fn front() -> Front {
  Front {
    name: "sexp",
    read,
    lex,
    rules: HashMap::from([
      ("start", node("P", vec![many(0, n("elem"))])),
      ("elem", alt(vec![t(A), node("S", vec![t(L), many(0, n("elem")), t(R)])])),
    ]),
    tokens: &[(&["("], true), (&[")"], true), (&["a", "\u{e9}\u{4f60}", "b-1", "\""], false)],
    words: &[(&[L, R, A], 11, 14)],
    near: (11, 14),
    chars: &["(", ")", "a", "\u{e9}", " ", "\n", "\u{3000}"],
    nchars: (8, 9),
  }
}
