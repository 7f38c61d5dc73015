//! A line-based configuration language over bytes, made of the other predefined structures.
use crate::gram::*;
use crate::show::{Out, Show};
use crate::{show, show_enum, show_fixed, Front, Lexeme};
use laps::ast::{NonEmptyOptSepSeq, NonEmptySeq, OptSepSeq, OptTokenPrefix, TokenPrefix};
use laps::prelude::*;
use laps::reader::ByteReader;
use laps::span::{FileType, Result, Span};
use laps::token::TokenBuffer;
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
struct Name(Vec<u8>);
impl fmt::Display for Name {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{:?}", self.0)
  }
}
#[derive(Clone, Debug, PartialEq)]
struct Data(Vec<u8>);
impl fmt::Display for Data {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{:?}", self.0)
  }
}

fn name(b: &[u8]) -> Option<Name> {
  // not too long
  (b.len() < 4).then(|| Name(b.to_vec()))
}

fn data(b: &[u8]) -> Option<Data> {
  Some(Data(b[1..b.len() - 1].to_vec()))
}

#[token_kind]
#[derive(Debug, Tokenize)]
#[char_type(u8)]
enum Kind {
  #[skip(r"(?-u) |#[^\n]*")]
  _Skip,
  #[regex("[a-z]+", name)]
  Name(Name),
  #[regex(r"(?-u)'[^'\n]*'", data)]
  Data(Data),
  #[regex("=")]
  Eq,
  #[regex(",")]
  Comma,
  #[regex("!")]
  Bang,
  #[regex("[@]")]
  At,
  #[regex(r"\r?\n")]
  Line,
  #[eof]
  Eof,
}

type Token = laps::token::Token<Kind>;

token_ast! {
  #[derive(Debug)]
  macro Token<Kind> {
    [name] => { kind: Kind::Name(_), prompt: "name" },
    [data] => { kind: Kind::Data(_), prompt: "data" },
    [=] => { kind: Kind::Eq },
    [,] => { kind: Kind::Comma },
    [!] => { kind: Kind::Bang },
    [@] => { kind: Kind::At },
    [line] => { kind: Kind::Line },
    [eof] => { kind: Kind::Eof },
  }
}

#[derive(Parse)]
#[token(Token)]
struct Config(Vec<Item>, Token![eof]);

#[derive(Parse)]
#[token(Token)]
enum Item {
  Section(Section),
  Entry(Entry),
}

#[derive(Parse)]
#[token(Token)]
#[starts_with(Token![!], Token![data])]
struct Section {
  bang: Token![!],
  title: Token![data],
  names: OptSepSeq<Token![name], Token![,]>,
  lines: NonEmptySeq<Token![line]>,
}

#[derive(Parse)]
#[token(Token)]
struct Entry {
  key: OptTokenPrefix<Token![!], Token![name]>,
  eq: Token![=],
  values: NonEmptyOptSepSeq<Value, Token![,]>,
  lines: NonEmptySeq<Token![line]>,
}

#[derive(Parse)]
#[token(Token)]
enum Value {
  Data(Token![data]),
  Ref(TokenPrefix<Token![@], Token![name]>),
}

show_fixed! {
  Token![=] => "=";
  Token![,] => ",";
  Token![!] => "!";
  Token![@] => "@";
  Token![line] => "\n";
}
fn text(b: &[u8]) -> String {
  b.iter().map(|b| *b as char).collect()
}
impl Show for Token![name] {
  fn show(&self, o: &mut Out) {
    let n: &Name = self.unwrap_ref();
    o.tok(&text(&n.0), &text(&n.0))
  }
}
impl Show for Token![data] {
  fn show(&self, o: &mut Out) {
    let n: &Data = self.unwrap_ref();
    o.tok(&text(&n.0), &format!("'{}'", text(&n.0)))
  }
}
show! {
  Config: "C" [0];
  Section: "Sec" [bang title names lines];
  Entry: "Ent" [key eq values lines];
  OptTokenPrefix<Token![!], Token![name]>: "Key" [0 1];
  TokenPrefix<Token![@], Token![name]>: "Ref" [0 1];
}
show_enum! {
  Item: Section Entry;
  Value: Data Ref;
}

pub fn read(text: &[u8], chunk: usize, o: &mut Out) -> (Result<()>, Span) {
  let reader = ByteReader::new(crate::Src { text, chunk }, FileType::Buffer);
  let span = reader.span().clone();
  let mut tokens = TokenBuffer::new(Kind::lexer(reader));
  (tokens.parse::<Config>().map(|c| c.show(o)), span)
}

const NAME: Tok = 5;
const DATA: Tok = 6;
const LINE: Tok = 4;

fn lex(s: &str) -> Option<Vec<Lexeme>> {
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut out = vec![];
  while i < c.len() {
    match c[i] {
      ' ' => i += 1,
      '#' => {
        while i < c.len() && c[i] != '\n' {
          i += 1;
        }
      }
      '\n' => {
        out.push((LINE, "\n".into()));
        i += 1;
      }
      '\r' => {
        if c.get(i + 1) != Some(&'\n') {
          return None;
        }
        out.push((LINE, "\n".into()));
        i += 2;
      }
      '\'' => {
        let n = c[i + 1..].iter().position(|c| *c == '\'' || *c == '\n')?;
        if c[i + 1 + n] == '\n' {
          return None;
        }
        out.push((DATA, c[i + 1..i + 1 + n].iter().collect()));
        i += n + 2;
      }
      x if x.is_ascii_lowercase() => {
        let n = c[i..].iter().position(|c| !c.is_ascii_lowercase()).unwrap_or(c.len() - i);
        if n > 3 {
          return None;
        }
        out.push((NAME, c[i..i + n].iter().collect()));
        i += n;
      }
      x => {
        let k = "=,!@".find(x)?;
        out.push((k as Tok, x.into()));
        i += 1;
      }
    }
  }
  Some(out)
}

pub fn front() -> Front {
  let lines = || many(1, t(LINE));
  Front {
    name: "config",
    read,
    lex,
    rules: HashMap::from([
      ("start", node("C", vec![many(0, alt(vec![n("section"), n("entry")]))])),
      ("section", node("Sec", vec![t(2), t(DATA), optsep(0, t(NAME), t(1)), lines()])),
      (
        "entry",
        node(
          "Ent",
          vec![
            node("Key", vec![opt(t(2)), t(NAME)]),
            t(0),
            optsep(1, alt(vec![t(DATA), node("Ref", vec![t(3), t(NAME)])]), t(1)),
            lines(),
          ],
        ),
      ),
    ]),
    tokens: &[
      (&["="], true),
      (&[","], true),
      (&["!"], true),
      (&["@"], true),
      (&["\n"], true),
      (&["a", "xyz"], false),
      (&["''", "'\u{e9}'", "'a=#'"], true),
    ],
    words: &[(&[0, 1, 2, 3, 4, NAME, DATA], 7, 8), (&[0, 1, LINE, NAME, DATA], 8, 9)],
    near: (10, 12),
    chars: &["'", "a", "=", "!", ",", "\n", "\r", "#", " ", "bc", "\u{ff}", "@"],
    nchars: (6, 7),
  }
}
