//! A JSON reader in the manner of the example.
use crate::gram::*;
use crate::show::{Out, Show};
use crate::{show, show_enum, show_fixed, Front, Lexeme};
use laps::ast::SepSeq;
use laps::lexer::str_literal;
use laps::prelude::*;
use laps::reader::Reader;
use laps::span::{FileType, Result, Span};
use laps::token::TokenBuffer;
use std::collections::HashMap;

#[token_kind]
#[derive(Debug, Tokenize)]
enum Kind {
  #[skip(r"[ \r\n\t]+")]
  _Skip,
  #[regex("true")]
  True,
  #[regex("null")]
  Null,
  /// Number.
  #[regex(r"-?(0|[1-9][0-9]*)")]
  Number(i64),
  /// String.
  #[regex(r#""([^"\\]|\\.)*""#, str_literal)]
  String(String),
  /// Other character.
  #[regex(r".")]
  Other(char),
  #[eof]
  Eof,
}

type Token = laps::token::Token<Kind>;

token_ast! {
  #[derive(Debug)]
  macro JsonToken<Kind> {
    [true] => { kind: Kind::True },
    [null] => { kind: Kind::Null },
    [num] => { kind: Kind::Number(_), prompt: "number" },
    [str] => { kind: Kind::String(_), prompt: "string" },
    [:] => { kind: Kind::Other(':') },
    [,] => { kind: Kind::Other(',') },
    [lbk] => { kind: Kind::Other('{') },
    [rbk] => { kind: Kind::Other('}') },
    [lbc] => { kind: Kind::Other('[') },
    [rbc] => { kind: Kind::Other(']') },
    [eof] => { kind: Kind::Eof },
  }
}

#[derive(Parse)]
#[token(Token)]
struct Json {
  value: Value,
  _eof: JsonToken![eof],
}

#[derive(Parse)]
#[token(Token)]
enum Value {
  Object(Object),
  Array(Array),
  String(JsonToken![str]),
  Number(JsonToken![num]),
  True(JsonToken![true]),
  Null(JsonToken![null]),
}

#[derive(Parse)]
#[token(Token)]
struct Object {
  lbk: JsonToken![lbk],
  members: SepSeq<Member, JsonToken![,]>,
  rbk: JsonToken![rbk],
}

#[derive(Parse)]
#[token(Token)]
struct Member {
  name: JsonToken![str],
  colon: JsonToken![:],
  value: Value,
}

#[derive(Parse)]
#[token(Token)]
struct Array {
  lbc: JsonToken![lbc],
  values: SepSeq<Value, JsonToken![,]>,
  rbc: JsonToken![rbc],
}

show_fixed! {
  JsonToken![true] => "true";
  JsonToken![null] => "null";
  JsonToken![:] => ":";
  JsonToken![,] => ",";
  JsonToken![lbk] => "{";
  JsonToken![rbk] => "}";
  JsonToken![lbc] => "[";
  JsonToken![rbc] => "]";
}
impl Show for JsonToken![num] {
  fn show(&self, o: &mut Out) {
    let s: &i64 = self.unwrap_ref();
    o.tok(&s.to_string(), &s.to_string())
  }
}
impl Show for JsonToken![str] {
  fn show(&self, o: &mut Out) {
    let s: &String = self.unwrap_ref();
    let mut src = String::from("\"");
    for c in s.chars() {
      match c {
        '"' => src += "\\\"",
        '\\' => src += "\\\\",
        '\n' => src += "\\n",
        '\0' => src += "\\0",
        c => src.push(c),
      }
    }
    src.push('"');
    o.tok(&format!("{s:?}"), &src)
  }
}
show! {
  Object: "Obj" [lbk members rbk];
  Member: "Mem" [name colon value];
  Array: "Arr" [lbc values rbc];
}
show_enum! { Value: Object Array String Number True Null; }

pub fn read(text: &[u8], chunk: usize, o: &mut Out) -> (Result<()>, Span) {
  let reader = Reader::new(crate::Src { text, chunk }, FileType::Buffer);
  let span = reader.span().clone();
  let mut tokens = TokenBuffer::new(Kind::lexer(reader));
  (tokens.parse::<Json>().map(|j| j.value.show(o)), span)
}

const FIXED: &[&str] = &["{", "}", "[", "]", ",", ":"];
const STR: Tok = 6;
const NUM: Tok = 7;
const TRUE: Tok = 8;
const NULL: Tok = 9;

fn lex(s: &str) -> Option<Vec<Lexeme>> {
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut out = vec![];
  while i < c.len() {
    let rest: String = c[i..].iter().collect();
    if " \r\n\t".contains(c[i]) {
      i += 1;
    } else if let Some(k) = FIXED.iter().position(|f| rest.starts_with(f)) {
      out.push((k as Tok, FIXED[k].into()));
      i += 1;
    } else if rest.starts_with("true") {
      out.push((TRUE, "true".into()));
      i += 4;
    } else if rest.starts_with("null") {
      out.push((NULL, "null".into()));
      i += 4;
    } else if c[i] == '"' {
      let mut v = String::new();
      i += 1;
      loop {
        match c.get(i)? {
          '"' => break,
          '\\' => {
            v.push(match c.get(i + 1)? {
              'n' => '\n',
              '0' => '\0',
              '\\' => '\\',
              '"' => '"',
              _ => return None,
            });
            i += 2;
          }
          // `str_literal` takes no line break
          '\n' => return None,
          x => {
            v.push(*x);
            i += 1;
          }
        }
      }
      i += 1;
      out.push((STR, format!("{v:?}")));
    } else {
      // a number
      let neg = c[i] == '-';
      let mut j = i + neg as usize;
      let start = j;
      while j < c.len() && c[j].is_ascii_digit() && !(j > start && c[start] == '0') {
        j += 1;
      }
      if j == start {
        return None;
      }
      let v: String = c[start..j].iter().collect();
      out.push((NUM, if neg && v != "0" { format!("-{v}") } else { v }));
      i = j;
    }
  }
  Some(out)
}

pub fn front() -> Front {
  Front {
    name: "json",
    read,
    lex,
    rules: HashMap::from([
      ("start", n("value")),
      ("value", alt(vec![n("object"), n("array"), t(STR), t(NUM), t(TRUE), t(NULL)])),
      ("object", node("Obj", vec![t(0), sep(0, n("member"), t(4)), t(1)])),
      ("member", node("Mem", vec![t(STR), t(5), n("value")])),
      ("array", node("Arr", vec![t(2), sep(0, n("value"), t(4)), t(3)])),
    ]),
    tokens: &[
      (&["{"], true),
      (&["}"], true),
      (&["["], true),
      (&["]"], true),
      (&[","], true),
      (&[":"], true),
      (&["\"\"", "\"a b\"", "\"\\\"\\\\\"", "\"\u{e9}\""], true),
      (&["0", "-12", "7"], false),
      (&["true"], false),
      (&["null"], false),
    ],
    words: &[(&[0, 1, 2, 3, 4, 5, STR, NUM, TRUE, NULL], 6, 7), (&[2, 3, 4, NUM], 9, 11), (&[0, 1, 4, 5, STR], 8, 9)],
    near: (8, 10),
    chars: &["[", "]", ",", "\"", "\\", "n", "a", "1", "-", "0", ":", "\n"],
    nchars: (6, 7),
  }
}
