use laps::token::token_kind;
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kw {
  If,
  Else,
}

impl fmt::Display for Kw {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{}", if *self == Kw::If { "if" } else { "else" })
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Boxed(pub Box<i64>);

impl fmt::Display for Boxed {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "<{}>", self.0)
  }
}

#[token_kind]
#[derive(Debug, Eq, Hash)]
pub enum K {
  /// Integer literal.
  Int(i32),
  /// String literal.
  Str(String),
  /// Character.
  Ch(char),
  Keyword(Kw),
  /// A {byte} of {}.
  Byte(u8),
  /// Boxed
  /// number.
  Boxed(Boxed),
  CamelCaseValue(bool),
  /// Two numbers.
  Pair(i16, i16),
  /// Named fields {a}.
  Named { a: i16, b: i16 },
  Unit,
  OtherUnit,
  Empty(),
  Braces {},
  /// End-of-file.
  Eof,
}

pub fn domain() -> Vec<K> {
  let mut v = vec![];
  for i in (-3..=12).chain([100, i32::MIN, i32::MAX]) {
    v.push(K::Int(i));
  }
  for s in ["", "x", "y", "if", "{}", "\"", "x y"] {
    v.push(K::Str(s.into()));
  }
  for c in "+-*abcdxz{}'0\u{e9}\u{4e2d}".chars() {
    v.push(K::Ch(c));
  }
  v.push(K::Keyword(Kw::If));
  v.push(K::Keyword(Kw::Else));
  for b in [0, 1, 127, 128, 255] {
    v.push(K::Byte(b));
  }
  for b in [-1, 0, 1 << 40] {
    v.push(K::Boxed(Boxed(Box::new(b))));
  }
  v.push(K::CamelCaseValue(true));
  v.push(K::CamelCaseValue(false));
  for a in -1..=2 {
    for b in -1..=2 {
      v.push(K::Pair(a, b));
      v.push(K::Named { a, b });
    }
  }
  v.extend([K::Unit, K::OtherUnit, K::Empty(), K::Braces {}, K::Eof]);
  v
}

mod more {
  use laps::token::token_kind;

  #[token_kind]
  #[allow(non_camel_case_types)]
  pub enum Other {
    lower(u32),
    HTTPServer,
    Snake_Case,
    A,
    AB(super::Kw),
    X1Y2,
    /// Ends with dots..
    Dots,
    /// UPPER Case \u0041 "quoted" 'c'.
    Upper(String),
    #[doc = "Attribute form."]
    Attr,
    ///
    EmptyDoc,
    /// {}{0}{a:?}}}{{
    Braces,
    #[allow(dead_code)]
    /// Mixed.
    #[doc(hidden)]
    Mixed(&'static str),
    /// Percent %s \\ back.
    Back,
  }

  pub fn displays() -> Vec<(String, String)> {
    use Other::*;
    [
      (lower(5), "lower `5`"),
      (HTTPServer, "h t t p server"),
      (A, "a"),
      (AB(super::Kw::Else), "a b `else`"),
      (X1Y2, "x1 y2"),
      (Attr, "attribute form"),
      (Braces, "{}{0}{a:?}}}{{"),
      (Mixed("m"), "mixed `m`"),
      (Mixed("{}"), "mixed `{}`"),
      (EmptyDoc, "empty doc"),
    ]
    .into_iter()
    .map(|(k, s)| (k.to_string(), s.to_string()))
    .collect()
  }
}

/// Kinds as displayed, and as documented.
pub fn displays() -> Vec<(String, String)> {
  let mut v = vec![];
  for k in domain() {
    let want = match &k {
      K::Int(i) => format!("integer literal `{i}`"),
      K::Str(s) => format!("string literal `{s}`"),
      K::Ch(c) => format!("character `{c}`"),
      K::Keyword(k) => format!("keyword `{k}`"),
      K::Byte(b) => format!("a {{byte}} of {{}} `{b}`"),
      K::Boxed(b) => format!("boxed number `{b}`"),
      K::CamelCaseValue(b) => format!("camel case value `{b}`"),
      K::Pair(..) => "two numbers".into(),
      K::Named { .. } => "named fields {a}".into(),
      K::Unit => "unit".into(),
      K::OtherUnit => "other unit".into(),
      K::Empty() => "empty".into(),
      K::Braces {} => "braces".into(),
      K::Eof => "end-of-file".into(),
    };
    v.push((k.to_string(), want));
  }
  v.extend(more::displays());
  v
}
