//! The enumerated definitions, each with what its documentation says about it.

/// A definition: the text of a module, and whether it is well-formed.
#[derive(Clone)]
pub struct Def {
  pub text: String,
  pub valid: bool,
}

pub const COMMON: &str = r#"#![allow(warnings)]
pub mod common {
  pub use laps::prelude::*;
  use laps::span::Span;
  #[token_kind]
  #[derive(Debug, Tokenize)]
  pub enum K { #[regex("a")] A, #[regex("b")] B, #[regex("[0-9]+")] N(i64), #[skip(" ")] _Sp, #[eof] Eof }
  pub type Tok = laps::token::Token<K>;
  token_ast! { pub(crate) macro crate::common::T<K> { [a] => { kind: K::A }, [b] => { kind: K::B }, [n] => { kind: K::N(_), prompt: "n" } } }
  pub type A = T![a];
  pub type B = T![b];
  #[derive(Clone)]
  pub struct S(pub Span);
  impl Spanned for S { fn span(&self) -> Span { self.0.clone() } }
  pub struct Plain;
  pub fn f_str(_: &str) -> Option<i64> { None }
  pub fn f_bytes(_: &[u8]) -> Option<i64> { None }
  pub fn lexes<C, T: Tokenize<CharType = C>>() {}
  pub fn parses<T: for<'a> Parse<laps::token::TokenBuffer<Nothing, Tok>>>() {}
  pub fn spans<T: Spanned>() {}
  pub struct Nothing;
  impl Tokenizer for Nothing {
    type Token = Tok;
    fn next_token(&mut self) -> laps::span::Result<Tok> { loop {} }
  }
}
"#;

fn def(v: &mut Vec<Def>, valid: bool, text: String) {
  v.push(Def { text, valid });
}

const CHAR_TYPES: &[(&str, Option<&str>)] = &[
  ("", Some("char")),
  ("#[char_type(char)]", Some("char")),
  ("#[char_type(u8)]", Some("u8")),
  ("#[char_type(i8)]", None),
  ("#[char_type(u32)]", None),
  ("#[char_type(&str)]", None),
  ("#[char_type()]", None),
  ("#[char_type]", None),
  ("#[char_type = \"u8\"]", None),
  ("#[char_type(char, u8)]", None),
  ("#[char_type(char)] #[char_type(char)]", None),
  ("#[char_type(u8)] #[char_type(char)]", None),
  ("#[char_type(char)] /// doc\n #[char_type(u8)]", None),
  ("#[char_type(\"u8\")]", None),
];

const PARS: &[(&str, bool)] = &[
  ("", true),
  ("#[enable_par(true)]", true),
  ("#[enable_par(false)]", true),
  ("#[enable_par()]", false),
  ("#[enable_par]", false),
  ("#[enable_par = true]", false),
  ("#[enable_par = \"false\"]", false),
  ("#[enable_par(1)]", false),
  ("#[enable_par(yes)]", false),
  ("#[enable_par(\"true\")]", false),
  ("#[enable_par(true, false)]", false),
  ("#[enable_par(true)] #[enable_par(true)]", false),
  ("#[enable_par(true)] #[enable_par(false)]", false),
];

fn asserted(ty: &str, ct: &str) -> String {
  format!("fn ok() {{ lexes::<{ct}, {ty}>() }}")
}

pub fn enum_attrs() -> Vec<Def> {
  let mut v = vec![];
  for (c, ct) in CHAR_TYPES {
    for (p, pv) in PARS {
      for swap in [false, true] {
        let (x, y) = if swap { (p, c) } else { (c, p) };
        let valid = ct.is_some() && *pv;
        let ok = asserted("E", ct.unwrap_or("char"));
        def(&mut v, valid, format!("#[derive(Tokenize)] {x} {y} enum E {{ #[regex(\"a\")] A, #[skip(\"b\")] B, #[eof] Eof }} {ok}"));
      }
    }
  }
  // the derive on other kinds of items
  for item in [
    "struct S;", "struct S {}", "struct S();", "struct S { #[regex(\"a\")] a: i64 }", "struct S(#[regex(\"a\")] i64);", "union U { a: i64 }", "#[regex(\"a\")] struct S;",
  ] {
    for (c, _) in &CHAR_TYPES[..3] {
      def(&mut v, false, format!("#[derive(Tokenize)] {c} {item}"));
    }
  }
  v
}

/// Attributes of a variant: well-formed for (unit, field) variants in (char, byte) mode.
fn variant_attrs() -> Vec<(String, [bool; 4])> {
  let no = [false; 4];
  let mut v: Vec<(String, [bool; 4])> = vec![];
  // unit char, unit byte, field char, field byte
  for (a, ok) in [
    ("", [true; 4]),
    ("#[regex(\"a\")]", [true, true, true, false]),
    ("/// doc\n#[regex(\"a\")]", [true, true, true, false]),
    ("#[regex(\"a\")] /// doc\n", [true, true, true, false]),
    ("#[allow(dead_code)] #[regex(r\"a+|b\")] #[cfg(all())]", [true, true, true, false]),
    ("#[regex(\"a\", f_str)]", [false, false, true, false]),
    ("#[regex(\"a\", f_bytes)]", [false, false, false, true]),
    ("#[regex(\"a\", |s: &str| s.parse().ok())]", [false, false, true, false]),
    ("#[regex(\"a\", |s: &[u8]| Some(s.len() as i64))]", [false, false, false, true]),
    ("#[regex(\"a\", laps::lexer::int_literal)]", [false, false, true, false]),
    ("#[regex(\"a\", laps::lexer::str_literal)]", no),
    ("#[regex(\"a\", missing)]", no),
    ("#[regex(\"a\", 5)]", no),
    ("#[regex(\"a\", f_str, f_str)]", no),
    ("#[regex(\"a\" f_str)]", no),
    ("#[regex(f_str)]", no),
    ("#[regex(f_str, \"a\")]", no),
    ("#[regex()]", no),
    ("#[regex]", no),
    ("#[regex = \"a\"]", no),
    ("#[regex(a)]", no),
    ("#[regex('a')]", no),
    ("#[regex(5)]", no),
    ("#[regex(b\"a\")]", no),
    ("#[regex(\"a\" \"b\")]", no),
    ("#[regex(\"a\", \"b\")]", no),
    ("#[regex(\"(\")]", no),
    ("#[regex(\"a)\")]", no),
    ("#[regex(\"[a\")]", no),
    ("#[regex(\"*\")]", no),
    ("#[regex(\"a{2,1}\")]", no),
    ("#[regex(\"\\\\\")]", no),
    ("#[regex(r\"\\q\")]", no),
    ("#[regex(\"^a\")]", no),
    ("#[regex(\"a$\")]", no),
    ("#[regex(r\"\\ba\")]", no),
    ("#[regex(r\"a\\z\")]", no),
    ("#[regex(\"(?m)^a\")]", no),
    ("#[regex(r\"(?-u:\\xff)\")]", [false, true, false, false]),
    ("#[regex(r\"(?-u:[^a])\")]", [false, true, false, false]),
    ("#[regex(r\"\\p{Nope}\")]", no),
    ("#[regex(\"(?P<n>a)(b)\")]", [true, true, true, false]),
    ("#[regex(\"(?i)ab\")]", [true, true, true, false]),
    ("#[skip(\"b\")]", [true, true, false, false]),
    ("/// doc\n#[skip(\"b\")]", [true, true, false, false]),
    ("#[skip(\"b\", f_str)]", no),
    ("#[skip(\"b\", f_bytes)]", no),
    ("#[skip()]", no),
    ("#[skip]", no),
    ("#[skip = \"b\"]", no),
    ("#[skip(b)]", no),
    ("#[skip(\"b\" \"c\")]", no),
    ("#[skip(\"b\", \"c\")]", no),
    ("#[skip(\"(\")]", no),
    ("#[skip(\"^\")]", no),
    ("#[eof]", [true, true, false, false]),
    ("#[eof] /// doc\n", [true, true, false, false]),
    ("#[eof()]", no),
    ("#[eof(\"b\")]", no),
    ("#[eof = \"b\"]", no),
    ("#[eof(b)]", no),
  ] {
    v.push((a.to_string(), ok));
  }
  let parts = ["#[regex(\"a\")]", "#[regex(\"b\", f_str)]", "#[regex(\"b\", f_bytes)]", "#[skip(\"b\")]", "#[eof]"];
  for a in parts {
    for b in parts {
      v.push((format!("{a} {b}"), no));
      v.push((format!("{a} /// doc\n#[allow(unused)] {b}"), no));
    }
  }
  v
}

pub fn variants() -> Vec<Def> {
  let mut v = vec![];
  // fields: (text, Some(has a field)) for supported ones
  let fields: &[(&str, Option<bool>)] = &[
    ("", Some(false)),
    ("()", Some(false)),
    ("(i64)", Some(true)),
    ("(i64, i64)", None),
    ("(i64, i64, i64)", None),
    ("{ x: i64 }", None),
    ("{ x: i64, y: i64 }", None),
  ];
  for (mode, byte) in [("", false), ("#[char_type(u8)]", true)] {
    for (attr, ok) in variant_attrs() {
      for (f, field) in fields {
        let valid = field.is_some_and(|field| ok[(field as usize) * 2 + byte as usize]);
        let assert = asserted("E", if byte { "u8" } else { "char" });
        for first in [true, false] {
          // another token, and an end-of-file variant unless the variant has one
          let mut vs = vec!["#[regex(\"z\")] Z".to_string(), "W".to_string()];
          vs.insert(if first { 0 } else { 2 }, format!("{attr} A{f}"));
          def(&mut v, valid, format!("use super::common::{{f_str, f_bytes}}; #[derive(Tokenize)] {mode} enum E {{ {} }} {assert}", vs.join(", ")));
        }
      }
    }
    // a field whose type has no `FromStr`
    for (attr, ok) in [("#[regex(\"a\")]", false), ("#[regex(\"a\", f_plain)]", true), ("#[regex(\"a\", f_str)]", false), ("", true)] {
      let f_plain = if byte { "fn f_plain(_: &[u8]) -> Option<Plain> { None }" } else { "fn f_plain(_: &str) -> Option<Plain> { None }" };
      def(&mut v, ok, format!("{f_plain} #[derive(Tokenize)] {mode} enum E {{ {attr} A(Plain), #[regex(\"z\")] Z }}"));
    }
  }
  v
}

pub fn variant_lists(max: usize) -> Vec<Def> {
  let mut v = vec![];
  let parts = ["", "#[regex(\"a\")]", "#[skip(\"b\")]", "#[eof]"];
  for n in 2..=max {
    for k in 0..parts.len().pow(n as u32) {
      let pick: Vec<usize> = (0..n).map(|i| k / parts.len().pow(i as u32) % parts.len()).collect();
      if !pick.iter().any(|p| *p == 1 || *p == 2) {
        continue;
      }
      let valid = pick.iter().filter(|p| **p == 3).count() <= 1;
      for mode in ["", "#[char_type(u8)]"] {
        let vs: Vec<String> = pick.iter().enumerate().map(|(i, p)| format!("{} V{i}", parts[*p])).collect();
        def(&mut v, valid, format!("#[derive(Tokenize)] {mode} enum E {{ {} }} {}", vs.join(", "), asserted("E", if mode.is_empty() { "char" } else { "u8" })));
      }
    }
  }
  v
}

pub fn parse() -> Vec<Def> {
  let mut v = vec![];
  let tokens: &[(&str, bool)] = &[
    ("#[token(Tok)]", true),
    ("#[token(super::common::Tok)]", true),
    ("#[token(laps::token::Token<super::common::K>)]", true),
    ("#[token()]", false),
    ("#[token]", false),
    ("#[token = \"Tok\"]", false),
    ("#[token(Tok, Tok)]", false),
    ("#[token(\"Tok\")]", false),
    ("#[token(1)]", false),
    ("#[token(Missing)]", false),
    ("#[token(Tok)] #[token(Tok)]", false),
    ("#[token(Tok)] /// doc\n#[token(Tok)]", false),
  ];
  let starts: &[(&str, bool)] = &[
    ("", true),
    ("#[starts_with(T![a])]", true),
    ("#[starts_with(T![a], T![b])]", true),
    ("#[starts_with(T![b], T![a], T![n])]", true),
    ("#[starts_with()]", false),
    ("#[starts_with]", false),
    ("#[starts_with = \"T![a]\"]", false),
    ("#[starts_with(T![a] T![b])]", false),
    ("#[starts_with(,)]", false),
    ("#[starts_with(Missing)]", false),
    ("#[starts_with(T![a] = 1)]", false),
    ("#[starts_with(T![a])] #[starts_with(T![b])]", false),
    ("#[starts_with(T![a])] #[allow(unused)] #[starts_with(T![a])]", false),
  ];
  let items: &[(&str, bool)] = &[
    ("struct P;", true),
    ("struct P {}", true),
    ("struct P();", true),
    ("struct P(A);", true),
    ("struct P(A, B);", true),
    ("struct P { a: A, r#type: B }", true),
    ("struct P(Plain);", false),
    ("struct P(A, i64);", false),
    ("enum P { X, }", true),
    ("enum P { X(A), Y(B) }", true),
    ("enum P { X(A), Y { b: B, a: A }, Z }", true),
    ("enum P { X(A), Y(Plain) }", false),
    ("enum P { X(Plain), Y(A) }", false),
    ("union P { a: std::mem::ManuallyDrop<A> }", false),
    ("union P { a: i64 }", false),
  ];
  for (t, tv) in tokens {
    for (s, sv) in starts {
      for (i, iv) in items {
        // one order of the attributes per item, and both for the first
        let orders = if *i == items[3].0 { 2 } else { 1 };
        for o in 0..orders {
          let (x, y) = if o == 0 { (t, s) } else { (s, t) };
          def(&mut v, *tv && *sv && *iv, format!("#[derive(Parse)] {x} {y} {i} fn ok() {{ parses::<P>() }}"));
        }
      }
    }
  }
  v
}

pub fn spanned(max: usize) -> Vec<Def> {
  let mut v = vec![];
  // attribute, type, try, has a span, may have a span
  let fields: &[(&str, &str, bool, bool, bool)] = &[
    ("", "S", false, true, true),
    ("#[try_span]", "S", true, true, true),
    ("#[try_span]", "Option<S>", true, false, true),
    ("", "Option<S>", false, false, true),
    ("", "i64", false, false, false),
    ("#[try_span]", "i64", true, false, false),
  ];
  let ok_from = |it: &mut dyn Iterator<Item = usize>| {
    for k in it {
      let (_, _, t, s, ts) = fields[k];
      if !t {
        return s;
      }
      if !ts {
        return false;
      }
    }
    false
  };
  // forms of the attribute
  for a in ["#[try_span()]", "#[try_span(true)]", "#[try_span = \"x\"]", "#[try_span = true]", "#[try_span] #[try_span]", "#[try_span] /// doc\n#[try_span]", "#[try_span(S)]"] {
    for ty in ["S", "Option<S>"] {
      for item in [
        format!("struct P {{ {a} a: {ty}, b: S }}"),
        format!("struct P(S, {a} {ty});"),
        format!("struct P(S, {a} {ty}, S);"),
        format!("enum P {{ X(S), Y({a} {ty}, S) }}"),
        format!("enum P {{ X {{ b: S, {a} a: {ty}, c: S }} }}"),
      ] {
        def(&mut v, false, format!("#[derive(Spanned)] {item} fn ok() {{ spans::<P>() }}"));
      }
    }
  }
  for a in ["/// doc\n#[try_span]", "#[try_span] /// doc\n", "#[allow(unused)] #[try_span]"] {
    for item in [format!("struct P {{ {a} a: Option<S>, b: S }}"), format!("struct P(S, {a} Option<S>);"), format!("enum P {{ X(S), Y({a} Option<S>, S) }}")] {
      def(&mut v, true, format!("#[derive(Spanned)] {item} fn ok() {{ spans::<P>() }}"));
    }
  }
  for item in [
    "struct P;", "struct P {}", "struct P();", "enum P {}", "enum P { X }", "enum P { X(S), Y }", "enum P { Y, X(S) }", "enum P { X(S), Y() }", "enum P { X(S), Y {} }", "union P { a: i64 }",
  ] {
    def(&mut v, false, format!("#[derive(Spanned)] {item} fn ok() {{ spans::<P>() }}"));
  }
  for n in 1..=max {
    for k in 0..fields.len().pow(n as u32) {
      let pick: Vec<usize> = (0..n).map(|i| k / fields.len().pow(i as u32) % fields.len()).collect();
      let valid = ok_from(&mut pick.iter().copied()) && ok_from(&mut pick.iter().rev().copied());
      let named: Vec<String> = pick.iter().enumerate().map(|(i, p)| format!("{} f{i}: {}", fields[*p].0, fields[*p].1)).collect();
      let tuple: Vec<String> = pick.iter().map(|p| format!("{} {}", fields[*p].0, fields[*p].1)).collect();
      let (named, tuple) = (named.join(", "), tuple.join(", "));
      let which = if n < 3 { 4 } else { 2 };
      for w in 0..which {
        let item = match (w + k) % 4 {
          0 => format!("struct P {{ {named} }}"),
          1 => format!("enum P {{ X(S), Y({tuple}) }}"),
          2 => format!("struct P({tuple});"),
          _ => format!("enum P {{ Y {{ {named} }}, X(S) }}"),
        };
        def(&mut v, valid, format!("#[derive(Spanned)] {item} fn ok() {{ spans::<P>() }}"));
      }
    }
  }
  v
}

pub fn token_kind() -> Vec<Def> {
  let mut v = vec![];
  let args: &[(&str, bool)] = &[
    ("#[token_kind]", true),
    ("#[token_kind(x)]", false),
    ("#[token_kind(K)]", false),
    ("#[token_kind(\"x\")]", false),
    ("#[token_kind(true)]", false),
    ("#[token_kind(a = 1)]", false),
  ];
  let items: &[(&str, bool)] = &[
    ("enum P { X }", true),
    ("enum P { X(i64), Y(String), Z }", true),
    ("enum P { X(i64), Y(i64, i64), Z { a: i64 }, W(), V {} }", true),
    ("enum P { /** doc {} */ X(i64), Y(char) }", true),
    ("enum P { X(i64), Y(i64) }", false),
    ("enum P { X(Plain) }", false),
    ("struct P;", false),
    ("struct P(i64);", false),
    ("struct P { a: i64 }", false),
    ("union P { a: i64 }", false),
    ("fn p() {}", false),
    ("mod p {}", false),
    ("type P = i64;", false),
  ];
  for (a, av) in args {
    for (i, iv) in items {
      def(&mut v, *av && *iv, format!("{a} pub {i}"));
    }
  }
  for (d, ok) in [("Debug, Eq, Hash", true), ("Debug", true), ("Clone", false), ("PartialEq", false), ("Debug, PartialEq", false)] {
    def(&mut v, ok, format!("#[token_kind] #[derive({d})] enum P {{ X(i64), Y }}"));
    def(&mut v, ok, format!("#[derive({d})] #[token_kind] enum P {{ X(i64), Y }}"));
  }
  v
}

pub fn token_ast() -> Vec<Def> {
  let mut v = vec![];
  let arms: &[(&str, bool)] = &[
    ("[x] => { kind: K::A }", true),
    ("[x] => { kind: K::A, prompt: \"x\" }", true),
    ("[x] => { kind: K::A, prompt: \"x\", }", true),
    ("[x] => { kind: K::A | K::B, prompt: \"x\" }", true),
    ("[x] => { kind: | K::A | K::B, prompt: \"x\" }", true),
    ("[x] => { kind: K::N(_), prompt: \"x\" }", true),
    ("[x] => { kind: K::N(i) if *i > 3, prompt: \"x {}\" }", true),
    ("[x] => { kind: K::N(5) }", true),
    ("[x] => { kind: _, prompt: \"x\" }", true),
    ("[x y] => { kind: K::A }", false),
    ("[] => { kind: K::A }", true),
    ("[( )] => { kind: K::A }", true),
    ("[..] => { kind: K::A }", false),
    ("[+] => { kind: K::A }", true),
    ("[x] => { kind: K::N(_) }", false),
    ("[x] => { kind: K::A | K::B }", false),
    ("[x] => { kind: K::N(i) if *i > 3 }", false),
    ("[x] => { kind: K::A if true }", false),
    ("[x] => { king: K::A }", false),
    ("[x] => { kind K::A }", false),
    ("[x] => { K::A }", false),
    ("[x] => { }", false),
    ("[x] => { kind: }", false),
    ("[x] => { kind: K::A, prompt }", false),
    ("[x] => { kind: K::A, prompt: }", false),
    ("[x] => { kind: K::A, prompt: x }", false),
    ("[x] => { kind: K::A, prompt: 5 }", false),
    ("[x] => { kind: K::A, prompt: 'x' }", false),
    ("[x] => { kind: K::A, prompt \"x\" }", false),
    ("[x] => { kind: K::A, promt: \"x\" }", false),
    ("[x] => { kind: K::A, prompt: \"x\", prompt: \"y\" }", false),
    ("[x] => { kind: K::A, prompt: \"x\" \"y\" }", false),
    ("[x] => { kind: K::A prompt: \"x\" }", false),
    ("[x] => { prompt: \"x\", kind: K::A }", false),
    ("[x] => { prompt: \"x\" }", false),
    ("[x] => { kind: K::A, kind: K::B }", false),
    ("[x] => { kind: K::Missing }", false),
    ("[x] => { kind: 5 }", false),
    ("[x] => { kind: \"a\", prompt: \"x\" }", false),
    ("[x] => (kind: K::A)", false),
    ("[x] => K::A", false),
    ("[x] -> { kind: K::A }", false),
    ("x => { kind: K::A }", false),
    ("(x) => { kind: K::A }", false),
    ("\"x\" => { kind: K::A }", false),
    ("[x]: { kind: K::A }", false),
  ];
  for (arm, ok) in arms {
    for (i, list) in [arm.to_string(), format!("{arm},"), format!("[b] => {{ kind: K::B }}, {arm}"), format!("{arm}, [b] => {{ kind: K::B }},")].into_iter().enumerate() {
      // (the name of a token is one token tree: two are refused by the documentation's form only, so they are left out)
      if arm.starts_with("[x y]") || arm.starts_with("[..]") {
        continue;
      }
      let _ = i;
      def(&mut v, *ok, format!("use super::common::K; token_ast! {{ macro U<K> {{ {list} }} }}"));
    }
  }
  let ok_arm = "{ [x] => { kind: K::A } }";
  let uses = "fn ok() { parses::<U![x]>(); spans::<U![x]>(); }";
  let heads: &[(&str, bool)] = &[
    ("macro U<K>", true),
    ("pub(crate) macro U<K>", true),
    ("pub(self) macro U<K>", true),
    ("pub(super) macro U<K>", true),
    ("#[derive(Debug, Clone)] macro U<K>", true),
    ("/// doc\n #[derive(Debug)] #[derive(Clone)] pub(crate) macro U<K>", true),
    ("#[allow(unused_macros)] macro U<K>", true),
    ("macro U<crate::common::K>", true),
    ("macro U", false),
    ("macro U<>", false),
    ("macro U<K, K>", false),
    ("macro U<i64, K>", false),
    ("macro U<'a>", false),
    ("macro U<'a, K>", false),
    ("macro U<5>", false),
    ("macro U(K)", false),
    ("macro <K>", false),
    ("macro_rules U<K>", false),
    ("U<K>", false),
    ("enum U<K>", false),
    ("macro U<K> where K: Sized", false),
    ("macro U<K>;", false),
    ("macro U<Missing>", false),
    ("pub(in ::std) macro U<K>", false),
  ];
  for (h, ok) in heads {
    def(&mut v, *ok, format!("token_ast! {{ {h} {ok_arm} }} {uses}"));
  }
  for body in ["", "K", "[x] => { kind: K::A }", "macro U<K>", "macro U<K> ()", "macro U<K> []", "macro U<K> { [x] => { kind: K::A } } extra", "macro U<K> { [x] => { kind: K::A } [b] => { kind: K::B } }", "macro U<K> { , }"] {
    def(&mut v, false, format!("token_ast! {{ {body} }} {uses}"));
  }
  v
}
