use crate::kinds::{Kw, K};
use crate::TS;
use laps::parse::Parse;
use laps::span::{Result, Span, Spanned};
use laps::token::{token_ast, Token};

pub struct Answer {
  pub token: Token<K>,
  pub span: Span,
  pub equal: bool,
}

impl std::fmt::Debug for Answer {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "{:?}", self.token.kind)
  }
}

pub struct Def {
  pub name: &'static str,
  pub prompt: &'static str,
  pub accepts: fn(&K) -> bool,
  pub parse: fn(&mut TS) -> Result<Answer>,
  pub maybe: fn(&mut TS) -> Result<bool>,
}

macro_rules! def {
  ($v:ident, $name:literal, $t:ty, $prompt:literal, $accepts:expr) => {
    $v.push(Def {
      name: $name,
      prompt: $prompt,
      accepts: $accepts,
      parse: |ts| {
        let x = <$t>::parse(ts)?;
        Ok(Answer { span: x.span(), equal: x == x, token: x.0 })
      },
      maybe: |ts| <$t>::maybe(ts),
    })
  };
}


token_ast! {
  /// Documentation of the macro.
  #[derive(Debug, PartialEq)]
  macro Token<K> {
    [int] => { kind: K::Int(_), prompt: "an integer" },
    [0] => { kind: K::Int(i) if *i == 0, prompt: "zero" },
    [neg] => { kind: K::Int(i) if *i < 0, prompt: "negative" },
    [1 or 2] => { kind: K::Int(1) | K::Int(2), prompt: "one or two" },
    [inner or] => { kind: K::Int(1 | 3 | 5), prompt: "small odd" },
    [leading] => { kind: | K::Int(7) | K::Ch('x'), prompt: "7 or x" },
    [range] => { kind: K::Int(3..=5), prompt: "3 to 5" },
    [from] => { kind: K::Int(6..), prompt: "6 or more" },
    [even] => { kind: K::Int(n @ 6..=9) if n % 2 == 0, prompt: "even" },
    [max] => { kind: K::Int(i32::MAX), prompt: "the greatest" },
    [str] => { kind: K::Str(_), prompt: "a string" },
    [x] => { kind: K::Str(s) if s == "x", prompt: "x itself" },
    [long] => { kind: K::Str(s) if s.len() > 1 && !s.contains(' '), prompt: "long", },
    [ch] => { kind: K::Ch(_), prompt: "a char" },
    [+] => { kind: K::Ch('+') },
    [-] => { kind: K::Ch('-') },
    [letter] => { kind: K::Ch('a'..='c' | 'x'), prompt: "letter" },
    [wide] => { kind: K::Ch(c) if !c.is_ascii(), prompt: "wide {} {c} {{" },
    [kw] => { kind: K::Keyword(_), prompt: "a keyword" },
    [if] => { kind: K::Keyword(Kw::If) },
    [else if] => { kind: K::Keyword(Kw::Else), prompt: "else" },
    [byte] => { kind: K::Byte(200..), prompt: "high byte" },
    [pair] => { kind: K::Pair(..), prompt: "a pair" },
    [pair 0] => { kind: K::Pair(_, 0), prompt: "a pair ending in 0" },
    [pair eq] => { kind: K::Pair(a, b) if a == b, prompt: "equal" },
    [one two] => { kind: K::Pair(1, 2) },
    [named] => { kind: K::Named { a: 1, .. }, prompt: "a is 1" },
    [named both] => { kind: K::Named { a: 0 | 2, b: 1..=2 }, prompt: "both" },
    [named cmp] => { kind: K::Named { a, b } if a < b, prompt: "less" },
    [named exact] => { kind: K::Named { a: 0, b: 2 } },
    [unit] => { kind: K::Unit },
    [other] => { kind: K::OtherUnit, prompt: "other" },
    [empty] => { kind: K::Empty() },
    [braces] => { kind: K::Braces {} },
    [any] => { kind: _, prompt: "anything" },
    [bind] => { kind: k if !matches!(k, K::Eof), prompt: "not the end" },
    [five] => { kind: (K::Int(5)), prompt: "(five)" },
    [five again] => { kind: (K::Int(5)) },
    [() <= ..=] => { kind: K::Ch('*'), prompt: "" },
    [none] => { kind: K::Int(_) if false, prompt: "nothing" },
    [eof] => { kind: K::Eof },
  }
}

// visibilities and paths
mod vis {
  pub mod inner {
    use crate::kinds::K;
    use laps::token::token_ast;
    token_ast! {
      pub(crate) macro crate::defs::vis::inner::Crate<K> {
        [int] => { kind: K::Int(_), prompt: "crate int" },
        [eof] => { kind: K::Eof },
      }
    }
    token_ast! {
      pub(super) macro crate::defs::vis::inner::Super<K> {
        [ch] => { kind: K::Ch('a'), prompt: "super a" },
        [b] => { kind: K::Ch('b') },
      }
    }
    token_ast! {
      #[allow(unused_macros)]
      #[derive(Clone, PartialEq)]
      pub(self) macro Own<crate::kinds::K> {
        [ch] => { kind: K::Ch('a' | 'b'), prompt: "own a or b" },
      }
    }
    token_ast! {
      pub(in crate::defs) macro crate::defs::vis::inner::In<K> {
        [z] => { kind: K::Ch('z') },
      }
    }
    pub fn add(v: &mut Vec<crate::defs::Def>) {
      use crate::defs::*;
      def!(v, "crate int", Crate![int], "crate int", |k| matches!(k, K::Int(_)));
      def!(v, "own ch", Own![ch], "own a or b", |k| *k == K::Ch('a') || *k == K::Ch('b'));
    }
  }
  pub fn add(v: &mut Vec<super::Def>) {
    use super::*;
    use inner::{Crate, In, Super};
    def!(v, "crate int outside", Crate![int], "crate int", |k| matches!(k, K::Int(_)));
    def!(v, "crate eof outside", Crate![eof], "end-of-file", |k| *k == K::Eof);
    def!(v, "super ch", Super![ch], "super a", |k| *k == K::Ch('a'));
    def!(v, "super b", Super![b], "`b`", |k| *k == K::Ch('b'));
    def!(v, "in z", In![z], "`z`", |k| *k == K::Ch('z'));
  }
}


pub mod public {
  use crate::kinds::K;
  use laps::token::token_ast;
  token_ast! {
    pub macro crate::defs::public::PublicToken<K> {
      [bool] => { kind: K::CamelCaseValue(true), prompt: "truth" },
      [unit] => { kind: K::Unit },
    }
  }
  pub fn add(v: &mut Vec<crate::defs::Def>) {
    use crate::defs::*;
    def!(v, "pub bool", PublicToken![bool], "truth", |k| *k == K::CamelCaseValue(true));
    def!(v, "pub unit", PublicToken![unit], "unit", |k| *k == K::Unit);
  }
}

pub fn all() -> Vec<Def> {
  let mut v = vec![];
  let int = |k: &K| if let K::Int(i) = k { Some(*i as i64) } else { None };
  let _ = int;
  fn i(k: &K, f: fn(i64) -> bool) -> bool {
    matches!(k, K::Int(i) if f(*i as i64))
  }
  fn p(k: &K, f: fn(i16, i16) -> bool) -> bool {
    matches!(k, K::Pair(a, b) if f(*a, *b))
  }
  fn n(k: &K, f: fn(i16, i16) -> bool) -> bool {
    matches!(k, K::Named { a, b } if f(*a, *b))
  }
  fn c(k: &K, s: &str) -> bool {
    matches!(k, K::Ch(c) if s.contains(*c))
  }
  fn st(k: &K, f: fn(&str) -> bool) -> bool {
    matches!(k, K::Str(s) if f(s))
  }
  def!(v, "int", Token![int], "an integer", |k| i(k, |_| true));
  def!(v, "0", Token![0], "zero", |k| i(k, |i| i == 0));
  def!(v, "neg", Token![neg], "negative", |k| i(k, |i| i < 0));
  def!(v, "1 or 2", Token![1 or 2], "one or two", |k| i(k, |i| i == 1 || i == 2));
  def!(v, "inner or", Token![inner or], "small odd", |k| i(k, |i| [1, 3, 5].contains(&i)));
  def!(v, "leading", Token![leading], "7 or x", |k| i(k, |i| i == 7) || c(k, "x"));
  def!(v, "range", Token![range], "3 to 5", |k| i(k, |i| i > 2 && i < 6));
  def!(v, "from", Token![from], "6 or more", |k| i(k, |i| i > 5));
  def!(v, "even", Token![even], "even", |k| i(k, |i| i == 6 || i == 8));
  def!(v, "max", Token![max], "the greatest", |k| i(k, |i| i == 2147483647));
  def!(v, "str", Token![str], "a string", |k| st(k, |_| true));
  def!(v, "x", Token![x], "x itself", |k| st(k, |s| s == "x"));
  def!(v, "long", Token![long], "long", |k| st(k, |s| ["if", "{}"].contains(&s)));
  def!(v, "ch", Token![ch], "a char", |k| matches!(k, K::Ch(_)));
  def!(v, "+", Token![+], "`+`", |k| c(k, "+"));
  def!(v, "-", Token![-], "`-`", |k| c(k, "-"));
  def!(v, "letter", Token![letter], "letter", |k| c(k, "abcx"));
  def!(v, "wide", Token![wide], "wide {} {c} {{", |k| c(k, "\u{e9}\u{4e2d}"));
  def!(v, "kw", Token![kw], "a keyword", |k| matches!(k, K::Keyword(_)));
  def!(v, "if", Token![if], "keyword `if`", |k| *k == K::Keyword(Kw::If));
  def!(v, "else if", Token![else if], "else", |k| *k == K::Keyword(Kw::Else));
  def!(v, "byte", Token![byte], "high byte", |k| *k == K::Byte(255));
  def!(v, "pair", Token![pair], "a pair", |k| p(k, |_, _| true));
  def!(v, "pair 0", Token![pair 0], "a pair ending in 0", |k| p(k, |_, b| b == 0));
  def!(v, "pair eq", Token![pair eq], "equal", |k| p(k, |a, b| a == b));
  def!(v, "one two", Token![one two], "two numbers", |k| p(k, |a, b| (a, b) == (1, 2)));
  def!(v, "named", Token![named], "a is 1", |k| n(k, |a, _| a == 1));
  def!(v, "named both", Token![named both], "both", |k| n(k, |a, b| (a == 0 || a == 2) && (b == 1 || b == 2)));
  def!(v, "named cmp", Token![named cmp], "less", |k| n(k, |a, b| a < b));
  def!(v, "named exact", Token![named exact], "named fields {a}", |k| n(k, |a, b| (a, b) == (0, 2)));
  def!(v, "unit", Token![unit], "unit", |k| *k == K::Unit);
  def!(v, "other", Token![other], "other", |k| *k == K::OtherUnit);
  def!(v, "empty", Token![empty], "empty", |k| *k == K::Empty());
  def!(v, "braces", Token![braces], "braces", |k| *k == K::Braces {});
  def!(v, "any", Token![any], "anything", |_| true);
  def!(v, "bind", Token![bind], "not the end", |k| *k != K::Eof);
  def!(v, "five", Token![five], "(five)", |k| i(k, |i| i == 5));
  def!(v, "five again", Token![five again], "integer literal `5`", |k| i(k, |i| i == 5));
  def!(v, "() <= ..=", Token![() <= ..=], "", |k| c(k, "*"));
  def!(v, "none", Token![none], "nothing", |_| false);
  def!(v, "eof", Token![eof], "end-of-file", |k| *k == K::Eof);
  vis::add(&mut v);
  vis::inner::add(&mut v);
  public::add(&mut v);
  v
}

/// Parses any token and unwraps it.
pub fn unwrap_any<T: TryFrom<K>>(ts: &mut TS) -> Option<T>
where
  T::Error: std::fmt::Debug,
{
  Some(<Token![any]>::parse(ts).ok()?.unwrap::<T, T::Error>())
}

pub fn unwrap_any_ref<T: Clone>(ts: &mut TS) -> Option<T>
where
  for<'a> &'a T: TryFrom<&'a K, Error = ()>,
{
  let t = <Token![any]>::parse(ts).ok()?;
  let r: &T = t.unwrap_ref();
  Some(r.clone())
}
