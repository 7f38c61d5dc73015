//! Trees as text, and the source they stand for.
use laps::ast::*;

#[derive(Default)]
pub struct Out {
  pub tree: String,
  pub src: Vec<String>,
}

impl Out {
  /// A token with its value and a text that denotes it.
  pub fn tok(&mut self, value: &str, src: &str) {
    self.tree += value;
    self.src.push(src.into());
  }
}

pub trait Show {
  fn show(&self, o: &mut Out);
}

/// A fixed token.
pub trait Fixed {
  const TEXT: &'static str;
}

impl<T: Show> Show for Box<T> {
  fn show(&self, o: &mut Out) {
    (**self).show(o)
  }
}
impl<T: Show> Show for Option<T> {
  fn show(&self, o: &mut Out) {
    match self {
      Some(t) => t.show(o),
      None => o.tree += "_",
    }
  }
}

fn items<T: Show>(v: &[T], sep: Option<&str>, o: &mut Out) {
  o.tree += "[";
  for (i, t) in v.iter().enumerate() {
    if i > 0 {
      o.tree += " ";
      if let Some(s) = sep {
        o.src.push(s.into());
      }
    }
    t.show(o);
  }
  o.tree += "]";
}

impl<T: Show> Show for Vec<T> {
  fn show(&self, o: &mut Out) {
    items(self, None, o)
  }
}
impl<T: Show> Show for NonEmptySeq<T> {
  fn show(&self, o: &mut Out) {
    items(&self.0, None, o)
  }
}
macro_rules! seps {
  ($($t:ident)*) => {$(
    impl<T: Show, S: Fixed> Show for $t<T, S> {
      fn show(&self, o: &mut Out) {
        items(&self.0, Some(S::TEXT), o)
      }
    }
  )*};
}
seps!(SepSeq NonEmptySepSeq OptSepSeq NonEmptyOptSepSeq);

impl<T: Show, S: Show> Show for NonEmptySepList<T, S> {
  fn show(&self, o: &mut Out) {
    let mut l = match self {
      Self::One(t) => return t.show(o),
      l => l,
    };
    o.tree += "<";
    loop {
      match l {
        Self::One(t) => {
          t.show(o);
          break;
        }
        Self::More(t, s, rest) => {
          t.show(o);
          o.tree += " ";
          s.show(o);
          o.tree += " ";
          l = rest;
        }
      }
    }
    o.tree += ">";
  }
}

#[macro_export]
macro_rules! show {
  ($($t:ty: $name:literal [$($f:tt)*];)*) => {$(
    impl $crate::show::Show for $t {
      fn show(&self, o: &mut $crate::show::Out) {
        o.tree += concat!("(", $name);
        $(
          o.tree += " ";
          self.$f.show(o);
        )*
        o.tree += ")";
      }
    }
  )*};
}

#[macro_export]
macro_rules! show_enum {
  ($($t:ident: $($v:ident)*);* $(;)?) => {$(
    impl $crate::show::Show for $t {
      fn show(&self, o: &mut $crate::show::Out) {
        match self {
          $($t::$v(x) => x.show(o),)*
        }
      }
    }
  )*};
}

#[macro_export]
macro_rules! show_fixed {
  ($($t:ty => $text:literal;)*) => {$(
    impl $crate::show::Fixed for $t {
      const TEXT: &'static str = $text;
    }
    impl $crate::show::Show for $t {
      fn show(&self, o: &mut $crate::show::Out) {
        o.tok($text, $text)
      }
    }
  )*};
}
