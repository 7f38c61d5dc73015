//! C25: token macros.
#![allow(dead_code, unused_imports, non_camel_case_types, macro_expanded_macro_exports_accessed_by_absolute_paths)]
#[path = "../../lib/src/capture.rs"]
mod capture;
mod defs;
mod kinds;

use capture::capture;
use defs::{Answer, Def};
use eng::{CaseIter, Check, Stats, Tier};
use kinds::*;
use laps::span::{Error, FileType, Location, Span};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub type TS = TokenBuffer<Script, Token<K>>;

/// Delivers kinds (`None`: the tokenizer fails), then end tokens.
pub struct Script {
  ev: Vec<Option<K>>,
  pos: usize,
  pub span: Span,
}

fn place(span: &Span, i: usize) -> Span {
  let mut s = span.clone();
  s.update_loc(Location { line: 1 + i as u32, col: 3 + 7 * i as u32 });
  let mut e = span.clone();
  e.update_loc(Location { line: 1 + i as u32, col: 5 + 7 * i as u32 });
  s.update_end(e);
  s
}

impl Tokenizer for Script {
  type Token = Token<K>;
  fn next_token(&mut self) -> laps::span::Result<Token<K>> {
    let i = self.pos;
    self.pos += 1;
    match self.ev.get(i) {
      Some(Some(k)) => Ok(Token { kind: k.clone(), span: place(&self.span, i) }),
      Some(None) => Err(Error::Fatal),
      None => Ok(Token { kind: K::Eof, span: place(&self.span, i) }),
    }
  }
}

fn stream(ev: &[Option<K>]) -> TS {
  TokenBuffer::new(Script { ev: ev.to_vec(), pos: 0, span: Span::new(FileType::Buffer) })
}

fn main() {
  eng::main(&[Check { id: "C25", cases, run, space, serial: false }]);
}

fn cases(_: Tier) -> CaseIter {
  Box::new(
    defs::all()
      .into_iter()
      .map(|d| format!("pattern {}", d.name))
      .chain((0..domain().len()).map(|i| format!("kind {i}")))
      .chain((0..displays().len()).map(|i| format!("display {i}"))),
  )
}

fn space(_: Tier) -> String {
  format!(
    "{} token patterns (paths, wildcards, alternatives, ranges, bindings, guards, literals, nested patterns; with and without prompts, including prompts with \
     braces; in macros of every visibility, with and without derives) x {} kinds x what follows (another kind, the end, a tokenizer error) x peeked before or \
     not: answer, token held, tokens left, errors counted, report; conversions of every kind into every type, by value and by reference; equality, hash and \
     display of every pair of kinds; {} displayed kinds",
    defs::all().len(),
    domain().len(),
    displays().len()
  )
}

fn strip(b: &[u8]) -> String {
  let s = String::from_utf8_lossy(b);
  let mut out = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c == '\x1b' {
      for d in it.by_ref() {
        if d.is_ascii_alphabetic() {
          break;
        }
      }
    } else {
      out.push(c);
    }
  }
  out
}

fn run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (a, b) = case.split_once(' ').unwrap();
  match a {
    "pattern" => pattern(defs::all().into_iter().find(|d| d.name == b).unwrap(), st),
    "kind" => kind(b.parse().unwrap(), st),
    _ => {
      let (got, want) = displays().swap_remove(b.parse().unwrap());
      st.traces += 1;
      st.transitions += 1;
      st.state(&want);
      st.sample(|| want.clone());
      if got != want {
        return Err(format!("displays {got:?} instead of {want:?}"));
      }
      Ok(())
    }
  }
}

fn pattern(d: Def, st: &mut Stats) -> Result<(), String> {
  st.sample(|| d.name.to_string());
  let follows = [Some(K::Ch('z')), Some(K::Int(0)), None];
  let firsts: Vec<Option<K>> = domain().into_iter().map(Some).chain([None]).collect();
  for first in &firsts {
    for second in follows.iter().map(Some).chain([None]) {
      for peeked in [0, 1, 2] {
        let ev: Vec<Option<K>> = [Some(first), second].into_iter().flatten().cloned().collect();
        if peeked > 0 && ev[..peeked.min(ev.len())].contains(&None) {
          continue;
        }
        st.state(&(d.name, format!("{ev:?}"), peeked));
        let mut ts = stream(&ev);
        if peeked > 0 {
          let _ = ts.peek_n(peeked);
        }
        one(&d, &ev, &mut ts, st).map_err(|m| format!("[{}] on {ev:?} ({peeked} peeked): {m}", d.name))?;
      }
    }
  }
  Ok(())
}

fn one(d: &Def, ev: &[Option<K>], ts: &mut TS, st: &mut Stats) -> Result<(), String> {
  let span = ts.inner().span.clone();
  let first = ev[0].clone();
  // can it start?
  let (m, out) = capture(|| (d.maybe)(ts));
  st.traces += 2;
  st.transitions += 2;
  let Some(first) = first else {
    // (the failure took the place of a token)
    if m != Err(Error::Fatal) {
      return Err(format!("can start: {m:?} though the tokenizer failed"));
    }
    let p = (d.parse)(&mut stream(ev));
    return if matches!(p, Err(Error::Fatal)) { Ok(()) } else { Err(format!("parsed: {p:?} though the tokenizer failed")) };
  };
  let want = (d.accepts)(&first);
  st.outcome(&(d.name, want));
  if m != Ok(want) {
    return Err(format!("can start: {m:?} instead of {want}"));
  }
  if !out.is_empty() || span.error_num() != 0 {
    return Err("something was reported by asking".into());
  }
  let (p, out) = capture(|| (d.parse)(ts));
  match p {
    Ok(Answer { token, span: s, equal }) => {
      if !want {
        return Err(format!("accepts {token:?}"));
      }
      if token.kind != first {
        return Err(format!("holds {token:?}"));
      }
      let at = |s: &Span| ((s.start().line, s.start().col), (s.end().line, s.end().col));
      if at(&token.span) != at(&place(&span, 0)) || at(&s) != at(&token.span) {
        return Err(format!("holds {token:?} with span {s}"));
      }
      if !equal {
        return Err("the value does not equal itself".into());
      }
      if !out.is_empty() || span.error_num() != 0 {
        return Err("something was reported".into());
      }
    }
    Err(e) => {
      if want {
        return Err(format!("rejects it: {e:?}"));
      }
      let out = strip(&out);
      if span.error_num() != 1 || span.warning_num() != 0 {
        return Err(format!("{} errors and {} warnings counted", span.error_num(), span.warning_num()));
      }
      if !out.contains(d.prompt) {
        return Err(format!("reports {out:?}, which does not contain {:?}", d.prompt));
      }
      if !out.contains(&first.to_string()) {
        return Err(format!("reports {out:?}, which does not show the token found ({first})"));
      }
      if !out.contains("1:3") {
        return Err(format!("reports {out:?}, which does not show the place of the token"));
      }
    }
  }
  if !want {
    // (whether a token that is not accepted stays in the stream is not specified)
    return Ok(());
  }
  // exactly one token is consumed
  let rest: Vec<Option<K>> = (1..=ev.len()).map(|_| ts.next_token().ok().map(|t| t.kind)).collect();
  let want: Vec<Option<K>> = ev[1..].iter().cloned().chain([Some(K::Eof)]).collect();
  if rest != want {
    return Err(format!("leaves {rest:?} instead of {want:?}"));
  }
  Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 {
  let mut h = DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}

fn kind(i: usize, st: &mut Stats) -> Result<(), String> {
  let dom = domain();
  let k = &dom[i];
  st.sample(|| format!("{k:?}"));
  st.state(&("kind", i));
  st.transitions += 1;
  // equality and display against all others; tokens compare by their kinds
  for (j, l) in dom.iter().enumerate() {
    st.traces += 1;
    if (k == l) != (i == j) {
      return Err(format!("{k:?} == {l:?}: {}", k == l));
    }
    let (s, t) = (Token { kind: k.clone(), span: Span::new(FileType::Buffer) }, Token { kind: l.clone(), span: place(&Span::new(FileType::Buffer), 3) });
    if (s == t) != (i == j) || (s == *l) != (i == j) || (i == j && hash(&s) != hash(&t)) {
      return Err(format!("tokens of kinds {k:?} and {l:?} compare wrongly"));
    }
    if i == j && s.to_string() != t.to_string() {
      return Err(format!("{s} and {t} are displayed differently"));
    }
  }
  // conversions
  macro_rules! convert {
    ($($t:ty, $v:ident);+ $(;)?) => {
      $({
        st.traces += 1;
        let want: Option<$t> = match k { K::$v(v) => Some(v.clone()), _ => None };
        let got: Option<$t> = k.clone().try_into().ok();
        let by_ref: Option<&$t> = <&$t>::try_from(k).ok();
        st.outcome(&(stringify!($t), want.is_some()));
        if got != want || by_ref != want.as_ref() {
          return Err(format!("as {}: {got:?}, by reference {by_ref:?}, instead of {want:?}", stringify!($t)));
        }
        if let Some(v) = want {
          if K::from(v.clone()) != *k || Token::<K>::new(v.clone(), Span::new(FileType::Buffer)).kind != *k {
            return Err(format!("wrapping {v:?} gives {:?} instead of {k:?}", K::from(v.clone())));
          }
          // through the token type
          let mut ts = stream(&[Some(k.clone())]);
          let got: Option<$t> = defs::unwrap_any::<$t>(&mut ts);
          if got != Some(v.clone()) {
            return Err(format!("unwraps to {got:?} instead of {v:?}"));
          }
          let mut ts = stream(&[Some(k.clone())]);
          let got: Option<$t> = defs::unwrap_any_ref::<$t>(&mut ts);
          if got != Some(v.clone()) {
            return Err(format!("unwraps by reference to {got:?} instead of {v:?}"));
          }
        } else {
          let mut ts = stream(&[Some(k.clone())]);
          let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| defs::unwrap_any::<$t>(&mut ts)));
          if let Ok(v) = got {
            return Err(format!("unwraps to {v:?} though it holds none"));
          }
        }
      })+
    };
  }
  convert! { i32, Int; String, Str; char, Ch; Kw, Keyword; u8, Byte; Boxed, Boxed; bool, CamelCaseValue; }
  Ok(())
}
