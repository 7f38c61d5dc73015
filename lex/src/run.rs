use crate::capture::capture;
use crate::read::Src;
use crate::refer::{lex, Dfa, Ev};
use eng::Stats;
use laps::input::InputStream;
use laps::lexer::{Lexer, Tokenize};
use laps::reader::{ByteReader, Reader};
use laps::span::{Error, FileType, Location, LocationUpdate, Result as LResult, Span};
use laps::token::Tokenizer;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
  Regex,
  Skip,
  Eof,
  None,
}

pub struct Def {
  pub name: &'static str,
  pub bytes: bool,
  /// Per variant: what it is, its pattern, the value of a text (`None`: refused), its name in messages.
  pub vars: &'static [(What, &'static str, fn(&str) -> Option<Option<String>>, &'static str)],
  pub frags: &'static [&'static str],
  pub n: usize,
  pub run: fn(&Def, &str, usize, usize, &mut Stats) -> Result<(), String>,
}

pub trait Show {
  /// The variant and its value.
  fn show(&self) -> (usize, Option<String>);
}

/// Bytes as the characters of the same numbers.
pub fn latin(b: &[u8]) -> String {
  b.iter().map(|b| *b as char).collect()
}

pub trait Sym: Copy + PartialEq + LocationUpdate + 'static {
  type R: InputStream<CharType = Self>;
  fn of(c: u32) -> Self;
  fn reader(text: &[u32], chunk: usize, fail: Option<usize>) -> Self::R;
}
impl Sym for char {
  type R = Reader<Src>;
  fn of(c: u32) -> char {
    char::from_u32(c).unwrap()
  }
  fn reader(text: &[u32], chunk: usize, fail: Option<usize>) -> Self::R {
    let s: String = text.iter().map(|c| Self::of(*c)).collect();
    let mut src = Src::new(s.as_bytes(), &[chunk]);
    src.fail_at = fail;
    Reader::new(src, FileType::Buffer)
  }
}
impl Sym for u8 {
  type R = ByteReader<Src>;
  fn of(c: u32) -> u8 {
    c as u8
  }
  fn reader(text: &[u32], chunk: usize, fail: Option<usize>) -> Self::R {
    let s: Vec<u8> = text.iter().map(|c| *c as u8).collect();
    let mut src = Src::new(&s, &[chunk]);
    src.fail_at = fail;
    ByteReader::new(src, FileType::Buffer)
  }
}

/// The harness's own stream, or a reader.
pub enum In<C: Sym> {
  Own { text: Vec<C>, pos: usize, span: Span, fail: Option<usize>, reads: usize },
  Reader(C::R),
}

impl<C: Sym> InputStream for In<C> {
  type CharType = C;
  fn next_char_loc(&mut self) -> LResult<(Option<C>, Location)> {
    match self {
      In::Own { text, pos, span, fail, reads } => {
        *reads += 1;
        if *reads > 100 + 8 * text.len() {
          panic!("the lexer reads on and on");
        }
        if *fail == Some(*pos) {
          return Err(Error::Fatal);
        }
        let loc = span.start();
        let c = text.get(*pos).copied();
        if let Some(c) = c {
          *pos += 1;
          span.update(&c);
        }
        Ok((c, loc))
      }
      In::Reader(r) => r.next_char_loc(),
    }
  }
  fn unread(&mut self, last: (Option<C>, Location)) {
    match self {
      In::Own { pos, span, .. } => {
        span.update_loc(last.1);
        if last.0.is_some() {
          *pos -= 1;
        }
      }
      In::Reader(r) => r.unread(last),
    }
  }
  fn span(&self) -> &Span {
    match self {
      In::Own { span, .. } => span,
      In::Reader(r) => r.span(),
    }
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    match self {
      In::Own { span, .. } => span.update_loc(Location { line, col }),
      In::Reader(r) => r.set_line_col(line, col),
    }
  }
}

pub fn run_chars<K: Tokenize<CharType = char> + Show>(d: &Def, kind: &str, n: usize, what: usize, st: &mut Stats) -> Result<(), String> {
  run::<char>(d, kind, n, what, st, |t| match K::next_token(t) {
    Ok(t) => Ok((t.kind.show(), t.span)),
    Err(e) => Err(e),
  }, |i| {
    // through the lexer type
    let mut l: Lexer<In<char>, K> = K::lexer(i);
    let mut v = vec![];
    for _ in 0..5 {
      match l.next_token() {
        Ok(t) => v.push(Some(t.kind.show())),
        Err(_) => v.push(None),
      }
    }
    v
  })
}

pub fn run_bytes<K: Tokenize<CharType = u8> + Show>(d: &Def, kind: &str, n: usize, what: usize, st: &mut Stats) -> Result<(), String> {
  run::<u8>(d, kind, n, what, st, |t| match K::next_token(t) {
    Ok(t) => Ok((t.kind.show(), t.span)),
    Err(e) => Err(e),
  }, |i| {
    let mut l: Lexer<In<u8>, K> = K::lexer(i);
    let mut v = vec![];
    for _ in 0..5 {
      match l.next_token() {
        Ok(t) => v.push(Some(t.kind.show())),
        Err(_) => v.push(None),
      }
    }
    v
  })
}

type Shown = (usize, Option<String>);
type Next<C> = fn(&mut In<C>) -> LResult<(Shown, Span)>;
type First<C> = fn(In<C>) -> Vec<Option<Shown>>;

fn own<C: Sym>(text: &[u32], fail: Option<usize>) -> In<C> {
  In::Own { text: text.iter().map(|c| C::of(*c)).collect(), pos: 0, span: Span::new(FileType::Buffer), fail, reads: 0 }
}

fn symbols(d: &Def, w: &[&str]) -> Vec<u32> {
  let _ = d;
  w.iter().flat_map(|f| f.chars()).map(|c| c as u32).collect()
}

fn run<C: Sym>(d: &Def, kind: &str, n: usize, what: usize, st: &mut Stats, next: Next<C>, first: First<C>) -> Result<(), String> {
  let mut dfa = Dfa::new(d)?;
  let show = |t: &[u32]| {
    let s: String = t.iter().take(60).map(|c| char::from_u32(*c).unwrap()).collect();
    format!("on {s:?}{}", if t.len() > 60 { format!("... ({} symbols)", t.len()) } else { String::new() })
  };
  match kind {
    "short" => {
      for w in eng::words(d.frags.to_vec(), 0, n) {
        let t = symbols(d, &w);
        st.local_states += 1;
        one(d, &mut dfa, &t, None, own::<C>(&t, None), what, st, next).map_err(|m| format!("{}: {m}", show(&t)))?;
        if w.len() <= 3 && what == 0 {
          through(d, &mut dfa, &t, own::<C>(&t, None), first).map_err(|m| format!("{}: {m}", show(&t)))?;
        }
      }
      st.note("reference states", dfa.len() as u64);
    }
    "long" => {
      // longer than the reader's buffer, and in small chunks
      for u in eng::words(d.frags.to_vec(), 0, if d.frags.len() > 12 { 0 } else { 1 }) {
        for v in eng::words(d.frags.to_vec(), 1, if d.frags.len() > 8 { 1 } else { 2 }) {
          for w in eng::words(d.frags.to_vec(), 0, 1) {
            let (u, v, w) = (symbols(d, &u), symbols(d, &v), symbols(d, &w));
            for (len, chunk) in [(7, 1), (40, 3), (1030, 1023), (1030, 5000)] {
              // (all of them in the thorough tier)
              if n == 0 && len > 1000 && (!u.is_empty() || (chunk > 1023) != w.is_empty()) {
                continue;
              }
              let mut t = u.clone();
              while t.len() < len {
                t.extend(&v);
              }
              t.extend(&w);
              st.local_states += 1;
              let r = In::Reader(C::reader(&t, chunk, None));
              one(d, &mut dfa, &t, None, r, what, st, next).map_err(|m| format!("{}, read in chunks of {chunk}: {m}", show(&t)))?;
            }
          }
        }
      }
    }
    _ => {
      let depth = if d.frags.len() > 12 { 2 } else if d.frags.len() > 8 { 3 } else { 4 };
      for w in eng::words(d.frags.to_vec(), 0, depth) {
        let t = symbols(d, &w);
        for f in (0..=t.len().min(8)).chain((t.len() > 8).then_some(t.len())) {
          st.local_states += 2;
          one(d, &mut dfa, &t, Some(f), own::<C>(&t, Some(f)), what, st, next).map_err(|m| format!("{} with the source failing at {f}: {m}", show(&t)))?;
          if w.len() <= 3 && t.iter().all(|c| *c < 128) {
            // a reader whose source fails after f single bytes
            let r = In::Reader(C::reader(&t, 1, Some(f)));
            one(d, &mut dfa, &t, Some(f), r, what, st, next).map_err(|m| format!("{} read byte by byte, with read {f} failing: {m}", show(&t)))?;
          }
        }
      }
    }
  }
  Ok(())
}

/// The lexer type delivers the same.
fn through<C: Sym>(d: &Def, dfa: &mut Dfa, text: &[u32], input: In<C>, first: First<C>) -> Result<(), String> {
  let want = lex(dfa, d, text, None);
  let (got, _) = capture(|| first(input));
  for (w, g) in want.iter().zip(&got) {
    let ok = match (w, g) {
      (Ev::Token { var, value, .. }, Some(g)) => (var, value) == (&g.0, &g.1),
      (Ev::End { var }, Some(g)) => g.0 == *var,
      (Ev::Token { .. } | Ev::End { .. }, None) => false,
      (_, g) => g.is_none(),
    };
    if !ok {
      return Err(format!("the lexer delivers {got:?} instead of {want:?}"));
    }
  }
  Ok(())
}

/// Where every character is (the end of input is where the last one is).
fn places(text: &[u32]) -> Vec<(u32, u32)> {
  let (mut l, mut c) = (1, 0);
  let mut v = vec![];
  for x in text {
    if *x == 10 {
      l += 1;
      c = 0;
    } else {
      c += 1;
    }
    v.push((l, c));
  }
  v
}

fn one<C: Sym>(d: &Def, dfa: &mut Dfa, text: &[u32], fail: Option<usize>, mut input: In<C>, what: usize, st: &mut Stats, next: Next<C>) -> Result<(), String> {
  let want = lex(dfa, d, text, fail);
  let places = if what == 1 { places(text) } else { vec![] };
  let at_end = places.last().copied().unwrap_or((1, 0));
  let root = input.span().clone();
  st.traces += 1;
  for (i, w) in want.iter().enumerate() {
    let errors = root.error_num();
    let (g, out) = if !matches!(w, Ev::Token { .. } | Ev::End { .. }) { capture(|| next(&mut input)) } else { (next(&mut input), vec![]) };
    st.transitions += 1;
    st.outcome(&std::mem::discriminant(w));
    let loc = |l: Location| (l.line, l.col);
    match (w, &g) {
      (Ev::Token { var, value, from, to }, Ok((g, span))) => match what {
        0 if (var, value) != (&g.0, &g.1) => return Err(format!("token {i} is {g:?} instead of {:?} (characters {from} to {to})", (var, value))),
        1 if (*var, value) == (g.0, &g.1) => {
          let (g, w) = ((loc(span.start()), loc(span.end())), (places[*from], places[*to]));
          if g != w {
            return Err(format!("token {i} (characters {from} to {to}) has span {g:?} instead of {w:?}"));
          }
        }
        // (other tokens than expected: C15)
        1 | 2 if *var != g.0 || *value != g.1 => return Ok(()),
        _ => {}
      },
      (Ev::Token { var, value, from, to }, Err(e)) => {
        return if what == 0 { Err(format!("token {i} is an error ({e:?}) instead of {:?} (characters {from} to {to})", (var, value))) } else { Ok(()) }
      }
      (Ev::End { var }, Ok((g, span))) => {
        if what == 0 && g.0 != *var {
          return Err(format!("token {i} is {g:?} instead of the end"));
        }
        if what == 1 {
          if g.0 != *var {
            return Ok(());
          }
          let g = (loc(span.start()), loc(span.end()));
          if g != (at_end, at_end) {
            return Err(format!("the end has span {g:?} instead of {at_end:?}"));
          }
        }
        if what == 2 {
          for k in 0..3 {
            if k > 0 || g.0 == *var {
              let again = next(&mut input);
              if again.as_ref().map(|x| x.0 .0) != Ok(*var) {
                return Err(format!("the end is not delivered again: {again:?}"));
              }
            }
            if g.0 != *var {
              return Err(format!("token {i} is {g:?} instead of the end"));
            }
          }
          if root.error_num() != errors {
            return Err("an error is counted at the end of input".into());
          }
        }
      }
      (Ev::End { .. }, Err(e)) => return if what == 2 { Err(format!("error {e:?} at the end of input instead of the end token")) } else { Ok(()) },
      (w, Ok((g, _))) => {
        return match what {
          1 => Ok(()),
          // text that no pattern matches is never a token
          _ => Err(format!("token {i} is {g:?} instead of an error ({w:?})")),
        }
      }
      (w, Err(e)) if what == 2 => {
        let counted = root.error_num() - errors;
        let text = String::from_utf8_lossy(&out).into_owned();
        let want = match w {
          Ev::Unrecognized => "unrecognized token".to_string(),
          Ev::UnexpectedEnd | Ev::NoEnd => "unexpected end-of-file".to_string(),
          Ev::Invalid(v) => format!("invalid {}", d.vars[*v].3),
          _ => String::new(),
        };
        if *w == Ev::Source {
          if *e != Error::Fatal {
            return Err(format!("the source failed, but the error is {e:?}"));
          }
        } else if counted != 1 {
          return Err(format!("{counted} errors counted for {w:?}"));
        }
        if !text.contains(&want) {
          return Err(format!("reports {text:?}, which does not contain {want:?}"));
        }
        if *w == Ev::NoEnd {
          for _ in 0..3 {
            let (again, _) = capture(|| next(&mut input));
            if again.is_ok() {
              return Err(format!("delivers {again:?} after the end of input"));
            }
          }
        }
      }
      _ => {}
    }
  }
  Ok(())
}
