//! C30: whole front ends against grammars.
mod clike;
mod config;
mod gram;
mod json;
mod sexp;
mod show;

use eng::{CaseIter, Check, Stats, Tier};
use gram::{Tok, DROPPED, G, VALUE};
use laps::span::Span;
use show::Out;
use std::collections::HashMap;
use std::sync::OnceLock;

/// A token and its value.
pub type Lexeme = (Tok, String);

/// A source that hands out `chunk` bytes at a time.
pub struct Src<'a> {
  pub text: &'a [u8],
  pub chunk: usize,
}
impl std::io::Read for Src<'_> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    let n = self.chunk.min(buf.len()).min(self.text.len());
    buf[..n].copy_from_slice(&self.text[..n]);
    self.text = &self.text[n..];
    Ok(n)
  }
}

pub struct Front {
  pub name: &'static str,
  /// Reads a whole text.
  pub read: fn(&[u8], usize, &mut Out) -> (laps::span::Result<()>, Span),
  /// The tokens of a text, by the reference.
  pub lex: fn(&str) -> Option<Vec<Lexeme>>,
  pub rules: HashMap<&'static str, G>,
  /// Texts of each token, and whether it can stand next to anything.
  pub tokens: &'static [(&'static [&'static str], bool)],
  /// Alphabets, and lengths in the quick and the thorough tier.
  pub words: &'static [(&'static [Tok], usize, usize)],
  /// All sentences up to this length, with every single edit.
  pub near: (usize, usize),
  pub chars: &'static [&'static str],
  pub nchars: (usize, usize),
}
unsafe impl Sync for Front {}
unsafe impl Send for Front {}

/// With the logger every refused text prints; it gets the smaller spaces.
const LOGGER: usize = if cfg!(feature = "logger") { 1 } else { 0 };

impl Front {
  fn all(&self) -> Vec<Tok> {
    (0..self.tokens.len() as Tok).collect()
  }
}

fn fronts() -> &'static [(Front, Tables)] {
  static F: OnceLock<Vec<(Front, Tables)>> = OnceLock::new();
  F.get_or_init(|| {
    let mut v = vec![sexp::front(), json::front(), config::front()];
    v.extend(clike::fronts());
    v.into_iter().map(|f| (f, Tables::default())).collect()
  })
}

/// The sentences, per alphabet (the last one: all tokens, for the edits) and length.
#[derive(Default)]
struct Tables {
  all: [OnceLock<HashMap<Vec<Tok>, String>>; 8],
}

type Table = HashMap<Vec<Tok>, String>;

/// Sentences over one alphabet.
fn words_table(i: usize, a: usize, t: Tier) -> &'static Table {
  let (f, tb) = &fronts()[i];
  let (al, q, th) = f.words[a];
  tb.all[a].get_or_init(|| gram::table(&f.rules, al, t.pick(q, th)))
}

/// Sentences with room for one more token.
fn near_table(i: usize, t: Tier) -> &'static Table {
  let (f, tb) = &fronts()[i];
  tb.all[7].get_or_init(|| gram::table(&f.rules, &f.all(), t.pick(f.near.0, f.near.1) + 1))
}

fn chars_table(i: usize, t: Tier) -> &'static Table {
  let (f, tb) = &fronts()[i];
  let n = t.pick(f.nchars.0, f.nchars.1);
  // a piece is at most one token
  let longest = near_len(f, t) + 1;
  if n <= longest {
    near_table(i, t)
  } else {
    tb.all[6].get_or_init(|| gram::table(&f.rules, &f.all(), n))
  }
}

fn near_len(f: &Front, t: Tier) -> usize {
  t.pick(f.near.0, f.near.1)
}

fn tier_of(s: &str) -> Tier {
  if s == "t" {
    Tier::Thorough
  } else {
    Tier::Quick
  }
}

fn cases(t: Tier) -> CaseIter {
  let tn = t.pick("q", "t");
  let mut v: Vec<Box<dyn Iterator<Item = String> + Send>> = vec![];
  for (i, (f, _)) in fronts().iter().enumerate() {
    for (a, &(al, q, th)) in f.words.iter().enumerate() {
      let n = t.pick(q, th) - LOGGER;
      let pre = n.saturating_sub(if al.len() > 8 { 2 } else { 3 });
      for k in 0..=pre {
        let name = f.name;
        v.push(Box::new(eng::words((0..al.len()).collect::<Vec<_>>(), k, k).map(move |w| {
          format!("{i} {name} words {tn} {a} {} {}", if k == pre { n - k } else { 0 }, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-"))
        })));
      }
    }
    if !f.chars.is_empty() {
      let n = t.pick(f.nchars.0, f.nchars.1) - LOGGER;
      let pre = n - 2;
      for k in 0..=pre {
        let name = f.name;
        v.push(Box::new(eng::words((0..f.chars.len()).collect::<Vec<_>>(), k, k).map(move |w| {
          format!("{i} {name} chars {tn} 0 {} {}", if k == pre { n - k } else { 0 }, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-"))
        })));
      }
    }
    // sentences and their neighbours, in blocks by hash
    let blocks = 256;
    let name = f.name;
    v.push(Box::new((0..blocks).map(move |b| format!("{i} {name} near {tn} {blocks} {b} "))));
  }
  Box::new(v.into_iter().flatten())
}

fn space(t: Tier) -> String {
  let mut s = format!("configuration {}: ", if LOGGER == 1 { "with the logger" } else { "without the logger" });
  for (f, _) in fronts() {
    s += f.name;
    s += ": token sequences over";
    for &(al, q, th) in f.words {
      s += &format!(" {} tokens <= {},", al.len(), t.pick(q, th) - LOGGER);
    }
    if !f.chars.is_empty() {
      s += &format!(" texts over {} pieces <= {},", f.chars.len(), t.pick(f.nchars.0, f.nchars.1) - LOGGER);
    }
    s += &format!(" all sentences of <= {} tokens and every deletion, insertion, replacement and exchange of a token; ", near_len(f, t) - 3 * LOGGER);
  }
  s + "each with blanks, without, and in one-byte reads, and accepted trees printed and read again"
}

fn run(case: &str, st: &mut Stats) -> Result<(), String> {
  let p: Vec<&str> = case.split(' ').collect();
  let i: usize = p[0].parse().unwrap();
  let (f, _) = &fronts()[i];
  let tier = tier_of(p[3]);
  let a: usize = p[4].parse().unwrap();
  let k: usize = p[5].parse().unwrap();
  match p[2] {
    "words" => {
      let table = words_table(i, a, tier);
      let al = f.words[a].0;
      let pre: Vec<Tok> = nums(p[6]).into_iter().map(|x| al[x]).collect();
      for w in eng::words(al.to_vec(), 0, k) {
        let mut s = pre.clone();
        s.extend(w);
        tokens(f, &s, table, st)?;
      }
    }
    "near" => {
      let table = near_table(i, tier);
      let max = near_len(f, tier) - 3 * LOGGER;
      let mut mine: Vec<&Vec<Tok>> = table.keys().filter(|w| w.len() <= max && eng::hash(*w) % a as u64 == k as u64).collect();
      mine.sort_by_key(|w| (w.len(), *w));
      for s in mine {
        st.note("sentences", 1);
        tokens(f, s, table, st)?;
        for j in 0..s.len() {
          let mut d = s.clone();
          d.remove(j);
          tokens(f, &d, table, st)?;
          if j + 1 < s.len() && s[j] != s[j + 1] {
            let mut d = s.clone();
            d.swap(j, j + 1);
            tokens(f, &d, table, st)?;
          }
        }
        for c in f.all() {
          for j in 0..=s.len() {
            let mut d = s.clone();
            d.insert(j, c);
            tokens(f, &d, table, st)?;
            if j < s.len() && s[j] != c {
              let mut d = s.clone();
              d[j] = c;
              tokens(f, &d, table, st)?;
            }
          }
        }
      }
    }
    "chars" => {
      let table = chars_table(i, tier);
      let pre: String = nums(p[6]).into_iter().map(|x| f.chars[x]).collect();
      for w in eng::words(f.chars.to_vec(), 0, k) {
        let s = pre.clone() + &w.concat();
        let want = (f.lex)(&s).and_then(|l| {
          let w: Vec<Tok> = l.iter().map(|x| x.0).collect();
          table.get(&w).map(|t| fill(t, l.iter().map(|x| &x.1[..])))
        });
        check(f, &s, want.as_deref(), st)?;
      }
    }
    _ => unreachable!(),
  }
  st.sample(|| case.to_string());
  Ok(())
}

fn nums(s: &str) -> Vec<usize> {
  s.split('-').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn fill<'a>(t: &str, mut values: impl Iterator<Item = &'a str>) -> String {
  let mut o = String::new();
  for c in t.chars() {
    if c == VALUE {
      o += values.next().unwrap();
    } else if c == DROPPED {
      values.next().unwrap();
    } else {
      o.push(c);
    }
  }
  o
}

/// A token sequence as texts: with a blank everywhere, and with as few as possible.
fn tokens(f: &Front, s: &[Tok], table: &Table, st: &mut Stats) -> Result<(), String> {
  let mut spaced = String::new();
  let mut tight = String::new();
  let mut last_joins = true;
  for (j, t) in s.iter().enumerate() {
    let (texts, joins) = f.tokens[*t as usize];
    let x = texts[j % texts.len()];
    if j > 0 {
      spaced += " ";
      if !joins && !last_joins {
        tight += " ";
      }
    }
    spaced += x;
    tight += x;
    last_joins = joins;
  }
  let want = table.get(s).map(|tree| {
    let l = match (f.lex)(&spaced) {
      Some(l) => l,
      None => eng::harness_error(&format!("the reference does not read {spaced:?}")),
    };
    if l.iter().map(|x| x.0).ne(s.iter().copied()) {
      eng::harness_error(&format!("the reference reads {spaced:?} as {l:?}"));
    }
    fill(tree, l.iter().map(|x| &x.1[..]))
  });
  check(f, &spaced, want.as_deref(), st)?;
  if tight != spaced {
    check(f, &tight, want.as_deref(), st)?;
  }
  Ok(())
}

fn bytes(f: &Front, s: &str) -> Vec<u8> {
  if f.name == "config" {
    s.chars().map(|c| c as u32 as u8).collect()
  } else {
    s.as_bytes().to_vec()
  }
}

fn check(f: &Front, text: &str, want: Option<&str>, st: &mut Stats) -> Result<(), String> {
  let b = bytes(f, text);
  for chunk in [usize::MAX, 1] {
    let mut o = Out::default();
    let (r, span) = (f.read)(&b, chunk, &mut o);
    st.traces += 1;
    st.transitions += b.len() as u64;
    let e = span.error_num();
    match (&r, want) {
      (Ok(()), None) => return Err(format!("{}: {text:?} is not a sentence, but is accepted as {}", f.name, o.tree)),
      (Err(x), Some(w)) => return Err(format!("{}: {text:?} is refused with {x:?}, but means {w}", f.name)),
      (Ok(()), Some(w)) => {
        if o.tree != w {
          return Err(format!("{}: {text:?} is read as {} instead of {w}", f.name, o.tree));
        }
        if e != 0 {
          return Err(format!("{}: {text:?} is accepted with {e} errors reported", f.name));
        }
      }
      (Err(_), None) => {
        if e == 0 {
          return Err(format!("{}: {text:?} is refused, but no error is counted", f.name));
        }
      }
    }
    if r.is_ok() && chunk == 1 {
      let again = o.src.join(" ");
      let mut o2 = Out::default();
      let (r2, _) = (f.read)(&bytes(f, &again), usize::MAX, &mut o2);
      st.note("reread", 1);
      if r2.is_err() || o2.tree != o.tree {
        return Err(format!("{}: {text:?} is printed as {again:?} and read again as {r2:?} {} instead of {}", f.name, o2.tree, o.tree));
      }
    }
    if want.is_none() && text.len() > 6 {
      break;
    }
  }
  st.local_states += 1;
  st.note(if want.is_some() { "accepted" } else { "refused" }, 1);
  Ok(())
}

fn main() {
  eng::main(&[Check { id: "C30", cases, run, space, serial: false }]);
}
