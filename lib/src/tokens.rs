//! C20, C21: token streams under every history of operations and every placement of tokenizer errors.
//!
//! The reference is a list of pending events (tokens and errors); after them the tokenizer returns end tokens forever.

use eng::{CaseIter, Check, Stats, Tier};
use laps::parse::Parse;
use laps::span::{Error, FileType, Location, Result as LResult, Span};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use std::collections::VecDeque;
use std::fmt;

pub fn all() -> Vec<Check> {
  vec![
    Check { id: "C20", cases: c20_cases, run: c20_run, space: c20_space, serial: false },
    Check { id: "C21", cases: c21_cases, run: c21_run, space: c21_space, serial: false },
  ]
}

/// A token kind with a serial number, so that every token is distinguishable.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
  A(u8),
  B(u8),
  C(u8),
  End,
}

impl fmt::Display for Kind {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{self:?}")
  }
}

type Tok = Token<Kind>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ev {
  T(Kind),
  E,
}

struct Script {
  ev: VecDeque<Ev>,
  span: Span,
  read: u32,
}

impl Script {
  fn new(ev: &[Ev]) -> Self {
    Script { ev: ev.iter().copied().collect(), span: Span::new(FileType::Buffer), read: 0 }
  }
  fn tok(&mut self, k: Kind) -> Tok {
    self.read += 1;
    let mut span = self.span.clone();
    span.update_loc(Location { line: 1, col: self.read });
    Token { kind: k, span }
  }
}

impl Tokenizer for Script {
  type Token = Tok;
  fn next_token(&mut self) -> LResult<Tok> {
    match self.ev.pop_front() {
      Some(Ev::T(k)) => Ok(self.tok(k)),
      Some(Ev::E) => Err(Error::Fatal),
      None => Ok(self.tok(Kind::End)),
    }
  }
}

/// A token stream with the required methods only.
struct Plain {
  script: Script,
  back: Vec<Tok>,
}

impl Tokenizer for Plain {
  type Token = Tok;
  fn next_token(&mut self) -> LResult<Tok> {
    match self.back.pop() {
      Some(t) => Ok(t),
      None => self.script.next_token(),
    }
  }
}

impl TokenStream for Plain {
  fn unread(&mut self, t: Tok) {
    self.back.push(t);
  }
}

macro_rules! pattern {
  ($name:ident, $p:pat) => {
    #[allow(dead_code)]
    struct $name(Tok);
    impl<TS: TokenStream<Token = Tok>> Parse<TS> for $name {
      fn parse(ts: &mut TS) -> LResult<Self> {
        let t = ts.next_token()?;
        if matches!(t.kind, $p) {
          Ok($name(t))
        } else {
          Err(Error::Normal)
        }
      }
      fn maybe(ts: &mut TS) -> LResult<bool> {
        Ok(matches!(ts.peek()?.kind, $p))
      }
    }
  };
}

pattern!(PA, Kind::A(_));
pattern!(PB, Kind::B(_));
pattern!(PAB, Kind::A(_) | Kind::B(_));

/// A token as it is compared: its kind and the column of its span.
type K = (Kind, u32);

fn key(t: Tok) -> K {
  (t.kind, t.span.start().col)
}

/// The pending events of the reference: tokens or tokenizer errors.
#[derive(Clone, Hash)]
struct Model {
  q: VecDeque<Option<K>>,
  /// The number of tokens so far, which is the column of the last one.
  n: u32,
}

impl Model {
  fn new(ev: &[Ev]) -> Self {
    let mut m = Model { q: VecDeque::new(), n: 0 };
    for e in ev {
      match e {
        Ev::T(k) => {
          m.n += 1;
          m.q.push_back(Some((*k, m.n)));
        }
        Ev::E => m.q.push_back(None),
      }
    }
    m
  }
  fn at(&mut self, i: usize) -> Option<K> {
    while self.q.len() <= i {
      self.n += 1;
      self.q.push_back(Some((Kind::End, self.n)));
    }
    self.q[i]
  }
  /// The i-th pending token; an error there is passed on and gone.
  fn look(&mut self, i: usize) -> Result<K, Error> {
    self.at(i).ok_or_else(|| {
      self.q.remove(i);
      Error::Fatal
    })
  }
  fn next(&mut self) -> Result<K, Error> {
    let k = self.look(0)?;
    self.q.pop_front();
    Ok(k)
  }
  fn peek_n(&mut self, n: usize) -> Result<Vec<K>, Error> {
    (0..n).map(|i| self.look(i)).collect()
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
  Next,
  /// Give back the tokens read last, in last-in-first-out order.
  Unread,
  /// Hand in a token that was never read.
  Insert,
  Peek,
  Peek2,
  PeekN(usize),
  Look(usize),
  Skip,
  Collect,
  ExpectOk,
  ExpectWrong,
  ParseA,
  ParsePair,
}

const OPS: &[Op] = &[
  Op::Next,
  Op::Unread,
  Op::Insert,
  Op::Peek,
  Op::Peek2,
  Op::PeekN(0),
  Op::PeekN(1),
  Op::PeekN(3),
  Op::PeekN(4),
  Op::Look(1),
  Op::Look(2),
  Op::Look(3),
  Op::Skip,
  Op::Collect,
  Op::ExpectOk,
  Op::ExpectWrong,
  Op::ParseA,
  Op::ParsePair,
];

fn keys(v: Vec<Tok>) -> Vec<K> {
  v.into_iter().map(key).collect()
}

fn stop(k: &Kind) -> bool {
  matches!(k, Kind::B(_) | Kind::End)
}

fn exec(s: &mut TokenBuffer<Script, Tok>, m: &mut Model, hist: &[Op], from: usize, st: &mut Stats) -> Result<(), String> {
  let mut held: Vec<Tok> = vec![];
  let base = s.inner().span.clone();
  for (i, op) in hist.iter().enumerate() {
    macro_rules! same {
      ($got:expr, $want:expr) => {{
        let (got, want) = ($got, $want);
        if got != want {
          return Err(format!("operation {i} ({op:?}) of {hist:?}: {got:?} instead of {want:?}"));
        }
      }};
    }
    match *op {
      Op::Next => {
        let w = m.next();
        let g = s.next_token();
        if let Ok(t) = &g {
          held.push(t.clone());
        }
        same!(g.map(key), w);
      }
      Op::Unread => match held.pop() {
        Some(t) => {
          m.q.push_front(Some(key(t.clone())));
          s.unread(t);
        }
        None => return Ok(()),
      },
      Op::Insert => {
        held.clear();
        let k = Kind::A((100 + i) as u8);
        m.q.push_front(Some((k, 0)));
        s.unread(Token { kind: k, span: base.clone() });
      }
      Op::Peek => {
        same!(s.peek().map(key), m.look(0));
      }
      Op::Peek2 => {
        let w = m.peek_n(2).map(|v| (v[0], v[1]));
        same!(s.peek2().map(|(a, b)| (key(a), key(b))), w);
      }
      Op::PeekN(n) => {
        same!(s.peek_n(n).map(keys), m.peek_n(n));
      }
      Op::Look(n) => {
        let mut l = s.lookahead();
        for k in 0..n {
          let w = m.look(k);
          let stop = w.is_err();
          same!(l.peek_next().map(key), w);
          if stop {
            break;
          }
        }
      }
      Op::Skip => {
        held.clear();
        let w = loop {
          match m.next() {
            Ok(k) if stop(&k.0) => {
              m.q.push_front(Some(k));
              break Ok(());
            }
            Ok(_) => {}
            Err(e) => break Err(e),
          }
        };
        same!(s.skip_until(|t| stop(&t.kind)), w);
      }
      Op::Collect => {
        held.clear();
        let mut v = vec![];
        let w = loop {
          match m.next() {
            Ok(k) if stop(&k.0) => {
              m.q.push_front(Some(k));
              break Ok(v);
            }
            Ok(k) => v.push(k),
            Err(e) => break Err(e),
          }
        };
        same!(s.collect_until(|t| stop(&t.kind)).map(keys), w);
      }
      Op::ExpectOk => {
        held.clear();
        let want = match m.at(0) {
          Some((k, _)) => k,
          None => Kind::C(200),
        };
        let w = m.next();
        same!(s.expect(want).map(key), w);
      }
      Op::ExpectWrong => {
        let w = m.look(0).and_then(|_| Err(Error::Normal));
        let errors = base.error_num();
        let g = s.expect(Kind::C(201)).map(key);
        if g == Err(Error::Normal) && base.error_num() != errors + 1 {
          return Err(format!("operation {i} ({op:?}) of {hist:?}: the error is not reported once"));
        }
        same!(g, w);
      }
      Op::ParseA => {
        held.clear();
        let w = m.next().and_then(|k| if matches!(k.0, Kind::A(_)) { Ok(k) } else { Err(Error::Normal) });
        same!(s.parse::<PA>().map(|a| key(a.0)), w);
      }
      Op::ParsePair => {
        held.clear();
        let w = m.next().and_then(|k| if matches!(k.0, Kind::A(_) | Kind::B(_)) { Ok(k) } else { Err(Error::Normal) }).and_then(|a| {
          m.next().and_then(|k| if matches!(k.0, Kind::B(_)) { Ok((a, k)) } else { Err(Error::Normal) })
        });
        same!(s.parse::<(PAB, PB)>().map(|(a, b)| (key(a.0), key(b.0))), w);
      }
    }
    if i >= from {
      st.transitions += 1;
      st.state(&(&m.q, held.len()));
    }
  }
  drain(s, m).map_err(|e| format!("after {hist:?}: {e}"))?;
  st.traces += 1;
  Ok(())
}

/// What is read from now on.
fn drain<TS: TokenStream<Token = Tok>>(s: &mut TS, m: &mut Model) -> Result<(), String> {
  let mut end = 0;
  while end < 2 {
    let w = m.next();
    let g = s.next_token().map(key);
    if g != w {
      return Err(format!("{g:?} is read instead of {w:?}"));
    }
    if matches!(w, Ok((Kind::End, _))) {
      end += 1;
    }
  }
  Ok(())
}

fn script(s: &str) -> Vec<Ev> {
  s.bytes()
    .filter(|b| *b != b'-')
    .enumerate()
    .map(|(i, b)| match b {
      b'a' => Ev::T(Kind::A(i as u8)),
      b'b' => Ev::T(Kind::B(i as u8)),
      b'c' => Ev::T(Kind::C(i as u8)),
      _ => Ev::E,
    })
    .collect()
}

fn scripts(letters: &'static str, max: usize) -> impl Iterator<Item = String> + Send {
  eng::words(letters.bytes().collect(), 0, max).map(|w| format!("-{}", String::from_utf8(w).unwrap()))
}

fn c20_space(t: Tier) -> String {
  format!(
    "all histories of {} operations (depth {}) over {} operations, on every sequence of <= {} events (two kinds of tokens, tokenizer errors) \
     followed by end tokens; afterwards everything left is read; streams of 300 tokens with up to two errors at {} places, under every pair of \
     large operations (peek_n, lookaheads, reads and givings back of 7..=300 tokens, collecting) out of {}; kinds and spans compared",
    t.pick(4, 5), t.pick(4, 5), OPS.len(), t.pick(5, 5), AT.len(), large().len()
  )
}

/// Places of errors in long streams.
const AT: &[usize] = &[0, 1, 2, 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 299];
const SIZES: &[usize] = &[7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 300];

fn large() -> Vec<Vec<Op>> {
  let mut v = vec![];
  for &n in SIZES {
    v.push(vec![Op::PeekN(n)]);
    v.push(vec![Op::Look(n)]);
    v.push([vec![Op::Next; n], vec![Op::Unread; n]].concat());
    v.push([vec![Op::Next; n], vec![Op::Unread; n / 2]].concat());
    v.push(vec![Op::Insert; n]);
  }
  v.push(vec![Op::Collect]);
  v.push(vec![Op::Skip]);
  v.push(vec![Op::ExpectOk, Op::ParsePair, Op::ParseA, Op::ExpectWrong].repeat(20));
  v
}

fn c20_large(e1: usize, e2: usize, st: &mut Stats) -> Result<(), String> {
  let mut ev: Vec<Ev> = (0..300usize).map(|i| Ev::T(if i % 97 == 96 { Kind::B(i as u8) } else { Kind::A(i as u8) })).collect();
  ev[e1] = Ev::E;
  ev[e2] = Ev::E;
  let l = large();
  for a in &l {
    for b in &l {
      let h = [a.clone(), b.clone()].concat();
      let mut quiet = Stats::default();
      exec(&mut TokenBuffer::new(Script::new(&ev)), &mut Model::new(&ev), &h, usize::MAX, &mut quiet).map_err(|m| {
        let what = format!("{}x{:?}.. then {}x{:?}..", a.len(), a[0], b.len(), b[0]);
        format!("300 tokens, errors at {e1} and {e2}, {what}: {}", m.chars().rev().take(150).collect::<Vec<_>>().into_iter().rev().collect::<String>())
      })?;
      st.transitions += h.len() as u64;
      st.local_states += h.len() as u64;
      st.traces += 1;
    }
  }
  Ok(())
}

fn c20_cases(t: Tier) -> CaseIter {
  let d = t.pick(4, 5);
  let large = AT.iter().enumerate().flat_map(|(i, a)| AT[i..].iter().map(move |b| format!("large {a} {b}")));
  Box::new(scripts("abe", 5).map(move |s| format!("{d} {s}")).chain(large))
}

fn c20_run(case: &str, st: &mut Stats) -> Result<(), String> {
  if let Some(x) = case.strip_prefix("large ") {
    let (a, b) = x.split_once(' ').unwrap();
    return c20_large(a.parse().unwrap(), b.parse().unwrap(), st);
  }
  let (d, s) = case.split_once(' ').unwrap();
  let d: usize = d.parse().unwrap();
  let ev = script(s);
  st.sample(|| format!("all histories of {d} operations on {ev:?}"));
  st.outcome(&ev);
  let mut idx = vec![0usize; d];
  let mut from = 0;
  loop {
    let h: Vec<Op> = idx.iter().map(|i| OPS[*i]).collect();
    exec(&mut TokenBuffer::new(Script::new(&ev)), &mut Model::new(&ev), &h, from, st)
      .map_err(|m| format!("on {ev:?}: {m}"))?;
    let mut i = d;
    loop {
      if i == 0 {
        return Ok(());
      }
      i -= 1;
      idx[i] += 1;
      if idx[i] < OPS.len() {
        from = i;
        break;
      }
      idx[i] = 0;
    }
  }
}

// ---------------------------------------------------------------------------------------------------------- C21

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Link {
  PeekNext,
  A,
  B,
  AB,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Act {
  Peek,
  Peek2,
  PeekN(usize),
  Look(Vec<Link>, bool),
}

/// How the stream was used before.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Before {
  Nothing,
  Peeked(usize),
  ReadAndUnread(usize),
  Inserted,
}

const BEFORE: &[Before] =
  &[Before::Nothing, Before::Peeked(1), Before::Peeked(2), Before::Peeked(3), Before::ReadAndUnread(1), Before::ReadAndUnread(2), Before::Inserted];

fn acts(links: usize) -> Vec<Act> {
  let mut v = vec![Act::Peek, Act::Peek2];
  v.extend((0..=5).map(Act::PeekN));
  for w in eng::words(vec![Link::PeekNext, Link::A, Link::B, Link::AB], 0, links) {
    v.push(Act::Look(w.clone(), true));
    v.push(Act::Look(w, false));
  }
  v
}

fn hits(l: Link, k: Kind) -> bool {
  match l {
    Link::PeekNext => true,
    Link::A => matches!(k, Kind::A(_)),
    Link::B => matches!(k, Kind::B(_)),
    Link::AB => matches!(k, Kind::A(_) | Kind::B(_)),
  }
}

fn act<TS: TokenStream<Token = Tok>>(s: &mut TS, m: &mut Model, a: &Act) -> Result<(), String> {
  macro_rules! same {
    ($got:expr, $want:expr, $what:expr) => {{
      let (got, want) = ($got, $want);
      if got != want {
        return Err(format!("{a:?}{}: {got:?} instead of {want:?}", $what));
      }
    }};
  }
  match a {
    Act::Peek => same!(s.peek().map(key), m.look(0), ""),
    Act::Peek2 => {
      let w = m.peek_n(2).map(|v| (v[0], v[1]));
      same!(s.peek2().map(|(a, b)| (key(a), key(b))), w, "")
    }
    Act::PeekN(n) => same!(s.peek_n(*n).map(keys), m.peek_n(*n), ""),
    Act::Look(links, result) => {
      let mut l = s.lookahead();
      let (mut c, mut yes) = (0, true);
      for (i, k) in links.iter().enumerate() {
        let w = m.look(c);
        if *k == Link::PeekNext {
          // after an error the lookahead goes on with the following token
          same!(l.peek_next().map(key), w.clone(), format!(" link {i}"));
          if w.is_ok() {
            c += 1;
          }
          continue;
        }
        let r = match k {
          Link::A => l.maybe(PA),
          Link::B => l.maybe(PB),
          _ => l.maybe(PAB),
        };
        match (r, w) {
          (Ok(next), Ok(t)) => {
            yes = yes && hits(*k, t.0);
            c += 1;
            l = next;
          }
          (Err(g), Err(w)) if g == w => return Ok(()),
          (r, w) => return Err(format!("{a:?} link {i}: {:?} instead of {w:?}", r.map(|_| "a lookahead"))),
        }
      }
      if *result {
        same!(l.result(), Ok(yes), " result");
      }
    }
  }
  Ok(())
}

fn c21_exec<TS: TokenStream<Token = Tok>>(
  s: &mut TS, ev: &[Ev], before: Before, todo: &[&Act], insert: impl Fn(&mut TS, Kind), st: &mut Stats,
) -> Result<(), String> {
  let mut m = Model::new(ev);
  match before {
    Before::Nothing => {}
    Before::Peeked(n) => {
      if s.peek_n(n).map(keys) != m.peek_n(n) {
        return Err("peeking differs".into());
      }
    }
    Before::ReadAndUnread(n) => {
      let mut v = vec![];
      for _ in 0..n {
        if let Ok(t) = s.next_token() {
          v.push(t);
        }
        let _ = m.next();
      }
      for t in v.into_iter().rev() {
        m.q.push_front(Some(key(t.clone())));
        s.unread(t);
      }
    }
    Before::Inserted => {
      for k in [Kind::B(90), Kind::A(91)] {
        insert(s, k);
        m.q.push_front(Some((k, 0)));
      }
    }
  }
  for a in todo {
    act(s, &mut m, a)?;
    st.transitions += 1;
  }
  st.state(&m.q);
  st.traces += 1;
  drain(s, &mut m)
}

fn c21_space(t: Tier) -> String {
  format!(
    "every sequence of <= {} events (three kinds of tokens, errors) x {} earlier uses of the stream x every single action and every pair of \
     actions among peek, peek2, peek_n(0..=5) and lookahead chains of <= {} links (peek_next, three patterns; dropped or asked for the result; single: <= {}), \
     on the buffered stream and on a stream with the required methods only; afterwards everything left is read; pairs of peeks and lookahead \
     chains of 7..=300 tokens on streams of 300 tokens with an error at {} places; kinds and spans compared",
    t.pick(4, 5), BEFORE.len(), t.pick(2, 3), 5, AT.len()
  )
}

/// Long lookaheads and peeks on long streams with an error in between.
fn c21_large(e: usize, st: &mut Stats) -> Result<(), String> {
  let mut ev: Vec<Ev> = (0..300usize).map(|i| Ev::T(if i % 3 == 2 { Kind::B(i as u8) } else { Kind::A(i as u8) })).collect();
  if let Some(x) = ev.get_mut(e) {
    *x = Ev::E;
  }
  let mut acts = vec![];
  for &n in SIZES {
    acts.push(Act::PeekN(n));
    acts.push(Act::Look(vec![Link::PeekNext; n], false));
    acts.push(Act::Look(vec![Link::AB; n], true));
    acts.push(Act::Look([Link::A, Link::A, Link::B].iter().cycle().take(n).copied().collect(), true));
    let mut odd: Vec<Link> = [Link::A, Link::A, Link::B].iter().cycle().take(n).copied().collect();
    odd[n - 1] = if odd[n - 1] == Link::A { Link::B } else { Link::A };
    acts.push(Act::Look(odd, true));
  }
  for a in &acts {
    for b in &acts {
      let short = |m: String| {
        let of = |a: &Act| format!("{a:?}").chars().take(40).collect::<String>();
        format!("{} tokens, error at {e}, {}.. then {}..: {}", ev.len(), of(a), of(b), m.chars().rev().take(120).collect::<Vec<_>>().into_iter().rev().collect::<String>())
      };
      let mut quiet = Stats::default();
      c21_exec(&mut TokenBuffer::new(Script::new(&ev)), &ev, Before::Nothing, &[a, b], |_, _| {}, &mut quiet).map_err(short)?;
      c21_exec(&mut Plain { script: Script::new(&ev), back: vec![] }, &ev, Before::Nothing, &[a, b], |_, _| {}, &mut quiet).map_err(short)?;
      st.traces += 2;
      st.transitions += 4;
      st.local_states += 2;
    }
  }
  Ok(())
}

fn c21_cases(t: Tier) -> CaseIter {
  let l = t.pick(2, 3);
  let large = AT.iter().copied().chain([300]).map(|e| format!("large {e}"));
  Box::new(large.chain(scripts("abce", t.pick(4, 5)).flat_map(move |s| (0..BEFORE.len()).map(move |b| format!("{l} {b} {s}")))))
}

fn c21_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  if f[0] == "large" {
    return c21_large(f[1].parse().unwrap(), st);
  }
  let ev = script(f[2]);
  let before = BEFORE[f[1].parse::<usize>().unwrap()];
  let pairs = acts(f[0].parse().unwrap());
  let single = acts(5);
  st.sample(|| format!("lookaheads on {ev:?} after {before:?}"));
  st.outcome(&(&ev, before));
  let todo: Vec<Vec<&Act>> =
    single.iter().map(|a| vec![a]).chain(pairs.iter().flat_map(|a| pairs.iter().map(move |b| vec![a, b]))).collect();
  for t in &todo {
    c21_exec(&mut TokenBuffer::new(Script::new(&ev)), &ev, before, t, |s: &mut TokenBuffer<Script, Tok>, k| {
      let span = s.inner().span.clone();
      s.unread(Token { kind: k, span })
    }, st)
      .map_err(|m| format!("buffered stream of {ev:?} ({before:?}), {t:?}: {m}"))?;
    c21_exec(&mut Plain { script: Script::new(&ev), back: vec![] }, &ev, before, t, |s: &mut Plain, k| {
      let span = s.script.span.clone();
      s.unread(Token { kind: k, span })
    }, st)
      .map_err(|m| format!("minimal stream of {ev:?} ({before:?}), {t:?}: {m}"))?;
  }
  Ok(())
}
