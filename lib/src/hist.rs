//! C12, C13, C14: input streams under every history of operations, and scanning helpers under every predicate.
//!
//! The reference is a position in a vector of characters plus the line/column counted from the text.

use crate::read::Src;
use crate::{hex, unhex};
use eng::{CaseIter, Check, Stats, Tier};
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, LocationUpdate, Result as LResult, Span};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::Hash;

pub fn all() -> Vec<Check> {
  vec![
  Check { id: "C12", cases: c12_cases, run: c12_run, space: hist_space, serial: false },
  Check { id: "C13", cases: c13_cases, run: c13_run, space: c13_space, serial: false },
  Check { id: "C14", cases: c14_cases, run: c14_run, space: c14_space, serial: false },
  ]
}

trait Ch: Copy + PartialEq + Eq + Debug + Hash + Ord + LocationUpdate + 'static {
  fn of(s: &str) -> Vec<Self>;
  fn nl(self) -> bool;
  fn from_ascii(b: u8) -> Self;
}
impl Ch for char {
  fn of(s: &str) -> Vec<char> {
    s.chars().collect()
  }
  fn nl(self) -> bool {
    self == '\n'
  }
  fn from_ascii(b: u8) -> char {
    b as char
  }
}
impl Ch for u8 {
  fn of(s: &str) -> Vec<u8> {
    s.bytes().collect()
  }
  fn nl(self) -> bool {
    self == b'\n'
  }
  fn from_ascii(b: u8) -> u8 {
    b
  }
}

/// An input stream with the required methods only: everything else is the trait's own code.
struct Plain {
  text: Vec<char>,
  pos: usize,
  span: Span,
}

impl InputStream for Plain {
  type CharType = char;
  fn next_char_loc(&mut self) -> LResult<(Option<char>, Location)> {
    let loc = self.span.start();
    let c = self.text.get(self.pos).copied();
    if let Some(c) = c {
      self.pos += 1;
      self.span.update(&c);
    }
    Ok((c, loc))
  }
  fn unread(&mut self, last: (Option<char>, Location)) {
    self.span.update_loc(last.1);
    if let Some(c) = last.0 {
      self.pos -= 1;
      assert!(self.text[self.pos] == c);
    }
  }
  fn span(&self) -> &Span {
    &self.span
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.span.update_loc(Location { line, col });
  }
}

type Loc = (u32, u32);

fn lc(l: Location) -> Loc {
  (l.line, l.col)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
  NextLoc,
  Unread,
  Peek,
  PeekSpan,
  Next,
  CharSpan,
  NextSpan,
  Skip(u8),
  Collect(u8),
  CollectSpan(u8),
  Set,
}

const OPS: &[Op] = &[
  Op::NextLoc,
  Op::Unread,
  Op::Peek,
  Op::PeekSpan,
  Op::Next,
  Op::CharSpan,
  Op::NextSpan,
  Op::Skip(b'\n'),
  Op::Collect(b'a'),
  Op::CollectSpan(b'\n'),
  Op::Set,
];

/// What of an execution is compared.
#[derive(Clone, Copy, PartialEq, Eq)]
enum View {
  Chars,
  Locs,
}

struct Model<'a, C> {
  text: &'a [C],
  pos: usize,
  loc: Loc,
  set: Loc,
}

impl<C: Ch> Model<'_, C> {
  fn next(&mut self) -> Option<C> {
    let c = self.text.get(self.pos).copied()?;
    self.pos += 1;
    self.loc = if c.nl() { (self.loc.0 + 1, 0) } else { (self.loc.0, self.loc.1 + 1) };
    Some(c)
  }
  fn peek(&self) -> (Option<C>, Loc) {
    let mut m = Model { text: self.text, pos: self.pos, loc: self.loc, set: self.set };
    let c = m.next();
    (c, m.loc)
  }
}

/// Runs one history; `from` is the first operation whose prefix has not been counted yet.
fn exec<C: Ch, I: InputStream<CharType = C>>(
  r: &mut I,
  text: &[C],
  skip: usize,
  hist: &[Op],
  view: View,
  set: Loc,
  from: usize,
  st: &mut Stats,
) -> Result<(), String> {
  let mut m = Model { text, pos: 0, loc: (1, 0), set };
  // results of next_char_loc that may be given back, and what the model was before
  let mut back: Vec<((Option<C>, Location), usize, Loc, Location)> = vec![];
  let ch = view == View::Chars;
  let e = |_| "an operation returned an error".to_string();
  for _ in 0..skip {
    if r.next_char().map_err(e)? != m.next() {
      return Err("a character read before the history is wrong".into());
    }
  }
  for (i, op) in hist.iter().enumerate() {
    let bad = |what: String| Err(format!("operation {i} ({op:?}) of {hist:?}: {what}"));
    macro_rules! chars {
      ($got:expr, $want:expr) => {
        let (got, want) = ($got, $want);
        if ch && got != want {
          return bad(format!("delivered {got:?} instead of {want:?}"));
        }
      };
    }
    macro_rules! locs {
      ($got:expr, $want:expr, $what:expr) => {
        let (got, want) = ($got, $want);
        if !ch && got != want {
          return bad(format!("{} is {got:?} instead of {want:?}", $what));
        }
      };
    }
    let before = r.span().clone();
    match *op {
      Op::NextLoc => {
        let (p, l) = (m.pos, m.loc);
        let want = m.next();
        let got = r.next_char_loc().map_err(e)?;
        chars!(got.0, want);
        locs!(lc(got.1), l, "the location before the character");
        back.push((got, p, l, before.start()));
      }
      Op::Unread => match back.pop() {
        Some((last, p, l, at)) => {
          r.unread(last);
          m.pos = p;
          m.loc = l;
          // the location is the one it was when the character was read, whatever happened since
          if ch && lc(r.span().start()) != lc(at) {
            return bad(format!("the current location is {} instead of {at}, where the character was read", r.span()));
          }
        }
        None => return Ok(()), // nothing to give back: the history is the same as a shorter one
      },
      Op::Peek => {
        chars!(r.peek().map_err(e)?, m.peek().0);
      }
      Op::PeekSpan => {
        let (c, s) = r.peek_with_span().map_err(e)?;
        let (wc, wl) = m.peek();
        chars!(c, wc);
        locs!((lc(s.start()), lc(s.end())), (wl, wl), "the span of the peeked character");
      }
      Op::Next => {
        back.clear();
        chars!(r.next_char().map_err(e)?, m.next());
      }
      Op::CharSpan => {
        back.clear();
        let (c, s) = r.next_char_span().map_err(e)?;
        chars!(c, m.next());
        locs!((lc(s.start()), lc(s.end())), (m.loc, m.loc), "the span of the character");
      }
      Op::NextSpan => {
        back.clear();
        m.next();
        let s = r.next_span().map_err(e)?.clone();
        locs!((lc(s.start()), lc(s.end())), (m.loc, m.loc), "the span of the character");
      }
      Op::Skip(b) => {
        back.clear();
        let stop = C::from_ascii(b);
        r.skip_until(|c| c == stop).map_err(e)?;
        while m.peek().0.map_or(false, |c| c != stop) {
          m.next();
        }
      }
      Op::Collect(b) => {
        back.clear();
        let stop = C::from_ascii(b);
        let got = r.collect_until(|c| *c == stop).map_err(e)?;
        let mut want = vec![];
        while m.peek().0.map_or(false, |c| c != stop) {
          want.extend(m.next());
        }
        chars!(got, want);
      }
      Op::CollectSpan(b) => {
        back.clear();
        let stop = C::from_ascii(b);
        let (got, s) = r.collect_with_span_until(|c| *c == stop).map_err(e)?;
        let first = m.peek().1;
        let mut want = vec![];
        while m.peek().0.map_or(false, |c| c != stop) {
          want.extend(m.next());
        }
        chars!(&got, &want);
        if !want.is_empty() {
          locs!((lc(s.start()), lc(s.end())), (first, m.loc), "the span of the collected characters");
        }
      }
      Op::Set => {
        r.set_line_col(set.0, set.1);
        m.loc = set;
      }
    }
    if ch && matches!(op, Op::Peek | Op::PeekSpan) && *r.span() != before {
      return bad(format!("peeking moved the current location from {before} to {}", r.span()));
    }
    let s = r.span();
    locs!((lc(s.start()), lc(s.end())), (m.loc, m.loc), "the current location");
    if i >= from {
      st.transitions += 1;
      st.state(&(&text[text.len().saturating_sub(8)..], text.len(), m.pos, m.loc, back.len()));
    }
  }
  // what is left
  if ch {
    loop {
      let (got, want) = (r.next_char().map_err(e)?, m.next());
      if got != want {
        return Err(format!("after {hist:?}: delivered {got:?} instead of {want:?}"));
      }
      if want.is_none() {
        break;
      }
    }
  }
  st.traces += 1;
  Ok(())
}

fn all_histories(depth: usize, mut f: impl FnMut(&[Op], usize) -> Result<(), String>) -> Result<(), String> {
  let n = OPS.len();
  let mut idx = vec![0usize; depth];
  let mut from = 0;
  loop {
    let h: Vec<Op> = idx.iter().map(|i| OPS[*i]).collect();
    f(&h, from)?;
    let mut i = depth;
    loop {
      if i == 0 {
        return Ok(());
      }
      i -= 1;
      idx[i] += 1;
      if idx[i] < n {
        from = i;
        break;
      }
      idx[i] = 0;
    }
  }
}

const STREAMS: &[&str] = &["reader", "bytes", "plain"];

/// Builds the stream named by `kind` over `text` and runs the history on it, after reading `skip` characters.
fn exec_on(
  kind: &str, chunk: usize, text: &str, skip: usize, h: &[Op], view: View, set: Loc, from: usize, st: &mut Stats, cv: &[char], bv: &[u8],
) -> Result<(), String> {
  match kind {
    "reader" => exec(&mut Reader::<_>::new(Src::new(text.as_bytes(), &[chunk]), FileType::Buffer), cv, skip, h, view, set, from, st),
    "bytes" => exec(&mut ByteReader::<_>::new(Src::new(text.as_bytes(), &[chunk]), FileType::Buffer), bv, skip, h, view, set, from, st),
    _ => exec(&mut Plain { text: cv.to_vec(), pos: 0, span: Span::new(FileType::Buffer) }, cv, skip, h, view, set, from, st),
  }
}

/// Texts around the ends of the 1024-byte buffer.
const TAILS: &[&str] = &["abcd", "\u{e9}\u{e9}\n\u{e9}", "\n\n\n\n", "a\u{4f60}b", "\u{1f602}\u{1f602}"];

fn edge_text(n: usize, tail: usize) -> String {
  "0123456\n8".chars().cycle().take(n).chain(TAILS[tail].chars()).chain("yz".chars()).collect()
}

fn hist_cases(t: Tier) -> impl Iterator<Item = String> + Send {
  let d = t.pick(5, 6);
  let e = t.pick(3, 4);
  let edge = [1022usize, 1023, 1024, 2047].into_iter().flat_map(move |n| {
    (0..TAILS.len()).flat_map(move |k| {
      STREAMS[..2].iter().flat_map(move |s| (0..4).map(move |back| format!("edge {e} {s} {n} {k} {back}")))
    })
  });
  let short = eng::words(vec!['a', '\n', '\u{e9}'], 0, t.pick(3, 4)).flat_map(move |w| {
    let t: String = w.into_iter().collect();
    STREAMS.iter().flat_map(move |s| {
      let t = t.clone();
      let ch: &[usize] = if *s == "plain" { &[0] } else { &[1, 1024] };
      ch.iter().map(move |c| format!("hist {d} {s} {c} {}", hex(t.as_bytes())))
    })
  });
  let pump = [5usize, 17, 64, 300, 1030, 2100].into_iter().flat_map(|n| STREAMS.iter().map(move |s| format!("pump 0 {s} {n}")));
  short.chain(edge).chain(pump)
}

/// Long histories: many characters read, given back, read again, and peeked at in between.
fn pumps(n: usize) -> Vec<Vec<Op>> {
  let mut v = vec![];
  for back in [1, 2, n / 2, n - 1, n] {
    for peek in [None, Some(Op::Peek), Some(Op::PeekSpan)] {
      let mut h = vec![];
      for round in 0..2 {
        h.extend(vec![Op::NextLoc; if round == 0 { n } else { back }]);
        h.extend(peek);
        for i in 0..back {
          h.push(Op::Unread);
          if i % 7 == 3 {
            h.extend(peek);
          }
        }
        h.extend(peek);
      }
      v.push(h);
    }
    v.push([vec![Op::PeekSpan; back], vec![Op::Peek; back], vec![Op::NextLoc, Op::Unread].repeat(back), vec![Op::NextLoc, Op::Set, Op::Unread].repeat(back)].concat());
  }
  v
}

fn hist_space(t: Tier) -> String {
  format!(
    "all histories of {} operations (depth {}) on all texts of <= {} characters over 'a', '\\n', U+00E9; character reader and byte \
     reader with 1-byte and full reads, and a stream implementing the required methods only; then everything left is read; the histories of depth {} \
     starting up to 3 characters before the first two ends of the 1024-byte buffer, with {} continuations; 5..=2100 characters read and \
     1, 2, half or all of them given back, twice, with peeks in between",
    OPS.len(), t.pick(5, 6), t.pick(3, 4), t.pick(3, 4), TAILS.len()
  )
}

fn hist_run(case: &str, view: View, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  let depth: usize = f[1].parse().unwrap();
  if f[0] == "edge" {
    let n: usize = f[3].parse().unwrap();
    let text = edge_text(n, f[4].parse().unwrap());
    let skip = n - f[5].parse::<usize>().unwrap();
    let (cv, bv) = (char::of(&text), u8::of(&text));
    return all_histories(depth, |h, from| {
      exec_on(f[2], usize::MAX, &text, skip, h, view, (7, 3), from, st, &cv, &bv)
        .map_err(|m| format!("{} on {n} characters and {:?}, from character {skip}: {}", f[2], &text[n..], m.chars().take(500).collect::<String>()))
    });
  }
  if f[0] == "pump" {
    let n: usize = f[3].parse().unwrap();
    for text in [edge_text(n, 1), edge_text(n / 2, 4)] {
      let (cv, bv) = (char::of(&text), u8::of(&text));
      for (k, h) in pumps(n).iter().enumerate() {
        exec_on(f[2], usize::MAX, &text, 0, h, view, (7, 3), 0, st, &cv, &bv)
          .map_err(|m| format!("{}, {n} characters, history {k}: {}...{}", f[2], &m[..m.len().min(60)], &m[m.len().saturating_sub(200)..]))?;
      }
    }
    return Ok(());
  }
  let chunk: usize = f[3].parse().unwrap();
  let text = String::from_utf8(unhex(f[4])).unwrap();
  let (cv, bv) = (char::of(&text), u8::of(&text));
  st.sample(|| format!("all histories of {depth} operations on {text:?} ({}, reads of {chunk})", f[2]));
  st.outcome(&text);
  all_histories(depth, |h, from| {
    exec_on(f[2], chunk, &text, 0, h, view, (7, 3), from, st, &cv, &bv)
      .map_err(|m| format!("{} on {text:?} with reads of {chunk}: {m}", f[2]))
  })
}

fn c12_cases(t: Tier) -> CaseIter {
  Box::new(hist_cases(t))
}
fn c12_run(case: &str, st: &mut Stats) -> Result<(), String> {
  hist_run(case, View::Chars, st)
}

// ---------------------------------------------------------------------------------------------------------- C13

const SETS: &[Loc] = &[(0, 0), (1, 0), (65_534, 65_534), (65_535, 65_535), (16_777_215, 16_777_216), (u32::MAX - 40, u32::MAX - 40)];

fn c13_space(t: Tier) -> String {
  format!(
    "{}; all texts of <= 4 characters after each of {} position overrides; texts with lines of 70,000 characters, 70,000 lines, and both, \
     every character's span compared",
    hist_space(t), SETS.len()
  )
}

fn c13_cases(t: Tier) -> CaseIter {
  let long = (0..5).flat_map(|i| STREAMS.iter().map(move |s| format!("long {i} {s}")));
  let set = (0..SETS.len()).flat_map(|i| STREAMS.iter().map(move |s| format!("set {i} {s}")));
  Box::new(hist_cases(t).chain(set).chain(long))
}

fn long_text(i: usize) -> String {
  match i {
    0 => "a".repeat(70_000),
    1 => "\n".repeat(70_000),
    2 => "\u{e9}\u{4f60}".repeat(35_000),
    3 => format!("{}\n{}\nb", "a".repeat(65_600), "\u{e9}".repeat(300)),
    _ => "ab\n".repeat(66_000),
  }
}

fn walk<C: Ch, I: InputStream<CharType = C>>(r: &mut I, text: &[C], st: &mut Stats) -> Result<(), String> {
  let mut m = Model { text, pos: 0, loc: (1, 0), set: (1, 0) };
  let e = |_| "an operation returned an error".to_string();
  for i in 0..=text.len() {
    if i % 3 == 0 {
      let (_, s) = r.peek_with_span().map_err(e)?;
      if lc(s.start()) != m.peek().1 {
        return Err(format!("character {i} is peeked at {s} instead of {:?}", m.peek().1));
      }
    }
    let before = m.loc;
    let c = m.next();
    let (_, l) = r.next_char_loc().map_err(e)?;
    if lc(l) != before {
      return Err(format!("location before character {i} is {l} instead of {before:?}"));
    }
    let s = r.span();
    if (lc(s.start()), lc(s.end())) != (m.loc, m.loc) {
      return Err(format!("character {i} is at {s} instead of {:?}", m.loc));
    }
    if i % 1000 == 999 {
      r.unread((c, l));
      let s = r.next_char_span().map_err(e)?.1;
      if lc(s.start()) != m.loc {
        return Err(format!("character {i} read again is at {s} instead of {:?}", m.loc));
      }
    }
    st.transitions += 1;
    st.local_states += 1;
  }
  st.traces += 1;
  Ok(())
}

fn c13_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  match f[0] {
    "hist" | "edge" | "pump" => hist_run(case, View::Locs, st),
    "set" => {
      let set = SETS[f[1].parse::<usize>().unwrap()];
      let mut hs: Vec<Vec<Op>> = vec![];
      for k in 0..=4 {
        for op in [Op::Next, Op::CharSpan, Op::NextLoc, Op::Peek, Op::PeekSpan] {
          let mut h = vec![Op::Next; k];
          h.push(Op::Set);
          h.push(op);
          if op == Op::NextLoc {
            h.push(Op::Unread);
          }
          h.extend([Op::CharSpan, Op::PeekSpan, Op::NextSpan, Op::CollectSpan(b'\n'), Op::CharSpan]);
          hs.push(h);
        }
      }
      for w in eng::words(vec!['a', '\n', '\u{e9}', '\u{1f602}'], 0, 4) {
        let text: String = w.into_iter().collect();
        let (cv, bv) = (char::of(&text), u8::of(&text));
        for h in &hs {
          exec_on(f[2], 1024, &text, 0, h, View::Locs, set, 0, st, &cv, &bv)
            .map_err(|m| format!("{} on {text:?}, overriding with {set:?}: {m}", f[2]))?;
        }
      }
      Ok(())
    }
    _ => {
      let text = long_text(f[1].parse().unwrap());
      let (cv, bv) = (char::of(&text), u8::of(&text));
      match f[2] {
        "reader" => walk(&mut Reader::from(text.as_str()), &cv, st),
        "bytes" => walk(&mut ByteReader::from(text.as_str()), &bv, st),
        _ => walk(&mut Plain { text: cv.clone(), pos: 0, span: Span::new(FileType::Buffer) }, &cv, st),
      }
      .map_err(|m| format!("{} on text {} ({} characters): {m}", f[2], f[1], cv.len()))
    }
  }
}

// ---------------------------------------------------------------------------------------------------------- C14

fn c14_space(t: Tier) -> String {
  format!(
    "all texts of <= {} characters over 'a', 'b', '\\n', U+00E9, from every starting position (next character already buffered or not), \
     for every set of stop characters and every predicate that stops at its k-th call, all three helpers, twice in a row, on both readers \
     (1-byte and full reads) and a stream implementing the required methods only; texts of up to 3000 and of 70,000 characters across buffer boundaries, stopping at the last and at calls around the ends of the buffer",
    t.pick(5, 6)
  )
}

fn c14_cases(t: Tier) -> CaseIter {
  let short = eng::words(vec!['a', 'b', '\n', '\u{e9}'], 0, t.pick(5, 6)).map(|w| format!("text {}", hex(w.into_iter().collect::<String>().as_bytes())));
  let long = [1022usize, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 70_000].into_iter().map(|n| format!("long {n}"));
  Box::new(short.chain(long))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Pred {
  /// Stop at the characters of the set.
  Set(u32),
  /// Stop at the k-th call, whatever the character.
  Call(usize),
}

struct Asked<'a, C> {
  pred: Pred,
  letters: &'a [C],
  log: Vec<C>,
}

impl<C: Ch> Asked<'_, C> {
  fn ask(&mut self, c: C) -> bool {
    self.log.push(c);
    match self.pred {
      Pred::Set(m) => self.letters.iter().position(|x| *x == c).map_or(false, |i| m >> i & 1 == 1),
      Pred::Call(k) => self.log.len() == k,
    }
  }
}

fn scan<C: Ch, I: InputStream<CharType = C>>(
  r: &mut I, text: &[C], start: usize, peeked: bool, helper: usize, pred: Pred, letters: &[C], st: &mut Stats,
) -> Result<(), String> {
  let e = |_| "an operation returned an error".to_string();
  let mut m = Model { text, pos: 0, loc: (1, 0), set: (1, 0) };
  for _ in 0..start {
    m.next();
    r.next_char().map_err(e)?;
  }
  let at = |l: Location, w: Loc, what: &str| if lc(l) == w { Ok(()) } else { Err(format!("{what} is {l} instead of {w:?}")) };
  if peeked {
    r.peek().map_err(e)?;
  }
  // twice: the second time the helper starts at the character it stopped at
  for round in 0..2 {
    let mut want = vec![];
    let mut q = Asked { pred, letters, log: vec![] };
    let first = m.peek().1;
    while let Some(c) = m.peek().0 {
      if q.ask(c) {
        break;
      }
      m.next();
      want.push(c);
    }
    let mut a = Asked { pred, letters, log: vec![] };
    let (got, span) = match helper {
      0 => {
        r.skip_until(|c| a.ask(c)).map_err(e)?;
        (want.clone(), None)
      }
      1 => (r.collect_until(|c| a.ask(*c)).map_err(e)?, None),
      _ => {
        let (v, s) = r.collect_with_span_until(|c| a.ask(*c)).map_err(e)?;
        (v, Some(s))
      }
    };
    if got != want {
      return Err(format!("round {round}: collected {got:?} instead of {want:?}"));
    }
    if a.log != q.log {
      return Err(format!("round {round}: the predicate was asked about {:?} instead of {:?}", a.log, q.log));
    }
    if let (Some(s), false) = (span, want.is_empty()) {
      if (lc(s.start()), lc(s.end())) != (first, m.loc) {
        return Err(format!("round {round}: the span of {got:?} is {s} instead of {first:?}-{:?}", m.loc));
      }
    }
    at(r.span().start(), m.loc, "the current location afterwards")?;
    let next = r.peek().map_err(e)?;
    if next != m.peek().0 {
      return Err(format!("round {round}: the next character is {next:?} instead of {:?}", m.peek().0));
    }
    st.transitions += 1;
  }
  // the rest of the input
  loop {
    let ((g, s), w) = (r.next_char_span().map_err(e)?, m.next());
    if g != w {
      return Err(format!("then {g:?} is read instead of {w:?}"));
    }
    at(s.start(), m.loc, "the location of the character read next")?;
    if w.is_none() {
      break;
    }
  }
  st.traces += 1;
  Ok(())
}

fn scan_all<C: Ch>(text: &str, kind: &str, v: &[C], st: &mut Stats, run: &dyn Fn(usize, usize, bool, usize, Pred, &[C], &mut Stats) -> Result<(), String>) -> Result<(), String> {
  let letters: Vec<C> = v.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
  let mut preds: Vec<Pred> = (0..1u32 << letters.len()).map(Pred::Set).collect();
  preds.extend((1..=v.len() + 1).map(Pred::Call));
  let chunks: &[usize] = if kind == "plain" { &[0] } else { &[1, 1024] };
  for start in 0..=v.len() {
    for pred in &preds {
      st.state(&(text, kind, start, *pred));
      for chunk in chunks {
        for peeked in [false, true] {
          for helper in 0..3 {
            run(*chunk, start, peeked, helper, *pred, &letters, st).map_err(|m| {
              let h = ["skip_until", "collect_until", "collect_with_span_until"][helper];
              let p = match pred {
                Pred::Set(k) => format!("stopping at {:?}", letters.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|x| x.1).collect::<Vec<_>>()),
                Pred::Call(k) => format!("stopping at its call {k}"),
              };
              format!("{h} {p} on {kind} of {text:?} (reads of {chunk}) from character {start} (peeked: {peeked}): {m}")
            })?;
          }
        }
      }
    }
  }
  st.outcome(&v.len());
  Ok(())
}

fn c14_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  if f[0] == "long" {
    let n: usize = f[1].parse().unwrap();
    let text = format!("{}b\u{e9}b", "a\u{e9}".chars().cycle().take(n).collect::<String>());
    let cv = char::of(&text);
    let bv = u8::of(&text);
    for helper in 0..3 {
      for (chunk, start, pred) in [1, 1023, 1024, usize::MAX].into_iter().flat_map(|c| {
        [0, 1, n - 1, n].into_iter().flat_map(move |s| {
          [Pred::Set(1), Pred::Call(681), Pred::Call(682), Pred::Call(1024), Pred::Call(1025), Pred::Call(1366)].into_iter().map(move |p| (c, s, p))
        })
      }) {
        {
          st.state(&(case, helper, chunk, start, pred));
          scan(&mut Reader::<_>::new(Src::new(text.as_bytes(), &[chunk]), FileType::Buffer), &cv, start, false, helper, pred, &['b'], st)
            .map_err(|m| format!("reader, {n} characters, reads of {chunk}, from {start}, helper {helper}: {}", &m[..m.len().min(200)]))?;
          scan(&mut ByteReader::<_>::new(Src::new(text.as_bytes(), &[chunk]), FileType::Buffer), &bv, start, false, helper, pred, &[b'b'], st)
            .map_err(|m| format!("byte reader, {n} characters, reads of {chunk}, from {start}, helper {helper}: {}", &m[..m.len().min(200)]))?;
        }
      }
    }
    return Ok(());
  }
  let text = String::from_utf8(unhex(f[1])).unwrap();
  let (cv, bv) = (char::of(&text), u8::of(&text));
  st.sample(|| format!("all predicates on {text:?}"));
  scan_all(&text, "reader", &cv, st, &|chunk, start, peeked, helper, pred, letters, st| {
    scan(&mut Reader::<_>::new(Src::new(text.as_bytes(), &[chunk]), FileType::Buffer), &cv, start, peeked, helper, pred, letters, st)
  })?;
  scan_all(&text, "bytes", &bv, st, &|chunk, start, peeked, helper, pred, letters, st| {
    scan(&mut ByteReader::<_>::new(Src::new(text.as_bytes(), &[chunk]), FileType::Buffer), &bv, start, peeked, helper, pred, letters, st)
  })?;
  scan_all(&text, "plain", &cv, st, &|_, start, peeked, helper, pred, letters, st| {
    scan(&mut Plain { text: cv.clone(), pos: 0, span: Span::new(FileType::Buffer) }, &cv, start, peeked, helper, pred, letters, st)
  })
}
