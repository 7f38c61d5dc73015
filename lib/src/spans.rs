//! C32: operations on spans and locations, and the spans of compound values.

use eng::{guard, CaseIter, Check, Stats, Tier};
use laps::span::{FileType, Location, Span, Spanned, TrySpan};
use std::collections::{HashSet, VecDeque};

pub fn all() -> Vec<Check> {
  vec![Check { id: "C32", cases, run, space, serial: false }]
}

/// (line, column)
type L = (u32, u32);

/// The model of a span: its source, start and end.
type M = (u8, L, L);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum C {
  Ch(char),
  B(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
  Update(usize, C),
  Updated(usize, C),
  Set(usize, L),
  /// Set the span to the end of another one.
  SetTo(usize, usize),
  End(usize, usize),
  /// Extend by a reference.
  EndRef(usize, usize),
  EndUpdated(usize, usize),
  /// Replace the span by a clone of another one.
  Clone(usize, usize),
  CloneFrom(usize, usize),
  /// Replace the span by the span of a pair.
  Pair(usize, usize),
  New(usize),
}

fn ops() -> Vec<Op> {
  use Op::*;
  let mut v = vec![];
  for c in [C::Ch('\n'), C::Ch('x'), C::Ch('\u{3042}'), C::Ch('\r'), C::Ch('\t'), C::B(b'\n'), C::B(0xff), C::Ch('\u{10a}')] {
    v.push(Update(0, c));
  }
  v.extend([Updated(0, C::Ch('x')), Updated(0, C::Ch('\n')), Updated(1, C::B(b'\n')), Updated(1, C::B(b' ')), Update(1, C::Ch('\n')), Update(1, C::Ch('b')), Update(2, C::Ch('\n')), Update(2, C::B(b'c'))]);
  v.extend([Set(0, (3, 7)), Set(1, (0, 0)), Set(2, (1, 4_000_000_000)), SetTo(0, 1), SetTo(1, 0), SetTo(2, 1)]);
  v.extend([End(0, 1), End(1, 0), EndRef(0, 2), EndRef(2, 0), EndUpdated(0, 1), EndUpdated(1, 2), EndUpdated(1, 1), EndRef(1, 1)]);
  v.extend([Clone(0, 1), Clone(1, 0), Clone(2, 0), CloneFrom(1, 2), Pair(0, 1), Pair(1, 0), Pair(2, 1), New(0)]);
  v
}

pub fn space(t: Tier) -> String {
  format!(
    "all histories of {} operations over {} operations (updates by characters and bytes, by value and in place, overrides, extensions by spans of the same and \
     another source, clones, pairs) on three spans of two sources, and all states within {} operations with equal states merged; after every operation start, end, \
     source, equality, same-line test, display and totals of all spans (pairs) are compared; in every state the spans of boxes, tuples of 1-26, options, vectors of up to 4 \
     optional elements and their nestings; the span after every character and byte",
    t.pick(3, 4), ops().len(), t.pick(5, 8)
  )
}

pub fn cases(t: Tier) -> CaseIter {
  let n = ops().len();
  let d = t.pick(3, 4);
  let h = (0..n).map(move |a| format!("hist {d} {a}"));
  let b = (0..n).map(move |a| format!("reach {} {a}", t.pick(5, 8)));
  let c = (0..0x11).map(|p| format!("chars {p}"));
  Box::new(c.chain(b).chain(h).chain(["bytes".to_string(), "files".to_string()]))
}

fn step(l: L, c: C) -> L {
  let newline = matches!(c, C::Ch('\n') | C::B(10));
  if newline {
    (l.0 + 1, 0)
  } else {
    (l.0, l.1 + 1)
  }
}

fn loc(l: L) -> Location {
  Location { line: l.0, col: l.1 }
}

fn at(l: Location) -> L {
  (l.line, l.col)
}

struct World {
  s: [Span; 3],
  m: [M; 3],
  /// Sources created so far.
  sources: u8,
}

impl Clone for World {
  fn clone(&self) -> Self {
    World { s: self.s.clone(), m: self.m, sources: self.sources }
  }
}

impl World {
  fn new() -> World {
    let a = Span::new(FileType::Buffer);
    let b = a.clone();
    World { s: [a, b, Span::new(FileType::Stdin)], m: [(0, (1, 0), (1, 0)), (0, (1, 0), (1, 0)), (1, (1, 0), (1, 0))], sources: 2 }
  }

  fn apply(&mut self, op: Op) {
    match op {
      Op::Update(k, c) => {
        match c {
          C::Ch(c) => self.s[k].update(&c),
          C::B(b) => self.s[k].update(&b),
        }
        let l = step(self.m[k].1, c);
        (self.m[k].1, self.m[k].2) = (l, l);
      }
      Op::Updated(k, c) => {
        let s = self.s[k].clone();
        self.s[k] = match c {
          C::Ch(c) => s.into_updated(&c),
          C::B(b) => s.into_updated(&b),
        };
        let l = step(self.m[k].1, c);
        (self.m[k].1, self.m[k].2) = (l, l);
      }
      Op::Set(k, l) => {
        self.s[k].update_loc(loc(l));
        (self.m[k].1, self.m[k].2) = (l, l);
      }
      Op::SetTo(k, j) => {
        let e = self.s[j].end();
        self.s[k].update_loc(e);
        let l = self.m[j].2;
        (self.m[k].1, self.m[k].2) = (l, l);
      }
      Op::End(k, j) => {
        let o = self.s[j].clone();
        self.s[k].update_end(o);
        self.m[k].2 = self.m[j].2;
      }
      Op::EndRef(k, j) => {
        let o = self.s[j].clone();
        self.s[k].update_end(&o);
        self.m[k].2 = self.m[j].2;
      }
      Op::EndUpdated(k, j) => {
        self.s[k] = self.s[k].clone().into_end_updated(&self.s[j]);
        self.m[k].2 = self.m[j].2;
      }
      Op::Clone(k, j) => {
        self.s[k] = self.s[j].clone();
        self.m[k] = self.m[j];
      }
      Op::CloneFrom(k, j) => {
        let o = self.s[j].clone();
        self.s[k].clone_from(&o);
        self.m[k] = self.m[j];
      }
      Op::Pair(k, j) => {
        self.s[k] = (W(self.s[k].clone()), W(self.s[j].clone())).span();
        self.m[k].2 = self.m[j].2;
      }
      Op::New(k) => {
        self.s[k] = Span::new(FileType::File(std::path::Path::new("/nonexistent/x").into()));
        self.m[k] = (self.sources, (1, 0), (1, 0));
        self.sources += 1;
      }
    }
  }

  fn check(&self) -> Result<(), String> {
    for (k, (s, m)) in self.s.iter().zip(&self.m).enumerate() {
      if at(s.start()) != m.1 || at(s.end()) != m.2 {
        return Err(format!("span {k} is {s} instead of {m:?}"));
      }
      let name = match m.0 {
        0 => "<buffer>",
        1 => "<stdin>",
        _ => "/nonexistent/x",
      };
      if s.file_type().to_string() != name {
        return Err(format!("span {k} is of {} instead of {name}", s.file_type()));
      }
      if (s.error_num(), s.warning_num()) != (0, 0) {
        return Err(format!("span {k} has {} errors and {} warnings", s.error_num(), s.warning_num()));
      }
      for (j, (o, n)) in self.s.iter().zip(&self.m).enumerate() {
        if (s == o) != (m == n) || (s != o) != (m != n) {
          return Err(format!("spans {k} and {j} ({m:?}, {n:?}): equal {}, different {}", s == o, s != o));
        }
        if s.is_in_same_line_as(o) != (m.2 .0 == n.1 .0) || s.is_in_same_line_as(o.clone()) != (m.2 .0 == n.1 .0) {
          return Err(format!("span {k} {m:?} in the line of span {j} {n:?}: {}", s.is_in_same_line_as(o)));
        }
        if (s.start() == o.end()) != (m.1 == n.2) {
          return Err(format!("start of {k} {m:?} equals end of {j} {n:?}: {}", s.start() == o.end()));
        }
      }
    }
    Ok(())
  }

  /// What is shown, and the spans of compound values made of the three spans.
  fn compound(&self) -> Result<(), String> {
    for (s, (_, a, b)) in self.s.iter().zip(&self.m) {
      if s.to_string() != format!("{}:{}-{}:{}", a.0, a.1, b.0, b.1) || s.start().to_string() != format!("{}:{}", a.0, a.1) {
        return Err(format!("{a:?}-{b:?} is shown as {s}, its start as {}", s.start()));
      }
    }
    let w = |k: usize| W(self.s[k].clone());
    let n = |a: usize, b: usize, got: Option<Span>, what: &str| -> Result<(), String> {
      let want = (self.m[a].0, self.m[a].1, self.m[b].2);
      let Some(got) = got else { return Err(format!("{what} of spans {a}..{b} has no span")) };
      let source = got.clone().into_end_updated(&self.s[a]);
      let mut same = self.s[a].clone();
      same.update_loc(got.start());
      same.update_end(&self.s[a]);
      if (at(got.start()), at(got.end())) != (want.1, want.2) || source != same {
        return Err(format!("{what} of spans {a}..{b} is {got} instead of {want:?} (or of another source)"));
      }
      Ok(())
    };
    for a in 0..3 {
      n(a, a, Some(w(a).span()), "value")?;
      n(a, a, Some(Box::new(w(a)).span()), "box")?;
      n(a, a, Some((w(a),).span()), "1-tuple")?;
      n(a, a, w(a).try_span(), "try")?;
      n(a, a, Some(w(a)).try_span(), "option")?;
      n(a, a, Some(Some(Box::new(w(a)))).try_span(), "option of option")?;
      for b in 0..3 {
        let c = (0..3).find(|c| *c != a && *c != b).unwrap();
        n(a, b, Some((w(a), w(b)).span()), "2-tuple")?;
        n(a, b, Some(Box::new((w(a), Box::new(w(b)))).span()), "box of tuple")?;
        n(a, b, Some((w(a), 7u8, w(b)).span()), "3-tuple")?;
        n(a, b, Some(((w(a), w(c)), (w(c), w(b))).span()), "tuple of tuples")?;
        n(a, b, (w(a), (), w(b)).try_span(), "try of tuple")?;
        // all vectors of up to 4 elements, each present or not, that begin with a and end with b
        for len in 0..=4usize {
          for mask in 0..1u32 << len {
            let on: Vec<usize> = (0..len).filter(|i| mask >> i & 1 == 1).collect();
            let who = |i: usize| {
              if Some(&i) == on.first() {
                a
              } else if Some(&i) == on.last() {
                b
              } else {
                c
              }
            };
            let v: Vec<Option<W>> = (0..len).map(|i| (mask >> i & 1 == 1).then(|| w(who(i)))).collect();
            let last = if on.len() == 1 { a } else { b };
            if on.is_empty() {
              if v.try_span().is_some() {
                return Err(format!("a vector of {len} absent elements has the span {}", v.try_span().unwrap()));
              }
            } else {
              n(a, last, v.try_span(), "vector")?;
              n(a, last, Some(vec![vec![], v]).try_span(), "optional vector of vectors")?;
            }
          }
        }
      }
    }
    if None::<W>.try_span().is_some() || Vec::<W>::new().try_span().is_some() {
      return Err("an absent value has a span".into());
    }
    macro_rules! tuples {
      ($($len:expr => ($($x:expr)*)),* $(,)?) => {
        $(n(0, 2, Some((w(0), $($x,)* w(2)).span()), concat!(stringify!($len), "-tuple"))?;)*
      };
    }
    tuples! {
      4 => (1 w(1)), 5 => (1 w(1) 2), 6 => (1 2 w(1) 3), 7 => (1 2 3 4 5), 8 => (1 2 3 4 5 6), 9 => (1 2 3 4 5 6 w(1)), 10 => (1 2 3 4 5 6 7 8),
      11 => (1 2 3 4 5 6 7 8 9), 12 => (1 2 3 4 5 6 7 8 9 10), 13 => (1 2 3 4 5 6 7 8 9 10 11), 14 => (1 2 3 4 5 6 7 8 9 10 11 12),
      15 => (1 2 3 4 5 6 7 8 9 10 11 12 13), 16 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14), 17 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15),
      18 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16), 19 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17), 20 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18),
      21 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19), 22 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20),
      23 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21), 24 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22),
      25 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23), 26 => (1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24),
    }
    Ok(())
  }
}

/// A value with a span.
struct W(Span);

impl Spanned for W {
  fn span(&self) -> Span {
    self.0.clone()
  }
}

pub fn run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  let all = ops();
  match f[0] {
    "hist" => {
      let d: usize = f[1].parse().unwrap();
      let first: usize = f[2].parse().unwrap();
      st.sample(|| format!("all histories of {d} operations that begin with {:?}", all[first]));
      let mut hist = vec![first];
      let mut w = World::new();
      guard(|| histories(&all, &mut hist, &mut w, d, st))?
    }
    "reach" => {
      let d: usize = f[1].parse().unwrap();
      let mut w = World::new();
      let first = all[f[2].parse::<usize>().unwrap()];
      w.apply(first);
      st.sample(|| format!("all states within {d} operations after {first:?}"));
      guard(|| reach(&all, w, d, st))?.map_err(|m| format!("after {first:?}: {m}"))
    }
    "chars" => {
      let plane: u32 = f[1].parse().unwrap();
      for c in (plane << 16..(plane + 1) << 16).filter_map(char::from_u32) {
        let mut s = Span::new(FileType::Buffer);
        s.update_loc(loc((5, 9)));
        let t = s.clone().into_updated(&c);
        s.update(&c);
        let want = step((5, 9), C::Ch(c));
        if at(s.start()) != want || at(s.end()) != want || s != t {
          return Err(format!("after {c:?} at 5:9 the spans are {s} and {t}"));
        }
        st.transitions += 2;
        st.local_states += 1;
      }
      st.traces += 1;
      Ok(())
    }
    "bytes" => {
      for b in 0..=255u8 {
        let mut s = Span::new(FileType::Buffer);
        s.update_loc(loc((5, 9)));
        let t = s.clone().into_updated(&b);
        s.update(&b);
        let want = step((5, 9), C::B(b));
        if at(s.start()) != want || at(s.end()) != want || s != t {
          return Err(format!("after byte {b:#x} at 5:9 the spans are {s} and {t}"));
        }
        st.transitions += 2;
        st.local_states += 1;
      }
      st.traces += 1;
      Ok(())
    }
    "files" => {
      for (t, want) in [(FileType::Buffer, "<buffer>"), (FileType::Stdin, "<stdin>"), (FileType::File(std::path::Path::new("a b/c.txt").into()), "a b/c.txt")] {
        if t.to_string() != want || Span::new(t.clone()).file_type().to_string() != want || Span::new(t).to_string() != "1:0-1:0" {
          return Err(format!("the source {want} is shown differently"));
        }
        st.transitions += 1;
        st.local_states += 1;
      }
      st.traces += 1;
      Ok(())
    }
    _ => Err("unknown case".into()),
  }
}

/// All histories from `hist` (whose last operation is not applied yet) to depth `d`.
fn histories(all: &[Op], hist: &mut Vec<usize>, w: &mut World, d: usize, st: &mut Stats) -> Result<(), String> {
  let show = |h: &[usize]| h.iter().map(|o| format!("{:?}", all[*o])).collect::<Vec<_>>().join(", ");
  // every history is run from the beginning on spans of its own
  let mut x = World::new();
  for o in hist.iter() {
    x.apply(all[*o]);
  }
  w.clone_from(&x);
  w.check().map_err(|m| format!("after {}: {m}", show(hist)))?;
  st.transitions += 1;
  if hist.len() == d {
    st.traces += 1;
    st.outcome(&w.m);
    return Ok(());
  }
  for o in 0..all.len() {
    hist.push(o);
    histories(all, hist, w, d, st)?;
    hist.pop();
  }
  Ok(())
}

/// All states within `d` operations of `w`, equal states merged.
fn reach(all: &[Op], w: World, d: usize, st: &mut Stats) -> Result<(), String> {
  w.check()?;
  w.compound()?;
  let mut seen = HashSet::from([w.m]);
  let mut q = VecDeque::from([(w, Vec::<Op>::new())]);
  while let Some((w, path)) = q.pop_front() {
    if path.len() + 1 >= d {
      break;
    }
    for op in all {
      let mut x = w.clone();
      x.apply(*op);
      st.transitions += 1;
      let ctx = |m: String| format!("{path:?} {op:?}: {m}");
      x.check().map_err(ctx)?;
      if seen.insert(x.m) {
        x.compound().map_err(ctx)?;
        st.state(&x.m);
        let mut p = path.clone();
        p.push(*op);
        q.push_back((x, p));
      }
    }
  }
  st.traces += 1;
  Ok(())
}
