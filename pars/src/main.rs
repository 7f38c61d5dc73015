//! C22, C23, C26: predefined structures.
#![recursion_limit = "512"]
#[macro_use]
pub mod model;
mod types;

use eng::{CaseIter, Check, Stats, Tier};
use laps::span::{FileType, Location, Span, Spanned, TrySpan};
use model::*;
use std::sync::OnceLock;

fn main() {
  eng::main(&[
    Check { id: "C22", cases, run: |c, st| run(c, 0, st), space: |t| space(t, "parsed value, tokens left, failing token"), serial: false },
    Check { id: "C23", cases, run: |c, st| run(c, 1, st), space: |t| space(t, "answer, asked again, tokens left, nothing reported; with 0, 1 or 2 tokens buffered"), serial: false },
    Check { id: "C26", cases: c26_cases, run: |c, st| run(c, 2, st), space: |t| space(t, "span or its absence") + "; every value of Vec<Option<_>>, Option<Vec<_>> and Vec<Vec<_>> with up to 4 entries", serial: false },
  ]);
}

fn entries() -> &'static Vec<Entry> {
  static E: OnceLock<Vec<Entry>> = OnceLock::new();
  E.get_or_init(|| {
    let mut v = vec![];
    types::push(&mut v);
    let mut seen = std::collections::HashSet::new();
    v.retain(|e| seen.insert(e.name));
    v
  })
}

fn tuples() -> Vec<Entry> {
  let mut v = vec![];
  types::push_tuples(&mut v);
  v
}

fn space(t: Tier, what: &str) -> String {
  format!(
    "{} predefined structures (each of the predefined ones over tokens, and every nesting of two of them in every position, whose repeated parts consume tokens) \
     and tuples of every arity, on every token sequence of <= {} over three kinds and of <= {} over three kinds and tokenizer errors, and on all u v^k w with |u| <= 1, |v|, |w| <= 2, k = 9 \
     and 40, then end tokens (tuples: the expected sequence, all its prefixes, all changes of one token); compared: {what}",
    entries().len(), t.pick(6, 7), t.pick(4, 5)
  )
}

fn cases(t: Tier) -> CaseIter {
  let (n, e) = (t.pick(6, 7), t.pick(4, 5));
  Box::new(
    (0..entries().len())
      .map(move |i| format!("type {n} {e} {}", entries()[i].name))
      .chain((0..26).map(|i| format!("tuple {i}"))),
  )
}

fn c26_cases(t: Tier) -> CaseIter {
  Box::new(cases(t).chain(std::iter::once("values".to_string())))
}

fn seqs(n: usize, e: usize) -> &'static Vec<Vec<Ev>> {
  static S: OnceLock<Vec<Vec<Ev>>> = OnceLock::new();
  S.get_or_init(|| {
    let mut v = sequences("abc", n);
    v.extend(sequences("abce", e).into_iter().filter(|s| s.contains(&Ev::E)));
    // long ones: u v v ... v w
    let (short, tail) = (sequences("abc", 1), sequences("abc", 2));
    for k in [9, 40] {
      for u in &short {
        for x in tail.iter().filter(|x| !x.is_empty()) {
          for w in &tail {
            let mut s = u.clone();
            for _ in 0..k {
              s.extend(x);
            }
            s.extend(w);
            v.push(s);
          }
        }
      }
    }
    v
  })
}

fn run(case: &str, what: usize, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.splitn(4, ' ').collect();
  let one = |e: &Entry, g: &G, ev: &[Ev], st: &mut Stats| -> Result<(), String> {
    st.state(&(e.name, show(ev)));
    [check_parse, check_maybe, check_span][what](e, ev, g, st).map_err(|m| format!("{} on [ {}]: {m}", e.name, show(ev)))
  };
  match f[0] {
    "type" => {
      let e = entries().iter().find(|e| e.name == f[3]).unwrap();
      let g = (e.g)();
      if !g.sound() {
        st.note("structures skipped: a repeated part may consume nothing", 1);
        return Ok(());
      }
      st.note("structures", 1);
      st.sample(|| e.name.to_string());
      for ev in seqs(f[1].parse().unwrap(), f[2].parse().unwrap()) {
        one(e, &g, ev, st)?;
      }
      Ok(())
    }
    "tuple" => {
      let i: usize = f[1].parse().unwrap();
      let e = tuples()[i];
      let g = (e.g)();
      let ks = [Kind::A, Kind::B, Kind::C, Kind::D];
      let good: Vec<Ev> = (0..=i).map(|k| Ev::T(ks[types::tuple_kind(k)])).collect();
      let mut all = vec![];
      for n in 0..=good.len() {
        all.push(good[..n].to_vec());
      }
      for k in 0..good.len() {
        for x in ks {
          let mut v = good.clone();
          v[k] = Ev::T(x);
          v.push(Ev::T(Kind::A));
          all.push(v);
        }
        let mut v = good.clone();
        v[k] = Ev::E;
        all.push(v);
      }
      for ev in &all {
        one(&e, &g, ev, st)?;
      }
      Ok(())
    }
    _ => values(st),
  }
}

/// Values that no parser builds but a user may.
fn values(st: &mut Stats) -> Result<(), String> {
  let base = Span::new(FileType::Buffer);
  let tok = |i: usize| {
    let (a, b) = place(i);
    let mut s = base.clone();
    let mut e = base.clone();
    s.update_loc(Location { line: a.0, col: a.1 });
    e.update_loc(Location { line: b.0, col: b.1 });
    s.update_end(e);
    A(laps::token::Token { kind: Kind::A, span: s })
  };
  let want = |at: &[usize]| match (at.first(), at.last()) {
    (Some(a), Some(b)) => Some((place(*a).0, place(*b).1)),
    _ => None,
  };
  let got = |s: Option<Span>| s.map(|s| ((s.start().line, s.start().col), (s.end().line, s.end().col)));
  for n in 0..=6usize {
    for m in 0..1u32 << n {
      let at: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
      let v: Vec<Option<A>> = (0..n).map(|i| (m >> i & 1 == 1).then(|| tok(i))).collect();
      let w = want(&at);
      let check = |what: &str, s: Option<Span>| match got(s) {
        g if g == w => Ok(()),
        g => Err(format!("{what} with elements present: {at:?} of {n}: span {g:?} instead of {w:?}")),
      };
      st.traces += 4;
      st.transitions += 4;
      st.state(&("values", n, m));
      check("Vec<Option<_>>", v.try_span())?;
      check("Option<Vec<Option<_>>>", Some(v.clone()).try_span())?;
      check("Vec<Vec<Option<_>>>", vec![vec![], v.clone(), vec![None]].try_span())?;
      check("Vec<Vec<_>>", v.iter().map(|x| x.clone().into_iter().collect::<Vec<A>>()).collect::<Vec<_>>().try_span())?;
      check("Option<Option<_>>", None::<Option<A>>.try_span()).or_else(|e| if at.is_empty() { Err(e) } else { Ok(()) })?;
    }
  }
  // in the same line: where one span ends and the next starts
  for (i, j, k) in (0..7).flat_map(|i| (0..7).flat_map(move |j| (0..7).map(move |k| (i, j, k)))) {
    let s = tok(i).span().into_end_updated(tok(j).span());
    let t = tok(k).span();
    if s.is_in_same_line_as(&t) != (place(j).1 .0 == place(k).0 .0) {
      return Err(format!("{s} in the same line as {t}: {}", s.is_in_same_line_as(&t)));
    }
    st.transitions += 1;
  }
  Ok(())
}
