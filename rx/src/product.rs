//! Exploration of the product of a built matcher and the reference machine.

use crate::re::*;
use eng::Stats;
use laps_regex::mir::SymbolOp;
use laps_regex::re::{Error, RegexBuilder, RegexMatcher};
use laps_regex::table::StateTransTable;
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;

/// A symbol type of the matcher under test.
pub trait Sym: Copy + Ord + std::hash::Hash + SymbolOp + Send + Sync + Debug + 'static {
  const MODE: Mode;
  fn from(c: u32) -> Self;
  fn to(self) -> u32;
  fn build<T: Clone + std::hash::Hash + Eq + Ord>(b: RegexBuilder<T>) -> Result<RegexMatcher<Self, T>, Error<T>>;
  /// `is_str_match`, where the word is valid text.
  fn str_match<'a, T>(m: &'a RegexMatcher<Self, T>, w: &[Self]) -> Option<Option<&'a T>>;
}

impl Sym for char {
  const MODE: Mode = Mode::Chars;
  fn from(c: u32) -> Self {
    char::from_u32(c).expect("scalar value")
  }
  fn to(self) -> u32 {
    self as u32
  }
  fn build<T: Clone + std::hash::Hash + Eq + Ord>(b: RegexBuilder<T>) -> Result<RegexMatcher<Self, T>, Error<T>> {
    b.build()
  }
  fn str_match<'a, T>(m: &'a RegexMatcher<Self, T>, w: &[Self]) -> Option<Option<&'a T>> {
    Some(m.is_str_match(&w.iter().collect::<String>()))
  }
}

impl Sym for u8 {
  const MODE: Mode = Mode::Bytes;
  fn from(c: u32) -> Self {
    c as u8
  }
  fn to(self) -> u32 {
    self as u32
  }
  fn build<T: Clone + std::hash::Hash + Eq + Ord>(b: RegexBuilder<T>) -> Result<RegexMatcher<Self, T>, Error<T>> {
    b.build_bytes()
  }
  fn str_match<'a, T>(m: &'a RegexMatcher<Self, T>, w: &[Self]) -> Option<Option<&'a T>> {
    std::str::from_utf8(w).ok().map(|s| m.is_str_match(s))
  }
}

pub fn show<S: Sym>(w: &[S]) -> String {
  if S::MODE == Mode::Chars {
    format!("{:?}", w.iter().map(|c| char::from_u32(c.to()).unwrap()).collect::<String>())
  } else {
    format!("{:x?}", w.iter().map(|c| c.to() as u8).collect::<Vec<_>>())
  }
}

pub struct Product<'a, S: Sym, T> {
  pub pats: &'a [(Re, T)],
  pub reps: Vec<S>,
  pub arena: Arena,
  pub init: Vec<Id>,
}

pub const MAX_PRODUCT: usize = 200_000;

impl<'a, S: Sym, T: Clone + Ord + Eq + Debug + std::hash::Hash> Product<'a, S, T> {
  pub fn new(pats: &'a [(Re, T)], extra: impl Iterator<Item = (u32, u32)>) -> Self {
    let mut cs = vec![];
    pats.iter().for_each(|(r, _)| r.classes(&mut cs));
    let reps = representatives(cs.into_iter(), extra, S::MODE).into_iter().map(S::from).collect();
    let mut arena = Arena::new();
    let init = pats.iter().map(|(r, _)| arena.intern(r)).collect();
    Product { pats, reps, arena, init }
  }

  /// The expected tag in a reference state: the smallest of those that match.
  pub fn tag(&self, s: &[Id]) -> Option<&'a T> {
    let p = self.pats;
    s.iter().zip(p).filter(|(i, _)| self.arena.nullable(**i)).map(|(_, (_, t))| t).min()
  }

  pub fn step(&mut self, s: &[Id], c: S) -> Vec<Id> {
    s.iter().map(|i| self.arena.deriv(*i, c.to())).collect()
  }

  pub fn viable(s: &[Id]) -> bool {
    s.iter().any(|i| *i != NULL)
  }

  /// Explores every reachable product state and every symbol representative in it.
  pub fn explore(&mut self, m: &mut RegexMatcher<S, T>, tags: bool, st: &mut Stats) -> Result<(), String> {
    let mut seen: HashMap<(usize, Vec<Id>), ()> = HashMap::new();
    let mut queue: VecDeque<(usize, Vec<Id>, Vec<S>)> = VecDeque::new();
    m.reset();
    let init = self.init.clone();
    seen.insert((m.state(), init.clone()), ());
    queue.push_back((m.state(), init, vec![]));
    let reps = self.reps.clone();
    while let Some((id, rs, word)) = queue.pop_front() {
      // drive the real matcher to this state again through its access word
      m.reset();
      for c in &word {
        if !m.is_accept(c) {
          return Err(format!("replaying accepted word {} is rejected at {c:?}", show(&word)));
        }
      }
      if m.state() != id {
        return Err(format!("replaying word {} ends in another state", show(&word)));
      }
      let want = self.tag(&rs);
      for (what, got) in [
        ("streaming", m.is_final()),
        ("state", m.is_state_final(id)),
        ("slice", m.is_match(&word)),
        ("string", S::str_match(m, &word).unwrap_or(want)),
      ] {
        let ok = if tags { got == want } else { got.is_some() == want.is_some() };
        if !ok {
          return Err(format!("{what} match of {}: got {got:?}, expected {want:?}", show(&word)));
        }
      }
      st.traces += 1;
      for &c in &reps {
        // a rejected symbol must leave the state alone, so no reset is needed until one is accepted
        let next = self.step(&rs, c);
        let want = Self::viable(&next);
        let got = m.is_accept(&c);
        st.transitions += 1;
        if got != want {
          let mut w = word.clone();
          w.push(c);
          return Err(format!("after {}, symbol {c:?} is {} but {} is {}a prefix of a matched string", show(&word),
            if got { "accepted" } else { "rejected" }, show(&w), if want { "" } else { "not " }));
        }
        if got {
          let nid = m.state();
          if !seen.contains_key(&(nid, next.clone())) {
            if seen.len() >= MAX_PRODUCT {
              eng::harness_error("product too large");
            }
            seen.insert((nid, next.clone()), ());
            let mut w = word.clone();
            w.push(c);
            queue.push_back((nid, next, w));
          }
          m.reset();
          for c in &word {
            m.is_accept(c);
          }
        } else if m.state() != id {
          return Err(format!("rejected symbol {c:?} after {} moved the state", show(&word)));
        }
      }
    }
    st.local_states += seen.len() as u64;
    st.outcome(&(seen.len(), self.reps.len()));
    m.reset();
    Ok(())
  }
}

pub fn pattern<T: Debug>(pats: &[(Re, T)], mode: Mode) -> String {
  pats.iter().map(|(r, t)| format!("{:?}:{t:?}", r.show(mode, 0))).collect::<Vec<_>>().join(", ")
}

pub fn build<S: Sym, T: Clone + Ord + std::hash::Hash + Debug>(pats: &[(Re, T)], par: Option<bool>) -> Result<RegexMatcher<S, T>, String> {
  let mut b = RegexBuilder::new();
  for (r, t) in pats {
    b = b.add(&r.show(S::MODE, 0), t.clone());
  }
  S::build(b.enable_par(par)).map_err(|e| format!("building {} failed: {e}", pattern(pats, S::MODE)))
}

/// Intervals on which the built table distinguishes symbols (used only to refine the representatives).
pub fn table_cuts<S: Sym, T>(t: &StateTransTable<S, T>) -> Vec<(u32, u32)> {
  t.sym_map().iter().map(|(r, (l, _))| (l.to(), r.to())).collect()
}

/// Builds the patterns and explores the whole product; `cuts` refines the symbol representatives by the table's own cuts.
pub fn check_set<S: Sym, T: Clone + Ord + std::hash::Hash + Debug>(pats: &[(Re, T)], par: Option<bool>, tags: bool, cuts: bool, st: &mut Stats) -> Result<(), String> {
  let ctx = |m: String| format!("{}: {m}", pattern(pats, S::MODE));
  let mut m = eng::guard(|| build::<S, T>(pats, par)).map_err(ctx)??;
  let cuts = if cuts {
    let t = eng::guard(|| build::<S, T>(pats, par)).map_err(ctx)??;
    table_cuts(&StateTransTable::from(t))
  } else {
    vec![]
  };
  let mut p = Product::<S, T>::new(pats, cuts.into_iter());
  eng::guard(|| p.explore(&mut m, tags, st)).map_err(ctx)?.map_err(ctx)
}
