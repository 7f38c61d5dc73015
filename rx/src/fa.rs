//! C31, second part: automata assembled by hand through the public interface, against sets of states, edges and final states.

use eng::Stats;
use laps_regex::fa::{DenseState, FiniteAutomaton, MultiState, State};
use std::collections::{BTreeSet, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
  Add(usize),
  AddFinal(usize),
  /// An edge between the first and last created states of an automaton.
  Edge(usize, Which, u8, Which),
  Final(usize, Which),
  Normal(usize, Which),
  /// Moves the other automaton's states into this one.
  Union,
  /// A fresh automaton in place of the second one.
  New,
}

/// A state by its order of creation in an automaton (or one it does not have).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which {
  Init,
  Last,
  Other,
}

pub fn ops() -> Vec<Op> {
  use Which::*;
  vec![
    Op::Add(0), Op::AddFinal(0), Op::Add(1), Op::AddFinal(1),
    Op::Edge(0, Init, b'a', Last), Op::Edge(0, Init, b'b', Last), Op::Edge(0, Last, b'a', Init), Op::Edge(0, Init, b'a', Init), Op::Edge(1, Init, b'a', Last),
    Op::Final(0, Init), Op::Final(0, Last), Op::Final(0, Other), Op::Normal(0, Last), Op::Normal(0, Init), Op::Normal(0, Other), Op::Final(1, Init),
    Op::Union, Op::New,
  ]
}

/// What the two kinds of states have in common for the check.
trait Edges: State<u8> {
  /// Edges in the order or set they are kept in.
  fn edges(&self) -> Vec<(u8, usize)>;
  const ORDERED: bool;
  fn next(&self, _: u8) -> Option<Option<usize>> {
    None
  }
}

impl Edges for DenseState<u8> {
  fn edges(&self) -> Vec<(u8, usize)> {
    self.outs().to_vec()
  }
  const ORDERED: bool = true;
  fn next(&self, s: u8) -> Option<Option<usize>> {
    Some(self.next_state(&s))
  }
}

impl Edges for MultiState<u8> {
  fn edges(&self) -> Vec<(u8, usize)> {
    self.outs().iter().flat_map(|(s, to)| to.iter().map(move |t| (*s, *t))).collect()
  }
  const ORDERED: bool = false;
}

/// The model: created states in order (the first is the initial one), all states after unions, edges, finals.
#[derive(Clone, Default)]
struct Model {
  own: Vec<usize>,
  states: BTreeSet<usize>,
  edges: Vec<(usize, u8, usize)>,
  finals: BTreeSet<usize>,
}

struct World<T: Edges> {
  fa: [FiniteAutomaton<u8, T>; 2],
  m: [Model; 2],
  ids: HashSet<usize>,
}

impl<T: Edges> World<T> {
  fn fresh(ids: &mut HashSet<usize>, id: usize) -> Result<(), String> {
    if !ids.insert(id) {
      return Err(format!("the state ID {id} is given out twice"));
    }
    Ok(())
  }

  fn new() -> Result<Self, String> {
    let fa = [FiniteAutomaton::new(), FiniteAutomaton::new()];
    let mut w = World { fa, m: Default::default(), ids: HashSet::new() };
    for k in 0..2 {
      w.begin(k)?;
    }
    Ok(w)
  }

  fn begin(&mut self, k: usize) -> Result<(), String> {
    let id = self.fa[k].init_id();
    Self::fresh(&mut self.ids, id)?;
    self.m[k] = Model { own: vec![id], states: BTreeSet::from([id]), ..Default::default() };
    Ok(())
  }

  fn pick(&self, k: usize, w: Which) -> usize {
    match w {
      Which::Init => self.m[k].own[0],
      Which::Last => *self.m[k].own.last().unwrap(),
      Which::Other => *self.m[1 - k].own.last().unwrap(),
    }
  }

  fn apply(&mut self, op: Op) -> Result<(), String> {
    match op {
      Op::Add(k) | Op::AddFinal(k) => {
        let fin = matches!(op, Op::AddFinal(_));
        let id = if fin { self.fa[k].add_final_state() } else { self.fa[k].add_state() };
        Self::fresh(&mut self.ids, id)?;
        let m = &mut self.m[k];
        m.own.push(id);
        m.states.insert(id);
        if fin {
          m.finals.insert(id);
        }
      }
      Op::Edge(k, from, s, to) => {
        let (a, b) = (self.pick(k, from), self.pick(k, to));
        let state = if a == self.m[k].own[0] { self.fa[k].init_mut() } else { self.fa[k].state_mut(a).ok_or("a created state is missing")? };
        state.add(s, b);
        let m = &mut self.m[k];
        if T::ORDERED || !m.edges.contains(&(a, s, b)) {
          m.edges.push((a, s, b));
        }
      }
      Op::Final(k, w) | Op::Normal(k, w) => {
        let id = self.pick(k, w);
        let fin = matches!(op, Op::Final(..));
        let known = self.m[k].states.contains(&id);
        let r = if fin { self.fa[k].set_final_state(id) } else { self.fa[k].set_normal_state(id) };
        if r != known {
          return Err(format!("the result for a state that is {}there is {r}", if known { "" } else { "not " }));
        }
        if known && fin {
          self.m[k].finals.insert(id);
        } else if known {
          self.m[k].finals.remove(&id);
        }
      }
      Op::Union => {
        let other = std::mem::replace(&mut self.fa[1], FiniteAutomaton::new());
        self.fa[0].union(other);
        let o = std::mem::take(&mut self.m[1]);
        self.m[0].states.extend(o.states);
        self.m[0].finals.extend(o.finals);
        self.m[0].edges.extend(o.edges);
        self.begin(1)?;
      }
      Op::New => {
        self.fa[1] = FiniteAutomaton::default();
        self.begin(1)?;
      }
    }
    Ok(())
  }

  fn check(&self) -> Result<(), String> {
    for (k, (fa, m)) in self.fa.iter().zip(&self.m).enumerate() {
      let bad = |what: String| Err(format!("automaton {k}: {what}"));
      if fa.init_id() != m.own[0] || fa.states().keys().copied().collect::<BTreeSet<_>>() != m.states {
        return bad("its states are not those added".into());
      }
      if fa.finals().iter().copied().collect::<BTreeSet<_>>() != m.finals {
        return bad(format!("its final states are {:?} instead of {:?}", fa.finals(), m.finals));
      }
      let one = if m.finals.len() == 1 { m.finals.first().copied() } else { None };
      if fa.final_id() != one {
        return bad(format!("its final state is {:?} instead of {one:?}", fa.final_id()));
      }
      for id in &m.states {
        let Some(s) = fa.state(*id) else { return bad("a state is not found".into()) };
        let mut mine: Vec<(u8, usize)> = m.edges.iter().filter(|e| e.0 == *id).map(|e| (e.1, e.2)).collect();
        let mut got = s.edges();
        for c in [b'a', b'b', b'c'] {
          if let Some(n) = s.next(c) {
            let want = mine.iter().find(|e| e.0 == c).map(|e| e.1);
            if n != want {
              return bad(format!("the state after {c} is {n:?} instead of {want:?}"));
            }
          }
        }
        if !T::ORDERED {
          mine.sort();
          got.sort();
        }
        if got != mine {
          return bad(format!("the edges of a state are {got:?} instead of {mine:?}"));
        }
        if *id == m.own[0] && fa.init().edges().len() != mine.len() {
          return bad("the initial state differs from the state with its ID".into());
        }
      }
      if fa.state(usize::MAX).is_some() {
        return bad("it has a state that was never added".into());
      }
    }
    Ok(())
  }
}

fn hist<T: Edges>(all: &[Op], d: usize, first: usize, st: &mut Stats) -> Result<(), String> {
  for w in eng::words((0..all.len()).collect::<Vec<_>>(), d - 1, d - 1) {
    let h: Vec<Op> = std::iter::once(first).chain(w).map(|i| all[i]).collect();
    let mut x = World::<T>::new()?;
    for (i, op) in h.iter().enumerate() {
      x.apply(*op).and_then(|_| x.check()).map_err(|m| format!("after {:?}: {m}", &h[..=i]))?;
      st.transitions += 1;
    }
    st.local_states += 1;
    st.traces += 1;
    st.outcome(&x.m.iter().map(|m| (m.states.len(), m.edges.len(), m.finals.len())).collect::<Vec<_>>());
  }
  Ok(())
}

pub fn run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  let all = ops();
  let (d, first) = (f[1].parse().unwrap(), f[2].parse::<usize>().unwrap());
  st.sample(|| format!("all histories of {d} operations on automata that begin with {:?}", all[first]));
  eng::guard(|| if f[0] == "dense" { hist::<DenseState<u8>>(&all, d, first, st) } else { hist::<MultiState<u8>>(&all, d, first, st) })?
}
