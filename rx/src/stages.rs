//! C31: every stage of the pipeline (intermediate representation, automata, table) denotes the same language, and dumps show the automata.

use crate::checks::{real_re, tag_pool, REAL};
use crate::gen::*;
use crate::product::*;
use crate::re::*;
use crate::scale::{self, Pick};
use eng::{CaseIter, Stats, Tier};
use laps_regex::dfa::DFA;
use laps_regex::mir::{Mir, MirBuilder};
use laps_regex::nfa::NFA;
use laps_regex::table::StateTransTable;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Debug;

pub fn space(t: Tier) -> String {
  format!(
    "every expression with <= {} nodes over a, b, [ab], empty with 7 repetitions, every pair with <= 2 nodes and pool triples under ascending tags, {} practical patterns, every pair of non-empty subsets of {} consecutive scalars, every \
     printable ASCII character; {}; as characters and (ASCII ones) as bytes; for each the NFA of the plain and of the optimised representation, the DFA and the table explored by their public edges as \
     the product with the derivative machine (acceptance, smallest tag; determinism of the DFA), and the Graphviz dumps of both automata read back and compared with their edges; all histories of {} of {} operations on two automata assembled by hand, of both kinds of states",
    t.pick(4, 5), REAL.len(), t.pick(4, 5), scale::describe(Tier::Quick), t.pick(4, 5), crate::fa::ops().len()
  )
}

pub fn cases(t: Tier) -> CaseIter {
  let singles = by_size(&ab_leaves(), REPS, t.pick(4, 5)).into_iter().flatten().map(|r| format!("set {}@0", ser(&r)));
  let small: Vec<Re> = by_size(&ab_leaves(), REPS, 2).concat();
  let s2 = small.clone();
  let pairs = small.into_iter().flat_map(move |a| s2.clone().into_iter().map(move |b| format!("set {}@1 {}@4", ser(&a), ser(&b))));
  let pool: Vec<String> = tag_pool().iter().map(ser).collect();
  let n = pool.len();
  let triples = (0..n * n * n).filter(move |k| k / n / n < k / n % n && k / n % n < k % n).map(move |k| format!("set {}@0 {}@0 {}@2", pool[k / n / n], pool[k / n % n], pool[k % n]));
  let cls = [0x21u32, 0xd7fd].into_iter().flat_map(move |b| {
    let v = subsets(b, t.pick(4, 5));
    let v2 = v.clone();
    v.into_iter().flat_map(move |a| v2.clone().into_iter().map(move |b| format!("set {}@0 {}@1", ser(&Re::Cls(a.clone())), ser(&Re::Cls(b)))))
  });
  let ascii = (0u8..0x80).map(|b| format!("set {}@0 {}@1", ser(&lit(b as char)), ser(&Re::Cls(vec![(0x20, 0x7e)]))));
  let real = (0..REAL.len() - 2).map(|i| format!("real {i}"));
  let d = t.pick(4, 5);
  let api = ["dense", "multi"].into_iter().flat_map(move |k| (0..crate::fa::ops().len()).map(move |i| format!("{k} {d} {i}")));
  Box::new(api.chain(real).chain(ascii).chain(scale::cases(Tier::Quick, Pick::All)).chain(pairs).chain(triples).chain(cls).chain(singles))
}

pub fn run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (kind, rest) = case.split_once(' ').unwrap();
  if kind == "dense" || kind == "multi" {
    return crate::fa::run(case, st);
  }
  let (name, texts): (String, Vec<(String, usize)>) = match kind {
    "scale" => scale::set(rest),
    "real" => (REAL[rest.parse::<usize>().unwrap()].to_string(), vec![(REAL[rest.parse::<usize>().unwrap()].to_string(), 0)]),
    _ => {
      let pats = de_set(rest);
      (pattern(&pats, Mode::Chars), pats.iter().map(|(r, t)| (r.show(Mode::Chars, 0), *t)).collect())
    }
  };
  let mut texts = texts;
  texts.sort_by_key(|x| x.1);
  st.sample(|| name.clone());
  let ctx = |m: String| format!("{name}: {m}");
  eng::guard(|| all::<char>(&texts, st)).map_err(ctx)?.map_err(ctx)?;
  if texts.iter().all(|(t, _)| t.is_ascii() && !t.contains("\\s") && !t.contains("[^") && !t.contains('.') && !t.contains("\\w") && !t.contains("(?i)") && !t.contains("\\x{")) {
    let ctx = |m: String| format!("{name} (bytes): {m}");
    eng::guard(|| all::<u8>(&texts, st)).map_err(ctx)?.map_err(ctx)?;
  }
  Ok(())
}

/// An automaton read through its public interface: the edges of each state (`None`: empty edge), final states, tags.
struct Graph<S> {
  init: usize,
  edges: HashMap<usize, Vec<(Option<Vec<(S, S)>>, usize)>>,
  finals: HashSet<usize>,
  tags: HashMap<usize, usize>,
  /// Whether at most one edge may be taken.
  deterministic: bool,
}

impl<S: Sym> Graph<S> {
  fn closure(&self, mut set: BTreeSet<usize>) -> BTreeSet<usize> {
    let mut work: Vec<usize> = set.iter().copied().collect();
    while let Some(s) = work.pop() {
      for (sym, to) in &self.edges[&s] {
        if sym.is_none() && set.insert(*to) {
          work.push(*to);
        }
      }
    }
    set
  }

  /// The states after a symbol, before empty edges.
  fn next(&self, set: &BTreeSet<usize>, c: S) -> Result<BTreeSet<usize>, String> {
    let mut out = BTreeSet::new();
    for s in set {
      let mut n = 0;
      for (sym, to) in &self.edges[s] {
        if sym.as_ref().is_some_and(|rs| rs.iter().any(|(l, r)| *l <= c && c <= *r)) {
          out.insert(*to);
          n += 1;
        }
      }
      if self.deterministic && n > 1 {
        return Err(format!("state {s} has {n} edges for {c:?}"));
      }
    }
    Ok(out)
  }

  fn explore(&self, pats: &[(Re, usize)], st: &mut Stats) -> Result<(), String> {
    let cuts: Vec<(u32, u32)> = self.edges.values().flatten().filter_map(|e| e.0.as_ref()).flatten().map(|(l, r)| (l.to(), r.to())).collect();
    let mut p = Product::<S, usize>::new(pats, cuts.into_iter());
    if self.edges.values().flatten().any(|(_, to)| !self.edges.contains_key(to)) || !self.edges.contains_key(&self.init) {
      return Err("an edge to a state that does not exist".into());
    }
    if self.tags.keys().chain(&self.finals).any(|s| !self.edges.contains_key(s)) {
      return Err("a final or tagged state that does not exist".into());
    }
    let start = (self.closure(BTreeSet::from([self.init])), p.init.clone());
    let mut seen = HashSet::from([start.clone()]);
    let mut q = VecDeque::from([(start.0, start.1, vec![])]);
    let reps = p.reps.clone();
    while let Some((set, rs, word)) = q.pop_front() {
      let want = p.tag(&rs);
      let fin = set.iter().any(|s| self.finals.contains(s));
      let tag = set.iter().filter(|s| self.finals.contains(s)).filter_map(|s| self.tags.get(s)).min();
      if fin != want.is_some() || tag != want {
        return Err(format!("{}: final {fin} with tag {tag:?}, expected tag {want:?}", show::<S>(&word)));
      }
      for &c in &reps {
        let next = self.closure(self.next(&set, c)?);
        let nrs = p.step(&rs, c);
        st.transitions += 1;
        if next.is_empty() && !Product::<S, usize>::viable(&nrs) {
          continue;
        }
        if seen.insert((next.clone(), nrs.clone())) {
          let mut w = word.clone();
          w.push(c);
          q.push_back((next, nrs, w));
        }
      }
    }
    st.local_states += seen.len() as u64;
    st.traces += 1;
    st.outcome(&(seen.len(), self.edges.len()));
    Ok(())
  }

  /// Reads a Graphviz dump back and compares it with the automaton; symbols may be shown in any way that tells them apart.
  fn dump(&self, text: &str) -> Result<(), String> {
    let bad = |m: &str, l: &str| Err(format!("dump: {m}: {l}"));
    let body = text.trim();
    if !body.starts_with("digraph") || !body.ends_with('}') {
      return bad("not a graph", body);
    }
    let mut double = BTreeSet::new();
    let mut is_double = false;
    // label -> edges, and how often each edge has it
    let mut labels: HashMap<String, Vec<(usize, usize)>> = HashMap::new();
    for l in body.lines().skip(1).map(|l| l.trim()).filter(|l| *l != "}" && !l.is_empty()) {
      if let Some(rest) = l.strip_prefix("node") {
        is_double = rest.contains("doublecircle");
      } else if let Some((a, rest)) = l.split_once("->") {
        let Some((b, attr)) = rest.split_once('[') else { return bad("an edge without a label", l) };
        let (Ok(a), Ok(b)) = (a.trim().parse(), b.trim().parse()) else { return bad("an edge between what is not a state", l) };
        let Some((k, v)) = attr.split_once('=') else { return bad("an edge without a label", l) };
        let v = v.trim();
        if k.trim() != "label" || !v.starts_with('"') {
          return bad("not a label", l);
        }
        // a quoted string ends at the first quote without a backslash before it
        let mut label = String::new();
        let mut cs = v[1..].chars();
        loop {
          match cs.next() {
            None => return bad("a label that does not end", l),
            Some('"') => break,
            Some('\\') => {
              label.push('\\');
              match cs.next() {
                Some(c) => label.push(c),
                None => return bad("a label that does not end", l),
              }
            }
            Some(c) => label.push(c),
          }
        }
        if cs.as_str().trim().trim_end_matches(';') != "]" {
          return bad("text after the label", l);
        }
        labels.entry(label).or_default().push((a, b));
      } else if l.contains('=') || l == ";" {
        // an attribute of the graph
      } else if is_double {
        double.extend(l.trim_end_matches(';').split_whitespace().filter_map(|x| x.parse::<usize>().ok()));
      }
    }
    if double != self.finals.iter().copied().collect() {
      return bad("the final states shown are", &format!("{double:?} instead of {:?}", self.finals));
    }
    let mut mine: HashMap<&Option<Vec<(S, S)>>, Vec<(usize, usize)>> = HashMap::new();
    for (a, es) in &self.edges {
      for (sym, b) in es {
        mine.entry(sym).or_default().push((*a, *b));
      }
    }
    let norm = |v: Vec<Vec<(usize, usize)>>| {
      let mut m: BTreeMap<Vec<(usize, usize)>, usize> = BTreeMap::new();
      for mut x in v {
        x.sort();
        *m.entry(x).or_default() += 1;
      }
      m
    };
    if norm(labels.into_values().collect()) != norm(mine.into_values().collect()) {
      return bad("the edges are not those of the automaton", text);
    }
    Ok(())
  }
}

fn nfa_graph<S: Sym>(n: NFA<S, usize>) -> Graph<S> {
  let (fa, tags) = n.into_fa_tags();
  Graph {
    init: fa.init_id(),
    edges: fa.states().iter().map(|(id, s)| (*id, s.outs().iter().flat_map(|(sym, to)| to.iter().map(move |t| (sym.clone(), *t))).collect())).collect(),
    finals: fa.finals().clone(),
    tags,
    deterministic: false,
  }
}

fn dfa_graph<S: Sym>(d: DFA<S, usize>) -> Graph<S> {
  let (fa, tags) = d.into_fa_tags();
  Graph {
    init: fa.init_id(),
    edges: fa.states().iter().map(|(id, s)| (*id, s.outs().iter().map(|(sym, to)| (Some(sym.clone()), *to)).collect())).collect(),
    finals: fa.finals().clone(),
    tags,
    deterministic: true,
  }
}

fn table_graph<S: Sym>(t: StateTransTable<S, usize>) -> Graph<S> {
  let n = t.num_states();
  Graph {
    init: t.init_id(),
    edges: (0..n)
      .map(|s| {
        let es = t.sym_map().iter().filter_map(|(r, (l, id))| {
          let to = t.table()[id * n + s];
          (to < n).then(|| (Some(vec![(*l, *r)]), to))
        });
        (s, es.collect())
      })
      .collect(),
    finals: (0..n).filter(|s| t.is_final(*s).is_some()).collect(),
    tags: t.tags().clone(),
    deterministic: true,
  }
}

/// `next_state` takes the edge of the column the symbol is in, and there is none from or to what is not a state.
fn steps<S: Sym>(t: &StateTransTable<S, usize>) -> Result<(), String> {
  let n = t.num_states();
  let ends: Vec<u32> = t.sym_map().iter().flat_map(|(r, (l, _))| [l.to(), r.to()]).collect();
  let near: BTreeSet<u32> = ends.iter().flat_map(|c| [c.wrapping_sub(1), *c, c + 1]).collect();
  let syms: Vec<S> = near.into_iter().filter(|c| if S::MODE == Mode::Chars { char::from_u32(*c).is_some() } else { *c < 256 }).map(S::from).collect();
  for s in 0..n + 2 {
    for c in &syms {
      let col = t.sym_map().iter().find(|(r, (l, _))| *l <= *c && *c <= **r).map(|(_, (_, k))| *k);
      let want = if s < n { col.map(|k| t.table()[k * n + s]).filter(|to| *to < n) } else { None };
      if t.next_state(s, c) != want {
        return Err(format!("table: the state after {c:?} in state {s} of {n} is {:?} instead of {want:?}", t.next_state(s, c)));
      }
    }
  }
  if t.tags().keys().any(|s| *s >= n || t.is_final(*s) != t.tags().get(s)) || t.is_final(n).is_some() {
    return Err("table: tags of what is not a state".into());
  }
  Ok(())
}

fn dumped(f: impl FnOnce(&mut Vec<u8>) -> std::io::Result<()>) -> Result<String, String> {
  let mut v = vec![];
  f(&mut v).map_err(|e| e.to_string())?;
  String::from_utf8(v).map_err(|e| e.to_string())
}

fn all<S: Sym>(texts: &[(String, usize)], st: &mut Stats) -> Result<(), String>
where
  Mir<S, usize>: MirBuilder + Debug,
{
  let pats: Vec<(Re, usize)> = texts.iter().map(|(p, t)| (real_re(p, S::MODE), *t)).collect();
  let mirs = texts.iter().map(|(p, t)| {
    let hir = regex_syntax::ParserBuilder::new().utf8(S::MODE == Mode::Chars).build().parse(p).unwrap();
    Mir::<S, usize>::new(hir).map(|m| (m, Some(*t))).map_err(|e| format!("{p:?}: {e}"))
  });
  let raw = Mir::Alter(mirs.collect::<Result<Vec<_>, _>>()?);
  let opt = raw.clone().optimize().map_err(|e| format!("not optimised: {e}"))?;
  let twice = opt.clone().optimize().map_err(|e| format!("not optimised again: {e}"))?;
  for (what, mir) in [("the plain representation", raw), ("the optimised representation", opt.clone()), ("the representation optimised twice", twice)] {
    let nfa = NFA::new(mir);
    let dump = dumped(|w| nfa.dump(w))?;
    let g = nfa_graph(nfa);
    g.explore(&pats, st).map_err(|m| format!("NFA of {what}: {m}"))?;
    g.dump(&dump).map_err(|m| format!("NFA of {what}: {m}"))?;
  }
  for par in [Some(false), Some(true)] {
    let dfa = DFA::new(NFA::new(opt.clone()), par);
    let dump = dumped(|w| dfa.dump(w))?;
    let g = dfa_graph(dfa);
    g.explore(&pats, st).map_err(|m| format!("DFA: {m}"))?;
    g.dump(&dump).map_err(|m| format!("DFA: {m}"))?;
  }
  let table = StateTransTable::new(DFA::from(NFA::from(opt)));
  steps(&table)?;
  let t = table_graph(table);
  t.explore(&pats, st).map_err(|m| format!("table: {m}"))
}
