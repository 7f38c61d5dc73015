//! The reference: a grammar as data, and the table of all its sentences up to a length with their trees.
//!
//! The table is made by enumerating derivations, not by parsing, so it shares nothing with the way the code under test works.
use std::collections::HashMap;

/// A token class; the text of a token of the class is in the front end's table.
pub type Tok = u8;

pub enum G {
  T(Tok),
  N(&'static str),
  /// A structure with a name.
  Node(&'static str, Vec<G>),
  Alt(Vec<G>),
  Opt(Box<G>),
  /// At least `min`, separated by nothing.
  Many(usize, Box<G>),
  /// At least `min` elements with a separator between them (not kept) and, when `trailing`, perhaps after the last.
  Sep { min: usize, item: Box<G>, sep: Box<G>, trailing: bool },
  /// A non-empty list with its separators kept.
  List(Box<G>, Box<G>),
}

pub fn t(t: Tok) -> G {
  G::T(t)
}
pub fn n(s: &'static str) -> G {
  G::N(s)
}
pub fn node(s: &'static str, v: Vec<G>) -> G {
  G::Node(s, v)
}
pub fn alt(v: Vec<G>) -> G {
  G::Alt(v)
}
pub fn opt(g: G) -> G {
  G::Opt(Box::new(g))
}
pub fn many(min: usize, g: G) -> G {
  G::Many(min, Box::new(g))
}
pub fn sep(min: usize, item: G, s: G) -> G {
  G::Sep { min, item: Box::new(item), sep: Box::new(s), trailing: false }
}
pub fn optsep(min: usize, item: G, s: G) -> G {
  G::Sep { min, item: Box::new(item), sep: Box::new(s), trailing: true }
}
pub fn list(item: G, s: G) -> G {
  G::List(Box::new(item), Box::new(s))
}

type Set = std::rc::Rc<Vec<(Vec<Tok>, String)>>;

/// The tree of a token is `\u{1}`, to be replaced by the token's value.
pub const VALUE: char = '\u{1}';
/// The place of a token that the tree does not keep.
pub const DROPPED: char = '\u{2}';

pub struct Gen<'g> {
  rules: &'g HashMap<&'static str, G>,
  memo: HashMap<(*const G, usize), Set>,
  seqs: HashMap<(*const G, usize, usize), Set>,
  /// Only sentences over these tokens.
  allowed: &'g [Tok],
}

impl<'g> Gen<'g> {
  pub fn new(rules: &'g HashMap<&'static str, G>, allowed: &'g [Tok]) -> Self {
    Gen { rules, memo: HashMap::new(), seqs: HashMap::new(), allowed }
  }

  /// All sentences of exactly `k` tokens.
  pub fn of(&mut self, g: &'g G, k: usize) -> Set {
    if let Some(s) = self.memo.get(&(g as *const G, k)) {
      return s.clone();
    }
    let mut out: Vec<(Vec<Tok>, String)> = vec![];
    match g {
      G::T(x) => {
        if k == 1 && self.allowed.contains(x) {
          out.push((vec![*x], VALUE.to_string()));
        }
      }
      G::N(name) => return self.of(&self.rules[name], k),
      G::Node(name, parts) => {
        for (w, t) in self.parts(g, parts, 0, k).iter() {
          out.push((w.clone(), format!("({name}{t})")));
        }
      }
      G::Alt(v) => {
        for a in v {
          out.extend(self.of(a, k).iter().cloned());
        }
      }
      G::Opt(a) => {
        if k == 0 {
          out.push((vec![], "_".into()));
        }
        if k > 0 {
          out.extend(self.of(a, k).iter().cloned());
        }
      }
      G::Many(min, a) => {
        for c in *min..=k {
          if c == 0 && k > 0 {
            continue;
          }
          for (w, t) in self.rep(a, c, k).iter() {
            out.push((w.clone(), format!("[{}]", t.trim_start())));
          }
        }
      }
      G::Sep { min, item, sep, trailing } => {
        // c elements and c - 1 separators (c with a trailing one)
        for c in *min..=k {
          if c == 0 {
            if k == 0 {
              out.push((vec![], "[]".into()));
            }
            continue;
          }
          for extra in 0..=(*trailing as usize) {
            let seps = c - 1 + extra;
            for ks in seps..=k.saturating_sub(1) {
              if seps == 0 && ks > 0 {
                continue;
              }
              let items = self.split(item, c, k - ks);
              let sp = self.split(sep, seps, ks);
              for (iw, it) in &items {
                for (sw, _) in &sp {
                  let mut w = vec![];
                  let mut t = String::from("[");
                  for i in 0..c {
                    if i > 0 {
                      t += " ";
                    }
                    w.extend(iw[i].iter());
                    t += &it[i];
                    if i < seps {
                      w.extend(sw[i].iter());
                      t.extend(sw[i].iter().map(|_| DROPPED));
                    }
                  }
                  out.push((w, t + "]"));
                }
              }
            }
          }
        }
      }
      G::List(item, sep) => {
        for c in 1..=k {
          let seps = c - 1;
          for ks in seps..k {
            if seps == 0 && ks > 0 {
              continue;
            }
            let items = self.split(item, c, k - ks);
            let sp = self.split(sep, seps, ks);
            for (iw, it) in &items {
              for (sw, s) in &sp {
                let mut w = vec![];
                let mut t = String::new();
                for i in 0..c {
                  w.extend(iw[i].iter());
                  t += &it[i];
                  if i < seps {
                    w.extend(sw[i].iter());
                    t += &format!(" {} ", s[i]);
                  }
                }
                out.push((w, if c == 1 { t } else { format!("<{t}>") }));
              }
            }
          }
        }
      }
    }
    let s = Set::new(out);
    self.memo.insert((g as *const G, k), s.clone());
    s
  }

  /// `c` times `g` in `k` tokens, each part by itself.
  fn split(&mut self, g: &'g G, c: usize, k: usize) -> Vec<(Vec<Vec<Tok>>, Vec<String>)> {
    if c == 0 {
      return if k == 0 { vec![(vec![], vec![])] } else { vec![] };
    }
    let mut out = vec![];
    for first in 1..=k {
      let a = self.of(g, first);
      if a.is_empty() || (c == 1 && first != k) {
        continue;
      }
      let rest = self.split(g, c - 1, k - first);
      for (w, t) in a.iter() {
        for (rw, rt) in &rest {
          let mut ws = vec![w.clone()];
          ws.extend(rw.iter().cloned());
          let mut ts = vec![t.clone()];
          ts.extend(rt.iter().cloned());
          out.push((ws, ts));
        }
      }
    }
    out
  }

  fn rep(&mut self, g: &'g G, c: usize, k: usize) -> Set {
    let v = self.split(g, c, k);
    Set::new(v.into_iter().map(|(w, t)| (w.concat(), t.iter().map(|t| format!(" {t}")).collect())).collect())
  }

  fn parts(&mut self, g: &'g G, v: &'g [G], i: usize, k: usize) -> Set {
    if let Some(s) = self.seqs.get(&(g as *const G, i, k)) {
      return s.clone();
    }
    let mut out = vec![];
    if i == v.len() {
      if k == 0 {
        out.push((vec![], String::new()));
      }
    } else {
      for first in 0..=k {
        let a = self.of(&v[i], first);
        if a.is_empty() {
          continue;
        }
        let rest = self.parts(g, v, i + 1, k - first);
        for (w, t) in a.iter() {
          for (rw, rt) in rest.iter() {
            out.push(([&w[..], rw].concat(), format!(" {t}{rt}")));
          }
        }
      }
    }
    let s = Set::new(out);
    self.seqs.insert((g as *const G, i, k), s.clone());
    s
  }
}

/// All sentences of up to `max` tokens over `allowed` with their trees.
pub fn table(rules: &HashMap<&'static str, G>, allowed: &[Tok], max: usize) -> HashMap<Vec<Tok>, String> {
  let mut out = HashMap::new();
  let mut gen = Gen::new(rules, allowed);
  for k in 0..=max {
    for (w, t) in gen.of(&rules["start"], k).iter() {
      if let Some(old) = out.insert(w.clone(), t.clone()) {
        if old != *t {
          eng::harness_error(&format!("the grammar is ambiguous: {w:?} {old} {t}"));
        }
      }
    }
  }
  out
}
