use crate::model::*;
use eng::{CaseIter, Stats, Tier};
use std::sync::OnceLock;

pub fn entries() -> &'static Vec<Entry> {
  static E: OnceLock<Vec<Entry>> = OnceLock::new();
  E.get_or_init(|| {
    let mut v = vec![];
    crate::types::push(&mut v);
    v
  })
}

pub fn cases(t: Tier) -> CaseIter {
  let (n, e) = (t.pick(6, 7), t.pick(4, 5));
  Box::new((0..entries().len()).map(move |i| format!("type {n} {e} {}", entries()[i].name)))
}

/// Sequences of A, B, C, shorter ones with D, shorter ones with tokenizer errors, and longer ones by repetition.
pub fn seqs(n: usize, e: usize) -> &'static Vec<Vec<Ev>> {
  static S: OnceLock<Vec<Vec<Ev>>> = OnceLock::new();
  S.get_or_init(|| {
    let mut v = sequences("abc", n);
    v.extend(sequences("abcd", e).into_iter().filter(|s| s.contains(&Ev::T(Kind::D))));
    v.extend(sequences("abce", e).into_iter().filter(|s| s.contains(&Ev::E)));
    let (short, tail) = (sequences("abcd", 1), sequences("abcd", 2));
    for k in [4, 20] {
      for u in &short {
        for x in tail.iter().filter(|x| !x.is_empty()) {
          for w in &tail {
            let mut s = u.clone();
            for _ in 0..k {
              s.extend(x);
            }
            s.extend(w);
            v.push(s);
          }
        }
      }
    }
    v
  })
}

/// The expected sequence of a struct of tokens, all its prefixes, and all changes of one of its tokens.
fn around(g: &G) -> Vec<Vec<Ev>> {
  let mut good = vec![];
  fn first(g: &G, with: bool, out: &mut Vec<Kind>) {
    match g {
      G::Tok(k) => out.push(k[0]),
      G::Opt(g) | G::Rep { t: g, .. } | G::SepSeq { t: g, .. } | G::SepList { t: g, .. } if with || !g.nullable() && matches!(g.as_ref(), G::SepList { .. }) => {
        first(g, with, out)
      }
      G::Seq(v) => v.iter().for_each(|g| first(g, with, out)),
      _ => {}
    }
  }
  for with in [true, false] {
    let mut ks = vec![];
    first(g, with, &mut ks);
    if ks.len() < 4 {
      continue;
    }
    let ev: Vec<Ev> = ks.iter().map(|k| Ev::T(*k)).collect();
    for n in 0..=ev.len() {
      good.push(ev[..n].to_vec());
    }
    for i in 0..ev.len() {
      for x in [Ev::T(Kind::A), Ev::T(Kind::B), Ev::T(Kind::C), Ev::T(Kind::D), Ev::E] {
        let mut v = ev.clone();
        v[i] = x;
        v.push(Ev::T(Kind::A));
        good.push(v);
      }
      let mut v = ev.clone();
      v.remove(i);
      good.push(v);
    }
  }
  good
}

pub fn run(case: &str, st: &mut Stats, checks: &[fn(&Entry, &[Ev], &G, &mut Stats) -> Result<(), String>]) -> Result<(), String> {
  let f: Vec<&str> = case.splitn(4, ' ').collect();
  let e = entries().iter().find(|e| e.name == f[3]).unwrap();
  let g = (e.g)();
  if !g.sound() {
    return Err(format!("harness: {} repeats something that may be empty", e.name));
  }
  st.note("types", 1);
  st.sample(|| e.name.to_string());
  for ev in seqs(f[1].parse().unwrap(), f[2].parse().unwrap()).iter().chain(&around(&g)) {
    st.state(&(e.name, show(ev)));
    for c in checks {
      c(e, ev, &g, st).map_err(|m| format!("{} on [ {}]: {m}", e.name, show(ev)))?;
    }
  }
  Ok(())
}

pub fn space(t: Tier, kind: &str, what: &str) -> String {
  format!(
    "{} types with {kind} (every struct of <= 3 fields over six field types, every enum of <= 3 variants over seven shapes, larger ones, nested and \
     recursive ones, generic ones), on every token sequence of <= {} over three kinds, <= {} over four and with tokenizer errors, and all u v^k w \
     with |u| <= 1, |v|, |w| <= 2, k = 4 and 20, and for larger structs the expected sequence with one token changed or missing; compared: {what}",
    entries().len(),
    t.pick(6, 7),
    t.pick(4, 5)
  )
}
