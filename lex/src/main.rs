//! C15, C16, C17: derived lexers against a reference lexer.
#[path = "../../lib/src/capture.rs"]
mod capture;
mod defs;
#[path = "../../rx/src/re.rs"]
#[allow(dead_code)]
mod re;
mod refer;
#[path = "../../lib/src/read.rs"]
#[allow(dead_code)]
mod read;
mod run;

use eng::{CaseIter, Check, Stats, Tier};
pub use run::{latin, run_bytes, run_chars, Def, Show, What};
use std::sync::OnceLock;

pub fn hex(b: &[u8]) -> String {
  b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn signed_int_literal_(s: &String) -> Option<i8> {
  laps::lexer::signed_int_literal(s)
}

fn defs() -> &'static Vec<Def> {
  static D: OnceLock<Vec<Def>> = OnceLock::new();
  D.get_or_init(|| {
    let mut v = vec![];
    defs::push(&mut v);
    v
  })
}

fn cases(t: Tier) -> CaseIter {
  let more = t.pick(0, 1);
  Box::new(["short", "long", "fail"].into_iter().flat_map(move |k| defs().iter().map(move |d| format!("{k} {} {}", if k == "short" { d.n + more } else { more }, d.name))))
}

fn run(case: &str, what: usize, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.splitn(3, ' ').collect();
  let d = defs().iter().find(|d| d.name == f[2]).unwrap();
  st.note("lexer runs over a family of inputs", 1);
  st.sample(|| d.name.to_string());
  (d.run)(d, f[0], f[1].parse().unwrap(), what, st).map_err(|m| format!("{}: {m}", d.name))
}

fn space(t: Tier, what: &str) -> String {
  format!(
    "{} derived lexers (all pairs of 14 small patterns, all pairs of a pattern and a skip pattern, all triples of six; pairs of ten byte patterns; classes, counted \
     repetitions, automata of critical sizes, many variants, realistic languages; with and without end tokens, every kind of variant) on all inputs of up to \
     {} pieces of the lexer's alphabet (per lexer: 4 to 7), on u v^k w with |u| <= 1, |v| <= 2, |w| <= 1 of 7 to 40 symbols, \
     and {} longer than the reader's buffer, through readers delivering 1, 3 or 1023 bytes at a time, and with a source failing at every position; compared: {what}",
    defs().len(),
    t.pick("n", "n + 1"),
    t.pick("v^k w", "u v^k w"),
  )
}

fn main() {
  eng::main(&[
    Check { id: "C15", cases, run: |c, st| run(c, 0, st), space: |t| space(t, "variant and value of every token"), serial: false },
    Check { id: "C16", cases, run: |c, st| run(c, 1, st), space: |t| space(t, "start and end of every token's span"), serial: false },
    Check { id: "C17", cases, run: |c, st| run(c, 2, st), space: |t| space(t, "errors, their messages and counts, end of input (asked again), failures of the source, number of calls"), serial: false },
  ]);
}
