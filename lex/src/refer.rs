//! The reference lexer: derivatives of the patterns, one step at a time.
use crate::re::{Arena, Id, Mode, Re, NULL};
use crate::run::{Def, What};
use std::collections::HashMap;

pub struct Dfa {
  arena: Arena,
  /// The derivative of every pattern (with its variant).
  states: Vec<Vec<(usize, Id)>>,
  ids: HashMap<Vec<(usize, Id)>, usize>,
  trans: HashMap<(usize, u32), Option<usize>>,
}

impl Dfa {
  pub fn new(d: &Def) -> Result<Self, String> {
    let mode = if d.bytes { Mode::Bytes } else { Mode::Chars };
    let mut arena = Arena::new();
    let mut init = vec![];
    for (i, (what, pat, ..)) in d.vars.iter().enumerate() {
      if matches!(what, What::Regex | What::Skip) {
        let hir = regex_syntax::ParserBuilder::new().utf8(!d.bytes).build().parse(pat).map_err(|e| format!("harness: {e}"))?;
        let re = Re::from_hir(&hir, mode).map_err(|e| format!("harness: {pat}: {e}"))?;
        init.push((i, arena.intern(&re)));
      }
    }
    Ok(Dfa { arena, ids: HashMap::from([(init.clone(), 0)]), states: vec![init], trans: HashMap::new() })
  }

  /// `None`: no match can continue this way.
  pub fn step(&mut self, s: usize, c: u32) -> Option<usize> {
    if let Some(t) = self.trans.get(&(s, c)) {
      return *t;
    }
    let next: Vec<(usize, Id)> = self.states[s].clone().into_iter().map(|(v, i)| (v, self.arena.deriv(i, c))).filter(|x| x.1 != NULL).collect();
    let t = if next.is_empty() {
      None
    } else if let Some(t) = self.ids.get(&next) {
      Some(*t)
    } else {
      let t = self.states.len();
      self.ids.insert(next.clone(), t);
      self.states.push(next);
      Some(t)
    };
    self.trans.insert((s, c), t);
    t
  }

  /// The first-listed variant whose pattern matches.
  pub fn accepts(&self, s: usize) -> Option<usize> {
    self.states[s].iter().find(|(_, i)| self.arena.nullable(*i)).map(|x| x.0)
  }

  pub fn len(&self) -> usize {
    self.states.len()
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
  /// Variant, value, first and last character (inclusive).
  Token { var: usize, value: Option<String>, from: usize, to: usize },
  /// The end token.
  End { var: usize },
  /// No end token is declared.
  NoEnd,
  Unrecognized,
  UnexpectedEnd,
  /// The parser of this variant refuses the text.
  Invalid(usize),
  /// The source failed.
  Source,
}

/// What lexing the text gives, up to the first error or the end.
pub fn lex(dfa: &mut Dfa, d: &Def, text: &[u32], fail: Option<usize>) -> Vec<Ev> {
  let mut out = vec![];
  let mut pos = 0;
  let end = d.vars.iter().position(|v| v.0 == What::Eof);
  'tokens: loop {
    let (from, mut s) = (pos, 0);
    let mut at_end = false;
    loop {
      if fail == Some(pos) {
        out.push(Ev::Source);
        break 'tokens;
      }
      let Some(c) = text.get(pos) else {
        at_end = true;
        break;
      };
      match dfa.step(s, *c) {
        Some(t) => s = t,
        None => break,
      }
      pos += 1;
    }
    if pos == from {
      out.push(match (at_end, end) {
        (false, _) => Ev::Unrecognized,
        (true, Some(var)) => Ev::End { var },
        (true, None) => Ev::NoEnd,
      });
      break;
    }
    match dfa.accepts(s) {
      Some(v) if d.vars[v].0 == What::Skip => {}
      Some(var) => {
        let t: String = text[from..pos].iter().map(|c| char::from_u32(*c).unwrap()).collect();
        match (d.vars[var].2)(&t) {
          Some(value) => out.push(Ev::Token { var, value, from, to: pos - 1 }),
          None => {
            out.push(Ev::Invalid(var));
            break;
          }
        }
      }
      None => {
        out.push(if at_end { Ev::UnexpectedEnd } else { Ev::Unrecognized });
        break;
      }
    }
  }
  out
}
