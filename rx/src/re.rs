//! Reference regular expressions: syntax trees, printing, Brzozowski derivatives over code-point classes.
//! Independent of laps: nothing here uses automata construction, minimisation or symbol splitting.

use std::collections::HashMap;

pub type Ranges = Vec<(u32, u32)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Re {
  Empty,
  Cls(Ranges),
  Cat(Vec<Re>),
  Alt(Vec<Re>),
  Rep(Box<Re>, u32, Option<u32>),
}

pub fn lit(c: char) -> Re {
  Re::Cls(vec![(c as u32, c as u32)])
}

/// How classes are written in the pattern text.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
  Chars,
  Bytes,
}

fn esc(c: u32, in_class: bool, mode: Mode) -> String {
  let ch = char::from_u32(c);
  match ch {
    Some(ch) if ch.is_ascii_alphanumeric() => ch.to_string(),
    Some(ch) if ch.is_ascii_graphic() && !in_class && !"\\.+*?()|[]{}^$#&-~".contains(ch) => ch.to_string(),
    _ if mode == Mode::Bytes => format!("\\x{c:02x}"),
    _ => format!("\\x{{{c:x}}}"),
  }
}

pub fn class_text(rs: &[(u32, u32)], mode: Mode) -> String {
  let mut s = String::new();
  for &(l, r) in rs {
    s += &esc(l, true, mode);
    if r != l {
      s.push('-');
      s += &esc(r, true, mode);
    }
  }
  s
}

impl Re {
  /// The pattern text; `prec` 0 = alternation allowed, 1 = concatenation allowed, 2 = atom.
  pub fn show(&self, mode: Mode, prec: u8) -> String {
    match self {
      Re::Empty => if prec == 2 { "(?:)".into() } else { String::new() },
      Re::Cls(rs) if rs.len() == 1 && rs[0].0 == rs[0].1 => {
        let c = rs[0].0;
        if mode == Mode::Bytes && c >= 0x80 { format!("(?-u:\\x{c:02x})") } else { esc(c, false, mode) }
      }
      Re::Cls(rs) => {
        let t = class_text(rs, mode);
        if mode == Mode::Bytes { format!("(?-u:[{t}])") } else { format!("[{t}]") }
      }
      Re::Cat(v) => {
        let s: String = v.iter().map(|e| e.show(mode, 1)).collect();
        if prec == 2 { format!("(?:{s})") } else { s }
      }
      Re::Alt(v) => {
        let s = v.iter().map(|e| e.show(mode, 0)).collect::<Vec<_>>().join("|");
        // alternate the two kinds of groups; both must mean the same
        if prec > 0 { if s.len() % 2 == 0 { format!("({s})") } else { format!("(?:{s})") } } else { s }
      }
      Re::Rep(e, lo, hi) => {
        let mut inner = e.show(mode, 2);
        if matches!(**e, Re::Rep(..)) {
          inner = format!("(?:{inner})");
        }
        let op = match (lo, hi) {
          (0, None) => "*".to_string(),
          (1, None) => "+".to_string(),
          (0, Some(1)) => "?".to_string(),
          (n, None) => format!("{{{n},}}"),
          (n, Some(m)) if n == m => format!("{{{n}}}"),
          (n, Some(m)) => format!("{{{n},{m}}}"),
        };
        inner + &op
      }
    }
  }

  pub fn classes<'a>(&'a self, out: &mut Vec<&'a Ranges>) {
    match self {
      Re::Empty => {}
      Re::Cls(r) => out.push(r),
      Re::Cat(v) | Re::Alt(v) => v.iter().for_each(|e| e.classes(out)),
      Re::Rep(e, ..) => e.classes(out),
    }
  }

  /// From regex-syntax's HIR; `None` if it contains a construct outside plain regular expressions, `Some(Err)` for an
  /// empty class.  Used where the point is escapes and syntax, whose meaning regex-syntax defines.
  pub fn from_hir(h: &regex_syntax::hir::Hir, mode: Mode) -> Result<Re, &'static str> {
    use regex_syntax::hir::{Class, HirKind};
    Ok(match h.kind() {
      HirKind::Empty => Re::Empty,
      HirKind::Literal(l) => {
        let v: Vec<Re> = match (mode, std::str::from_utf8(&l.0)) {
          (Mode::Chars, Ok(s)) => s.chars().map(lit).collect(),
          (Mode::Chars, Err(_)) => return Err("invalid UTF-8"),
          (Mode::Bytes, _) => l.0.iter().map(|b| Re::Cls(vec![(*b as u32, *b as u32)])).collect(),
        };
        Re::Cat(v)
      }
      HirKind::Class(c) => {
        let rs: Ranges = match c {
          Class::Unicode(u) => u.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
          Class::Bytes(b) => b.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
        };
        if rs.is_empty() {
          return Err("empty class");
        }
        if mode == Mode::Bytes && matches!(c, Class::Unicode(_)) && rs.iter().any(|r| r.1 > 0x7f) {
          return Err("Unicode class in byte mode");
        }
        Re::Cls(rs)
      }
      HirKind::Look(_) => return Err("look-around"),
      HirKind::Repetition(r) => {
        if !r.greedy {
          return Err("lazy repetition");
        }
        Re::Rep(Box::new(Re::from_hir(&r.sub, mode)?), r.min, r.max)
      }
      HirKind::Capture(c) => Re::from_hir(&c.sub, mode)?,
      HirKind::Concat(v) => Re::Cat(v.iter().map(|e| Re::from_hir(e, mode)).collect::<Result<_, _>>()?),
      HirKind::Alternation(v) => Re::Alt(v.iter().map(|e| Re::from_hir(e, mode)).collect::<Result<_, _>>()?),
    })
  }
}

pub type Id = u32;
pub const NULL: Id = 0;
pub const EPS: Id = 1;

#[derive(Clone, PartialEq, Eq, Hash)]
enum N {
  Null,
  Eps,
  Cls(Ranges),
  Cat(Id, Id),
  Alt(Vec<Id>),
  Star(Id),
}

/// Hash-consed terms with derivatives; similarity (ACI of `|`, associativity of concatenation) keeps them finite.
pub struct Arena {
  nodes: Vec<N>,
  map: HashMap<N, Id>,
  nullable: Vec<bool>,
  dcache: HashMap<(Id, u32), Id>,
}

impl Arena {
  pub fn new() -> Self {
    let mut a = Arena { nodes: vec![], map: HashMap::new(), nullable: vec![], dcache: HashMap::new() };
    a.mk(N::Null);
    a.mk(N::Eps);
    a
  }

  fn mk(&mut self, n: N) -> Id {
    if let Some(i) = self.map.get(&n) {
      return *i;
    }
    let nl = match &n {
      N::Null | N::Cls(_) => false,
      N::Eps | N::Star(_) => true,
      N::Cat(a, b) => self.nullable[*a as usize] && self.nullable[*b as usize],
      N::Alt(v) => v.iter().any(|i| self.nullable[*i as usize]),
    };
    let i = self.nodes.len() as Id;
    self.nodes.push(n.clone());
    self.nullable.push(nl);
    self.map.insert(n, i);
    i
  }

  pub fn len(&self) -> usize {
    self.nodes.len()
  }

  pub fn nullable(&self, i: Id) -> bool {
    self.nullable[i as usize]
  }

  fn cat(&mut self, a: Id, b: Id) -> Id {
    if a == NULL || b == NULL {
      return NULL;
    }
    if a == EPS {
      return b;
    }
    if b == EPS {
      return a;
    }
    if let N::Cat(x, y) = self.nodes[a as usize] {
      let t = self.cat(y, b);
      return self.cat(x, t);
    }
    self.mk(N::Cat(a, b))
  }

  fn alt(&mut self, ids: impl IntoIterator<Item = Id>) -> Id {
    let mut v: Vec<Id> = vec![];
    for i in ids {
      match &self.nodes[i as usize] {
        N::Null => {}
        N::Alt(w) => v.extend(w.iter().copied()),
        _ => v.push(i),
      }
    }
    v.sort_unstable();
    v.dedup();
    match v.len() {
      0 => NULL,
      1 => v[0],
      _ => self.mk(N::Alt(v)),
    }
  }

  fn star(&mut self, a: Id) -> Id {
    match self.nodes[a as usize] {
      N::Null | N::Eps => EPS,
      N::Star(_) => a,
      _ => self.mk(N::Star(a)),
    }
  }

  pub fn intern(&mut self, r: &Re) -> Id {
    match r {
      Re::Empty => EPS,
      Re::Cls(rs) if rs.is_empty() => NULL,
      Re::Cls(rs) => {
        let mut v = rs.clone();
        v.sort_unstable();
        self.mk(N::Cls(v))
      }
      Re::Cat(v) => v.iter().rev().fold(EPS, |acc, e| {
        let i = self.intern(e);
        self.cat(i, acc)
      }),
      Re::Alt(v) => {
        let ids: Vec<_> = v.iter().map(|e| self.intern(e)).collect();
        self.alt(ids)
      }
      Re::Rep(e, lo, hi) => {
        let i = self.intern(e);
        let mut acc = match hi {
          None => self.star(i),
          Some(h) => {
            // (e(e(e)?)?)?
            let mut acc = EPS;
            for _ in *lo..*h {
              let t = self.cat(i, acc);
              acc = self.alt([EPS, t]);
            }
            acc
          }
        };
        for _ in 0..*lo {
          acc = self.cat(i, acc);
        }
        acc
      }
    }
  }

  pub fn deriv(&mut self, i: Id, c: u32) -> Id {
    if i == NULL || i == EPS {
      return NULL;
    }
    if let Some(d) = self.dcache.get(&(i, c)) {
      return *d;
    }
    let d = match self.nodes[i as usize].clone() {
      N::Null | N::Eps => NULL,
      N::Cls(rs) => if rs.iter().any(|&(l, r)| l <= c && c <= r) { EPS } else { NULL },
      N::Cat(a, b) => {
        let da = self.deriv(a, c);
        let x = self.cat(da, b);
        if self.nullable(a) {
          let y = self.deriv(b, c);
          self.alt([x, y])
        } else {
          x
        }
      }
      N::Alt(v) => {
        let ds: Vec<_> = v.into_iter().map(|e| self.deriv(e, c)).collect();
        self.alt(ds)
      }
      N::Star(a) => {
        let da = self.deriv(a, c);
        self.cat(da, i)
      }
    };
    self.dcache.insert((i, c), d);
    d
  }
}

/// Splits the symbol domain into maximal intervals on which every given class is constant, and returns
/// representatives: both ends of every interval.
pub fn representatives<'a>(classes: impl Iterator<Item = &'a Ranges>, extra: impl Iterator<Item = (u32, u32)>, mode: Mode) -> Vec<u32> {
  let dom: &[(u32, u32)] = match mode {
    Mode::Chars => &[(0, 0xd7ff), (0xe000, 0x10ffff)],
    Mode::Bytes => &[(0, 255)],
  };
  let mut cuts: Vec<u32> = vec![];
  for rs in classes {
    for &(l, r) in rs {
      cuts.push(l);
      cuts.push(r + 1);
    }
  }
  for (l, r) in extra {
    cuts.push(l);
    cuts.push(r + 1);
  }
  cuts.extend(dom.iter().flat_map(|d| [d.0, d.1 + 1]));
  cuts.sort_unstable();
  cuts.dedup();
  let mut out = vec![];
  for w in cuts.windows(2) {
    let (l, r) = (w[0], w[1] - 1);
    for &(dl, dr) in dom {
      let (l, r) = (l.max(dl), r.min(dr));
      if l <= r {
        out.push(l);
        if r != l {
          out.push(r);
        }
      }
    }
  }
  out
}
