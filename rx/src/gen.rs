//! Enumeration and (de)serialisation of reference expressions.

use crate::re::*;

pub fn ser(r: &Re) -> String {
  match r {
    Re::Empty => "e".into(),
    Re::Cls(rs) => format!("c{};", rs.iter().map(|(l, r)| format!("{l:x}-{r:x}")).collect::<Vec<_>>().join(",")),
    Re::Cat(v) => format!(".({})", v.iter().map(ser).collect::<String>()),
    Re::Alt(v) => format!("|({})", v.iter().map(ser).collect::<String>()),
    Re::Rep(e, lo, hi) => format!("r{lo},{}({})", hi.map_or("*".into(), |h| h.to_string()), ser(e)),
  }
}

pub fn de(s: &str) -> Re {
  let b: Vec<char> = s.chars().collect();
  let mut i = 0;
  let r = de_at(&b, &mut i);
  assert!(i == b.len(), "trailing text in {s:?}");
  r
}

fn until(b: &[char], i: &mut usize, end: char) -> String {
  let mut s = String::new();
  while b[*i] != end {
    s.push(b[*i]);
    *i += 1;
  }
  *i += 1;
  s
}

fn de_at(b: &[char], i: &mut usize) -> Re {
  let c = b[*i];
  *i += 1;
  match c {
    'e' => Re::Empty,
    'c' => {
      let t = until(b, i, ';');
      Re::Cls(
        t.split(',')
          .filter(|x| !x.is_empty())
          .map(|x| {
            let (l, r) = x.split_once('-').unwrap();
            (u32::from_str_radix(l, 16).unwrap(), u32::from_str_radix(r, 16).unwrap())
          })
          .collect(),
      )
    }
    '.' | '|' => {
      *i += 1;
      let mut v = vec![];
      while b[*i] != ')' {
        v.push(de_at(b, i));
      }
      *i += 1;
      if c == '.' { Re::Cat(v) } else { Re::Alt(v) }
    }
    'r' => {
      let t = until(b, i, '(');
      let (lo, hi) = t.split_once(',').unwrap();
      let e = de_at(b, i);
      *i += 1;
      Re::Rep(Box::new(e), lo.parse().unwrap(), if hi == "*" { None } else { Some(hi.parse().unwrap()) })
    }
    _ => panic!("bad expression"),
  }
}

/// `ser@tag ser@tag ...`
pub fn ser_set(v: &[(Re, usize)]) -> String {
  v.iter().map(|(r, t)| format!("{}@{t}", ser(r))).collect::<Vec<_>>().join(" ")
}

pub fn de_set(s: &str) -> Vec<(Re, usize)> {
  s.split(' ')
    .map(|x| {
      let (r, t) = x.rsplit_once('@').unwrap();
      (de(r), t.parse().unwrap())
    })
    .collect()
}

pub const REPS: &[(u32, Option<u32>)] = &[(0, None), (1, None), (0, Some(1)), (2, Some(2)), (2, None), (1, Some(2)), (0, Some(3))];

/// All expressions with exactly `n` nodes, for each n up to `max` (index n).
pub fn by_size(leaves: &[Re], reps: &[(u32, Option<u32>)], max: usize) -> Vec<Vec<Re>> {
  let mut t: Vec<Vec<Re>> = vec![vec![]; max + 1];
  for n in 1..=max {
    let mut v = vec![];
    if n == 1 {
      v.extend(leaves.iter().cloned());
    } else {
      for e in &t[n - 1] {
        for &(lo, hi) in reps {
          v.push(Re::Rep(Box::new(e.clone()), lo, hi));
        }
      }
      for k in 1..n - 1 {
        for a in &t[k] {
          for b in &t[n - 1 - k] {
            v.push(Re::Cat(vec![a.clone(), b.clone()]));
            v.push(Re::Alt(vec![a.clone(), b.clone()]));
          }
        }
      }
    }
    t[n] = v;
  }
  t
}

pub fn ab_leaves() -> Vec<Re> {
  vec![lit('a'), lit('b'), Re::Cls(vec![(97, 98)]), Re::Empty]
}

/// All non-empty subsets of `n` consecutive scalar values starting at `base` (skipping surrogates), as classes.
pub fn subsets(base: u32, n: u32) -> Vec<Ranges> {
  let pts: Vec<u32> = (base..).filter(|c| !(0xd800..0xe000).contains(c)).take(n as usize).collect();
  (1u32..1 << n)
    .map(|mask| {
      let mut rs: Ranges = vec![];
      let mut prev: Option<usize> = None;
      for (i, &p) in pts.iter().enumerate() {
        if mask >> i & 1 == 1 {
          // a range never spans the surrogate gap in this notation, though adjacent points around it stay adjacent
          match rs.last_mut() {
            Some(l) if prev == Some(i.wrapping_sub(1)) && l.1 + 1 == p => l.1 = p,
            _ => rs.push((p, p)),
          }
          prev = Some(i);
        }
      }
      rs
    })
    .collect()
}
