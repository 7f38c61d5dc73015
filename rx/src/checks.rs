use crate::gen::*;
use crate::product::*;
use crate::re::*;
use crate::scale::{self, Pick};
use eng::{CaseIter, Check, Stats, Tier};
use laps_regex::re::{Error, RegexBuilder, RegexMatcher};
use laps_regex::table::StateTransTable;
use std::collections::{HashMap, HashSet, VecDeque};

pub fn all() -> Vec<Check> {
  vec![
    Check { id: "C01", cases: c01_cases, run: c01_run, space: c01_space, serial: false },
    Check { id: "C02", cases: c02_cases, run: c02_run, space: c02_space, serial: false },
    Check { id: "C03", cases: c03_cases, run: c03_run, space: c03_space, serial: false },
    Check { id: "C04", cases: c04_cases, run: c04_run, space: c04_space, serial: false },
    Check { id: "C05", cases: c05_cases, run: c05_run, space: c05_space, serial: false },
    Check { id: "C06", cases: c06_cases, run: c06_run, space: c06_space, serial: false },
    Check { id: "C07", cases: c07_cases, run: c07_run, space: c07_space, serial: false },
    Check { id: "C08", cases: c08_cases, run: c08_run, space: c08_space, serial: false },
    Check { id: "C31", cases: crate::stages::cases, run: crate::stages::run, space: crate::stages::space, serial: false },
  ]
}

// ---------------------------------------------------------------------------------------------------------- C01

/// Patterns of the kinds people write, in regex syntax.
pub const REAL: &[&str] = &[
  "[_a-zA-Z][_a-zA-Z0-9]*", "[0-9]+", "0|[1-9][0-9]*", "0x[0-9a-fA-F]+", "[0-9]+\\.[0-9]+", "[0-9]+(\\.[0-9]*)?([eE][+-]?[0-9]+)?",
  "\"([^\"\\\\]|\\\\.)*\"", "\"[^\"\\r\\n]*\"", "'([^'\\n\\r\\t\\\\]|\\\\'|\\\\\\\\|\\\\x[0-9a-fA-F]{2})'", "//[^\\n]*",
  "/\\*([^*]|\\*+[^*/])*\\*+/", "if|else|while|for|return|break|continue", "<=|>=|<|>|==|!=|=", "\\s+", ".", "(?s:.)*x",
  "\\+\\+|\\+|--|-|->", "(a|b)*abb", "(ab|cd)*e", "((a|b)(c|d)*)*", "(a*b*)*c", "(a|ab)(c|bcd)(d*)", "a{2,5}b{0,2}",
  "(a{1,2}){2,3}", "(a?b?c?)*d", "(a+|b)*c?", "x*y*z*", "(x*|y)z", "y|x*", "(y|x*)z", "(a*|b*)*", "(a*)*b", "(a+)+", "((a?)*)*",
  "(aa|aab)*", "(a|b|ab)*c", "a(b(c(d)?)?)?", "[a-f]|[d-i]|[g-z]", "[^a]|ab", "(?i)select|from", "(a|)b", "(|a)+", "(a||b)c",
  "[ab][bc][cd]", "a[bc]|a[cd]|a[de]", "abc|abd|abe", "abc|ab|a", "abcx|abdx|abex", "(abc)*|(abd)*", "a*a", "a*aa|b", "(a*ab)*",
  "[0-9]{1,3}(,[0-9]{3})*", "#[0-9a-f]{6}", "(0|1(01*0)*1)*", "(b|ab*ab*a)*", "[a-z]+@[a-z]+\\.(com|org)", "\\w+", "[\\w--\\d]+",
];

pub fn real_re(p: &str, mode: Mode) -> Re {
  let h = regex_syntax::ParserBuilder::new().utf8(mode == Mode::Chars).build().parse(p).unwrap_or_else(|e| eng::harness_error(&format!("{p}: {e}")));
  Re::from_hir(&h, mode).unwrap_or_else(|e| eng::harness_error(&format!("{p}: {e}")))
}

fn c01_space(t: Tier) -> String {
  format!(
    "all expressions with <= {} nodes over the leaves a, b, [ab], empty and the operators concatenation, alternation, * + ? {{2}} {{2,}} {{1,2}} {{0,3}}; \
     all <= {}-node expressions over a and empty with 13 counted repetitions up to 5; all pairs of expressions with <= {} nodes added together; \
     all alternations (plain, starred, followed by a letter, and as separate tagged expressions) of three or four words of <= {} letters; {} practical patterns, alone and in pairs; {}; each explored as the complete product of the built matcher with the derivative machine over all \
     symbol classes (all string lengths), plus all words of <= 4 letters through the whole-string calls",
    t.pick(6, 7), t.pick(4, 5), t.pick(3, 3), t.pick(3, 4), REAL.len(), scale::describe(t)
  )
}

fn c01_cases(t: Tier) -> CaseIter {
  let singles = by_size(&ab_leaves(), REPS, t.pick(6, 7));
  let small: Vec<Re> = singles[1..=3].concat();
  let one = singles.into_iter().flatten().map(|r| format!("set {}@0", ser(&r)));
  let mut counted = vec![];
  for lo in 0..=5u32 {
    counted.push((lo, None));
    for hi in lo..=5 {
      counted.push((lo, Some(hi)));
    }
  }
  // nested counts up to 5 grow fast; the larger bound keeps a subset of the counts
  if t == Tier::Quick {
    counted.retain(|(lo, hi)| *lo <= 3 && hi.map_or(true, |h| h <= 4) || *hi == Some(5));
  }
  let reps = by_size(&[lit('a'), Re::Empty], &counted, t.pick(3, 4)).into_iter().flatten().map(|r| format!("set {}@0", ser(&r)));
  let small2 = small.clone();
  let pairs = small.into_iter().flat_map(move |a| small2.clone().into_iter().map(move |b| format!("set {}@0 {}@1", ser(&a), ser(&b))));
  let real = (0..REAL.len()).map(|i| format!("real {i}"));
  let n = REAL.len() - 2;
  let real2 = (0..n).flat_map(move |i| (i + 1..n).map(move |j| format!("real {i} {j}")));
  Box::new(real.chain(scale::cases(t, Pick::All)).chain(reps).chain(word_sets(t)).chain(pairs).chain(real2).chain(one))
}

/// Alternations of words: exercises prefix factoring and duplicate removal.
fn word_sets(t: Tier) -> impl Iterator<Item = String> + Send {
  let word = |w: &Vec<char>| match w.len() {
    0 => Re::Empty,
    1 => lit(w[0]),
    _ => Re::Cat(w.iter().map(|c| lit(*c)).collect()),
  };
  let w3: Vec<Re> = eng::words(vec!['a', 'b'], 0, 3).map(|w| word(&w)).collect();
  let w4: Vec<Re> = eng::words(vec!['a', 'b'], 1, t.pick(2, 3)).map(|w| word(&w)).collect();
  let wlong: Vec<Re> = eng::words(vec!['a', 'b'], 2, t.pick(3, 4)).map(|w| word(&w)).collect();
  let three = eng::words(w3, 3, 3).flat_map(|v| {
    let alt = Re::Alt(v.clone());
    let tagged = v.iter().enumerate().map(|(i, r)| format!("{}@{i}", ser(r))).collect::<Vec<_>>().join(" ");
    [
      format!("set {}@0", ser(&alt)),
      format!("set {}@0", ser(&Re::Rep(Box::new(alt.clone()), 0, None))),
      format!("set {}@0", ser(&Re::Cat(vec![alt, lit('c')]))),
      format!("set {tagged}"),
    ]
  });
  let four = eng::words(w4, 4, 4).chain(eng::words(wlong, 4, 4)).map(|v| format!("set {}@0", ser(&Re::Alt(v))));
  three.chain(four)
}

fn c01_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (kind, rest) = case.split_once(' ').unwrap();
  if kind == "scale" {
    return scale::run::<char>(rest, Some(false), false, st);
  }
  if kind == "real" {
    let idx: Vec<usize> = rest.split(' ').map(|i| i.parse().unwrap()).collect();
    let texts: Vec<&str> = idx.iter().map(|i| REAL[*i]).collect();
    let pats: Vec<(Re, usize)> = texts.iter().enumerate().map(|(i, p)| (real_re(p, Mode::Chars), i)).collect();
    let ctx = |m: String| format!("{texts:?}: {m}");
    let mk = || {
      let mut b = RegexBuilder::new();
      for (i, p) in texts.iter().enumerate() {
        b = b.add(p, i);
      }
      b.build::<char>().map_err(|e| format!("build failed: {e}"))
    };
    let mut m = eng::guard(mk).map_err(ctx)?.map_err(ctx)?;
    let mut p = Product::<char, usize>::new(&pats, std::iter::empty());
    // classes with hundreds of ranges: one representative pair for each is plenty per state, exactness of classes is C03
    if p.reps.len() > 200 {
      let n = p.reps.len();
      p.reps = p.reps.iter().enumerate().filter(|(i, c)| (**c as u32) < 0x180 || i % (n / 50) == 0).map(|(_, c)| *c).collect();
    }
    st.sample(|| format!("{texts:?}"));
    return eng::guard(|| p.explore(&mut m, false, st)).map_err(ctx)?.map_err(ctx);
  }
  let pats = de_set(rest);
  st.sample(|| pattern(&pats, Mode::Chars));
  check_set::<char, usize>(&pats, None, false, false, st)?;
  // whole-string calls on all short words
  let m = build::<char, usize>(&pats, None)?;
  let mut p = Product::<char, usize>::new(&pats, std::iter::empty());
  let mut level = vec![(p.init.clone(), String::new())];
  for n in 0..=4 {
    let mut next = vec![];
    for (s, w) in level {
      let want = p.tag(&s).is_some();
      let got = m.is_str_match(&w).is_some();
      st.traces += 1;
      if want != got {
        return Err(format!("{}: {w:?} is {}matched", pattern(&pats, Mode::Chars), if got { "" } else { "not " }));
      }
      if n < 4 {
        for c in ['a', 'b', 'c'] {
          next.push((p.step(&s, c), format!("{w}{c}")));
        }
      }
    }
    level = next;
  }
  Ok(())
}

// ---------------------------------------------------------------------------------------------------------- C02

pub fn tag_pool() -> Vec<Re> {
  let a = lit('a');
  let b = lit('b');
  let ab = Re::Cls(vec![(97, 98)]);
  let star = |e: &Re| Re::Rep(Box::new(e.clone()), 0, None);
  let plus = |e: &Re| Re::Rep(Box::new(e.clone()), 1, None);
  let cat = |x: &Re, y: &Re| Re::Cat(vec![x.clone(), y.clone()]);
  let alt = |x: &Re, y: &Re| Re::Alt(vec![x.clone(), y.clone()]);
  vec![
    a.clone(), b.clone(), ab.clone(), alt(&a, &b), alt(&b, &a), cat(&a, &b), plus(&a), star(&a), star(&ab), cat(&a, &star(&b)),
    alt(&a, &cat(&a, &b)), cat(&a, &ab), Re::Empty, Re::Rep(Box::new(a.clone()), 0, Some(1)), cat(&a, &a), cat(&cat(&a, &b), &a),
    alt(&cat(&a, &a), &cat(&a, &b)), cat(&star(&ab), &b), Re::Cls(vec![(98, 99)]), Re::Cls(vec![(97, 99)]), alt(&cat(&a, &b), &Re::Empty),
  ]
}

fn c02_space(t: Tier) -> String {
  format!(
    "all pairs of expressions with <= 2 nodes (leaves a, b, [ab], empty; 7 repetitions) under the tags 0/1, 1/0 and equal tags; all {} of a pool of 21 \
     overlapping expressions under every assignment of the tags (all orders, ties included); the sets among {}; each compared with the smallest matching tag in every state of \
     the product with the derivative machine",
    t.pick("triples of distinct members", "triples (repetition allowed) and all quadruples of 10 members"),
    scale::describe(t)
  )
}

fn c02_cases(t: Tier) -> CaseIter {
  let small: Vec<Re> = by_size(&ab_leaves(), REPS, 2).concat();
  let s2 = small.clone();
  let pairs = small.into_iter().flat_map(move |a| {
    s2.clone().into_iter().flat_map(move |b| {
      let (a, b) = (ser(&a), ser(&b));
      [format!("{a}@0 {b}@1"), format!("{a}@1 {b}@0"), format!("{a}@5 {b}@5")]
    })
  });
  let pool: Vec<String> = tag_pool().iter().map(ser).collect();
  let n = pool.len();
  let tags3: Vec<[usize; 3]> = vec![[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 1, 1], [1, 0, 1]];
  let p3 = pool.clone();
  let triples = (0..n * n * n).filter(move |k| t == Tier::Thorough || { let (i, j, l) = (k / n / n, k / n % n, k % n); i < j && j < l }).flat_map(move |k| {
    let (i, j, l) = (k / n / n, k / n % n, k % n);
    let p = p3.clone();
    tags3.clone().into_iter().map(move |g| format!("{}@{} {}@{} {}@{}", p[i], g[0], p[j], g[1], p[l], g[2]))
  });
  let p4: Vec<String> = pool.iter().take(20).step_by(2).cloned().collect();
  let quads = eng::words((0..p4.len()).collect(), if t == Tier::Thorough { 4 } else { 99 }, if t == Tier::Thorough { 4 } else { 98 })
    .flat_map(move |w| {
      let p = p4.clone();
      [[3, 2, 1, 0], [0, 1, 2, 3], [2, 0, 3, 1], [1, 3, 0, 2]].into_iter().map(move |g| {
        w.iter().zip(g).map(|(i, t)| format!("{}@{t}", p[*i])).collect::<Vec<_>>().join(" ")
      })
    });
  Box::new(scale::cases(t, Pick::Sets).chain(pairs).chain(triples).chain(quads))
}

fn c02_run(case: &str, st: &mut Stats) -> Result<(), String> {
  if let Some(rest) = case.strip_prefix("scale ") {
    return scale::run::<char>(rest, None, true, st);
  }
  let pats = de_set(case);
  st.sample(|| pattern(&pats, Mode::Chars));
  check_set::<char, usize>(&pats, None, true, false, st)
}

// ---------------------------------------------------------------------------------------------------------- C03

const BASES: [u32; 4] = [0x0, 0x61, 0xd7fd, 0x10fffa];
const ENDS: &[u32] = &[0, 1, 0x60, 0x61, 0x7f, 0x80, 0xff, 0x100, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xffff, 0x10000, 0x10ffe, 0x10fff, 0x11000, 0x10fffe, 0x10ffff];
/// Classes by escape or syntax; what they denote is defined by regex-syntax.
const ESCAPES: &[&str] = &[
  ".", "(?s:.)", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "[^a]", "[^\\x00]", "[^\\x{10ffff}]", "[^\\x{d7ff}]", "[^\\x{e000}]", "[^\\x{10fff}]",
  "\\p{L}", "\\P{L}", "\\p{Greek}", "\\P{Greek}", "[[:alpha:]]", "[[:^digit:]]", "(?i)k", "(?i)\u{df}", "(?i:[a-f])", "[\\w&&[^_]]", "[a-z&&[^aeiou]]",
  "[\\x{d7ff}\\x{e000}]", "\\x{10ffff}", "\\x00", "[\\x{e000}-\\x{10ffff}]", "[^\\x{80}-\\x{10fffe}]", "\\n", "[^\\n\\r]", "\u{1F600}", "[\u{1F600}-\u{1F64F}]",
];

fn c03_space(t: Tier) -> String {
  format!(
    "every pair of ranges over {} end points (ends of the code space, surrogate gap, plane ends, ASCII/Latin-1 ends) under two tags; every pair of classes that are non-empty \
     subsets of 6 consecutive scalars, and every {} triple of such over {} scalars, at the start, middle, surrogate gap and end of the code space, as separate expressions and at \
     consecutive positions of one; pairs of classes of up to {} interleaving ranges with different periods; symbols: both ends of every interval of the common refinement of the reference classes and the built table; {} escapes and negations \
     (alone and in pairs) swept over all 1,112,064 scalar values",
    ENDS.len(), t.pick("unordered", "ordered"), t.pick(5, 5), t.pick(20, 33), ESCAPES.len()
  )
}

fn ser_cls(r: &Ranges) -> String {
  ser(&Re::Cls(r.clone()))
}

fn range_pairs(ends: &'static [u32]) -> impl Iterator<Item = String> + Send {
  let rs: Vec<(u32, u32)> = ends.iter().enumerate().flat_map(|(i, l)| ends[i..].iter().map(|r| (*l, *r))).collect();
  let rs2 = rs.clone();
  rs.into_iter().flat_map(move |a| rs2.clone().into_iter().map(move |b| format!("set {}@0 {}@1", ser_cls(&vec![a]), ser_cls(&vec![b]))))
}

fn subset_sets(bases: &'static [u32], t: Tier) -> impl Iterator<Item = String> + Send {
  let pairs = bases.iter().flat_map(|b| {
    let v = subsets(*b, 6);
    let v2 = v.clone();
    v.into_iter().flat_map(move |a| {
      v2.clone().into_iter().flat_map(move |b| {
        let (sa, sb) = (Re::Cls(a.clone()), Re::Cls(b.clone()));
        [format!("set {}@0 {}@1", ser(&sa), ser(&sb)), format!("set {}@0 {}@1", ser(&Re::Cat(vec![sa.clone(), sb.clone()])), ser(&Re::Cat(vec![sb, sa])))]
      })
    })
  });
  let triples = bases.iter().flat_map(move |b| {
    let v = subsets(*b, 5);
    let n = v.len();
    (0..n * n * n).filter_map(move |k| {
      let (i, j, l) = (k / n / n, k / n % n, k % n);
      (t == Tier::Thorough || i <= j && j <= l).then(|| format!("set {}@0 {}@1 {}@2", ser_cls(&v[i]), ser_cls(&v[j]), ser_cls(&v[l])))
    })
  });
  pairs.chain(triples)
}

fn c03_cases(t: Tier) -> CaseIter {
  let n = ESCAPES.len();
  let esc = (0..n).map(|i| format!("esc {i}"));
  let esc2 = (0..n).flat_map(move |i| (0..n).filter(move |j| i != *j).map(move |j| format!("esc {i} {j}")));
  // classes of many ranges that interleave
  let combs = [1usize, 2, 3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33].into_iter().filter(move |n| t == Tier::Thorough || *n <= 20).flat_map(|n| {
    let comb = move |base: u32, step: u32, width: u32| Re::Cls((0..n as u32).map(|i| (base + step * i, base + step * i + width)).collect());
    let bases = [0u32, 0xd7ff - 3 * (n as u32 + 1), 0x10ffff - 7 * (n as u32 + 1)];
    bases.into_iter().flat_map(move |b| {
      [(2, 0, 3, 0, 0), (3, 1, 3, 1, 1), (5, 2, 7, 3, 0), (4, 1, 6, 4, 3), (2, 0, 2, 0, 1)].into_iter().filter(move |x| b + x.4 + (x.2 * n as u32).max(x.0 * n as u32) < 0x110000).filter_map(move |(s1, w1, s2, w2, off)| {
        let fix = |r: Re| match r {
          Re::Cls(v) => Re::Cls(v.into_iter().filter(|(l, r)| (*r < 0xd800 || *l > 0xdfff) && *r <= 0x10ffff).collect()),
          r => r,
        };
        let (x, y) = (fix(comb(b, s1, w1)), fix(comb(b + off, s2, w2)));
        let some = |r: &Re| !matches!(r, Re::Cls(v) if v.is_empty());
        (some(&x) && some(&y)).then(|| format!("set {}@0 {}@1", ser(&x), ser(&y)))
      })
    })
  });
  Box::new(combs.chain(range_pairs(ENDS)).chain(subset_sets(&BASES, t)).chain(esc).chain(esc2))
}

fn c03_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (kind, rest) = case.split_once(' ').unwrap();
  if kind == "set" {
    let pats = de_set(rest);
    st.sample(|| pattern(&pats, Mode::Chars));
    return check_set::<char, usize>(&pats, None, true, true, st);
  }
  let idx: Vec<usize> = rest.split(' ').map(|i| i.parse().unwrap()).collect();
  let texts: Vec<&str> = idx.iter().map(|i| ESCAPES[*i]).collect();
  let pats: Vec<(Re, usize)> = texts.iter().enumerate().map(|(i, p)| (real_re(p, Mode::Chars), i)).collect();
  let mut cs = vec![];
  pats.iter().for_each(|(r, _)| r.classes(&mut cs));
  // sets of two classes with hundreds of ranges each take minutes to build (cubic construction); pairs are limited to
  // those with at most 120 ranges in total, singles are not
  if idx.len() > 1 && cs.iter().map(|c| c.len()).sum::<usize>() > 120 {
    st.note("pairs skipped for size", 1);
    return Ok(());
  }
  let ctx = |m: String| format!("{texts:?}: {m}");
  let mk = || {
    let mut b = RegexBuilder::new();
    for (i, p) in texts.iter().enumerate() {
      b = b.add(p, i);
    }
    b.build::<char>().map_err(|e| format!("build failed: {e}"))
  };
  let m = eng::guard(mk).map_err(ctx)?.map_err(ctx)?;
  let sets: Vec<(Ranges, usize)> = pats.iter().map(|(r, t)| match r {
    Re::Cls(c) => (c.clone(), *t),
    Re::Cat(v) if v.len() == 1 => match &v[0] { Re::Cls(c) => (c.clone(), *t), _ => unreachable!() },
    other => eng::harness_error(&format!("not a class: {other:?}")),
  }).collect();
  let mut ptr = vec![0usize; sets.len()];
  for c in ('\0'..=char::MAX).map(|c| c as u32) {
    let mut want = None;
    for (k, (rs, t)) in sets.iter().enumerate() {
      while ptr[k] < rs.len() && rs[ptr[k]].1 < c {
        ptr[k] += 1;
      }
      if want.is_none() && ptr[k] < rs.len() && rs[ptr[k]].0 <= c {
        want = Some(*t);
      }
    }
    let got = m.is_match(&[char::from_u32(c).unwrap()]).copied();
    if got != want {
      return Err(ctx(format!("U+{c:04X}: got {got:?}, expected {want:?}")));
    }
  }
  st.transitions += 1_112_064;
  st.traces += 1;
  st.local_states += 2;
  Ok(())
}

// ---------------------------------------------------------------------------------------------------------- C04

const BBASES: [u32; 4] = [0x00, 0x61, 0x7d, 0xfa];
const BENDS: &[u32] = &[0, 1, 0x2f, 0x30, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xef, 0xfd, 0xfe, 0xff];
const BTEXTS: &[&str] = &[
  "(?-u:.)", "(?s-u:.)", "(?-u:\\w)", "(?-u:\\W)", "(?-u:\\xff)+", "(?-u:[^a])", "(?-u:[\\x80-\\xff])*", "(?-u:\\x00)", "(?-u:[\\x00-\\x1f])|(?-u:\\xfe\\xff)", "\u{e9}", "\u{65e5}\u{672c}", "\u{e9}|\u{e8}", "\u{1F600}x",
  "[a-z]", "a|b", "[0-9]+", "[a-zA-Z_][a-zA-Z0-9_]*", "if|else|while", "[+-]", "<|>|=", "(?i)a", "(?i-u)k", "[\\t\\n ]+", "a{2,3}(b|c)*", "\"[a-z]*\"",
  "[\u{e9}]", "\\w", "\\s+", ".", "[^a]", "(?i)k", "\\p{Greek}", "a|\u{e9}", "[a\u{e9}]b",
];

fn c04_space(t: Tier) -> String {
  format!(
    "every pair of byte ranges over {} end points under two tags; every pair of classes that are non-empty subsets of 6 consecutive bytes and every {} triple over 5 bytes, at 0x00, 0x61, 0x7d \
     (ASCII end) and 0xfa, as separate expressions and in sequence, explored over both ends of every interval of the refined byte space; all expressions with <= {} nodes over the bytes 0x00, 0xff, 0x80, \
     [0x7f-0x80]; {} byte-mode patterns (UTF-8 literals, ASCII and non-ASCII classes, byte escapes) alone and in pairs over all 256 bytes in every state, through the byte-regex and the UTF-8-regex entry points; the members over ASCII of {}",
    BENDS.len(), t.pick("unordered", "ordered"), t.pick(4, 5), BTEXTS.len(), scale::describe(t)
  )
}

fn c04_cases(t: Tier) -> CaseIter {
  let b = |l: u32, r: u32| Re::Cls(vec![(l, r)]);
  let exprs = by_size(&[b(0, 0), b(255, 255), b(0x80, 0x80), b(0x7f, 0x80)], &[(0, None), (1, None), (0, Some(1)), (2, Some(3))], t.pick(4, 5)).into_iter().flatten().map(|r| format!("set {}@0", ser(&r)));
  let n = BTEXTS.len();
  let txt = (0..n).map(|i| format!("txt {i}"));
  let txt2 = (0..n).flat_map(move |i| (0..n).map(move |j| format!("txt {i} {j}")));
  Box::new(scale::cases(t, Pick::Ascii).chain(range_pairs(BENDS)).chain(subset_sets(&BBASES, t)).chain(exprs).chain(txt).chain(txt2))
}

fn c04_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (kind, rest) = case.split_once(' ').unwrap();
  if kind == "scale" {
    return scale::run::<u8>(rest, None, true, st);
  }
  if kind == "set" {
    let pats = de_set(rest);
    st.sample(|| pattern(&pats, Mode::Bytes));
    return check_set::<u8, usize>(&pats, None, true, true, st);
  }
  let idx: Vec<usize> = rest.split(' ').map(|i| i.parse().unwrap()).collect();
  let texts: Vec<&str> = idx.iter().map(|i| BTEXTS[*i]).collect();
  st.sample(|| format!("{texts:?}"));
  let ctx = |m: String| format!("{texts:?}: {m}");
  for utf8 in [false, true] {
    let mut want: Result<Vec<(Re, usize)>, String> = Ok(vec![]);
    for (i, p) in texts.iter().enumerate() {
      let re = match regex_syntax::ParserBuilder::new().utf8(utf8).build().parse(p) {
        Ok(h) => Re::from_hir(&h, Mode::Bytes).map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
      };
      want = match (want, re) {
        (Ok(mut v), Ok(r)) => { v.push((r, i)); Ok(v) }
        (Err(e), _) | (_, Err(e)) => Err(e),
      };
    }
    let mut b = RegexBuilder::new();
    for (i, p) in texts.iter().enumerate() {
      b = b.add(p, i);
    }
    let got = eng::guard(|| if utf8 { b.build::<u8>() } else { b.build_bytes::<u8>() }).map_err(ctx)?;
    match (want, got) {
      (Err(_), Err(_)) => st.traces += 1,
      (Ok(_), Err(e)) => return Err(ctx(format!("rejected: {e}"))),
      (Err(e), Ok(_)) => return Err(ctx(format!("accepted, but {e}"))),
      (Ok(pats), Ok(mut m)) => {
        let mut p = Product::<u8, usize>::new(&pats, std::iter::empty());
        p.reps = (0..=255).collect();
        eng::guard(|| p.explore(&mut m, true, st)).map_err(ctx)?.map_err(ctx)?;
      }
    }
  }
  Ok(())
}

// ---------------------------------------------------------------------------------------------------------- C05

const META: &[&str] = &["a", "|", "*", "+", "?", "(", ")", "[", "]", "^", "$", "\\", ".", "{", "}", "1", ",", "-", ":"];
const FRAGS: &[&str] = &[
  "a", "(?:", "(", ")", "|", "*", "+?", "*?", "??", "{0}", "{2}", "{1,2}", "{0,2}?", "^", "$", "\\b", "\\B", "\\A", "\\z", "[^\\x00-\\x{10FFFF}]", "[a&&b]", "(?i)", "(?m)", "(?x) ", "(?P<n>", "[a-c]", ".", "(?s-u:.)",
  "\\x{10ffff}", "\\x{10fff}", "\\xff", "(?-u:\\xff)", "\u{e9}", "\\p{Greek}", "[[:digit:]]", "\\Q", "(?!",
];

fn c05_space(t: Tier) -> String {
  format!(
    "every string of <= {} symbols over {} metacharacters and every sequence of <= {} of {} fragments (anchors, word boundaries, lazy and counted repetition, flags, empty classes, code-space ends, byte escapes), in character \
     and byte mode, alone and between valid expressions; {} invalid expressions and valid ones at every position of up to {} expressions, the error attributed to the tag of an invalid one; plus the empty builder; accepted ones are explored completely against the derivative machine",
    t.pick(4, 5), META.len(), t.pick(3, 4), FRAGS.len(), BAD.len(), t.pick(3, 4)
  )
}

fn c05_cases(t: Tier) -> CaseIter {
  let metas = eng::words(META.to_vec(), 0, 2).map(move |w| format!("meta {} {}", t.pick(2, 3), w.concat()));
  let frags = eng::words((0..FRAGS.len()).collect(), 0, t.pick(3, 4)).map(|w| format!("frag {}", w.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ")));
  let n = BAD.len() + 2;
  let at = eng::words((0..n).collect(), 1, t.pick(3, 4)).map(|w| format!("bad {}", w.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ")));
  Box::new(std::iter::once("empty ".to_string()).chain(at).chain(metas).chain(frags))
}

/// Expressions that are not valid, and why.
const BAD: &[&str] = &["(", "[a", "a{2", "*", "\\p{Nothing}", "a)", "[b-a]", "a{3,2}"];

/// Which of several expressions an error is attributed to.
fn c05_bad(idx: &[usize], st: &mut Stats) -> Result<(), String> {
  let text = |i: usize| if i < BAD.len() { BAD[i] } else { ["ab", "x+"][i - BAD.len()] };
  let list: Vec<(&str, usize)> = idx.iter().enumerate().map(|(k, i)| (text(*i), 40 - 7 * k)).collect();
  let valid = |p: &str| regex_syntax::ParserBuilder::new().build().parse(p).is_ok();
  let want: Vec<usize> = list.iter().filter(|(p, _)| !valid(p)).map(|x| x.1).collect();
  for bytes in [false, true] {
    for par in [Some(false), Some(true), None] {
      let b = list.iter().fold(RegexBuilder::new(), |b, (p, t)| b.add(p, *t)).enable_par(par);
      let got = eng::guard(|| if bytes { b.build_bytes::<u8>().err() } else { b.build::<char>().err() }).map_err(|e| format!("{list:?}: {e}"))?;
      st.traces += 1;
      match &got {
        None if want.is_empty() => (),
        Some(Error::Regex(_, t)) if want.contains(t) => (),
        _ => return Err(format!("{list:?}: the result is {got:?}, the tags of the invalid expressions are {want:?}")),
      }
      st.outcome(&want);
    }
  }
  Ok(())
}

fn c05_one<S: Sym>(text: &str, st: &mut Stats) -> Result<(), String> {
  let ctx = |m: String| format!("{:?} ({}): {m}", text, if S::MODE == Mode::Chars { "chars" } else { "bytes" });
  let hir = regex_syntax::ParserBuilder::new().utf8(S::MODE == Mode::Chars).build().parse(text);
  for prefixed in [false, true] {
    let tag = 7usize;
    let mut b = RegexBuilder::new();
    if prefixed {
      b = b.add("zz", 3);
    }
    b = b.add(text, tag);
    if prefixed {
      b = b.add("y+", 9);
    }
    let got = eng::guard(|| S::build(b)).map_err(ctx)?;
    st.traces += 1;
    match (&hir, got) {
      (Err(_), Err(Error::Regex(_, t))) if t == tag => {
        st.outcome(&"syntax");
      }
      (Err(_), Err(Error::Regex(_, t))) => return Err(ctx(format!("syntax error attributed to tag {t} instead of {tag}"))),
      (Err(_), Err(e)) => return Err(ctx(format!("syntax error reported as {e:?}"))),
      (Err(_), Ok(_)) => return Err(ctx("invalid expression accepted".into())),
      (Ok(h), got) => match (Re::from_hir(h, S::MODE), got) {
        (Err(e), Err(_)) => st.outcome(&e),
        (Err(e), Ok(_)) => return Err(ctx(format!("accepted although it contains an unsupported construct: {e}"))),
        (Ok(_), Err(e)) => return Err(ctx(format!("supported expression rejected: {e}"))),
        (Ok(r), Ok(mut m)) => {
          let mut pats = vec![(r, tag)];
          if prefixed {
            pats.insert(0, (Re::Cat(vec![lit('z'), lit('z')]), 3));
            pats.push((Re::Rep(Box::new(lit('y')), 1, None), 9));
          }
          let mut p = Product::<S, usize>::new(&pats, std::iter::empty());
          if p.reps.len() > 300 {
            p.reps.truncate(300);
          }
          eng::guard(|| p.explore(&mut m, true, st)).map_err(ctx)?.map_err(ctx)?;
        }
      },
    }
  }
  Ok(())
}

fn c05_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (kind, rest) = case.split_once(' ').unwrap();
  match kind {
    "empty" => {
      let e: Result<RegexMatcher<char, usize>, _> = RegexBuilder::new().build();
      let f: Result<RegexMatcher<u8, usize>, _> = RegexBuilder::new().build_bytes();
      match (e, f) {
        (Err(Error::EmptyBuilder), Err(Error::EmptyBuilder)) => Ok(()),
        _ => Err("an empty builder is not reported as such".into()),
      }
    }
    "bad" => c05_bad(&rest.split(' ').map(|i| i.parse().unwrap()).collect::<Vec<_>>(), st),
    "meta" => {
      let (n, prefix) = rest.split_once(' ').unwrap();
      let n: usize = n.parse().unwrap();
      // shorter prefixes stand for themselves only; full-length ones for all their continuations
      let ext = if prefix.chars().count() < 2 { 0 } else { n };
      for w in eng::words(META.to_vec(), 0, ext) {
        let text = format!("{prefix}{}", w.concat());
        st.sample(|| format!("{text:?}"));
        c05_one::<char>(&text, st)?;
        c05_one::<u8>(&text, st)?;
      }
      Ok(())
    }
    _ => {
      let text: String = rest.split(' ').filter(|s| !s.is_empty()).map(|i| FRAGS[i.parse::<usize>().unwrap()]).collect();
      st.sample(|| format!("{text:?}"));
      c05_one::<char>(&text, st)?;
      c05_one::<u8>(&text, st)
    }
  }
}

// ---------------------------------------------------------------------------------------------------------- C06

fn c06_space(t: Tier) -> String {
  format!(
    "every expression with <= {} nodes, every pair with <= 2 nodes, pool triples, and sets of n one-character expressions for n around every power of two up to 256 and around 8 x the number of hardware threads (the automatic \
     switch); {}; each built serially, in parallel, automatically, in thread pools of 1, 2 and 3 threads, and again later in the process; all builds compared pairwise on the product of their automata and the first with the derivative machine",
    t.pick(3, 4), scale::describe(t)
  )
}

fn c06_cases(t: Tier) -> CaseIter {
  let singles = by_size(&ab_leaves(), REPS, t.pick(3, 4)).into_iter().flatten().map(|r| format!("{}@0", ser(&r)));
  let small: Vec<Re> = by_size(&ab_leaves(), REPS, 2).concat();
  let s2 = small.clone();
  let pairs = small.into_iter().flat_map(move |a| s2.clone().into_iter().map(move |b| format!("{}@1 {}@0", ser(&a), ser(&b))));
  let pool: Vec<String> = tag_pool().iter().map(ser).collect();
  let n = pool.len();
  let triples = (0..n * n * n).filter(move |k| k / n / n < k / n % n && k / n % n < k % n).map(move |k| format!("{}@2 {}@0 {}@1", pool[k / n / n], pool[k / n % n], pool[k % n]));
  let p = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
  let mut sizes: Vec<usize> = vec![1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];
  sizes.extend([8 * p - 1, 8 * p, 8 * p + 1, 8 * p + 2]);
  sizes.sort();
  sizes.dedup();
  let many = sizes.into_iter().flat_map(|n| {
    let one: Vec<String> = (0..n).map(|i| format!("{}@{i}", ser_cls(&vec![(0x100 + 2 * i as u32, 0x100 + 2 * i as u32)]))).collect();
    let two: Vec<String> = (0..n.min(80)).map(|i| {
      let c = Re::Cls(vec![(0x100 + 2 * i as u32, 0x100 + 2 * i as u32)]);
      format!("{}@{i}", ser(&Re::Cat(vec![c.clone(), Re::Rep(Box::new(Re::Alt(vec![c, lit('a')])), 0, None)])))
    }).collect();
    [one.join(" "), two.join(" ")]
  });
  Box::new(scale::cases(t, Pick::All).chain(singles).chain(many).chain(pairs).chain(triples))
}

/// Compares two matchers on the product of their automata.
fn equal(a: &mut RegexMatcher<char, usize>, b: &mut RegexMatcher<char, usize>, reps: &[char], st: &mut Stats) -> Result<(), String> {
  a.reset();
  b.reset();
  let mut seen = HashSet::from([(a.state(), b.state())]);
  let mut q = VecDeque::from([(a.state(), b.state(), vec![])]);
  while let Some((sa, sb, w)) = q.pop_front() {
    let (fa, fb) = (a.is_state_final(sa), b.is_state_final(sb));
    if fa != fb {
      return Err(format!("{} gives {fa:?} and {fb:?}", show::<char>(&w)));
    }
    for &c in reps {
      for m in [&mut *a, &mut *b] {
        m.reset();
        w.iter().for_each(|c| { m.is_accept(c); });
      }
      let (xa, xb) = (a.is_accept(&c), b.is_accept(&c));
      st.transitions += 1;
      if xa != xb {
        return Err(format!("after {}, {c:?} accepted by one build only", show::<char>(&w)));
      }
      if xa && seen.insert((a.state(), b.state())) {
        let mut w = w.clone();
        w.push(c);
        q.push_back((a.state(), b.state(), w));
      }
    }
  }
  st.local_states += seen.len() as u64;
  st.traces += 1;
  Ok(())
}

fn c06_run(case: &str, st: &mut Stats) -> Result<(), String> {
  // the reference, the expressions as text, and what to call them
  let (name, pats, texts) = if let Some(rest) = case.strip_prefix("scale ") {
    let (name, set) = scale::set(rest);
    (name, scale::reference(&set, Mode::Chars), set)
  } else {
    let pats = de_set(case);
    let texts = pats.iter().map(|(r, t)| (r.show(Mode::Chars, 0), *t)).collect();
    (pattern(&pats[..pats.len().min(6)], Mode::Chars), pats, texts)
  };
  st.sample(|| name.clone());
  let ctx = |m: String| format!("{name}: {m}");
  let make = |par| eng::guard(|| scale::builder(&texts).enable_par(par).build::<char>()).map_err(ctx)?.map_err(|e| ctx(format!("build failed: {e}")));
  let mut builds = vec![];
  for (name, par) in [("serial", Some(false)), ("parallel", Some(true)), ("automatic", None), ("serial again", Some(false))] {
    builds.push((name, make(par)?));
  }
  thread_local! {
    static POOLS: Vec<rayon::ThreadPool> = (1..=3).map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
  }
  for k in 0..3 {
    // thread pools only for a part of the singles, to keep the number of cases high
    if pats.len() > 1 || case.len() < 24 {
      let m = POOLS.with(|p| p[k].install(|| make(Some(true))))?;
      builds.push((["1 thread", "2 threads", "3 threads"][k], m));
    }
  }
  let cuts: Vec<(u32, u32)> = table_cuts(&StateTransTable::from(make(Some(true))?));
  let mut p = Product::<char, usize>::new(&pats, cuts.into_iter());
  let (name, mut first) = builds.remove(0);
  if pats.len() <= 4 || pats.len() % 8 == 1 {
    eng::guard(|| p.explore(&mut first, true, st)).map_err(ctx)?.map_err(ctx)?;
  }
  for (n, mut b) in builds {
    equal(&mut first, &mut b, &p.reps, st).map_err(|m| ctx(format!("{name} and {n} builds differ: {m}")))?;
  }
  Ok(())
}

// ---------------------------------------------------------------------------------------------------------- C07

const SETS7: &[&str] = &[
  "c61-61;@0", "r0,*(.(c61-61;c62-62;))@0", ".(c61-61;r0,*(c62-62;))@0 r1,*(c61-62;)@1", ".(c61-61;c62-62;)@0 .(c61-61;c62-62;c63-63;)@1", "r0,2(|(c61-61;.(c62-62;c61-61;)))@0",
  "e@0 .(c61-61;c61-61;)@1", "r1,*(c61-62;)@2 .(c62-63;c62-63;)@1 c63-63;@0", ".(r0,*(c61-62;)c62-62;c61-61;)@0", "c61-61,63-63;@0 .(c62-62;c61-61,63-63;)@1",
  "|(.(c61-61;c61-61;c61-61;)|(.(c62-62;c62-62;)c63-63;))@0",
];

fn c07_space(t: Tier) -> String {
  format!(
    "{} matchers; all histories of {} calls out of: feed a, b, c, an unknown symbol; reset; whole-string match of three words; save the state; after every call the final tag, the saved state's tag, the slice/string match of the word \
     accepted so far and the exported table's own walk are compared with the derivative machine; all sequences of <= {} of these calls repeated up to {} calls, the costly comparisons made at every 97th call",
    SETS7.len(), t.pick(6, 7), t.pick(3, 4), t.pick(900, 2000)
  )
}

fn c07_cases(t: Tier) -> CaseIter {
  let all = (0..SETS7.len()).flat_map(move |s| eng::words((0..9u8).collect(), 2, 2).map(move |w| format!("{s} {} {}{}", t.pick(6, 7), w[0], w[1])));
  let pump = (0..SETS7.len()).flat_map(move |s| (0..9u8).map(move |o| format!("pump {s} {o} {} {}", t.pick(3, 4), t.pick(900, 2000))));
  Box::new(pump.chain(all))
}

const WORDS7: [&str; 3] = ["", "ab", "abc"];
const NAMES7: [&str; 9] = ["feed a", "feed b", "feed c", "feed z", "reset", "match \"\"", "match \"ab\"", "match \"abc\"", "save"];

struct Walk<'a> {
  set: &'a str,
  m: RegexMatcher<char, usize>,
  table: StateTransTable<char, usize>,
  p: Product<'a, char, usize>,
}

impl Walk<'_> {
  /// Runs a history; `full` tells after which calls everything is compared.
  fn run(&mut self, ops: &[u8], full: impl Fn(usize) -> bool, st: &mut Stats) -> Result<(), String> {
    let Walk { set, m, table, p } = self;
    let ctx = |i: usize, msg: String| {
      let from = if i > 20 { i - 20 } else { 0 };
      let more = if from > 0 { format!("(call {i}) ... ") } else { String::new() };
      format!("{}: history {more}{:?}: {msg}", pattern(&de_set(set), Mode::Chars), ops[from..=i].iter().map(|o| NAMES7[*o as usize]).collect::<Vec<_>>())
    };
    let init = p.init.clone();
    m.reset();
    let mut rs = init.clone();
    let mut word = String::new();
    let mut saved: Option<(usize, Option<usize>)> = None;
    for (i, &o) in ops.iter().enumerate() {
      match o {
        0..=3 => {
          let c = ['a', 'b', 'c', 'z'][o as usize];
          let next = p.step(&rs, c);
          let want = Product::<char, usize>::viable(&next);
          let got = m.is_accept(&c);
          if got != want {
            return Err(ctx(i, format!("accepted: {got}, expected {want}")));
          }
          if want {
            rs = next;
            word.push(c);
          }
        }
        4 => {
          m.reset();
          rs = init.clone();
          word.clear();
        }
        5..=7 => {
          let w = WORDS7[o as usize - 5];
          let mut s = init.clone();
          for c in w.chars() {
            s = p.step(&s, c);
          }
          let want = p.tag(&s).copied();
          let got = m.is_str_match(w).copied();
          if got != want {
            return Err(ctx(i, format!("got {got:?}, expected {want:?}")));
          }
        }
        _ => saved = Some((m.state(), p.tag(&rs).copied())),
      }
      let want = p.tag(&rs).copied();
      let mut got = vec![("final tag", m.is_final().copied()), ("tag of the current state", m.is_state_final(m.state()).copied())];
      if full(i) {
        let mut walk = Some(table.init_id());
        for c in word.chars() {
          walk = walk.and_then(|s| table.next_state(s, &c));
        }
        let cs: Vec<char> = word.chars().collect();
        got.push(("string match", m.is_str_match(&word).copied()));
        got.push(("slice match", m.is_match(&cs).copied()));
        got.push(("table walk", walk.and_then(|s| table.is_final(s).copied())));
      }
      for (what, got) in got {
        if got != want {
          return Err(ctx(i, format!("{what} after {word:?}: got {got:?}, expected {want:?}")));
        }
      }
      if let Some((s, t)) = saved {
        if m.is_state_final(s).copied() != t {
          return Err(ctx(i, "the saved state's tag changed".into()));
        }
      }
      st.transitions += 1;
      st.state(&(*set, &rs, saved.map(|s| s.1)));
    }
    st.traces += 1;
    st.outcome(&(*set, &word));
    Ok(())
  }
}

fn c07_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (pump, case) = match case.strip_prefix("pump ") {
    Some(r) => (true, r),
    None => (false, case),
  };
  let parts: Vec<&str> = case.split(' ').collect();
  let set = SETS7[parts[0].parse::<usize>().unwrap()];
  let pats = de_set(set);
  let table = StateTransTable::from(build::<char, usize>(&pats, None)?);
  let mut w = Walk { set, m: build::<char, usize>(&pats, None)?, table, p: Product::<char, usize>::new(&pats, std::iter::empty()) };
  if pump {
    let (first, len, total): (u8, usize, usize) = (parts[1].parse().unwrap(), parts[2].parse().unwrap(), parts[3].parse().unwrap());
    for tail in eng::words((0..9u8).collect(), 0, len - 1) {
      let cycle: Vec<u8> = std::iter::once(first).chain(tail).collect();
      let ops: Vec<u8> = cycle.iter().cycle().take(total).copied().collect();
      w.run(&ops, |i| i % 97 == 0 || i + 1 == total, st)?;
    }
  } else {
    let depth: usize = parts[1].parse().unwrap();
    let prefix: Vec<u8> = parts[2].bytes().map(|b| b - b'0').collect();
    for tail in eng::words((0..9u8).collect(), depth - 2, depth - 2) {
      let ops: Vec<u8> = prefix.iter().chain(&tail).copied().collect();
      w.run(&ops, |_| true, st)?;
      st.sample(|| format!("{}: {:?}", pattern(&pats, Mode::Chars), ops.iter().map(|o| NAMES7[*o as usize]).collect::<Vec<_>>()));
    }
  }
  w.m.reset();
  Ok(())
}

// ---------------------------------------------------------------------------------------------------------- C08

fn c08_space(t: Tier) -> String {
  format!(
    "the tables of every expression with <= {} nodes over a, b, [ab], empty, every pair with <= 2 nodes, pool triples, every pair of subset classes of 6 scalars at the surrogate gap, {} practical patterns, and {} (built serially and in parallel): reachability of all states, \
     pairwise distinguishability by partition refinement over all symbol classes, distinct columns, disjoint symbol ranges",
    t.pick(5, 6), REAL.len(), scale::describe(t)
  )
}

fn c08_cases(t: Tier) -> CaseIter {
  let singles = by_size(&ab_leaves(), REPS, t.pick(5, 6)).into_iter().flatten().map(|r| format!("set {}@0", ser(&r)));
  let small: Vec<Re> = by_size(&ab_leaves(), REPS, 2).concat();
  let s2 = small.clone();
  let pairs = small.into_iter().flat_map(move |a| s2.clone().into_iter().map(move |b| format!("set {}@1 {}@0", ser(&a), ser(&b))));
  let pool: Vec<String> = tag_pool().iter().map(ser).collect();
  let n = pool.len();
  let triples = (0..n * n * n).filter(move |k| k / n / n < k / n % n && k / n % n < k % n).map(move |k| format!("set {}@2 {}@0 {}@1", pool[k / n / n], pool[k / n % n], pool[k % n]));
  let v = subsets(0xd7fd, 6);
  let v2 = v.clone();
  let cls = v.into_iter().flat_map(move |a| v2.clone().into_iter().map(move |b| format!("set {}@0 {}@1", ser_cls(&a), ser_cls(&b))));
  let real = (0..REAL.len() - 2).map(|i| format!("real {i}"));
  Box::new(real.chain(scale::cases(t, Pick::All)).chain(pairs).chain(triples).chain(cls).chain(singles))
}

fn c08_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (kind, rest) = case.split_once(' ').unwrap();
  if kind == "scale" {
    let (name, set) = scale::set(rest);
    for par in [false, true] {
      let m = eng::guard(|| scale::builder(&set).enable_par(Some(par)).build::<char>()).map_err(|e| format!("{name}: {e}"))?.map_err(|e| format!("{name}: {e}"))?;
      st.sample(|| name.clone());
      c08_table(&name, m, st)?;
    }
    return Ok(());
  }
  let (name, m) = if kind == "real" {
    let p = REAL[rest.parse::<usize>().unwrap()];
    (p.to_string(), RegexBuilder::new().add(p, 0usize).build::<char>().map_err(|e| format!("{p}: {e}"))?)
  } else {
    let pats = de_set(rest);
    (pattern(&pats, Mode::Chars), build::<char, usize>(&pats, None)?)
  };
  st.sample(|| name.clone());
  c08_table(&name, m, st)
}

fn c08_table(name: &str, m: RegexMatcher<char, usize>, st: &mut Stats) -> Result<(), String> {
  let ctx = |m: String| format!("{name}: {m}");
  let t = StateTransTable::from(m);
  let n = t.num_states();
  let ncls = if n == 0 { 0 } else { t.table().len() / n };
  if n == 0 || t.table().len() != n * ncls || t.init_id() >= n {
    return Err(ctx(format!("{} entries for {n} states", t.table().len())));
  }
  // symbol ranges: ordered, disjoint, every class used
  let mut last: Option<char> = None;
  let mut used = vec![vec![]; ncls];
  for (r, (l, id)) in t.sym_map() {
    if l > r || last.is_some_and(|x| *l <= x) || *id >= ncls {
      return Err(ctx(format!("bad symbol range {l:?}-{r:?} (class {id})")));
    }
    last = Some(*r);
    used[*id].push(*l);
  }
  for c in 0..ncls {
    if used[c].is_empty() {
      return Err(ctx(format!("class {c} has no symbols")));
    }
    for d in 0..c {
      if t.table()[c * n..(c + 1) * n] == t.table()[d * n..(d + 1) * n] {
        return Err(ctx(format!("classes {d} and {c} have the same column")));
      }
    }
  }
  // reachability through the transition function
  let syms: Vec<char> = used.iter().map(|v| v[0]).collect();
  let mut seen = HashSet::from([t.init_id()]);
  let mut q = vec![t.init_id()];
  while let Some(s) = q.pop() {
    for c in &syms {
      st.transitions += 1;
      if let Some(x) = t.next_state(s, c) {
        if seen.insert(x) {
          q.push(x);
        }
      }
    }
  }
  if seen.len() != n {
    return Err(ctx(format!("{} of {n} states are reachable", seen.len())));
  }
  if t.tags().keys().any(|k| *k >= n) {
    return Err(ctx("a tag on a state that does not exist".into()));
  }
  // partition refinement
  let mut part: Vec<usize> = (0..n).map(|s| t.is_final(s).map_or(0, |t| t + 1)).collect();
  let mut count = part.iter().collect::<HashSet<_>>().len();
  loop {
    let mut ids: HashMap<Vec<usize>, usize> = HashMap::new();
    let next: Vec<usize> = (0..n)
      .map(|s| {
        let mut key = vec![part[s]];
        key.extend(syms.iter().map(|c| t.next_state(s, c).map_or(usize::MAX, |x| part[x])));
        let k = ids.len();
        *ids.entry(key).or_insert(k)
      })
      .collect();
    part = next;
    if ids.len() == count {
      break;
    }
    count = ids.len();
  }
  if count != n {
    return Err(ctx(format!("{n} states but only {count} distinct behaviours")));
  }
  // no state is dead: every state reaches a final one
  let mut live: HashSet<usize> = (0..n).filter(|s| t.is_final(*s).is_some()).collect();
  loop {
    let more: Vec<usize> = (0..n).filter(|s| !live.contains(s) && syms.iter().any(|c| t.next_state(*s, c).is_some_and(|x| live.contains(&x)))).collect();
    if more.is_empty() {
      break;
    }
    live.extend(more);
  }
  if live.len() != n {
    return Err(ctx("a state from which nothing can be matched".into()));
  }
  st.local_states += n as u64;
  st.traces += 1;
  st.outcome(&(n, ncls));
  Ok(())
}
