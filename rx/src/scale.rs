//! Families of expressions that grow with a number: long literals, large counts, many alternatives, many expressions, deep nesting.
//!
//! They leave the bounds of the systematic spaces in one direction each; every member is explored completely.

use crate::checks::real_re;
use crate::product::*;
use crate::re::*;
use eng::{Stats, Tier};
use laps_regex::re::RegexBuilder;

pub type Set = Vec<(String, usize)>;

fn one(p: String) -> Set {
  vec![(p, 0)]
}

fn join(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
  (0..n).map(f).collect::<Vec<_>>().join(sep)
}

fn letter(i: usize) -> char {
  (b'a' + (i % 26) as u8) as char
}

/// A word that differs for every i below 26 * 26 * 26.
fn word(i: usize) -> String {
  format!("{}{}{}", letter(i), letter(i / 26 + i), letter(i / 676 + i * 7))
}

/// A tag order that is neither ascending nor descending.
fn tag(i: usize, n: usize) -> usize {
  (i * 7 + 3) % n.max(1) + if i % 7 == 0 { n * 1000 } else { 0 }
}

pub const FAMILIES: &[(&str, fn(usize) -> Set, &[usize], &[usize])] = &[
  // name, members, quick sizes, thorough sizes
  ("literal", |n| one(join(n, "", |i| letter(i * i).to_string())), LONG, LONG),
  ("same", |n| one("a".repeat(n)), LONG, LONG),
  ("count", |n| one(format!("a{{{n}}}")), LONG, LONG),
  ("at least", |n| one(format!("(?:ab){{{n},}}c")), MID, LONG),
  ("at most", |n| one(format!("(?:ab){{0,{n}}}c")), SMALL, MID),
  ("between", |n| one(format!("[a-c]{{{n},{}}}b", 2 * n)), SMALL, MID),
  ("nested count", |n| one(format!("(?:a{{2}}b{{{n}}}){{3}}")), MID, LONG),
  ("optional tail", |n| one(format!("{}{}", "(?:a".repeat(n), ")?".repeat(n))), MID, NEST),
  ("optional pair", |n| one(format!("{}{}", "(?:a(?:b".repeat(n), ")?c)?".repeat(n))), SMALL, &[30, 31, 32, 33, 60]),
  ("nested star", |n| one(format!("{}a{}", "(?:".repeat(n), ")*".repeat(n))), NEST, NEST),
  ("nested plus", |n| one(format!("{}a{}", "(?:b".repeat(n), ")+".repeat(n))), &[4, 6, 7, 8, 9, 10], &[11, 12]),
  ("groups", |n| one(format!("{}a{}", "(".repeat(n), ")".repeat(n))), NEST, NEST),
  ("star chain", |n| one(join(n, "", |i| format!("{}*", letter(i)))), SMALL, MID),
  ("plus chain", |n| one(join(n, "", |i| format!("{}+", letter(i)))), MID, MID),
  ("option chain", |n| one(join(n, "", |i| format!("{}?", letter(i)))), SMALL, MID),
  ("same options", |n| one("a?".repeat(n)), SMALL, MID),
  ("nth from end", |n| one(format!("(?:a|b)*a(?:a|b){{{n}}}")), &[1, 2, 3, 4, 5, 6, 7, 8], &[9, 10, 11]),
  ("words", |n| one(join(n, "|", word)), MANY, MORE),
  ("words star", |n| one(format!("(?:{})*", join(n, "|", word))), MANY, MORE),
  ("prefixes", |n| one(join(n, "|", |i| "ab".repeat(i + 1))), SMALL, MID),
  ("suffixes", |n| one(join(n, "|", |i| format!("{}b", letter(i).to_string().repeat(i + 1)))), SMALL, MID),
  ("letters", |n| one(join(n, "|", |i| char::from_u32(0x4e00 + 2 * i as u32).unwrap().to_string())), MANY, MORE),
  ("class chain", |n| one(join(n, "", |i| format!("[{}-{}]", letter(i % 13), letter(i % 13 + i % 12 + 1)))), MID, LONG),
  ("comb", |n| one(format!("[{}]x", join(n, "", |i| char::from_u32(0x100 + 2 * i as u32).unwrap().to_string()))), MANY, MORE),
  ("many words", |n| (0..n).map(|i| (word(i), tag(i, n))).collect(), MANY, MORE),
  ("many words descending", |n| (0..n).map(|i| (word(i), n - i)).collect(), MANY, MORE),
  ("keywords before names", |n| (0..n).map(|i| (word(i), i)).chain([("[a-z]+".to_string(), n)]).collect(), MANY, MORE),
  ("keywords after names", |n| [("[a-z]+".to_string(), n)].into_iter().chain((0..n).map(|i| (word(i), i))).collect(), MANY, MORE),
  ("names win", |n| (0..n).map(|i| (word(i), i + 1)).chain([("[a-z]+".to_string(), 0)]).collect(), MANY, MORE),
  ("longer and longer", |n| (0..n).map(|i| ("a".repeat(i + 1), tag(i, n))).collect(), MANY, MORE),
  ("up to", |n| (0..n).map(|i| (format!("[a-c]{{1,{}}}", i + 1), n - i)).collect(), SMALL, SMALL),
  ("multiples", |n| (0..n).map(|i| (format!("(?:a{{{}}})+", i + 2), tag(i, n))).collect(), &[1, 2, 3, 4, 5], &[6]),
  ("repeated text", |n| (0..n).map(|i| (word(i % 3), tag(i, n))).collect(), MANY, MORE),
  ("growing classes", |n| (0..n).map(|i| (format!("[{}-{}]", 'b', char::from_u32('c' as u32 + i as u32).unwrap()), n - i)).collect(), SMALL, MID),
  ("own start", |n| (0..n).map(|i| (format!("{}[{}-z]*!", char::from_u32(0x100 + i as u32).unwrap(), letter(i)), i)).collect(), SMALL, MID),
];

const LONG: &[usize] = &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
const MID: &[usize] = &[6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65];
const SMALL: &[usize] = &[4, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20];
const NEST: &[usize] = &[5, 10, 15, 16, 17, 20, 30, 31, 32, 33, 40, 60, 64, 65];
const MANY: &[usize] = &[5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100];
const MORE: &[usize] = &[127, 128, 129, 200, 255, 256, 257, 300];

/// Which members a check uses.
#[derive(Clone, Copy, PartialEq)]
pub enum Pick {
  All,
  /// Sets of more than one expression.
  Sets,
  /// Expressions over ASCII, which mean the same in byte mode.
  Ascii,
}

pub fn cases(t: Tier, pick: Pick) -> impl Iterator<Item = String> + Send {
  FAMILIES.iter().enumerate().flat_map(move |(k, (_, f, q, th))| {
    let mut v: Vec<usize> = q.to_vec();
    if t == Tier::Thorough {
      v.extend(th.iter());
    }
    v.sort();
    v.dedup();
    v.retain(|n| match pick {
      Pick::All => true,
      Pick::Sets => f(*n).len() > 1,
      Pick::Ascii => f(*n).iter().all(|(p, _)| p.is_ascii()),
    });
    v.into_iter().map(move |n| format!("scale {k} {n}"))
  })
}

pub fn describe(t: Tier) -> String {
  format!("{} families of expressions and sets that grow with a number (long literals, counts up to {}, up to {} alternatives or expressions, nesting up to 65)",
    FAMILIES.len(), 300, t.pick(100, 300))
}

pub fn set(rest: &str) -> (String, Set) {
  let v: Vec<usize> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
  let (name, f, ..) = FAMILIES[v[0]];
  (format!("{name} {}", v[1]), f(v[1]))
}

pub fn reference(s: &Set, mode: Mode) -> Vec<(Re, usize)> {
  s.iter().map(|(p, t)| (real_re(p, mode), *t)).collect()
}

pub fn builder(s: &Set) -> RegexBuilder<usize> {
  s.iter().fold(RegexBuilder::new(), |b, (p, t)| b.add(p, *t))
}

/// The whole product of a member with the derivative machine.
pub fn run<S: Sym>(rest: &str, par: Option<bool>, tags: bool, st: &mut Stats) -> Result<(), String> {
  let (name, s) = set(rest);
  let ctx = |m: String| format!("{name} ({:?}..): {m}", s.first().map(|x| x.0.chars().take(60).collect::<String>()));
  let pats = reference(&s, S::MODE);
  let mut m = eng::guard(|| S::build(builder(&s).enable_par(par))).map_err(ctx)?.map_err(|e| ctx(format!("build failed: {e}")))?;
  let mut p = Product::<S, usize>::new(&pats, std::iter::empty());
  st.sample(|| name.clone());
  eng::guard(|| p.explore(&mut m, tags, st)).map_err(ctx)?.map_err(ctx)
}
