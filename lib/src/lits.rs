//! C18, C19: literal helpers against decoders written from their documentation.
use crate::{hex, unhex};
use eng::{CaseIter, Check, Stats, Tier};
use laps::lexer::{char_literal, int_literal, signed_int_literal, str_literal};

pub fn all() -> Vec<Check> {
  vec![
    Check { id: "C18", cases: c18_cases, run: c18_run, space: c18_space, serial: false },
    Check { id: "C19", cases: c19_cases, run: c19_run, space: c19_space, serial: false },
  ]
}

// ---------------------------------------------------------------------------------------------------------- C18

/// What a text denotes: nothing, or a magnitude (`None`: larger than any type holds).
fn magnitude(s: &[char]) -> Option<Option<u128>> {
  let (radix, digits) = match s {
    ['0', 'x', d @ ..] => (16, d),
    ['0', 'o', d @ ..] => (8, d),
    ['0', 'b', d @ ..] => (2, d),
    d => (10, d),
  };
  if digits.is_empty() {
    return None;
  }
  let mut v = Some(0u128);
  for c in digits {
    let d = match c {
      '0'..='9' => *c as u32 - '0' as u32,
      'a'..='f' => *c as u32 - 'a' as u32 + 10,
      'A'..='F' => *c as u32 - 'A' as u32 + 10,
      _ => return None,
    };
    if d >= radix {
      return None;
    }
    v = v.and_then(|v| v.checked_mul(radix as u128)).and_then(|v| v.checked_add(d as u128));
  }
  Some(v)
}

fn signed(s: &[char]) -> Option<(bool, Option<u128>)> {
  match s {
    ['-', d @ ..] => magnitude(d).map(|m| (true, m)),
    ['+', d @ ..] => magnitude(d).map(|m| (false, m)),
    d => magnitude(d).map(|m| (false, m)),
  }
}

macro_rules! check_types {
  ($s:expr, $m:expr, $sm:expr, $($t:ident $signed:literal),*) => {$(
    let fit = |neg: bool, mag: Option<u128>| -> Option<$t> {
      let mag = mag?;
      let max = <$t>::MAX as u128;
      let ok = if $signed && neg { mag <= max + 1 } else { mag <= max };
      // a negative literal of an unsigned type is documented to wrap around
      ok.then_some(if neg { mag.wrapping_neg() as $t } else { mag as $t })
    };
    let want = $m.and_then(|m| fit(false, m));
    let got = int_literal::<$t>($s);
    if got != want {
      return Err(format!("int_literal::<{}>({:?}) = {got:?} instead of {want:?}", stringify!($t), $s));
    }
    let want = $sm.and_then(|(n, m)| fit(n, m));
    let got = signed_int_literal::<$t>($s);
    if got != want {
      return Err(format!("signed_int_literal::<{}>({:?}) = {got:?} instead of {want:?}", stringify!($t), $s));
    }
  )*};
}

fn int_text(s: &str, st: &mut Stats) -> Result<(), String> {
  let v: Vec<char> = s.chars().collect();
  let (m, sm) = (magnitude(&v), signed(&v));
  st.local_states += 1;
  st.transitions += v.len() as u64;
  st.traces += 24;
  check_types!(s, m, sm, i8 true, i16 true, i32 true, i64 true, i128 true, isize true, u8 false, u16 false, u32 false, u64 false, u128 false, usize false);
  if let Some((n, m)) = sm {
    st.outcome(&(n, m));
  } else {
    st.outcome(&"refused");
  }
  Ok(())
}

const ALPHA: &[char] =
  &['0', '1', '2', '7', '8', '9', 'a', 'f', 'g', 'A', 'F', 'x', 'X', 'o', 'O', 'b', 'B', '+', '-', '_', ' ', '\u{e9}', '\u{ff11}'];

fn c18_space(t: Tier) -> String {
  format!(
    "all texts of <= {} characters over {} characters (digits, prefixes in both cases, signs, separators, non-ASCII digits), every value \
     0..=70000 in all radices and with every sign, and all values within 3 of every power of two up to 2^130 in all radices, with signs and \
     leading zeros; zeros, ones and largest digits in runs of up to 700 digits followed by nothing, a small value or a wrong digit; each through both helpers at all twelve integer types",
    t.pick(4, 5), ALPHA.len()
  )
}

fn c18_cases(t: Tier) -> CaseIter {
  let n = t.pick(4, 5);
  // a case is a prefix of two characters with all continuations
  let texts = std::iter::once("short".to_string())
    .chain(eng::words(ALPHA.to_vec(), 2, 2).map(move |w| format!("words {} {}", n - 2, hex(w.iter().collect::<String>().as_bytes()))));
  let vals = (0..70).map(|k| format!("values {}", k * 1000));
  let pows = (0..=130).map(|k| format!("power {k}"));
  Box::new(texts.chain(vals).chain(pows).chain(std::iter::once("runs".to_string())))
}

/// Digits of a number, most significant first.
type Digits = Vec<u32>;

fn power_of_two(k: usize, radix: u32) -> Digits {
  let mut d = vec![1u32];
  for _ in 0..k {
    let mut c = 0;
    for x in d.iter_mut().rev() {
      let v = *x * 2 + c;
      *x = v % radix;
      c = v / radix;
    }
    if c > 0 {
      d.insert(0, c);
    }
  }
  d
}

fn add(d: &Digits, radix: u32, k: i32) -> Option<Digits> {
  let mut d = d.clone();
  let mut c = k;
  for x in d.iter_mut().rev() {
    let v = *x as i32 + c;
    *x = v.rem_euclid(radix as i32) as u32;
    c = v.div_euclid(radix as i32);
  }
  match c {
    0 => Some(d),
    c if c > 0 => {
      d.insert(0, c as u32);
      Some(d)
    }
    _ => None,
  }
}

fn forms(d: &Digits, radix: u32, f: &mut dyn FnMut(&str) -> Result<(), String>) -> Result<(), String> {
  let prefix = match radix {
    2 => "0b",
    8 => "0o",
    16 => "0x",
    _ => "",
  };
  for up in [false, true] {
    let digits: String = d
      .iter()
      .map(|x| {
        let c = std::char::from_digit(*x, 36).unwrap();
        if up { c.to_ascii_uppercase() } else { c }
      })
      .collect();
    for sign in ["", "-", "+"] {
      for zeros in ["", "0", "00000000000000000000000000000000000000000"] {
        f(&format!("{sign}{prefix}{zeros}{digits}"))?;
      }
    }
    if radix != 16 {
      break;
    }
  }
  Ok(())
}

fn c18_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  st.sample(|| case.to_string());
  match f[0] {
    "short" => {
      for w in eng::words(ALPHA.to_vec(), 0, 1) {
        int_text(&w.iter().collect::<String>(), st)?;
      }
      Ok(())
    }
    "words" => {
      let n: usize = f[1].parse().unwrap();
      let p = String::from_utf8(unhex(f[2])).unwrap();
      for w in eng::words(ALPHA.to_vec(), 0, n) {
        let s: String = p.chars().chain(w).collect();
        int_text(&s, st)?;
      }
      Ok(())
    }
    "values" => {
      let from: u32 = f[1].parse().unwrap();
      for v in from..from + 1000 {
        for radix in [2, 8, 10, 16] {
          let mut d = vec![];
          let mut x = v;
          while x > 0 || d.is_empty() {
            d.insert(0, x % radix);
            x /= radix;
          }
          forms(&d, radix, &mut |s| int_text(s, st))?;
        }
      }
      Ok(())
    }
    "runs" => {
      for n in (1..=140).chain([255, 256, 257, 512, 700]) {
        for p in ["", "0x", "0o", "0b"] {
          for d in ["0", "1", "7", "9", "f", "F"] {
            for t in ["", "0", "1", "8", "a", "g", "-1", "_", " "] {
              for s in ["", "-", "+"] {
                int_text(&format!("{s}{p}{}{t}", d.repeat(n)), st)?;
              }
            }
          }
        }
      }
      Ok(())
    }
    _ => {
      let k: usize = f[1].parse().unwrap();
      for radix in [2, 8, 10, 16] {
        let p = power_of_two(k, radix);
        for off in -3..=3 {
          if let Some(d) = add(&p, radix, off) {
            forms(&d, radix, &mut |s| int_text(s, st))?;
          }
        }
        // one digit more
        for x in 0..radix {
          let mut d = p.clone();
          d.push(x);
          forms(&d, radix, &mut |s| int_text(s, st))?;
        }
      }
      Ok(())
    }
  }
}

// ---------------------------------------------------------------------------------------------------------- C19

/// Decodes one character or escape at the start of `s`: the character and the rest.
fn one(s: &[char]) -> Option<(char, &[char])> {
  let hexd = |c: &char| c.is_ascii_hexdigit().then(|| c.to_digit(16).unwrap());
  match s {
    ['\\', 'r', t @ ..] => Some(('\r', t)),
    ['\\', 'n', t @ ..] => Some(('\n', t)),
    ['\\', 't', t @ ..] => Some(('\t', t)),
    ['\\', '0', t @ ..] => Some(('\0', t)),
    ['\\', c @ ('\\' | '\'' | '"'), t @ ..] => Some((*c, t)),
    ['\\', 'x', a, b, t @ ..] => Some((char::from_u32(hexd(a)? * 16 + hexd(b)?)?, t)),
    ['\\', 'u', '{', t @ ..] => {
      let n = t.iter().position(|c| *c == '}')?;
      if n == 0 {
        return None;
      }
      let mut v = 0u64;
      for c in &t[..n] {
        v = (v * 16 + hexd(c)? as u64).min(1 << 40);
      }
      Some((char::from_u32(u32::try_from(v).ok()?)?, &t[n + 1..]))
    }
    ['\\', ..] | ['\n' | '\r' | '\t', ..] | [] => None,
    [c, t @ ..] => Some((*c, t)),
  }
}

fn want_str(s: &[char]) -> Option<String> {
  let ['"', rest @ ..] = s else { return None };
  let mut t = rest;
  let mut o = String::new();
  loop {
    match t {
      ['"'] => return Some(o),
      ['"', ..] => return None,
      _ => {
        let (c, r) = one(t)?;
        o.push(c);
        t = r;
      }
    }
  }
}

fn want_char(s: &[char]) -> Option<char> {
  let ['\'', t @ ..] = s else { return None };
  if t.first() == Some(&'\'') {
    return None;
  }
  let (c, r) = one(t)?;
  (r == ['\'']).then_some(c)
}

fn lit_text(s: &str, st: &mut Stats) -> Result<(), String> {
  let v: Vec<char> = s.chars().collect();
  st.local_states += 1;
  st.transitions += v.len() as u64;
  st.traces += 2;
  let (w, g) = (want_str(&v), str_literal(s));
  if w != g {
    return Err(format!("str_literal({s:?}) = {g:?} instead of {w:?}"));
  }
  let (w, g) = (want_char(&v), char_literal(s));
  if w != g {
    return Err(format!("char_literal({s:?}) = {g:?} instead of {w:?}"));
  }
  Ok(())
}

const LETTERS: &[char] = &['"', '\'', '\\', 'n', 'r', 'x', 'u', '{', '}', '0', '1', 'd', 'F', 'z', '\u{e9}', '\n', '\u{1f602}'];

fn c19_space(t: Tier) -> String {
  format!(
    "all texts of <= {n} characters over {k} characters (quotes, backslash, escape letters, braces, hex digits, a newline, multi-byte), bare \
     and as the body between double and single quotes; every escape \\xHH over all digit pairs; \\u{{H}} for every value 0..=0x120000 in both \
     cases and with up to 6 digits, and values around 2^32 and 2^64; every scalar value raw and after a backslash; up to 2000 repetitions of \
     every sequence of one or two out of 22 pieces (characters, escapes, broken escapes), alone and with a third piece in front, behind or \
     both; escapes with up to 300 leading zeros",
    n = t.pick(5, 6), k = LETTERS.len()
  )
}

fn c19_cases(t: Tier) -> CaseIter {
  let n = t.pick(5, 6);
  let texts = std::iter::once("short".to_string())
    .chain(eng::words(LETTERS.to_vec(), 2, 2).map(move |w| format!("words {} {}", n - 2, hex(w.iter().collect::<String>().as_bytes()))));
  let esc = (0..0x120).map(|k| format!("code {k}"));
  let pump = (0..PIECES.len()).map(|k| format!("pump {k}"));
  Box::new(texts.chain(pump).chain(std::iter::once("hex".to_string())).chain(std::iter::once("big".to_string())).chain(esc))
}

const PIECES: &[&str] = &[
  "a", "0", "\u{e9}", "\u{1f602}", "\\n", "\\0", "\\\\", "\\\"", "\\'", "\\x41", "\\u{41}", "\\u{1F602}", "\"", "'", "\\", "\\x4", "\\u{", "\\u{}", "\\q", "\n", "}", "\\u{d800}",
];

fn contexts(body: &str, st: &mut Stats) -> Result<(), String> {
  for (a, b) in [("\"", "\""), ("'", "'"), ("\"a", "b\""), ("'", "a'"), ("'a", "'"), ("\"", "\"\""), ("\"", "'"), ("'", "\"")] {
    lit_text(&format!("{a}{body}{b}"), st)?;
  }
  Ok(())
}

fn c19_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  st.sample(|| case.to_string());
  st.outcome(&case);
  let body = |s: String, st: &mut Stats| -> Result<(), String> {
    lit_text(&s, st)?;
    lit_text(&format!("\"{s}\""), st)?;
    lit_text(&format!("'{s}'"), st)
  };
  match f[0] {
    "short" => {
      for w in eng::words(LETTERS.to_vec(), 0, 1) {
        body(w.into_iter().collect(), st)?;
      }
    }
    "words" => {
      let n: usize = f[1].parse().unwrap();
      let p = String::from_utf8(unhex(f[2])).unwrap();
      for w in eng::words(LETTERS.to_vec(), 0, n) {
        body(p.chars().chain(w).collect(), st)?;
      }
    }
    "pump" => {
      let u = PIECES[f[1].parse::<usize>().unwrap()];
      for v in std::iter::once("").chain(PIECES.iter().copied()) {
        for n in [2usize, 3, 7, 8, 31, 32, 33, 127, 128, 129, 255, 256, 257, 2000] {
          let mid = format!("{u}{v}").repeat(n);
          lit_text(&format!("\"{mid}\""), st)?;
          lit_text(&format!("'{mid}'"), st)?;
          lit_text(&format!("\"{mid}"), st)?;
          if n == 2 || n == 33 || n == 256 {
            for w in PIECES {
              lit_text(&format!("\"{mid}{w}\""), st)?;
              lit_text(&format!("\"{w}{mid}\""), st)?;
              lit_text(&format!("\"{w}{mid}{w}\""), st)?;
            }
          }
        }
      }
    }
    "hex" => {
      let ds: Vec<char> = ('0'..='9').chain('a'..='g').chain('A'..='G').chain(['"', '\'', '\\', '\u{ff11}', '+', '-', ' ']).collect();
      for a in &ds {
        for b in &ds {
          contexts(&format!("\\x{a}{b}"), st)?;
          contexts(&format!("\\u{{{a}{b}}}"), st)?;
          contexts(&format!("\\u{a}{b}"), st)?;
        }
        contexts(&format!("\\x{a}"), st)?;
        contexts(&format!("\\u{{{a}"), st)?;
        contexts(&format!("\\u{{{a}}}"), st)?;
      }
      contexts("\\u{}", st)?;
      contexts("\\u{", st)?;
      contexts("\\x", st)?;
      contexts("", st)?;
      for n in 1..=6 {
        contexts(&format!("\\u{{{}}}", "0".repeat(n)), st)?;
      }
    }
    "big" => {
      for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 128, 256, 300] {
        for d in ["", "0", "1", "41", "d7ff", "d800", "dfff", "e000", "ffff", "10000", "10ffff", "10FFFF", "110000", "g"] {
          contexts(&format!("\\u{{{}{d}}}", "0".repeat(n)), st)?;
        }
      }
      for base in [1u128 << 32, 1 << 33, 1 << 36, 1 << 63, 1 << 64, 1 << 65, 1 << 68, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0xff11_0000] {
        for off in [0u128, 0x41, 0xd800, 0xe000, 0x10ffff, 0x110000] {
          contexts(&format!("\\u{{{:x}}}", base + off), st)?;
          contexts(&format!("\\u{{{:X}}}", base + off), st)?;
        }
      }
    }
    _ => {
      let hi: u32 = f[1].parse().unwrap();
      for k in hi << 12..(hi + 1) << 12 {
        for s in [format!("\\u{{{k:x}}}"), format!("\\u{{{k:X}}}"), format!("\\u{{{k:06x}}}")] {
          lit_text(&format!("\"{s}\""), st)?;
          lit_text(&format!("'{s}'"), st)?;
        }
        if let Some(c) = char::from_u32(k) {
          for s in [format!("{c}"), format!("\\{c}")] {
            // `\x` and `\u` need more
            lit_text(&format!("\"{s}\""), st)?;
            lit_text(&format!("\"a{s}b\""), st)?;
            lit_text(&format!("'{s}'"), st)?;
            lit_text(&format!("'{s}"), st)?;
          }
        }
      }
    }
  }
  Ok(())
}
