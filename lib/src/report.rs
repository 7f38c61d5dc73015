//! C27 (histories), C28: counters and rendered diagnostics.

use crate::capture::capture;
use crate::{hex, unhex};
use eng::{guard, CaseIter, Check, Stats, Tier};
use laps::span::{FileType, Location, Span};
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use unicode_width::UnicodeWidthChar;

pub fn all() -> Vec<Check> {
  vec![
    Check { id: "C27", cases: c27_cases, run: c27_run, space: c27_space, serial: false },
    Check { id: "C28", cases: c28_cases, run: c28_run, space: c28_space, serial: false },
  ]
}

// ---------------------------------------------------------------------------------------------------------- C27

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
  Error,
  Fatal,
  Warning,
  RawError,
  RawFatal,
  RawWarning,
  Summary,
  /// Replace the span by a clone of itself and drop the original.
  Reclone,
  /// Replace the other span of the same source by a clone.
  CloneOver,
  Update,
  Updated,
  /// Extend the span by a span of the other source.
  EndFromOther,
  EndUpdated,
  Move,
}

const C27_OPS: &[(usize, Op)] = &[
  (0, Op::Error),
  (1, Op::Error),
  (2, Op::Error),
  (0, Op::Warning),
  (1, Op::Warning),
  (2, Op::RawWarning),
  (0, Op::Fatal),
  (1, Op::RawFatal),
  (1, Op::RawError),
  (2, Op::Fatal),
  (0, Op::Summary),
  (0, Op::CloneOver),
  (1, Op::Reclone),
  (1, Op::Updated),
  (0, Op::Update),
  (0, Op::EndFromOther),
  (2, Op::EndUpdated),
  (1, Op::Move),
];

fn c27_space(t: Tier) -> String {
  format!(
    "all histories of {} operations (depth {}) over {} operations on three spans of two sources (every kind of report, summary, clone, update, \
     extension by a span of the other source, replacement); all counters of all spans compared after every operation; 70,000 reports of \
     each kind on one source",
    t.pick(4, 5), t.pick(4, 5), C27_OPS.len()
  )
}

fn c27_cases(t: Tier) -> CaseIter {
  let d = t.pick(4, 5);
  let h = eng::words((0..C27_OPS.len()).collect(), 2, 2).map(move |w| format!("hist {d} {} {}", w[0], w[1]));
  Box::new(h.chain((0..6).map(|k| format!("many {k}"))))
}

fn loc(line: u32, col: u32) -> Location {
  Location { line, col }
}

fn returned(s: &Span) -> laps::span::Result<()> {
  laps::return_error!(s, "r{}", 1)
}

fn c27_hist(hist: &[usize], from: usize, st: &mut Stats) -> Result<(), String> {
  let mut s = [Span::new(FileType::Buffer), Span::new(FileType::Buffer), Span::new(FileType::Buffer)];
  s[1] = s[0].clone();
  let mut n = [(0usize, 0usize); 2];
  for (i, o) in hist.iter().enumerate() {
    let (k, op) = C27_OPS[*o];
    let src = if k == 2 { 1 } else { 0 };
    let bad = |m: String| {
      let h: Vec<_> = hist.iter().map(|o| C27_OPS[*o]).collect();
      Err(format!("operation {i} of {h:?}: {m}"))
    };
    match op {
      Op::Error => {
        let e = if k == 1 { returned(&s[k]).unwrap_err() } else { log_error!(s[k], "e{}", i) };
        if e.is_fatal() {
          return bad("a normal error is fatal".into());
        }
        n[src].0 += 1;
      }
      Op::Fatal => {
        if !log_fatal_error!(s[k], "e{}", i).is_fatal() {
          return bad("a fatal error is not fatal".into());
        }
        n[src].0 += 1;
      }
      Op::RawError => {
        if log_raw_error!(s[k], "e{}", i).is_fatal() {
          return bad("a normal error is fatal".into());
        }
        n[src].0 += 1;
      }
      Op::RawFatal => {
        if !log_raw_fatal_error!(s[k], "e{}", i).is_fatal() {
          return bad("a fatal error is not fatal".into());
        }
        n[src].0 += 1;
      }
      Op::Warning => {
        log_warning!(s[k], "w{}", i);
        n[src].1 += 1;
      }
      Op::RawWarning => {
        log_raw_warning!(s[k], "w{}", i);
        n[src].1 += 1;
      }
      Op::Summary => {
        let (_, out) = capture(|| s[k].log_summary());
        let out = plain(&out);
        let (e, w) = n[src];
        let mut words = vec![];
        if e > 0 {
          words.push(format!("{e} error"));
        }
        if w > 0 {
          words.push(format!("{w} warning"));
        }
        let digits = out.chars().filter(|c| c.is_ascii_digit()).count();
        if !words.iter().all(|x| out.contains(x.as_str())) || digits != words.len() {
          return bad(format!("the summary of {e} errors and {w} warnings is {out:?}"));
        }
      }
      Op::Reclone => s[k] = s[k].clone(),
      Op::CloneOver => s[1 - k] = s[k].clone(),
      Op::Update => s[k].update(&'\n'),
      Op::Updated => s[k] = s[k].clone().into_updated(&'x'),
      Op::EndFromOther => {
        let other = s[2].clone();
        s[k].update_end(other)
      }
      Op::EndUpdated => {
        let other = s[0].clone();
        s[k] = s[k].clone().into_end_updated(other)
      }
      Op::Move => s[k].update_loc(loc(0, 9)),
    }
    for (k, x) in s.iter().enumerate() {
      let want = n[if k == 2 { 1 } else { 0 }];
      if (x.error_num(), x.warning_num()) != want {
        return bad(format!("span {k} counts {} errors and {} warnings instead of {want:?}", x.error_num(), x.warning_num()));
      }
    }
    if i >= from {
      st.transitions += 1;
      st.state(&(n, s.iter().map(|x| format!("{x}")).collect::<Vec<_>>()));
    }
  }
  st.traces += 1;
  st.outcome(&n);
  Ok(())
}

fn c27_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  if f[0] == "many" {
    let k: usize = f[1].parse().unwrap();
    let s = Span::new(FileType::Buffer);
    for i in 1..=70_000usize {
      match k {
        0 => drop(log_error!(s, "x")),
        1 => drop(log_fatal_error!(s, "x")),
        2 => log_warning!(s, "x"),
        3 => drop(log_raw_error!(s, "x")),
        4 => drop(log_raw_fatal_error!(s, "x")),
        _ => log_raw_warning!(s, "x"),
      }
      let warn = k == 2 || k == 5;
      if (s.error_num(), s.warning_num()) != if warn { (0, i) } else { (i, 0) } {
        return Err(format!("after {i} reports: {} errors and {} warnings", s.error_num(), s.warning_num()));
      }
      st.transitions += 1;
      st.local_states += 1;
    }
    st.traces += 1;
    return Ok(());
  }
  let d: usize = f[1].parse().unwrap();
  let p: [usize; 2] = [f[2].parse().unwrap(), f[3].parse().unwrap()];
  st.sample(|| format!("all histories of {d} operations starting with {:?}, {:?}", C27_OPS[p[0]], C27_OPS[p[1]]));
  let mut last = vec![usize::MAX; d];
  for w in eng::words((0..C27_OPS.len()).collect::<Vec<_>>(), d - 2, d - 2) {
    let h: Vec<usize> = p.iter().copied().chain(w).collect();
    let from = h.iter().zip(&last).take_while(|(a, b)| a == b).count();
    c27_hist(&h, from, st)?;
    last = h;
  }
  Ok(())
}

/// Text without terminal colours.
fn plain(b: &[u8]) -> String {
  let s = String::from_utf8_lossy(b);
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c == '\u{1b}' {
      for c in it.by_ref() {
        if c.is_ascii_alphabetic() {
          break;
        }
      }
    } else {
      o.push(c);
    }
  }
  o
}

// ---------------------------------------------------------------------------------------------------------- C28

fn c28_space(t: Tier) -> String {
  format!(
    "all texts of <= {} characters over 'a', tab, U+4F60 (two cells), U+0301 (no cell), newline, and of <= {} with carriage returns, with every \
     span from one of their characters to a later one, rendered from a real file; texts of 2..=14, 101, 1001 and 100,001 lines with \
     spans over every run of lines near each power of ten; spans around lines 1,000,000 and 10,000,000 of longer files; lines of up to 66,000 columns with spans between columns near every power of two (narrow, wide, tabs); every pair of locations in a grid of lines 0..=4 and columns 0..=5 (in order or \
     not, inside the text or not) and at the extremes of the number range, on readable, empty, missing, truncated, non-UTF-8 files, directories, \
     buffers and standard input; all kinds of reports",
    t.pick(4, 6), t.pick(3, 4)
  )
}

fn c28_cases(t: Tier) -> CaseIter {
  let inside = eng::words(vec!['a', '\t', '\u{4f60}', '\u{301}', '\n'], 1, t.pick(4, 6)).map(|w| format!("inside {}", hex(w.into_iter().collect::<String>().as_bytes())));
  let cr = eng::words(vec!['a', '\r', '\n', '\u{4f60}'], 1, t.pick(3, 4)).map(|w| format!("inside {}", hex(w.into_iter().collect::<String>().as_bytes())));
  let lines = (2..=14usize).chain([101, 1001, 100_001]).map(|n| format!("lines {n}"));
  let cols = [70u32, 130, 300, 1100, 66_000].into_iter().flat_map(|n| ["a", "wide", "tabs"].into_iter().map(move |k| format!("columns {n} {k}")));
  let grid = KINDS.iter().flat_map(|k| (0..30).map(move |s| format!("grid {k} {s}")));
  let ext = KINDS.iter().filter(|k| **k != "dir").map(|k| format!("extreme {k}"));
  let huge = [1_000_001, 10_000_001].into_iter().map(|n| format!("huge {n}"));
  Box::new(huge.chain(inside).chain(cr).chain(lines).chain(cols).chain(grid).chain(ext))
}

const KINDS: &[&str] = &["text", "wide", "long", "empty", "missing", "badfirst", "badsecond", "dir", "buffer", "stdin"];

fn tmp(name: &str) -> PathBuf {
  std::env::temp_dir().join(format!("laps-c28-{}-{:?}-{name}", std::process::id(), std::thread::current().id()))
}

struct Temp(PathBuf);
impl Drop for Temp {
  fn drop(&mut self) {
    let _ = std::fs::remove_file(&self.0);
    let _ = std::fs::remove_dir(&self.0);
  }
}

fn span_of(ft: FileType, a: (u32, u32), b: (u32, u32)) -> Span {
  let mut s = Span::new(ft);
  let mut e = s.clone();
  s.update_loc(loc(a.0, a.1));
  e.update_loc(loc(b.0, b.1));
  s.update_end(e);
  s
}

const MSG: &str = "odd {message} %s";

/// Reports through the span and checks level, message and location; returns the lines after them.
fn report(s: &Span, name: &str, how: usize) -> Result<Vec<String>, String> {
  let (r, out) = capture(|| {
    guard(|| match how {
      0 => drop(log_error!(s, "{}", MSG)),
      1 => log_warning!(s, "{}", MSG),
      _ => drop(log_fatal_error!(s, "{}", MSG)),
    })
  });
  r?;
  let out = plain(&out);
  // (a carriage return of the source is part of its line)
  let mut lines: Vec<String> = out.split('\n').map(|l| l.to_string()).collect();
  let level = if how == 1 { "warning" } else { "error" };
  if lines.len() < 2 || lines[0] != format!("{level}: {MSG}") {
    return Err(format!("the report starts with {:?} instead of the level {level} and the message", lines.first()));
  }
  let at = format!("{name}:{}:{}", s.start().line, s.start().col);
  if !lines[1].trim().ends_with(&at) || lines[1].trim() != format!("at {at}") {
    return Err(format!("the location is shown as {:?} instead of {at:?}", lines[1]));
  }
  lines.drain(..2);
  while lines.last().map_or(false, |l| l.is_empty()) {
    lines.pop();
  }
  Ok(lines)
}

fn width(c: char, tab: usize) -> usize {
  match c {
    '\t' => tab,
    c => c.width().unwrap_or(0),
  }
}

fn cells(s: &str) -> usize {
  s.chars().map(|c| width(c, 1)).sum()
}

/// Checks the rendering of a span that runs from one character of the text to another.
fn rendering(rows: &[String], text: &[String], a: (u32, u32), b: (u32, u32)) -> Result<(), String> {
  let mut last = String::new();
  for tab in 1..=8 {
    match rendering_with(rows, text, a, b, tab) {
      Ok(()) => return Ok(()),
      Err(e) if tab == 1 || last.is_empty() => last = e,
      Err(e) if tab == 2 => last = e,
      Err(_) => {}
    }
  }
  Err(last)
}

fn rendering_with(rows: &[String], text: &[String], a: (u32, u32), b: (u32, u32), tab: usize) -> Result<(), String> {
  let all: String = rows.join("\n");
  let err = |m: String| Err(format!("{m}:\n{all}"));
  // the gutter: a number or blanks, then a bar; bars must be aligned
  let mut bars = vec![];
  let mut parsed: Vec<(Option<u32>, String)> = vec![];
  for r in rows {
    let Some((g, rest)) = r.split_once('|') else { return err(format!("row {r:?} has no gutter")) };
    bars.push(g.len());
    let g = g.trim();
    let n = if g.is_empty() || g.chars().all(|c| c == '.') {
      None
    } else {
      match g.parse() {
        Ok(n) => Some(n),
        Err(_) => return err(format!("row {r:?} is numbered {g:?}")),
      }
    };
    parsed.push((n, rest.to_string()));
  }
  if bars.iter().any(|b| *b != bars[0]) {
    return err("the rows are not aligned".into());
  }
  let expand = |l: &str| l.replace('\t', &" ".repeat(tab));
  let src = |n: u32| expand(&text[n as usize - 1]);
  // the cells of a character of a line: first and one past the last
  let at = |p: (u32, u32)| {
    let l: Vec<char> = text[p.0 as usize - 1].chars().collect();
    let from: usize = l[..p.1 as usize - 1].iter().map(|c| width(*c, tab)).sum();
    (from, from + width(l[p.1 as usize - 1], tab))
  };
  // where the text of a numbered row starts (after the bar)
  let mut shown: BTreeMap<u32, usize> = BTreeMap::new();
  let mut prev = 0;
  for (n, rest) in &parsed {
    let Some(n) = n else { continue };
    if *n <= prev || *n < a.0 || *n > b.0 {
      return err(format!("line {n} is shown out of place"));
    }
    prev = *n;
    let want = src(*n);
    if !rest.ends_with(&want) {
      return err(format!("line {n} is shown as {rest:?} instead of {want:?}"));
    }
    let lead = &rest[..rest.len() - want.len()];
    if lead.chars().any(|c| c != ' ' && c != '|') || lead.is_empty() {
      return err(format!("line {n} is shown as {rest:?} instead of {want:?}"));
    }
    shown.insert(*n, lead.chars().count());
  }
  let mid = b.0.saturating_sub(a.0).saturating_sub(1);
  if !shown.contains_key(&a.0) || !shown.contains_key(&b.0) || (mid <= 4 && shown.len() as u32 != b.0 - a.0 + 1) {
    return err(format!("lines {:?} of {}..={} are shown", shown.keys(), a.0, b.0));
  }
  if shown.values().any(|o| *o != shown[&a.0]) {
    return err("the lines are not aligned".into());
  }
  let off = shown[&a.0];
  // the cells with a caret in the row after a numbered row (relative to the line's text)
  let carets = |n: u32| -> Vec<isize> {
    let i = parsed.iter().position(|(k, _)| *k == Some(n)).unwrap();
    match parsed.get(i + 1) {
      Some((None, rest)) => {
        let mut pos = -(off as isize);
        let mut v = vec![];
        for c in rest.chars() {
          if c == '^' {
            v.push(pos);
          }
          pos += width(c, 1) as isize;
        }
        v
      }
      _ => vec![],
    }
  };
  if a.0 == b.0 {
    let (from, to) = (at(a).0, at(b).1);
    let want: Vec<isize> = if from == to { vec![from as isize] } else { (from..to).map(|c| c as isize).collect() };
    let got = carets(a.0);
    if got != want {
      return err(format!("cells {got:?} are marked instead of {want:?}"));
    }
  } else {
    let got = carets(a.0);
    let want = at(a).0 as isize;
    if got != [want] {
      return err(format!("cells {got:?} of the first line are marked instead of {want}"));
    }
    let got = carets(b.0);
    let want = at(b).1 as isize - 1;
    if got.len() != 1 || (want >= 0 && got != [want]) {
      return err(format!("cells {got:?} of the last line are marked instead of {want}"));
    }
  }
  let total: usize = rows.iter().zip(&parsed).filter(|(_, p)| p.0.is_none()).map(|(r, _)| r.matches('^').count()).sum();
  let expected = if a.0 == b.0 { carets(a.0).len() } else { 2 };
  if total != expected {
    return err("there are more marks".into());
  }
  let _ = cells;
  Ok(())
}

/// The lines of a text and the location of every character that has a column.
fn layout(text: &str) -> (Vec<String>, Vec<(u32, u32)>) {
  let mut at = vec![];
  let (mut l, mut c) = (1, 0);
  for ch in text.chars() {
    if ch == '\n' {
      l += 1;
      c = 0;
    } else {
      c += 1;
      at.push((l, c));
    }
  }
  let lines: Vec<String> = text.split('\n').map(|l| l.to_string()).collect();
  (lines, at)
}

/// A carriage return before a newline belongs to the end of the line.
fn shown_lines(lines: &[String]) -> Vec<String> {
  let n = lines.len();
  lines.iter().enumerate().map(|(i, l)| if i + 1 < n { l.strip_suffix('\r').unwrap_or(l).to_string() } else { l.clone() }).collect()
}

fn with_file<T>(name: &str, content: &[u8], f: impl FnOnce(&Path) -> T) -> T {
  let t = Temp(tmp(name));
  std::fs::write(&t.0, content).unwrap();
  f(&t.0)
}

fn in_text(text: &str, path: &Path, pairs: &[((u32, u32), (u32, u32))], st: &mut Stats) -> Result<(), String> {
  let (lines, _) = layout(text);
  let lines = shown_lines(&lines);
  for (a, b) in pairs {
    let s = span_of(FileType::File(path.into()), *a, *b);
    for how in 0..2 {
      st.traces += 1;
      let r = report(&s, &path.display().to_string(), how)
        .and_then(|rows| {
          st.transitions += rows.len() as u64 + 2;
          // a carriage return that ends its line is not shown
          let gone = |p: &(u32, u32)| p.1 as usize > lines[p.0 as usize - 1].chars().count();
          if gone(a) || gone(b) {
            Ok(())
          } else {
            rendering(&rows, &lines, *a, *b)
          }
        });
      r.map_err(|m| format!("span {s} of {:?}: {m}", if text.len() < 200 { text } else { "a long text" }))?;
    }
    st.state(&(text, a, b));
  }
  Ok(())
}

fn c28_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  match f[0] {
    "inside" => {
      let text = String::from_utf8(unhex(f[1])).unwrap();
      let (_, at) = layout(&text);
      let mut pairs = vec![];
      for (i, a) in at.iter().enumerate() {
        for b in &at[i..] {
          pairs.push((*a, *b));
        }
      }
      st.sample(|| format!("{} spans of {text:?}", pairs.len()));
      st.outcome(&pairs);
      with_file("t", text.as_bytes(), |p| in_text(&text, p, &pairs, st))
    }
    "columns" => {
      // three lines of n characters each; a pattern without a short period of a power of two
      let n: u32 = f[1].parse().unwrap();
      let pat: &[char] = match f[2] {
        "a" => &['a'],
        "wide" => &['a', '\u{4f60}', 'b', '\t', 'c', '\u{301}', 'd'],
        _ => &['\t', '\u{4f60}', '\u{e9}'],
      };
      let line: String = pat.iter().cycle().take(n as usize).collect();
      let text = format!("{line}\n{line}\n{line}\n");
      let mut marks: Vec<u32> = vec![1, 2, n - 1, n];
      for p in [64, 80, 100, 128, 200, 256, 512, 1024, 65_536] {
        marks.extend([p - 1, p, p + 1, p + 2].into_iter().filter(|q| *q <= n));
      }
      marks.sort();
      marks.dedup();
      let mut pairs = vec![];
      for c in &marks {
        for d in &marks {
          if c <= d {
            pairs.push(((2, *c), (2, *d)));
          }
          if n < 2000 || (c + d) % 5 == 0 {
            pairs.push(((1, *c), (2, *d)));
            pairs.push(((1, *c), (3, *d)));
          }
        }
      }
      if n > 2000 {
        pairs.retain(|(a, b)| (a.1 + b.1) % 3 == 0 || b.1 > 60_000 && b.1 - 20 < a.1);
      }
      st.outcome(&pairs);
      with_file("c", text.as_bytes(), |p| in_text(&text, p, &pairs, st))
    }
    "lines" => {
      let n: u32 = f[1].parse().unwrap();
      let text: String = (1..=n).map(|i| format!("\t{}x{i}\n", ["", "a", "\u{4f60}"][i as usize % 3])).collect();
      let mut marks: Vec<u32> = if n <= 14 { (1..=n).collect() } else { vec![] };
      for p in [1, 10, 100, 1000, 10_000, 100_000] {
        for q in [p - 1, p, p + 1, p + 5, p + 6] {
          if n > 14 && q >= 1 && q <= n {
            marks.push(q);
          }
        }
      }
      marks.sort();
      marks.dedup();
      let mut pairs = vec![];
      for a in &marks {
        for b in &marks {
          if b < a || (n > 2000 && b > &(a + 7) && a % 10 != 0) {
            continue;
          }
          for c in 1..=2 {
            for d in 1..=2 {
              if a < b || c <= d {
                pairs.push(((*a, c), (*b, d)));
              }
            }
          }
        }
      }
      with_file("l", text.as_bytes(), |p| in_text(&text, p, &pairs, st))
    }
    "huge" => {
      // almost all lines are empty, so that a report takes little
      let n: u32 = f[1].parse().unwrap();
      let marks = n - 4..=n;
      let text: String = (1..=n).map(|i| if marks.contains(&i) { format!("\tab{i}\n") } else { "\n".to_string() }).collect();
      let mut pairs = vec![];
      for a in marks.clone() {
        pairs.push(((a, 2), (a, 3)));
        if a < n {
          pairs.push(((a, 2), (a + 1, 3)));
        }
      }
      pairs.push(((n - 4, 1), (n, 2)));
      with_file("h", text.as_bytes(), |p| in_text(&text, p, &pairs, st))
    }
    k => {
      let kind = f[1];
      let t = Temp(tmp(kind));
      let (ft, name, text) = match kind {
        "buffer" => (FileType::Buffer, "<buffer>".to_string(), None),
        "stdin" => (FileType::Stdin, "<stdin>".to_string(), None),
        _ => {
          let text: Option<&[u8]> = match kind {
            "text" => Some(b"ab\n\nc\tde"),
            "wide" => Some("\u{4f60}\t\u{301}\n\u{301}\u{4f60}\n\u{4f60}".as_bytes()),
            "long" => Some(b"1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n"),
            "empty" => Some(b""),
            "badfirst" => Some(b"a\xff\nbc\nd"),
            "badsecond" => Some(b"ab\n\xff\xc3\nd\n"),
            _ => None,
          };
          match text {
            Some(x) => std::fs::write(&t.0, x).unwrap(),
            None if kind == "dir" => std::fs::create_dir(&t.0).unwrap(),
            None => {}
          }
          let text = text.and_then(|x| std::str::from_utf8(x).ok());
          (FileType::File(t.0.clone().into()), t.0.display().to_string(), text)
        }
      };
      st.outcome(&(kind, k));
      let mut locs: Vec<(u32, u32)> = vec![];
      if k == "grid" {
        for l in 0..=4 {
          for c in 0..=5 {
            locs.push((l, c));
          }
        }
      } else {
        let v = [0, 1, 2, 3, 65_535, 65_536, 1 << 24, u32::MAX / 2, u32::MAX - 1, u32::MAX];
        for l in v {
          for c in v {
            locs.push((l, c));
          }
        }
      }
      let starts: Vec<(u32, u32)> = if k == "grid" { vec![locs[f[2].parse::<usize>().unwrap()]] } else { locs.clone() };
      let (lines, at) = layout(text.unwrap_or(""));
      for a in starts {
        for b in &locs {
          // (the row of marks of a span with a huge end is as long as the line, that of a huge range of lines is elided)
          let s = span_of(ft.clone(), a, *b);
          for how in 0..3 {
            st.traces += 1;
            let rows = report(&s, &name, how).map_err(|m| format!("span {s} of {kind} {text:?}: {m}"))?;
            st.transitions += rows.len() as u64 + 2;
            if at.contains(&a) && at.contains(b) && a <= *b {
              rendering(&rows, &lines, a, *b).map_err(|m| format!("span {s} of {kind} {text:?}: {m}"))?;
            }
          }
          st.state(&(kind, a, b));
        }
      }
      // raw reports
      let s = span_of(ft.clone(), (1, 1), (1, 1));
      for (how, level) in ["error", "error", "warning"].iter().enumerate() {
        let (r, out) = capture(|| {
          guard(|| match how {
            0 => drop(log_raw_error!(s, "{}", MSG)),
            1 => drop(log_raw_fatal_error!(s, "{}", MSG)),
            _ => log_raw_warning!(s, "{}", MSG),
          })
        });
        r?;
        if plain(&out).trim_end() != format!("{level}: {MSG}") {
          return Err(format!("a raw report is shown as {:?}", plain(&out)));
        }
      }
      Ok(())
    }
  }
}
