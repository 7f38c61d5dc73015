//! Every history of reports against a model, and every observation against the reference.
use crate::capture::capture;
use crate::obs;
use eng::{CaseIter, Stats, Tier};
use laps::span::{Error, FileType, Location, Result, Span};
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning, return_error};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdout, Command, Stdio};

#[cfg(feature = "macros")]
const REF: &str = "ref_macros";
#[cfg(not(feature = "macros"))]
const REF: &str = "ref_bare";

#[cfg(feature = "macros")]
const FES: &[(&str, usize, usize)] = &[("hand", 5, 6), ("text", 5, 6), ("bytes", 5, 6)];
#[cfg(not(feature = "macros"))]
const FES: &[(&str, usize, usize)] = &[("hand", 5, 6)];

pub fn space(t: Tier) -> String {
  format!(
    "{}: all histories of {} operations (reports by every method and every macro, summaries, clones, location changes, on three spans of two sources; \
     four messages, three kinds of source) with result, printed output and both totals of every source after every operation; \
     front ends {} on all texts of <= {} pieces (with refused tokens, invalid UTF-8 and failing sources), each result, message and total as in the \
     configuration with the logger",
    if cfg!(feature = "macros") { "configuration {macros}" } else { "configuration {}" },
    t.pick(4, 5),
    FES.iter().map(|f| f.0).collect::<Vec<_>>().join(", "),
    t.pick(FES[0].1, FES[0].2),
  )
}

pub fn cases(t: Tier) -> CaseIter {
  let ops = || (0..NOPS).collect::<Vec<_>>();
  let n = t.pick(4, 5);
  let hist = std::iter::once("hist 1".to_string()).chain(eng::words(ops(), n - 2, n - 2).map(|w| format!("hist 2{}", join(&w))));
  let mut fe: Vec<Box<dyn Iterator<Item = String> + Send>> = vec![];
  for &(f, q, th) in FES {
    let n = t.pick(q, th);
    let p: Vec<usize> = (0..obs::pieces(f).len()).collect();
    // up to two pieces, then blocks of three lengths
    fe.push(Box::new(std::iter::once(format!("{f} 2"))));
        fe.push(Box::new((3..=n).step_by(3).flat_map(move |k| {
      let more = 2.min(n - k);
      
      eng::words(p.clone(), k, k).map(move |w| format!("{f} {more}{}", join(&w)))
    })));
  }
  Box::new(hist.chain(fe.into_iter().flatten()))
}

fn join(w: &[usize]) -> String {
  w.iter().map(|i| format!(" {i}")).collect()
}

/// The reference process of this worker.
struct Reference {
  _child: Child,
  to: std::process::ChildStdin,
  from: BufReader<ChildStdout>,
}

thread_local! {
  static SERVER: RefCell<Option<Reference>> = const { RefCell::new(None) };
}

fn expected(case: &str) -> Vec<String> {
  SERVER.with(|s| {
    let mut s = s.borrow_mut();
    let r = s.get_or_insert_with(|| {
      let exe = std::env::current_exe().unwrap().with_file_name(REF);
      let mut child = Command::new(exe)
        .env("NO_COLOR", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| eng::harness_error(&format!("no reference: {e}")));
      Reference { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), _child: child }
    });
    let mut out = vec![];
    if writeln!(r.to, "{case}").is_err() {
      eng::harness_error("the reference ended");
    }
    loop {
      let mut l = String::new();
      if r.from.read_line(&mut l).unwrap_or(0) == 0 {
        eng::harness_error("the reference ended");
      }
      let l = l.trim_end_matches('\n');
      if l == "." {
        return out;
      }
      out.push(l.to_string());
    }
  })
}

pub fn run(case: &str, st: &mut Stats) -> std::result::Result<(), String> {
  if let Some(c) = case.strip_prefix("hist ") {
    let mut it = c.split(' ').map(|x| x.parse::<usize>().unwrap());
    let more = it.next().unwrap();
    let pre: Vec<usize> = it.collect();
    for w in eng::words((0..NOPS).collect::<Vec<_>>(), 0, more) {
      if w.is_empty() && !pre.is_empty() {
        continue;
      }
      let mut h = pre.clone();
      h.extend(w);
      for source in 0..3 {
        history(&h, source, st).map_err(|e| format!("{:?} (source {source}): {e}", h.iter().map(|o| op_name(*o)).collect::<Vec<_>>()))?;
      }
    }
    st.sample(|| pre.iter().map(|o| op_name(*o)).collect::<Vec<_>>().join(", "));
    return Ok(());
  }
  let want = expected(case);
  for (t, w) in obs::texts(case).iter().zip(want) {
    let got = obs::observe(case, t);
    st.traces += 1;
    st.transitions += got.split(" ; ").count() as u64;
    st.local_states += 1;
    st.outcome(&got);
    if got != w {
      let (a, b) = got.split(" ; ").zip(w.split(" ; ")).find(|(a, b)| a != b).unwrap_or((&got, &w));
      return Err(format!("text {:?}: without the logger {a}, with it {b}", String::from_utf8_lossy(t)));
    }
  }
  st.sample(|| case.to_string());
  Ok(())
}

const REPORTS: &[&str] = &[
  "log_error", "log_fatal_error", "log_warning", "log_raw_error", "log_raw_fatal_error", "log_raw_warning",
  "log_error!", "log_fatal_error!", "log_warning!", "log_raw_error!", "log_raw_fatal_error!", "log_raw_warning!", "return_error!", "log_summary",
];
const MOVES: &[&str] = &["clone 0 into 1", "update 0", "end of 0 from 2", "update_loc 1"];
/// Three spans: 0 and 1 of one source, 2 of another.
const SPANS: usize = 3;
const NOPS: usize = REPORTS.len() * SPANS + MOVES.len();

fn op_name(o: usize) -> String {
  match o.checked_sub(REPORTS.len() * SPANS) {
    Some(m) => MOVES[m].into(),
    None => format!("{} on {}", REPORTS[o / SPANS], o % SPANS),
  }
}

fn file(i: usize) -> (FileType, &'static str) {
  match i % 3 {
    0 => (FileType::Buffer, "<buffer>"),
    1 => (FileType::Stdin, "<stdin>"),
    _ => (FileType::File(std::path::Path::new("d {x}/\u{e9}.txt").into()), "d {x}/\u{e9}.txt"),
  }
}

#[derive(Clone, Copy)]
struct M {
  src: usize,
  start: (u32, u32),
  end: (u32, u32),
}

const MSGS: [&str; 4] = ["m", "", "{x} {}\n", "\u{e9}: 1:1"];

fn ret(s: &Span, m: &str) -> Result<()> {
  return_error!(s, "{} of {m}", 1)
}

fn history(h: &[usize], source: usize, st: &mut Stats) -> std::result::Result<(), String> {
  let names = [file(source).1, file(source + 1).1];
  let a = Span::new(file(source).0);
  let b = Span::new(file(source + 1).0);
  let mut sp = [a.clone(), a, b];
  let mut ms = [M { src: 0, start: (1, 0), end: (1, 0) }; 3];
  ms[2].src = 1;
  let mut count = [[0usize; 2]; 2];
  for (step, &o) in h.iter().enumerate() {
    st.transitions += 1;
    let m = MSGS[step % 4];
    if let Some(mv) = o.checked_sub(REPORTS.len() * SPANS) {
      match mv {
        0 => {
          sp[1] = sp[0].clone();
          ms[1] = ms[0];
        }
        1 => {
          let c = if step % 2 == 0 { 'x' } else { '\n' };
          sp[0].update(&c);
          let s = &mut ms[0].start;
          *s = if c == 'x' { (s.0, s.1 + 1) } else { (s.0 + 1, 0) };
          ms[0].end = *s;
        }
        2 => {
          let e = sp[2].clone();
          sp[0].update_end(e);
          ms[0].end = ms[2].end;
        }
        _ => {
          sp[1].update_loc(Location { line: u32::MAX, col: 7 });
          ms[1].start = (u32::MAX, 7);
          ms[1].end = (u32::MAX, 7);
        }
      }
    } else {
      let (k, i) = (o / SPANS, o % SPANS);
      let s = &sp[i];
      let loc = format!("{}:{}:{}: ", names[ms[i].src], ms[i].start.0, ms[i].start.1);
      let full = format!("{} of {m}", 1);
      let (got, printed) = capture(|| match k {
        0 => Some(s.log_error(format_args!("{m}"))),
        1 => Some(s.log_fatal_error(format_args!("{m}"))),
        2 => {
          s.log_warning(format_args!("{m}"));
          None
        }
        3 => Some(s.log_raw_error(format_args!("{m}"))),
        4 => Some(s.log_raw_fatal_error(format_args!("{m}"))),
        5 => {
          s.log_raw_warning(format_args!("{m}"));
          None
        }
        6 => Some(log_error!(s, "{} of {m}", 1)),
        7 => Some(log_fatal_error!(s, "{} of {m}", 1)),
        8 => {
          log_warning!(s, "{} of {m}", 1);
          None
        }
        9 => Some(log_raw_error!(s, "{} of {m}", 1)),
        10 => Some(log_raw_fatal_error!(s, "{} of {m}", 1)),
        11 => {
          log_raw_warning!(s, "{} of {m}", 1);
          None
        }
        12 => ret(s, m).err(),
        _ => {
          s.log_summary();
          None
        }
      });
      let want = match k {
        0 => Some(Error::Normal(format!("{loc}{m}"))),
        1 => Some(Error::Fatal(format!("{loc}{m}"))),
        3 => Some(Error::Normal(m.into())),
        4 => Some(Error::Fatal(m.into())),
        6 | 12 => Some(Error::Normal(format!("{loc}{full}"))),
        7 => Some(Error::Fatal(format!("{loc}{full}"))),
        9 => Some(Error::Normal(full)),
        10 => Some(Error::Fatal(full)),
        _ => None,
      };
      match k {
        2 | 5 | 8 | 11 => count[ms[i].src][1] += 1,
        13 => {}
        _ => count[ms[i].src][0] += 1,
      }
      if got != want {
        return Err(format!("returned {got:?}, expected {want:?}"));
      }
      if let Some(e) = &got {
        if e.is_fatal() != matches!(k, 1 | 4 | 7 | 10) {
          return Err(format!("is_fatal() is {}", e.is_fatal()));
        }
      }
      if !printed.is_empty() {
        return Err(format!("printed {:?}", String::from_utf8_lossy(&printed)));
      }
    }
    for (i, s) in sp.iter().enumerate() {
      let c = count[ms[i].src];
      if (s.error_num(), s.warning_num()) != (c[0], c[1]) {
        return Err(format!("span {i} counts {} errors and {} warnings instead of {c:?}", s.error_num(), s.warning_num()));
      }
      let want = format!("{}:{}-{}:{}", ms[i].start.0, ms[i].start.1, ms[i].end.0, ms[i].end.1);
      if s.to_string() != want {
        return Err(format!("span {i} is {s} instead of {want}"));
      }
    }
    st.state(&(step, source, count, ms.map(|m| (m.src, m.start, m.end))));
  }
  st.traces += 1;
  st.outcome(&count);
  Ok(())
}
