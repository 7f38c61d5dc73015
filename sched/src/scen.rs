//! The scenarios: what the threads do, and what must come of it.
use eng::{CaseIter, Check, Stats, Tier};
use laps::span::{Error, FileType, Span};
use laps_regex::re::{BytesMatcher, CharsMatcher, RegexBuilder};
use laps_regex::table::StateTransTable;
use std::thread;

pub enum Scenario {
  Build(Vec<Job>),
  Span(Vec<Vec<u8>>),
}

pub struct Job {
  mode: char,
  pats: Vec<String>,
}

/// `build:mode/pat,pat;mode/pat` (mode s serial, p parallel, b bytes serial) or `span:ops;ops`.
pub fn parse(s: &str) -> Scenario {
  let (k, r) = s.split_once(':').unwrap();
  match k {
    "build" => Scenario::Build(
      r.split(';')
        .map(|j| Job { mode: j.chars().next().unwrap(), pats: j[2..].split(',').map(String::from).collect() })
        .collect(),
    ),
    _ => Scenario::Span(r.split(';').map(|x| x.bytes().collect()).collect()),
  }
}

fn words() -> Vec<String> {
  eng::words(vec!['a', 'b', 'c'], 0, 4).map(|w| w.into_iter().collect()).collect()
}

impl Job {
  fn run(&self) -> String {
    let mut b = RegexBuilder::new();
    for (i, p) in self.pats.iter().enumerate() {
      b = b.add(p, i as u32);
    }
    let sig = |v: Vec<Option<u32>>| v.iter().map(|x| x.map_or("-".to_string(), |t| t.to_string())).collect::<String>();
    match self.mode {
      'b' => {
        let m: BytesMatcher<u32> = match b.build_bytes() {
          Ok(m) => m,
          Err(e) => return format!("error {e}"),
        };
        let s = sig(words().iter().map(|w| m.is_match(w.as_bytes()).copied()).collect());
        let t: StateTransTable<u8, u32> = m.into();
        format!("{s} with {} states", t.num_states())
      }
      _ => {
        let m: CharsMatcher<u32> = match b.enable_par(Some(self.mode == 'p')).build() {
          Ok(m) => m,
          Err(e) => return format!("error {e}"),
        };
        let s = sig(words().iter().map(|w| m.is_str_match(w).copied()).collect());
        let t: StateTransTable<char, u32> = m.into();
        format!("{s} with {} states", t.num_states())
      }
    }
  }
}

fn span_op(s: &mut Span, mine: &mut Vec<Span>, op: u8) -> Result<(), String> {
  let (e, w) = (s.error_num(), s.warning_num());
  let err = |r: Error, fatal: bool| if r.is_fatal() == fatal { Ok(()) } else { Err("an error of the wrong kind".to_string()) };
  match op {
    b'e' => err(s.log_raw_error(format_args!("e")), false)?,
    b'f' => err(s.log_raw_fatal_error(format_args!("f")), true)?,
    b'w' => s.log_raw_warning(format_args!("w")),
    b'E' => err(s.log_error(format_args!("E")), false)?,
    b'F' => err(s.log_fatal_error(format_args!("F")), true)?,
    b'W' => s.log_warning(format_args!("W")),
    b's' => s.log_summary(),
    b'c' => mine.push(s.clone()),
    b'd' => drop(mine.pop()),
    b'u' => s.update(&'x'),
    _ => {}
  }
  // the thread's own reports are counted at once, and nothing is ever forgotten
  let (e2, w2) = (s.error_num(), s.warning_num());
  let (de, dw) = (b"efEF".contains(&op) as usize, b"wW".contains(&op) as usize);
  if e2 < e + de || w2 < w + dw {
    return Err(format!("{} reported by the thread: errors went from {e} to {e2}, warnings from {w} to {w2}", op as char));
  }
  Ok(())
}

impl Scenario {
  pub fn jobs(&self) -> usize {
    match self {
      Scenario::Build(j) => j.len(),
      _ => 0,
    }
  }

  pub fn alone(&self, i: usize) -> String {
    match self {
      Scenario::Build(j) => j[i].run(),
      _ => String::new(),
    }
  }

  /// Runs the threads (the calling thread is under control of the scheduler).
  pub fn run(&'static self, expect: &'static [String]) -> Result<(), String> {
    match self {
      Scenario::Build(jobs) => {
        let hs: Vec<_> = jobs.iter().map(|j| thread::spawn(move || j.run())).collect();
        for (i, h) in hs.into_iter().enumerate() {
          match h.join() {
            Ok(s) if s == expect[i] => {}
            Ok(s) => return Err(format!("thread {} built a matcher for {:?} that answers {s} instead of {}", i + 1, jobs[i].pats, expect[i])),
            Err(_) => return Err(format!("thread {} panicked", i + 1)),
          }
        }
        Ok(())
      }
      Scenario::Span(ts) => {
        let root = Span::new(FileType::Buffer);
        let other = Span::new(FileType::Buffer);
        other.log_raw_error(format_args!("x"));
        let hs: Vec<_> = ts
          .iter()
          .map(|ops| {
            let mut s = root.clone();
            thread::spawn(move || {
              let mut mine = vec![];
              for op in ops {
                span_op(&mut s, &mut mine, *op)?;
              }
              Ok::<(), String>(())
            })
          })
          .collect();
        for h in hs {
          h.join().map_err(|_| "a thread panicked".to_string())??;
        }
        let n = |k: &[u8]| ts.iter().flatten().filter(|o| k.contains(o)).count();
        let (e, w) = (n(b"efEF"), n(b"wW"));
        if (root.error_num(), root.warning_num()) != (e, w) {
          return Err(format!("{} errors and {} warnings instead of {e} and {w}", root.error_num(), root.warning_num()));
        }
        if (other.error_num(), other.warning_num()) != (1, 0) {
          return Err("the totals of another source changed".into());
        }
        Ok(())
      }
    }
  }
}


// ------------------------------------------------------------------------------------------------------------ the checks

pub fn all() -> Vec<Check> {
  vec![
    Check { id: "C09", cases: c09_cases, run, space: c09_space, serial: true },
    Check { id: "C27", cases: c27_cases, run, space: c27_space, serial: true },
  ]
}

fn run(case: &str, st: &mut Stats) -> Result<(), String> {
  let (scen, bound) = case.rsplit_once(' ').unwrap();
  let exe = std::env::current_exe().unwrap();
  let cpus = thread::available_parallelism().map_or(4, |n| n.get()).min(32);
  let o = std::process::Command::new(exe)
    .args(["--one", scen, bound, "4000000", &cpus.to_string()])
    .output()
    .unwrap_or_else(|e| eng::harness_error(&format!("cannot start the explorer: {e}")));
  let o = String::from_utf8_lossy(&o.stdout).into_owned();
  let line = o.lines().last().unwrap_or("");
  let (k, r) = line.split_once(' ').unwrap_or((line, ""));
  match k {
    "BAD" => Err(format!("{scen}: {r}")),
    "OK" | "CAPPED" => {
      let n: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
      st.traces += n[0];
      st.local_states += n[1];
      st.transitions += n[2];
      st.outcome(&(n[3], n[4]));
      st.note("schedules", n[0]);
      st.note("decisions between runnable threads", n[1]);
      st.note("scheduling points passed", n[2]);
      st.note("scenarios", 1);
      if n[6] > 0 {
        st.note("schedules that could not be replayed", n[6]);
      }
      if k == "CAPPED" {
        st.note("scenarios cut off at 4,000,000 schedules", 1);
      }
      st.sample(|| format!("{scen} within {bound}: {} schedules of up to {} decisions, {} shared words", n[0], n[3], n[4]));
      Ok(())
    }
    _ => eng::harness_error(&format!("{case}: {line}")),
  }
}

const SETS: &[&str] = &["a", "ab", "a|b,ab", "a*b", "(a|b)*c", "", "a{2}", "[ab]+,a", "(", "a*,b*"];

fn c09_space(t: Tier) -> String {
  format!(
    "the real code (instrumented by the compiler) on real threads under a controlling scheduler, every execution in a process of its own: all \
     pairs of two concurrent serial builds over {} expression sets (thorough: character and byte mode) with every schedule of at most {} preemptions \
     ({} for the smaller), three concurrent builds with at most 1 preemption, parallel builds on a pool of two threads (alone, with a serial and \
     with another parallel build) with every schedule of at most {} departures from the default; a scheduling point before every access to memory \
     that threads are seen to share and at every lock, wait, wake, yield, start and end of a thread; sequentially consistent memory",
    SETS.len(), t.pick(1, 2), t.pick(2, 3), t.pick(1, 2)
  )
}

fn c09_cases(t: Tier) -> CaseIter {
  let mut v: Vec<String> = vec![];
  for (i, a) in SETS.iter().enumerate() {
    for (j, b) in SETS.iter().enumerate() {
      if i <= j {
        let small = i < 2 && j < 2;
        let middle = i < 5 && j < 6;
        v.push(format!("build:s/{a};s/{b} p{}", if small { t.pick(2, 3) } else { if middle { 2 } else { t.pick(1, 2) } }));
        if t == Tier::Thorough {
          v.push(format!("build:b/{a};s/{b} p1"));
          v.push(format!("build:s/{a};b/{b} p1"));
        }
      }
    }
  }
  for a in ["a", "ab", "a*b"] {
    v.push(format!("build:b/{a};b/a p1"));
    v.push(format!("build:s/{a};s/a;s/b p1"));
    v.push(format!("build:s/{a};s/a;b/b p1"));
  }
  for a in ["ab", "a[ab]", "abc", "a*b,c", "(ab|c)*", "a|b,ab"] {
    v.push(format!("build:p/{a} d{}", t.pick(1, 2)));
  }
  for (a, b) in [("ab", "a"), ("a", "ab"), ("a*b", "c")] {
    v.push(format!("build:p/{a};s/{b} d1"));
    v.push(format!("build:p/{a};p/{b} d1"));
  }
  if t == Tier::Thorough {
    v.push("build:s/a;s/a p3".into());
    v.push("build:s/a;s/a;s/a p2".into());
    v.push("build:s/a;s/a;s/a;s/a p1".into());
    for (a, b) in [("ab", "a"), ("a*b", "c")] {
      v.push(format!("build:p/{a};s/{b} d2"));
    }
  }
  Box::new(v.into_iter())
}

fn c27_space(t: Tier) -> String {
  format!(
    "the real code (instrumented by the compiler) on real threads under a controlling scheduler, every execution in a process of its own: two threads \
     with every pair of single operations (errors and warnings with and without position, summary, clone, clone and drop, update) under every \
     interleaving, every pair of two-operation sequences over five of them with at most {} preemptions, three threads with one operation each with at \
     most {} preemptions; totals after the threads ended, and after every operation of each thread; sequentially consistent memory",
    t.pick(2, 4), t.pick(2, 4)
  )
}

fn c27_cases(t: Tier) -> CaseIter {
  let ones = ["e", "f", "w", "E", "F", "W", "s", "c", "cd", "u"];
  let five = ["e", "w", "E", "W", "s"];
  let mut v: Vec<String> = vec![];
  for (i, a) in ones.iter().enumerate() {
    for b in &ones[i..] {
      v.push(format!("span:{a};{b} p99"));
    }
  }
  let twos: Vec<String> = five.iter().flat_map(|a| five.iter().map(move |b| format!("{a}{b}"))).collect();
  for (i, a) in twos.iter().enumerate() {
    for b in &twos[i..] {
      v.push(format!("span:{a};{b} p{}", t.pick(2, 4)));
    }
  }
  for a in five {
    for b in five {
      for c in five {
        if a <= b && b <= c {
          v.push(format!("span:{a};{b};{c} p{}", t.pick(2, 4)));
        }
      }
    }
  }
  v.push(format!("span:ewe;wew;eww p{}", t.pick(1, 2)));
  v.push(format!("span:eeee;eeee p{}", t.pick(2, 3)));
  Box::new(v.into_iter())
}
