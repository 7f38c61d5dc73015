//! Exploration engine shared by all harness crates.
//!
//! A check enumerates *cases* (strings, simplest first, each naming a finite block of executions) and explores every
//! execution of a block.  Worker threads take cases in order; the case a worker is on is published in a shared file
//! so that the parent process can re-run it in isolation when the process aborts, overflows its stack or hangs.
//! No verdict is taken from a crashed or timed-out process: only from the isolated re-run.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

impl Tier {
  pub fn pick<T>(self, q: T, t: T) -> T {
    match self {
      Tier::Quick => q,
      Tier::Thorough => t,
    }
  }
}

/// What a run covered; every number is counted while running.
#[derive(Default)]
pub struct Stats {
  /// Distinct states are counted by hash over the whole run.
  states: HashSet<u64>,
  /// States that are distinct by construction inside one case (counted, not hashed).
  pub local_states: u64,
  pub transitions: u64,
  pub traces: u64,
  outcomes: HashSet<u64>,
  pub samples: Vec<String>,
  pub notes: BTreeMap<String, u64>,
}

const CAP: usize = 4_000_000;

impl Stats {
  pub fn state<T: Hash>(&mut self, t: &T) {
    if self.states.len() < CAP {
      self.states.insert(hash(t));
    }
  }
  pub fn outcome<T: Hash>(&mut self, t: &T) {
    if self.outcomes.len() < CAP {
      self.outcomes.insert(hash(t));
    }
  }
  pub fn note(&mut self, k: &str, n: u64) {
    *self.notes.entry(k.to_string()).or_insert(0) += n;
  }
  pub fn sample(&mut self, f: impl FnOnce() -> String) {
    if self.samples.len() < 4 {
      self.samples.push(f());
    }
  }
  fn merge(&mut self, o: Stats) {
    self.states.extend(o.states);
    self.local_states += o.local_states;
    self.transitions += o.transitions;
    self.traces += o.traces;
    self.outcomes.extend(o.outcomes);
    for s in o.samples {
      if self.samples.len() < 8 {
        self.samples.push(s);
      }
    }
    for (k, v) in o.notes {
      *self.notes.entry(k).or_insert(0) += v;
    }
  }
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
  #[allow(deprecated)]
  let mut h = std::hash::SipHasher::new();
  t.hash(&mut h);
  h.finish()
}

pub type CaseIter = Box<dyn Iterator<Item = String> + Send>;

pub struct Check {
  pub id: &'static str,
  /// Enumerates the cases of a tier, simplest first.
  pub cases: fn(Tier) -> CaseIter,
  /// Explores one case completely.  `Err` is a violation (message for a human).
  pub run: fn(&str, &mut Stats) -> Result<(), String>,
  /// The enumerated space and the bounds, for the evidence.
  pub space: fn(Tier) -> String,
  /// Run the cases one at a time (for checks that own process-wide state).
  pub serial: bool,
}

thread_local! {
  static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Runs `f`, turning a panic into `Err("panicked at ...")`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(v) => Ok(v),
    Err(_) => {
      let (msg, loc) = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("<unknown>".into(), "<unknown>".into()));
      Err(format!("panicked at {loc}: {msg}"))
    }
  }
}

/// Aborts the check as a machinery error (never a verdict).
pub fn harness_error(msg: &str) -> ! {
  println!("HARNESS-ERROR {msg}");
  let _ = std::io::stdout().flush();
  std::process::exit(3)
}

fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "<non-string panic>".into()
    };
    let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
  }));
}

extern "C" {
  fn open(path: *const i8, flags: i32, ...) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Sends everything the code under test prints to standard error to /dev/null.
pub fn silence_stderr() {
  unsafe {
    let fd = open(c"/dev/null".as_ptr(), 2);
    dup2(fd, 2);
  }
}

pub const SLOT: usize = 16384;
pub const NSLOTS: usize = 64;

struct Slots(*mut u8);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
  fn new(path: Option<&str>) -> Self {
    unsafe {
      match path {
        Some(p) => {
          let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
          f.set_len((SLOT * NSLOTS) as u64).unwrap();
          use std::os::fd::AsRawFd;
          let m = mmap(std::ptr::null_mut(), SLOT * NSLOTS, 3, 1, f.as_raw_fd(), 0);
          assert!(m as isize != -1);
          Slots(m)
        }
        None => Slots(Box::leak(vec![0u8; SLOT * NSLOTS].into_boxed_slice()).as_mut_ptr()),
      }
    }
  }
  fn set(&self, i: usize, case: &str) {
    let n = case.len();
    if n > SLOT - 8 {
      harness_error("case too long");
    }
    unsafe {
      let p = self.0.add(i * SLOT);
      std::ptr::copy_nonoverlapping(case.as_ptr(), p.add(8), n);
      (p as *mut u64).write_volatile(n as u64 + 1);
    }
  }
  fn clear(&self, i: usize) {
    unsafe { (self.0.add(i * SLOT) as *mut u64).write_volatile(0) }
  }
}

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o += "\\\"",
      '\\' => o += "\\\\",
      c if (c as u32) < 0x20 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn run_one(check: &Check, case: &str, st: &mut Stats) -> Result<(), String> {
  match guard(|| (check.run)(case, st)) {
    Ok(r) => r,
    Err(p) => {
      // a panic whose location is in the harness is an error of the harness
      if p.contains("panicked at src/") || p.contains("/verif/") || p.contains("panicked at ../eng") {
        harness_error(&format!("case {case:?}: {p}"));
      }
      Err(p)
    }
  }
}

/// Entry point: `<bin> <id> --tier T [--out F] [--slots F] [--known F] [--hang SECS]` or `<bin> <id> --case S`.
pub fn main(checks: &[Check]) {
  let args: Vec<String> = std::env::args().collect();
  let opt = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
  let id = args.get(1).cloned().unwrap_or_default();
  let check = match checks.iter().find(|c| c.id == id) {
    Some(c) => c,
    None => harness_error(&format!("no check {id}")),
  };
  install_hook();
  if opt("--keep-stderr").is_none() && !args.iter().any(|a| a == "-v") {
    silence_stderr();
  }
  let tier = match opt("--tier").as_deref() {
    Some("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  };
  if let Some(case) = opt("--case") {
    let mut st = Stats::default();
    // the main thread's stack is large; use the same stack as the workers
    let r = std::thread::scope(|s| {
      std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || run_one(check, &case, &mut st)).unwrap().join().unwrap()
    });
    match r {
      Ok(()) => {
        println!("CASE-OK {}", js(&case));
        return;
      }
      Err(m) => {
        println!("CASE-VIOLATION {{\"case\":{},\"message\":{}}}", js(&case), js(&m));
        std::process::exit(1);
      }
    }
  }
  let known: HashSet<String> = opt("--known")
    .map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.to_string()).collect())
    .unwrap_or_default();
  let slots = Slots::new(opt("--slots").as_deref());
  let hang: u64 = opt("--hang").and_then(|s| s.parse().ok()).unwrap_or(60);
  let budget: Option<u64> = opt("--budget").and_then(|s| s.parse().ok());
  let n = if check.serial { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(NSLOTS) };
  let it = Mutex::new(((check.cases)(tier), 0usize));
  let stop = AtomicBool::new(false);
  let capped = AtomicBool::new(false);
  let done = AtomicBool::new(false);
  let ncases = AtomicUsize::new(0);
  let start = Instant::now();
  let begun: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
  let total = Mutex::new(Stats::default());
  let violations: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
  let knowns: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
  std::thread::scope(|s| {
    let mut hs = vec![];
    for w in 0..n {
      let (it, stop, slots, begun, total, violations, knowns, known, ncases, capped) =
        (&it, &stop, &slots, &begun, &total, &violations, &knowns, &known, &ncases, &capped);
      hs.push(
        std::thread::Builder::new()
          .stack_size(64 << 20)
          .spawn_scoped(s, move || {
            let mut st = Stats::default();
            loop {
              if stop.load(Ordering::Relaxed) {
                break;
              }
              if let Some(b) = budget {
                if start.elapsed().as_secs() >= b {
                  capped.store(true, Ordering::Relaxed);
                  break;
                }
              }
              let (case, idx) = {
                let mut g = it.lock().unwrap();
                match g.0.next() {
                  Some(c) => {
                    g.1 += 1;
                    (c, g.1)
                  }
                  None => break,
                }
              };
              slots.set(w, &case);
              begun[w].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
              let r = run_one(check, &case, &mut st);
              begun[w].store(0, Ordering::Relaxed);
              slots.clear(w);
              ncases.fetch_add(1, Ordering::Relaxed);
              if let Err(m) = r {
                if known.contains(&case) {
                  knowns.lock().unwrap().push((case, m));
                } else {
                  violations.lock().unwrap().push((idx, case, m));
                  stop.store(true, Ordering::Relaxed);
                }
              }
            }
            total.lock().unwrap().merge(st);
          })
          .unwrap(),
      );
    }
    let (begun, done) = (&begun, &done);
    s.spawn(move || {
      while !done.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed().as_millis() as u64;
        for (w, b) in begun.iter().enumerate() {
          let b = b.load(Ordering::Relaxed);
          if b != 0 && now > b + hang * 1000 {
            println!("HANG {w}");
            let _ = std::io::stdout().flush();
            std::process::exit(97);
          }
        }
      }
    });
    for h in hs {
      h.join().unwrap();
    }
    done.store(true, Ordering::Relaxed);
  });
  let st = total.into_inner().unwrap();
  let mut vs = violations.into_inner().unwrap();
  vs.sort();
  let mut o = String::from("{");
  o += &format!("\"cases\":{},", ncases.load(Ordering::Relaxed));
  o += &format!("\"states\":{},", st.states.len() as u64 + st.local_states);
  o += &format!("\"transitions\":{},", st.transitions);
  o += &format!("\"traces_validated_against_impl\":{},", st.traces);
  o += &format!("\"distinct_outcomes\":{},", st.outcomes.len());
  o += &format!("\"space\":{},", js(&(check.space)(tier)));
  o += &format!("\"exhaustive\":{},", !capped.load(Ordering::Relaxed) && vs.is_empty());
  let notes: Vec<_> = st.notes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
  o += &format!("\"counters\":{{{}}},", notes.join(","));
  let samples: Vec<_> = st.samples.iter().map(|s| js(s)).collect();
  o += &format!("\"samples\":[{}],", samples.join(","));
  let k: Vec<_> = knowns.into_inner().unwrap().iter().map(|(c, m)| format!("{{\"case\":{},\"message\":{}}}", js(c), js(m))).collect();
  o += &format!("\"known\":[{}],", k.join(","));
  let v: Vec<_> = vs.iter().map(|(_, c, m)| format!("{{\"case\":{},\"message\":{}}}", js(c), js(m))).collect();
  o += &format!("\"violations\":[{}]}}", v.join(","));
  match opt("--out") {
    Some(f) => std::fs::write(f, &o).unwrap(),
    None => println!("{o}"),
  }
  std::process::exit(if vs.is_empty() { 0 } else { 1 });
}

/// All words over `alphabet` with `min..=max` letters, shortest first.
pub fn words<T: Clone + Send + 'static>(alphabet: Vec<T>, min: usize, max: usize) -> impl Iterator<Item = Vec<T>> + Send {
  (min..=max).flat_map(move |n| {
    let a = alphabet.clone();
    let total = (a.len() as u64).pow(n as u32);
    (0..total).map(move |mut k| {
      let mut w = vec![a[0].clone(); n];
      for i in (0..n).rev() {
        w[i] = a[(k % a.len() as u64) as usize].clone();
        k /= a.len() as u64;
      }
      w
    })
  })
}

/// For reference processes: panics are kept for `guard`, standard error is dropped.
pub fn quiet() {
  install_hook();
  silence_stderr();
}
