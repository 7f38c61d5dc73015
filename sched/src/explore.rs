//! Enumeration of the schedules of one scenario.
//!
//! A schedule is a sequence of decisions; an execution follows a prefix and then the default.  Every decision of an execution
//! beyond its prefix is branched on, so each schedule within the bound is run exactly once.

use crate::scen;

#[repr(C)]
#[derive(Clone, Copy)]
struct Dec {
  chosen: u8,
  def: u8,
  cur: u8,
  free: u8,
  enabled: u16,
}

extern "C" {
  fn rt_setup(workers: i32);
  fn rt_grow(w: i32) -> i32;
  fn rt_shared() -> u32;
  fn rt_result(m: *const u8, n: usize);
  fn rt_plain(body: extern "C" fn()) -> i32;
  fn rt_zygotes(body: extern "C" fn(), workers: i32);
  fn rt_submit(w: i32, p: *const u8, n: u32);
  fn rt_wait() -> i32;
  fn rt_status(w: i32) -> i32;
  fn rt_n(w: i32) -> u32;
  fn rt_steps(w: i32) -> u64;
  fn rt_msg(w: i32) -> *const i8;
  fn rt_decs(w: i32) -> *const Dec;
}

static mut SCEN: Option<scen::Scenario> = None;
static mut EXPECT: Vec<String> = Vec::new();
static mut JOB: usize = 0;

/// Reports what an execution came to (empty: as expected).
fn result(s: &str) {
  unsafe { rt_result(s.as_ptr(), s.len()) }
}

#[allow(static_mut_refs)]
fn scen() -> &'static scen::Scenario {
  unsafe { SCEN.as_ref().unwrap() }
}

extern "C" fn body_expect() {
  result(&scen().alone(unsafe { JOB }));
}

#[allow(static_mut_refs)]
extern "C" fn body() {
  let r = scen().run(unsafe { &EXPECT });
  result(&r.err().unwrap_or_default());
}

fn msg(w: i32) -> String {
  unsafe { std::ffi::CStr::from_ptr(rt_msg(w)) }.to_string_lossy().into_owned()
}

/// `--one SCENARIO BOUND MAX WORKERS`: explores and prints one line.
/// BOUND: `pN` at most N preemptions, `dN` at most N departures of any kind from the default.
#[allow(static_mut_refs)]
pub fn one() {
  let a: Vec<String> = std::env::args().collect();
  let delays = a[3].starts_with('d');
  let bound: usize = a[3][1..].parse().unwrap();
  let max: u64 = a[4].parse().unwrap();
  let workers: i32 = a[5].parse().unwrap();
  std::panic::set_hook(Box::new(|_| {}));
  eng::silence_stderr();
  std::env::set_var("RAYON_NUM_THREADS", "2");
  unsafe {
    SCEN = Some(scen::parse(&a[2]));
    rt_setup(workers);
    for i in 0..scen().jobs() {
      JOB = i;
      if rt_plain(body_expect) != 1 {
        println!("BAD job {i} alone: {}", msg(0));
        return;
      }
      EXPECT.push(msg(0));
    }
    rt_zygotes(body, workers);
    let mut rounds = 0;
    let mut finding = true;
    'round: loop {
      rounds += 1;
      let (mut execs, mut decs, mut steps, mut longest, mut lost) = (0u64, 0u64, 0u64, 0u32, 0u64);
      let mut stack: Vec<Vec<u8>> = vec![vec![]];
      let mut idle: Vec<i32> = (0..workers).collect();
      let mut at: Vec<Vec<u8>> = vec![vec![]; workers as usize];
      loop {
        while let (Some(p), Some(w)) = (stack.last(), idle.last()) {
          rt_submit(*w, p.as_ptr(), p.len() as u32);
          at[*w as usize] = stack.pop().unwrap();
          idle.pop();
        }
        if idle.len() == workers as usize {
          break;
        }
        let w = rt_wait();
        idle.push(w);
        let p = std::mem::take(&mut at[w as usize]);
        let n = rt_n(w) as usize;
        let d = std::slice::from_raw_parts(rt_decs(w), n);
        execs += 1;
        let m = msg(w);
        match rt_status(w) {
          1 if m.is_empty() => {}
          5 | 6 | 8 => {
            lost += 1;
            if execs < 10 && execs == lost {
              println!("LOST {m}");
              return;
            }
            continue;
          }
          _ => {
            let v: Vec<String> = d.iter().enumerate().filter(|(_, x)| x.chosen != x.def).map(|(i, x)| format!("{i}: {} instead of {}", x.chosen, x.def)).collect();
            println!("BAD {m} under the schedule that runs (decision: thread) {{{}}}", v.join(", "));
            return;
          }
        }
        if n < p.len() {
          lost += 1;
          continue;
        }
        decs += (n - p.len()) as u64;
        steps += rt_steps(w);
        longest = longest.max(n as u32);
        if finding && rt_grow(w) != 0 {
          // more memory is shared than was known: the scheduling points must be chosen anew
          while idle.len() < workers as usize {
            let w = rt_wait();
            rt_grow(w);
            idle.push(w);
          }
          finding = rounds < 30;
          continue 'round;
        }
        let mut used = 0;
        for (i, x) in d.iter().enumerate() {
          if i >= p.len() {
            for t in 0..16u8 {
              if x.enabled >> t & 1 == 1 && t != x.chosen {
                let cost = used + if delays { t != x.def } else { x.free == 0 && t != x.cur } as usize;
                if cost <= bound {
                  let mut q: Vec<u8> = d[..i].iter().map(|x| x.chosen).collect();
                  q.push(t);
                  stack.push(q);
                }
              }
            }
          }
          used += if delays { x.chosen != x.def } else { x.free == 0 && x.chosen != x.cur } as usize;
        }
        if execs >= max {
          println!("CAPPED {execs} {decs} {steps} {longest} {} {rounds} {lost}", rt_shared());
          return;
        }
      }
      println!("OK {execs} {decs} {steps} {longest} {} {rounds} {lost}", rt_shared());
      return;
    }
  }
}
