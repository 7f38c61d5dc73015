//! C29: the configurations without the logger, against a model and against the configurations with it.

mod capture;
#[cfg(feature = "macros")]
mod fe;
mod hand;
mod obs;
#[cfg(not(feature = "logger"))]
mod spans;

#[cfg(not(feature = "logger"))]
fn main() {
  eng::main(&[eng::Check { id: "C29", cases: spans::cases, run: spans::run, space: spans::space, serial: false }]);
}

/// The reference: the same front ends with the logger.  Answers cases on standard input with observations.
#[cfg(feature = "logger")]
fn main() {
  use std::io::{BufRead, Write};
  eng::quiet();
  for l in std::io::stdin().lock().lines() {
    let l = l.unwrap();
    let mut o = String::new();
    for t in obs::texts(&l) {
      o += &obs::observe(&l, &t);
      o += "\n";
    }
    o += ".\n";
    let mut out = std::io::stdout().lock();
    out.write_all(o.as_bytes()).unwrap();
    out.flush().unwrap();
  }
}
