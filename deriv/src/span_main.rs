//! C26: derived spans.
#![recursion_limit = "512"]
#[macro_use]
#[path = "../../pars/src/model.rs"]
pub mod model;
pub mod common;
pub mod support;
#[path = "span_types.rs"]
mod types;

use eng::Check;
use model::*;

fn main() {
  eng::main(&[Check {
    id: "C26",
    cases: common::cases,
    run: |c, st| common::run(c, st, &[check_span]),
    space: |t| common::space(t, "derived spans", "span"),
    serial: false,
  }]);
}
