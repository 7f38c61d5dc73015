//! C24: derived parsers.
#![recursion_limit = "512"]
#[macro_use]
#[path = "../../pars/src/model.rs"]
pub mod model;
pub mod common;
pub mod support;
#[path = "parse_types.rs"]
mod types;

use eng::Check;
use model::*;

fn main() {
  eng::main(&[Check {
    id: "C24",
    cases: common::cases,
    run: |c, st| common::run(c, st, &[check_parse, check_maybe]),
    space: |t| common::space(t, "derived parsers", "parsed value, tokens left, failing token; whether it can start, with 0, 1 or 2 tokens buffered, nothing consumed or reported"),
    serial: false,
  }]);
}
