//! C33: definitions are accepted or refused by the compiler as documented.

mod gen;

use eng::{CaseIter, Check, Stats, Tier};
use gen::{Def, COMMON};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

fn main() {
  eng::main(&[Check { id: "C33", cases, run, space, serial: false }]);
}

fn families(t: Tier) -> Vec<(&'static str, Vec<Def>)> {
  vec![
    ("token_ast", gen::token_ast()),
    ("token_kind", gen::token_kind()),
    ("enums", gen::enum_attrs()),
    ("lists", gen::variant_lists(t.pick(3, 5))),
    ("spanned", gen::spanned(t.pick(3, 4))),
    ("parse", gen::parse()),
    ("variants", gen::variants()),
  ]
}

fn all() -> &'static Vec<(&'static str, Vec<Def>)> {
  static ALL: OnceLock<Vec<(&'static str, Vec<Def>)>> = OnceLock::new();
  ALL.get_or_init(|| families(Tier::Thorough))
}

/// The definitions of a family of one kind.
fn part(family: &str, valid: bool) -> Vec<&'static Def> {
  let f = all().iter().find(|f| f.0 == family).unwrap();
  f.1.iter().filter(|d| d.valid == valid).collect()
}

fn space(t: Tier) -> String {
  let n: Vec<String> =
    families(t).iter().map(|(n, d)| format!("{n}: {} well-formed, {} malformed", d.iter().filter(|d| d.valid).count(), d.iter().filter(|d| !d.valid).count())).collect();
  format!("all combinations of forms of attributes, items, fields and arms for every macro, each compiled against the library ({})", n.join("; "))
}

const BLOCK: usize = 60;

fn cases(t: Tier) -> CaseIter {
  let mut v = vec![];
  for (name, defs) in families(t) {
    for valid in [true, false] {
      let n = defs.iter().filter(|d| d.valid == valid).count();
      // malformed definitions are refused early, so more of them fit in a block
      let block = if valid { BLOCK } else { 4 * BLOCK };
      for i in (0..n).step_by(block) {
        v.push(format!("{name} {valid} {i} {}", (i + block).min(n)));
      }
    }
  }
  Box::new(v.into_iter())
}

/// The compiled library: arguments for the compiler.
fn library() -> &'static Vec<String> {
  static LIB: OnceLock<Vec<String>> = OnceLock::new();
  LIB.get_or_init(|| {
    let manifest = Path::new(env!("CARGO_MANIFEST_DIR")).join("Cargo.toml");
    let out = Command::new("cargo")
      .args(["build", "--release", "--offline", "--locked", "--message-format=json", "--bin", "defs", "--manifest-path"])
      .arg(manifest)
      .env("CARGO_TARGET_DIR", target())
      .stderr(Stdio::null())
      .output()
      .unwrap_or_else(|e| eng::harness_error(&format!("cargo: {e}")));
    let text = String::from_utf8_lossy(&out.stdout);
    for line in text.lines().filter(|l| l.contains("\"compiler-artifact\"") && l.contains("\"name\":\"laps\"")) {
      if let Some(file) = line.split('"').find(|s| s.ends_with(".rlib") && s.contains("liblaps-")) {
        let deps = Path::new(file).parent().unwrap().display().to_string();
        return vec!["--extern".into(), format!("laps={file}"), "-L".into(), format!("dependency={deps}")];
      }
    }
    eng::harness_error("the library's artifact was not found")
  })
}

fn target() -> PathBuf {
  // <target>/release/defs
  std::env::current_exe().unwrap().ancestors().nth(2).unwrap().to_path_buf()
}

/// Compiles the definitions together: whether that succeeds, the indices of those with errors, the first error text of each.
fn compile(defs: &[&Def]) -> (bool, BTreeSet<usize>, String) {
  static N: AtomicUsize = AtomicUsize::new(0);
  let dir = target().join(format!("defs-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
  std::fs::create_dir_all(&dir).unwrap_or_else(|e| eng::harness_error(&e.to_string()));
  let file = dir.join("d.rs");
  let mut text = COMMON.to_string();
  let mut starts = vec![];
  for (i, d) in defs.iter().enumerate() {
    starts.push(text.lines().count() + 1);
    text += &format!("pub mod d{i} {{\n  use super::common::*;\n  {}\n}}\n", d.text);
  }
  std::fs::write(&file, &text).unwrap_or_else(|e| eng::harness_error(&e.to_string()));
  let out = Command::new("rustc")
    .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "d", "--emit", "metadata", "--error-format=json", "--cap-lints", "allow", "-o"])
    .arg(dir.join("libd.rmeta"))
    .args(library())
    .arg(&file)
    .env_remove("RUSTC_BOOTSTRAP")
    .stdin(Stdio::null())
    .output()
    .unwrap_or_else(|e| eng::harness_error(&format!("rustc: {e}")));
  let _ = std::fs::remove_dir_all(&dir);
  let err = String::from_utf8_lossy(&out.stderr).into_owned();
  let mut bad = BTreeSet::new();
  let mut first = String::new();
  for line in err.lines().filter(|l| l.contains("\"level\":\"error\"")) {
    // all lines of this file named by the message, in any span or expansion
    for s in line.split("\"line_start\":").skip(1) {
      let n: usize = s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
      let k = starts.partition_point(|s| *s <= n);
      if k > 0 && n < text.lines().count() + 1 {
        bad.insert(k - 1);
      }
    }
    if first.is_empty() {
      if let Some(m) = line.split("\"message\":\"").nth(1) {
        first = m.split("\",\"code\"").next().unwrap_or("").chars().take(300).collect();
      }
    }
  }
  if first.is_empty() && !out.status.success() {
    first = err.chars().take(300).collect();
  }
  (out.status.success(), bad, first)
}

fn run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  let valid = f[1] == "true";
  let defs = part(f[0], valid);
  let defs = &defs[f[2].parse().unwrap()..f[3].parse().unwrap()];
  st.sample(|| defs[0].text.clone());
  st.local_states += defs.len() as u64;
  let mut runs = 0;
  let mut go = |d: &[&'static Def]| {
    runs += 1;
    compile(d)
  };
  let res = if valid {
    let (ok, bad, _) = go(defs);
    let mut res = Ok(());
    if !ok {
      let named: Vec<usize> = bad.into_iter().collect();
      let order = named.iter().copied().chain((0..defs.len()).filter(|i| !named.contains(i)));
      let failing = order.map(|i| (i, go(&defs[i..i + 1]))).find(|(_, r)| !r.0);
      match failing {
        Some((i, r)) => res = Err(format!("a well-formed definition is refused: {} -- {}", defs[i].text, r.2)),
        None => eng::harness_error("well-formed definitions compile alone but not together"),
      }
    }
    res
  } else {
    // malformed definitions: drop those with errors, and try the others again, until none has one
    let mut left: Vec<&'static Def> = defs.to_vec();
    while !left.is_empty() {
      let (ok, bad, _) = go(&left);
      if ok || bad.is_empty() {
        break;
      }
      left = left.iter().enumerate().filter(|(i, _)| !bad.contains(i)).map(|(_, d)| *d).collect();
    }
    if std::env::var_os("DEFS_ALL").is_some() {
      for d in left.iter().filter(|d| go(&[**d]).0) {
        println!("accepted: {}", d.text);
      }
      return Ok(());
    }
    match left.iter().find(|d| go(&[**d]).0) {
      Some(d) => Err(format!("a malformed definition is accepted: {}", d.text)),
      None => Ok(()),
    }
  };
  st.transitions += runs;
  st.traces += defs.len() as u64;
  st.outcome(&(f[0], valid));
  res
}
