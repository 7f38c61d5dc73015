//! What a front end does on a text: every result with the messages of its errors, and the totals.
use crate::capture::capture;
use laps::span::{Error, Result, Span};

/// The texts of a case `<front end> <max> <prefix pieces>`.
pub fn texts(case: &str) -> Vec<Vec<u8>> {
  let mut it = case.split(' ');
  let fe = it.next().unwrap();
  let more: usize = it.next().unwrap().parse().unwrap();
  let pieces = pieces(fe);
  let pre: Vec<u8> = it.filter(|x| !x.is_empty()).flat_map(|i| pieces[i.parse::<usize>().unwrap()].to_vec()).collect();
  let mut out = vec![];
  let mut level = vec![pre];
  for k in 0..=more {
    let mut next = vec![];
    for w in level {
      if k < more {
        for p in pieces {
          let mut x = w.clone();
          x.extend_from_slice(p);
          next.push(x);
        }
      }
      out.push(w);
    }
    level = next;
  }
  out
}

pub fn pieces(fe: &str) -> &'static [&'static [u8]] {
  match fe {
    "hand" => crate::hand::PIECES,
    #[cfg(feature = "macros")]
    "text" => crate::fe::TEXT,
    #[cfg(feature = "macros")]
    "bytes" => crate::fe::BYTES,
    _ => panic!("no front end {fe}"),
  }
}

pub fn observe(case: &str, text: &[u8]) -> String {
  let mut r = Rec::default();
  let fe = case.split(' ').next().unwrap();
  let e = eng::guard(|| match fe {
    "hand" => crate::hand::run(&mut r, text),
    #[cfg(feature = "macros")]
    "text" => crate::fe::text(&mut r, text),
    #[cfg(feature = "macros")]
    "bytes" => crate::fe::bytes(&mut r, text),
    _ => unreachable!(),
  });
  if let Err(p) = e {
    r.ev.push(format!("{:?}", p.split(": ").skip(1).collect::<String>()));
  }
  r.ev.join(" ; ")
}

#[derive(Default)]
pub struct Rec {
  ev: Vec<String>,
}

impl Rec {
  /// Notes the result of one operation.
  #[allow(unused_variables)]
  pub fn op<T: std::fmt::Debug>(&mut self, name: &str, span: &Span, f: impl FnOnce() -> Result<T>) {
    let (before_e, before_w) = (span.error_num(), span.warning_num());
    let (r, printed) = capture(f);
    let printed = String::from_utf8_lossy(&printed).into_owned();
    let (e, w) = (span.error_num() - before_e, span.warning_num() - before_w);
    let res = match &r {
      Ok(v) => format!("{v:?}").replace(concat!(env!("CARGO_CRATE_NAME"), "::"), ""),
      Err(x) => format!("{} {}", if x.is_fatal() { "fatal" } else { "normal" }, message(x, &printed)),
    };
    #[cfg(not(feature = "logger"))]
    let extra = if printed.is_empty() { String::new() } else { format!(" printed {printed:?}") };
    #[cfg(feature = "logger")]
    let extra = String::new();
    self.ev.push(format!("{name}: {res:?} +{e}e +{w}w{extra}"));
  }
}

#[cfg(not(feature = "logger"))]
fn message(e: &Error, _: &str) -> String {
  match e {
    Error::Normal(m) | Error::Fatal(m) => m.clone(),
  }
}

/// The message a configuration without the logger would have returned: what was printed last.
#[cfg(feature = "logger")]
fn message(_: &Error, printed: &str) -> String {
  let i = match printed.rfind("error: ") {
    Some(i) => i,
    None => return format!("nothing printed: {printed:?}"),
  };
  let t = &printed[i + 7..];
  match t.strip_suffix("\n\n").and_then(|t| t.rsplit_once("\n  at ")) {
    Some((m, loc)) => format!("{loc}: {m}"),
    None => t.strip_suffix('\n').unwrap_or(t).to_string(),
  }
}
