mod capture;
mod hist;
mod lits;
mod read;
mod report;
mod spans;
mod tokens;

fn main() {
  if read::echo_child() {
    return;
  }
  let mut v = vec![];
  v.extend(read::all());
  v.extend(hist::all());
  v.extend(lits::all());
  v.extend(tokens::all());
  v.extend(report::all());
  v.extend(spans::all());
  eng::main(&v);
}

pub fn hex(b: &[u8]) -> String {
  b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
