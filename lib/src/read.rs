//! C10, C11: readers over sources that split the bytes in every way and fail at every read.
use crate::{hex, unhex};
use eng::{CaseIter, Check, Stats, Tier};
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::FileType;
use std::io::{self, Read};
use std::sync::Arc;

pub fn all() -> Vec<Check> {
  vec![
    Check { id: "C10", cases: c10_cases, run: c10_run, space: c10_space, serial: false },
    Check { id: "C11", cases: c11_cases, run: c11_run, space: c11_space, serial: false },
  ]
}

/// A source that returns scripted chunk sizes (the last one repeats) and fails at one read.
#[derive(Clone)]
pub struct Src {
  pub data: Arc<[u8]>,
  pub pos: usize,
  pub chunks: Arc<[usize]>,
  pub reads: usize,
  pub fail_at: Option<usize>,
  pub kind: io::ErrorKind,
}

impl Src {
  pub fn new(data: &[u8], chunks: &[usize]) -> Self {
    Src { data: data.into(), pos: 0, chunks: chunks.into(), reads: 0, fail_at: None, kind: io::ErrorKind::Other }
  }
}

impl Read for Src {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    let i = self.reads;
    self.reads += 1;
    if self.fail_at == Some(i) {
      return Err(io::Error::new(self.kind, "injected failure"));
    }
    // the failing read does not count as a chunk
    let k = if self.fail_at.map_or(false, |f| f < i) { i - 1 } else { i };
    let c = self.chunks.get(k).or(self.chunks.last()).copied().unwrap_or(usize::MAX);
    let n = c.min(buf.len()).min(self.data.len() - self.pos);
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

/// The chunks of a composition of `n` given by the cut positions in `mask`.
pub fn composition(n: usize, mask: u64) -> Vec<usize> {
  let mut v = vec![];
  let mut last = 0;
  for i in 1..n {
    if mask >> (i - 1) & 1 == 1 {
      v.push(i - last);
      last = i;
    }
  }
  v.push(n - last);
  v
}

fn c10_space(t: Tier) -> String {
  format!(
    "all texts of <= {} bytes over 'a', '\\n', U+00E9, U+4F60, U+1F602, each under every split of its bytes into reads; \
     all texts of <= 2 such characters placed at every offset -6..=6 around the first two ends of the 1024-byte buffer, with full, 1-byte, \
     1023-, 1024- and 1025-byte reads and one short read at each of the last bytes; whole-input sources (&str, String, &[u8], file); \
     texts of 70,000 and 300,000 mixed characters in reads of 13 sizes and through a file and standard input; \
     character and byte reader; read by next / peek-then-next / with spans / collected at once; end of input read three times; every Unicode scalar value first, last, between and after others, with full and 1-byte reads",
    t.pick(8, 11)
  )
}

const CH: &[char] = &['a', '\n', '\u{e9}', '\u{4f60}', '\u{1f602}'];

fn texts_by_bytes(max: usize) -> Vec<String> {
  let mut out = vec![String::new()];
  let mut level = vec![String::new()];
  while !level.is_empty() {
    let mut next = vec![];
    for w in level {
      for c in CH {
        let x = format!("{w}{c}");
        if x.len() <= max {
          next.push(x);
        }
      }
    }
    out.extend(next.iter().cloned());
    level = next;
  }
  out
}

fn c10_cases(t: Tier) -> CaseIter {
  let small = texts_by_bytes(t.pick(8, 11)).into_iter().map(|s| format!("split {}", hex(s.as_bytes())));
  let whole = eng::words(CH.to_vec(), 0, 4).map(|w| format!("whole {}", hex(w.iter().collect::<String>().as_bytes())));
  let edge = (0..2usize).flat_map(|k| {
    (0..13usize).flat_map(move |off| {
      eng::words(CH.to_vec(), 1, 2).map(move |w| {
        format!("edge {} {}", (k + 1) * 1024 + off - 6, hex(w.iter().collect::<String>().as_bytes()))
      })
    })
  });
  let long = (0..CH.len()).map(|i| format!("long {i}"));
  let big = [70_000usize, 300_000].into_iter().flat_map(|n| (0..BIG.len() + 2).map(move |k| format!("big {n} {k}")));
  let sweep = (0..0x110u32).map(|b| format!("sweep {:x}", b << 12));
  Box::new(sweep.chain(small).chain(whole).chain(edge).chain(long).chain(big))
}

/// Sizes of the reads of large inputs.
const BIG: &[&[usize]] = &[
  &[usize::MAX], &[1], &[2], &[3], &[5], &[255], &[256], &[1000], &[1021], &[1022], &[1023], &[1024], &[1025, 1, 7],
];

/// A text that repeats no short period of 1024 bytes.
fn big_text(n: usize) -> String {
  let mut x = 1u32;
  (0..n)
    .map(|_| {
      x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
      match x >> 24 {
        0..=2 => '\n',
        3..=99 => (b'a' + (x >> 16 & 15) as u8) as char,
        100..=149 => char::from_u32(0xe0 + (x >> 16 & 31)).unwrap(),
        150..=199 => char::from_u32(0x4e00 + (x >> 16 & 0xff)).unwrap(),
        _ => char::from_u32(0x1f600 + (x >> 16 & 63)).unwrap(),
      }
    })
    .collect()
}

/// When the environment asks for it, reads the standard input through a reader and prints what it delivers.
pub fn echo_child() -> bool {
  use std::io::Write;
  let Ok(kind) = std::env::var("LAPS_ECHO") else { return false };
  let mut out = io::BufWriter::new(io::stdout().lock());
  let ok = if kind == "char" {
    let mut r = Reader::from_stdin();
    loop {
      match r.next_char() {
        Ok(Some(c)) => write!(out, "{c}").unwrap(),
        Ok(None) => break r.next_char() == Ok(None) && format!("{}", r.span().file_type()) == "<stdin>",
        Err(_) => break false,
      }
    }
  } else {
    let mut r = ByteReader::from_stdin();
    loop {
      match r.next_char() {
        Ok(Some(c)) => out.write_all(&[c]).unwrap(),
        Ok(None) => break r.next_char() == Ok(None),
        Err(_) => break false,
      }
    }
  };
  out.flush().unwrap();
  std::process::exit(if ok { 0 } else { 1 });
}

fn through_stdin(text: &str, kind: &str) -> Result<(), String> {
  use std::io::Write;
  let mut c = std::process::Command::new(std::env::current_exe().unwrap())
    .env("LAPS_ECHO", kind)
    .stdin(std::process::Stdio::piped())
    .stdout(std::process::Stdio::piped())
    .stderr(std::process::Stdio::null())
    .spawn()
    .map_err(|e| e.to_string())?;
  let mut i = c.stdin.take().unwrap();
  let data = text.as_bytes().to_vec();
  let h = std::thread::spawn(move || {
    for part in data.chunks(997) {
      if i.write_all(part).is_err() {
        break;
      }
    }
  });
  let o = c.wait_with_output().map_err(|e| e.to_string())?;
  h.join().unwrap();
  if !o.status.success() || o.stdout != text.as_bytes() {
    return Err(format!("{} bytes through standard input ({kind}): {} bytes delivered, status {}", text.len(), o.stdout.len(), o.status));
  }
  Ok(())
}

/// Reads everything by one of four ways; `Err` on a reported error.
fn drain<I, C>(r: &mut I, mode: usize, limit: usize) -> Result<Vec<C>, String>
where
  I: InputStream<CharType = C>,
  C: Clone + PartialEq + std::fmt::Debug,
{
  let mut v = vec![];
  let e = |_| "a read returned an error".to_string();
  while v.len() <= limit {
    let c = match mode {
      0 => r.next_char().map_err(e)?,
      1 => {
        let p = r.peek().map_err(e)?;
        let c = r.next_char().map_err(e)?;
        if p != c {
          return Err(format!("peeked {p:?} then read {c:?}"));
        }
        c
      }
      2 => r.next_char_span().map_err(e)?.0,
      _ => {
        v = r.collect_until(|_| false).map_err(e)?;
        r.next_char().map_err(e)?
      }
    };
    match c {
      Some(c) => v.push(c),
      None => {
        for _ in 0..3 {
          if r.next_char().map_err(e)?.is_some() || r.peek().map_err(e)?.is_some() {
            return Err("a character after end of input".into());
          }
        }
        return Ok(v);
      }
    }
  }
  Err("more characters than the input has".into())
}

fn check_text<S: Read>(text: &str, mk: impl Fn() -> S, what: &dyn Fn() -> String, st: &mut Stats) -> Result<(), String> {
  let want: Vec<char> = text.chars().collect();
  for mode in 0..4 {
    let got = drain(&mut Reader::<_>::new(mk(), FileType::Buffer), mode, want.len());
    st.traces += 1;
    st.transitions += want.len() as u64 + 1;
    if got.as_ref() != Ok(&want) {
      return Err(format!("Reader, {}, way {mode}: {}", what(), diff(&want, &got)));
    }
    let got = drain(&mut ByteReader::<_>::new(mk(), FileType::Buffer), mode, text.len());
    st.traces += 1;
    if got.as_deref() != Ok(text.as_bytes()) {
      return Err(format!("ByteReader, {}, way {mode}: {}", what(), diff(text.as_bytes(), &got)));
    }
  }
  Ok(())
}

fn diff<C: PartialEq + std::fmt::Debug>(want: &[C], got: &Result<Vec<C>, String>) -> String {
  match got {
    Err(e) => e.clone(),
    Ok(g) => {
      let i = want.iter().zip(g).take_while(|(a, b)| a == b).count();
      format!("{} characters instead of {}, first difference at {i}: {:?} instead of {:?}", g.len(), want.len(), g.get(i), want.get(i))
    }
  }
}

fn c10_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  match f[0] {
    "split" => {
      let data = unhex(f[1]);
      let text = std::str::from_utf8(&data).unwrap();
      st.sample(|| format!("{text:?} under {} splits", 1u64 << data.len().saturating_sub(1)));
      for mask in 0..1u64 << data.len().saturating_sub(1) {
        let ch = composition(data.len(), mask);
        st.state(&(case, mask));
        st.outcome(&text.chars().count());
        check_text(text, || Src::new(&data, &ch), &|| format!("{text:?} in reads of {ch:?}"), st)?;
      }
      Ok(())
    }
    "whole" => {
      let data = unhex(f[1]);
      let text = std::str::from_utf8(&data).unwrap();
      let want: Vec<char> = text.chars().collect();
      st.state(&case);
      let dir = std::env::temp_dir().join(format!("laps-c10-{}-{:?}", std::process::id(), std::thread::current().id()));
      std::fs::write(&dir, &data).unwrap();
      let mut r = vec![
        ("&str", drain(&mut Reader::from(text), 0, 99)),
        ("String", drain(&mut Reader::from(text.to_string()), 0, 99)),
        ("&[u8]", drain(&mut Reader::from(&data[..]), 0, 99)),
        ("file", drain(&mut Reader::from_path(&dir).unwrap(), 0, 99)),
      ];
      let mut b = vec![
        ("&str", drain(&mut ByteReader::from(text), 0, 99)),
        ("String", drain(&mut ByteReader::from(text.to_string()), 0, 99)),
        ("&[u8]", drain(&mut ByteReader::from(&data[..]), 0, 99)),
        ("file", drain(&mut ByteReader::from_path(&dir).unwrap(), 0, 99)),
      ];
      let _ = std::fs::remove_file(&dir);
      st.traces += 8;
      for (n, g) in r.drain(..) {
        if g.as_ref() != Ok(&want) {
          return Err(format!("Reader from {n} of {text:?}: {}", diff(&want, &g)));
        }
      }
      for (n, g) in b.drain(..) {
        if g.as_ref() != Ok(&data) {
          return Err(format!("ByteReader from {n} of {text:?}: {}", diff(&data, &g)));
        }
      }
      Ok(())
    }
    "sweep" => {
      let b = u32::from_str_radix(f[1], 16).unwrap();
      for c in (b..b + 0x1000).filter_map(char::from_u32) {
        st.state(&c);
        let text = format!("{c}a{c}{c}");
        for s in [usize::MAX, 1] {
          check_text(&text, || Src::new(text.as_bytes(), &[s]), &|| format!("{text:?} in reads of {s}"), st)?;
        }
      }
      Ok(())
    }
    "edge" => {
      let n: usize = f[1].parse().unwrap();
      let tail = String::from_utf8(unhex(f[2])).unwrap();
      let text = format!("{}{tail}xyz", "0123456789".repeat(n / 10 + 1)[..n].to_string());
      let data = text.as_bytes();
      let mut scripts: Vec<Vec<usize>> = vec![vec![usize::MAX], vec![1], vec![1023], vec![1024], vec![1025], vec![3]];
      for k in 1..=8usize {
        // one short read that ends k bytes before / after the end of the prefix, then full reads
        scripts.push(vec![n.saturating_sub(k) % 1024, usize::MAX]);
        scripts.push(vec![1024, n.saturating_sub(k) % 1024, usize::MAX]);
        scripts.push(vec![n + k, 1, usize::MAX]);
      }
      scripts.retain(|s| s.iter().all(|c| *c > 0));
      for s in scripts {
        st.state(&(case, &s));
        check_text(&text, || Src::new(data, &s), &|| format!("{n} bytes then {tail:?} in reads of {s:?}"), st)?;
      }
      Ok(())
    }
    "big" => {
      let text = big_text(f[1].parse().unwrap());
      let k: usize = f[2].parse().unwrap();
      st.local_states += text.len() as u64;
      if let Some(s) = BIG.get(k) {
        return check_text(&text, || Src::new(text.as_bytes(), s), &|| format!("{} bytes in reads of {s:?}", text.len()), st);
      }
      if k == BIG.len() {
        through_stdin(&text, "char")?;
        return through_stdin(&text, "byte");
      }
      let p = std::env::temp_dir().join(format!("laps-c10-{}-{:?}", std::process::id(), std::thread::current().id()));
      std::fs::write(&p, &text).unwrap();
      let r = check_text(&text, || std::fs::File::open(&p).unwrap(), &|| format!("{} bytes from a file", text.len()), st).and_then(|_| {
        let w: Vec<char> = text.chars().collect();
        let g = drain(&mut Reader::from_path(&p).unwrap(), 0, w.len());
        if g.as_ref() != Ok(&w) {
          return Err(format!("Reader::from_path: {}", diff(&w, &g)));
        }
        let g = drain(&mut ByteReader::from_path(&p).unwrap(), 0, text.len());
        if g.as_deref() != Ok(text.as_bytes()) {
          return Err(format!("ByteReader::from_path: {}", diff(text.as_bytes(), &g)));
        }
        Ok(())
      });
      let _ = std::fs::remove_file(&p);
      r
    }
    _ => {
      let c = CH[f[1].parse::<usize>().unwrap()];
      let text: String = std::iter::repeat(c).take(3000).collect();
      for s in [usize::MAX, 1, 2, 3, 5, 7, 1023] {
        st.state(&(case, s));
        check_text(&text, || Src::new(text.as_bytes(), &[s]), &|| format!("3000 times {c:?} in reads of {s}"), st)?;
      }
      Ok(())
    }
  }
}

// ---------------------------------------------------------------------------------------------------------- C11

const BYTES: &[u8] = &[
  0x61, 0x0a, 0xc3, 0xa9, 0xe4, 0xbd, 0xa0, 0xf0, 0x9f, 0x98, 0x82, 0x80, 0xed, 0xff, 0xc0, 0xf4, 0x90, 0xe0, 0x00,
];

/// The failures a source reports (`Interrupted` is a request to try again, so it is left out).
const KINDS: &[io::ErrorKind] = &[
  io::ErrorKind::Other,
  io::ErrorKind::NotFound,
  io::ErrorKind::PermissionDenied,
  io::ErrorKind::ConnectionRefused,
  io::ErrorKind::ConnectionReset,
  io::ErrorKind::ConnectionAborted,
  io::ErrorKind::NotConnected,
  io::ErrorKind::AddrInUse,
  io::ErrorKind::AddrNotAvailable,
  io::ErrorKind::BrokenPipe,
  io::ErrorKind::AlreadyExists,
  io::ErrorKind::WouldBlock,
  io::ErrorKind::InvalidInput,
  io::ErrorKind::InvalidData,
  io::ErrorKind::TimedOut,
  io::ErrorKind::WriteZero,
  io::ErrorKind::Unsupported,
  io::ErrorKind::UnexpectedEof,
  io::ErrorKind::OutOfMemory,
];

const FEW: &[u8] = &[0x61, 0xc3, 0xa9, 0xe4, 0xbd, 0xa0, 0xf0, 0x9f, 0x98, 0x82, 0xff];

fn c11_space(t: Tier) -> String {
  format!(
    "all byte strings of <= {} bytes over {} byte kinds and of {} bytes over {} of them (ASCII, newline, lead and continuation bytes, surrogate and overlong leads, \
     invalid bytes), and every valid character, truncated character or invalid byte after 1016..=1027 good bytes; each under every split \
     into reads (up to the byte bound) and with a failure injected at no read and at every read ({} kinds of failure on <= 2 bytes); every such tail after 1020..=1026, 2044..=2049 \
     and 5000 good bytes with a failure at the reads around it; read by next, peek-then-next, peek-with-span-then-next-with-span and \
     next-unread-next; character and byte reader",
    t.pick(3, 4), BYTES.len(), t.pick(4, 5), FEW.len(), KINDS.len()
  )
}

fn c11_cases(t: Tier) -> CaseIter {
  let all = eng::words(BYTES.to_vec(), 0, t.pick(3, 4)).chain(eng::words(FEW.to_vec(), t.pick(4, 5), t.pick(4, 5))).map(|w| format!("bytes {}", hex(&w)));
  let tails: Vec<&[u8]> = vec![
    b"", b"a", b"\xc3\xa9", b"\xc3", b"\xe4\xbd\xa0", b"\xe4\xbd", b"\xe4", b"\xf0\x9f\x98\x82", b"\xf0\x9f\x98", b"\xf0", b"\xff", b"\xffa",
    b"\xc3a", b"\xe4\xbda", b"\xf0\x9f\x98a", b"a\xff", b"\xc3\xa9\xff", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80",
  ];
  let t2 = tails.clone();
  let edge = (1016..=1027usize).flat_map(move |n| {
    let t = tails.clone();
    t.into_iter().map(move |x| format!("edge {n} {}", hex(x)))
  });
  let fail = (1020..=1026usize).chain(2044..=2049).chain([5000]).flat_map(move |n| {
    let t = t2.clone();
    t.into_iter().map(move |x| format!("fail {n} {}", hex(x)))
  });
  Box::new(edge.chain(fail).chain(all))
}

/// The next character, with looking at it before or giving it back in between.
fn read_by<C: Clone + PartialEq + std::fmt::Debug, I: InputStream<CharType = C>>(r: &mut I, way: usize) -> Result<laps::span::Result<Option<C>>, String> {
  macro_rules! ok {
    ($e:expr) => {
      match $e {
        Ok(v) => v,
        Err(e) => return Ok(Err(e)),
      }
    };
  }
  let (a, b) = match way {
    0 => return Ok(r.next_char()),
    1 => (ok!(r.peek()), ok!(r.next_char())),
    2 => {
      let (a, s) = ok!(r.peek_with_span());
      let (b, t) = ok!(r.next_char_span());
      if s != t {
        return Err(format!("{a:?} is peeked at {s} and read at {t}"));
      }
      (a, b)
    }
    _ => {
      let l = ok!(r.next_char_loc());
      r.unread(l.clone());
      let m = ok!(r.next_char_loc());
      if l.1 != m.1 {
        return Err(format!("{:?} was read after {} and again after {}", l.0, l.1, m.1));
      }
      (l.0, m.0)
    }
  };
  if a != b {
    return Err(format!("{a:?} and then {b:?}"));
  }
  Ok(Ok(b))
}

/// One execution of the character reader.
fn c11_chars(data: &[u8], src: Src, way: usize, st: &mut Stats) -> Result<(), String> {
  // the bytes the source hands out before it fails, if it does
  let given = match src.fail_at {
    Some(f) => src.chunks[..f.min(src.chunks.len())].iter().fold(0usize, |a, c| a.saturating_add(*c)).min(data.len()),
    None => data.len(),
  };
  let (valid, clean) = match std::str::from_utf8(&data[..given]) {
    Ok(s) => (s, true),
    Err(e) => (std::str::from_utf8(&data[..e.valid_up_to()]).unwrap(), false),
  };
  let faulty = src.fail_at.is_some();
  let want: Vec<char> = valid.chars().collect();
  let mut r = Reader::<_>::new(src, FileType::Buffer);
  let mut got = vec![];
  let mut at = (1, 0);
  st.traces += 1;
  for c in &want {
    st.transitions += 1;
    match read_by(&mut r, way)? {
      Ok(Some(x)) if x == *c => got.push(x),
      o => return Err(format!("after {} characters: expected {c:?}, got {o:?}", got.len())),
    }
    let l = r.span().start();
    at = if *c == '\n' { (at.0 + 1, 0) } else { (at.0, at.1 + 1) };
    if (l.line, l.col) != at {
      return Err(format!("{c:?} is reported at {l}"));
    }
  }
  let errors = r.span().error_num();
  let end = read_by(&mut r, way)?;
  if clean && !faulty {
    if end != Ok(None) {
      return Err(format!("after all characters: expected end of input, got {end:?}"));
    }
    st.outcome(&"clean");
    return Ok(());
  }
  match end {
    Err(_) if r.span().error_num() == errors + 1 => {}
    Err(_) => return Err("the error is not counted once".into()),
    o => return Err(format!("after {} good characters: expected an error, got {o:?}", got.len())),
  }
  st.outcome(&(if faulty { "failure" } else { "invalid" }, got.len()));
  // whatever is read after the error is in the input, in order
  let lossy = String::from_utf8_lossy(data);
  let mut rest = lossy.chars().skip(got.len());
  for _ in 0..data.len() + 2 {
    match r.next_char() {
      Ok(Some(c)) => {
        if c == '\u{fffd}' || !rest.any(|x| x == c) {
          return Err(format!("{c:?} is read after the error but is not in the rest of the input"));
        }
      }
      Ok(None) => break,
      Err(_) => {}
    }
  }
  Ok(())
}

fn c11_bytes(data: &[u8], src: Src, way: usize, st: &mut Stats) -> Result<(), String> {
  let given = match src.fail_at {
    Some(f) => src.chunks[..f.min(src.chunks.len())].iter().fold(0usize, |a, c| a.saturating_add(*c)).min(data.len()),
    None => data.len(),
  };
  let faulty = src.fail_at.is_some();
  let mut r = ByteReader::<_>::new(src, FileType::Buffer);
  st.traces += 1;
  for (i, b) in data[..given].iter().enumerate() {
    st.transitions += 1;
    match read_by(&mut r, way)? {
      Ok(Some(x)) if x == *b => {}
      o => return Err(format!("byte reader, byte {i}: expected {b:#x}, got {o:?}")),
    }
  }
  let errors = r.span().error_num();
  match read_by(&mut r, way)? {
    Ok(None) if !faulty => return Ok(()),
    Err(_) if faulty && r.span().error_num() == errors + 1 => {}
    Err(_) if faulty => return Err("byte reader: the error is not counted once".into()),
    o => return Err(format!("byte reader, after {given} bytes: got {o:?}")),
  }
  let mut i = given;
  for _ in 0..data.len() + 2 {
    match r.next_char() {
      Ok(Some(b)) => match data[i..].iter().position(|x| *x == b) {
        Some(k) => i += k + 1,
        None => return Err(format!("byte reader: {b:#x} after the error is not in the rest of the input")),
      },
      Ok(None) => break,
      Err(_) => {}
    }
  }
  Ok(())
}

const WAYS: usize = 4;

/// Failures around the place where the good bytes end, in long inputs.
fn c11_fail(data: &[u8], n: usize, st: &mut Stats) -> Result<(), String> {
  for size in [1024usize, 511] {
    // the reads hand out `size` bytes each, but end at and around `n` as well
    for cut in n - 1..=data.len() {
      let mut ch = vec![];
      let mut pos = 0;
      while pos < data.len() {
        let to = if pos < cut { (pos + size).min(cut) } else { data.len().min(pos + size) };
        ch.push(to - pos);
        pos = to;
      }
      for fail in ch.len().saturating_sub(2)..=ch.len() {
        let mut src = Src::new(data, &ch);
        src.fail_at = Some(fail);
        st.state(&(n, size, cut, fail, data.len()));
        for way in 0..WAYS {
          let ctx = |m: String| format!("{} bytes, {n} of them good, reads of {ch:?}, failure at read {fail}, way {way}: {m}", data.len());
          c11_chars(data, src.clone(), way, st).map_err(ctx)?;
          c11_bytes(data, src.clone(), way, st).map_err(ctx)?;
        }
      }
    }
  }
  Ok(())
}

fn c11_run(case: &str, st: &mut Stats) -> Result<(), String> {
  let f: Vec<&str> = case.split(' ').collect();
  let (data, scripts): (Vec<u8>, Vec<Vec<usize>>) = if f[0] == "bytes" {
    let d = unhex(f[1]);
    let n = d.len();
    (d, (0..1u64 << n.saturating_sub(1)).map(|m| composition(n, m)).collect())
  } else {
    let n: usize = f[1].parse().unwrap();
    let mut d: Vec<u8> = b"0123456789\n".iter().copied().cycle().take(n).collect();
    let tail = unhex(f[2]);
    let t = tail.len();
    d.extend(&tail);
    if f[0] == "fail" {
      return c11_fail(&d, n, st);
    }
    // full reads; then every split of the tail
    let mut s = vec![vec![usize::MAX], vec![1024, usize::MAX]];
    for m in 0..1u64 << t.saturating_sub(1) {
      let mut v = vec![n];
      v.extend(composition(t, m));
      // stay within the buffer so that the scripted chunks are what the source hands out
      if n <= 1024 {
        s.push(v);
      }
    }
    (d, s)
  };
  st.sample(|| format!("bytes {:x?}", &data[data.len().saturating_sub(8)..]));
  for ch in scripts {
    let ch: Vec<usize> = ch.into_iter().filter(|c| *c > 0).collect();
    let ch = if ch.is_empty() { vec![usize::MAX] } else { ch };
    // a chunk larger than the buffer is handed out in several reads: only inject failures where the script is exact
    let exact = f[0] == "bytes" || ch.iter().all(|c| *c <= 1024);
    let mut fails: Vec<Option<usize>> = vec![None];
    if exact && f[0] == "bytes" {
      fails.extend((0..=if data.is_empty() { 0 } else { ch.len() }).map(Some));
    }
    // every kind of failure on short inputs, one kind on longer ones
    let runs = fails.into_iter().flat_map(|f| {
      let all = f.is_some() && data.len() <= 2;
      KINDS.iter().take(if all { KINDS.len() } else { 1 }).map(move |k| (f, *k))
    });
    for (fail, kind) in runs {
      let mut src = Src::new(&data, &ch);
      src.fail_at = fail;
      src.kind = kind;
      st.state(&(case, &ch, fail, kind));
      let ctx = |m: String| {
        let tail = &data[data.len().saturating_sub(8)..];
        format!("{} bytes ending in {tail:02x?}, reads of {ch:?}, failure ({kind:?}) at read {fail:?}: {m}", data.len())
      };
      for way in 0..WAYS {
        c11_chars(&data, src.clone(), way, st).map_err(|m| ctx(format!("way {way}: {m}")))?;
        c11_bytes(&data, src.clone(), way, st).map_err(|m| ctx(format!("way {way}: {m}")))?;
      }
    }
  }
  Ok(())
}
