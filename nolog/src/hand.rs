//! A front end written by hand, as one has to without the macros.
use crate::obs::Rec;
use laps::ast::{NonEmptySepSeq, NonEmptySeq, OptPrefix, SepSeq};
use laps::input::InputStream;
use laps::lexer::{int_literal, str_literal};
use laps::parse::Parse;
use laps::reader::Reader;
use laps::span::{FileType, Result, Span, Spanned};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use laps::{log_error, log_fatal_error, log_raw_warning, log_warning, return_error};
use std::fmt;
use std::io::{self, Read};

pub const PIECES: &[&[u8]] = &[b"a", b"7", b"99", b"(", b",", b"\"", b" ", b"\n", "\u{e9}".as_bytes(), b"{}", b"!", b"\xff", b"~"];

#[derive(Clone, Debug, PartialEq)]
enum Kind {
  Num(u8),
  Word(String),
  Str(String),
  Other(char),
  End,
}

impl fmt::Display for Kind {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      Kind::Num(n) => write!(f, "number {n}"),
      Kind::Word(w) => write!(f, "word {{{w}}}"),
      Kind::Str(s) => write!(f, "string {s:?}"),
      Kind::Other(c) => write!(f, "'{c}'"),
      Kind::End => f.write_str("end"),
    }
  }
}

/// Fails when it meets '~'.
struct Src<'a>(&'a [u8]);
impl Read for Src<'_> {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    match self.0.first() {
      None => Ok(0),
      Some(b'~') => {
        self.0 = &self.0[1..];
        Err(io::Error::new(io::ErrorKind::Other, "disk on {fire}"))
      }
      Some(_) => {
        let n = self.0.iter().position(|b| *b == b'~').unwrap_or(self.0.len()).min(3).min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
      }
    }
  }
}

struct Lex<'a>(Reader<Src<'a>>);

impl Lex<'_> {
  fn token(&mut self) -> Result<Token<Kind>> {
    self.0.skip_until(|c| !c.is_whitespace())?;
    let (c, span) = self.0.peek_with_span()?;
    let is_word = |c: &char| c.is_alphanumeric();
    Ok(match c {
      None => Token::new(Kind::End, span),
      Some(c) if c.is_ascii_digit() => {
        let (t, s) = self.0.collect_with_span_until(|c| !is_word(c))?;
        let t: String = t.into_iter().collect();
        match int_literal::<u8>(&t) {
          Some(n) => Token::new(Kind::Num(n), s),
          None => return_error!(s, "bad number {}", t),
        }
      }
      Some(c) if is_word(&c) => {
        let (t, s) = self.0.collect_with_span_until(|c| !is_word(c))?;
        if t.len() > 2 {
          log_warning!(s, "a long word");
        }
        Token::new(Kind::Word(t.into_iter().collect()), s)
      }
      Some('"') => {
        self.0.next_char()?;
        let (mut t, mut s) = self.0.collect_with_span_until(|c| *c == '"' || *c == '\n')?;
        match self.0.next_char_span()? {
          (Some('"'), e) => s.update_end(e),
          _ => return Err(log_fatal_error!(s, "a string without an end")),
        }
        t.insert(0, '"');
        t.push('"');
        match str_literal(&t.into_iter().collect::<String>()) {
          Some(v) => Token::new(Kind::Str(v), s),
          None => return Err(log_error!(s, "bad string")),
        }
      }
      Some('!') => {
        self.0.next_char()?;
        log_raw_warning!(span, "mind the {}", "{}");
        return span.log_raw_error(format_args!("no {}!", '!')).into();
      }
      Some(c) => {
        self.0.next_char()?;
        Token::new(Kind::Other(c), span)
      }
    })
  }
}

impl Tokenizer for Lex<'_> {
  type Token = Token<Kind>;
  fn next_token(&mut self) -> Result<Token<Kind>> {
    self.token()
  }
}

macro_rules! leaf {
  ($n:ident, $p:pat, $e:literal) => {
    #[derive(Debug)]
    #[allow(dead_code)]
    struct $n(Token<Kind>);
    impl<TS: TokenStream<Token = Token<Kind>>> Parse<TS> for $n {
      fn parse(ts: &mut TS) -> Result<Self> {
        let t = ts.next_token()?;
        match &t.kind {
          $p => Ok($n(t)),
          k => return_error!(t.span, "expected {}, found {}", $e, k),
        }
      }
      fn maybe(ts: &mut TS) -> Result<bool> {
        Ok(matches!(ts.peek()?.kind, $p))
      }
    }
    impl Spanned for $n {
      fn span(&self) -> Span {
        self.0.span.clone()
      }
    }
  };
}
leaf!(Num, Kind::Num(_), "a number");
leaf!(Word, Kind::Word(_), "a word");
leaf!(Comma, Kind::Other(','), ',');
leaf!(Open, Kind::Other('('), '(');
leaf!(Str, Kind::Str(_), "a {string}");

fn stream(text: &[u8]) -> (TokenBuffer<Lex<'_>, Token<Kind>>, Span) {
  let mut r = Reader::new(Src(text), FileType::File(std::path::Path::new("no such.txt").into()));
  let (_, span) = match r.next_char_span() {
    Ok(x) => x,
    Err(_) => panic!("cannot read one character"),
  };
  (TokenBuffer::new(Lex(r)), span)
}

/// Parses and reads what follows until three results in a row change nothing.
fn all<T: Parse<TokenBuffer<Lex<'static>, Token<Kind>>> + fmt::Debug>(r: &mut Rec, name: &str, text: &[u8]) {
  // the text lives longer than the stream
  let text: &'static [u8] = unsafe { std::slice::from_raw_parts(text.as_ptr(), text.len()) };
  let (mut ts, span) = stream(text);
  r.op(&format!("maybe {name}"), &span, || T::maybe(&mut ts));
  r.op(&format!("parse {name}"), &span, || ts.parse::<T>());
  r.op(&format!("parse {name}"), &span, || ts.parse::<T>());
  r.op("next", &span, || ts.next_token());
}

pub fn run(r: &mut Rec, text: &[u8]) {
  let mut t = vec![b' '];
  t.extend_from_slice(text);
  let (mut ts, span) = stream(&t);
  for _ in 0..text.len() + 2 {
    r.op("next", &span, || ts.next_token());
  }
  let (mut ts, span) = stream(&t);
  r.op("expect", &span, || ts.expect(Kind::Other('(')));
  r.op("expect", &span, || ts.expect(Kind::Other(',')));
  r.op("peek2", &span, || ts.peek2());
  r.op("skip", &span, || ts.skip_until(|t| t.kind == Kind::End));
  all::<NonEmptySepSeq<Num, Comma>>(r, "nums", &t);
  all::<(OptPrefix<Open, Num>, NonEmptySeq<Word>)>(r, "words", &t);
  all::<(SepSeq<Str, Comma>, Option<Word>, Vec<Num>)>(r, "strs", &t);
  let (mut ts, span) = stream(&t);
  r.op("line", &span, || ts.inner_mut().0.collect_with_span_until(|c| *c == '\n').map(|x| (x.0, x.1.to_string())));
  r.op("again", &span, || ts.inner_mut().0.collect_until(|c| *c == '7'));
  r.op("again", &span, || ts.inner_mut().0.next_char_span().map(|x| (x.0, x.1.to_string())));
}
