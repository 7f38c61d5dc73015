//! Grammars of parsed structures, their predictive interpretation, trees with token positions, and the harness that
//! compares the real parsers with them.  Used by the crates `pars` (predefined structures) and `deriv` (derived ones).

use eng::Stats;
use laps::ast::*;
use laps::parse::Parse;
use laps::span::{Error, FileType, Location, Result as LResult, Span, Spanned, TrySpan};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
  A,
  B,
  C,
  D,
  End,
}

impl fmt::Display for Kind {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{self:?}")
  }
}

pub type Tok = Token<Kind>;
pub type TS = TokenBuffer<Script, Tok>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
  T(Kind),
  /// The tokenizer fails.
  E,
}

/// Delivers the events, then end tokens; the i-th event is located at columns 10 i + 1 to 10 i + 5 of line i / 3 + 1.
pub struct Script {
  ev: Vec<Ev>,
  pos: usize,
  span: Span,
}

pub fn place(i: usize) -> ((u32, u32), (u32, u32)) {
  let line = i as u32 / 3 + 1;
  ((line, i as u32 * 10 + 1), (line, i as u32 * 10 + 5))
}

impl Script {
  pub fn new(ev: &[Ev]) -> Self {
    Script { ev: ev.to_vec(), pos: 0, span: Span::new(FileType::Buffer) }
  }
}

impl Tokenizer for Script {
  type Token = Tok;
  fn next_token(&mut self) -> LResult<Tok> {
    let i = self.pos;
    self.pos += 1;
    if i > self.ev.len() + 1000 {
      panic!("the parser keeps reading end tokens");
    }
    let kind = match self.ev.get(i) {
      Some(Ev::T(k)) => *k,
      Some(Ev::E) => return Err(Error::Fatal),
      None => Kind::End,
    };
    let (a, b) = place(i);
    let mut span = self.span.clone();
    let mut end = self.span.clone();
    span.update_loc(Location { line: a.0, col: a.1 });
    end.update_loc(Location { line: b.0, col: b.1 });
    span.update_end(end);
    Ok(Token { kind, span })
  }
}

/// The event a token came from.
pub fn index(t: &Tok) -> usize {
  (t.span.start().col as usize - 1) / 10
}

/// Takes a token of a kind.
pub fn take<S: TokenStream<Token = Tok>>(ts: &mut S, k: Kind) -> LResult<Tok> {
  let t = ts.next_token()?;
  if t.kind == k {
    Ok(t)
  } else {
    FAILED.with(|f| f.set(Some(index(&t))));
    Err(Error::Normal)
  }
}

thread_local! {
  /// Where an element found a token it does not accept.
  static FAILED: Cell<Option<usize>> = const { Cell::new(None) };
}

macro_rules! element {
  ($name:ident, $($k:ident)|+) => {
    #[derive(Clone, Debug, PartialEq)]
    pub struct $name(pub Tok);
    impl<S: TokenStream<Token = Tok>> Parse<S> for $name {
      fn parse(ts: &mut S) -> LResult<Self> {
        let t = ts.next_token()?;
        if matches!(t.kind, $(Kind::$k)|+) {
          Ok($name(t))
        } else {
          FAILED.with(|f| f.set(Some(index(&t))));
          Err(Error::Normal)
        }
      }
      fn maybe(ts: &mut S) -> LResult<bool> {
        Ok(matches!(ts.peek()?.kind, $(Kind::$k)|+))
      }
    }
    impl Spanned for $name {
      fn span(&self) -> Span {
        self.0.span.clone()
      }
    }
    impl Gram for $name {
      fn g() -> G {
        G::Tok(vec![$(Kind::$k),+])
      }
    }
    impl ToTree for $name {
      fn tree(&self) -> Tree {
        Tree::Tok(index(&self.0))
      }
    }
  };
}

element!(A, A);
element!(B, B);
element!(C, C);
element!(D, D);
element!(AB, A | B);
element!(End, End);

/// What a structure accepts.
#[derive(Clone)]
pub enum G {
  Tok(Vec<Kind>),
  Opt(Box<G>),
  Rep { t: Box<G>, min1: bool },
  /// A sequence of elements with separators that are not kept.
  SepSeq { t: Box<G>, s: Box<G>, min1: bool, trail: bool },
  /// A list that keeps its separators.
  SepList { t: Box<G>, s: Box<G>, trail: bool },
  Seq(Vec<G>),
  OptPrefix(Box<G>, Box<G>),
  OptTokenPrefix(Box<G>, Box<G>),
  TokenPrefix(Box<G>, Box<G>),
  /// The first variant that can start; the last one is the fallback.
  Alt(Vec<Vec<G>>),
  /// Decided by patterns instead of the first part.
  Starts(Vec<Vec<Kind>>, Box<G>),
  Lazy(fn() -> G),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tree {
  Tok(usize),
  None,
  List(Vec<Tree>),
  Var(usize, Vec<Tree>),
}

impl Tree {
  /// The first and last token held.
  pub fn ends(&self) -> Option<(usize, usize)> {
    match self {
      Tree::Tok(i) => Some((*i, *i)),
      Tree::None => None,
      Tree::List(v) | Tree::Var(_, v) => {
        let mut r: Option<(usize, usize)> = None;
        for (a, b) in v.iter().filter_map(|t| t.ends()) {
          r = Some((r.map_or(a, |r| r.0), b));
        }
        r
      }
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fail {
  /// The tokenizer failed at this event.
  Tokenizer(usize),
  /// This token is not accepted.
  At(usize),
}

impl G {
  /// Whether it may consume nothing.
  pub fn nullable(&self) -> bool {
    match self {
      G::Tok(_) => false,
      G::Opt(_) => true,
      G::Rep { t, min1 } => !min1 || t.nullable(),
      G::SepSeq { t, min1, .. } => !min1 || t.nullable(),
      G::SepList { t, .. } => t.nullable(),
      G::Seq(v) => v.iter().all(|g| g.nullable()),
      G::OptPrefix(_, t) | G::OptTokenPrefix(_, t) => t.nullable(),
      G::TokenPrefix(p, t) => p.nullable() && t.nullable(),
      G::Alt(v) => v.iter().any(|f| f.iter().all(|g| g.nullable())),
      G::Starts(_, g) => g.nullable(),
      G::Lazy(_) => false,
    }
  }

  /// Whether every repeated part consumes at least one token.
  pub fn sound(&self) -> bool {
    match self {
      G::Tok(_) | G::Lazy(_) => true,
      G::Opt(t) | G::Starts(_, t) => t.sound(),
      G::Rep { t, .. } => !t.nullable() && t.sound(),
      G::SepSeq { t, s, .. } | G::SepList { t, s, .. } => !t.nullable() && !s.nullable() && t.sound() && s.sound(),
      G::Seq(v) => v.iter().all(|g| g.sound()),
      G::OptPrefix(p, t) | G::OptTokenPrefix(p, t) | G::TokenPrefix(p, t) => p.sound() && t.sound(),
      G::Alt(v) => v.iter().flatten().all(|g| g.sound()),
    }
  }

  /// Whether it is decided by declared patterns somewhere (which may exclude what it could parse).
  pub fn declared(&self) -> bool {
    match self {
      G::Tok(_) | G::Lazy(_) => false,
      G::Starts(..) => true,
      G::Opt(t) | G::Rep { t, .. } => t.declared(),
      G::SepSeq { t, s, .. } | G::SepList { t, s, .. } => t.declared() || s.declared(),
      G::Seq(v) => v.iter().any(|g| g.declared()),
      G::OptPrefix(p, t) | G::OptTokenPrefix(p, t) | G::TokenPrefix(p, t) => p.declared() || t.declared(),
      G::Alt(v) => v.iter().flatten().any(|g| g.declared()),
    }
  }

  pub fn maybe(&self, ev: &[Ev], pos: usize) -> Result<bool, Fail> {
    Ok(match self {
      G::Tok(ks) => ks.contains(&look(ev, pos)?),
      G::Opt(_) | G::Rep { min1: false, .. } | G::SepSeq { min1: false, .. } => true,
      G::Rep { t, .. } | G::SepSeq { t, .. } | G::SepList { t, .. } => t.maybe(ev, pos)?,
      G::Seq(v) => v.first().map_or(Ok(true), |g| g.maybe(ev, pos))?,
      G::OptPrefix(p, t) => p.maybe(ev, pos)? || t.maybe(ev, pos)?,
      G::OptTokenPrefix(p, t) => {
        if p.maybe(ev, pos)? {
          t.maybe(ev, pos + 1)?
        } else {
          t.maybe(ev, pos)?
        }
      }
      G::TokenPrefix(p, t) => p.maybe(ev, pos)? && t.maybe(ev, pos + 1)?,
      G::Alt(v) => {
        let mut r = v.is_empty();
        for f in v {
          r = r || f.first().map_or(Ok(true), |g| g.maybe(ev, pos))?;
        }
        r
      }
      G::Starts(ps, _) => {
        let mut r = true;
        for (i, p) in ps.iter().enumerate() {
          let k = look(ev, pos + i)?;
          r = r && p.contains(&k);
        }
        r
      }
      G::Lazy(f) => f().maybe(ev, pos)?,
    })
  }

  pub fn parse(&self, ev: &[Ev], pos: usize) -> Result<(Tree, usize), Fail> {
    match self {
      G::Tok(ks) => {
        let k = look(ev, pos)?;
        if ks.contains(&k) {
          Ok((Tree::Tok(pos), pos + 1))
        } else {
          Err(Fail::At(pos))
        }
      }
      G::Opt(t) => {
        if t.maybe(ev, pos)? {
          let (x, p) = t.parse(ev, pos)?;
          Ok((Tree::List(vec![x]), p))
        } else {
          Ok((Tree::None, pos))
        }
      }
      G::Rep { t, min1 } => {
        let (mut v, mut p) = (vec![], pos);
        while (*min1 && v.is_empty()) || t.maybe(ev, p)? {
          let (x, q) = t.parse(ev, p)?;
          v.push(x);
          p = q;
        }
        Ok((Tree::List(v), p))
      }
      G::SepSeq { t, s, min1, trail } => {
        let (mut v, mut p) = (vec![], pos);
        if *min1 || t.maybe(ev, p)? {
          loop {
            let (x, q) = t.parse(ev, p)?;
            v.push(x);
            p = q;
            if !s.maybe(ev, p)? {
              break;
            }
            p = s.parse(ev, p)?.1;
            if *trail && !t.maybe(ev, p)? {
              break;
            }
          }
        }
        Ok((Tree::List(v), p))
      }
      G::SepList { t, s, trail } => {
        let (mut v, mut p) = (vec![], pos);
        loop {
          let (x, q) = t.parse(ev, p)?;
          v.push(x);
          p = q;
          if !s.maybe(ev, p)? {
            break;
          }
          let (x, q) = s.parse(ev, p)?;
          v.push(x);
          p = q;
          if *trail && !t.maybe(ev, p)? {
            break;
          }
        }
        Ok((Tree::List(v), p))
      }
      G::Seq(v) => {
        let (v, p) = fields(v, ev, pos)?;
        Ok((Tree::List(v), p))
      }
      G::OptPrefix(p, t) | G::OptTokenPrefix(p, t) => {
        let (x, q) = G::Opt(p.clone()).parse(ev, pos)?;
        let (y, q) = t.parse(ev, q)?;
        Ok((Tree::List(vec![x, y]), q))
      }
      G::TokenPrefix(p, t) => {
        let (x, q) = p.parse(ev, pos)?;
        let (y, q) = t.parse(ev, q)?;
        Ok((Tree::List(vec![x, y]), q))
      }
      G::Alt(v) => {
        let mut k = v.len() - 1;
        for (i, f) in v[..k].iter().enumerate() {
          if f.first().map_or(Ok(true), |g| g.maybe(ev, pos))? {
            k = i;
            break;
          }
        }
        let (f, p) = fields(&v[k], ev, pos)?;
        Ok((Tree::Var(k, f), p))
      }
      G::Starts(_, g) => g.parse(ev, pos),
      G::Lazy(f) => f().parse(ev, pos),
    }
  }
}

fn fields(gs: &[G], ev: &[Ev], pos: usize) -> Result<(Vec<Tree>, usize), Fail> {
  let (mut v, mut p) = (vec![], pos);
  for g in gs {
    let (x, q) = g.parse(ev, p)?;
    v.push(x);
    p = q;
  }
  Ok((v, p))
}

fn look(ev: &[Ev], pos: usize) -> Result<Kind, Fail> {
  match ev.get(pos) {
    Some(Ev::T(k)) => Ok(*k),
    Some(Ev::E) => Err(Fail::Tokenizer(pos)),
    None => Ok(Kind::End),
  }
}

pub trait Gram {
  fn g() -> G;
}

pub trait ToTree {
  fn tree(&self) -> Tree;
}

fn b<T: Gram>() -> Box<G> {
  Box::new(T::g())
}

impl<T: Gram> Gram for Box<T> {
  fn g() -> G {
    T::g()
  }
}
impl<T: ToTree> ToTree for Box<T> {
  fn tree(&self) -> Tree {
    (**self).tree()
  }
}
impl<T: Gram> Gram for Option<T> {
  fn g() -> G {
    G::Opt(b::<T>())
  }
}
impl<T: ToTree> ToTree for Option<T> {
  fn tree(&self) -> Tree {
    match self {
      None => Tree::None,
      Some(x) => Tree::List(vec![x.tree()]),
    }
  }
}
impl<T: Gram> Gram for Vec<T> {
  fn g() -> G {
    G::Rep { t: b::<T>(), min1: false }
  }
}
impl<T: ToTree> ToTree for Vec<T> {
  fn tree(&self) -> Tree {
    Tree::List(self.iter().map(|t| t.tree()).collect())
  }
}
impl<T: Gram> Gram for NonEmptySeq<T> {
  fn g() -> G {
    G::Rep { t: b::<T>(), min1: true }
  }
}
impl<T: ToTree> ToTree for NonEmptySeq<T> {
  fn tree(&self) -> Tree {
    self.0.tree()
  }
}

macro_rules! sep_seq {
  ($name:ident, $min1:literal, $trail:literal) => {
    impl<T: Gram, S: Gram> Gram for $name<T, S> {
      fn g() -> G {
        G::SepSeq { t: b::<T>(), s: b::<S>(), min1: $min1, trail: $trail }
      }
    }
    impl<T: ToTree, S> ToTree for $name<T, S> {
      fn tree(&self) -> Tree {
        self.0.tree()
      }
    }
  };
}
sep_seq!(SepSeq, false, false);
sep_seq!(NonEmptySepSeq, true, false);
sep_seq!(OptSepSeq, false, true);
sep_seq!(NonEmptyOptSepSeq, true, true);

impl<T: Gram, S: Gram> Gram for NonEmptySepList<T, S> {
  fn g() -> G {
    G::SepList { t: b::<T>(), s: b::<S>(), trail: false }
  }
}
impl<T: ToTree, S: ToTree> ToTree for NonEmptySepList<T, S> {
  fn tree(&self) -> Tree {
    let (mut v, mut l) = (vec![], self);
    loop {
      match l {
        Self::One(t) => {
          v.push(t.tree());
          return Tree::List(v);
        }
        Self::More(t, s, r) => {
          v.push(t.tree());
          v.push(s.tree());
          l = r;
        }
      }
    }
  }
}
impl<T: Gram, S: Gram> Gram for NonEmptyOptSepList<T, S> {
  fn g() -> G {
    G::SepList { t: b::<T>(), s: b::<S>(), trail: true }
  }
}
impl<T: ToTree, S: ToTree> ToTree for NonEmptyOptSepList<T, S> {
  fn tree(&self) -> Tree {
    let (mut v, mut l) = (vec![], self);
    loop {
      match l {
        Self::One(t) => {
          v.push(t.tree());
          return Tree::List(v);
        }
        Self::OneWithSep(t, s) => {
          v.push(t.tree());
          v.push(s.tree());
          return Tree::List(v);
        }
        Self::More(t, s, r) => {
          v.push(t.tree());
          v.push(s.tree());
          l = r;
        }
      }
    }
  }
}

macro_rules! prefix {
  ($name:ident) => {
    impl<P: Gram, T: Gram> Gram for $name<P, T> {
      fn g() -> G {
        G::$name(b::<P>(), b::<T>())
      }
    }
    impl<P: ToTree, T: ToTree> ToTree for $name<P, T> {
      fn tree(&self) -> Tree {
        Tree::List(vec![self.0.tree(), self.1.tree()])
      }
    }
  };
}
prefix!(OptPrefix);
prefix!(OptTokenPrefix);
prefix!(TokenPrefix);

#[allow(deprecated)]
impl<L: Gram, T: Gram, R: Gram> Gram for Quoted<L, T, R> {
  fn g() -> G {
    G::Seq(vec![L::g(), T::g(), R::g()])
  }
}
#[allow(deprecated)]
impl<L: ToTree, T: ToTree, R: ToTree> ToTree for Quoted<L, T, R> {
  fn tree(&self) -> Tree {
    Tree::List(vec![self.0.tree(), self.1.tree(), self.2.tree()])
  }
}

macro_rules! tuples {
  () => {};
  ($first:ident $($ts:ident)*) => {
    #[allow(non_snake_case)]
    impl<$first: Gram $(, $ts: Gram)*> Gram for ($first, $($ts,)*) {
      fn g() -> G {
        G::Seq(vec![$first::g() $(, $ts::g())*])
      }
    }
    #[allow(non_snake_case)]
    impl<$first: ToTree $(, $ts: ToTree)*> ToTree for ($first, $($ts,)*) {
      fn tree(&self) -> Tree {
        let ($first, $($ts,)*) = self;
        Tree::List(vec![$first.tree() $(, $ts.tree())*])
      }
    }
    tuples!($($ts)*);
  };
}
tuples!(T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26);

/// The span a value reports, if its type reports one.
pub enum SpanAns {
  Never,
  Span(Span),
  Try(Option<Span>),
}

/// Picks the span method of a concrete type (a must-have span first).
pub struct Probe<'a, T>(pub &'a T);
pub trait ViaSpanned {
  fn probe(&self) -> SpanAns;
}
pub trait ViaTrySpan {
  fn probe(&self) -> SpanAns;
}
pub trait ViaNothing {
  fn probe(&self) -> SpanAns;
}
impl<T: Spanned> ViaSpanned for &&Probe<'_, T> {
  fn probe(&self) -> SpanAns {
    SpanAns::Span(self.0.span())
  }
}
impl<T: TrySpan> ViaTrySpan for &Probe<'_, T> {
  fn probe(&self) -> SpanAns {
    SpanAns::Try(self.0.try_span())
  }
}
impl<T> ViaNothing for Probe<'_, T> {
  fn probe(&self) -> SpanAns {
    SpanAns::Never
  }
}

/// One structure: its grammar and its real parser.
#[derive(Clone, Copy)]
pub struct Entry {
  pub name: &'static str,
  pub g: fn() -> G,
  pub parse: fn(&mut TS) -> LResult<(Tree, SpanAns)>,
  pub maybe: fn(&mut TS) -> LResult<bool>,
}

impl Entry {
  pub fn new<T: Gram + Parse<TS> + ToTree>(name: &'static str, parse: fn(&mut TS) -> LResult<(Tree, SpanAns)>) -> Self {
    Entry { name, g: T::g, parse, maybe: T::maybe }
  }
}

#[macro_export]
macro_rules! entry {
  ($name:expr, $t:ty) => {
    $crate::model::Entry::new::<$t>($name, |ts| {
      #[allow(unused_imports)]
      use $crate::model::{ToTree, ViaNothing, ViaSpanned, ViaTrySpan};
      let v = <$t as ::laps::parse::Parse<$crate::model::TS>>::parse(ts)?;
      Ok((v.tree(), (&&&$crate::model::Probe(&v)).probe()))
    })
  };
}

/// Everything left in the stream, as event positions (`None`: a tokenizer error).
fn rest(ts: &mut TS) -> Vec<Option<usize>> {
  let mut v = vec![];
  for _ in 0..1000 {
    match ts.next_token() {
      Ok(t) if t.kind == Kind::End => return v,
      Ok(t) => v.push(Some(index(&t))),
      Err(_) => v.push(None),
    }
  }
  panic!("the stream does not end");
}

fn left(ev: &[Ev], from: usize, without: Option<usize>) -> Vec<Option<usize>> {
  (from..ev.len()).filter(|i| Some(*i) != without).map(|i| if ev[i] == Ev::E { None } else { Some(i) }).collect()
}

pub fn check_parse(e: &Entry, ev: &[Ev], g: &G, st: &mut Stats) -> Result<(), String> {
  let want = g.parse(ev, 0);
  let mut ts: TS = TokenBuffer::new(Script::new(ev));
  FAILED.with(|f| f.set(None));
  let span = ts.inner().span.clone();
  let got = (e.parse)(&mut ts);
  st.traces += 1;
  match (want, got) {
    (Ok((tree, p)), Ok((v, _))) => {
      st.transitions += p as u64;
      if v != tree {
        return Err(format!("parsed {v:?} instead of {tree:?}"));
      }
      let (r, w) = (rest(&mut ts), left(ev, p, None));
      if r != w {
        return Err(format!("leaves {r:?} instead of {w:?}"));
      }
      st.outcome(&tree);
      Ok(())
    }
    (Err(Fail::Tokenizer(_)), Err(Error::Fatal)) => Ok(()),
    (Err(Fail::At(i)), Err(_)) => {
      let at = FAILED.with(|f| f.get());
      if at != Some(i) && !(at.is_none() && span.error_num() > 0) {
        return Err(format!("fails at token {at:?} instead of {i}"));
      }
      st.outcome(&i);
      Ok(())
    }
    (w, g) => Err(format!("result {:?} instead of {w:?}", g.map(|v| v.0))),
  }
}

pub fn check_maybe(e: &Entry, ev: &[Ev], g: &G, st: &mut Stats) -> Result<(), String> {
  // with nothing buffered, and with everything buffered
  for buffered in [0, 1, 2] {
    if buffered > 0 && ev[..ev.len().min(buffered)].contains(&Ev::E) {
      continue;
    }
    let want = g.maybe(ev, 0);
    let mut ts: TS = TokenBuffer::new(Script::new(ev));
    let span = ts.inner().span.clone();
    if buffered > 0 {
      let _ = ts.peek_n(buffered);
    }
    let got = (e.maybe)(&mut ts);
    st.traces += 1;
    st.transitions += 1;
    st.outcome(&got.is_err());
    match (want, got) {
      (Ok(w), Ok(r)) => {
        if w != r {
          return Err(format!("can start: {r} instead of {w}"));
        }
        if span.error_num() + span.warning_num() != 0 {
          return Err("something was reported".into());
        }
        if (e.maybe)(&mut ts) != Ok(w) {
          return Err(format!("can start: {w}, but another answer when asked again"));
        }
        // sound: what parses can start
        if !w && !g.declared() && (e.parse)(&mut TokenBuffer::new(Script::new(ev))).is_ok() {
          return Err("parses but cannot start".into());
        }
        let (r, w) = (rest(&mut ts), left(ev, 0, None));
        if r != w {
          return Err(format!("leaves {r:?} instead of {w:?}"));
        }
      }
      (Err(Fail::Tokenizer(i)), Err(Error::Fatal)) => {
        let (r, w) = (rest(&mut ts), left(ev, 0, Some(i)));
        if r != w {
          return Err(format!("leaves {r:?} instead of {w:?} after the tokenizer failed"));
        }
      }
      (w, g) => return Err(format!("can start: {g:?} instead of {w:?}")),
    }
  }
  Ok(())
}

pub fn check_span(e: &Entry, ev: &[Ev], g: &G, st: &mut Stats) -> Result<(), String> {
  if g.parse(ev, 0).is_err() {
    return Ok(());
  }
  let mut ts: TS = TokenBuffer::new(Script::new(ev));
  let Ok((v, span)) = (e.parse)(&mut ts) else { return Ok(()) };
  // (that the tree is right is another property; the span is that of the tree at hand)
  let tree_at_hand = v;
  let want = tree_at_hand.ends();
  st.traces += 1;
  let got = match span {
    SpanAns::Never => {
      st.note("values of types without spans", 1);
      return Ok(());
    }
    SpanAns::Span(s) => Some(s),
    SpanAns::Try(s) => s,
  };
  st.transitions += 1;
  st.outcome(&(want.map(|w| w.1 - w.0)));
  let lc = |l: Location| (l.line, l.col);
  let got = got.map(|s| (lc(s.start()), lc(s.end())));
  let want = want.map(|(a, b)| (place(a).0, place(b).1));
  if got != want {
    return Err(format!("the span of {tree_at_hand:?} is {got:?} instead of {want:?}"));
  }
  Ok(())
}

/// All event sequences: `letters` (a, b, c, d and e for a tokenizer error) up to a length.
pub fn sequences(letters: &str, max: usize) -> Vec<Vec<Ev>> {
  eng::words(letters.bytes().collect::<Vec<u8>>(), 0, max)
    .map(|w| {
      w.into_iter()
        .map(|b| match b {
          b'a' => Ev::T(Kind::A),
          b'b' => Ev::T(Kind::B),
          b'c' => Ev::T(Kind::C),
          b'd' => Ev::T(Kind::D),
          _ => Ev::E,
        })
        .collect()
    })
    .collect()
}

pub fn show(ev: &[Ev]) -> String {
  ev.iter()
    .map(|e| match e {
      Ev::T(k) => format!("{k} "),
      Ev::E => "! ".into(),
    })
    .collect()
}

