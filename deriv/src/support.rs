//! Hand-written parts that the derived types are made of.
use crate::model::*;
use laps::ast::Quoted;
use laps::parse::Parse;
use laps::span::{Result, Span, Spanned};
use laps::token::TokenStream;
use std::marker::PhantomData;

/// The kinds an element accepts.
pub fn kinds<T: Gram>() -> Vec<Kind> {
  match T::g() {
    G::Tok(k) => k,
    _ => panic!("not an element"),
  }
}

#[allow(deprecated)]
pub type Quoted3<T> = Quoted<B, Vec<T>, C>;

/// Parts of generic types: one token of a kind.
pub trait Node {
  const K: Kind;
  fn g1() -> G {
    G::Tok(vec![Self::K])
  }
}
#[derive(Clone)]
pub struct NA;
#[derive(Clone)]
pub struct NB;
impl Node for NA {
  const K: Kind = Kind::A;
}
impl Node for NB {
  const K: Kind = Kind::B;
}

pub struct Wrap<T>(pub Tok, PhantomData<T>);
impl<T: Node, S: TokenStream<Token = Tok>> Parse<S> for Wrap<T> {
  fn parse(ts: &mut S) -> Result<Self> {
    Ok(Wrap(take(ts, T::K)?, PhantomData))
  }
  fn maybe(ts: &mut S) -> Result<bool> {
    Ok(ts.peek()?.kind == T::K)
  }
}
impl<T> Spanned for Wrap<T> {
  fn span(&self) -> Span {
    self.0.span.clone()
  }
}
impl<T: Node> Gram for Wrap<T> {
  fn g() -> G {
    T::g1()
  }
}
impl<T> ToTree for Wrap<T> {
  fn tree(&self) -> Tree {
    Tree::Tok(index(&self.0))
  }
}

/// N times an A.
pub struct Times<const N: usize>(pub Vec<Tok>);
impl<const N: usize, S: TokenStream<Token = Tok>> Parse<S> for Times<N> {
  fn parse(ts: &mut S) -> Result<Self> {
    Ok(Times((0..N).map(|_| take(ts, Kind::A)).collect::<Result<_>>()?))
  }
  fn maybe(ts: &mut S) -> Result<bool> {
    Ok(ts.peek()?.kind == Kind::A)
  }
}
impl<const N: usize> Spanned for Times<N> {
  fn span(&self) -> Span {
    self.0[0].span.clone().into_end_updated(self.0[N - 1].span.clone())
  }
}
impl<const N: usize> Gram for Times<N> {
  fn g() -> G {
    G::Seq(vec![G::Tok(vec![Kind::A]); N])
  }
}
impl<const N: usize> ToTree for Times<N> {
  fn tree(&self) -> Tree {
    Tree::List(self.0.iter().map(|t| Tree::Tok(index(t))).collect())
  }
}

pub struct Life<'a>(pub Tok, pub PhantomData<&'a ()>);
impl<S: TokenStream<Token = Tok>> Parse<S> for Life<'_> {
  fn parse(ts: &mut S) -> Result<Self> {
    Ok(Life(take(ts, Kind::B)?, PhantomData))
  }
  fn maybe(ts: &mut S) -> Result<bool> {
    Ok(ts.peek()?.kind == Kind::B)
  }
}
impl Spanned for Life<'_> {
  fn span(&self) -> Span {
    self.0.span.clone()
  }
}
impl Gram for Life<'_> {
  fn g() -> G {
    G::Tok(vec![Kind::B])
  }
}
impl ToTree for Life<'_> {
  fn tree(&self) -> Tree {
    Tree::Tok(index(&self.0))
  }
}

/// Parses from any tokens.
pub struct Nothing;
impl<S: TokenStream> Parse<S> for Nothing {
  fn parse(_: &mut S) -> Result<Self> {
    Ok(Nothing)
  }
  fn maybe(_: &mut S) -> Result<bool> {
    Ok(true)
  }
}
impl Gram for Nothing {
  fn g() -> G {
    G::Seq(vec![])
  }
}
impl ToTree for Nothing {
  fn tree(&self) -> Tree {
    Tree::List(vec![])
  }
}
