// generated by gen.py
#![allow(dead_code, non_camel_case_types, unused, unused_imports)]
#![cfg_attr(rustfmt, rustfmt_skip)]
use crate::model::*;
use laps::ast::*;
use laps::parse::Parse;
use laps::span::Spanned;
use laps::token::TokenStream;
use laps::prelude::*;
use crate::support::*;

#[derive(Spanned)]
pub struct T3 (A) ;
impl Gram for T3 { fn g() -> G { G::Seq(vec![<A as Gram>::g()]) } }
impl ToTree for T3 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T3 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T4  { a: B }
impl Gram for T4 { fn g() -> G { G::Seq(vec![<B as Gram>::g()]) } }
impl ToTree for T4 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T4 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T5 (AB) ;
impl Gram for T5 { fn g() -> G { G::Seq(vec![<AB as Gram>::g()]) } }
impl ToTree for T5 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T5 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T9 (A, A) ;
impl Gram for T9 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T9 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T9 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T10  { a: A, b: B }
impl Gram for T10 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T10 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T10 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T11 (A, AB) ;
impl Gram for T11 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T11 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T11 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T12  { a: A, #[try_span] b: Option<A> }
impl Gram for T12 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T12 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T12 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T13 (A, #[try_span] Vec<B>) ;
impl Gram for T13 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T13 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T13 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T14  { a: A, #[try_span] b: SepSeq<A, C> }
impl Gram for T14 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T14 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T14 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T15 (B, A) ;
impl Gram for T15 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T15 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T15 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T16  { a: B, b: B }
impl Gram for T16 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T16 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T16 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T17 (B, AB) ;
impl Gram for T17 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T17 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T17 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T18  { a: B, #[try_span] b: Option<A> }
impl Gram for T18 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T18 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T18 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T19 (B, #[try_span] Vec<B>) ;
impl Gram for T19 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T19 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T19 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T20  { a: B, #[try_span] b: SepSeq<A, C> }
impl Gram for T20 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T20 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T20 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T21 (AB, A) ;
impl Gram for T21 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T21 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T21 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T22  { a: AB, b: B }
impl Gram for T22 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T22 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T22 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T23 (AB, AB) ;
impl Gram for T23 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T23 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T23 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T24  { a: AB, #[try_span] b: Option<A> }
impl Gram for T24 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T24 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T24 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T25 (AB, #[try_span] Vec<B>) ;
impl Gram for T25 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T25 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T25 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T26  { a: AB, #[try_span] b: SepSeq<A, C> }
impl Gram for T26 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T26 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T26 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T27 (#[try_span] Option<A>, A) ;
impl Gram for T27 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T27 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T27 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T28  { #[try_span] a: Option<A>, b: B }
impl Gram for T28 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T28 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T28 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T29 (#[try_span] Option<A>, AB) ;
impl Gram for T29 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T29 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T29 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T33 (#[try_span] Vec<B>, A) ;
impl Gram for T33 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T33 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T33 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T34  { #[try_span] a: Vec<B>, b: B }
impl Gram for T34 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T34 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T34 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T35 (#[try_span] Vec<B>, AB) ;
impl Gram for T35 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T35 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T35 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T39 (#[try_span] SepSeq<A, C>, A) ;
impl Gram for T39 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T39 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T39 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T40  { #[try_span] a: SepSeq<A, C>, b: B }
impl Gram for T40 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T40 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T40 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T41 (#[try_span] SepSeq<A, C>, AB) ;
impl Gram for T41 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T41 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T41 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T45 (A, A, A) ;
impl Gram for T45 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T45 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T45 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T46  { a: A, b: A, first: B }
impl Gram for T46 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T46 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T46 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T47 (A, A, AB) ;
impl Gram for T47 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T47 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T47 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T48  { a: A, b: A, #[try_span] first: Option<A> }
impl Gram for T48 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T48 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T48 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T49 (A, A, #[try_span] Vec<B>) ;
impl Gram for T49 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T49 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T49 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T50  { a: A, b: A, #[try_span] first: SepSeq<A, C> }
impl Gram for T50 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T50 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T50 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T51 (A, B, A) ;
impl Gram for T51 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T51 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T51 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T52  { a: A, b: B, first: B }
impl Gram for T52 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T52 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T52 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T53 (A, B, AB) ;
impl Gram for T53 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T53 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T53 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T54  { a: A, b: B, #[try_span] first: Option<A> }
impl Gram for T54 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T54 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T54 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T55 (A, B, #[try_span] Vec<B>) ;
impl Gram for T55 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T55 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T55 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T56  { a: A, b: B, #[try_span] first: SepSeq<A, C> }
impl Gram for T56 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T56 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T56 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T57 (A, AB, A) ;
impl Gram for T57 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T57 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T57 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T58  { a: A, b: AB, first: B }
impl Gram for T58 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T58 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T58 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T59 (A, AB, AB) ;
impl Gram for T59 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T59 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T59 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T60  { a: A, b: AB, #[try_span] first: Option<A> }
impl Gram for T60 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T60 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T60 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T61 (A, AB, #[try_span] Vec<B>) ;
impl Gram for T61 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T61 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T61 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T62  { a: A, b: AB, #[try_span] first: SepSeq<A, C> }
impl Gram for T62 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T62 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T62 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T63 (A, #[try_span] Option<A>, A) ;
impl Gram for T63 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T63 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T63 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T64  { a: A, #[try_span] b: Option<A>, first: B }
impl Gram for T64 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T64 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T64 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T65 (A, #[try_span] Option<A>, AB) ;
impl Gram for T65 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T65 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T65 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T66  { a: A, #[try_span] b: Option<A>, #[try_span] first: Option<A> }
impl Gram for T66 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T66 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T66 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T67 (A, #[try_span] Option<A>, #[try_span] Vec<B>) ;
impl Gram for T67 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T67 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T67 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T68  { a: A, #[try_span] b: Option<A>, #[try_span] first: SepSeq<A, C> }
impl Gram for T68 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T68 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T68 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T69 (A, #[try_span] Vec<B>, A) ;
impl Gram for T69 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T69 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T69 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T70  { a: A, #[try_span] b: Vec<B>, first: B }
impl Gram for T70 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T70 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T70 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T71 (A, #[try_span] Vec<B>, AB) ;
impl Gram for T71 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T71 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T71 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T72  { a: A, #[try_span] b: Vec<B>, #[try_span] first: Option<A> }
impl Gram for T72 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T72 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T72 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T73 (A, #[try_span] Vec<B>, #[try_span] Vec<B>) ;
impl Gram for T73 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T73 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T73 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T74  { a: A, #[try_span] b: Vec<B>, #[try_span] first: SepSeq<A, C> }
impl Gram for T74 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T74 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T74 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T75 (A, #[try_span] SepSeq<A, C>, A) ;
impl Gram for T75 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T75 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T75 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T76  { a: A, #[try_span] b: SepSeq<A, C>, first: B }
impl Gram for T76 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T76 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T76 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T77 (A, #[try_span] SepSeq<A, C>, AB) ;
impl Gram for T77 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T77 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T77 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T78  { a: A, #[try_span] b: SepSeq<A, C>, #[try_span] first: Option<A> }
impl Gram for T78 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T78 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T78 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T79 (A, #[try_span] SepSeq<A, C>, #[try_span] Vec<B>) ;
impl Gram for T79 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T79 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T79 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T80  { a: A, #[try_span] b: SepSeq<A, C>, #[try_span] first: SepSeq<A, C> }
impl Gram for T80 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T80 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T80 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T81 (B, A, A) ;
impl Gram for T81 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T81 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T81 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T82  { a: B, b: A, first: B }
impl Gram for T82 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T82 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T82 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T83 (B, A, AB) ;
impl Gram for T83 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T83 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T83 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T84  { a: B, b: A, #[try_span] first: Option<A> }
impl Gram for T84 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T84 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T84 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T85 (B, A, #[try_span] Vec<B>) ;
impl Gram for T85 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T85 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T85 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T86  { a: B, b: A, #[try_span] first: SepSeq<A, C> }
impl Gram for T86 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T86 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T86 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T87 (B, B, A) ;
impl Gram for T87 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T87 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T87 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T88  { a: B, b: B, first: B }
impl Gram for T88 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T88 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T88 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T89 (B, B, AB) ;
impl Gram for T89 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T89 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T89 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T90  { a: B, b: B, #[try_span] first: Option<A> }
impl Gram for T90 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T90 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T90 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T91 (B, B, #[try_span] Vec<B>) ;
impl Gram for T91 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T91 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T91 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T92  { a: B, b: B, #[try_span] first: SepSeq<A, C> }
impl Gram for T92 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T92 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T92 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T93 (B, AB, A) ;
impl Gram for T93 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T93 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T93 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T94  { a: B, b: AB, first: B }
impl Gram for T94 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T94 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T94 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T95 (B, AB, AB) ;
impl Gram for T95 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T95 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T95 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T96  { a: B, b: AB, #[try_span] first: Option<A> }
impl Gram for T96 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T96 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T96 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T97 (B, AB, #[try_span] Vec<B>) ;
impl Gram for T97 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T97 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T97 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T98  { a: B, b: AB, #[try_span] first: SepSeq<A, C> }
impl Gram for T98 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T98 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T98 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T99 (B, #[try_span] Option<A>, A) ;
impl Gram for T99 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T99 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T99 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T100  { a: B, #[try_span] b: Option<A>, first: B }
impl Gram for T100 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T100 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T100 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T101 (B, #[try_span] Option<A>, AB) ;
impl Gram for T101 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T101 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T101 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T102  { a: B, #[try_span] b: Option<A>, #[try_span] first: Option<A> }
impl Gram for T102 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T102 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T102 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T103 (B, #[try_span] Option<A>, #[try_span] Vec<B>) ;
impl Gram for T103 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T103 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T103 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T104  { a: B, #[try_span] b: Option<A>, #[try_span] first: SepSeq<A, C> }
impl Gram for T104 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T104 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T104 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T105 (B, #[try_span] Vec<B>, A) ;
impl Gram for T105 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T105 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T105 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T106  { a: B, #[try_span] b: Vec<B>, first: B }
impl Gram for T106 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T106 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T106 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T107 (B, #[try_span] Vec<B>, AB) ;
impl Gram for T107 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T107 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T107 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T108  { a: B, #[try_span] b: Vec<B>, #[try_span] first: Option<A> }
impl Gram for T108 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T108 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T108 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T109 (B, #[try_span] Vec<B>, #[try_span] Vec<B>) ;
impl Gram for T109 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T109 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T109 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T110  { a: B, #[try_span] b: Vec<B>, #[try_span] first: SepSeq<A, C> }
impl Gram for T110 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T110 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T110 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T111 (B, #[try_span] SepSeq<A, C>, A) ;
impl Gram for T111 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T111 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T111 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T112  { a: B, #[try_span] b: SepSeq<A, C>, first: B }
impl Gram for T112 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T112 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T112 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T113 (B, #[try_span] SepSeq<A, C>, AB) ;
impl Gram for T113 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T113 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T113 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T114  { a: B, #[try_span] b: SepSeq<A, C>, #[try_span] first: Option<A> }
impl Gram for T114 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T114 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T114 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T115 (B, #[try_span] SepSeq<A, C>, #[try_span] Vec<B>) ;
impl Gram for T115 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T115 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T115 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T116  { a: B, #[try_span] b: SepSeq<A, C>, #[try_span] first: SepSeq<A, C> }
impl Gram for T116 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T116 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T116 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <B as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T117 (AB, A, A) ;
impl Gram for T117 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T117 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T117 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T118  { a: AB, b: A, first: B }
impl Gram for T118 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T118 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T118 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T119 (AB, A, AB) ;
impl Gram for T119 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T119 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T119 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T120  { a: AB, b: A, #[try_span] first: Option<A> }
impl Gram for T120 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T120 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T120 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T121 (AB, A, #[try_span] Vec<B>) ;
impl Gram for T121 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T121 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T121 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T122  { a: AB, b: A, #[try_span] first: SepSeq<A, C> }
impl Gram for T122 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T122 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T122 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T123 (AB, B, A) ;
impl Gram for T123 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T123 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T123 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T124  { a: AB, b: B, first: B }
impl Gram for T124 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T124 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T124 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T125 (AB, B, AB) ;
impl Gram for T125 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T125 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T125 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T126  { a: AB, b: B, #[try_span] first: Option<A> }
impl Gram for T126 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T126 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T126 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T127 (AB, B, #[try_span] Vec<B>) ;
impl Gram for T127 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T127 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T127 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T128  { a: AB, b: B, #[try_span] first: SepSeq<A, C> }
impl Gram for T128 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T128 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T128 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T129 (AB, AB, A) ;
impl Gram for T129 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T129 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T129 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T130  { a: AB, b: AB, first: B }
impl Gram for T130 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T130 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T130 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T131 (AB, AB, AB) ;
impl Gram for T131 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T131 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T131 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T132  { a: AB, b: AB, #[try_span] first: Option<A> }
impl Gram for T132 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T132 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T132 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T133 (AB, AB, #[try_span] Vec<B>) ;
impl Gram for T133 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T133 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T133 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T134  { a: AB, b: AB, #[try_span] first: SepSeq<A, C> }
impl Gram for T134 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T134 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T134 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T135 (AB, #[try_span] Option<A>, A) ;
impl Gram for T135 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T135 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T135 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T136  { a: AB, #[try_span] b: Option<A>, first: B }
impl Gram for T136 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T136 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T136 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T137 (AB, #[try_span] Option<A>, AB) ;
impl Gram for T137 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T137 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T137 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T138  { a: AB, #[try_span] b: Option<A>, #[try_span] first: Option<A> }
impl Gram for T138 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T138 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T138 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T139 (AB, #[try_span] Option<A>, #[try_span] Vec<B>) ;
impl Gram for T139 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T139 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T139 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T140  { a: AB, #[try_span] b: Option<A>, #[try_span] first: SepSeq<A, C> }
impl Gram for T140 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T140 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T140 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T141 (AB, #[try_span] Vec<B>, A) ;
impl Gram for T141 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T141 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T141 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T142  { a: AB, #[try_span] b: Vec<B>, first: B }
impl Gram for T142 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T142 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T142 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T143 (AB, #[try_span] Vec<B>, AB) ;
impl Gram for T143 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T143 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T143 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T144  { a: AB, #[try_span] b: Vec<B>, #[try_span] first: Option<A> }
impl Gram for T144 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T144 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T144 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T145 (AB, #[try_span] Vec<B>, #[try_span] Vec<B>) ;
impl Gram for T145 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T145 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T145 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T146  { a: AB, #[try_span] b: Vec<B>, #[try_span] first: SepSeq<A, C> }
impl Gram for T146 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T146 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T146 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T147 (AB, #[try_span] SepSeq<A, C>, A) ;
impl Gram for T147 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T147 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T147 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T148  { a: AB, #[try_span] b: SepSeq<A, C>, first: B }
impl Gram for T148 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T148 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T148 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T149 (AB, #[try_span] SepSeq<A, C>, AB) ;
impl Gram for T149 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T149 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T149 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T150  { a: AB, #[try_span] b: SepSeq<A, C>, #[try_span] first: Option<A> }
impl Gram for T150 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T150 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T150 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T151 (AB, #[try_span] SepSeq<A, C>, #[try_span] Vec<B>) ;
impl Gram for T151 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T151 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T151 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T152  { a: AB, #[try_span] b: SepSeq<A, C>, #[try_span] first: SepSeq<A, C> }
impl Gram for T152 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T152 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T152 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <AB as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T153 (#[try_span] Option<A>, A, A) ;
impl Gram for T153 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T153 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T153 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T154  { #[try_span] a: Option<A>, b: A, first: B }
impl Gram for T154 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T154 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T154 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T155 (#[try_span] Option<A>, A, AB) ;
impl Gram for T155 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T155 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T155 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T156  { #[try_span] a: Option<A>, b: A, #[try_span] first: Option<A> }
impl Gram for T156 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T156 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T156 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T157 (#[try_span] Option<A>, A, #[try_span] Vec<B>) ;
impl Gram for T157 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T157 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T157 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T158  { #[try_span] a: Option<A>, b: A, #[try_span] first: SepSeq<A, C> }
impl Gram for T158 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T158 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T158 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T159 (#[try_span] Option<A>, B, A) ;
impl Gram for T159 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T159 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T159 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T160  { #[try_span] a: Option<A>, b: B, first: B }
impl Gram for T160 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T160 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T160 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T161 (#[try_span] Option<A>, B, AB) ;
impl Gram for T161 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T161 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T161 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T162  { #[try_span] a: Option<A>, b: B, #[try_span] first: Option<A> }
impl Gram for T162 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T162 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T162 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T163 (#[try_span] Option<A>, B, #[try_span] Vec<B>) ;
impl Gram for T163 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T163 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T163 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T164  { #[try_span] a: Option<A>, b: B, #[try_span] first: SepSeq<A, C> }
impl Gram for T164 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T164 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T164 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T165 (#[try_span] Option<A>, AB, A) ;
impl Gram for T165 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T165 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T165 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T166  { #[try_span] a: Option<A>, b: AB, first: B }
impl Gram for T166 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T166 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T166 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T167 (#[try_span] Option<A>, AB, AB) ;
impl Gram for T167 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T167 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T167 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T168  { #[try_span] a: Option<A>, b: AB, #[try_span] first: Option<A> }
impl Gram for T168 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T168 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T168 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T169 (#[try_span] Option<A>, AB, #[try_span] Vec<B>) ;
impl Gram for T169 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T169 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T169 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T170  { #[try_span] a: Option<A>, b: AB, #[try_span] first: SepSeq<A, C> }
impl Gram for T170 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T170 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T170 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T171 (#[try_span] Option<A>, #[try_span] Option<A>, A) ;
impl Gram for T171 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T171 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T171 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T172  { #[try_span] a: Option<A>, #[try_span] b: Option<A>, first: B }
impl Gram for T172 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T172 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T172 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T173 (#[try_span] Option<A>, #[try_span] Option<A>, AB) ;
impl Gram for T173 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T173 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T173 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T177 (#[try_span] Option<A>, #[try_span] Vec<B>, A) ;
impl Gram for T177 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T177 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T177 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T178  { #[try_span] a: Option<A>, #[try_span] b: Vec<B>, first: B }
impl Gram for T178 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T178 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T178 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T179 (#[try_span] Option<A>, #[try_span] Vec<B>, AB) ;
impl Gram for T179 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T179 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T179 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T183 (#[try_span] Option<A>, #[try_span] SepSeq<A, C>, A) ;
impl Gram for T183 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T183 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T183 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T184  { #[try_span] a: Option<A>, #[try_span] b: SepSeq<A, C>, first: B }
impl Gram for T184 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T184 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T184 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T185 (#[try_span] Option<A>, #[try_span] SepSeq<A, C>, AB) ;
impl Gram for T185 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T185 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T185 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T189 (#[try_span] Vec<B>, A, A) ;
impl Gram for T189 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T189 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T189 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T190  { #[try_span] a: Vec<B>, b: A, first: B }
impl Gram for T190 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T190 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T190 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T191 (#[try_span] Vec<B>, A, AB) ;
impl Gram for T191 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T191 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T191 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T192  { #[try_span] a: Vec<B>, b: A, #[try_span] first: Option<A> }
impl Gram for T192 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T192 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T192 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T193 (#[try_span] Vec<B>, A, #[try_span] Vec<B>) ;
impl Gram for T193 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T193 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T193 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T194  { #[try_span] a: Vec<B>, b: A, #[try_span] first: SepSeq<A, C> }
impl Gram for T194 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T194 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T194 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T195 (#[try_span] Vec<B>, B, A) ;
impl Gram for T195 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T195 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T195 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T196  { #[try_span] a: Vec<B>, b: B, first: B }
impl Gram for T196 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T196 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T196 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T197 (#[try_span] Vec<B>, B, AB) ;
impl Gram for T197 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T197 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T197 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T198  { #[try_span] a: Vec<B>, b: B, #[try_span] first: Option<A> }
impl Gram for T198 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T198 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T198 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T199 (#[try_span] Vec<B>, B, #[try_span] Vec<B>) ;
impl Gram for T199 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T199 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T199 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T200  { #[try_span] a: Vec<B>, b: B, #[try_span] first: SepSeq<A, C> }
impl Gram for T200 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T200 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T200 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T201 (#[try_span] Vec<B>, AB, A) ;
impl Gram for T201 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T201 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T201 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T202  { #[try_span] a: Vec<B>, b: AB, first: B }
impl Gram for T202 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T202 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T202 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T203 (#[try_span] Vec<B>, AB, AB) ;
impl Gram for T203 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T203 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T203 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T204  { #[try_span] a: Vec<B>, b: AB, #[try_span] first: Option<A> }
impl Gram for T204 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T204 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T204 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T205 (#[try_span] Vec<B>, AB, #[try_span] Vec<B>) ;
impl Gram for T205 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T205 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T205 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T206  { #[try_span] a: Vec<B>, b: AB, #[try_span] first: SepSeq<A, C> }
impl Gram for T206 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T206 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T206 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T207 (#[try_span] Vec<B>, #[try_span] Option<A>, A) ;
impl Gram for T207 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T207 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T207 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T208  { #[try_span] a: Vec<B>, #[try_span] b: Option<A>, first: B }
impl Gram for T208 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T208 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T208 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T209 (#[try_span] Vec<B>, #[try_span] Option<A>, AB) ;
impl Gram for T209 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T209 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T209 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T213 (#[try_span] Vec<B>, #[try_span] Vec<B>, A) ;
impl Gram for T213 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T213 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T213 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T214  { #[try_span] a: Vec<B>, #[try_span] b: Vec<B>, first: B }
impl Gram for T214 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T214 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T214 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T215 (#[try_span] Vec<B>, #[try_span] Vec<B>, AB) ;
impl Gram for T215 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T215 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T215 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T219 (#[try_span] Vec<B>, #[try_span] SepSeq<A, C>, A) ;
impl Gram for T219 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T219 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T219 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T220  { #[try_span] a: Vec<B>, #[try_span] b: SepSeq<A, C>, first: B }
impl Gram for T220 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T220 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T220 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T221 (#[try_span] Vec<B>, #[try_span] SepSeq<A, C>, AB) ;
impl Gram for T221 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T221 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T221 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Vec<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T225 (#[try_span] SepSeq<A, C>, A, A) ;
impl Gram for T225 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T225 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T225 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T226  { #[try_span] a: SepSeq<A, C>, b: A, first: B }
impl Gram for T226 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T226 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T226 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T227 (#[try_span] SepSeq<A, C>, A, AB) ;
impl Gram for T227 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T227 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T227 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T228  { #[try_span] a: SepSeq<A, C>, b: A, #[try_span] first: Option<A> }
impl Gram for T228 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T228 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T228 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T229 (#[try_span] SepSeq<A, C>, A, #[try_span] Vec<B>) ;
impl Gram for T229 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T229 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T229 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T230  { #[try_span] a: SepSeq<A, C>, b: A, #[try_span] first: SepSeq<A, C> }
impl Gram for T230 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T230 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T230 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T231 (#[try_span] SepSeq<A, C>, B, A) ;
impl Gram for T231 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T231 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T231 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T232  { #[try_span] a: SepSeq<A, C>, b: B, first: B }
impl Gram for T232 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T232 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T232 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T233 (#[try_span] SepSeq<A, C>, B, AB) ;
impl Gram for T233 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T233 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T233 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T234  { #[try_span] a: SepSeq<A, C>, b: B, #[try_span] first: Option<A> }
impl Gram for T234 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T234 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T234 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T235 (#[try_span] SepSeq<A, C>, B, #[try_span] Vec<B>) ;
impl Gram for T235 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T235 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T235 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T236  { #[try_span] a: SepSeq<A, C>, b: B, #[try_span] first: SepSeq<A, C> }
impl Gram for T236 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T236 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T236 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T237 (#[try_span] SepSeq<A, C>, AB, A) ;
impl Gram for T237 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T237 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T237 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T238  { #[try_span] a: SepSeq<A, C>, b: AB, first: B }
impl Gram for T238 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T238 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T238 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T239 (#[try_span] SepSeq<A, C>, AB, AB) ;
impl Gram for T239 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T239 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T239 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T240  { #[try_span] a: SepSeq<A, C>, b: AB, #[try_span] first: Option<A> }
impl Gram for T240 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T240 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T240 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T241 (#[try_span] SepSeq<A, C>, AB, #[try_span] Vec<B>) ;
impl Gram for T241 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T241 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T241 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T242  { #[try_span] a: SepSeq<A, C>, b: AB, #[try_span] first: SepSeq<A, C> }
impl Gram for T242 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T242 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T242 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T243 (#[try_span] SepSeq<A, C>, #[try_span] Option<A>, A) ;
impl Gram for T243 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T243 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T243 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T244  { #[try_span] a: SepSeq<A, C>, #[try_span] b: Option<A>, first: B }
impl Gram for T244 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T244 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T244 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T245 (#[try_span] SepSeq<A, C>, #[try_span] Option<A>, AB) ;
impl Gram for T245 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T245 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T245 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T249 (#[try_span] SepSeq<A, C>, #[try_span] Vec<B>, A) ;
impl Gram for T249 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T249 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T249 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T250  { #[try_span] a: SepSeq<A, C>, #[try_span] b: Vec<B>, first: B }
impl Gram for T250 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T250 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T250 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T251 (#[try_span] SepSeq<A, C>, #[try_span] Vec<B>, AB) ;
impl Gram for T251 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T251 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T251 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T255 (#[try_span] SepSeq<A, C>, #[try_span] SepSeq<A, C>, A) ;
impl Gram for T255 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T255 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T255 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T256  { #[try_span] a: SepSeq<A, C>, #[try_span] b: SepSeq<A, C>, first: B }
impl Gram for T256 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T256 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T256 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T257 (#[try_span] SepSeq<A, C>, #[try_span] SepSeq<A, C>, AB) ;
impl Gram for T257 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T257 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T257 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <SepSeq<A, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T261 (C) ;
impl Gram for T261 { fn g() -> G { G::Seq(vec![<C as Gram>::g()]) } }
impl ToTree for T261 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T261 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T262  { a: C, b: A }
impl Gram for T262 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T262 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T262 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T263 (#[try_span] Option<A>, C) ;
impl Gram for T263 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T263 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T263 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T264  { a: Box<B> }
impl Gram for T264 { fn g() -> G { G::Seq(vec![<Box<B> as Gram>::g()]) } }
impl ToTree for T264 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T264 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Box<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T265 (Box<B>, A) ;
impl Gram for T265 { fn g() -> G { G::Seq(vec![<Box<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T265 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T265 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Box<B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T266  { #[try_span] a: Option<A>, b: Box<B> }
impl Gram for T266 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Box<B> as Gram>::g()]) } }
impl ToTree for T266 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T266 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T268  { #[try_span] a: Option<Vec<C>>, b: A }
impl Gram for T268 { fn g() -> G { G::Seq(vec![<Option<Vec<C>> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T268 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T268 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<Vec<C>> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T270  { a: TokenPrefix<A, B> }
impl Gram for T270 { fn g() -> G { G::Seq(vec![<TokenPrefix<A, B> as Gram>::g()]) } }
impl ToTree for T270 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T270 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <TokenPrefix<A, B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T271 (TokenPrefix<A, B>, A) ;
impl Gram for T271 { fn g() -> G { G::Seq(vec![<TokenPrefix<A, B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T271 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T271 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <TokenPrefix<A, B> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T272  { #[try_span] a: Option<A>, b: TokenPrefix<A, B> }
impl Gram for T272 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <TokenPrefix<A, B> as Gram>::g()]) } }
impl ToTree for T272 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T272 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T273 (OptPrefix<B, C>) ;
impl Gram for T273 { fn g() -> G { G::Seq(vec![<OptPrefix<B, C> as Gram>::g()]) } }
impl ToTree for T273 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T273 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <OptPrefix<B, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T274  { a: OptPrefix<B, C>, b: A }
impl Gram for T274 { fn g() -> G { G::Seq(vec![<OptPrefix<B, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T274 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T274 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <OptPrefix<B, C> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T275 (#[try_span] Option<A>, OptPrefix<B, C>) ;
impl Gram for T275 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <OptPrefix<B, C> as Gram>::g()]) } }
impl ToTree for T275 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T275 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T276  { a: NonEmptySeq<A> }
impl Gram for T276 { fn g() -> G { G::Seq(vec![<NonEmptySeq<A> as Gram>::g()]) } }
impl ToTree for T276 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T276 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <NonEmptySeq<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T277 (NonEmptySeq<A>, A) ;
impl Gram for T277 { fn g() -> G { G::Seq(vec![<NonEmptySeq<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T277 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T277 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <NonEmptySeq<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T278  { #[try_span] a: Option<A>, b: NonEmptySeq<A> }
impl Gram for T278 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <NonEmptySeq<A> as Gram>::g()]) } }
impl ToTree for T278 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T278 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T279  { a: A, b: B, first: A, _c: B }
impl Gram for T279 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T279 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T279 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T280  { a: A, #[try_span] b: Option<A>, #[try_span] first: Vec<B>, _c: C }
impl Gram for T280 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T280 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T280 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T281  { #[try_span] a: Option<A>, #[try_span] b: Option<B>, #[try_span] first: Option<B>, _c: C }
impl Gram for T281 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T281 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T281 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T282  { a: C, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<A> }
impl Gram for T282 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T282 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T282 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T283 (A, B, A, B) ;
impl Gram for T283 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T283 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T283 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T284 (A, #[try_span] Option<A>, #[try_span] Vec<B>, C) ;
impl Gram for T284 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T284 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T284 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T285 (#[try_span] Option<A>, #[try_span] Option<B>, #[try_span] Option<B>, C) ;
impl Gram for T285 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T285 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T285 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T286 (C, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<A>) ;
impl Gram for T286 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T286 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T286 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T287  { a: A, b: B, first: A, _c: B, tokens: B }
impl Gram for T287 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T287 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T287 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T288  { a: A, #[try_span] b: Option<A>, #[try_span] first: Vec<B>, _c: C, tokens: B }
impl Gram for T288 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T288 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T288 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T289  { #[try_span] a: Option<A>, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<B>, tokens: C }
impl Gram for T289 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T289 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T289 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T290  { a: C, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<B>, #[try_span] tokens: Option<A> }
impl Gram for T290 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T290 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T290 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T291 (A, B, A, B, B) ;
impl Gram for T291 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T291 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T291 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T292 (A, #[try_span] Option<A>, #[try_span] Vec<B>, C, B) ;
impl Gram for T292 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T292 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T292 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T293 (#[try_span] Option<A>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, C) ;
impl Gram for T293 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T293 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T293 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T294 (C, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<A>) ;
impl Gram for T294 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T294 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T294 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T295  { a: A, b: B, first: A, _c: B, tokens: B, span: C, f6: B, f7: C }
impl Gram for T295 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T295 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T295 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T296  { a: A, #[try_span] b: Option<A>, #[try_span] first: Vec<B>, _c: C, tokens: B, #[try_span] span: SepSeq<A, C>, f6: C, f7: A }
impl Gram for T296 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T296 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T296 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T297  { #[try_span] a: Option<A>, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<B>, #[try_span] tokens: Option<B>, #[try_span] span: Option<B>, #[try_span] f6: Option<B>, f7: C }
impl Gram for T297 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T297 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T297 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T298  { a: C, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<B>, #[try_span] tokens: Option<B>, #[try_span] span: Option<B>, #[try_span] f6: Option<B>, #[try_span] f7: Option<A> }
impl Gram for T298 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T298 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T298 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T299 (A, B, A, B, B, C, B, C) ;
impl Gram for T299 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T299 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T299 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T300 (A, #[try_span] Option<A>, #[try_span] Vec<B>, C, B, #[try_span] SepSeq<A, C>, C, A) ;
impl Gram for T300 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T300 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T300 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T301 (#[try_span] Option<A>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, C) ;
impl Gram for T301 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T301 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T301 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T302 (C, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<A>) ;
impl Gram for T302 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T302 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T302 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T303  { a: A, b: B, first: A, _c: B, tokens: B, span: C, f6: B, f7: C, f8: C, f9: D, f10: C, f11: D }
impl Gram for T303 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <C as Gram>::g(), <D as Gram>::g()]) } }
impl ToTree for T303 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T303 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()?, f8: ts.parse()?, f9: ts.parse()?, f10: ts.parse()?, f11: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T304  { a: A, #[try_span] b: Option<A>, #[try_span] first: Vec<B>, _c: C, tokens: B, #[try_span] span: SepSeq<A, C>, f6: C, f7: A, #[try_span] f8: Option<A>, #[try_span] f9: Vec<B>, f10: C, f11: B }
impl Gram for T304 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T304 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T304 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()?, f8: ts.parse()?, f9: ts.parse()?, f10: ts.parse()?, f11: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T305  { #[try_span] a: Option<A>, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<B>, #[try_span] tokens: Option<B>, #[try_span] span: Option<B>, #[try_span] f6: Option<B>, #[try_span] f7: Option<B>, #[try_span] f8: Option<B>, #[try_span] f9: Option<B>, #[try_span] f10: Option<B>, f11: C }
impl Gram for T305 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T305 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T305 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()?, f8: ts.parse()?, f9: ts.parse()?, f10: ts.parse()?, f11: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T306  { a: C, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<B>, #[try_span] tokens: Option<B>, #[try_span] span: Option<B>, #[try_span] f6: Option<B>, #[try_span] f7: Option<B>, #[try_span] f8: Option<B>, #[try_span] f9: Option<B>, #[try_span] f10: Option<B>, #[try_span] f11: Option<A> }
impl Gram for T306 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T306 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T306 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()?, f8: ts.parse()?, f9: ts.parse()?, f10: ts.parse()?, f11: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T307 (A, B, A, B, B, C, B, C, C, D, C, D) ;
impl Gram for T307 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <C as Gram>::g(), <D as Gram>::g()]) } }
impl ToTree for T307 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T307 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T308 (A, #[try_span] Option<A>, #[try_span] Vec<B>, C, B, #[try_span] SepSeq<A, C>, C, A, #[try_span] Option<A>, #[try_span] Vec<B>, C, B) ;
impl Gram for T308 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T308 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T308 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T309 (#[try_span] Option<A>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, C) ;
impl Gram for T309 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T309 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T309 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T310 (C, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<A>) ;
impl Gram for T310 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T310 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T310 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T311  { a: A, b: B, first: A, _c: B, tokens: B, span: C, f6: B, f7: C, f8: C, f9: D, f10: C, f11: D, f12: D, f13: A, f14: D, f15: A, f16: A, f17: B, f18: A, f19: B }
impl Gram for T311 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <D as Gram>::g(), <A as Gram>::g(), <D as Gram>::g(), <A as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T311 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11, f12: f12, f13: f13, f14: f14, f15: f15, f16: f16, f17: f17, f18: f18, f19: f19 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T311 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()?, f8: ts.parse()?, f9: ts.parse()?, f10: ts.parse()?, f11: ts.parse()?, f12: ts.parse()?, f13: ts.parse()?, f14: ts.parse()?, f15: ts.parse()?, f16: ts.parse()?, f17: ts.parse()?, f18: ts.parse()?, f19: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T312  { a: A, #[try_span] b: Option<A>, #[try_span] first: Vec<B>, _c: C, tokens: B, #[try_span] span: SepSeq<A, C>, f6: C, f7: A, #[try_span] f8: Option<A>, #[try_span] f9: Vec<B>, f10: C, f11: B, #[try_span] f12: SepSeq<A, C>, f13: C, f14: A, #[try_span] f15: Option<A>, #[try_span] f16: Vec<B>, f17: C, f18: B, #[try_span] f19: SepSeq<A, C> }
impl Gram for T312 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T312 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11, f12: f12, f13: f13, f14: f14, f15: f15, f16: f16, f17: f17, f18: f18, f19: f19 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T312 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()?, f8: ts.parse()?, f9: ts.parse()?, f10: ts.parse()?, f11: ts.parse()?, f12: ts.parse()?, f13: ts.parse()?, f14: ts.parse()?, f15: ts.parse()?, f16: ts.parse()?, f17: ts.parse()?, f18: ts.parse()?, f19: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T313  { #[try_span] a: Option<A>, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<B>, #[try_span] tokens: Option<B>, #[try_span] span: Option<B>, #[try_span] f6: Option<B>, #[try_span] f7: Option<B>, #[try_span] f8: Option<B>, #[try_span] f9: Option<B>, #[try_span] f10: Option<B>, #[try_span] f11: Option<B>, #[try_span] f12: Option<B>, #[try_span] f13: Option<B>, #[try_span] f14: Option<B>, #[try_span] f15: Option<B>, #[try_span] f16: Option<B>, #[try_span] f17: Option<B>, #[try_span] f18: Option<B>, f19: C }
impl Gram for T313 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T313 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11, f12: f12, f13: f13, f14: f14, f15: f15, f16: f16, f17: f17, f18: f18, f19: f19 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T313 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()?, f8: ts.parse()?, f9: ts.parse()?, f10: ts.parse()?, f11: ts.parse()?, f12: ts.parse()?, f13: ts.parse()?, f14: ts.parse()?, f15: ts.parse()?, f16: ts.parse()?, f17: ts.parse()?, f18: ts.parse()?, f19: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T314  { a: C, #[try_span] b: Option<B>, #[try_span] first: Option<B>, #[try_span] _c: Option<B>, #[try_span] tokens: Option<B>, #[try_span] span: Option<B>, #[try_span] f6: Option<B>, #[try_span] f7: Option<B>, #[try_span] f8: Option<B>, #[try_span] f9: Option<B>, #[try_span] f10: Option<B>, #[try_span] f11: Option<B>, #[try_span] f12: Option<B>, #[try_span] f13: Option<B>, #[try_span] f14: Option<B>, #[try_span] f15: Option<B>, #[try_span] f16: Option<B>, #[try_span] f17: Option<B>, #[try_span] f18: Option<B>, #[try_span] f19: Option<A> }
impl Gram for T314 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T314 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11, f12: f12, f13: f13, f14: f14, f15: f15, f16: f16, f17: f17, f18: f18, f19: f19 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T314 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()?, first: ts.parse()?, _c: ts.parse()?, tokens: ts.parse()?, span: ts.parse()?, f6: ts.parse()?, f7: ts.parse()?, f8: ts.parse()?, f9: ts.parse()?, f10: ts.parse()?, f11: ts.parse()?, f12: ts.parse()?, f13: ts.parse()?, f14: ts.parse()?, f15: ts.parse()?, f16: ts.parse()?, f17: ts.parse()?, f18: ts.parse()?, f19: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T315 (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B) ;
impl Gram for T315 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <D as Gram>::g(), <A as Gram>::g(), <D as Gram>::g(), <A as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T315 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T315 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T316 (A, #[try_span] Option<A>, #[try_span] Vec<B>, C, B, #[try_span] SepSeq<A, C>, C, A, #[try_span] Option<A>, #[try_span] Vec<B>, C, B, #[try_span] SepSeq<A, C>, C, A, #[try_span] Option<A>, #[try_span] Vec<B>, C, B, #[try_span] SepSeq<A, C>) ;
impl Gram for T316 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T316 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T316 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T317 (#[try_span] Option<A>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, C) ;
impl Gram for T317 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T317 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T317 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T318 (C, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<B>, #[try_span] Option<A>) ;
impl Gram for T318 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T318 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T318 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <C as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T320 { V0(A) }
impl Gram for T320 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()]]) } }
impl ToTree for T320 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T320 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok({ Self::V0(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T321 { V0 { a: B, b: A } }
impl Gram for T321 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T321 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T321 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok({ Self::V0 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T322 { V0(#[try_span] Option<A>, C) }
impl Gram for T322 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T322 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T322 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok({ Self::V0(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T324 { V0 { a: AB, b: C } }
impl Gram for T324 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T324 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T324 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok({ Self::V0 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T334 { V0(A), V1(A) }
impl Gram for T334 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T334 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T334 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T335 { V0(A), V1 { a: B, b: A } }
impl Gram for T335 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T335 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T335 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T336 { V0(A), V1(#[try_span] Option<A>, C) }
impl Gram for T336 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T336 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T336 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T338 { V0(A), V1 { a: AB, b: C } }
impl Gram for T338 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T338 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T338 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T341 { V0 { a: B, b: A }, V1(A) }
impl Gram for T341 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T341 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T341 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T342 { V0 { a: B, b: A }, V1 { a: B, b: A } }
impl Gram for T342 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T342 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T342 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T343 { V0 { a: B, b: A }, V1(#[try_span] Option<A>, C) }
impl Gram for T343 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T343 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T343 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T345 { V0 { a: B, b: A }, V1 { a: AB, b: C } }
impl Gram for T345 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T345 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T345 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T348 { V0(#[try_span] Option<A>, C), V1(A) }
impl Gram for T348 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T348 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T348 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T349 { V0(#[try_span] Option<A>, C), V1 { a: B, b: A } }
impl Gram for T349 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T349 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T349 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T350 { V0(#[try_span] Option<A>, C), V1(#[try_span] Option<A>, C) }
impl Gram for T350 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T350 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T350 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T352 { V0(#[try_span] Option<A>, C), V1 { a: AB, b: C } }
impl Gram for T352 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T352 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T352 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T362 { V0 { a: AB, b: C }, V1(A) }
impl Gram for T362 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T362 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T362 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T363 { V0 { a: AB, b: C }, V1 { a: B, b: A } }
impl Gram for T363 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T363 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T363 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T364 { V0 { a: AB, b: C }, V1(#[try_span] Option<A>, C) }
impl Gram for T364 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T364 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T364 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T366 { V0 { a: AB, b: C }, V1 { a: AB, b: C } }
impl Gram for T366 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T366 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T366 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T432 { V0(A), V1(A), V2(A) }
impl Gram for T432 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T432 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T432 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T433 { V0(A), V1(A), V2 { a: B, b: A } }
impl Gram for T433 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T433 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T433 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T434 { V0(A), V1(A), V2(#[try_span] Option<A>, C) }
impl Gram for T434 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T434 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T434 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T436 { V0(A), V1(A), V2 { a: AB, b: C } }
impl Gram for T436 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T436 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T436 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T439 { V0(A), V1 { a: B, b: A }, V2(A) }
impl Gram for T439 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T439 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T439 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T440 { V0(A), V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T440 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T440 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T440 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T441 { V0(A), V1 { a: B, b: A }, V2(#[try_span] Option<A>, C) }
impl Gram for T441 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T441 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T441 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T443 { V0(A), V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T443 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T443 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T443 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T446 { V0(A), V1(#[try_span] Option<A>, C), V2(A) }
impl Gram for T446 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T446 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T446 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T447 { V0(A), V1(#[try_span] Option<A>, C), V2 { a: B, b: A } }
impl Gram for T447 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T447 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T447 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T448 { V0(A), V1(#[try_span] Option<A>, C), V2(#[try_span] Option<A>, C) }
impl Gram for T448 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T448 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T448 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T450 { V0(A), V1(#[try_span] Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T450 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T450 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T450 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T460 { V0(A), V1 { a: AB, b: C }, V2(A) }
impl Gram for T460 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T460 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T460 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T461 { V0(A), V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T461 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T461 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T461 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T462 { V0(A), V1 { a: AB, b: C }, V2(#[try_span] Option<A>, C) }
impl Gram for T462 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T462 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T462 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T464 { V0(A), V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T464 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T464 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T464 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T481 { V0 { a: B, b: A }, V1(A), V2(A) }
impl Gram for T481 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T481 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T481 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T482 { V0 { a: B, b: A }, V1(A), V2 { a: B, b: A } }
impl Gram for T482 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T482 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T482 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T483 { V0 { a: B, b: A }, V1(A), V2(#[try_span] Option<A>, C) }
impl Gram for T483 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T483 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T483 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T485 { V0 { a: B, b: A }, V1(A), V2 { a: AB, b: C } }
impl Gram for T485 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T485 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T485 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T488 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2(A) }
impl Gram for T488 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T488 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T488 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T489 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T489 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T489 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T489 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T490 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2(#[try_span] Option<A>, C) }
impl Gram for T490 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T490 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T490 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T492 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T492 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T492 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T492 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T495 { V0 { a: B, b: A }, V1(#[try_span] Option<A>, C), V2(A) }
impl Gram for T495 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T495 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T495 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T496 { V0 { a: B, b: A }, V1(#[try_span] Option<A>, C), V2 { a: B, b: A } }
impl Gram for T496 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T496 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T496 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T497 { V0 { a: B, b: A }, V1(#[try_span] Option<A>, C), V2(#[try_span] Option<A>, C) }
impl Gram for T497 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T497 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T497 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T499 { V0 { a: B, b: A }, V1(#[try_span] Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T499 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T499 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T499 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T509 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2(A) }
impl Gram for T509 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T509 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T509 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T510 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T510 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T510 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T510 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T511 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2(#[try_span] Option<A>, C) }
impl Gram for T511 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T511 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T511 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T513 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T513 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T513 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T513 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T530 { V0(#[try_span] Option<A>, C), V1(A), V2(A) }
impl Gram for T530 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T530 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T530 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T531 { V0(#[try_span] Option<A>, C), V1(A), V2 { a: B, b: A } }
impl Gram for T531 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T531 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T531 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T532 { V0(#[try_span] Option<A>, C), V1(A), V2(#[try_span] Option<A>, C) }
impl Gram for T532 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T532 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T532 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T534 { V0(#[try_span] Option<A>, C), V1(A), V2 { a: AB, b: C } }
impl Gram for T534 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T534 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T534 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T537 { V0(#[try_span] Option<A>, C), V1 { a: B, b: A }, V2(A) }
impl Gram for T537 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T537 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T537 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T538 { V0(#[try_span] Option<A>, C), V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T538 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T538 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T538 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T539 { V0(#[try_span] Option<A>, C), V1 { a: B, b: A }, V2(#[try_span] Option<A>, C) }
impl Gram for T539 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T539 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T539 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T541 { V0(#[try_span] Option<A>, C), V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T541 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T541 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T541 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T544 { V0(#[try_span] Option<A>, C), V1(#[try_span] Option<A>, C), V2(A) }
impl Gram for T544 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T544 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T544 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T545 { V0(#[try_span] Option<A>, C), V1(#[try_span] Option<A>, C), V2 { a: B, b: A } }
impl Gram for T545 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T545 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T545 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T546 { V0(#[try_span] Option<A>, C), V1(#[try_span] Option<A>, C), V2(#[try_span] Option<A>, C) }
impl Gram for T546 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T546 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T546 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T548 { V0(#[try_span] Option<A>, C), V1(#[try_span] Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T548 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T548 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T548 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T558 { V0(#[try_span] Option<A>, C), V1 { a: AB, b: C }, V2(A) }
impl Gram for T558 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T558 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T558 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T559 { V0(#[try_span] Option<A>, C), V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T559 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T559 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T559 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T560 { V0(#[try_span] Option<A>, C), V1 { a: AB, b: C }, V2(#[try_span] Option<A>, C) }
impl Gram for T560 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T560 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T560 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T562 { V0(#[try_span] Option<A>, C), V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T562 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T562 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T562 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Option<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T628 { V0 { a: AB, b: C }, V1(A), V2(A) }
impl Gram for T628 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T628 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T628 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T629 { V0 { a: AB, b: C }, V1(A), V2 { a: B, b: A } }
impl Gram for T629 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T629 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T629 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T630 { V0 { a: AB, b: C }, V1(A), V2(#[try_span] Option<A>, C) }
impl Gram for T630 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T630 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T630 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T632 { V0 { a: AB, b: C }, V1(A), V2 { a: AB, b: C } }
impl Gram for T632 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T632 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T632 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T635 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2(A) }
impl Gram for T635 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T635 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T635 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T636 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T636 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T636 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T636 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T637 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2(#[try_span] Option<A>, C) }
impl Gram for T637 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T637 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T637 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T639 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T639 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T639 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T639 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T642 { V0 { a: AB, b: C }, V1(#[try_span] Option<A>, C), V2(A) }
impl Gram for T642 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T642 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T642 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T643 { V0 { a: AB, b: C }, V1(#[try_span] Option<A>, C), V2 { a: B, b: A } }
impl Gram for T643 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T643 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T643 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T644 { V0 { a: AB, b: C }, V1(#[try_span] Option<A>, C), V2(#[try_span] Option<A>, C) }
impl Gram for T644 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T644 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T644 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T646 { V0 { a: AB, b: C }, V1(#[try_span] Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T646 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T646 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T646 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <Option<A> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T656 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2(A) }
impl Gram for T656 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T656 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T656 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T657 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T657 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T657 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T657 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T658 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2(#[try_span] Option<A>, C) }
impl Gram for T658 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T658 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T658 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <Option<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T660 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T660 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T660 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T660 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <AB as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <AB as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else { Self::V2 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)? || <AB as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T718 { V0 { a: A, b: B }, V1(B, #[try_span] Option<A>), V2 { a: C }, V3(D, AB) }
impl Gram for T718 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T718 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T718 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <C as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()? } } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T719 { V0 { a: A, b: B }, V1(B, #[try_span] Option<A>), V2(D, AB), V3 { a: C } }
impl Gram for T719 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T719 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T719 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <D as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T720 { V0 { a: A, b: B }, V1 { a: C }, V2(B, #[try_span] Option<A>), V3(D, AB) }
impl Gram for T720 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T720 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T720 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <C as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T721 { V0 { a: A, b: B }, V1 { a: C }, V2(D, AB), V3(B, #[try_span] Option<A>) }
impl Gram for T721 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T721 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T721 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <C as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()? } } else if <D as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T722 { V0 { a: A, b: B }, V1(D, AB), V2(B, #[try_span] Option<A>), V3 { a: C } }
impl Gram for T722 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T722 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T722 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <D as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T723 { V0 { a: A, b: B }, V1(D, AB), V2 { a: C }, V3(B, #[try_span] Option<A>) }
impl Gram for T723 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T723 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T723 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else if <D as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <C as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()? } } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T724 { V0(B, #[try_span] Option<A>), V1 { a: A, b: B }, V2 { a: C }, V3(D, AB) }
impl Gram for T724 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T724 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T724 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else if <C as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()? } } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T725 { V0(B, #[try_span] Option<A>), V1 { a: A, b: B }, V2(D, AB), V3 { a: C } }
impl Gram for T725 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T725 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T725 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else if <D as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T726 { V0(B, #[try_span] Option<A>), V1 { a: C }, V2 { a: A, b: B }, V3(D, AB) }
impl Gram for T726 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T726 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T726 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <C as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()?, b: ts.parse()? } } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T727 { V0(B, #[try_span] Option<A>), V1 { a: C }, V2(D, AB), V3 { a: A, b: B } }
impl Gram for T727 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T727 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T727 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <C as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()? } } else if <D as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T728 { V0(B, #[try_span] Option<A>), V1(D, AB), V2 { a: A, b: B }, V3 { a: C } }
impl Gram for T728 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T728 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T728 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <D as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()?, b: ts.parse()? } } else { Self::V3 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T729 { V0(B, #[try_span] Option<A>), V1(D, AB), V2 { a: C }, V3 { a: A, b: B } }
impl Gram for T729 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T729 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T729 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <D as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <C as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()? } } else { Self::V3 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T730 { V0 { a: C }, V1 { a: A, b: B }, V2(B, #[try_span] Option<A>), V3(D, AB) }
impl Gram for T730 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T730 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T730 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T731 { V0 { a: C }, V1 { a: A, b: B }, V2(D, AB), V3(B, #[try_span] Option<A>) }
impl Gram for T731 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T731 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T731 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else if <D as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T732 { V0 { a: C }, V1(B, #[try_span] Option<A>), V2 { a: A, b: B }, V3(D, AB) }
impl Gram for T732 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T732 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T732 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()?, b: ts.parse()? } } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T733 { V0 { a: C }, V1(B, #[try_span] Option<A>), V2(D, AB), V3 { a: A, b: B } }
impl Gram for T733 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T733 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T733 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <D as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T734 { V0 { a: C }, V1(D, AB), V2 { a: A, b: B }, V3(B, #[try_span] Option<A>) }
impl Gram for T734 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T734 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T734 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()? } } else if <D as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()?, b: ts.parse()? } } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T735 { V0 { a: C }, V1(D, AB), V2(B, #[try_span] Option<A>), V3 { a: A, b: B } }
impl Gram for T735 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T735 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T735 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()? } } else if <D as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T736 { V0(D, AB), V1 { a: A, b: B }, V2(B, #[try_span] Option<A>), V3 { a: C } }
impl Gram for T736 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T736 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T736 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <D as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<D as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T737 { V0(D, AB), V1 { a: A, b: B }, V2 { a: C }, V3(B, #[try_span] Option<A>) }
impl Gram for T737 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T737 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T737 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <D as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()?, b: ts.parse()? } } else if <C as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()? } } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<D as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T738 { V0(D, AB), V1(B, #[try_span] Option<A>), V2 { a: A, b: B }, V3 { a: C } }
impl Gram for T738 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T738 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T738 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <D as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <A as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()?, b: ts.parse()? } } else { Self::V3 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<D as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T739 { V0(D, AB), V1(B, #[try_span] Option<A>), V2 { a: C }, V3 { a: A, b: B } }
impl Gram for T739 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T739 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T739 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <D as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <B as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?) } else if <C as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()? } } else { Self::V3 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<D as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T740 { V0(D, AB), V1 { a: C }, V2 { a: A, b: B }, V3(B, #[try_span] Option<A>) }
impl Gram for T740 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T740 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T740 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <D as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <C as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V2 { a: ts.parse()?, b: ts.parse()? } } else { Self::V3(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<D as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T741 { V0(D, AB), V1 { a: C }, V2(B, #[try_span] Option<A>), V3 { a: A, b: B } }
impl Gram for T741 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T741 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T741 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <D as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else if <C as Parse<S>>::maybe(ts)? { Self::V1 { a: ts.parse()? } } else if <B as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?, ts.parse()?) } else { Self::V3 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<D as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T742 { V0(TokenPrefix<A, A>), V1(TokenPrefix<A, B>), V2(TokenPrefix<A, A>), V3(TokenPrefix<A, B>), V4 { a: C } }
impl Gram for T742 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T742 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), Self::V3(f0) => Tree::Var(3, vec![f0.tree()]), Self::V4 { a: f0 } => Tree::Var(4, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T742 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V3(ts.parse()?) } else { Self::V4 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T743 { V0(TokenPrefix<A, A>), V1(TokenPrefix<A, B>), V2(TokenPrefix<A, A>), V3(TokenPrefix<A, B>), V4(TokenPrefix<A, A>), V5(TokenPrefix<A, B>), V6(TokenPrefix<A, A>), V7 { a: C } }
impl Gram for T743 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T743 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), Self::V3(f0) => Tree::Var(3, vec![f0.tree()]), Self::V4(f0) => Tree::Var(4, vec![f0.tree()]), Self::V5(f0) => Tree::Var(5, vec![f0.tree()]), Self::V6(f0) => Tree::Var(6, vec![f0.tree()]), Self::V7 { a: f0 } => Tree::Var(7, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T743 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V3(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V4(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V5(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V6(ts.parse()?) } else { Self::V7 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T744 { V0(TokenPrefix<A, A>), V1(TokenPrefix<A, B>), V2(TokenPrefix<A, A>), V3(TokenPrefix<A, B>), V4(TokenPrefix<A, A>), V5(TokenPrefix<A, B>), V6(TokenPrefix<A, A>), V7(TokenPrefix<A, B>), V8(TokenPrefix<A, A>), V9(TokenPrefix<A, B>), V10(TokenPrefix<A, A>), V11(TokenPrefix<A, B>), V12(TokenPrefix<A, A>), V13(TokenPrefix<A, B>), V14(TokenPrefix<A, A>), V15 { a: C } }
impl Gram for T744 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T744 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), Self::V3(f0) => Tree::Var(3, vec![f0.tree()]), Self::V4(f0) => Tree::Var(4, vec![f0.tree()]), Self::V5(f0) => Tree::Var(5, vec![f0.tree()]), Self::V6(f0) => Tree::Var(6, vec![f0.tree()]), Self::V7(f0) => Tree::Var(7, vec![f0.tree()]), Self::V8(f0) => Tree::Var(8, vec![f0.tree()]), Self::V9(f0) => Tree::Var(9, vec![f0.tree()]), Self::V10(f0) => Tree::Var(10, vec![f0.tree()]), Self::V11(f0) => Tree::Var(11, vec![f0.tree()]), Self::V12(f0) => Tree::Var(12, vec![f0.tree()]), Self::V13(f0) => Tree::Var(13, vec![f0.tree()]), Self::V14(f0) => Tree::Var(14, vec![f0.tree()]), Self::V15 { a: f0 } => Tree::Var(15, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T744 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V2(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V3(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V4(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V5(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V6(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V7(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V8(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V9(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V10(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V11(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V12(ts.parse()?) } else if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V13(ts.parse()?) } else if <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? { Self::V14(ts.parse()?) } else { Self::V15 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, A> as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T745 { V0(C), V1(C) }
impl Gram for T745 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T745 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T745 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T746 { V0(C), V1(Box<B>) }
impl Gram for T746 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T746 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T746 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <Box<B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T748 { V0(C), V1(TokenPrefix<A, B>) }
impl Gram for T748 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T748 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T748 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T749 { V0(C), V1(OptPrefix<B, C>) }
impl Gram for T749 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T749 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T749 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <OptPrefix<B, C> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T750 { V0(C), V1(NonEmptySeq<A>) }
impl Gram for T750 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T750 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T750 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <NonEmptySeq<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T751 { V0(Box<B>), V1(C) }
impl Gram for T751 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T751 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T751 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Box<B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Box<B> as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T752 { V0(Box<B>), V1(Box<B>) }
impl Gram for T752 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T752 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T752 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Box<B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Box<B> as Parse<S>>::maybe(ts)? || <Box<B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T754 { V0(Box<B>), V1(TokenPrefix<A, B>) }
impl Gram for T754 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T754 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T754 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Box<B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Box<B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T755 { V0(Box<B>), V1(OptPrefix<B, C>) }
impl Gram for T755 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T755 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T755 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Box<B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Box<B> as Parse<S>>::maybe(ts)? || <OptPrefix<B, C> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T756 { V0(Box<B>), V1(NonEmptySeq<A>) }
impl Gram for T756 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T756 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T756 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Box<B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Box<B> as Parse<S>>::maybe(ts)? || <NonEmptySeq<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T763 { V0(TokenPrefix<A, B>), V1(C) }
impl Gram for T763 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T763 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T763 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T764 { V0(TokenPrefix<A, B>), V1(Box<B>) }
impl Gram for T764 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T764 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T764 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <Box<B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T766 { V0(TokenPrefix<A, B>), V1(TokenPrefix<A, B>) }
impl Gram for T766 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T766 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T766 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T767 { V0(TokenPrefix<A, B>), V1(OptPrefix<B, C>) }
impl Gram for T767 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T767 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T767 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <OptPrefix<B, C> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T768 { V0(TokenPrefix<A, B>), V1(NonEmptySeq<A>) }
impl Gram for T768 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T768 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T768 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <TokenPrefix<A, B> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<TokenPrefix<A, B> as Parse<S>>::maybe(ts)? || <NonEmptySeq<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T769 { V0(OptPrefix<B, C>), V1(C) }
impl Gram for T769 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T769 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T769 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <OptPrefix<B, C> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<OptPrefix<B, C> as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T770 { V0(OptPrefix<B, C>), V1(Box<B>) }
impl Gram for T770 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T770 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T770 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <OptPrefix<B, C> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<OptPrefix<B, C> as Parse<S>>::maybe(ts)? || <Box<B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T772 { V0(OptPrefix<B, C>), V1(TokenPrefix<A, B>) }
impl Gram for T772 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T772 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T772 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <OptPrefix<B, C> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<OptPrefix<B, C> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T773 { V0(OptPrefix<B, C>), V1(OptPrefix<B, C>) }
impl Gram for T773 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T773 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T773 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <OptPrefix<B, C> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<OptPrefix<B, C> as Parse<S>>::maybe(ts)? || <OptPrefix<B, C> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T774 { V0(OptPrefix<B, C>), V1(NonEmptySeq<A>) }
impl Gram for T774 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T774 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T774 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <OptPrefix<B, C> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<OptPrefix<B, C> as Parse<S>>::maybe(ts)? || <NonEmptySeq<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T775 { V0(NonEmptySeq<A>), V1(C) }
impl Gram for T775 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T775 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T775 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <NonEmptySeq<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<NonEmptySeq<A> as Parse<S>>::maybe(ts)? || <C as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T776 { V0(NonEmptySeq<A>), V1(Box<B>) }
impl Gram for T776 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T776 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T776 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <NonEmptySeq<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<NonEmptySeq<A> as Parse<S>>::maybe(ts)? || <Box<B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T778 { V0(NonEmptySeq<A>), V1(TokenPrefix<A, B>) }
impl Gram for T778 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T778 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T778 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <NonEmptySeq<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<NonEmptySeq<A> as Parse<S>>::maybe(ts)? || <TokenPrefix<A, B> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T779 { V0(NonEmptySeq<A>), V1(OptPrefix<B, C>) }
impl Gram for T779 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T779 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T779 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <NonEmptySeq<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<NonEmptySeq<A> as Parse<S>>::maybe(ts)? || <OptPrefix<B, C> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum T780 { V0(NonEmptySeq<A>), V1(NonEmptySeq<A>) }
impl Gram for T780 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T780 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T780 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <NonEmptySeq<A> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<NonEmptySeq<A> as Parse<S>>::maybe(ts)? || <NonEmptySeq<A> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T781  { a: A, b: B }
impl Gram for T781 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T781 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T781 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T782 (#[try_span] Option<A>, #[try_span] Vec<B>, C) ;
impl Gram for T782 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T782 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T782 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T784 { V0(A, B), V1 { a: B } }
impl Gram for T784 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]) } }
impl ToTree for T784 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T784 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T786  { a: A, b: B }
impl Gram for T786 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T786 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T786 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T787 (#[try_span] Option<A>, #[try_span] Vec<B>, C) ;
impl Gram for T787 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T787 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T787 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T789 { V0(A, B), V1 { a: B } }
impl Gram for T789 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]) } }
impl ToTree for T789 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T789 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T791  { a: A, b: B }
impl Gram for T791 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T791 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T791 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T792 (#[try_span] Option<A>, #[try_span] Vec<B>, C) ;
impl Gram for T792 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T792 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T792 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T794 { V0(A, B), V1 { a: B } }
impl Gram for T794 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]) } }
impl ToTree for T794 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T794 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T796  { a: A, b: B }
impl Gram for T796 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T796 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T796 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T797 (#[try_span] Option<A>, #[try_span] Vec<B>, C) ;
impl Gram for T797 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T797 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T797 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T799 { V0(A, B), V1 { a: B } }
impl Gram for T799 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]) } }
impl ToTree for T799 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T799 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T801  { a: A, b: B }
impl Gram for T801 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T801 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T801 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T802 (#[try_span] Option<A>, #[try_span] Vec<B>, C) ;
impl Gram for T802 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T802 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T802 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T804 { V0(A, B), V1 { a: B } }
impl Gram for T804 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]) } }
impl ToTree for T804 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T804 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T806  { a: A, b: B }
impl Gram for T806 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T806 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T806 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T807 (#[try_span] Option<A>, #[try_span] Vec<B>, C) ;
impl Gram for T807 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T807 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T807 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<A> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T809 { V0(A, B), V1 { a: B } }
impl Gram for T809 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]) } }
impl ToTree for T809 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T809 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

/// Documented {with braces}.
#[derive(Clone)]
#[allow(dead_code)]
#[derive(Spanned)]
pub struct T811  { r#type: A, #[try_span] r#fn: Option<A>, tokens: B }
impl Gram for T811 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T811 { fn tree(&self) -> Tree { let Self { r#type: f0, r#fn: f1, tokens: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T811 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { r#type: ts.parse()?, r#fn: ts.parse()?, tokens: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[doc = "more"]
#[repr(u8)]
#[derive(Spanned)]
pub enum T812 { r#Some { r#type: B, #[try_span] r#fn: Option<A> }, r#None(A) }
impl Gram for T812 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T812 { fn tree(&self) -> Tree { match self { Self::r#Some { r#type: f0, r#fn: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::r#None(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T812 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <B as Parse<S>>::maybe(ts)? { Self::r#Some { r#type: ts.parse()?, r#fn: ts.parse()? } } else { Self::r#None(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<B as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T813  { a: A, b: B }
impl Gram for T813 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T813 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T813 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T814  { a: A, b: B }
impl Gram for T814 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T814 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T814 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T815  { a: T3, b: T320 }
impl Gram for T815 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T815 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T815 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T3 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T816 (#[try_span] Option<T3>, T320) ;
impl Gram for T816 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T816 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T816 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T3> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T817 { V0(T320, B), V1 { #[try_span] a: Vec<T3>, b: Box<T320> } }
impl Gram for T817 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T817 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T817 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T3> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T818  { a: T3, b: T335 }
impl Gram for T818 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T818 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T818 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T3 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T819 (#[try_span] Option<T3>, T335) ;
impl Gram for T819 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T819 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T819 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T3> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T820 { V0(T335, B), V1 { #[try_span] a: Vec<T3>, b: Box<T335> } }
impl Gram for T820 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T820 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T820 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T3> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T821  { a: T3, b: T343 }
impl Gram for T821 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T821 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T821 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T3 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T822 (#[try_span] Option<T3>, T343) ;
impl Gram for T822 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T822 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T822 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T3> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T823 { V0(T343, B), V1 { #[try_span] a: Vec<T3>, b: Box<T343> } }
impl Gram for T823 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T823 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T823 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T3> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T824  { a: T3, b: T352 }
impl Gram for T824 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T824 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T824 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T3 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T825 (#[try_span] Option<T3>, T352) ;
impl Gram for T825 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T825 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T825 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T3> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T826 { V0(T352, B), V1 { #[try_span] a: Vec<T3>, b: Box<T352> } }
impl Gram for T826 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T826 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T826 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T3> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T827  { a: T3, b: T432 }
impl Gram for T827 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T827 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T827 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T3 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T828 (#[try_span] Option<T3>, T432) ;
impl Gram for T828 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T828 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T828 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T3> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T829 { V0(T432, B), V1 { #[try_span] a: Vec<T3>, b: Box<T432> } }
impl Gram for T829 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T829 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T829 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T3> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T830  { a: T3, b: T440 }
impl Gram for T830 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T830 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T830 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T3 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T831 (#[try_span] Option<T3>, T440) ;
impl Gram for T831 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T831 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T831 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T3> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T832 { V0(T440, B), V1 { #[try_span] a: Vec<T3>, b: Box<T440> } }
impl Gram for T832 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T832 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T832 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T3> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T833  { a: T3, b: T448 }
impl Gram for T833 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T833 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T833 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T3 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T834 (#[try_span] Option<T3>, T448) ;
impl Gram for T834 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T834 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T834 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T3> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T835 { V0(T448, B), V1 { #[try_span] a: Vec<T3>, b: Box<T448> } }
impl Gram for T835 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T835 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T835 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T3> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T836  { a: T3, b: T464 }
impl Gram for T836 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T836 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T836 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T3 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T837 (#[try_span] Option<T3>, T464) ;
impl Gram for T837 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T837 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T837 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T3> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T838 { V0(T464, B), V1 { #[try_span] a: Vec<T3>, b: Box<T464> } }
impl Gram for T838 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T838 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T838 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T3> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T839  { a: T57, b: T320 }
impl Gram for T839 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T839 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T839 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T57 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T840 (#[try_span] Option<T57>, T320) ;
impl Gram for T840 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T840 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T840 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T57> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T841 { V0(T320, B), V1 { #[try_span] a: Vec<T57>, b: Box<T320> } }
impl Gram for T841 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T841 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T841 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T57> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T842  { a: T57, b: T335 }
impl Gram for T842 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T842 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T842 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T57 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T843 (#[try_span] Option<T57>, T335) ;
impl Gram for T843 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T843 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T843 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T57> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T844 { V0(T335, B), V1 { #[try_span] a: Vec<T57>, b: Box<T335> } }
impl Gram for T844 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T844 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T844 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T57> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T845  { a: T57, b: T343 }
impl Gram for T845 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T845 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T845 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T57 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T846 (#[try_span] Option<T57>, T343) ;
impl Gram for T846 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T846 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T846 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T57> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T847 { V0(T343, B), V1 { #[try_span] a: Vec<T57>, b: Box<T343> } }
impl Gram for T847 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T847 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T847 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T57> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T848  { a: T57, b: T352 }
impl Gram for T848 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T848 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T848 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T57 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T849 (#[try_span] Option<T57>, T352) ;
impl Gram for T849 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T849 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T849 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T57> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T850 { V0(T352, B), V1 { #[try_span] a: Vec<T57>, b: Box<T352> } }
impl Gram for T850 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T850 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T850 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T57> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T851  { a: T57, b: T432 }
impl Gram for T851 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T851 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T851 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T57 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T852 (#[try_span] Option<T57>, T432) ;
impl Gram for T852 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T852 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T852 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T57> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T853 { V0(T432, B), V1 { #[try_span] a: Vec<T57>, b: Box<T432> } }
impl Gram for T853 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T853 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T853 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T57> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T854  { a: T57, b: T440 }
impl Gram for T854 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T854 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T854 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T57 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T855 (#[try_span] Option<T57>, T440) ;
impl Gram for T855 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T855 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T855 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T57> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T856 { V0(T440, B), V1 { #[try_span] a: Vec<T57>, b: Box<T440> } }
impl Gram for T856 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T856 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T856 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T57> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T857  { a: T57, b: T448 }
impl Gram for T857 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T857 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T857 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T57 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T858 (#[try_span] Option<T57>, T448) ;
impl Gram for T858 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T858 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T858 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T57> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T859 { V0(T448, B), V1 { #[try_span] a: Vec<T57>, b: Box<T448> } }
impl Gram for T859 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T859 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T859 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T57> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T860  { a: T57, b: T464 }
impl Gram for T860 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T860 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T860 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T57 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T861 (#[try_span] Option<T57>, T464) ;
impl Gram for T861 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T861 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T861 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T57> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T862 { V0(T464, B), V1 { #[try_span] a: Vec<T57>, b: Box<T464> } }
impl Gram for T862 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T862 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T862 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T57> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T863  { a: T99, b: T320 }
impl Gram for T863 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T863 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T863 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T99 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T864 (#[try_span] Option<T99>, T320) ;
impl Gram for T864 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T864 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T864 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T99> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T865 { V0(T320, B), V1 { #[try_span] a: Vec<T99>, b: Box<T320> } }
impl Gram for T865 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T865 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T865 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T99> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T866  { a: T99, b: T335 }
impl Gram for T866 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T866 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T866 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T99 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T867 (#[try_span] Option<T99>, T335) ;
impl Gram for T867 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T867 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T867 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T99> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T868 { V0(T335, B), V1 { #[try_span] a: Vec<T99>, b: Box<T335> } }
impl Gram for T868 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T868 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T868 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T99> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T869  { a: T99, b: T343 }
impl Gram for T869 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T869 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T869 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T99 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T870 (#[try_span] Option<T99>, T343) ;
impl Gram for T870 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T870 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T870 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T99> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T871 { V0(T343, B), V1 { #[try_span] a: Vec<T99>, b: Box<T343> } }
impl Gram for T871 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T871 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T871 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T99> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T872  { a: T99, b: T352 }
impl Gram for T872 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T872 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T872 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T99 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T873 (#[try_span] Option<T99>, T352) ;
impl Gram for T873 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T873 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T873 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T99> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T874 { V0(T352, B), V1 { #[try_span] a: Vec<T99>, b: Box<T352> } }
impl Gram for T874 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T874 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T874 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T99> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T875  { a: T99, b: T432 }
impl Gram for T875 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T875 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T875 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T99 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T876 (#[try_span] Option<T99>, T432) ;
impl Gram for T876 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T876 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T876 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T99> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T877 { V0(T432, B), V1 { #[try_span] a: Vec<T99>, b: Box<T432> } }
impl Gram for T877 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T877 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T877 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T99> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T878  { a: T99, b: T440 }
impl Gram for T878 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T878 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T878 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T99 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T879 (#[try_span] Option<T99>, T440) ;
impl Gram for T879 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T879 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T879 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T99> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T880 { V0(T440, B), V1 { #[try_span] a: Vec<T99>, b: Box<T440> } }
impl Gram for T880 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T880 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T880 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T99> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T881  { a: T99, b: T448 }
impl Gram for T881 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T881 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T881 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T99 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T882 (#[try_span] Option<T99>, T448) ;
impl Gram for T882 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T882 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T882 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T99> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T883 { V0(T448, B), V1 { #[try_span] a: Vec<T99>, b: Box<T448> } }
impl Gram for T883 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T883 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T883 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T99> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T884  { a: T99, b: T464 }
impl Gram for T884 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T884 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T884 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T99 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T885 (#[try_span] Option<T99>, T464) ;
impl Gram for T885 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T885 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T885 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T99> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T886 { V0(T464, B), V1 { #[try_span] a: Vec<T99>, b: Box<T464> } }
impl Gram for T886 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T886 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T886 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T99> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T887  { a: T141, b: T320 }
impl Gram for T887 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T887 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T887 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T141 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T888 (#[try_span] Option<T141>, T320) ;
impl Gram for T888 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T888 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T888 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T141> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T889 { V0(T320, B), V1 { #[try_span] a: Vec<T141>, b: Box<T320> } }
impl Gram for T889 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T889 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T889 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T141> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T890  { a: T141, b: T335 }
impl Gram for T890 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T890 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T890 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T141 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T891 (#[try_span] Option<T141>, T335) ;
impl Gram for T891 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T891 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T891 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T141> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T892 { V0(T335, B), V1 { #[try_span] a: Vec<T141>, b: Box<T335> } }
impl Gram for T892 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T892 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T892 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T141> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T893  { a: T141, b: T343 }
impl Gram for T893 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T893 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T893 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T141 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T894 (#[try_span] Option<T141>, T343) ;
impl Gram for T894 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T894 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T894 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T141> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T895 { V0(T343, B), V1 { #[try_span] a: Vec<T141>, b: Box<T343> } }
impl Gram for T895 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T895 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T895 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T141> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T896  { a: T141, b: T352 }
impl Gram for T896 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T896 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T896 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T141 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T897 (#[try_span] Option<T141>, T352) ;
impl Gram for T897 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T897 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T897 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T141> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T898 { V0(T352, B), V1 { #[try_span] a: Vec<T141>, b: Box<T352> } }
impl Gram for T898 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T898 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T898 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T141> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T899  { a: T141, b: T432 }
impl Gram for T899 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T899 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T899 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T141 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T900 (#[try_span] Option<T141>, T432) ;
impl Gram for T900 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T900 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T900 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T141> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T901 { V0(T432, B), V1 { #[try_span] a: Vec<T141>, b: Box<T432> } }
impl Gram for T901 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T901 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T901 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T141> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T902  { a: T141, b: T440 }
impl Gram for T902 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T902 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T902 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T141 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T903 (#[try_span] Option<T141>, T440) ;
impl Gram for T903 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T903 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T903 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T141> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T904 { V0(T440, B), V1 { #[try_span] a: Vec<T141>, b: Box<T440> } }
impl Gram for T904 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T904 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T904 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T141> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T905  { a: T141, b: T448 }
impl Gram for T905 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T905 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T905 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T141 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T906 (#[try_span] Option<T141>, T448) ;
impl Gram for T906 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T906 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T906 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T141> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T907 { V0(T448, B), V1 { #[try_span] a: Vec<T141>, b: Box<T448> } }
impl Gram for T907 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T907 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T907 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T141> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T908  { a: T141, b: T464 }
impl Gram for T908 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T908 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T908 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T141 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T909 (#[try_span] Option<T141>, T464) ;
impl Gram for T909 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T909 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T909 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T141> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T910 { V0(T464, B), V1 { #[try_span] a: Vec<T141>, b: Box<T464> } }
impl Gram for T910 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T910 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T910 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T141> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T911  { a: T192, b: T320 }
impl Gram for T911 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T911 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T911 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T192 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T912 (#[try_span] Option<T192>, T320) ;
impl Gram for T912 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T912 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T912 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T192> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T913 { V0(T320, B), V1 { #[try_span] a: Vec<T192>, b: Box<T320> } }
impl Gram for T913 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T913 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T913 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T192> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T914  { a: T192, b: T335 }
impl Gram for T914 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T914 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T914 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T192 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T915 (#[try_span] Option<T192>, T335) ;
impl Gram for T915 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T915 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T915 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T192> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T916 { V0(T335, B), V1 { #[try_span] a: Vec<T192>, b: Box<T335> } }
impl Gram for T916 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T916 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T916 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T192> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T917  { a: T192, b: T343 }
impl Gram for T917 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T917 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T917 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T192 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T918 (#[try_span] Option<T192>, T343) ;
impl Gram for T918 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T918 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T918 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T192> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T919 { V0(T343, B), V1 { #[try_span] a: Vec<T192>, b: Box<T343> } }
impl Gram for T919 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T919 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T919 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T192> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T920  { a: T192, b: T352 }
impl Gram for T920 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T920 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T920 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T192 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T921 (#[try_span] Option<T192>, T352) ;
impl Gram for T921 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T921 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T921 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T192> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T922 { V0(T352, B), V1 { #[try_span] a: Vec<T192>, b: Box<T352> } }
impl Gram for T922 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T922 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T922 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T192> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T923  { a: T192, b: T432 }
impl Gram for T923 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T923 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T923 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T192 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T924 (#[try_span] Option<T192>, T432) ;
impl Gram for T924 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T924 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T924 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T192> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T925 { V0(T432, B), V1 { #[try_span] a: Vec<T192>, b: Box<T432> } }
impl Gram for T925 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T925 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T925 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T192> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T926  { a: T192, b: T440 }
impl Gram for T926 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T926 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T926 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T192 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T927 (#[try_span] Option<T192>, T440) ;
impl Gram for T927 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T927 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T927 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T192> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T928 { V0(T440, B), V1 { #[try_span] a: Vec<T192>, b: Box<T440> } }
impl Gram for T928 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T928 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T928 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T192> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T929  { a: T192, b: T448 }
impl Gram for T929 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T929 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T929 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T192 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T930 (#[try_span] Option<T192>, T448) ;
impl Gram for T930 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T930 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T930 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T192> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T931 { V0(T448, B), V1 { #[try_span] a: Vec<T192>, b: Box<T448> } }
impl Gram for T931 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T931 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T931 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T192> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T932  { a: T192, b: T464 }
impl Gram for T932 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T932 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T932 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T192 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T933 (#[try_span] Option<T192>, T464) ;
impl Gram for T933 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T933 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T933 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T192> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T934 { V0(T464, B), V1 { #[try_span] a: Vec<T192>, b: Box<T464> } }
impl Gram for T934 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T934 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T934 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T192> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T935  { a: T243, b: T320 }
impl Gram for T935 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T935 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T935 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T243 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T936 (#[try_span] Option<T243>, T320) ;
impl Gram for T936 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T936 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T936 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T243> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T937 { V0(T320, B), V1 { #[try_span] a: Vec<T243>, b: Box<T320> } }
impl Gram for T937 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T937 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T937 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T243> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T938  { a: T243, b: T335 }
impl Gram for T938 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T938 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T938 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T243 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T939 (#[try_span] Option<T243>, T335) ;
impl Gram for T939 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T939 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T939 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T243> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T940 { V0(T335, B), V1 { #[try_span] a: Vec<T243>, b: Box<T335> } }
impl Gram for T940 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T940 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T940 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T243> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T941  { a: T243, b: T343 }
impl Gram for T941 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T941 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T941 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T243 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T942 (#[try_span] Option<T243>, T343) ;
impl Gram for T942 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T942 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T942 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T243> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T943 { V0(T343, B), V1 { #[try_span] a: Vec<T243>, b: Box<T343> } }
impl Gram for T943 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T943 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T943 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T243> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T944  { a: T243, b: T352 }
impl Gram for T944 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T944 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T944 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T243 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T945 (#[try_span] Option<T243>, T352) ;
impl Gram for T945 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T945 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T945 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T243> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T946 { V0(T352, B), V1 { #[try_span] a: Vec<T243>, b: Box<T352> } }
impl Gram for T946 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T946 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T946 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T243> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T947  { a: T243, b: T432 }
impl Gram for T947 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T947 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T947 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T243 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T948 (#[try_span] Option<T243>, T432) ;
impl Gram for T948 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T948 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T948 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T243> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T949 { V0(T432, B), V1 { #[try_span] a: Vec<T243>, b: Box<T432> } }
impl Gram for T949 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T949 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T949 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T243> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T950  { a: T243, b: T440 }
impl Gram for T950 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T950 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T950 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T243 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T951 (#[try_span] Option<T243>, T440) ;
impl Gram for T951 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T951 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T951 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T243> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T952 { V0(T440, B), V1 { #[try_span] a: Vec<T243>, b: Box<T440> } }
impl Gram for T952 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T952 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T952 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T243> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T953  { a: T243, b: T448 }
impl Gram for T953 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T953 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T953 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T243 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T954 (#[try_span] Option<T243>, T448) ;
impl Gram for T954 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T954 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T954 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T243> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T955 { V0(T448, B), V1 { #[try_span] a: Vec<T243>, b: Box<T448> } }
impl Gram for T955 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T955 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T955 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T243> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T956  { a: T243, b: T464 }
impl Gram for T956 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T956 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T956 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T243 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T957 (#[try_span] Option<T243>, T464) ;
impl Gram for T957 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T957 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T957 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T243> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T958 { V0(T464, B), V1 { #[try_span] a: Vec<T243>, b: Box<T464> } }
impl Gram for T958 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T958 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T958 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T243> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T959  { a: T296, b: T320 }
impl Gram for T959 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T959 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T959 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T296 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T960 (#[try_span] Option<T296>, T320) ;
impl Gram for T960 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T960 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T960 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T296> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T961 { V0(T320, B), V1 { #[try_span] a: Vec<T296>, b: Box<T320> } }
impl Gram for T961 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T961 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T961 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T296> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T962  { a: T296, b: T335 }
impl Gram for T962 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T962 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T962 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T296 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T963 (#[try_span] Option<T296>, T335) ;
impl Gram for T963 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T963 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T963 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T296> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T964 { V0(T335, B), V1 { #[try_span] a: Vec<T296>, b: Box<T335> } }
impl Gram for T964 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T964 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T964 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T296> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T965  { a: T296, b: T343 }
impl Gram for T965 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T965 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T965 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T296 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T966 (#[try_span] Option<T296>, T343) ;
impl Gram for T966 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T966 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T966 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T296> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T967 { V0(T343, B), V1 { #[try_span] a: Vec<T296>, b: Box<T343> } }
impl Gram for T967 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T967 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T967 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T296> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T968  { a: T296, b: T352 }
impl Gram for T968 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T968 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T968 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T296 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T969 (#[try_span] Option<T296>, T352) ;
impl Gram for T969 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T969 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T969 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T296> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T970 { V0(T352, B), V1 { #[try_span] a: Vec<T296>, b: Box<T352> } }
impl Gram for T970 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T970 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T970 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T296> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T971  { a: T296, b: T432 }
impl Gram for T971 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T971 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T971 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T296 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T972 (#[try_span] Option<T296>, T432) ;
impl Gram for T972 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T972 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T972 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T296> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T973 { V0(T432, B), V1 { #[try_span] a: Vec<T296>, b: Box<T432> } }
impl Gram for T973 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T973 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T973 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T296> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T974  { a: T296, b: T440 }
impl Gram for T974 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T974 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T974 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T296 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T975 (#[try_span] Option<T296>, T440) ;
impl Gram for T975 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T975 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T975 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T296> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T976 { V0(T440, B), V1 { #[try_span] a: Vec<T296>, b: Box<T440> } }
impl Gram for T976 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T976 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T976 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T296> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T977  { a: T296, b: T448 }
impl Gram for T977 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T977 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T977 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T296 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T978 (#[try_span] Option<T296>, T448) ;
impl Gram for T978 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T978 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T978 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T296> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T979 { V0(T448, B), V1 { #[try_span] a: Vec<T296>, b: Box<T448> } }
impl Gram for T979 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T979 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T979 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T296> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T980  { a: T296, b: T464 }
impl Gram for T980 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T980 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T980 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T296 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T981 (#[try_span] Option<T296>, T464) ;
impl Gram for T981 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T981 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T981 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T296> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T982 { V0(T464, B), V1 { #[try_span] a: Vec<T296>, b: Box<T464> } }
impl Gram for T982 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T982 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T982 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T296> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T983  { a: T366, b: T320 }
impl Gram for T983 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T983 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T983 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T366 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T984 (#[try_span] Option<T366>, T320) ;
impl Gram for T984 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T984 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T984 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T366> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T985 { V0(T320, B), V1 { #[try_span] a: Vec<T366>, b: Box<T320> } }
impl Gram for T985 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T985 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T985 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T366> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T986  { a: T366, b: T335 }
impl Gram for T986 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T986 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T986 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T366 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T987 (#[try_span] Option<T366>, T335) ;
impl Gram for T987 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T987 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T987 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T366> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T988 { V0(T335, B), V1 { #[try_span] a: Vec<T366>, b: Box<T335> } }
impl Gram for T988 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T988 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T988 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T366> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T989  { a: T366, b: T343 }
impl Gram for T989 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T989 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T989 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T366 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T990 (#[try_span] Option<T366>, T343) ;
impl Gram for T990 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T990 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T990 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T366> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T991 { V0(T343, B), V1 { #[try_span] a: Vec<T366>, b: Box<T343> } }
impl Gram for T991 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T991 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T991 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T366> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T992  { a: T366, b: T352 }
impl Gram for T992 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T992 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T992 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T366 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T993 (#[try_span] Option<T366>, T352) ;
impl Gram for T993 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T993 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T993 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T366> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T994 { V0(T352, B), V1 { #[try_span] a: Vec<T366>, b: Box<T352> } }
impl Gram for T994 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T994 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T994 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T366> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T995  { a: T366, b: T432 }
impl Gram for T995 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T995 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T995 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T366 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T996 (#[try_span] Option<T366>, T432) ;
impl Gram for T996 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T996 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T996 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T366> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T997 { V0(T432, B), V1 { #[try_span] a: Vec<T366>, b: Box<T432> } }
impl Gram for T997 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T997 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T997 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T366> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T998  { a: T366, b: T440 }
impl Gram for T998 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T998 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T998 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T366 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T999 (#[try_span] Option<T366>, T440) ;
impl Gram for T999 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T999 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T999 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T366> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1000 { V0(T440, B), V1 { #[try_span] a: Vec<T366>, b: Box<T440> } }
impl Gram for T1000 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T1000 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1000 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T366> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1001  { a: T366, b: T448 }
impl Gram for T1001 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1001 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1001 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T366 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1002 (#[try_span] Option<T366>, T448) ;
impl Gram for T1002 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1002 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1002 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T366> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1003 { V0(T448, B), V1 { #[try_span] a: Vec<T366>, b: Box<T448> } }
impl Gram for T1003 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T1003 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1003 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T366> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1004  { a: T366, b: T464 }
impl Gram for T1004 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1004 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1004 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T366 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1005 (#[try_span] Option<T366>, T464) ;
impl Gram for T1005 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1005 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1005 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T366> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1006 { V0(T464, B), V1 { #[try_span] a: Vec<T366>, b: Box<T464> } }
impl Gram for T1006 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T1006 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1006 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T366> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1007  { a: T545, b: T320 }
impl Gram for T1007 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T1007 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1007 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T545 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1008 (#[try_span] Option<T545>, T320) ;
impl Gram for T1008 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T1008 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1008 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T545> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1009 { V0(T320, B), V1 { #[try_span] a: Vec<T545>, b: Box<T320> } }
impl Gram for T1009 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T1009 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1009 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T545> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1010  { a: T545, b: T335 }
impl Gram for T1010 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T1010 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1010 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T545 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1011 (#[try_span] Option<T545>, T335) ;
impl Gram for T1011 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T1011 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1011 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T545> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1012 { V0(T335, B), V1 { #[try_span] a: Vec<T545>, b: Box<T335> } }
impl Gram for T1012 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T1012 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1012 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T545> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1013  { a: T545, b: T343 }
impl Gram for T1013 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T1013 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1013 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T545 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1014 (#[try_span] Option<T545>, T343) ;
impl Gram for T1014 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T1014 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1014 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T545> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1015 { V0(T343, B), V1 { #[try_span] a: Vec<T545>, b: Box<T343> } }
impl Gram for T1015 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T1015 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1015 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T545> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1016  { a: T545, b: T352 }
impl Gram for T1016 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T1016 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1016 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T545 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1017 (#[try_span] Option<T545>, T352) ;
impl Gram for T1017 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T1017 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1017 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T545> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1018 { V0(T352, B), V1 { #[try_span] a: Vec<T545>, b: Box<T352> } }
impl Gram for T1018 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T1018 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1018 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T545> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1019  { a: T545, b: T432 }
impl Gram for T1019 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T1019 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1019 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T545 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1020 (#[try_span] Option<T545>, T432) ;
impl Gram for T1020 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T1020 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1020 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T545> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1021 { V0(T432, B), V1 { #[try_span] a: Vec<T545>, b: Box<T432> } }
impl Gram for T1021 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T1021 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1021 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T545> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1022  { a: T545, b: T440 }
impl Gram for T1022 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T1022 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1022 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T545 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1023 (#[try_span] Option<T545>, T440) ;
impl Gram for T1023 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T1023 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1023 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T545> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1024 { V0(T440, B), V1 { #[try_span] a: Vec<T545>, b: Box<T440> } }
impl Gram for T1024 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T1024 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1024 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T545> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1025  { a: T545, b: T448 }
impl Gram for T1025 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1025 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1025 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T545 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1026 (#[try_span] Option<T545>, T448) ;
impl Gram for T1026 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1026 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1026 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T545> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1027 { V0(T448, B), V1 { #[try_span] a: Vec<T545>, b: Box<T448> } }
impl Gram for T1027 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T1027 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1027 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T545> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1028  { a: T545, b: T464 }
impl Gram for T1028 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1028 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1028 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T545 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1029 (#[try_span] Option<T545>, T464) ;
impl Gram for T1029 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1029 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1029 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T545> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1030 { V0(T464, B), V1 { #[try_span] a: Vec<T545>, b: Box<T464> } }
impl Gram for T1030 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T1030 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1030 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T545> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1031  { a: T737, b: T320 }
impl Gram for T1031 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T1031 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1031 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T737 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1032 (#[try_span] Option<T737>, T320) ;
impl Gram for T1032 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T1032 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1032 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T737> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1033 { V0(T320, B), V1 { #[try_span] a: Vec<T737>, b: Box<T320> } }
impl Gram for T1033 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T1033 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1033 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T320 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T320 as Parse<S>>::maybe(ts)? || <Vec<T737> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1034  { a: T737, b: T335 }
impl Gram for T1034 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T1034 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1034 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T737 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1035 (#[try_span] Option<T737>, T335) ;
impl Gram for T1035 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T1035 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1035 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T737> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1036 { V0(T335, B), V1 { #[try_span] a: Vec<T737>, b: Box<T335> } }
impl Gram for T1036 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T1036 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1036 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T335 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T335 as Parse<S>>::maybe(ts)? || <Vec<T737> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1037  { a: T737, b: T343 }
impl Gram for T1037 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T1037 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1037 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T737 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1038 (#[try_span] Option<T737>, T343) ;
impl Gram for T1038 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T1038 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1038 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T737> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1039 { V0(T343, B), V1 { #[try_span] a: Vec<T737>, b: Box<T343> } }
impl Gram for T1039 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T1039 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1039 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T343 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T343 as Parse<S>>::maybe(ts)? || <Vec<T737> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1040  { a: T737, b: T352 }
impl Gram for T1040 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T1040 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1040 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T737 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1041 (#[try_span] Option<T737>, T352) ;
impl Gram for T1041 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T1041 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1041 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T737> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1042 { V0(T352, B), V1 { #[try_span] a: Vec<T737>, b: Box<T352> } }
impl Gram for T1042 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T1042 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1042 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T352 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T352 as Parse<S>>::maybe(ts)? || <Vec<T737> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1043  { a: T737, b: T432 }
impl Gram for T1043 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T1043 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1043 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T737 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1044 (#[try_span] Option<T737>, T432) ;
impl Gram for T1044 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T1044 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1044 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T737> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1045 { V0(T432, B), V1 { #[try_span] a: Vec<T737>, b: Box<T432> } }
impl Gram for T1045 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T1045 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1045 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T432 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T432 as Parse<S>>::maybe(ts)? || <Vec<T737> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1046  { a: T737, b: T440 }
impl Gram for T1046 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T1046 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1046 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T737 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1047 (#[try_span] Option<T737>, T440) ;
impl Gram for T1047 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T1047 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1047 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T737> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1048 { V0(T440, B), V1 { #[try_span] a: Vec<T737>, b: Box<T440> } }
impl Gram for T1048 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T1048 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1048 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T440 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T440 as Parse<S>>::maybe(ts)? || <Vec<T737> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1049  { a: T737, b: T448 }
impl Gram for T1049 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1049 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1049 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T737 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1050 (#[try_span] Option<T737>, T448) ;
impl Gram for T1050 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1050 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1050 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T737> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1051 { V0(T448, B), V1 { #[try_span] a: Vec<T737>, b: Box<T448> } }
impl Gram for T1051 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T1051 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1051 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T448 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T448 as Parse<S>>::maybe(ts)? || <Vec<T737> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct T1052  { a: T737, b: T464 }
impl Gram for T1052 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1052 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1052 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <T737 as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct T1053 (#[try_span] Option<T737>, T464) ;
impl Gram for T1053 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1053 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1053 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Option<T737> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum T1054 { V0(T464, B), V1 { #[try_span] a: Vec<T737>, b: Box<T464> } }
impl Gram for T1054 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T1054 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for T1054 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <T464 as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?, ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<T464 as Parse<S>>::maybe(ts)? || <Vec<T737> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum Sexp { V0(A), V1(Quoted3<Sexp>) }
impl Gram for Sexp { fn g() -> G { G::Lazy(|| G::Alt(vec![vec![<A as Gram>::g()], vec![<Quoted3<Sexp> as Gram>::g()]])) } }
impl ToTree for Sexp { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for Sexp { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <Quoted3<Sexp> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct Chain  { a: A, #[try_span] b: Option<Box<Chain>> }
impl Gram for Chain { fn g() -> G { G::Lazy(|| G::Seq(vec![<A as Gram>::g(), <Option<Box<Chain>> as Gram>::g()])) } }
impl ToTree for Chain { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for Chain { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <A as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct Bin  { a: Opd, #[try_span] b: Option<Box<Tail>> }
impl Gram for Bin { fn g() -> G { G::Lazy(|| G::Seq(vec![<Opd as Gram>::g(), <Option<Box<Tail>> as Gram>::g()])) } }
impl ToTree for Bin { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<S: TokenStream<Token = Tok>> Parse<S> for Bin { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Opd as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum Opd { V0(A), V1 { a: B, b: Box<Bin>, first: C } }
impl Gram for Opd { fn g() -> G { G::Lazy(|| G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <Box<Bin> as Gram>::g(), <C as Gram>::g()]])) } }
impl ToTree for Opd { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1, first: f2 } => Tree::Var(1, vec![f0.tree(), f1.tree(), f2.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for Opd { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <A as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()?, first: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum Tail { V0 { a: C, b: Bin }, V1(D, Box<Bin>) }
impl Gram for Tail { fn g() -> G { G::Lazy(|| G::Alt(vec![vec![<C as Gram>::g(), <Bin as Gram>::g()], vec![<D as Gram>::g(), <Box<Bin> as Gram>::g()]])) } }
impl ToTree for Tail { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for Tail { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()?, b: ts.parse()? } } else { Self::V1(ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <D as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub enum Tree3 { V0 { a: C }, V1(A, Box<Tree3>, Box<Tree3>), V2(B, #[try_span] Vec<Tree3>, D) }
impl Gram for Tree3 { fn g() -> G { G::Lazy(|| G::Alt(vec![vec![<C as Gram>::g()], vec![<A as Gram>::g(), <Box<Tree3> as Gram>::g(), <Box<Tree3> as Gram>::g()], vec![<B as Gram>::g(), <Vec<Tree3> as Gram>::g(), <D as Gram>::g()]])) } }
impl ToTree for Tree3 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1, f2) => Tree::Var(1, vec![f0.tree(), f1.tree(), f2.tree()]), Self::V2(f0, f1, f2) => Tree::Var(2, vec![f0.tree(), f1.tree(), f2.tree()]), } } }
impl<S: TokenStream<Token = Tok>> Parse<S> for Tree3 { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <C as Parse<S>>::maybe(ts)? { Self::V0 { a: ts.parse()? } } else if <A as Parse<S>>::maybe(ts)? { Self::V1(ts.parse()?, ts.parse()?, ts.parse()?) } else { Self::V2(ts.parse()?, ts.parse()?, ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<C as Parse<S>>::maybe(ts)? || <A as Parse<S>>::maybe(ts)? || <B as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct G1<T: Node>  { a: Wrap<T>, b: B }
impl<T: Node> Gram for G1<T> { fn g() -> G { G::Seq(vec![<Wrap<T> as Gram>::g(), <B as Gram>::g()]) } }
impl<T: Node> ToTree for G1<T> { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<T: Node, S: TokenStream<Token = Tok>> Parse<S> for G1<T> { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Wrap<T> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct G2<T, U> (Wrap<T>, Wrap<U>) where T: Node, U: Node + 'static ;
impl<T, U> Gram for G2<T, U> where T: Node, U: Node + 'static { fn g() -> G { G::Seq(vec![<Wrap<T> as Gram>::g(), <Wrap<U> as Gram>::g()]) } }
impl<T, U> ToTree for G2<T, U> where T: Node, U: Node + 'static { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<T, U, S: TokenStream<Token = Tok>> Parse<S> for G2<T, U> where T: Node, U: Node + 'static { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self(ts.parse()?, ts.parse()?)) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Wrap<T> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum G3<T: Node, U: Node> { V0(Wrap<T>), V1 { #[try_span] a: Option<Wrap<U>>, b: C } }
impl<T: Node, U: Node> Gram for G3<T, U> { fn g() -> G { G::Alt(vec![vec![<Wrap<T> as Gram>::g()], vec![<Option<Wrap<U>> as Gram>::g(), <C as Gram>::g()]]) } }
impl<T: Node, U: Node> ToTree for G3<T, U> { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }
impl<T: Node, U: Node, S: TokenStream<Token = Tok>> Parse<S> for G3<T, U> { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Wrap<T> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1 { a: ts.parse()?, b: ts.parse()? } }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Wrap<T> as Parse<S>>::maybe(ts)? || <Option<Wrap<U>> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct G4<T: Node, const N: usize>  { a: Times<N>, b: Wrap<T> }
impl<T: Node, const N: usize> Gram for G4<T, N> { fn g() -> G { G::Seq(vec![<Times<N> as Gram>::g(), <Wrap<T> as Gram>::g()]) } }
impl<T: Node, const N: usize> ToTree for G4<T, N> { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<T: Node, const N: usize, S: TokenStream<Token = Tok>> Parse<S> for G4<T, N> { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Times<N> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub enum G5<const N: usize, T: Node> where T: Clone { V0(Wrap<T>), V1(Times<N>) }
impl<const N: usize, T: Node> Gram for G5<N, T> where T: Clone { fn g() -> G { G::Alt(vec![vec![<Wrap<T> as Gram>::g()], vec![<Times<N> as Gram>::g()]]) } }
impl<const N: usize, T: Node> ToTree for G5<N, T> where T: Clone { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }
impl<const N: usize, T: Node, S: TokenStream<Token = Tok>> Parse<S> for G5<N, T> where T: Clone { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(if <Wrap<T> as Parse<S>>::maybe(ts)? { Self::V0(ts.parse()?) } else { Self::V1(ts.parse()?) }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { Ok(<Wrap<T> as Parse<S>>::maybe(ts)? || <Times<N> as Parse<S>>::maybe(ts)?) } }

#[derive(Spanned)]
pub struct G6<'a>  { a: Life<'a>, b: A }
impl<'a> Gram for G6<'a> { fn g() -> G { G::Seq(vec![<Life<'a> as Gram>::g(), <A as Gram>::g()]) } }
impl<'a> ToTree for G6<'a> { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<'a, S: TokenStream<Token = Tok>> Parse<S> for G6<'a> { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Life<'a> as Parse<S>>::maybe(ts) } }

#[derive(Spanned)]
pub struct G7<'a, T: Node> where T: 'a  { a: Life<'a>, b: Wrap<T> }
impl<'a, T: Node> Gram for G7<'a, T> where T: 'a { fn g() -> G { G::Seq(vec![<Life<'a> as Gram>::g(), <Wrap<T> as Gram>::g()]) } }
impl<'a, T: Node> ToTree for G7<'a, T> where T: 'a { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }
impl<'a, T: Node, S: TokenStream<Token = Tok>> Parse<S> for G7<'a, T> where T: 'a { fn parse(ts: &mut S) -> laps::span::Result<Self> { Ok(Self { a: ts.parse()?, b: ts.parse()? }) } fn maybe(ts: &mut S) -> laps::span::Result<bool> { <Life<'a> as Parse<S>>::maybe(ts) } }

fn push0(v: &mut Vec<Entry>) {
  v.push(entry!("T3: struct (A)", T3));
  v.push(entry!("T4: struct { B }", T4));
  v.push(entry!("T5: struct (AB)", T5));
  v.push(entry!("T9: struct (A, A)", T9));
  v.push(entry!("T10: struct { A, B }", T10));
  v.push(entry!("T11: struct (A, AB)", T11));
  v.push(entry!("T12: struct { A, Option<A> }", T12));
  v.push(entry!("T13: struct (A, Vec<B>)", T13));
  v.push(entry!("T14: struct { A, SepSeq<A, C> }", T14));
  v.push(entry!("T15: struct (B, A)", T15));
  v.push(entry!("T16: struct { B, B }", T16));
  v.push(entry!("T17: struct (B, AB)", T17));
  v.push(entry!("T18: struct { B, Option<A> }", T18));
  v.push(entry!("T19: struct (B, Vec<B>)", T19));
  v.push(entry!("T20: struct { B, SepSeq<A, C> }", T20));
  v.push(entry!("T21: struct (AB, A)", T21));
  v.push(entry!("T22: struct { AB, B }", T22));
  v.push(entry!("T23: struct (AB, AB)", T23));
  v.push(entry!("T24: struct { AB, Option<A> }", T24));
  v.push(entry!("T25: struct (AB, Vec<B>)", T25));
  v.push(entry!("T26: struct { AB, SepSeq<A, C> }", T26));
  v.push(entry!("T27: struct (Option<A>, A)", T27));
  v.push(entry!("T28: struct { Option<A>, B }", T28));
  v.push(entry!("T29: struct (Option<A>, AB)", T29));
  v.push(entry!("T33: struct (Vec<B>, A)", T33));
  v.push(entry!("T34: struct { Vec<B>, B }", T34));
  v.push(entry!("T35: struct (Vec<B>, AB)", T35));
  v.push(entry!("T39: struct (SepSeq<A, C>, A)", T39));
  v.push(entry!("T40: struct { SepSeq<A, C>, B }", T40));
  v.push(entry!("T41: struct (SepSeq<A, C>, AB)", T41));
  v.push(entry!("T45: struct (A, A, A)", T45));
  v.push(entry!("T46: struct { A, A, B }", T46));
  v.push(entry!("T47: struct (A, A, AB)", T47));
  v.push(entry!("T48: struct { A, A, Option<A> }", T48));
  v.push(entry!("T49: struct (A, A, Vec<B>)", T49));
  v.push(entry!("T50: struct { A, A, SepSeq<A, C> }", T50));
  v.push(entry!("T51: struct (A, B, A)", T51));
  v.push(entry!("T52: struct { A, B, B }", T52));
  v.push(entry!("T53: struct (A, B, AB)", T53));
  v.push(entry!("T54: struct { A, B, Option<A> }", T54));
}
fn push1(v: &mut Vec<Entry>) {
  v.push(entry!("T55: struct (A, B, Vec<B>)", T55));
  v.push(entry!("T56: struct { A, B, SepSeq<A, C> }", T56));
  v.push(entry!("T57: struct (A, AB, A)", T57));
  v.push(entry!("T58: struct { A, AB, B }", T58));
  v.push(entry!("T59: struct (A, AB, AB)", T59));
  v.push(entry!("T60: struct { A, AB, Option<A> }", T60));
  v.push(entry!("T61: struct (A, AB, Vec<B>)", T61));
  v.push(entry!("T62: struct { A, AB, SepSeq<A, C> }", T62));
  v.push(entry!("T63: struct (A, Option<A>, A)", T63));
  v.push(entry!("T64: struct { A, Option<A>, B }", T64));
  v.push(entry!("T65: struct (A, Option<A>, AB)", T65));
  v.push(entry!("T66: struct { A, Option<A>, Option<A> }", T66));
  v.push(entry!("T67: struct (A, Option<A>, Vec<B>)", T67));
  v.push(entry!("T68: struct { A, Option<A>, SepSeq<A, C> }", T68));
  v.push(entry!("T69: struct (A, Vec<B>, A)", T69));
  v.push(entry!("T70: struct { A, Vec<B>, B }", T70));
  v.push(entry!("T71: struct (A, Vec<B>, AB)", T71));
  v.push(entry!("T72: struct { A, Vec<B>, Option<A> }", T72));
  v.push(entry!("T73: struct (A, Vec<B>, Vec<B>)", T73));
  v.push(entry!("T74: struct { A, Vec<B>, SepSeq<A, C> }", T74));
  v.push(entry!("T75: struct (A, SepSeq<A, C>, A)", T75));
  v.push(entry!("T76: struct { A, SepSeq<A, C>, B }", T76));
  v.push(entry!("T77: struct (A, SepSeq<A, C>, AB)", T77));
  v.push(entry!("T78: struct { A, SepSeq<A, C>, Option<A> }", T78));
  v.push(entry!("T79: struct (A, SepSeq<A, C>, Vec<B>)", T79));
  v.push(entry!("T80: struct { A, SepSeq<A, C>, SepSeq<A, C> }", T80));
  v.push(entry!("T81: struct (B, A, A)", T81));
  v.push(entry!("T82: struct { B, A, B }", T82));
  v.push(entry!("T83: struct (B, A, AB)", T83));
  v.push(entry!("T84: struct { B, A, Option<A> }", T84));
  v.push(entry!("T85: struct (B, A, Vec<B>)", T85));
  v.push(entry!("T86: struct { B, A, SepSeq<A, C> }", T86));
  v.push(entry!("T87: struct (B, B, A)", T87));
  v.push(entry!("T88: struct { B, B, B }", T88));
  v.push(entry!("T89: struct (B, B, AB)", T89));
  v.push(entry!("T90: struct { B, B, Option<A> }", T90));
  v.push(entry!("T91: struct (B, B, Vec<B>)", T91));
  v.push(entry!("T92: struct { B, B, SepSeq<A, C> }", T92));
  v.push(entry!("T93: struct (B, AB, A)", T93));
  v.push(entry!("T94: struct { B, AB, B }", T94));
}
fn push2(v: &mut Vec<Entry>) {
  v.push(entry!("T95: struct (B, AB, AB)", T95));
  v.push(entry!("T96: struct { B, AB, Option<A> }", T96));
  v.push(entry!("T97: struct (B, AB, Vec<B>)", T97));
  v.push(entry!("T98: struct { B, AB, SepSeq<A, C> }", T98));
  v.push(entry!("T99: struct (B, Option<A>, A)", T99));
  v.push(entry!("T100: struct { B, Option<A>, B }", T100));
  v.push(entry!("T101: struct (B, Option<A>, AB)", T101));
  v.push(entry!("T102: struct { B, Option<A>, Option<A> }", T102));
  v.push(entry!("T103: struct (B, Option<A>, Vec<B>)", T103));
  v.push(entry!("T104: struct { B, Option<A>, SepSeq<A, C> }", T104));
  v.push(entry!("T105: struct (B, Vec<B>, A)", T105));
  v.push(entry!("T106: struct { B, Vec<B>, B }", T106));
  v.push(entry!("T107: struct (B, Vec<B>, AB)", T107));
  v.push(entry!("T108: struct { B, Vec<B>, Option<A> }", T108));
  v.push(entry!("T109: struct (B, Vec<B>, Vec<B>)", T109));
  v.push(entry!("T110: struct { B, Vec<B>, SepSeq<A, C> }", T110));
  v.push(entry!("T111: struct (B, SepSeq<A, C>, A)", T111));
  v.push(entry!("T112: struct { B, SepSeq<A, C>, B }", T112));
  v.push(entry!("T113: struct (B, SepSeq<A, C>, AB)", T113));
  v.push(entry!("T114: struct { B, SepSeq<A, C>, Option<A> }", T114));
  v.push(entry!("T115: struct (B, SepSeq<A, C>, Vec<B>)", T115));
  v.push(entry!("T116: struct { B, SepSeq<A, C>, SepSeq<A, C> }", T116));
  v.push(entry!("T117: struct (AB, A, A)", T117));
  v.push(entry!("T118: struct { AB, A, B }", T118));
  v.push(entry!("T119: struct (AB, A, AB)", T119));
  v.push(entry!("T120: struct { AB, A, Option<A> }", T120));
  v.push(entry!("T121: struct (AB, A, Vec<B>)", T121));
  v.push(entry!("T122: struct { AB, A, SepSeq<A, C> }", T122));
  v.push(entry!("T123: struct (AB, B, A)", T123));
  v.push(entry!("T124: struct { AB, B, B }", T124));
  v.push(entry!("T125: struct (AB, B, AB)", T125));
  v.push(entry!("T126: struct { AB, B, Option<A> }", T126));
  v.push(entry!("T127: struct (AB, B, Vec<B>)", T127));
  v.push(entry!("T128: struct { AB, B, SepSeq<A, C> }", T128));
  v.push(entry!("T129: struct (AB, AB, A)", T129));
  v.push(entry!("T130: struct { AB, AB, B }", T130));
  v.push(entry!("T131: struct (AB, AB, AB)", T131));
  v.push(entry!("T132: struct { AB, AB, Option<A> }", T132));
  v.push(entry!("T133: struct (AB, AB, Vec<B>)", T133));
  v.push(entry!("T134: struct { AB, AB, SepSeq<A, C> }", T134));
}
fn push3(v: &mut Vec<Entry>) {
  v.push(entry!("T135: struct (AB, Option<A>, A)", T135));
  v.push(entry!("T136: struct { AB, Option<A>, B }", T136));
  v.push(entry!("T137: struct (AB, Option<A>, AB)", T137));
  v.push(entry!("T138: struct { AB, Option<A>, Option<A> }", T138));
  v.push(entry!("T139: struct (AB, Option<A>, Vec<B>)", T139));
  v.push(entry!("T140: struct { AB, Option<A>, SepSeq<A, C> }", T140));
  v.push(entry!("T141: struct (AB, Vec<B>, A)", T141));
  v.push(entry!("T142: struct { AB, Vec<B>, B }", T142));
  v.push(entry!("T143: struct (AB, Vec<B>, AB)", T143));
  v.push(entry!("T144: struct { AB, Vec<B>, Option<A> }", T144));
  v.push(entry!("T145: struct (AB, Vec<B>, Vec<B>)", T145));
  v.push(entry!("T146: struct { AB, Vec<B>, SepSeq<A, C> }", T146));
  v.push(entry!("T147: struct (AB, SepSeq<A, C>, A)", T147));
  v.push(entry!("T148: struct { AB, SepSeq<A, C>, B }", T148));
  v.push(entry!("T149: struct (AB, SepSeq<A, C>, AB)", T149));
  v.push(entry!("T150: struct { AB, SepSeq<A, C>, Option<A> }", T150));
  v.push(entry!("T151: struct (AB, SepSeq<A, C>, Vec<B>)", T151));
  v.push(entry!("T152: struct { AB, SepSeq<A, C>, SepSeq<A, C> }", T152));
  v.push(entry!("T153: struct (Option<A>, A, A)", T153));
  v.push(entry!("T154: struct { Option<A>, A, B }", T154));
  v.push(entry!("T155: struct (Option<A>, A, AB)", T155));
  v.push(entry!("T156: struct { Option<A>, A, Option<A> }", T156));
  v.push(entry!("T157: struct (Option<A>, A, Vec<B>)", T157));
  v.push(entry!("T158: struct { Option<A>, A, SepSeq<A, C> }", T158));
  v.push(entry!("T159: struct (Option<A>, B, A)", T159));
  v.push(entry!("T160: struct { Option<A>, B, B }", T160));
  v.push(entry!("T161: struct (Option<A>, B, AB)", T161));
  v.push(entry!("T162: struct { Option<A>, B, Option<A> }", T162));
  v.push(entry!("T163: struct (Option<A>, B, Vec<B>)", T163));
  v.push(entry!("T164: struct { Option<A>, B, SepSeq<A, C> }", T164));
  v.push(entry!("T165: struct (Option<A>, AB, A)", T165));
  v.push(entry!("T166: struct { Option<A>, AB, B }", T166));
  v.push(entry!("T167: struct (Option<A>, AB, AB)", T167));
  v.push(entry!("T168: struct { Option<A>, AB, Option<A> }", T168));
  v.push(entry!("T169: struct (Option<A>, AB, Vec<B>)", T169));
  v.push(entry!("T170: struct { Option<A>, AB, SepSeq<A, C> }", T170));
  v.push(entry!("T171: struct (Option<A>, Option<A>, A)", T171));
  v.push(entry!("T172: struct { Option<A>, Option<A>, B }", T172));
  v.push(entry!("T173: struct (Option<A>, Option<A>, AB)", T173));
  v.push(entry!("T177: struct (Option<A>, Vec<B>, A)", T177));
}
fn push4(v: &mut Vec<Entry>) {
  v.push(entry!("T178: struct { Option<A>, Vec<B>, B }", T178));
  v.push(entry!("T179: struct (Option<A>, Vec<B>, AB)", T179));
  v.push(entry!("T183: struct (Option<A>, SepSeq<A, C>, A)", T183));
  v.push(entry!("T184: struct { Option<A>, SepSeq<A, C>, B }", T184));
  v.push(entry!("T185: struct (Option<A>, SepSeq<A, C>, AB)", T185));
  v.push(entry!("T189: struct (Vec<B>, A, A)", T189));
  v.push(entry!("T190: struct { Vec<B>, A, B }", T190));
  v.push(entry!("T191: struct (Vec<B>, A, AB)", T191));
  v.push(entry!("T192: struct { Vec<B>, A, Option<A> }", T192));
  v.push(entry!("T193: struct (Vec<B>, A, Vec<B>)", T193));
  v.push(entry!("T194: struct { Vec<B>, A, SepSeq<A, C> }", T194));
  v.push(entry!("T195: struct (Vec<B>, B, A)", T195));
  v.push(entry!("T196: struct { Vec<B>, B, B }", T196));
  v.push(entry!("T197: struct (Vec<B>, B, AB)", T197));
  v.push(entry!("T198: struct { Vec<B>, B, Option<A> }", T198));
  v.push(entry!("T199: struct (Vec<B>, B, Vec<B>)", T199));
  v.push(entry!("T200: struct { Vec<B>, B, SepSeq<A, C> }", T200));
  v.push(entry!("T201: struct (Vec<B>, AB, A)", T201));
  v.push(entry!("T202: struct { Vec<B>, AB, B }", T202));
  v.push(entry!("T203: struct (Vec<B>, AB, AB)", T203));
  v.push(entry!("T204: struct { Vec<B>, AB, Option<A> }", T204));
  v.push(entry!("T205: struct (Vec<B>, AB, Vec<B>)", T205));
  v.push(entry!("T206: struct { Vec<B>, AB, SepSeq<A, C> }", T206));
  v.push(entry!("T207: struct (Vec<B>, Option<A>, A)", T207));
  v.push(entry!("T208: struct { Vec<B>, Option<A>, B }", T208));
  v.push(entry!("T209: struct (Vec<B>, Option<A>, AB)", T209));
  v.push(entry!("T213: struct (Vec<B>, Vec<B>, A)", T213));
  v.push(entry!("T214: struct { Vec<B>, Vec<B>, B }", T214));
  v.push(entry!("T215: struct (Vec<B>, Vec<B>, AB)", T215));
  v.push(entry!("T219: struct (Vec<B>, SepSeq<A, C>, A)", T219));
  v.push(entry!("T220: struct { Vec<B>, SepSeq<A, C>, B }", T220));
  v.push(entry!("T221: struct (Vec<B>, SepSeq<A, C>, AB)", T221));
  v.push(entry!("T225: struct (SepSeq<A, C>, A, A)", T225));
  v.push(entry!("T226: struct { SepSeq<A, C>, A, B }", T226));
  v.push(entry!("T227: struct (SepSeq<A, C>, A, AB)", T227));
  v.push(entry!("T228: struct { SepSeq<A, C>, A, Option<A> }", T228));
  v.push(entry!("T229: struct (SepSeq<A, C>, A, Vec<B>)", T229));
  v.push(entry!("T230: struct { SepSeq<A, C>, A, SepSeq<A, C> }", T230));
  v.push(entry!("T231: struct (SepSeq<A, C>, B, A)", T231));
  v.push(entry!("T232: struct { SepSeq<A, C>, B, B }", T232));
}
fn push5(v: &mut Vec<Entry>) {
  v.push(entry!("T233: struct (SepSeq<A, C>, B, AB)", T233));
  v.push(entry!("T234: struct { SepSeq<A, C>, B, Option<A> }", T234));
  v.push(entry!("T235: struct (SepSeq<A, C>, B, Vec<B>)", T235));
  v.push(entry!("T236: struct { SepSeq<A, C>, B, SepSeq<A, C> }", T236));
  v.push(entry!("T237: struct (SepSeq<A, C>, AB, A)", T237));
  v.push(entry!("T238: struct { SepSeq<A, C>, AB, B }", T238));
  v.push(entry!("T239: struct (SepSeq<A, C>, AB, AB)", T239));
  v.push(entry!("T240: struct { SepSeq<A, C>, AB, Option<A> }", T240));
  v.push(entry!("T241: struct (SepSeq<A, C>, AB, Vec<B>)", T241));
  v.push(entry!("T242: struct { SepSeq<A, C>, AB, SepSeq<A, C> }", T242));
  v.push(entry!("T243: struct (SepSeq<A, C>, Option<A>, A)", T243));
  v.push(entry!("T244: struct { SepSeq<A, C>, Option<A>, B }", T244));
  v.push(entry!("T245: struct (SepSeq<A, C>, Option<A>, AB)", T245));
  v.push(entry!("T249: struct (SepSeq<A, C>, Vec<B>, A)", T249));
  v.push(entry!("T250: struct { SepSeq<A, C>, Vec<B>, B }", T250));
  v.push(entry!("T251: struct (SepSeq<A, C>, Vec<B>, AB)", T251));
  v.push(entry!("T255: struct (SepSeq<A, C>, SepSeq<A, C>, A)", T255));
  v.push(entry!("T256: struct { SepSeq<A, C>, SepSeq<A, C>, B }", T256));
  v.push(entry!("T257: struct (SepSeq<A, C>, SepSeq<A, C>, AB)", T257));
  v.push(entry!("T261: struct (C)", T261));
  v.push(entry!("T262: struct { C, A }", T262));
  v.push(entry!("T263: struct (Option<A>, C)", T263));
  v.push(entry!("T264: struct { Box<B> }", T264));
  v.push(entry!("T265: struct (Box<B>, A)", T265));
  v.push(entry!("T266: struct { Option<A>, Box<B> }", T266));
  v.push(entry!("T268: struct { Option<Vec<C>>, A }", T268));
  v.push(entry!("T270: struct { TokenPrefix<A, B> }", T270));
  v.push(entry!("T271: struct (TokenPrefix<A, B>, A)", T271));
  v.push(entry!("T272: struct { Option<A>, TokenPrefix<A, B> }", T272));
  v.push(entry!("T273: struct (OptPrefix<B, C>)", T273));
  v.push(entry!("T274: struct { OptPrefix<B, C>, A }", T274));
  v.push(entry!("T275: struct (Option<A>, OptPrefix<B, C>)", T275));
  v.push(entry!("T276: struct { NonEmptySeq<A> }", T276));
  v.push(entry!("T277: struct (NonEmptySeq<A>, A)", T277));
  v.push(entry!("T278: struct { Option<A>, NonEmptySeq<A> }", T278));
  v.push(entry!("T279: struct { A, B, A, B }", T279));
  v.push(entry!("T280: struct { A, Option<A>, Vec<B>, C }", T280));
  v.push(entry!("T281: struct { Option<A>, Option<B>, Option<B>, C }", T281));
  v.push(entry!("T282: struct { C, Option<B>, Option<B>, Option<A> }", T282));
  v.push(entry!("T283: struct (A, B, A, B)", T283));
}
fn push6(v: &mut Vec<Entry>) {
  v.push(entry!("T284: struct (A, Option<A>, Vec<B>, C)", T284));
  v.push(entry!("T285: struct (Option<A>, Option<B>, Option<B>, C)", T285));
  v.push(entry!("T286: struct (C, Option<B>, Option<B>, Option<A>)", T286));
  v.push(entry!("T287: struct { A, B, A, B, B }", T287));
  v.push(entry!("T288: struct { A, Option<A>, Vec<B>, C, B }", T288));
  v.push(entry!("T289: struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", T289));
  v.push(entry!("T290: struct { C, Option<B>, Option<B>, Option<B>, Option<A> }", T290));
  v.push(entry!("T291: struct (A, B, A, B, B)", T291));
  v.push(entry!("T292: struct (A, Option<A>, Vec<B>, C, B)", T292));
  v.push(entry!("T293: struct (Option<A>, Option<B>, Option<B>, Option<B>, C)", T293));
  v.push(entry!("T294: struct (C, Option<B>, Option<B>, Option<B>, Option<A>)", T294));
  v.push(entry!("T295: struct { A, B, A, B, B, C, B, C }", T295));
  v.push(entry!("T296: struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", T296));
  v.push(entry!("T297: struct { Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C }", T297));
  v.push(entry!("T298: struct { C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A> }", T298));
  v.push(entry!("T299: struct (A, B, A, B, B, C, B, C)", T299));
  v.push(entry!("T300: struct (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A)", T300));
  v.push(entry!("T301: struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", T301));
  v.push(entry!("T302: struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", T302));
  v.push(entry!("T303: struct { A, B, A, B, B, C, B, C, C, D, C, D }", T303));
  v.push(entry!("T304: struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B }", T304));
  v.push(entry!("T305: struct { Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C }", T305));
  v.push(entry!("T306: struct { C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A> }", T306));
  v.push(entry!("T307: struct (A, B, A, B, B, C, B, C, C, D, C, D)", T307));
  v.push(entry!("T308: struct (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B)", T308));
  v.push(entry!("T309: struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", T309));
  v.push(entry!("T310: struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", T310));
  v.push(entry!("T311: struct { A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B }", T311));
  v.push(entry!("T312: struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C> }", T312));
  v.push(entry!("T313: struct { Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C }", T313));
  v.push(entry!("T314: struct { C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A> }", T314));
  v.push(entry!("T315: struct (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B)", T315));
  v.push(entry!("T316: struct (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C>)", T316));
  v.push(entry!("T317: struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", T317));
  v.push(entry!("T318: struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", T318));
  v.push(entry!("T320: enum (A)", T320));
  v.push(entry!("T321: enum { B, A }", T321));
  v.push(entry!("T322: enum (Option<A>, C)", T322));
  v.push(entry!("T324: enum { AB, C }", T324));
  v.push(entry!("T334: enum (A) | (A)", T334));
}
fn push7(v: &mut Vec<Entry>) {
  v.push(entry!("T335: enum (A) | { B, A }", T335));
  v.push(entry!("T336: enum (A) | (Option<A>, C)", T336));
  v.push(entry!("T338: enum (A) | { AB, C }", T338));
  v.push(entry!("T341: enum { B, A } | (A)", T341));
  v.push(entry!("T342: enum { B, A } | { B, A }", T342));
  v.push(entry!("T343: enum { B, A } | (Option<A>, C)", T343));
  v.push(entry!("T345: enum { B, A } | { AB, C }", T345));
  v.push(entry!("T348: enum (Option<A>, C) | (A)", T348));
  v.push(entry!("T349: enum (Option<A>, C) | { B, A }", T349));
  v.push(entry!("T350: enum (Option<A>, C) | (Option<A>, C)", T350));
  v.push(entry!("T352: enum (Option<A>, C) | { AB, C }", T352));
  v.push(entry!("T362: enum { AB, C } | (A)", T362));
  v.push(entry!("T363: enum { AB, C } | { B, A }", T363));
  v.push(entry!("T364: enum { AB, C } | (Option<A>, C)", T364));
  v.push(entry!("T366: enum { AB, C } | { AB, C }", T366));
  v.push(entry!("T432: enum (A) | (A) | (A)", T432));
  v.push(entry!("T433: enum (A) | (A) | { B, A }", T433));
  v.push(entry!("T434: enum (A) | (A) | (Option<A>, C)", T434));
  v.push(entry!("T436: enum (A) | (A) | { AB, C }", T436));
  v.push(entry!("T439: enum (A) | { B, A } | (A)", T439));
  v.push(entry!("T440: enum (A) | { B, A } | { B, A }", T440));
  v.push(entry!("T441: enum (A) | { B, A } | (Option<A>, C)", T441));
  v.push(entry!("T443: enum (A) | { B, A } | { AB, C }", T443));
  v.push(entry!("T446: enum (A) | (Option<A>, C) | (A)", T446));
  v.push(entry!("T447: enum (A) | (Option<A>, C) | { B, A }", T447));
  v.push(entry!("T448: enum (A) | (Option<A>, C) | (Option<A>, C)", T448));
  v.push(entry!("T450: enum (A) | (Option<A>, C) | { AB, C }", T450));
  v.push(entry!("T460: enum (A) | { AB, C } | (A)", T460));
  v.push(entry!("T461: enum (A) | { AB, C } | { B, A }", T461));
  v.push(entry!("T462: enum (A) | { AB, C } | (Option<A>, C)", T462));
  v.push(entry!("T464: enum (A) | { AB, C } | { AB, C }", T464));
  v.push(entry!("T481: enum { B, A } | (A) | (A)", T481));
  v.push(entry!("T482: enum { B, A } | (A) | { B, A }", T482));
  v.push(entry!("T483: enum { B, A } | (A) | (Option<A>, C)", T483));
  v.push(entry!("T485: enum { B, A } | (A) | { AB, C }", T485));
  v.push(entry!("T488: enum { B, A } | { B, A } | (A)", T488));
  v.push(entry!("T489: enum { B, A } | { B, A } | { B, A }", T489));
  v.push(entry!("T490: enum { B, A } | { B, A } | (Option<A>, C)", T490));
  v.push(entry!("T492: enum { B, A } | { B, A } | { AB, C }", T492));
  v.push(entry!("T495: enum { B, A } | (Option<A>, C) | (A)", T495));
}
fn push8(v: &mut Vec<Entry>) {
  v.push(entry!("T496: enum { B, A } | (Option<A>, C) | { B, A }", T496));
  v.push(entry!("T497: enum { B, A } | (Option<A>, C) | (Option<A>, C)", T497));
  v.push(entry!("T499: enum { B, A } | (Option<A>, C) | { AB, C }", T499));
  v.push(entry!("T509: enum { B, A } | { AB, C } | (A)", T509));
  v.push(entry!("T510: enum { B, A } | { AB, C } | { B, A }", T510));
  v.push(entry!("T511: enum { B, A } | { AB, C } | (Option<A>, C)", T511));
  v.push(entry!("T513: enum { B, A } | { AB, C } | { AB, C }", T513));
  v.push(entry!("T530: enum (Option<A>, C) | (A) | (A)", T530));
  v.push(entry!("T531: enum (Option<A>, C) | (A) | { B, A }", T531));
  v.push(entry!("T532: enum (Option<A>, C) | (A) | (Option<A>, C)", T532));
  v.push(entry!("T534: enum (Option<A>, C) | (A) | { AB, C }", T534));
  v.push(entry!("T537: enum (Option<A>, C) | { B, A } | (A)", T537));
  v.push(entry!("T538: enum (Option<A>, C) | { B, A } | { B, A }", T538));
  v.push(entry!("T539: enum (Option<A>, C) | { B, A } | (Option<A>, C)", T539));
  v.push(entry!("T541: enum (Option<A>, C) | { B, A } | { AB, C }", T541));
  v.push(entry!("T544: enum (Option<A>, C) | (Option<A>, C) | (A)", T544));
  v.push(entry!("T545: enum (Option<A>, C) | (Option<A>, C) | { B, A }", T545));
  v.push(entry!("T546: enum (Option<A>, C) | (Option<A>, C) | (Option<A>, C)", T546));
  v.push(entry!("T548: enum (Option<A>, C) | (Option<A>, C) | { AB, C }", T548));
  v.push(entry!("T558: enum (Option<A>, C) | { AB, C } | (A)", T558));
  v.push(entry!("T559: enum (Option<A>, C) | { AB, C } | { B, A }", T559));
  v.push(entry!("T560: enum (Option<A>, C) | { AB, C } | (Option<A>, C)", T560));
  v.push(entry!("T562: enum (Option<A>, C) | { AB, C } | { AB, C }", T562));
  v.push(entry!("T628: enum { AB, C } | (A) | (A)", T628));
  v.push(entry!("T629: enum { AB, C } | (A) | { B, A }", T629));
  v.push(entry!("T630: enum { AB, C } | (A) | (Option<A>, C)", T630));
  v.push(entry!("T632: enum { AB, C } | (A) | { AB, C }", T632));
  v.push(entry!("T635: enum { AB, C } | { B, A } | (A)", T635));
  v.push(entry!("T636: enum { AB, C } | { B, A } | { B, A }", T636));
  v.push(entry!("T637: enum { AB, C } | { B, A } | (Option<A>, C)", T637));
  v.push(entry!("T639: enum { AB, C } | { B, A } | { AB, C }", T639));
  v.push(entry!("T642: enum { AB, C } | (Option<A>, C) | (A)", T642));
  v.push(entry!("T643: enum { AB, C } | (Option<A>, C) | { B, A }", T643));
  v.push(entry!("T644: enum { AB, C } | (Option<A>, C) | (Option<A>, C)", T644));
  v.push(entry!("T646: enum { AB, C } | (Option<A>, C) | { AB, C }", T646));
  v.push(entry!("T656: enum { AB, C } | { AB, C } | (A)", T656));
  v.push(entry!("T657: enum { AB, C } | { AB, C } | { B, A }", T657));
  v.push(entry!("T658: enum { AB, C } | { AB, C } | (Option<A>, C)", T658));
  v.push(entry!("T660: enum { AB, C } | { AB, C } | { AB, C }", T660));
  v.push(entry!("T718: enum { A, B } | (B, Option<A>) | { C } | (D, AB)", T718));
}
fn push9(v: &mut Vec<Entry>) {
  v.push(entry!("T719: enum { A, B } | (B, Option<A>) | (D, AB) | { C }", T719));
  v.push(entry!("T720: enum { A, B } | { C } | (B, Option<A>) | (D, AB)", T720));
  v.push(entry!("T721: enum { A, B } | { C } | (D, AB) | (B, Option<A>)", T721));
  v.push(entry!("T722: enum { A, B } | (D, AB) | (B, Option<A>) | { C }", T722));
  v.push(entry!("T723: enum { A, B } | (D, AB) | { C } | (B, Option<A>)", T723));
  v.push(entry!("T724: enum (B, Option<A>) | { A, B } | { C } | (D, AB)", T724));
  v.push(entry!("T725: enum (B, Option<A>) | { A, B } | (D, AB) | { C }", T725));
  v.push(entry!("T726: enum (B, Option<A>) | { C } | { A, B } | (D, AB)", T726));
  v.push(entry!("T727: enum (B, Option<A>) | { C } | (D, AB) | { A, B }", T727));
  v.push(entry!("T728: enum (B, Option<A>) | (D, AB) | { A, B } | { C }", T728));
  v.push(entry!("T729: enum (B, Option<A>) | (D, AB) | { C } | { A, B }", T729));
  v.push(entry!("T730: enum { C } | { A, B } | (B, Option<A>) | (D, AB)", T730));
  v.push(entry!("T731: enum { C } | { A, B } | (D, AB) | (B, Option<A>)", T731));
  v.push(entry!("T732: enum { C } | (B, Option<A>) | { A, B } | (D, AB)", T732));
  v.push(entry!("T733: enum { C } | (B, Option<A>) | (D, AB) | { A, B }", T733));
  v.push(entry!("T734: enum { C } | (D, AB) | { A, B } | (B, Option<A>)", T734));
  v.push(entry!("T735: enum { C } | (D, AB) | (B, Option<A>) | { A, B }", T735));
  v.push(entry!("T736: enum (D, AB) | { A, B } | (B, Option<A>) | { C }", T736));
  v.push(entry!("T737: enum (D, AB) | { A, B } | { C } | (B, Option<A>)", T737));
  v.push(entry!("T738: enum (D, AB) | (B, Option<A>) | { A, B } | { C }", T738));
  v.push(entry!("T739: enum (D, AB) | (B, Option<A>) | { C } | { A, B }", T739));
  v.push(entry!("T740: enum (D, AB) | { C } | { A, B } | (B, Option<A>)", T740));
  v.push(entry!("T741: enum (D, AB) | { C } | (B, Option<A>) | { A, B }", T741));
  v.push(entry!("T742: enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | { C }", T742));
  v.push(entry!("T743: enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", T743));
  v.push(entry!("T744: enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", T744));
  v.push(entry!("T745: enum (C) | (C)", T745));
  v.push(entry!("T746: enum (C) | (Box<B>)", T746));
  v.push(entry!("T748: enum (C) | (TokenPrefix<A, B>)", T748));
  v.push(entry!("T749: enum (C) | (OptPrefix<B, C>)", T749));
  v.push(entry!("T750: enum (C) | (NonEmptySeq<A>)", T750));
  v.push(entry!("T751: enum (Box<B>) | (C)", T751));
  v.push(entry!("T752: enum (Box<B>) | (Box<B>)", T752));
  v.push(entry!("T754: enum (Box<B>) | (TokenPrefix<A, B>)", T754));
  v.push(entry!("T755: enum (Box<B>) | (OptPrefix<B, C>)", T755));
  v.push(entry!("T756: enum (Box<B>) | (NonEmptySeq<A>)", T756));
  v.push(entry!("T763: enum (TokenPrefix<A, B>) | (C)", T763));
  v.push(entry!("T764: enum (TokenPrefix<A, B>) | (Box<B>)", T764));
  v.push(entry!("T766: enum (TokenPrefix<A, B>) | (TokenPrefix<A, B>)", T766));
  v.push(entry!("T767: enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", T767));
}
fn push10(v: &mut Vec<Entry>) {
  v.push(entry!("T768: enum (TokenPrefix<A, B>) | (NonEmptySeq<A>)", T768));
  v.push(entry!("T769: enum (OptPrefix<B, C>) | (C)", T769));
  v.push(entry!("T770: enum (OptPrefix<B, C>) | (Box<B>)", T770));
  v.push(entry!("T772: enum (OptPrefix<B, C>) | (TokenPrefix<A, B>)", T772));
  v.push(entry!("T773: enum (OptPrefix<B, C>) | (OptPrefix<B, C>)", T773));
  v.push(entry!("T774: enum (OptPrefix<B, C>) | (NonEmptySeq<A>)", T774));
  v.push(entry!("T775: enum (NonEmptySeq<A>) | (C)", T775));
  v.push(entry!("T776: enum (NonEmptySeq<A>) | (Box<B>)", T776));
  v.push(entry!("T778: enum (NonEmptySeq<A>) | (TokenPrefix<A, B>)", T778));
  v.push(entry!("T779: enum (NonEmptySeq<A>) | (OptPrefix<B, C>)", T779));
  v.push(entry!("T780: enum (NonEmptySeq<A>) | (NonEmptySeq<A>)", T780));
  v.push(entry!("T781: struct { A, B } starts_with(A)", T781));
  v.push(entry!("T782: struct (Option<A>, Vec<B>, C) starts_with(A)", T782));
  v.push(entry!("T784: enum (A, B) | { B } starts_with(A)", T784));
  v.push(entry!("T786: struct { A, B } starts_with(A, B)", T786));
  v.push(entry!("T787: struct (Option<A>, Vec<B>, C) starts_with(A, B)", T787));
  v.push(entry!("T789: enum (A, B) | { B } starts_with(A, B)", T789));
  v.push(entry!("T791: struct { A, B } starts_with(AB, A)", T791));
  v.push(entry!("T792: struct (Option<A>, Vec<B>, C) starts_with(AB, A)", T792));
  v.push(entry!("T794: enum (A, B) | { B } starts_with(AB, A)", T794));
  v.push(entry!("T796: struct { A, B } starts_with(A, AB, C)", T796));
  v.push(entry!("T797: struct (Option<A>, Vec<B>, C) starts_with(A, AB, C)", T797));
  v.push(entry!("T799: enum (A, B) | { B } starts_with(A, AB, C)", T799));
  v.push(entry!("T801: struct { A, B } starts_with(A, B, C, D)", T801));
  v.push(entry!("T802: struct (Option<A>, Vec<B>, C) starts_with(A, B, C, D)", T802));
  v.push(entry!("T804: enum (A, B) | { B } starts_with(A, B, C, D)", T804));
  v.push(entry!("T806: struct { A, B } starts_with(B)", T806));
  v.push(entry!("T807: struct (Option<A>, Vec<B>, C) starts_with(B)", T807));
  v.push(entry!("T809: enum (A, B) | { B } starts_with(B)", T809));
  v.push(entry!("T811: struct { A, Option<A>, B }", T811));
  v.push(entry!("T812: enum { B, Option<A> } | (A)", T812));
  v.push(entry!("T813: struct { A, B }", T813));
  v.push(entry!("T814: struct { A, B }", T814));
  v.push(entry!("Vec<T3> of struct (A)", Vec<T3>));
  v.push(entry!("Option<T3> of struct (A)", Option<T3>));
  v.push(entry!("SepSeq<T3, D> of struct (A)", SepSeq<T3, D>));
  v.push(entry!("OptSepList<T3, D> of struct (A)", OptSepList<T3, D>));
  v.push(entry!("Vec<T13> of struct (A, Vec<B>)", Vec<T13>));
  v.push(entry!("Option<T13> of struct (A, Vec<B>)", Option<T13>));
  v.push(entry!("SepSeq<T13, D> of struct (A, Vec<B>)", SepSeq<T13, D>));
}
fn push11(v: &mut Vec<Entry>) {
  v.push(entry!("OptSepList<T13, D> of struct (A, Vec<B>)", OptSepList<T13, D>));
  v.push(entry!("Vec<T20> of struct { B, SepSeq<A, C> }", Vec<T20>));
  v.push(entry!("Option<T20> of struct { B, SepSeq<A, C> }", Option<T20>));
  v.push(entry!("SepSeq<T20, D> of struct { B, SepSeq<A, C> }", SepSeq<T20, D>));
  v.push(entry!("OptSepList<T20, D> of struct { B, SepSeq<A, C> }", OptSepList<T20, D>));
  v.push(entry!("Vec<T27> of struct (Option<A>, A)", Vec<T27>));
  v.push(entry!("Option<T27> of struct (Option<A>, A)", Option<T27>));
  v.push(entry!("SepSeq<T27, D> of struct (Option<A>, A)", SepSeq<T27, D>));
  v.push(entry!("OptSepList<T27, D> of struct (Option<A>, A)", OptSepList<T27, D>));
  v.push(entry!("Vec<T40> of struct { SepSeq<A, C>, B }", Vec<T40>));
  v.push(entry!("Option<T40> of struct { SepSeq<A, C>, B }", Option<T40>));
  v.push(entry!("SepSeq<T40, D> of struct { SepSeq<A, C>, B }", SepSeq<T40, D>));
  v.push(entry!("OptSepList<T40, D> of struct { SepSeq<A, C>, B }", OptSepList<T40, D>));
  v.push(entry!("Vec<T50> of struct { A, A, SepSeq<A, C> }", Vec<T50>));
  v.push(entry!("Option<T50> of struct { A, A, SepSeq<A, C> }", Option<T50>));
  v.push(entry!("SepSeq<T50, D> of struct { A, A, SepSeq<A, C> }", SepSeq<T50, D>));
  v.push(entry!("OptSepList<T50, D> of struct { A, A, SepSeq<A, C> }", OptSepList<T50, D>));
  v.push(entry!("Vec<T57> of struct (A, AB, A)", Vec<T57>));
  v.push(entry!("Option<T57> of struct (A, AB, A)", Option<T57>));
  v.push(entry!("SepSeq<T57, D> of struct (A, AB, A)", SepSeq<T57, D>));
  v.push(entry!("OptSepList<T57, D> of struct (A, AB, A)", OptSepList<T57, D>));
  v.push(entry!("Vec<T64> of struct { A, Option<A>, B }", Vec<T64>));
  v.push(entry!("Option<T64> of struct { A, Option<A>, B }", Option<T64>));
  v.push(entry!("SepSeq<T64, D> of struct { A, Option<A>, B }", SepSeq<T64, D>));
  v.push(entry!("OptSepList<T64, D> of struct { A, Option<A>, B }", OptSepList<T64, D>));
  v.push(entry!("Vec<T71> of struct (A, Vec<B>, AB)", Vec<T71>));
  v.push(entry!("Option<T71> of struct (A, Vec<B>, AB)", Option<T71>));
  v.push(entry!("SepSeq<T71, D> of struct (A, Vec<B>, AB)", SepSeq<T71, D>));
  v.push(entry!("OptSepList<T71, D> of struct (A, Vec<B>, AB)", OptSepList<T71, D>));
  v.push(entry!("Vec<T78> of struct { A, SepSeq<A, C>, Option<A> }", Vec<T78>));
  v.push(entry!("Option<T78> of struct { A, SepSeq<A, C>, Option<A> }", Option<T78>));
  v.push(entry!("SepSeq<T78, D> of struct { A, SepSeq<A, C>, Option<A> }", SepSeq<T78, D>));
  v.push(entry!("OptSepList<T78, D> of struct { A, SepSeq<A, C>, Option<A> }", OptSepList<T78, D>));
  v.push(entry!("Vec<T85> of struct (B, A, Vec<B>)", Vec<T85>));
  v.push(entry!("Option<T85> of struct (B, A, Vec<B>)", Option<T85>));
  v.push(entry!("SepSeq<T85, D> of struct (B, A, Vec<B>)", SepSeq<T85, D>));
  v.push(entry!("OptSepList<T85, D> of struct (B, A, Vec<B>)", OptSepList<T85, D>));
  v.push(entry!("Vec<T92> of struct { B, B, SepSeq<A, C> }", Vec<T92>));
  v.push(entry!("Option<T92> of struct { B, B, SepSeq<A, C> }", Option<T92>));
  v.push(entry!("SepSeq<T92, D> of struct { B, B, SepSeq<A, C> }", SepSeq<T92, D>));
}
fn push12(v: &mut Vec<Entry>) {
  v.push(entry!("OptSepList<T92, D> of struct { B, B, SepSeq<A, C> }", OptSepList<T92, D>));
  v.push(entry!("Vec<T99> of struct (B, Option<A>, A)", Vec<T99>));
  v.push(entry!("Option<T99> of struct (B, Option<A>, A)", Option<T99>));
  v.push(entry!("SepSeq<T99, D> of struct (B, Option<A>, A)", SepSeq<T99, D>));
  v.push(entry!("OptSepList<T99, D> of struct (B, Option<A>, A)", OptSepList<T99, D>));
  v.push(entry!("Vec<T106> of struct { B, Vec<B>, B }", Vec<T106>));
  v.push(entry!("Option<T106> of struct { B, Vec<B>, B }", Option<T106>));
  v.push(entry!("SepSeq<T106, D> of struct { B, Vec<B>, B }", SepSeq<T106, D>));
  v.push(entry!("OptSepList<T106, D> of struct { B, Vec<B>, B }", OptSepList<T106, D>));
  v.push(entry!("Vec<T113> of struct (B, SepSeq<A, C>, AB)", Vec<T113>));
  v.push(entry!("Option<T113> of struct (B, SepSeq<A, C>, AB)", Option<T113>));
  v.push(entry!("SepSeq<T113, D> of struct (B, SepSeq<A, C>, AB)", SepSeq<T113, D>));
  v.push(entry!("OptSepList<T113, D> of struct (B, SepSeq<A, C>, AB)", OptSepList<T113, D>));
  v.push(entry!("Vec<T120> of struct { AB, A, Option<A> }", Vec<T120>));
  v.push(entry!("Option<T120> of struct { AB, A, Option<A> }", Option<T120>));
  v.push(entry!("SepSeq<T120, D> of struct { AB, A, Option<A> }", SepSeq<T120, D>));
  v.push(entry!("OptSepList<T120, D> of struct { AB, A, Option<A> }", OptSepList<T120, D>));
  v.push(entry!("Vec<T127> of struct (AB, B, Vec<B>)", Vec<T127>));
  v.push(entry!("Option<T127> of struct (AB, B, Vec<B>)", Option<T127>));
  v.push(entry!("SepSeq<T127, D> of struct (AB, B, Vec<B>)", SepSeq<T127, D>));
  v.push(entry!("OptSepList<T127, D> of struct (AB, B, Vec<B>)", OptSepList<T127, D>));
  v.push(entry!("Vec<T134> of struct { AB, AB, SepSeq<A, C> }", Vec<T134>));
  v.push(entry!("Option<T134> of struct { AB, AB, SepSeq<A, C> }", Option<T134>));
  v.push(entry!("SepSeq<T134, D> of struct { AB, AB, SepSeq<A, C> }", SepSeq<T134, D>));
  v.push(entry!("OptSepList<T134, D> of struct { AB, AB, SepSeq<A, C> }", OptSepList<T134, D>));
  v.push(entry!("Vec<T141> of struct (AB, Vec<B>, A)", Vec<T141>));
  v.push(entry!("Option<T141> of struct (AB, Vec<B>, A)", Option<T141>));
  v.push(entry!("SepSeq<T141, D> of struct (AB, Vec<B>, A)", SepSeq<T141, D>));
  v.push(entry!("OptSepList<T141, D> of struct (AB, Vec<B>, A)", OptSepList<T141, D>));
  v.push(entry!("Vec<T148> of struct { AB, SepSeq<A, C>, B }", Vec<T148>));
  v.push(entry!("Option<T148> of struct { AB, SepSeq<A, C>, B }", Option<T148>));
  v.push(entry!("SepSeq<T148, D> of struct { AB, SepSeq<A, C>, B }", SepSeq<T148, D>));
  v.push(entry!("OptSepList<T148, D> of struct { AB, SepSeq<A, C>, B }", OptSepList<T148, D>));
  v.push(entry!("Vec<T155> of struct (Option<A>, A, AB)", Vec<T155>));
  v.push(entry!("Option<T155> of struct (Option<A>, A, AB)", Option<T155>));
  v.push(entry!("SepSeq<T155, D> of struct (Option<A>, A, AB)", SepSeq<T155, D>));
  v.push(entry!("OptSepList<T155, D> of struct (Option<A>, A, AB)", OptSepList<T155, D>));
  v.push(entry!("Vec<T162> of struct { Option<A>, B, Option<A> }", Vec<T162>));
  v.push(entry!("Option<T162> of struct { Option<A>, B, Option<A> }", Option<T162>));
  v.push(entry!("SepSeq<T162, D> of struct { Option<A>, B, Option<A> }", SepSeq<T162, D>));
}
fn push13(v: &mut Vec<Entry>) {
  v.push(entry!("OptSepList<T162, D> of struct { Option<A>, B, Option<A> }", OptSepList<T162, D>));
  v.push(entry!("Vec<T169> of struct (Option<A>, AB, Vec<B>)", Vec<T169>));
  v.push(entry!("Option<T169> of struct (Option<A>, AB, Vec<B>)", Option<T169>));
  v.push(entry!("SepSeq<T169, D> of struct (Option<A>, AB, Vec<B>)", SepSeq<T169, D>));
  v.push(entry!("OptSepList<T169, D> of struct (Option<A>, AB, Vec<B>)", OptSepList<T169, D>));
  v.push(entry!("Vec<T179> of struct (Option<A>, Vec<B>, AB)", Vec<T179>));
  v.push(entry!("Option<T179> of struct (Option<A>, Vec<B>, AB)", Option<T179>));
  v.push(entry!("SepSeq<T179, D> of struct (Option<A>, Vec<B>, AB)", SepSeq<T179, D>));
  v.push(entry!("OptSepList<T179, D> of struct (Option<A>, Vec<B>, AB)", OptSepList<T179, D>));
  v.push(entry!("Vec<T192> of struct { Vec<B>, A, Option<A> }", Vec<T192>));
  v.push(entry!("Option<T192> of struct { Vec<B>, A, Option<A> }", Option<T192>));
  v.push(entry!("SepSeq<T192, D> of struct { Vec<B>, A, Option<A> }", SepSeq<T192, D>));
  v.push(entry!("OptSepList<T192, D> of struct { Vec<B>, A, Option<A> }", OptSepList<T192, D>));
  v.push(entry!("Vec<T199> of struct (Vec<B>, B, Vec<B>)", Vec<T199>));
  v.push(entry!("Option<T199> of struct (Vec<B>, B, Vec<B>)", Option<T199>));
  v.push(entry!("SepSeq<T199, D> of struct (Vec<B>, B, Vec<B>)", SepSeq<T199, D>));
  v.push(entry!("OptSepList<T199, D> of struct (Vec<B>, B, Vec<B>)", OptSepList<T199, D>));
  v.push(entry!("Vec<T206> of struct { Vec<B>, AB, SepSeq<A, C> }", Vec<T206>));
  v.push(entry!("Option<T206> of struct { Vec<B>, AB, SepSeq<A, C> }", Option<T206>));
  v.push(entry!("SepSeq<T206, D> of struct { Vec<B>, AB, SepSeq<A, C> }", SepSeq<T206, D>));
  v.push(entry!("OptSepList<T206, D> of struct { Vec<B>, AB, SepSeq<A, C> }", OptSepList<T206, D>));
  v.push(entry!("Vec<T219> of struct (Vec<B>, SepSeq<A, C>, A)", Vec<T219>));
  v.push(entry!("Option<T219> of struct (Vec<B>, SepSeq<A, C>, A)", Option<T219>));
  v.push(entry!("SepSeq<T219, D> of struct (Vec<B>, SepSeq<A, C>, A)", SepSeq<T219, D>));
  v.push(entry!("OptSepList<T219, D> of struct (Vec<B>, SepSeq<A, C>, A)", OptSepList<T219, D>));
  v.push(entry!("Vec<T229> of struct (SepSeq<A, C>, A, Vec<B>)", Vec<T229>));
  v.push(entry!("Option<T229> of struct (SepSeq<A, C>, A, Vec<B>)", Option<T229>));
  v.push(entry!("SepSeq<T229, D> of struct (SepSeq<A, C>, A, Vec<B>)", SepSeq<T229, D>));
  v.push(entry!("OptSepList<T229, D> of struct (SepSeq<A, C>, A, Vec<B>)", OptSepList<T229, D>));
  v.push(entry!("Vec<T236> of struct { SepSeq<A, C>, B, SepSeq<A, C> }", Vec<T236>));
  v.push(entry!("Option<T236> of struct { SepSeq<A, C>, B, SepSeq<A, C> }", Option<T236>));
  v.push(entry!("SepSeq<T236, D> of struct { SepSeq<A, C>, B, SepSeq<A, C> }", SepSeq<T236, D>));
  v.push(entry!("OptSepList<T236, D> of struct { SepSeq<A, C>, B, SepSeq<A, C> }", OptSepList<T236, D>));
  v.push(entry!("Vec<T243> of struct (SepSeq<A, C>, Option<A>, A)", Vec<T243>));
  v.push(entry!("Option<T243> of struct (SepSeq<A, C>, Option<A>, A)", Option<T243>));
  v.push(entry!("SepSeq<T243, D> of struct (SepSeq<A, C>, Option<A>, A)", SepSeq<T243, D>));
  v.push(entry!("OptSepList<T243, D> of struct (SepSeq<A, C>, Option<A>, A)", OptSepList<T243, D>));
  v.push(entry!("Vec<T256> of struct { SepSeq<A, C>, SepSeq<A, C>, B }", Vec<T256>));
  v.push(entry!("Option<T256> of struct { SepSeq<A, C>, SepSeq<A, C>, B }", Option<T256>));
  v.push(entry!("SepSeq<T256, D> of struct { SepSeq<A, C>, SepSeq<A, C>, B }", SepSeq<T256, D>));
}
fn push14(v: &mut Vec<Entry>) {
  v.push(entry!("OptSepList<T256, D> of struct { SepSeq<A, C>, SepSeq<A, C>, B }", OptSepList<T256, D>));
  v.push(entry!("Vec<T266> of struct { Option<A>, Box<B> }", Vec<T266>));
  v.push(entry!("Option<T266> of struct { Option<A>, Box<B> }", Option<T266>));
  v.push(entry!("SepSeq<T266, D> of struct { Option<A>, Box<B> }", SepSeq<T266, D>));
  v.push(entry!("OptSepList<T266, D> of struct { Option<A>, Box<B> }", OptSepList<T266, D>));
  v.push(entry!("Vec<T275> of struct (Option<A>, OptPrefix<B, C>)", Vec<T275>));
  v.push(entry!("Option<T275> of struct (Option<A>, OptPrefix<B, C>)", Option<T275>));
  v.push(entry!("SepSeq<T275, D> of struct (Option<A>, OptPrefix<B, C>)", SepSeq<T275, D>));
  v.push(entry!("OptSepList<T275, D> of struct (Option<A>, OptPrefix<B, C>)", OptSepList<T275, D>));
  v.push(entry!("Vec<T282> of struct { C, Option<B>, Option<B>, Option<A> }", Vec<T282>));
  v.push(entry!("Option<T282> of struct { C, Option<B>, Option<B>, Option<A> }", Option<T282>));
  v.push(entry!("SepSeq<T282, D> of struct { C, Option<B>, Option<B>, Option<A> }", SepSeq<T282, D>));
  v.push(entry!("OptSepList<T282, D> of struct { C, Option<B>, Option<B>, Option<A> }", OptSepList<T282, D>));
  v.push(entry!("Vec<T289> of struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", Vec<T289>));
  v.push(entry!("Option<T289> of struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", Option<T289>));
  v.push(entry!("SepSeq<T289, D> of struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", SepSeq<T289, D>));
  v.push(entry!("OptSepList<T289, D> of struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", OptSepList<T289, D>));
  v.push(entry!("Vec<T296> of struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", Vec<T296>));
  v.push(entry!("Option<T296> of struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", Option<T296>));
  v.push(entry!("SepSeq<T296, D> of struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", SepSeq<T296, D>));
  v.push(entry!("OptSepList<T296, D> of struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", OptSepList<T296, D>));
  v.push(entry!("Vec<T303> of struct { A, B, A, B, B, C, B, C, C, D, C, D }", Vec<T303>));
  v.push(entry!("Option<T303> of struct { A, B, A, B, B, C, B, C, C, D, C, D }", Option<T303>));
  v.push(entry!("SepSeq<T303, D> of struct { A, B, A, B, B, C, B, C, C, D, C, D }", SepSeq<T303, D>));
  v.push(entry!("OptSepList<T303, D> of struct { A, B, A, B, B, C, B, C, C, D, C, D }", OptSepList<T303, D>));
  v.push(entry!("Vec<T310> of struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", Vec<T310>));
  v.push(entry!("Option<T310> of struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", Option<T310>));
  v.push(entry!("SepSeq<T310, D> of struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", SepSeq<T310, D>));
  v.push(entry!("OptSepList<T310, D> of struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", OptSepList<T310, D>));
  v.push(entry!("Vec<T317> of struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", Vec<T317>));
  v.push(entry!("Option<T317> of struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", Option<T317>));
  v.push(entry!("SepSeq<T317, D> of struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", SepSeq<T317, D>));
  v.push(entry!("OptSepList<T317, D> of struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", OptSepList<T317, D>));
  v.push(entry!("Vec<T335> of enum (A) | { B, A }", Vec<T335>));
  v.push(entry!("Option<T335> of enum (A) | { B, A }", Option<T335>));
  v.push(entry!("SepSeq<T335, D> of enum (A) | { B, A }", SepSeq<T335, D>));
  v.push(entry!("OptSepList<T335, D> of enum (A) | { B, A }", OptSepList<T335, D>));
  v.push(entry!("Vec<T348> of enum (Option<A>, C) | (A)", Vec<T348>));
  v.push(entry!("Option<T348> of enum (Option<A>, C) | (A)", Option<T348>));
  v.push(entry!("SepSeq<T348, D> of enum (Option<A>, C) | (A)", SepSeq<T348, D>));
}
fn push15(v: &mut Vec<Entry>) {
  v.push(entry!("OptSepList<T348, D> of enum (Option<A>, C) | (A)", OptSepList<T348, D>));
  v.push(entry!("Vec<T366> of enum { AB, C } | { AB, C }", Vec<T366>));
  v.push(entry!("Option<T366> of enum { AB, C } | { AB, C }", Option<T366>));
  v.push(entry!("SepSeq<T366, D> of enum { AB, C } | { AB, C }", SepSeq<T366, D>));
  v.push(entry!("OptSepList<T366, D> of enum { AB, C } | { AB, C }", OptSepList<T366, D>));
  v.push(entry!("Vec<T441> of enum (A) | { B, A } | (Option<A>, C)", Vec<T441>));
  v.push(entry!("Option<T441> of enum (A) | { B, A } | (Option<A>, C)", Option<T441>));
  v.push(entry!("SepSeq<T441, D> of enum (A) | { B, A } | (Option<A>, C)", SepSeq<T441, D>));
  v.push(entry!("OptSepList<T441, D> of enum (A) | { B, A } | (Option<A>, C)", OptSepList<T441, D>));
  v.push(entry!("Vec<T461> of enum (A) | { AB, C } | { B, A }", Vec<T461>));
  v.push(entry!("Option<T461> of enum (A) | { AB, C } | { B, A }", Option<T461>));
  v.push(entry!("SepSeq<T461, D> of enum (A) | { AB, C } | { B, A }", SepSeq<T461, D>));
  v.push(entry!("OptSepList<T461, D> of enum (A) | { AB, C } | { B, A }", OptSepList<T461, D>));
  v.push(entry!("Vec<T488> of enum { B, A } | { B, A } | (A)", Vec<T488>));
  v.push(entry!("Option<T488> of enum { B, A } | { B, A } | (A)", Option<T488>));
  v.push(entry!("SepSeq<T488, D> of enum { B, A } | { B, A } | (A)", SepSeq<T488, D>));
  v.push(entry!("OptSepList<T488, D> of enum { B, A } | { B, A } | (A)", OptSepList<T488, D>));
  v.push(entry!("Vec<T499> of enum { B, A } | (Option<A>, C) | { AB, C }", Vec<T499>));
  v.push(entry!("Option<T499> of enum { B, A } | (Option<A>, C) | { AB, C }", Option<T499>));
  v.push(entry!("SepSeq<T499, D> of enum { B, A } | (Option<A>, C) | { AB, C }", SepSeq<T499, D>));
  v.push(entry!("OptSepList<T499, D> of enum { B, A } | (Option<A>, C) | { AB, C }", OptSepList<T499, D>));
  v.push(entry!("Vec<T532> of enum (Option<A>, C) | (A) | (Option<A>, C)", Vec<T532>));
  v.push(entry!("Option<T532> of enum (Option<A>, C) | (A) | (Option<A>, C)", Option<T532>));
  v.push(entry!("SepSeq<T532, D> of enum (Option<A>, C) | (A) | (Option<A>, C)", SepSeq<T532, D>));
  v.push(entry!("OptSepList<T532, D> of enum (Option<A>, C) | (A) | (Option<A>, C)", OptSepList<T532, D>));
  v.push(entry!("Vec<T545> of enum (Option<A>, C) | (Option<A>, C) | { B, A }", Vec<T545>));
  v.push(entry!("Option<T545> of enum (Option<A>, C) | (Option<A>, C) | { B, A }", Option<T545>));
  v.push(entry!("SepSeq<T545, D> of enum (Option<A>, C) | (Option<A>, C) | { B, A }", SepSeq<T545, D>));
  v.push(entry!("OptSepList<T545, D> of enum (Option<A>, C) | (Option<A>, C) | { B, A }", OptSepList<T545, D>));
  v.push(entry!("Vec<T628> of enum { AB, C } | (A) | (A)", Vec<T628>));
  v.push(entry!("Option<T628> of enum { AB, C } | (A) | (A)", Option<T628>));
  v.push(entry!("SepSeq<T628, D> of enum { AB, C } | (A) | (A)", SepSeq<T628, D>));
  v.push(entry!("OptSepList<T628, D> of enum { AB, C } | (A) | (A)", OptSepList<T628, D>));
  v.push(entry!("Vec<T639> of enum { AB, C } | { B, A } | { AB, C }", Vec<T639>));
  v.push(entry!("Option<T639> of enum { AB, C } | { B, A } | { AB, C }", Option<T639>));
  v.push(entry!("SepSeq<T639, D> of enum { AB, C } | { B, A } | { AB, C }", SepSeq<T639, D>));
  v.push(entry!("OptSepList<T639, D> of enum { AB, C } | { B, A } | { AB, C }", OptSepList<T639, D>));
  v.push(entry!("Vec<T658> of enum { AB, C } | { AB, C } | (Option<A>, C)", Vec<T658>));
  v.push(entry!("Option<T658> of enum { AB, C } | { AB, C } | (Option<A>, C)", Option<T658>));
  v.push(entry!("SepSeq<T658, D> of enum { AB, C } | { AB, C } | (Option<A>, C)", SepSeq<T658, D>));
}
fn push16(v: &mut Vec<Entry>) {
  v.push(entry!("OptSepList<T658, D> of enum { AB, C } | { AB, C } | (Option<A>, C)", OptSepList<T658, D>));
  v.push(entry!("Vec<T723> of enum { A, B } | (D, AB) | { C } | (B, Option<A>)", Vec<T723>));
  v.push(entry!("Option<T723> of enum { A, B } | (D, AB) | { C } | (B, Option<A>)", Option<T723>));
  v.push(entry!("SepSeq<T723, D> of enum { A, B } | (D, AB) | { C } | (B, Option<A>)", SepSeq<T723, D>));
  v.push(entry!("OptSepList<T723, D> of enum { A, B } | (D, AB) | { C } | (B, Option<A>)", OptSepList<T723, D>));
  v.push(entry!("Vec<T730> of enum { C } | { A, B } | (B, Option<A>) | (D, AB)", Vec<T730>));
  v.push(entry!("Option<T730> of enum { C } | { A, B } | (B, Option<A>) | (D, AB)", Option<T730>));
  v.push(entry!("SepSeq<T730, D> of enum { C } | { A, B } | (B, Option<A>) | (D, AB)", SepSeq<T730, D>));
  v.push(entry!("OptSepList<T730, D> of enum { C } | { A, B } | (B, Option<A>) | (D, AB)", OptSepList<T730, D>));
  v.push(entry!("Vec<T737> of enum (D, AB) | { A, B } | { C } | (B, Option<A>)", Vec<T737>));
  v.push(entry!("Option<T737> of enum (D, AB) | { A, B } | { C } | (B, Option<A>)", Option<T737>));
  v.push(entry!("SepSeq<T737, D> of enum (D, AB) | { A, B } | { C } | (B, Option<A>)", SepSeq<T737, D>));
  v.push(entry!("OptSepList<T737, D> of enum (D, AB) | { A, B } | { C } | (B, Option<A>)", OptSepList<T737, D>));
  v.push(entry!("Vec<T744> of enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", Vec<T744>));
  v.push(entry!("Option<T744> of enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", Option<T744>));
  v.push(entry!("SepSeq<T744, D> of enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", SepSeq<T744, D>));
  v.push(entry!("OptSepList<T744, D> of enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", OptSepList<T744, D>));
  v.push(entry!("Vec<T752> of enum (Box<B>) | (Box<B>)", Vec<T752>));
  v.push(entry!("Option<T752> of enum (Box<B>) | (Box<B>)", Option<T752>));
  v.push(entry!("SepSeq<T752, D> of enum (Box<B>) | (Box<B>)", SepSeq<T752, D>));
  v.push(entry!("OptSepList<T752, D> of enum (Box<B>) | (Box<B>)", OptSepList<T752, D>));
  v.push(entry!("Vec<T767> of enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", Vec<T767>));
  v.push(entry!("Option<T767> of enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", Option<T767>));
  v.push(entry!("SepSeq<T767, D> of enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", SepSeq<T767, D>));
  v.push(entry!("OptSepList<T767, D> of enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", OptSepList<T767, D>));
  v.push(entry!("Vec<T775> of enum (NonEmptySeq<A>) | (C)", Vec<T775>));
  v.push(entry!("Option<T775> of enum (NonEmptySeq<A>) | (C)", Option<T775>));
  v.push(entry!("SepSeq<T775, D> of enum (NonEmptySeq<A>) | (C)", SepSeq<T775, D>));
  v.push(entry!("OptSepList<T775, D> of enum (NonEmptySeq<A>) | (C)", OptSepList<T775, D>));
  v.push(entry!("T815: struct { T3, T320 }", T815));
  v.push(entry!("T816: struct (Option<T3>, T320)", T816));
  v.push(entry!("T817: enum (T320, B) | { Vec<T3>, Box<T320> }", T817));
  v.push(entry!("T818: struct { T3, T335 }", T818));
  v.push(entry!("T819: struct (Option<T3>, T335)", T819));
  v.push(entry!("T820: enum (T335, B) | { Vec<T3>, Box<T335> }", T820));
  v.push(entry!("T821: struct { T3, T343 }", T821));
  v.push(entry!("T822: struct (Option<T3>, T343)", T822));
  v.push(entry!("T823: enum (T343, B) | { Vec<T3>, Box<T343> }", T823));
  v.push(entry!("T824: struct { T3, T352 }", T824));
  v.push(entry!("T825: struct (Option<T3>, T352)", T825));
}
fn push17(v: &mut Vec<Entry>) {
  v.push(entry!("T826: enum (T352, B) | { Vec<T3>, Box<T352> }", T826));
  v.push(entry!("T827: struct { T3, T432 }", T827));
  v.push(entry!("T828: struct (Option<T3>, T432)", T828));
  v.push(entry!("T829: enum (T432, B) | { Vec<T3>, Box<T432> }", T829));
  v.push(entry!("T830: struct { T3, T440 }", T830));
  v.push(entry!("T831: struct (Option<T3>, T440)", T831));
  v.push(entry!("T832: enum (T440, B) | { Vec<T3>, Box<T440> }", T832));
  v.push(entry!("T833: struct { T3, T448 }", T833));
  v.push(entry!("T834: struct (Option<T3>, T448)", T834));
  v.push(entry!("T835: enum (T448, B) | { Vec<T3>, Box<T448> }", T835));
  v.push(entry!("T836: struct { T3, T464 }", T836));
  v.push(entry!("T837: struct (Option<T3>, T464)", T837));
  v.push(entry!("T838: enum (T464, B) | { Vec<T3>, Box<T464> }", T838));
  v.push(entry!("T839: struct { T57, T320 }", T839));
  v.push(entry!("T840: struct (Option<T57>, T320)", T840));
  v.push(entry!("T841: enum (T320, B) | { Vec<T57>, Box<T320> }", T841));
  v.push(entry!("T842: struct { T57, T335 }", T842));
  v.push(entry!("T843: struct (Option<T57>, T335)", T843));
  v.push(entry!("T844: enum (T335, B) | { Vec<T57>, Box<T335> }", T844));
  v.push(entry!("T845: struct { T57, T343 }", T845));
  v.push(entry!("T846: struct (Option<T57>, T343)", T846));
  v.push(entry!("T847: enum (T343, B) | { Vec<T57>, Box<T343> }", T847));
  v.push(entry!("T848: struct { T57, T352 }", T848));
  v.push(entry!("T849: struct (Option<T57>, T352)", T849));
  v.push(entry!("T850: enum (T352, B) | { Vec<T57>, Box<T352> }", T850));
  v.push(entry!("T851: struct { T57, T432 }", T851));
  v.push(entry!("T852: struct (Option<T57>, T432)", T852));
  v.push(entry!("T853: enum (T432, B) | { Vec<T57>, Box<T432> }", T853));
  v.push(entry!("T854: struct { T57, T440 }", T854));
  v.push(entry!("T855: struct (Option<T57>, T440)", T855));
  v.push(entry!("T856: enum (T440, B) | { Vec<T57>, Box<T440> }", T856));
  v.push(entry!("T857: struct { T57, T448 }", T857));
  v.push(entry!("T858: struct (Option<T57>, T448)", T858));
  v.push(entry!("T859: enum (T448, B) | { Vec<T57>, Box<T448> }", T859));
  v.push(entry!("T860: struct { T57, T464 }", T860));
  v.push(entry!("T861: struct (Option<T57>, T464)", T861));
  v.push(entry!("T862: enum (T464, B) | { Vec<T57>, Box<T464> }", T862));
  v.push(entry!("T863: struct { T99, T320 }", T863));
  v.push(entry!("T864: struct (Option<T99>, T320)", T864));
  v.push(entry!("T865: enum (T320, B) | { Vec<T99>, Box<T320> }", T865));
}
fn push18(v: &mut Vec<Entry>) {
  v.push(entry!("T866: struct { T99, T335 }", T866));
  v.push(entry!("T867: struct (Option<T99>, T335)", T867));
  v.push(entry!("T868: enum (T335, B) | { Vec<T99>, Box<T335> }", T868));
  v.push(entry!("T869: struct { T99, T343 }", T869));
  v.push(entry!("T870: struct (Option<T99>, T343)", T870));
  v.push(entry!("T871: enum (T343, B) | { Vec<T99>, Box<T343> }", T871));
  v.push(entry!("T872: struct { T99, T352 }", T872));
  v.push(entry!("T873: struct (Option<T99>, T352)", T873));
  v.push(entry!("T874: enum (T352, B) | { Vec<T99>, Box<T352> }", T874));
  v.push(entry!("T875: struct { T99, T432 }", T875));
  v.push(entry!("T876: struct (Option<T99>, T432)", T876));
  v.push(entry!("T877: enum (T432, B) | { Vec<T99>, Box<T432> }", T877));
  v.push(entry!("T878: struct { T99, T440 }", T878));
  v.push(entry!("T879: struct (Option<T99>, T440)", T879));
  v.push(entry!("T880: enum (T440, B) | { Vec<T99>, Box<T440> }", T880));
  v.push(entry!("T881: struct { T99, T448 }", T881));
  v.push(entry!("T882: struct (Option<T99>, T448)", T882));
  v.push(entry!("T883: enum (T448, B) | { Vec<T99>, Box<T448> }", T883));
  v.push(entry!("T884: struct { T99, T464 }", T884));
  v.push(entry!("T885: struct (Option<T99>, T464)", T885));
  v.push(entry!("T886: enum (T464, B) | { Vec<T99>, Box<T464> }", T886));
  v.push(entry!("T887: struct { T141, T320 }", T887));
  v.push(entry!("T888: struct (Option<T141>, T320)", T888));
  v.push(entry!("T889: enum (T320, B) | { Vec<T141>, Box<T320> }", T889));
  v.push(entry!("T890: struct { T141, T335 }", T890));
  v.push(entry!("T891: struct (Option<T141>, T335)", T891));
  v.push(entry!("T892: enum (T335, B) | { Vec<T141>, Box<T335> }", T892));
  v.push(entry!("T893: struct { T141, T343 }", T893));
  v.push(entry!("T894: struct (Option<T141>, T343)", T894));
  v.push(entry!("T895: enum (T343, B) | { Vec<T141>, Box<T343> }", T895));
  v.push(entry!("T896: struct { T141, T352 }", T896));
  v.push(entry!("T897: struct (Option<T141>, T352)", T897));
  v.push(entry!("T898: enum (T352, B) | { Vec<T141>, Box<T352> }", T898));
  v.push(entry!("T899: struct { T141, T432 }", T899));
  v.push(entry!("T900: struct (Option<T141>, T432)", T900));
  v.push(entry!("T901: enum (T432, B) | { Vec<T141>, Box<T432> }", T901));
  v.push(entry!("T902: struct { T141, T440 }", T902));
  v.push(entry!("T903: struct (Option<T141>, T440)", T903));
  v.push(entry!("T904: enum (T440, B) | { Vec<T141>, Box<T440> }", T904));
  v.push(entry!("T905: struct { T141, T448 }", T905));
}
fn push19(v: &mut Vec<Entry>) {
  v.push(entry!("T906: struct (Option<T141>, T448)", T906));
  v.push(entry!("T907: enum (T448, B) | { Vec<T141>, Box<T448> }", T907));
  v.push(entry!("T908: struct { T141, T464 }", T908));
  v.push(entry!("T909: struct (Option<T141>, T464)", T909));
  v.push(entry!("T910: enum (T464, B) | { Vec<T141>, Box<T464> }", T910));
  v.push(entry!("T911: struct { T192, T320 }", T911));
  v.push(entry!("T912: struct (Option<T192>, T320)", T912));
  v.push(entry!("T913: enum (T320, B) | { Vec<T192>, Box<T320> }", T913));
  v.push(entry!("T914: struct { T192, T335 }", T914));
  v.push(entry!("T915: struct (Option<T192>, T335)", T915));
  v.push(entry!("T916: enum (T335, B) | { Vec<T192>, Box<T335> }", T916));
  v.push(entry!("T917: struct { T192, T343 }", T917));
  v.push(entry!("T918: struct (Option<T192>, T343)", T918));
  v.push(entry!("T919: enum (T343, B) | { Vec<T192>, Box<T343> }", T919));
  v.push(entry!("T920: struct { T192, T352 }", T920));
  v.push(entry!("T921: struct (Option<T192>, T352)", T921));
  v.push(entry!("T922: enum (T352, B) | { Vec<T192>, Box<T352> }", T922));
  v.push(entry!("T923: struct { T192, T432 }", T923));
  v.push(entry!("T924: struct (Option<T192>, T432)", T924));
  v.push(entry!("T925: enum (T432, B) | { Vec<T192>, Box<T432> }", T925));
  v.push(entry!("T926: struct { T192, T440 }", T926));
  v.push(entry!("T927: struct (Option<T192>, T440)", T927));
  v.push(entry!("T928: enum (T440, B) | { Vec<T192>, Box<T440> }", T928));
  v.push(entry!("T929: struct { T192, T448 }", T929));
  v.push(entry!("T930: struct (Option<T192>, T448)", T930));
  v.push(entry!("T931: enum (T448, B) | { Vec<T192>, Box<T448> }", T931));
  v.push(entry!("T932: struct { T192, T464 }", T932));
  v.push(entry!("T933: struct (Option<T192>, T464)", T933));
  v.push(entry!("T934: enum (T464, B) | { Vec<T192>, Box<T464> }", T934));
  v.push(entry!("T935: struct { T243, T320 }", T935));
  v.push(entry!("T936: struct (Option<T243>, T320)", T936));
  v.push(entry!("T937: enum (T320, B) | { Vec<T243>, Box<T320> }", T937));
  v.push(entry!("T938: struct { T243, T335 }", T938));
  v.push(entry!("T939: struct (Option<T243>, T335)", T939));
  v.push(entry!("T940: enum (T335, B) | { Vec<T243>, Box<T335> }", T940));
  v.push(entry!("T941: struct { T243, T343 }", T941));
  v.push(entry!("T942: struct (Option<T243>, T343)", T942));
  v.push(entry!("T943: enum (T343, B) | { Vec<T243>, Box<T343> }", T943));
  v.push(entry!("T944: struct { T243, T352 }", T944));
  v.push(entry!("T945: struct (Option<T243>, T352)", T945));
}
fn push20(v: &mut Vec<Entry>) {
  v.push(entry!("T946: enum (T352, B) | { Vec<T243>, Box<T352> }", T946));
  v.push(entry!("T947: struct { T243, T432 }", T947));
  v.push(entry!("T948: struct (Option<T243>, T432)", T948));
  v.push(entry!("T949: enum (T432, B) | { Vec<T243>, Box<T432> }", T949));
  v.push(entry!("T950: struct { T243, T440 }", T950));
  v.push(entry!("T951: struct (Option<T243>, T440)", T951));
  v.push(entry!("T952: enum (T440, B) | { Vec<T243>, Box<T440> }", T952));
  v.push(entry!("T953: struct { T243, T448 }", T953));
  v.push(entry!("T954: struct (Option<T243>, T448)", T954));
  v.push(entry!("T955: enum (T448, B) | { Vec<T243>, Box<T448> }", T955));
  v.push(entry!("T956: struct { T243, T464 }", T956));
  v.push(entry!("T957: struct (Option<T243>, T464)", T957));
  v.push(entry!("T958: enum (T464, B) | { Vec<T243>, Box<T464> }", T958));
  v.push(entry!("T959: struct { T296, T320 }", T959));
  v.push(entry!("T960: struct (Option<T296>, T320)", T960));
  v.push(entry!("T961: enum (T320, B) | { Vec<T296>, Box<T320> }", T961));
  v.push(entry!("T962: struct { T296, T335 }", T962));
  v.push(entry!("T963: struct (Option<T296>, T335)", T963));
  v.push(entry!("T964: enum (T335, B) | { Vec<T296>, Box<T335> }", T964));
  v.push(entry!("T965: struct { T296, T343 }", T965));
  v.push(entry!("T966: struct (Option<T296>, T343)", T966));
  v.push(entry!("T967: enum (T343, B) | { Vec<T296>, Box<T343> }", T967));
  v.push(entry!("T968: struct { T296, T352 }", T968));
  v.push(entry!("T969: struct (Option<T296>, T352)", T969));
  v.push(entry!("T970: enum (T352, B) | { Vec<T296>, Box<T352> }", T970));
  v.push(entry!("T971: struct { T296, T432 }", T971));
  v.push(entry!("T972: struct (Option<T296>, T432)", T972));
  v.push(entry!("T973: enum (T432, B) | { Vec<T296>, Box<T432> }", T973));
  v.push(entry!("T974: struct { T296, T440 }", T974));
  v.push(entry!("T975: struct (Option<T296>, T440)", T975));
  v.push(entry!("T976: enum (T440, B) | { Vec<T296>, Box<T440> }", T976));
  v.push(entry!("T977: struct { T296, T448 }", T977));
  v.push(entry!("T978: struct (Option<T296>, T448)", T978));
  v.push(entry!("T979: enum (T448, B) | { Vec<T296>, Box<T448> }", T979));
  v.push(entry!("T980: struct { T296, T464 }", T980));
  v.push(entry!("T981: struct (Option<T296>, T464)", T981));
  v.push(entry!("T982: enum (T464, B) | { Vec<T296>, Box<T464> }", T982));
  v.push(entry!("T983: struct { T366, T320 }", T983));
  v.push(entry!("T984: struct (Option<T366>, T320)", T984));
  v.push(entry!("T985: enum (T320, B) | { Vec<T366>, Box<T320> }", T985));
}
fn push21(v: &mut Vec<Entry>) {
  v.push(entry!("T986: struct { T366, T335 }", T986));
  v.push(entry!("T987: struct (Option<T366>, T335)", T987));
  v.push(entry!("T988: enum (T335, B) | { Vec<T366>, Box<T335> }", T988));
  v.push(entry!("T989: struct { T366, T343 }", T989));
  v.push(entry!("T990: struct (Option<T366>, T343)", T990));
  v.push(entry!("T991: enum (T343, B) | { Vec<T366>, Box<T343> }", T991));
  v.push(entry!("T992: struct { T366, T352 }", T992));
  v.push(entry!("T993: struct (Option<T366>, T352)", T993));
  v.push(entry!("T994: enum (T352, B) | { Vec<T366>, Box<T352> }", T994));
  v.push(entry!("T995: struct { T366, T432 }", T995));
  v.push(entry!("T996: struct (Option<T366>, T432)", T996));
  v.push(entry!("T997: enum (T432, B) | { Vec<T366>, Box<T432> }", T997));
  v.push(entry!("T998: struct { T366, T440 }", T998));
  v.push(entry!("T999: struct (Option<T366>, T440)", T999));
  v.push(entry!("T1000: enum (T440, B) | { Vec<T366>, Box<T440> }", T1000));
  v.push(entry!("T1001: struct { T366, T448 }", T1001));
  v.push(entry!("T1002: struct (Option<T366>, T448)", T1002));
  v.push(entry!("T1003: enum (T448, B) | { Vec<T366>, Box<T448> }", T1003));
  v.push(entry!("T1004: struct { T366, T464 }", T1004));
  v.push(entry!("T1005: struct (Option<T366>, T464)", T1005));
  v.push(entry!("T1006: enum (T464, B) | { Vec<T366>, Box<T464> }", T1006));
  v.push(entry!("T1007: struct { T545, T320 }", T1007));
  v.push(entry!("T1008: struct (Option<T545>, T320)", T1008));
  v.push(entry!("T1009: enum (T320, B) | { Vec<T545>, Box<T320> }", T1009));
  v.push(entry!("T1010: struct { T545, T335 }", T1010));
  v.push(entry!("T1011: struct (Option<T545>, T335)", T1011));
  v.push(entry!("T1012: enum (T335, B) | { Vec<T545>, Box<T335> }", T1012));
  v.push(entry!("T1013: struct { T545, T343 }", T1013));
  v.push(entry!("T1014: struct (Option<T545>, T343)", T1014));
  v.push(entry!("T1015: enum (T343, B) | { Vec<T545>, Box<T343> }", T1015));
  v.push(entry!("T1016: struct { T545, T352 }", T1016));
  v.push(entry!("T1017: struct (Option<T545>, T352)", T1017));
  v.push(entry!("T1018: enum (T352, B) | { Vec<T545>, Box<T352> }", T1018));
  v.push(entry!("T1019: struct { T545, T432 }", T1019));
  v.push(entry!("T1020: struct (Option<T545>, T432)", T1020));
  v.push(entry!("T1021: enum (T432, B) | { Vec<T545>, Box<T432> }", T1021));
  v.push(entry!("T1022: struct { T545, T440 }", T1022));
  v.push(entry!("T1023: struct (Option<T545>, T440)", T1023));
  v.push(entry!("T1024: enum (T440, B) | { Vec<T545>, Box<T440> }", T1024));
  v.push(entry!("T1025: struct { T545, T448 }", T1025));
}
fn push22(v: &mut Vec<Entry>) {
  v.push(entry!("T1026: struct (Option<T545>, T448)", T1026));
  v.push(entry!("T1027: enum (T448, B) | { Vec<T545>, Box<T448> }", T1027));
  v.push(entry!("T1028: struct { T545, T464 }", T1028));
  v.push(entry!("T1029: struct (Option<T545>, T464)", T1029));
  v.push(entry!("T1030: enum (T464, B) | { Vec<T545>, Box<T464> }", T1030));
  v.push(entry!("T1031: struct { T737, T320 }", T1031));
  v.push(entry!("T1032: struct (Option<T737>, T320)", T1032));
  v.push(entry!("T1033: enum (T320, B) | { Vec<T737>, Box<T320> }", T1033));
  v.push(entry!("T1034: struct { T737, T335 }", T1034));
  v.push(entry!("T1035: struct (Option<T737>, T335)", T1035));
  v.push(entry!("T1036: enum (T335, B) | { Vec<T737>, Box<T335> }", T1036));
  v.push(entry!("T1037: struct { T737, T343 }", T1037));
  v.push(entry!("T1038: struct (Option<T737>, T343)", T1038));
  v.push(entry!("T1039: enum (T343, B) | { Vec<T737>, Box<T343> }", T1039));
  v.push(entry!("T1040: struct { T737, T352 }", T1040));
  v.push(entry!("T1041: struct (Option<T737>, T352)", T1041));
  v.push(entry!("T1042: enum (T352, B) | { Vec<T737>, Box<T352> }", T1042));
  v.push(entry!("T1043: struct { T737, T432 }", T1043));
  v.push(entry!("T1044: struct (Option<T737>, T432)", T1044));
  v.push(entry!("T1045: enum (T432, B) | { Vec<T737>, Box<T432> }", T1045));
  v.push(entry!("T1046: struct { T737, T440 }", T1046));
  v.push(entry!("T1047: struct (Option<T737>, T440)", T1047));
  v.push(entry!("T1048: enum (T440, B) | { Vec<T737>, Box<T440> }", T1048));
  v.push(entry!("T1049: struct { T737, T448 }", T1049));
  v.push(entry!("T1050: struct (Option<T737>, T448)", T1050));
  v.push(entry!("T1051: enum (T448, B) | { Vec<T737>, Box<T448> }", T1051));
  v.push(entry!("T1052: struct { T737, T464 }", T1052));
  v.push(entry!("T1053: struct (Option<T737>, T464)", T1053));
  v.push(entry!("T1054: enum (T464, B) | { Vec<T737>, Box<T464> }", T1054));
  v.push(entry!("recursive Sexp", Sexp));
  v.push(entry!("recursive Chain", Chain));
  v.push(entry!("recursive Bin", Bin));
  v.push(entry!("recursive Opd", Opd));
  v.push(entry!("recursive Tail", Tail));
  v.push(entry!("recursive Tree3", Tree3));
  v.push(entry!("generic G1<NA>", G1<NA>));
  v.push(entry!("generic G2<NA, NB>", G2<NA, NB>));
  v.push(entry!("generic G3<NB, NA>", G3<NB, NA>));
  v.push(entry!("generic G4<NB, 2>", G4<NB, 2>));
  v.push(entry!("generic G5<3, NB>", G5<3, NB>));
}
fn push23(v: &mut Vec<Entry>) {
  v.push(entry!("generic G6<'static>", G6<'static>));
  v.push(entry!("generic G7<'static, NA>", G7<'static, NA>));
}
pub fn push(v: &mut Vec<Entry>) {
  push0(v);
  push1(v);
  push2(v);
  push3(v);
  push4(v);
  push5(v);
  push6(v);
  push7(v);
  push8(v);
  push9(v);
  push10(v);
  push11(v);
  push12(v);
  push13(v);
  push14(v);
  push15(v);
  push16(v);
  push17(v);
  push18(v);
  push19(v);
  push20(v);
  push21(v);
  push22(v);
  push23(v);
}
