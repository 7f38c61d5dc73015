// generated by gen.py
#![allow(dead_code, non_camel_case_types, unused, unused_imports)]
#![cfg_attr(rustfmt, rustfmt_skip)]
use crate::model::*;
use laps::ast::*;
use laps::parse::Parse;
use laps::span::Spanned;
use laps::token::TokenStream;
use laps::prelude::*;
use crate::support::*;

#[derive(Parse)]
#[token(Tok)]
pub struct T0  {  }
impl Gram for T0 { fn g() -> G { G::Seq(vec![]) } }
impl ToTree for T0 { fn tree(&self) -> Tree { let Self {  } = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1 () ;
impl Gram for T1 { fn g() -> G { G::Seq(vec![]) } }
impl ToTree for T1 { fn tree(&self) -> Tree { let Self() = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T2  ;
impl Gram for T2 { fn g() -> G { G::Seq(vec![]) } }
impl ToTree for T2 { fn tree(&self) -> Tree { let Self = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T3 (A) ;
impl Gram for T3 { fn g() -> G { G::Seq(vec![<A as Gram>::g()]) } }
impl ToTree for T3 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T4  { a: B }
impl Gram for T4 { fn g() -> G { G::Seq(vec![<B as Gram>::g()]) } }
impl ToTree for T4 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T5 (AB) ;
impl Gram for T5 { fn g() -> G { G::Seq(vec![<AB as Gram>::g()]) } }
impl ToTree for T5 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T6  { a: Option<A> }
impl Gram for T6 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g()]) } }
impl ToTree for T6 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T7 (Vec<B>) ;
impl Gram for T7 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g()]) } }
impl ToTree for T7 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T8  { a: SepSeq<A, C> }
impl Gram for T8 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T8 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T9 (A, A) ;
impl Gram for T9 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T9 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T10  { a: A, b: B }
impl Gram for T10 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T10 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T11 (A, AB) ;
impl Gram for T11 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T11 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T12  { a: A, b: Option<A> }
impl Gram for T12 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T12 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T13 (A, Vec<B>) ;
impl Gram for T13 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T13 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T14  { a: A, b: SepSeq<A, C> }
impl Gram for T14 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T14 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T15 (B, A) ;
impl Gram for T15 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T15 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T16  { a: B, b: B }
impl Gram for T16 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T16 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T17 (B, AB) ;
impl Gram for T17 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T17 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T18  { a: B, b: Option<A> }
impl Gram for T18 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T18 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T19 (B, Vec<B>) ;
impl Gram for T19 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T19 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T20  { a: B, b: SepSeq<A, C> }
impl Gram for T20 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T20 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T21 (AB, A) ;
impl Gram for T21 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T21 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T22  { a: AB, b: B }
impl Gram for T22 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T22 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T23 (AB, AB) ;
impl Gram for T23 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T23 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T24  { a: AB, b: Option<A> }
impl Gram for T24 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T24 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T25 (AB, Vec<B>) ;
impl Gram for T25 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T25 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T26  { a: AB, b: SepSeq<A, C> }
impl Gram for T26 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T26 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T27 (Option<A>, A) ;
impl Gram for T27 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T27 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T28  { a: Option<A>, b: B }
impl Gram for T28 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T28 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T29 (Option<A>, AB) ;
impl Gram for T29 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T29 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T30  { a: Option<A>, b: Option<A> }
impl Gram for T30 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T30 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T31 (Option<A>, Vec<B>) ;
impl Gram for T31 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T31 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T32  { a: Option<A>, b: SepSeq<A, C> }
impl Gram for T32 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T32 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T33 (Vec<B>, A) ;
impl Gram for T33 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T33 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T34  { a: Vec<B>, b: B }
impl Gram for T34 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T34 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T35 (Vec<B>, AB) ;
impl Gram for T35 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T35 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T36  { a: Vec<B>, b: Option<A> }
impl Gram for T36 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T36 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T37 (Vec<B>, Vec<B>) ;
impl Gram for T37 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T37 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T38  { a: Vec<B>, b: SepSeq<A, C> }
impl Gram for T38 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T38 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T39 (SepSeq<A, C>, A) ;
impl Gram for T39 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T39 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T40  { a: SepSeq<A, C>, b: B }
impl Gram for T40 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T40 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T41 (SepSeq<A, C>, AB) ;
impl Gram for T41 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T41 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T42  { a: SepSeq<A, C>, b: Option<A> }
impl Gram for T42 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T42 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T43 (SepSeq<A, C>, Vec<B>) ;
impl Gram for T43 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T43 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T44  { a: SepSeq<A, C>, b: SepSeq<A, C> }
impl Gram for T44 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T44 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T45 (A, A, A) ;
impl Gram for T45 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T45 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T46  { a: A, b: A, first: B }
impl Gram for T46 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T46 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T47 (A, A, AB) ;
impl Gram for T47 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T47 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T48  { a: A, b: A, first: Option<A> }
impl Gram for T48 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T48 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T49 (A, A, Vec<B>) ;
impl Gram for T49 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T49 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T50  { a: A, b: A, first: SepSeq<A, C> }
impl Gram for T50 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T50 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T51 (A, B, A) ;
impl Gram for T51 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T51 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T52  { a: A, b: B, first: B }
impl Gram for T52 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T52 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T53 (A, B, AB) ;
impl Gram for T53 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T53 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T54  { a: A, b: B, first: Option<A> }
impl Gram for T54 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T54 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T55 (A, B, Vec<B>) ;
impl Gram for T55 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T55 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T56  { a: A, b: B, first: SepSeq<A, C> }
impl Gram for T56 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T56 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T57 (A, AB, A) ;
impl Gram for T57 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T57 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T58  { a: A, b: AB, first: B }
impl Gram for T58 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T58 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T59 (A, AB, AB) ;
impl Gram for T59 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T59 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T60  { a: A, b: AB, first: Option<A> }
impl Gram for T60 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T60 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T61 (A, AB, Vec<B>) ;
impl Gram for T61 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T61 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T62  { a: A, b: AB, first: SepSeq<A, C> }
impl Gram for T62 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T62 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T63 (A, Option<A>, A) ;
impl Gram for T63 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T63 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T64  { a: A, b: Option<A>, first: B }
impl Gram for T64 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T64 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T65 (A, Option<A>, AB) ;
impl Gram for T65 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T65 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T66  { a: A, b: Option<A>, first: Option<A> }
impl Gram for T66 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T66 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T67 (A, Option<A>, Vec<B>) ;
impl Gram for T67 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T67 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T68  { a: A, b: Option<A>, first: SepSeq<A, C> }
impl Gram for T68 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T68 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T69 (A, Vec<B>, A) ;
impl Gram for T69 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T69 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T70  { a: A, b: Vec<B>, first: B }
impl Gram for T70 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T70 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T71 (A, Vec<B>, AB) ;
impl Gram for T71 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T71 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T72  { a: A, b: Vec<B>, first: Option<A> }
impl Gram for T72 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T72 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T73 (A, Vec<B>, Vec<B>) ;
impl Gram for T73 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T73 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T74  { a: A, b: Vec<B>, first: SepSeq<A, C> }
impl Gram for T74 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T74 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T75 (A, SepSeq<A, C>, A) ;
impl Gram for T75 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T75 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T76  { a: A, b: SepSeq<A, C>, first: B }
impl Gram for T76 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T76 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T77 (A, SepSeq<A, C>, AB) ;
impl Gram for T77 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T77 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T78  { a: A, b: SepSeq<A, C>, first: Option<A> }
impl Gram for T78 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T78 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T79 (A, SepSeq<A, C>, Vec<B>) ;
impl Gram for T79 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T79 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T80  { a: A, b: SepSeq<A, C>, first: SepSeq<A, C> }
impl Gram for T80 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T80 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T81 (B, A, A) ;
impl Gram for T81 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T81 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T82  { a: B, b: A, first: B }
impl Gram for T82 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T82 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T83 (B, A, AB) ;
impl Gram for T83 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T83 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T84  { a: B, b: A, first: Option<A> }
impl Gram for T84 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T84 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T85 (B, A, Vec<B>) ;
impl Gram for T85 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T85 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T86  { a: B, b: A, first: SepSeq<A, C> }
impl Gram for T86 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T86 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T87 (B, B, A) ;
impl Gram for T87 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T87 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T88  { a: B, b: B, first: B }
impl Gram for T88 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T88 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T89 (B, B, AB) ;
impl Gram for T89 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T89 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T90  { a: B, b: B, first: Option<A> }
impl Gram for T90 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T90 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T91 (B, B, Vec<B>) ;
impl Gram for T91 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T91 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T92  { a: B, b: B, first: SepSeq<A, C> }
impl Gram for T92 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T92 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T93 (B, AB, A) ;
impl Gram for T93 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T93 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T94  { a: B, b: AB, first: B }
impl Gram for T94 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T94 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T95 (B, AB, AB) ;
impl Gram for T95 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T95 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T96  { a: B, b: AB, first: Option<A> }
impl Gram for T96 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T96 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T97 (B, AB, Vec<B>) ;
impl Gram for T97 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T97 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T98  { a: B, b: AB, first: SepSeq<A, C> }
impl Gram for T98 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T98 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T99 (B, Option<A>, A) ;
impl Gram for T99 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T99 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T100  { a: B, b: Option<A>, first: B }
impl Gram for T100 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T100 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T101 (B, Option<A>, AB) ;
impl Gram for T101 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T101 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T102  { a: B, b: Option<A>, first: Option<A> }
impl Gram for T102 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T102 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T103 (B, Option<A>, Vec<B>) ;
impl Gram for T103 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T103 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T104  { a: B, b: Option<A>, first: SepSeq<A, C> }
impl Gram for T104 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T104 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T105 (B, Vec<B>, A) ;
impl Gram for T105 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T105 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T106  { a: B, b: Vec<B>, first: B }
impl Gram for T106 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T106 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T107 (B, Vec<B>, AB) ;
impl Gram for T107 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T107 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T108  { a: B, b: Vec<B>, first: Option<A> }
impl Gram for T108 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T108 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T109 (B, Vec<B>, Vec<B>) ;
impl Gram for T109 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T109 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T110  { a: B, b: Vec<B>, first: SepSeq<A, C> }
impl Gram for T110 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T110 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T111 (B, SepSeq<A, C>, A) ;
impl Gram for T111 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T111 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T112  { a: B, b: SepSeq<A, C>, first: B }
impl Gram for T112 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T112 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T113 (B, SepSeq<A, C>, AB) ;
impl Gram for T113 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T113 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T114  { a: B, b: SepSeq<A, C>, first: Option<A> }
impl Gram for T114 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T114 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T115 (B, SepSeq<A, C>, Vec<B>) ;
impl Gram for T115 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T115 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T116  { a: B, b: SepSeq<A, C>, first: SepSeq<A, C> }
impl Gram for T116 { fn g() -> G { G::Seq(vec![<B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T116 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T117 (AB, A, A) ;
impl Gram for T117 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T117 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T118  { a: AB, b: A, first: B }
impl Gram for T118 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T118 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T119 (AB, A, AB) ;
impl Gram for T119 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T119 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T120  { a: AB, b: A, first: Option<A> }
impl Gram for T120 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T120 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T121 (AB, A, Vec<B>) ;
impl Gram for T121 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T121 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T122  { a: AB, b: A, first: SepSeq<A, C> }
impl Gram for T122 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T122 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T123 (AB, B, A) ;
impl Gram for T123 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T123 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T124  { a: AB, b: B, first: B }
impl Gram for T124 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T124 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T125 (AB, B, AB) ;
impl Gram for T125 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T125 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T126  { a: AB, b: B, first: Option<A> }
impl Gram for T126 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T126 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T127 (AB, B, Vec<B>) ;
impl Gram for T127 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T127 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T128  { a: AB, b: B, first: SepSeq<A, C> }
impl Gram for T128 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T128 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T129 (AB, AB, A) ;
impl Gram for T129 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T129 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T130  { a: AB, b: AB, first: B }
impl Gram for T130 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T130 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T131 (AB, AB, AB) ;
impl Gram for T131 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T131 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T132  { a: AB, b: AB, first: Option<A> }
impl Gram for T132 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T132 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T133 (AB, AB, Vec<B>) ;
impl Gram for T133 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T133 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T134  { a: AB, b: AB, first: SepSeq<A, C> }
impl Gram for T134 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T134 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T135 (AB, Option<A>, A) ;
impl Gram for T135 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T135 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T136  { a: AB, b: Option<A>, first: B }
impl Gram for T136 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T136 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T137 (AB, Option<A>, AB) ;
impl Gram for T137 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T137 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T138  { a: AB, b: Option<A>, first: Option<A> }
impl Gram for T138 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T138 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T139 (AB, Option<A>, Vec<B>) ;
impl Gram for T139 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T139 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T140  { a: AB, b: Option<A>, first: SepSeq<A, C> }
impl Gram for T140 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T140 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T141 (AB, Vec<B>, A) ;
impl Gram for T141 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T141 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T142  { a: AB, b: Vec<B>, first: B }
impl Gram for T142 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T142 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T143 (AB, Vec<B>, AB) ;
impl Gram for T143 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T143 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T144  { a: AB, b: Vec<B>, first: Option<A> }
impl Gram for T144 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T144 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T145 (AB, Vec<B>, Vec<B>) ;
impl Gram for T145 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T145 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T146  { a: AB, b: Vec<B>, first: SepSeq<A, C> }
impl Gram for T146 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T146 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T147 (AB, SepSeq<A, C>, A) ;
impl Gram for T147 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T147 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T148  { a: AB, b: SepSeq<A, C>, first: B }
impl Gram for T148 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T148 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T149 (AB, SepSeq<A, C>, AB) ;
impl Gram for T149 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T149 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T150  { a: AB, b: SepSeq<A, C>, first: Option<A> }
impl Gram for T150 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T150 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T151 (AB, SepSeq<A, C>, Vec<B>) ;
impl Gram for T151 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T151 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T152  { a: AB, b: SepSeq<A, C>, first: SepSeq<A, C> }
impl Gram for T152 { fn g() -> G { G::Seq(vec![<AB as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T152 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T153 (Option<A>, A, A) ;
impl Gram for T153 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T153 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T154  { a: Option<A>, b: A, first: B }
impl Gram for T154 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T154 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T155 (Option<A>, A, AB) ;
impl Gram for T155 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T155 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T156  { a: Option<A>, b: A, first: Option<A> }
impl Gram for T156 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T156 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T157 (Option<A>, A, Vec<B>) ;
impl Gram for T157 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T157 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T158  { a: Option<A>, b: A, first: SepSeq<A, C> }
impl Gram for T158 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T158 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T159 (Option<A>, B, A) ;
impl Gram for T159 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T159 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T160  { a: Option<A>, b: B, first: B }
impl Gram for T160 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T160 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T161 (Option<A>, B, AB) ;
impl Gram for T161 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T161 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T162  { a: Option<A>, b: B, first: Option<A> }
impl Gram for T162 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T162 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T163 (Option<A>, B, Vec<B>) ;
impl Gram for T163 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T163 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T164  { a: Option<A>, b: B, first: SepSeq<A, C> }
impl Gram for T164 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T164 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T165 (Option<A>, AB, A) ;
impl Gram for T165 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T165 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T166  { a: Option<A>, b: AB, first: B }
impl Gram for T166 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T166 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T167 (Option<A>, AB, AB) ;
impl Gram for T167 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T167 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T168  { a: Option<A>, b: AB, first: Option<A> }
impl Gram for T168 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T168 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T169 (Option<A>, AB, Vec<B>) ;
impl Gram for T169 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T169 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T170  { a: Option<A>, b: AB, first: SepSeq<A, C> }
impl Gram for T170 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T170 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T171 (Option<A>, Option<A>, A) ;
impl Gram for T171 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T171 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T172  { a: Option<A>, b: Option<A>, first: B }
impl Gram for T172 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T172 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T173 (Option<A>, Option<A>, AB) ;
impl Gram for T173 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T173 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T174  { a: Option<A>, b: Option<A>, first: Option<A> }
impl Gram for T174 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T174 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T175 (Option<A>, Option<A>, Vec<B>) ;
impl Gram for T175 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T175 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T176  { a: Option<A>, b: Option<A>, first: SepSeq<A, C> }
impl Gram for T176 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T176 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T177 (Option<A>, Vec<B>, A) ;
impl Gram for T177 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T177 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T178  { a: Option<A>, b: Vec<B>, first: B }
impl Gram for T178 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T178 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T179 (Option<A>, Vec<B>, AB) ;
impl Gram for T179 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T179 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T180  { a: Option<A>, b: Vec<B>, first: Option<A> }
impl Gram for T180 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T180 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T181 (Option<A>, Vec<B>, Vec<B>) ;
impl Gram for T181 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T181 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T182  { a: Option<A>, b: Vec<B>, first: SepSeq<A, C> }
impl Gram for T182 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T182 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T183 (Option<A>, SepSeq<A, C>, A) ;
impl Gram for T183 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T183 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T184  { a: Option<A>, b: SepSeq<A, C>, first: B }
impl Gram for T184 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T184 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T185 (Option<A>, SepSeq<A, C>, AB) ;
impl Gram for T185 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T185 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T186  { a: Option<A>, b: SepSeq<A, C>, first: Option<A> }
impl Gram for T186 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T186 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T187 (Option<A>, SepSeq<A, C>, Vec<B>) ;
impl Gram for T187 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T187 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T188  { a: Option<A>, b: SepSeq<A, C>, first: SepSeq<A, C> }
impl Gram for T188 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T188 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T189 (Vec<B>, A, A) ;
impl Gram for T189 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T189 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T190  { a: Vec<B>, b: A, first: B }
impl Gram for T190 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T190 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T191 (Vec<B>, A, AB) ;
impl Gram for T191 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T191 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T192  { a: Vec<B>, b: A, first: Option<A> }
impl Gram for T192 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T192 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T193 (Vec<B>, A, Vec<B>) ;
impl Gram for T193 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T193 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T194  { a: Vec<B>, b: A, first: SepSeq<A, C> }
impl Gram for T194 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T194 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T195 (Vec<B>, B, A) ;
impl Gram for T195 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T195 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T196  { a: Vec<B>, b: B, first: B }
impl Gram for T196 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T196 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T197 (Vec<B>, B, AB) ;
impl Gram for T197 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T197 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T198  { a: Vec<B>, b: B, first: Option<A> }
impl Gram for T198 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T198 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T199 (Vec<B>, B, Vec<B>) ;
impl Gram for T199 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T199 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T200  { a: Vec<B>, b: B, first: SepSeq<A, C> }
impl Gram for T200 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T200 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T201 (Vec<B>, AB, A) ;
impl Gram for T201 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T201 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T202  { a: Vec<B>, b: AB, first: B }
impl Gram for T202 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T202 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T203 (Vec<B>, AB, AB) ;
impl Gram for T203 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T203 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T204  { a: Vec<B>, b: AB, first: Option<A> }
impl Gram for T204 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T204 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T205 (Vec<B>, AB, Vec<B>) ;
impl Gram for T205 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T205 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T206  { a: Vec<B>, b: AB, first: SepSeq<A, C> }
impl Gram for T206 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T206 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T207 (Vec<B>, Option<A>, A) ;
impl Gram for T207 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T207 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T208  { a: Vec<B>, b: Option<A>, first: B }
impl Gram for T208 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T208 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T209 (Vec<B>, Option<A>, AB) ;
impl Gram for T209 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T209 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T210  { a: Vec<B>, b: Option<A>, first: Option<A> }
impl Gram for T210 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T210 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T211 (Vec<B>, Option<A>, Vec<B>) ;
impl Gram for T211 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T211 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T212  { a: Vec<B>, b: Option<A>, first: SepSeq<A, C> }
impl Gram for T212 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T212 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T213 (Vec<B>, Vec<B>, A) ;
impl Gram for T213 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T213 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T214  { a: Vec<B>, b: Vec<B>, first: B }
impl Gram for T214 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T214 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T215 (Vec<B>, Vec<B>, AB) ;
impl Gram for T215 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T215 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T216  { a: Vec<B>, b: Vec<B>, first: Option<A> }
impl Gram for T216 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T216 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T217 (Vec<B>, Vec<B>, Vec<B>) ;
impl Gram for T217 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T217 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T218  { a: Vec<B>, b: Vec<B>, first: SepSeq<A, C> }
impl Gram for T218 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T218 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T219 (Vec<B>, SepSeq<A, C>, A) ;
impl Gram for T219 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T219 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T220  { a: Vec<B>, b: SepSeq<A, C>, first: B }
impl Gram for T220 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T220 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T221 (Vec<B>, SepSeq<A, C>, AB) ;
impl Gram for T221 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T221 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T222  { a: Vec<B>, b: SepSeq<A, C>, first: Option<A> }
impl Gram for T222 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T222 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T223 (Vec<B>, SepSeq<A, C>, Vec<B>) ;
impl Gram for T223 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T223 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T224  { a: Vec<B>, b: SepSeq<A, C>, first: SepSeq<A, C> }
impl Gram for T224 { fn g() -> G { G::Seq(vec![<Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T224 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T225 (SepSeq<A, C>, A, A) ;
impl Gram for T225 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T225 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T226  { a: SepSeq<A, C>, b: A, first: B }
impl Gram for T226 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T226 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T227 (SepSeq<A, C>, A, AB) ;
impl Gram for T227 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T227 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T228  { a: SepSeq<A, C>, b: A, first: Option<A> }
impl Gram for T228 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T228 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T229 (SepSeq<A, C>, A, Vec<B>) ;
impl Gram for T229 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T229 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T230  { a: SepSeq<A, C>, b: A, first: SepSeq<A, C> }
impl Gram for T230 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <A as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T230 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T231 (SepSeq<A, C>, B, A) ;
impl Gram for T231 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T231 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T232  { a: SepSeq<A, C>, b: B, first: B }
impl Gram for T232 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T232 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T233 (SepSeq<A, C>, B, AB) ;
impl Gram for T233 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T233 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T234  { a: SepSeq<A, C>, b: B, first: Option<A> }
impl Gram for T234 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T234 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T235 (SepSeq<A, C>, B, Vec<B>) ;
impl Gram for T235 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T235 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T236  { a: SepSeq<A, C>, b: B, first: SepSeq<A, C> }
impl Gram for T236 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T236 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T237 (SepSeq<A, C>, AB, A) ;
impl Gram for T237 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T237 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T238  { a: SepSeq<A, C>, b: AB, first: B }
impl Gram for T238 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T238 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T239 (SepSeq<A, C>, AB, AB) ;
impl Gram for T239 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T239 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T240  { a: SepSeq<A, C>, b: AB, first: Option<A> }
impl Gram for T240 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T240 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T241 (SepSeq<A, C>, AB, Vec<B>) ;
impl Gram for T241 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T241 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T242  { a: SepSeq<A, C>, b: AB, first: SepSeq<A, C> }
impl Gram for T242 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <AB as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T242 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T243 (SepSeq<A, C>, Option<A>, A) ;
impl Gram for T243 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T243 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T244  { a: SepSeq<A, C>, b: Option<A>, first: B }
impl Gram for T244 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T244 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T245 (SepSeq<A, C>, Option<A>, AB) ;
impl Gram for T245 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T245 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T246  { a: SepSeq<A, C>, b: Option<A>, first: Option<A> }
impl Gram for T246 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T246 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T247 (SepSeq<A, C>, Option<A>, Vec<B>) ;
impl Gram for T247 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T247 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T248  { a: SepSeq<A, C>, b: Option<A>, first: SepSeq<A, C> }
impl Gram for T248 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T248 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T249 (SepSeq<A, C>, Vec<B>, A) ;
impl Gram for T249 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T249 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T250  { a: SepSeq<A, C>, b: Vec<B>, first: B }
impl Gram for T250 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T250 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T251 (SepSeq<A, C>, Vec<B>, AB) ;
impl Gram for T251 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T251 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T252  { a: SepSeq<A, C>, b: Vec<B>, first: Option<A> }
impl Gram for T252 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T252 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T253 (SepSeq<A, C>, Vec<B>, Vec<B>) ;
impl Gram for T253 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T253 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T254  { a: SepSeq<A, C>, b: Vec<B>, first: SepSeq<A, C> }
impl Gram for T254 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T254 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T255 (SepSeq<A, C>, SepSeq<A, C>, A) ;
impl Gram for T255 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T255 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T256  { a: SepSeq<A, C>, b: SepSeq<A, C>, first: B }
impl Gram for T256 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T256 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T257 (SepSeq<A, C>, SepSeq<A, C>, AB) ;
impl Gram for T257 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <AB as Gram>::g()]) } }
impl ToTree for T257 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T258  { a: SepSeq<A, C>, b: SepSeq<A, C>, first: Option<A> }
impl Gram for T258 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T258 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T259 (SepSeq<A, C>, SepSeq<A, C>, Vec<B>) ;
impl Gram for T259 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <Vec<B> as Gram>::g()]) } }
impl ToTree for T259 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T260  { a: SepSeq<A, C>, b: SepSeq<A, C>, first: SepSeq<A, C> }
impl Gram for T260 { fn g() -> G { G::Seq(vec![<SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T260 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T261 (C) ;
impl Gram for T261 { fn g() -> G { G::Seq(vec![<C as Gram>::g()]) } }
impl ToTree for T261 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T262  { a: C, b: A }
impl Gram for T262 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T262 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T263 (Option<A>, C) ;
impl Gram for T263 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T263 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T264  { a: Box<B> }
impl Gram for T264 { fn g() -> G { G::Seq(vec![<Box<B> as Gram>::g()]) } }
impl ToTree for T264 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T265 (Box<B>, A) ;
impl Gram for T265 { fn g() -> G { G::Seq(vec![<Box<B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T265 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T266  { a: Option<A>, b: Box<B> }
impl Gram for T266 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Box<B> as Gram>::g()]) } }
impl ToTree for T266 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T267 (Option<Vec<C>>) ;
impl Gram for T267 { fn g() -> G { G::Seq(vec![<Option<Vec<C>> as Gram>::g()]) } }
impl ToTree for T267 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T268  { a: Option<Vec<C>>, b: A }
impl Gram for T268 { fn g() -> G { G::Seq(vec![<Option<Vec<C>> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T268 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T269 (Option<A>, Option<Vec<C>>) ;
impl Gram for T269 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<Vec<C>> as Gram>::g()]) } }
impl ToTree for T269 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T270  { a: TokenPrefix<A, B> }
impl Gram for T270 { fn g() -> G { G::Seq(vec![<TokenPrefix<A, B> as Gram>::g()]) } }
impl ToTree for T270 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T271 (TokenPrefix<A, B>, A) ;
impl Gram for T271 { fn g() -> G { G::Seq(vec![<TokenPrefix<A, B> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T271 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T272  { a: Option<A>, b: TokenPrefix<A, B> }
impl Gram for T272 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <TokenPrefix<A, B> as Gram>::g()]) } }
impl ToTree for T272 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T273 (OptPrefix<B, C>) ;
impl Gram for T273 { fn g() -> G { G::Seq(vec![<OptPrefix<B, C> as Gram>::g()]) } }
impl ToTree for T273 { fn tree(&self) -> Tree { let Self(f0) = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T274  { a: OptPrefix<B, C>, b: A }
impl Gram for T274 { fn g() -> G { G::Seq(vec![<OptPrefix<B, C> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T274 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T275 (Option<A>, OptPrefix<B, C>) ;
impl Gram for T275 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <OptPrefix<B, C> as Gram>::g()]) } }
impl ToTree for T275 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T276  { a: NonEmptySeq<A> }
impl Gram for T276 { fn g() -> G { G::Seq(vec![<NonEmptySeq<A> as Gram>::g()]) } }
impl ToTree for T276 { fn tree(&self) -> Tree { let Self { a: f0 } = self; Tree::List(vec![f0.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T277 (NonEmptySeq<A>, A) ;
impl Gram for T277 { fn g() -> G { G::Seq(vec![<NonEmptySeq<A> as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T277 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T278  { a: Option<A>, b: NonEmptySeq<A> }
impl Gram for T278 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <NonEmptySeq<A> as Gram>::g()]) } }
impl ToTree for T278 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T279  { a: A, b: B, first: A, _c: B }
impl Gram for T279 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T279 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T280  { a: A, b: Option<A>, first: Vec<B>, _c: C }
impl Gram for T280 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T280 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T281  { a: Option<A>, b: Option<B>, first: Option<B>, _c: C }
impl Gram for T281 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T281 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T282  { a: C, b: Option<B>, first: Option<B>, _c: Option<A> }
impl Gram for T282 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T282 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T283 (A, B, A, B) ;
impl Gram for T283 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T283 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T284 (A, Option<A>, Vec<B>, C) ;
impl Gram for T284 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T284 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T285 (Option<A>, Option<B>, Option<B>, C) ;
impl Gram for T285 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T285 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T286 (C, Option<B>, Option<B>, Option<A>) ;
impl Gram for T286 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T286 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T287  { a: A, b: B, first: A, _c: B, tokens: B }
impl Gram for T287 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T287 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T288  { a: A, b: Option<A>, first: Vec<B>, _c: C, tokens: B }
impl Gram for T288 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T288 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T289  { a: Option<A>, b: Option<B>, first: Option<B>, _c: Option<B>, tokens: C }
impl Gram for T289 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T289 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T290  { a: C, b: Option<B>, first: Option<B>, _c: Option<B>, tokens: Option<A> }
impl Gram for T290 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T290 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T291 (A, B, A, B, B) ;
impl Gram for T291 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T291 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T292 (A, Option<A>, Vec<B>, C, B) ;
impl Gram for T292 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T292 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T293 (Option<A>, Option<B>, Option<B>, Option<B>, C) ;
impl Gram for T293 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T293 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T294 (C, Option<B>, Option<B>, Option<B>, Option<A>) ;
impl Gram for T294 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T294 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T295  { a: A, b: B, first: A, _c: B, tokens: B, span: C, f6: B, f7: C }
impl Gram for T295 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T295 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T296  { a: A, b: Option<A>, first: Vec<B>, _c: C, tokens: B, span: SepSeq<A, C>, f6: C, f7: A }
impl Gram for T296 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T296 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T297  { a: Option<A>, b: Option<B>, first: Option<B>, _c: Option<B>, tokens: Option<B>, span: Option<B>, f6: Option<B>, f7: C }
impl Gram for T297 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T297 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T298  { a: C, b: Option<B>, first: Option<B>, _c: Option<B>, tokens: Option<B>, span: Option<B>, f6: Option<B>, f7: Option<A> }
impl Gram for T298 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T298 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T299 (A, B, A, B, B, C, B, C) ;
impl Gram for T299 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T299 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T300 (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A) ;
impl Gram for T300 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g()]) } }
impl ToTree for T300 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T301 (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C) ;
impl Gram for T301 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T301 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T302 (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>) ;
impl Gram for T302 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T302 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T303  { a: A, b: B, first: A, _c: B, tokens: B, span: C, f6: B, f7: C, f8: C, f9: D, f10: C, f11: D }
impl Gram for T303 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <C as Gram>::g(), <D as Gram>::g()]) } }
impl ToTree for T303 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T304  { a: A, b: Option<A>, first: Vec<B>, _c: C, tokens: B, span: SepSeq<A, C>, f6: C, f7: A, f8: Option<A>, f9: Vec<B>, f10: C, f11: B }
impl Gram for T304 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T304 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T305  { a: Option<A>, b: Option<B>, first: Option<B>, _c: Option<B>, tokens: Option<B>, span: Option<B>, f6: Option<B>, f7: Option<B>, f8: Option<B>, f9: Option<B>, f10: Option<B>, f11: C }
impl Gram for T305 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T305 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T306  { a: C, b: Option<B>, first: Option<B>, _c: Option<B>, tokens: Option<B>, span: Option<B>, f6: Option<B>, f7: Option<B>, f8: Option<B>, f9: Option<B>, f10: Option<B>, f11: Option<A> }
impl Gram for T306 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T306 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T307 (A, B, A, B, B, C, B, C, C, D, C, D) ;
impl Gram for T307 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <C as Gram>::g(), <D as Gram>::g()]) } }
impl ToTree for T307 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T308 (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B) ;
impl Gram for T308 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T308 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T309 (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C) ;
impl Gram for T309 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T309 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T310 (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>) ;
impl Gram for T310 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T310 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T311  { a: A, b: B, first: A, _c: B, tokens: B, span: C, f6: B, f7: C, f8: C, f9: D, f10: C, f11: D, f12: D, f13: A, f14: D, f15: A, f16: A, f17: B, f18: A, f19: B }
impl Gram for T311 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <D as Gram>::g(), <A as Gram>::g(), <D as Gram>::g(), <A as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T311 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11, f12: f12, f13: f13, f14: f14, f15: f15, f16: f16, f17: f17, f18: f18, f19: f19 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T312  { a: A, b: Option<A>, first: Vec<B>, _c: C, tokens: B, span: SepSeq<A, C>, f6: C, f7: A, f8: Option<A>, f9: Vec<B>, f10: C, f11: B, f12: SepSeq<A, C>, f13: C, f14: A, f15: Option<A>, f16: Vec<B>, f17: C, f18: B, f19: SepSeq<A, C> }
impl Gram for T312 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T312 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11, f12: f12, f13: f13, f14: f14, f15: f15, f16: f16, f17: f17, f18: f18, f19: f19 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T313  { a: Option<A>, b: Option<B>, first: Option<B>, _c: Option<B>, tokens: Option<B>, span: Option<B>, f6: Option<B>, f7: Option<B>, f8: Option<B>, f9: Option<B>, f10: Option<B>, f11: Option<B>, f12: Option<B>, f13: Option<B>, f14: Option<B>, f15: Option<B>, f16: Option<B>, f17: Option<B>, f18: Option<B>, f19: C }
impl Gram for T313 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T313 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11, f12: f12, f13: f13, f14: f14, f15: f15, f16: f16, f17: f17, f18: f18, f19: f19 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T314  { a: C, b: Option<B>, first: Option<B>, _c: Option<B>, tokens: Option<B>, span: Option<B>, f6: Option<B>, f7: Option<B>, f8: Option<B>, f9: Option<B>, f10: Option<B>, f11: Option<B>, f12: Option<B>, f13: Option<B>, f14: Option<B>, f15: Option<B>, f16: Option<B>, f17: Option<B>, f18: Option<B>, f19: Option<A> }
impl Gram for T314 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T314 { fn tree(&self) -> Tree { let Self { a: f0, b: f1, first: f2, _c: f3, tokens: f4, span: f5, f6: f6, f7: f7, f8: f8, f9: f9, f10: f10, f11: f11, f12: f12, f13: f13, f14: f14, f15: f15, f16: f16, f17: f17, f18: f18, f19: f19 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T315 (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B) ;
impl Gram for T315 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <C as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <C as Gram>::g(), <D as Gram>::g(), <D as Gram>::g(), <A as Gram>::g(), <D as Gram>::g(), <A as Gram>::g(), <A as Gram>::g(), <B as Gram>::g(), <A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T315 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T316 (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C>) ;
impl Gram for T316 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g(), <C as Gram>::g(), <A as Gram>::g(), <Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g(), <B as Gram>::g(), <SepSeq<A, C> as Gram>::g()]) } }
impl ToTree for T316 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T317 (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C) ;
impl Gram for T317 { fn g() -> G { G::Seq(vec![<Option<A> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <C as Gram>::g()]) } }
impl ToTree for T317 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T318 (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>) ;
impl Gram for T318 { fn g() -> G { G::Seq(vec![<C as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<B> as Gram>::g(), <Option<A> as Gram>::g()]) } }
impl ToTree for T318 { fn tree(&self) -> Tree { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree(), f3.tree(), f4.tree(), f5.tree(), f6.tree(), f7.tree(), f8.tree(), f9.tree(), f10.tree(), f11.tree(), f12.tree(), f13.tree(), f14.tree(), f15.tree(), f16.tree(), f17.tree(), f18.tree(), f19.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T319 { V0 }
impl Gram for T319 { fn g() -> G { G::Alt(vec![vec![]]) } }
impl ToTree for T319 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T320 { V0(A) }
impl Gram for T320 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()]]) } }
impl ToTree for T320 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T321 { V0 { a: B, b: A } }
impl Gram for T321 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T321 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T322 { V0(Option<A>, C) }
impl Gram for T322 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T322 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T323 { V0(Vec<B>) }
impl Gram for T323 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T323 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T324 { V0 { a: AB, b: C } }
impl Gram for T324 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T324 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T325 { V0() }
impl Gram for T325 { fn g() -> G { G::Alt(vec![vec![]]) } }
impl ToTree for T325 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T326 { V0, V1 }
impl Gram for T326 { fn g() -> G { G::Alt(vec![vec![], vec![]]) } }
impl ToTree for T326 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T327 { V0, V1(A) }
impl Gram for T327 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T327 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T328 { V0, V1 { a: B, b: A } }
impl Gram for T328 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T328 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T329 { V0, V1(Option<A>, C) }
impl Gram for T329 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T329 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T330 { V0, V1(Vec<B>) }
impl Gram for T330 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T330 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T331 { V0, V1 { a: AB, b: C } }
impl Gram for T331 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T331 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T332 { V0, V1() }
impl Gram for T332 { fn g() -> G { G::Alt(vec![vec![], vec![]]) } }
impl ToTree for T332 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T333 { V0(A), V1 }
impl Gram for T333 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T333 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T334 { V0(A), V1(A) }
impl Gram for T334 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T334 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T335 { V0(A), V1 { a: B, b: A } }
impl Gram for T335 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T335 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T336 { V0(A), V1(Option<A>, C) }
impl Gram for T336 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T336 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T337 { V0(A), V1(Vec<B>) }
impl Gram for T337 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T337 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T338 { V0(A), V1 { a: AB, b: C } }
impl Gram for T338 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T338 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T339 { V0(A), V1() }
impl Gram for T339 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T339 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T340 { V0 { a: B, b: A }, V1 }
impl Gram for T340 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T340 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T341 { V0 { a: B, b: A }, V1(A) }
impl Gram for T341 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T341 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T342 { V0 { a: B, b: A }, V1 { a: B, b: A } }
impl Gram for T342 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T342 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T343 { V0 { a: B, b: A }, V1(Option<A>, C) }
impl Gram for T343 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T343 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T344 { V0 { a: B, b: A }, V1(Vec<B>) }
impl Gram for T344 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T344 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T345 { V0 { a: B, b: A }, V1 { a: AB, b: C } }
impl Gram for T345 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T345 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T346 { V0 { a: B, b: A }, V1() }
impl Gram for T346 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T346 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T347 { V0(Option<A>, C), V1 }
impl Gram for T347 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T347 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T348 { V0(Option<A>, C), V1(A) }
impl Gram for T348 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T348 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T349 { V0(Option<A>, C), V1 { a: B, b: A } }
impl Gram for T349 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T349 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T350 { V0(Option<A>, C), V1(Option<A>, C) }
impl Gram for T350 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T350 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T351 { V0(Option<A>, C), V1(Vec<B>) }
impl Gram for T351 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T351 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T352 { V0(Option<A>, C), V1 { a: AB, b: C } }
impl Gram for T352 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T352 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T353 { V0(Option<A>, C), V1() }
impl Gram for T353 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T353 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T354 { V0(Vec<B>), V1 }
impl Gram for T354 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T354 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T355 { V0(Vec<B>), V1(A) }
impl Gram for T355 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T355 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T356 { V0(Vec<B>), V1 { a: B, b: A } }
impl Gram for T356 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T356 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T357 { V0(Vec<B>), V1(Option<A>, C) }
impl Gram for T357 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T357 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T358 { V0(Vec<B>), V1(Vec<B>) }
impl Gram for T358 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T358 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T359 { V0(Vec<B>), V1 { a: AB, b: C } }
impl Gram for T359 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T359 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T360 { V0(Vec<B>), V1() }
impl Gram for T360 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T360 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T361 { V0 { a: AB, b: C }, V1 }
impl Gram for T361 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T361 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T362 { V0 { a: AB, b: C }, V1(A) }
impl Gram for T362 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T362 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T363 { V0 { a: AB, b: C }, V1 { a: B, b: A } }
impl Gram for T363 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T363 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T364 { V0 { a: AB, b: C }, V1(Option<A>, C) }
impl Gram for T364 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T364 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T365 { V0 { a: AB, b: C }, V1(Vec<B>) }
impl Gram for T365 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T365 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T366 { V0 { a: AB, b: C }, V1 { a: AB, b: C } }
impl Gram for T366 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T366 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T367 { V0 { a: AB, b: C }, V1() }
impl Gram for T367 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T367 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T368 { V0(), V1 }
impl Gram for T368 { fn g() -> G { G::Alt(vec![vec![], vec![]]) } }
impl ToTree for T368 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T369 { V0(), V1(A) }
impl Gram for T369 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T369 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T370 { V0(), V1 { a: B, b: A } }
impl Gram for T370 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T370 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T371 { V0(), V1(Option<A>, C) }
impl Gram for T371 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T371 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T372 { V0(), V1(Vec<B>) }
impl Gram for T372 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T372 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T373 { V0(), V1 { a: AB, b: C } }
impl Gram for T373 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T373 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T374 { V0(), V1() }
impl Gram for T374 { fn g() -> G { G::Alt(vec![vec![], vec![]]) } }
impl ToTree for T374 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T375 { V0, V1, V2 }
impl Gram for T375 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![]]) } }
impl ToTree for T375 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T376 { V0, V1, V2(A) }
impl Gram for T376 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T376 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T377 { V0, V1, V2 { a: B, b: A } }
impl Gram for T377 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T377 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T378 { V0, V1, V2(Option<A>, C) }
impl Gram for T378 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T378 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T379 { V0, V1, V2(Vec<B>) }
impl Gram for T379 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T379 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T380 { V0, V1, V2 { a: AB, b: C } }
impl Gram for T380 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T380 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T381 { V0, V1, V2() }
impl Gram for T381 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![]]) } }
impl ToTree for T381 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T382 { V0, V1(A), V2 }
impl Gram for T382 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T382 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T383 { V0, V1(A), V2(A) }
impl Gram for T383 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T383 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T384 { V0, V1(A), V2 { a: B, b: A } }
impl Gram for T384 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T384 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T385 { V0, V1(A), V2(Option<A>, C) }
impl Gram for T385 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T385 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T386 { V0, V1(A), V2(Vec<B>) }
impl Gram for T386 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T386 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T387 { V0, V1(A), V2 { a: AB, b: C } }
impl Gram for T387 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T387 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T388 { V0, V1(A), V2() }
impl Gram for T388 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T388 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T389 { V0, V1 { a: B, b: A }, V2 }
impl Gram for T389 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T389 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T390 { V0, V1 { a: B, b: A }, V2(A) }
impl Gram for T390 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T390 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T391 { V0, V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T391 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T391 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T392 { V0, V1 { a: B, b: A }, V2(Option<A>, C) }
impl Gram for T392 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T392 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T393 { V0, V1 { a: B, b: A }, V2(Vec<B>) }
impl Gram for T393 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T393 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T394 { V0, V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T394 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T394 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T395 { V0, V1 { a: B, b: A }, V2() }
impl Gram for T395 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T395 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T396 { V0, V1(Option<A>, C), V2 }
impl Gram for T396 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T396 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T397 { V0, V1(Option<A>, C), V2(A) }
impl Gram for T397 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T397 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T398 { V0, V1(Option<A>, C), V2 { a: B, b: A } }
impl Gram for T398 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T398 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T399 { V0, V1(Option<A>, C), V2(Option<A>, C) }
impl Gram for T399 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T399 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T400 { V0, V1(Option<A>, C), V2(Vec<B>) }
impl Gram for T400 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T400 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T401 { V0, V1(Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T401 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T401 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T402 { V0, V1(Option<A>, C), V2() }
impl Gram for T402 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T402 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T403 { V0, V1(Vec<B>), V2 }
impl Gram for T403 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T403 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T404 { V0, V1(Vec<B>), V2(A) }
impl Gram for T404 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T404 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T405 { V0, V1(Vec<B>), V2 { a: B, b: A } }
impl Gram for T405 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T405 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T406 { V0, V1(Vec<B>), V2(Option<A>, C) }
impl Gram for T406 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T406 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T407 { V0, V1(Vec<B>), V2(Vec<B>) }
impl Gram for T407 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T407 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T408 { V0, V1(Vec<B>), V2 { a: AB, b: C } }
impl Gram for T408 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T408 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T409 { V0, V1(Vec<B>), V2() }
impl Gram for T409 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T409 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T410 { V0, V1 { a: AB, b: C }, V2 }
impl Gram for T410 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T410 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T411 { V0, V1 { a: AB, b: C }, V2(A) }
impl Gram for T411 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T411 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T412 { V0, V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T412 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T412 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T413 { V0, V1 { a: AB, b: C }, V2(Option<A>, C) }
impl Gram for T413 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T413 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T414 { V0, V1 { a: AB, b: C }, V2(Vec<B>) }
impl Gram for T414 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T414 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T415 { V0, V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T415 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T415 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T416 { V0, V1 { a: AB, b: C }, V2() }
impl Gram for T416 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T416 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T417 { V0, V1(), V2 }
impl Gram for T417 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![]]) } }
impl ToTree for T417 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T418 { V0, V1(), V2(A) }
impl Gram for T418 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T418 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T419 { V0, V1(), V2 { a: B, b: A } }
impl Gram for T419 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T419 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T420 { V0, V1(), V2(Option<A>, C) }
impl Gram for T420 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T420 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T421 { V0, V1(), V2(Vec<B>) }
impl Gram for T421 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T421 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T422 { V0, V1(), V2 { a: AB, b: C } }
impl Gram for T422 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T422 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T423 { V0, V1(), V2() }
impl Gram for T423 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![]]) } }
impl ToTree for T423 { fn tree(&self) -> Tree { match self { Self::V0 => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T424 { V0(A), V1, V2 }
impl Gram for T424 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T424 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T425 { V0(A), V1, V2(A) }
impl Gram for T425 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T425 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T426 { V0(A), V1, V2 { a: B, b: A } }
impl Gram for T426 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T426 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T427 { V0(A), V1, V2(Option<A>, C) }
impl Gram for T427 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T427 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T428 { V0(A), V1, V2(Vec<B>) }
impl Gram for T428 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T428 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T429 { V0(A), V1, V2 { a: AB, b: C } }
impl Gram for T429 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T429 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T430 { V0(A), V1, V2() }
impl Gram for T430 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T430 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T431 { V0(A), V1(A), V2 }
impl Gram for T431 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T431 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T432 { V0(A), V1(A), V2(A) }
impl Gram for T432 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T432 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T433 { V0(A), V1(A), V2 { a: B, b: A } }
impl Gram for T433 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T433 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T434 { V0(A), V1(A), V2(Option<A>, C) }
impl Gram for T434 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T434 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T435 { V0(A), V1(A), V2(Vec<B>) }
impl Gram for T435 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T435 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T436 { V0(A), V1(A), V2 { a: AB, b: C } }
impl Gram for T436 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T436 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T437 { V0(A), V1(A), V2() }
impl Gram for T437 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T437 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T438 { V0(A), V1 { a: B, b: A }, V2 }
impl Gram for T438 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T438 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T439 { V0(A), V1 { a: B, b: A }, V2(A) }
impl Gram for T439 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T439 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T440 { V0(A), V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T440 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T440 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T441 { V0(A), V1 { a: B, b: A }, V2(Option<A>, C) }
impl Gram for T441 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T441 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T442 { V0(A), V1 { a: B, b: A }, V2(Vec<B>) }
impl Gram for T442 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T442 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T443 { V0(A), V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T443 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T443 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T444 { V0(A), V1 { a: B, b: A }, V2() }
impl Gram for T444 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T444 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T445 { V0(A), V1(Option<A>, C), V2 }
impl Gram for T445 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T445 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T446 { V0(A), V1(Option<A>, C), V2(A) }
impl Gram for T446 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T446 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T447 { V0(A), V1(Option<A>, C), V2 { a: B, b: A } }
impl Gram for T447 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T447 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T448 { V0(A), V1(Option<A>, C), V2(Option<A>, C) }
impl Gram for T448 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T448 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T449 { V0(A), V1(Option<A>, C), V2(Vec<B>) }
impl Gram for T449 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T449 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T450 { V0(A), V1(Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T450 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T450 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T451 { V0(A), V1(Option<A>, C), V2() }
impl Gram for T451 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T451 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T452 { V0(A), V1(Vec<B>), V2 }
impl Gram for T452 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T452 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T453 { V0(A), V1(Vec<B>), V2(A) }
impl Gram for T453 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T453 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T454 { V0(A), V1(Vec<B>), V2 { a: B, b: A } }
impl Gram for T454 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T454 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T455 { V0(A), V1(Vec<B>), V2(Option<A>, C) }
impl Gram for T455 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T455 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T456 { V0(A), V1(Vec<B>), V2(Vec<B>) }
impl Gram for T456 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T456 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T457 { V0(A), V1(Vec<B>), V2 { a: AB, b: C } }
impl Gram for T457 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T457 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T458 { V0(A), V1(Vec<B>), V2() }
impl Gram for T458 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T458 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T459 { V0(A), V1 { a: AB, b: C }, V2 }
impl Gram for T459 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T459 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T460 { V0(A), V1 { a: AB, b: C }, V2(A) }
impl Gram for T460 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T460 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T461 { V0(A), V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T461 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T461 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T462 { V0(A), V1 { a: AB, b: C }, V2(Option<A>, C) }
impl Gram for T462 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T462 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T463 { V0(A), V1 { a: AB, b: C }, V2(Vec<B>) }
impl Gram for T463 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T463 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T464 { V0(A), V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T464 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T464 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T465 { V0(A), V1 { a: AB, b: C }, V2() }
impl Gram for T465 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T465 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T466 { V0(A), V1(), V2 }
impl Gram for T466 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T466 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T467 { V0(A), V1(), V2(A) }
impl Gram for T467 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T467 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T468 { V0(A), V1(), V2 { a: B, b: A } }
impl Gram for T468 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T468 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T469 { V0(A), V1(), V2(Option<A>, C) }
impl Gram for T469 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T469 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T470 { V0(A), V1(), V2(Vec<B>) }
impl Gram for T470 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T470 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T471 { V0(A), V1(), V2 { a: AB, b: C } }
impl Gram for T471 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T471 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T472 { V0(A), V1(), V2() }
impl Gram for T472 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T472 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T473 { V0 { a: B, b: A }, V1, V2 }
impl Gram for T473 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T473 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T474 { V0 { a: B, b: A }, V1, V2(A) }
impl Gram for T474 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T474 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T475 { V0 { a: B, b: A }, V1, V2 { a: B, b: A } }
impl Gram for T475 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T475 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T476 { V0 { a: B, b: A }, V1, V2(Option<A>, C) }
impl Gram for T476 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T476 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T477 { V0 { a: B, b: A }, V1, V2(Vec<B>) }
impl Gram for T477 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T477 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T478 { V0 { a: B, b: A }, V1, V2 { a: AB, b: C } }
impl Gram for T478 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T478 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T479 { V0 { a: B, b: A }, V1, V2() }
impl Gram for T479 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T479 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T480 { V0 { a: B, b: A }, V1(A), V2 }
impl Gram for T480 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T480 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T481 { V0 { a: B, b: A }, V1(A), V2(A) }
impl Gram for T481 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T481 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T482 { V0 { a: B, b: A }, V1(A), V2 { a: B, b: A } }
impl Gram for T482 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T482 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T483 { V0 { a: B, b: A }, V1(A), V2(Option<A>, C) }
impl Gram for T483 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T483 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T484 { V0 { a: B, b: A }, V1(A), V2(Vec<B>) }
impl Gram for T484 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T484 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T485 { V0 { a: B, b: A }, V1(A), V2 { a: AB, b: C } }
impl Gram for T485 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T485 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T486 { V0 { a: B, b: A }, V1(A), V2() }
impl Gram for T486 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T486 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T487 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2 }
impl Gram for T487 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T487 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T488 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2(A) }
impl Gram for T488 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T488 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T489 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T489 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T489 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T490 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2(Option<A>, C) }
impl Gram for T490 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T490 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T491 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2(Vec<B>) }
impl Gram for T491 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T491 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T492 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T492 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T492 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T493 { V0 { a: B, b: A }, V1 { a: B, b: A }, V2() }
impl Gram for T493 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T493 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T494 { V0 { a: B, b: A }, V1(Option<A>, C), V2 }
impl Gram for T494 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T494 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T495 { V0 { a: B, b: A }, V1(Option<A>, C), V2(A) }
impl Gram for T495 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T495 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T496 { V0 { a: B, b: A }, V1(Option<A>, C), V2 { a: B, b: A } }
impl Gram for T496 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T496 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T497 { V0 { a: B, b: A }, V1(Option<A>, C), V2(Option<A>, C) }
impl Gram for T497 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T497 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T498 { V0 { a: B, b: A }, V1(Option<A>, C), V2(Vec<B>) }
impl Gram for T498 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T498 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T499 { V0 { a: B, b: A }, V1(Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T499 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T499 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T500 { V0 { a: B, b: A }, V1(Option<A>, C), V2() }
impl Gram for T500 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T500 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T501 { V0 { a: B, b: A }, V1(Vec<B>), V2 }
impl Gram for T501 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T501 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T502 { V0 { a: B, b: A }, V1(Vec<B>), V2(A) }
impl Gram for T502 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T502 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T503 { V0 { a: B, b: A }, V1(Vec<B>), V2 { a: B, b: A } }
impl Gram for T503 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T503 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T504 { V0 { a: B, b: A }, V1(Vec<B>), V2(Option<A>, C) }
impl Gram for T504 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T504 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T505 { V0 { a: B, b: A }, V1(Vec<B>), V2(Vec<B>) }
impl Gram for T505 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T505 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T506 { V0 { a: B, b: A }, V1(Vec<B>), V2 { a: AB, b: C } }
impl Gram for T506 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T506 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T507 { V0 { a: B, b: A }, V1(Vec<B>), V2() }
impl Gram for T507 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T507 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T508 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2 }
impl Gram for T508 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T508 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T509 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2(A) }
impl Gram for T509 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T509 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T510 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T510 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T510 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T511 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2(Option<A>, C) }
impl Gram for T511 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T511 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T512 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2(Vec<B>) }
impl Gram for T512 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T512 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T513 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T513 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T513 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T514 { V0 { a: B, b: A }, V1 { a: AB, b: C }, V2() }
impl Gram for T514 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T514 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T515 { V0 { a: B, b: A }, V1(), V2 }
impl Gram for T515 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T515 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T516 { V0 { a: B, b: A }, V1(), V2(A) }
impl Gram for T516 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T516 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T517 { V0 { a: B, b: A }, V1(), V2 { a: B, b: A } }
impl Gram for T517 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T517 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T518 { V0 { a: B, b: A }, V1(), V2(Option<A>, C) }
impl Gram for T518 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T518 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T519 { V0 { a: B, b: A }, V1(), V2(Vec<B>) }
impl Gram for T519 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T519 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T520 { V0 { a: B, b: A }, V1(), V2 { a: AB, b: C } }
impl Gram for T520 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T520 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T521 { V0 { a: B, b: A }, V1(), V2() }
impl Gram for T521 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <A as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T521 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T522 { V0(Option<A>, C), V1, V2 }
impl Gram for T522 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T522 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T523 { V0(Option<A>, C), V1, V2(A) }
impl Gram for T523 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T523 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T524 { V0(Option<A>, C), V1, V2 { a: B, b: A } }
impl Gram for T524 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T524 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T525 { V0(Option<A>, C), V1, V2(Option<A>, C) }
impl Gram for T525 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T525 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T526 { V0(Option<A>, C), V1, V2(Vec<B>) }
impl Gram for T526 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T526 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T527 { V0(Option<A>, C), V1, V2 { a: AB, b: C } }
impl Gram for T527 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T527 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T528 { V0(Option<A>, C), V1, V2() }
impl Gram for T528 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T528 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T529 { V0(Option<A>, C), V1(A), V2 }
impl Gram for T529 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T529 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T530 { V0(Option<A>, C), V1(A), V2(A) }
impl Gram for T530 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T530 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T531 { V0(Option<A>, C), V1(A), V2 { a: B, b: A } }
impl Gram for T531 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T531 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T532 { V0(Option<A>, C), V1(A), V2(Option<A>, C) }
impl Gram for T532 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T532 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T533 { V0(Option<A>, C), V1(A), V2(Vec<B>) }
impl Gram for T533 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T533 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T534 { V0(Option<A>, C), V1(A), V2 { a: AB, b: C } }
impl Gram for T534 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T534 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T535 { V0(Option<A>, C), V1(A), V2() }
impl Gram for T535 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T535 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T536 { V0(Option<A>, C), V1 { a: B, b: A }, V2 }
impl Gram for T536 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T536 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T537 { V0(Option<A>, C), V1 { a: B, b: A }, V2(A) }
impl Gram for T537 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T537 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T538 { V0(Option<A>, C), V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T538 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T538 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T539 { V0(Option<A>, C), V1 { a: B, b: A }, V2(Option<A>, C) }
impl Gram for T539 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T539 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T540 { V0(Option<A>, C), V1 { a: B, b: A }, V2(Vec<B>) }
impl Gram for T540 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T540 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T541 { V0(Option<A>, C), V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T541 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T541 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T542 { V0(Option<A>, C), V1 { a: B, b: A }, V2() }
impl Gram for T542 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T542 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T543 { V0(Option<A>, C), V1(Option<A>, C), V2 }
impl Gram for T543 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T543 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T544 { V0(Option<A>, C), V1(Option<A>, C), V2(A) }
impl Gram for T544 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T544 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T545 { V0(Option<A>, C), V1(Option<A>, C), V2 { a: B, b: A } }
impl Gram for T545 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T545 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T546 { V0(Option<A>, C), V1(Option<A>, C), V2(Option<A>, C) }
impl Gram for T546 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T546 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T547 { V0(Option<A>, C), V1(Option<A>, C), V2(Vec<B>) }
impl Gram for T547 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T547 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T548 { V0(Option<A>, C), V1(Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T548 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T548 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T549 { V0(Option<A>, C), V1(Option<A>, C), V2() }
impl Gram for T549 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T549 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T550 { V0(Option<A>, C), V1(Vec<B>), V2 }
impl Gram for T550 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T550 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T551 { V0(Option<A>, C), V1(Vec<B>), V2(A) }
impl Gram for T551 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T551 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T552 { V0(Option<A>, C), V1(Vec<B>), V2 { a: B, b: A } }
impl Gram for T552 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T552 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T553 { V0(Option<A>, C), V1(Vec<B>), V2(Option<A>, C) }
impl Gram for T553 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T553 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T554 { V0(Option<A>, C), V1(Vec<B>), V2(Vec<B>) }
impl Gram for T554 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T554 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T555 { V0(Option<A>, C), V1(Vec<B>), V2 { a: AB, b: C } }
impl Gram for T555 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T555 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T556 { V0(Option<A>, C), V1(Vec<B>), V2() }
impl Gram for T556 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T556 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T557 { V0(Option<A>, C), V1 { a: AB, b: C }, V2 }
impl Gram for T557 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T557 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T558 { V0(Option<A>, C), V1 { a: AB, b: C }, V2(A) }
impl Gram for T558 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T558 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T559 { V0(Option<A>, C), V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T559 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T559 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T560 { V0(Option<A>, C), V1 { a: AB, b: C }, V2(Option<A>, C) }
impl Gram for T560 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T560 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T561 { V0(Option<A>, C), V1 { a: AB, b: C }, V2(Vec<B>) }
impl Gram for T561 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T561 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T562 { V0(Option<A>, C), V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T562 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T562 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T563 { V0(Option<A>, C), V1 { a: AB, b: C }, V2() }
impl Gram for T563 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T563 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T564 { V0(Option<A>, C), V1(), V2 }
impl Gram for T564 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T564 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T565 { V0(Option<A>, C), V1(), V2(A) }
impl Gram for T565 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T565 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T566 { V0(Option<A>, C), V1(), V2 { a: B, b: A } }
impl Gram for T566 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T566 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T567 { V0(Option<A>, C), V1(), V2(Option<A>, C) }
impl Gram for T567 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T567 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T568 { V0(Option<A>, C), V1(), V2(Vec<B>) }
impl Gram for T568 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T568 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T569 { V0(Option<A>, C), V1(), V2 { a: AB, b: C } }
impl Gram for T569 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T569 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T570 { V0(Option<A>, C), V1(), V2() }
impl Gram for T570 { fn g() -> G { G::Alt(vec![vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T570 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T571 { V0(Vec<B>), V1, V2 }
impl Gram for T571 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T571 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T572 { V0(Vec<B>), V1, V2(A) }
impl Gram for T572 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T572 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T573 { V0(Vec<B>), V1, V2 { a: B, b: A } }
impl Gram for T573 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T573 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T574 { V0(Vec<B>), V1, V2(Option<A>, C) }
impl Gram for T574 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T574 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T575 { V0(Vec<B>), V1, V2(Vec<B>) }
impl Gram for T575 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T575 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T576 { V0(Vec<B>), V1, V2 { a: AB, b: C } }
impl Gram for T576 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T576 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T577 { V0(Vec<B>), V1, V2() }
impl Gram for T577 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T577 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T578 { V0(Vec<B>), V1(A), V2 }
impl Gram for T578 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T578 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T579 { V0(Vec<B>), V1(A), V2(A) }
impl Gram for T579 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T579 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T580 { V0(Vec<B>), V1(A), V2 { a: B, b: A } }
impl Gram for T580 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T580 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T581 { V0(Vec<B>), V1(A), V2(Option<A>, C) }
impl Gram for T581 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T581 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T582 { V0(Vec<B>), V1(A), V2(Vec<B>) }
impl Gram for T582 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T582 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T583 { V0(Vec<B>), V1(A), V2 { a: AB, b: C } }
impl Gram for T583 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T583 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T584 { V0(Vec<B>), V1(A), V2() }
impl Gram for T584 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T584 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T585 { V0(Vec<B>), V1 { a: B, b: A }, V2 }
impl Gram for T585 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T585 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T586 { V0(Vec<B>), V1 { a: B, b: A }, V2(A) }
impl Gram for T586 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T586 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T587 { V0(Vec<B>), V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T587 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T587 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T588 { V0(Vec<B>), V1 { a: B, b: A }, V2(Option<A>, C) }
impl Gram for T588 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T588 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T589 { V0(Vec<B>), V1 { a: B, b: A }, V2(Vec<B>) }
impl Gram for T589 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T589 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T590 { V0(Vec<B>), V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T590 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T590 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T591 { V0(Vec<B>), V1 { a: B, b: A }, V2() }
impl Gram for T591 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T591 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T592 { V0(Vec<B>), V1(Option<A>, C), V2 }
impl Gram for T592 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T592 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T593 { V0(Vec<B>), V1(Option<A>, C), V2(A) }
impl Gram for T593 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T593 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T594 { V0(Vec<B>), V1(Option<A>, C), V2 { a: B, b: A } }
impl Gram for T594 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T594 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T595 { V0(Vec<B>), V1(Option<A>, C), V2(Option<A>, C) }
impl Gram for T595 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T595 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T596 { V0(Vec<B>), V1(Option<A>, C), V2(Vec<B>) }
impl Gram for T596 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T596 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T597 { V0(Vec<B>), V1(Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T597 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T597 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T598 { V0(Vec<B>), V1(Option<A>, C), V2() }
impl Gram for T598 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T598 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T599 { V0(Vec<B>), V1(Vec<B>), V2 }
impl Gram for T599 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T599 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T600 { V0(Vec<B>), V1(Vec<B>), V2(A) }
impl Gram for T600 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T600 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T601 { V0(Vec<B>), V1(Vec<B>), V2 { a: B, b: A } }
impl Gram for T601 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T601 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T602 { V0(Vec<B>), V1(Vec<B>), V2(Option<A>, C) }
impl Gram for T602 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T602 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T603 { V0(Vec<B>), V1(Vec<B>), V2(Vec<B>) }
impl Gram for T603 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T603 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T604 { V0(Vec<B>), V1(Vec<B>), V2 { a: AB, b: C } }
impl Gram for T604 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T604 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T605 { V0(Vec<B>), V1(Vec<B>), V2() }
impl Gram for T605 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T605 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T606 { V0(Vec<B>), V1 { a: AB, b: C }, V2 }
impl Gram for T606 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T606 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T607 { V0(Vec<B>), V1 { a: AB, b: C }, V2(A) }
impl Gram for T607 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T607 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T608 { V0(Vec<B>), V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T608 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T608 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T609 { V0(Vec<B>), V1 { a: AB, b: C }, V2(Option<A>, C) }
impl Gram for T609 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T609 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T610 { V0(Vec<B>), V1 { a: AB, b: C }, V2(Vec<B>) }
impl Gram for T610 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T610 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T611 { V0(Vec<B>), V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T611 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T611 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T612 { V0(Vec<B>), V1 { a: AB, b: C }, V2() }
impl Gram for T612 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T612 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T613 { V0(Vec<B>), V1(), V2 }
impl Gram for T613 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T613 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T614 { V0(Vec<B>), V1(), V2(A) }
impl Gram for T614 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T614 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T615 { V0(Vec<B>), V1(), V2 { a: B, b: A } }
impl Gram for T615 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T615 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T616 { V0(Vec<B>), V1(), V2(Option<A>, C) }
impl Gram for T616 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T616 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T617 { V0(Vec<B>), V1(), V2(Vec<B>) }
impl Gram for T617 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T617 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T618 { V0(Vec<B>), V1(), V2 { a: AB, b: C } }
impl Gram for T618 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T618 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T619 { V0(Vec<B>), V1(), V2() }
impl Gram for T619 { fn g() -> G { G::Alt(vec![vec![<Vec<B> as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T619 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T620 { V0 { a: AB, b: C }, V1, V2 }
impl Gram for T620 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T620 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T621 { V0 { a: AB, b: C }, V1, V2(A) }
impl Gram for T621 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T621 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T622 { V0 { a: AB, b: C }, V1, V2 { a: B, b: A } }
impl Gram for T622 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T622 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T623 { V0 { a: AB, b: C }, V1, V2(Option<A>, C) }
impl Gram for T623 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T623 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T624 { V0 { a: AB, b: C }, V1, V2(Vec<B>) }
impl Gram for T624 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T624 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T625 { V0 { a: AB, b: C }, V1, V2 { a: AB, b: C } }
impl Gram for T625 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T625 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T626 { V0 { a: AB, b: C }, V1, V2() }
impl Gram for T626 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T626 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T627 { V0 { a: AB, b: C }, V1(A), V2 }
impl Gram for T627 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T627 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T628 { V0 { a: AB, b: C }, V1(A), V2(A) }
impl Gram for T628 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T628 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T629 { V0 { a: AB, b: C }, V1(A), V2 { a: B, b: A } }
impl Gram for T629 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T629 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T630 { V0 { a: AB, b: C }, V1(A), V2(Option<A>, C) }
impl Gram for T630 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T630 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T631 { V0 { a: AB, b: C }, V1(A), V2(Vec<B>) }
impl Gram for T631 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T631 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T632 { V0 { a: AB, b: C }, V1(A), V2 { a: AB, b: C } }
impl Gram for T632 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T632 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T633 { V0 { a: AB, b: C }, V1(A), V2() }
impl Gram for T633 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T633 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T634 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2 }
impl Gram for T634 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T634 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T635 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2(A) }
impl Gram for T635 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T635 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T636 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T636 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T636 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T637 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2(Option<A>, C) }
impl Gram for T637 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T637 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T638 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2(Vec<B>) }
impl Gram for T638 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T638 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T639 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T639 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T639 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T640 { V0 { a: AB, b: C }, V1 { a: B, b: A }, V2() }
impl Gram for T640 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T640 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T641 { V0 { a: AB, b: C }, V1(Option<A>, C), V2 }
impl Gram for T641 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T641 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T642 { V0 { a: AB, b: C }, V1(Option<A>, C), V2(A) }
impl Gram for T642 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T642 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T643 { V0 { a: AB, b: C }, V1(Option<A>, C), V2 { a: B, b: A } }
impl Gram for T643 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T643 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T644 { V0 { a: AB, b: C }, V1(Option<A>, C), V2(Option<A>, C) }
impl Gram for T644 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T644 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T645 { V0 { a: AB, b: C }, V1(Option<A>, C), V2(Vec<B>) }
impl Gram for T645 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T645 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T646 { V0 { a: AB, b: C }, V1(Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T646 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T646 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T647 { V0 { a: AB, b: C }, V1(Option<A>, C), V2() }
impl Gram for T647 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T647 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T648 { V0 { a: AB, b: C }, V1(Vec<B>), V2 }
impl Gram for T648 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T648 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T649 { V0 { a: AB, b: C }, V1(Vec<B>), V2(A) }
impl Gram for T649 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T649 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T650 { V0 { a: AB, b: C }, V1(Vec<B>), V2 { a: B, b: A } }
impl Gram for T650 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T650 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T651 { V0 { a: AB, b: C }, V1(Vec<B>), V2(Option<A>, C) }
impl Gram for T651 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T651 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T652 { V0 { a: AB, b: C }, V1(Vec<B>), V2(Vec<B>) }
impl Gram for T652 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T652 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T653 { V0 { a: AB, b: C }, V1(Vec<B>), V2 { a: AB, b: C } }
impl Gram for T653 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T653 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T654 { V0 { a: AB, b: C }, V1(Vec<B>), V2() }
impl Gram for T654 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T654 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T655 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2 }
impl Gram for T655 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T655 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T656 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2(A) }
impl Gram for T656 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T656 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T657 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T657 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T657 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T658 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2(Option<A>, C) }
impl Gram for T658 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T658 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T659 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2(Vec<B>) }
impl Gram for T659 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T659 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T660 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T660 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T660 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T661 { V0 { a: AB, b: C }, V1 { a: AB, b: C }, V2() }
impl Gram for T661 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T661 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T662 { V0 { a: AB, b: C }, V1(), V2 }
impl Gram for T662 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T662 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T663 { V0 { a: AB, b: C }, V1(), V2(A) }
impl Gram for T663 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T663 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T664 { V0 { a: AB, b: C }, V1(), V2 { a: B, b: A } }
impl Gram for T664 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T664 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T665 { V0 { a: AB, b: C }, V1(), V2(Option<A>, C) }
impl Gram for T665 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T665 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T666 { V0 { a: AB, b: C }, V1(), V2(Vec<B>) }
impl Gram for T666 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T666 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T667 { V0 { a: AB, b: C }, V1(), V2 { a: AB, b: C } }
impl Gram for T667 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T667 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T668 { V0 { a: AB, b: C }, V1(), V2() }
impl Gram for T668 { fn g() -> G { G::Alt(vec![vec![<AB as Gram>::g(), <C as Gram>::g()], vec![], vec![]]) } }
impl ToTree for T668 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1() => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T669 { V0(), V1, V2 }
impl Gram for T669 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![]]) } }
impl ToTree for T669 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T670 { V0(), V1, V2(A) }
impl Gram for T670 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T670 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T671 { V0(), V1, V2 { a: B, b: A } }
impl Gram for T671 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T671 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T672 { V0(), V1, V2(Option<A>, C) }
impl Gram for T672 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T672 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T673 { V0(), V1, V2(Vec<B>) }
impl Gram for T673 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T673 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T674 { V0(), V1, V2 { a: AB, b: C } }
impl Gram for T674 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T674 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T675 { V0(), V1, V2() }
impl Gram for T675 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![]]) } }
impl ToTree for T675 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T676 { V0(), V1(A), V2 }
impl Gram for T676 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T676 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T677 { V0(), V1(A), V2(A) }
impl Gram for T677 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T677 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T678 { V0(), V1(A), V2 { a: B, b: A } }
impl Gram for T678 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T678 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T679 { V0(), V1(A), V2(Option<A>, C) }
impl Gram for T679 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T679 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T680 { V0(), V1(A), V2(Vec<B>) }
impl Gram for T680 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T680 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T681 { V0(), V1(A), V2 { a: AB, b: C } }
impl Gram for T681 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T681 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T682 { V0(), V1(A), V2() }
impl Gram for T682 { fn g() -> G { G::Alt(vec![vec![], vec![<A as Gram>::g()], vec![]]) } }
impl ToTree for T682 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T683 { V0(), V1 { a: B, b: A }, V2 }
impl Gram for T683 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T683 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T684 { V0(), V1 { a: B, b: A }, V2(A) }
impl Gram for T684 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T684 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T685 { V0(), V1 { a: B, b: A }, V2 { a: B, b: A } }
impl Gram for T685 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T685 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T686 { V0(), V1 { a: B, b: A }, V2(Option<A>, C) }
impl Gram for T686 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T686 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T687 { V0(), V1 { a: B, b: A }, V2(Vec<B>) }
impl Gram for T687 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T687 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T688 { V0(), V1 { a: B, b: A }, V2 { a: AB, b: C } }
impl Gram for T688 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T688 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T689 { V0(), V1 { a: B, b: A }, V2() }
impl Gram for T689 { fn g() -> G { G::Alt(vec![vec![], vec![<B as Gram>::g(), <A as Gram>::g()], vec![]]) } }
impl ToTree for T689 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T690 { V0(), V1(Option<A>, C), V2 }
impl Gram for T690 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T690 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T691 { V0(), V1(Option<A>, C), V2(A) }
impl Gram for T691 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T691 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T692 { V0(), V1(Option<A>, C), V2 { a: B, b: A } }
impl Gram for T692 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T692 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T693 { V0(), V1(Option<A>, C), V2(Option<A>, C) }
impl Gram for T693 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T693 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T694 { V0(), V1(Option<A>, C), V2(Vec<B>) }
impl Gram for T694 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T694 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T695 { V0(), V1(Option<A>, C), V2 { a: AB, b: C } }
impl Gram for T695 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T695 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T696 { V0(), V1(Option<A>, C), V2() }
impl Gram for T696 { fn g() -> G { G::Alt(vec![vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T696 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T697 { V0(), V1(Vec<B>), V2 }
impl Gram for T697 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T697 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T698 { V0(), V1(Vec<B>), V2(A) }
impl Gram for T698 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T698 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T699 { V0(), V1(Vec<B>), V2 { a: B, b: A } }
impl Gram for T699 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T699 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T700 { V0(), V1(Vec<B>), V2(Option<A>, C) }
impl Gram for T700 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T700 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T701 { V0(), V1(Vec<B>), V2(Vec<B>) }
impl Gram for T701 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T701 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T702 { V0(), V1(Vec<B>), V2 { a: AB, b: C } }
impl Gram for T702 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T702 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T703 { V0(), V1(Vec<B>), V2() }
impl Gram for T703 { fn g() -> G { G::Alt(vec![vec![], vec![<Vec<B> as Gram>::g()], vec![]]) } }
impl ToTree for T703 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T704 { V0(), V1 { a: AB, b: C }, V2 }
impl Gram for T704 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T704 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T705 { V0(), V1 { a: AB, b: C }, V2(A) }
impl Gram for T705 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T705 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T706 { V0(), V1 { a: AB, b: C }, V2 { a: B, b: A } }
impl Gram for T706 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T706 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T707 { V0(), V1 { a: AB, b: C }, V2(Option<A>, C) }
impl Gram for T707 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T707 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T708 { V0(), V1 { a: AB, b: C }, V2(Vec<B>) }
impl Gram for T708 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T708 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T709 { V0(), V1 { a: AB, b: C }, V2 { a: AB, b: C } }
impl Gram for T709 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T709 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T710 { V0(), V1 { a: AB, b: C }, V2() }
impl Gram for T710 { fn g() -> G { G::Alt(vec![vec![], vec![<AB as Gram>::g(), <C as Gram>::g()], vec![]]) } }
impl ToTree for T710 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T711 { V0(), V1(), V2 }
impl Gram for T711 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![]]) } }
impl ToTree for T711 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2 => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T712 { V0(), V1(), V2(A) }
impl Gram for T712 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<A as Gram>::g()]]) } }
impl ToTree for T712 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T713 { V0(), V1(), V2 { a: B, b: A } }
impl Gram for T713 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<B as Gram>::g(), <A as Gram>::g()]]) } }
impl ToTree for T713 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T714 { V0(), V1(), V2(Option<A>, C) }
impl Gram for T714 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<Option<A> as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T714 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T715 { V0(), V1(), V2(Vec<B>) }
impl Gram for T715 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<Vec<B> as Gram>::g()]]) } }
impl ToTree for T715 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T716 { V0(), V1(), V2 { a: AB, b: C } }
impl Gram for T716 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![<AB as Gram>::g(), <C as Gram>::g()]]) } }
impl ToTree for T716 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T717 { V0(), V1(), V2() }
impl Gram for T717 { fn g() -> G { G::Alt(vec![vec![], vec![], vec![]]) } }
impl ToTree for T717 { fn tree(&self) -> Tree { match self { Self::V0() => Tree::Var(0, vec![]), Self::V1() => Tree::Var(1, vec![]), Self::V2() => Tree::Var(2, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T718 { V0 { a: A, b: B }, V1(B, Option<A>), V2 { a: C }, V3(D, AB) }
impl Gram for T718 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T718 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T719 { V0 { a: A, b: B }, V1(B, Option<A>), V2(D, AB), V3 { a: C } }
impl Gram for T719 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T719 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T720 { V0 { a: A, b: B }, V1 { a: C }, V2(B, Option<A>), V3(D, AB) }
impl Gram for T720 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T720 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T721 { V0 { a: A, b: B }, V1 { a: C }, V2(D, AB), V3(B, Option<A>) }
impl Gram for T721 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T721 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T722 { V0 { a: A, b: B }, V1(D, AB), V2(B, Option<A>), V3 { a: C } }
impl Gram for T722 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T722 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T723 { V0 { a: A, b: B }, V1(D, AB), V2 { a: C }, V3(B, Option<A>) }
impl Gram for T723 { fn g() -> G { G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T723 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T724 { V0(B, Option<A>), V1 { a: A, b: B }, V2 { a: C }, V3(D, AB) }
impl Gram for T724 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T724 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T725 { V0(B, Option<A>), V1 { a: A, b: B }, V2(D, AB), V3 { a: C } }
impl Gram for T725 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T725 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T726 { V0(B, Option<A>), V1 { a: C }, V2 { a: A, b: B }, V3(D, AB) }
impl Gram for T726 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T726 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T727 { V0(B, Option<A>), V1 { a: C }, V2(D, AB), V3 { a: A, b: B } }
impl Gram for T727 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T727 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T728 { V0(B, Option<A>), V1(D, AB), V2 { a: A, b: B }, V3 { a: C } }
impl Gram for T728 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T728 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T729 { V0(B, Option<A>), V1(D, AB), V2 { a: C }, V3 { a: A, b: B } }
impl Gram for T729 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T729 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T730 { V0 { a: C }, V1 { a: A, b: B }, V2(B, Option<A>), V3(D, AB) }
impl Gram for T730 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T730 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T731 { V0 { a: C }, V1 { a: A, b: B }, V2(D, AB), V3(B, Option<A>) }
impl Gram for T731 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T731 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T732 { V0 { a: C }, V1(B, Option<A>), V2 { a: A, b: B }, V3(D, AB) }
impl Gram for T732 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()]]) } }
impl ToTree for T732 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T733 { V0 { a: C }, V1(B, Option<A>), V2(D, AB), V3 { a: A, b: B } }
impl Gram for T733 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T733 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T734 { V0 { a: C }, V1(D, AB), V2 { a: A, b: B }, V3(B, Option<A>) }
impl Gram for T734 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T734 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T735 { V0 { a: C }, V1(D, AB), V2(B, Option<A>), V3 { a: A, b: B } }
impl Gram for T735 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T735 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T736 { V0(D, AB), V1 { a: A, b: B }, V2(B, Option<A>), V3 { a: C } }
impl Gram for T736 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T736 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T737 { V0(D, AB), V1 { a: A, b: B }, V2 { a: C }, V3(B, Option<A>) }
impl Gram for T737 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T737 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T738 { V0(D, AB), V1(B, Option<A>), V2 { a: A, b: B }, V3 { a: C } }
impl Gram for T738 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T738 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0 } => Tree::Var(3, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T739 { V0(D, AB), V1(B, Option<A>), V2 { a: C }, V3 { a: A, b: B } }
impl Gram for T739 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T739 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), Self::V2 { a: f0 } => Tree::Var(2, vec![f0.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T740 { V0(D, AB), V1 { a: C }, V2 { a: A, b: B }, V3(B, Option<A>) }
impl Gram for T740 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()]]) } }
impl ToTree for T740 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2 { a: f0, b: f1 } => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3(f0, f1) => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T741 { V0(D, AB), V1 { a: C }, V2(B, Option<A>), V3 { a: A, b: B } }
impl Gram for T741 { fn g() -> G { G::Alt(vec![vec![<D as Gram>::g(), <AB as Gram>::g()], vec![<C as Gram>::g()], vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g(), <B as Gram>::g()]]) } }
impl ToTree for T741 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), Self::V2(f0, f1) => Tree::Var(2, vec![f0.tree(), f1.tree()]), Self::V3 { a: f0, b: f1 } => Tree::Var(3, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T742 { V0(TokenPrefix<A, A>), V1(TokenPrefix<A, B>), V2(TokenPrefix<A, A>), V3(TokenPrefix<A, B>), V4 { a: C } }
impl Gram for T742 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T742 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), Self::V3(f0) => Tree::Var(3, vec![f0.tree()]), Self::V4 { a: f0 } => Tree::Var(4, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T743 { V0(TokenPrefix<A, A>), V1(TokenPrefix<A, B>), V2(TokenPrefix<A, A>), V3(TokenPrefix<A, B>), V4(TokenPrefix<A, A>), V5(TokenPrefix<A, B>), V6(TokenPrefix<A, A>), V7 { a: C } }
impl Gram for T743 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T743 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), Self::V3(f0) => Tree::Var(3, vec![f0.tree()]), Self::V4(f0) => Tree::Var(4, vec![f0.tree()]), Self::V5(f0) => Tree::Var(5, vec![f0.tree()]), Self::V6(f0) => Tree::Var(6, vec![f0.tree()]), Self::V7 { a: f0 } => Tree::Var(7, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T744 { V0(TokenPrefix<A, A>), V1(TokenPrefix<A, B>), V2(TokenPrefix<A, A>), V3(TokenPrefix<A, B>), V4(TokenPrefix<A, A>), V5(TokenPrefix<A, B>), V6(TokenPrefix<A, A>), V7(TokenPrefix<A, B>), V8(TokenPrefix<A, A>), V9(TokenPrefix<A, B>), V10(TokenPrefix<A, A>), V11(TokenPrefix<A, B>), V12(TokenPrefix<A, A>), V13(TokenPrefix<A, B>), V14(TokenPrefix<A, A>), V15 { a: C } }
impl Gram for T744 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T744 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), Self::V2(f0) => Tree::Var(2, vec![f0.tree()]), Self::V3(f0) => Tree::Var(3, vec![f0.tree()]), Self::V4(f0) => Tree::Var(4, vec![f0.tree()]), Self::V5(f0) => Tree::Var(5, vec![f0.tree()]), Self::V6(f0) => Tree::Var(6, vec![f0.tree()]), Self::V7(f0) => Tree::Var(7, vec![f0.tree()]), Self::V8(f0) => Tree::Var(8, vec![f0.tree()]), Self::V9(f0) => Tree::Var(9, vec![f0.tree()]), Self::V10(f0) => Tree::Var(10, vec![f0.tree()]), Self::V11(f0) => Tree::Var(11, vec![f0.tree()]), Self::V12(f0) => Tree::Var(12, vec![f0.tree()]), Self::V13(f0) => Tree::Var(13, vec![f0.tree()]), Self::V14(f0) => Tree::Var(14, vec![f0.tree()]), Self::V15 { a: f0 } => Tree::Var(15, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T745 { V0(C), V1(C) }
impl Gram for T745 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T745 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T746 { V0(C), V1(Box<B>) }
impl Gram for T746 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T746 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T747 { V0(C), V1(Option<Vec<C>>) }
impl Gram for T747 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<Option<Vec<C>> as Gram>::g()]]) } }
impl ToTree for T747 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T748 { V0(C), V1(TokenPrefix<A, B>) }
impl Gram for T748 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T748 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T749 { V0(C), V1(OptPrefix<B, C>) }
impl Gram for T749 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T749 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T750 { V0(C), V1(NonEmptySeq<A>) }
impl Gram for T750 { fn g() -> G { G::Alt(vec![vec![<C as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T750 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T751 { V0(Box<B>), V1(C) }
impl Gram for T751 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T751 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T752 { V0(Box<B>), V1(Box<B>) }
impl Gram for T752 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T752 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T753 { V0(Box<B>), V1(Option<Vec<C>>) }
impl Gram for T753 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<Option<Vec<C>> as Gram>::g()]]) } }
impl ToTree for T753 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T754 { V0(Box<B>), V1(TokenPrefix<A, B>) }
impl Gram for T754 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T754 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T755 { V0(Box<B>), V1(OptPrefix<B, C>) }
impl Gram for T755 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T755 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T756 { V0(Box<B>), V1(NonEmptySeq<A>) }
impl Gram for T756 { fn g() -> G { G::Alt(vec![vec![<Box<B> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T756 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T757 { V0(Option<Vec<C>>), V1(C) }
impl Gram for T757 { fn g() -> G { G::Alt(vec![vec![<Option<Vec<C>> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T757 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T758 { V0(Option<Vec<C>>), V1(Box<B>) }
impl Gram for T758 { fn g() -> G { G::Alt(vec![vec![<Option<Vec<C>> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T758 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T759 { V0(Option<Vec<C>>), V1(Option<Vec<C>>) }
impl Gram for T759 { fn g() -> G { G::Alt(vec![vec![<Option<Vec<C>> as Gram>::g()], vec![<Option<Vec<C>> as Gram>::g()]]) } }
impl ToTree for T759 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T760 { V0(Option<Vec<C>>), V1(TokenPrefix<A, B>) }
impl Gram for T760 { fn g() -> G { G::Alt(vec![vec![<Option<Vec<C>> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T760 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T761 { V0(Option<Vec<C>>), V1(OptPrefix<B, C>) }
impl Gram for T761 { fn g() -> G { G::Alt(vec![vec![<Option<Vec<C>> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T761 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T762 { V0(Option<Vec<C>>), V1(NonEmptySeq<A>) }
impl Gram for T762 { fn g() -> G { G::Alt(vec![vec![<Option<Vec<C>> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T762 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T763 { V0(TokenPrefix<A, B>), V1(C) }
impl Gram for T763 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T763 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T764 { V0(TokenPrefix<A, B>), V1(Box<B>) }
impl Gram for T764 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T764 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T765 { V0(TokenPrefix<A, B>), V1(Option<Vec<C>>) }
impl Gram for T765 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<Option<Vec<C>> as Gram>::g()]]) } }
impl ToTree for T765 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T766 { V0(TokenPrefix<A, B>), V1(TokenPrefix<A, B>) }
impl Gram for T766 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T766 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T767 { V0(TokenPrefix<A, B>), V1(OptPrefix<B, C>) }
impl Gram for T767 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T767 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T768 { V0(TokenPrefix<A, B>), V1(NonEmptySeq<A>) }
impl Gram for T768 { fn g() -> G { G::Alt(vec![vec![<TokenPrefix<A, B> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T768 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T769 { V0(OptPrefix<B, C>), V1(C) }
impl Gram for T769 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T769 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T770 { V0(OptPrefix<B, C>), V1(Box<B>) }
impl Gram for T770 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T770 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T771 { V0(OptPrefix<B, C>), V1(Option<Vec<C>>) }
impl Gram for T771 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<Option<Vec<C>> as Gram>::g()]]) } }
impl ToTree for T771 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T772 { V0(OptPrefix<B, C>), V1(TokenPrefix<A, B>) }
impl Gram for T772 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T772 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T773 { V0(OptPrefix<B, C>), V1(OptPrefix<B, C>) }
impl Gram for T773 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T773 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T774 { V0(OptPrefix<B, C>), V1(NonEmptySeq<A>) }
impl Gram for T774 { fn g() -> G { G::Alt(vec![vec![<OptPrefix<B, C> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T774 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T775 { V0(NonEmptySeq<A>), V1(C) }
impl Gram for T775 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<C as Gram>::g()]]) } }
impl ToTree for T775 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T776 { V0(NonEmptySeq<A>), V1(Box<B>) }
impl Gram for T776 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<Box<B> as Gram>::g()]]) } }
impl ToTree for T776 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T777 { V0(NonEmptySeq<A>), V1(Option<Vec<C>>) }
impl Gram for T777 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<Option<Vec<C>> as Gram>::g()]]) } }
impl ToTree for T777 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T778 { V0(NonEmptySeq<A>), V1(TokenPrefix<A, B>) }
impl Gram for T778 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<TokenPrefix<A, B> as Gram>::g()]]) } }
impl ToTree for T778 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T779 { V0(NonEmptySeq<A>), V1(OptPrefix<B, C>) }
impl Gram for T779 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<OptPrefix<B, C> as Gram>::g()]]) } }
impl ToTree for T779 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum T780 { V0(NonEmptySeq<A>), V1(NonEmptySeq<A>) }
impl Gram for T780 { fn g() -> G { G::Alt(vec![vec![<NonEmptySeq<A> as Gram>::g()], vec![<NonEmptySeq<A> as Gram>::g()]]) } }
impl ToTree for T780 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A)]
pub struct T781  { a: A, b: B }
impl Gram for T781 { fn g() -> G { G::Starts(vec![kinds::<A>()], Box::new(G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]))) } }
impl ToTree for T781 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A)]
pub struct T782 (Option<A>, Vec<B>, C) ;
impl Gram for T782 { fn g() -> G { G::Starts(vec![kinds::<A>()], Box::new(G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]))) } }
impl ToTree for T782 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A)]
pub struct T783  ;
impl Gram for T783 { fn g() -> G { G::Starts(vec![kinds::<A>()], Box::new(G::Seq(vec![]))) } }
impl ToTree for T783 { fn tree(&self) -> Tree { let Self = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A)]
pub enum T784 { V0(A, B), V1 { a: B } }
impl Gram for T784 { fn g() -> G { G::Starts(vec![kinds::<A>()], Box::new(G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]))) } }
impl ToTree for T784 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A)]
pub enum T785 { V0(Option<A>), V1 }
impl Gram for T785 { fn g() -> G { G::Starts(vec![kinds::<A>()], Box::new(G::Alt(vec![vec![<Option<A> as Gram>::g()], vec![]]))) } }
impl ToTree for T785 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B)]
pub struct T786  { a: A, b: B }
impl Gram for T786 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>()], Box::new(G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]))) } }
impl ToTree for T786 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B)]
pub struct T787 (Option<A>, Vec<B>, C) ;
impl Gram for T787 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>()], Box::new(G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]))) } }
impl ToTree for T787 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B)]
pub struct T788  ;
impl Gram for T788 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>()], Box::new(G::Seq(vec![]))) } }
impl ToTree for T788 { fn tree(&self) -> Tree { let Self = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B)]
pub enum T789 { V0(A, B), V1 { a: B } }
impl Gram for T789 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>()], Box::new(G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]))) } }
impl ToTree for T789 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B)]
pub enum T790 { V0(Option<A>), V1 }
impl Gram for T790 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>()], Box::new(G::Alt(vec![vec![<Option<A> as Gram>::g()], vec![]]))) } }
impl ToTree for T790 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(AB, A)]
pub struct T791  { a: A, b: B }
impl Gram for T791 { fn g() -> G { G::Starts(vec![kinds::<AB>(), kinds::<A>()], Box::new(G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]))) } }
impl ToTree for T791 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(AB, A)]
pub struct T792 (Option<A>, Vec<B>, C) ;
impl Gram for T792 { fn g() -> G { G::Starts(vec![kinds::<AB>(), kinds::<A>()], Box::new(G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]))) } }
impl ToTree for T792 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(AB, A)]
pub struct T793  ;
impl Gram for T793 { fn g() -> G { G::Starts(vec![kinds::<AB>(), kinds::<A>()], Box::new(G::Seq(vec![]))) } }
impl ToTree for T793 { fn tree(&self) -> Tree { let Self = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(AB, A)]
pub enum T794 { V0(A, B), V1 { a: B } }
impl Gram for T794 { fn g() -> G { G::Starts(vec![kinds::<AB>(), kinds::<A>()], Box::new(G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]))) } }
impl ToTree for T794 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(AB, A)]
pub enum T795 { V0(Option<A>), V1 }
impl Gram for T795 { fn g() -> G { G::Starts(vec![kinds::<AB>(), kinds::<A>()], Box::new(G::Alt(vec![vec![<Option<A> as Gram>::g()], vec![]]))) } }
impl ToTree for T795 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, AB, C)]
pub struct T796  { a: A, b: B }
impl Gram for T796 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<AB>(), kinds::<C>()], Box::new(G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]))) } }
impl ToTree for T796 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, AB, C)]
pub struct T797 (Option<A>, Vec<B>, C) ;
impl Gram for T797 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<AB>(), kinds::<C>()], Box::new(G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]))) } }
impl ToTree for T797 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, AB, C)]
pub struct T798  ;
impl Gram for T798 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<AB>(), kinds::<C>()], Box::new(G::Seq(vec![]))) } }
impl ToTree for T798 { fn tree(&self) -> Tree { let Self = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, AB, C)]
pub enum T799 { V0(A, B), V1 { a: B } }
impl Gram for T799 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<AB>(), kinds::<C>()], Box::new(G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]))) } }
impl ToTree for T799 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, AB, C)]
pub enum T800 { V0(Option<A>), V1 }
impl Gram for T800 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<AB>(), kinds::<C>()], Box::new(G::Alt(vec![vec![<Option<A> as Gram>::g()], vec![]]))) } }
impl ToTree for T800 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B, C, D)]
pub struct T801  { a: A, b: B }
impl Gram for T801 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>(), kinds::<C>(), kinds::<D>()], Box::new(G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]))) } }
impl ToTree for T801 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B, C, D)]
pub struct T802 (Option<A>, Vec<B>, C) ;
impl Gram for T802 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>(), kinds::<C>(), kinds::<D>()], Box::new(G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]))) } }
impl ToTree for T802 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B, C, D)]
pub struct T803  ;
impl Gram for T803 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>(), kinds::<C>(), kinds::<D>()], Box::new(G::Seq(vec![]))) } }
impl ToTree for T803 { fn tree(&self) -> Tree { let Self = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B, C, D)]
pub enum T804 { V0(A, B), V1 { a: B } }
impl Gram for T804 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>(), kinds::<C>(), kinds::<D>()], Box::new(G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]))) } }
impl ToTree for T804 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(A, B, C, D)]
pub enum T805 { V0(Option<A>), V1 }
impl Gram for T805 { fn g() -> G { G::Starts(vec![kinds::<A>(), kinds::<B>(), kinds::<C>(), kinds::<D>()], Box::new(G::Alt(vec![vec![<Option<A> as Gram>::g()], vec![]]))) } }
impl ToTree for T805 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(B)]
pub struct T806  { a: A, b: B }
impl Gram for T806 { fn g() -> G { G::Starts(vec![kinds::<B>()], Box::new(G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]))) } }
impl ToTree for T806 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(B)]
pub struct T807 (Option<A>, Vec<B>, C) ;
impl Gram for T807 { fn g() -> G { G::Starts(vec![kinds::<B>()], Box::new(G::Seq(vec![<Option<A> as Gram>::g(), <Vec<B> as Gram>::g(), <C as Gram>::g()]))) } }
impl ToTree for T807 { fn tree(&self) -> Tree { let Self(f0, f1, f2) = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(B)]
pub struct T808  ;
impl Gram for T808 { fn g() -> G { G::Starts(vec![kinds::<B>()], Box::new(G::Seq(vec![]))) } }
impl ToTree for T808 { fn tree(&self) -> Tree { let Self = self; Tree::List(vec![]) } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(B)]
pub enum T809 { V0(A, B), V1 { a: B } }
impl Gram for T809 { fn g() -> G { G::Starts(vec![kinds::<B>()], Box::new(G::Alt(vec![vec![<A as Gram>::g(), <B as Gram>::g()], vec![<B as Gram>::g()]]))) } }
impl ToTree for T809 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0 } => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
#[starts_with(B)]
pub enum T810 { V0(Option<A>), V1 }
impl Gram for T810 { fn g() -> G { G::Starts(vec![kinds::<B>()], Box::new(G::Alt(vec![vec![<Option<A> as Gram>::g()], vec![]]))) } }
impl ToTree for T810 { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 => Tree::Var(1, vec![]), } } }

/// Documented {with braces}.
#[derive(Clone)]
#[allow(dead_code)]
#[derive(Parse)]
#[token(Tok)]
pub struct T811  { r#type: A, r#fn: Option<A>, tokens: B }
impl Gram for T811 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <Option<A> as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T811 { fn tree(&self) -> Tree { let Self { r#type: f0, r#fn: f1, tokens: f2 } = self; Tree::List(vec![f0.tree(), f1.tree(), f2.tree()]) } }

#[doc = "more"]
#[repr(u8)]
#[derive(Parse)]
#[token(Tok)]
pub enum T812 { r#Some { r#type: B, r#fn: Option<A> }, r#None(A) }
impl Gram for T812 { fn g() -> G { G::Alt(vec![vec![<B as Gram>::g(), <Option<A> as Gram>::g()], vec![<A as Gram>::g()]]) } }
impl ToTree for T812 { fn tree(&self) -> Tree { match self { Self::r#Some { r#type: f0, r#fn: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::r#None(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(laps::token::Token<Kind>)]
pub struct T813  { a: A, b: B }
impl Gram for T813 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T813 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(crate::model::Tok)]
pub struct T814  { a: A, b: B }
impl Gram for T814 { fn g() -> G { G::Seq(vec![<A as Gram>::g(), <B as Gram>::g()]) } }
impl ToTree for T814 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T815  { a: T3, b: T320 }
impl Gram for T815 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T815 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T816 (Option<T3>, T320) ;
impl Gram for T816 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T816 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T817 { V0(T320, B), V1 { a: Vec<T3>, b: Box<T320> } }
impl Gram for T817 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T817 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T818  { a: T3, b: T335 }
impl Gram for T818 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T818 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T819 (Option<T3>, T335) ;
impl Gram for T819 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T819 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T820 { V0(T335, B), V1 { a: Vec<T3>, b: Box<T335> } }
impl Gram for T820 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T820 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T821  { a: T3, b: T343 }
impl Gram for T821 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T821 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T822 (Option<T3>, T343) ;
impl Gram for T822 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T822 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T823 { V0(T343, B), V1 { a: Vec<T3>, b: Box<T343> } }
impl Gram for T823 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T823 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T824  { a: T3, b: T352 }
impl Gram for T824 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T824 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T825 (Option<T3>, T352) ;
impl Gram for T825 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T825 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T826 { V0(T352, B), V1 { a: Vec<T3>, b: Box<T352> } }
impl Gram for T826 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T826 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T827  { a: T3, b: T432 }
impl Gram for T827 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T827 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T828 (Option<T3>, T432) ;
impl Gram for T828 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T828 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T829 { V0(T432, B), V1 { a: Vec<T3>, b: Box<T432> } }
impl Gram for T829 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T829 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T830  { a: T3, b: T440 }
impl Gram for T830 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T830 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T831 (Option<T3>, T440) ;
impl Gram for T831 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T831 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T832 { V0(T440, B), V1 { a: Vec<T3>, b: Box<T440> } }
impl Gram for T832 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T832 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T833  { a: T3, b: T448 }
impl Gram for T833 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T833 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T834 (Option<T3>, T448) ;
impl Gram for T834 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T834 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T835 { V0(T448, B), V1 { a: Vec<T3>, b: Box<T448> } }
impl Gram for T835 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T835 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T836  { a: T3, b: T464 }
impl Gram for T836 { fn g() -> G { G::Seq(vec![<T3 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T836 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T837 (Option<T3>, T464) ;
impl Gram for T837 { fn g() -> G { G::Seq(vec![<Option<T3> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T837 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T838 { V0(T464, B), V1 { a: Vec<T3>, b: Box<T464> } }
impl Gram for T838 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T3> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T838 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T839  { a: T57, b: T320 }
impl Gram for T839 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T839 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T840 (Option<T57>, T320) ;
impl Gram for T840 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T840 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T841 { V0(T320, B), V1 { a: Vec<T57>, b: Box<T320> } }
impl Gram for T841 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T841 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T842  { a: T57, b: T335 }
impl Gram for T842 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T842 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T843 (Option<T57>, T335) ;
impl Gram for T843 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T843 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T844 { V0(T335, B), V1 { a: Vec<T57>, b: Box<T335> } }
impl Gram for T844 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T844 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T845  { a: T57, b: T343 }
impl Gram for T845 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T845 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T846 (Option<T57>, T343) ;
impl Gram for T846 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T846 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T847 { V0(T343, B), V1 { a: Vec<T57>, b: Box<T343> } }
impl Gram for T847 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T847 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T848  { a: T57, b: T352 }
impl Gram for T848 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T848 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T849 (Option<T57>, T352) ;
impl Gram for T849 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T849 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T850 { V0(T352, B), V1 { a: Vec<T57>, b: Box<T352> } }
impl Gram for T850 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T850 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T851  { a: T57, b: T432 }
impl Gram for T851 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T851 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T852 (Option<T57>, T432) ;
impl Gram for T852 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T852 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T853 { V0(T432, B), V1 { a: Vec<T57>, b: Box<T432> } }
impl Gram for T853 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T853 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T854  { a: T57, b: T440 }
impl Gram for T854 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T854 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T855 (Option<T57>, T440) ;
impl Gram for T855 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T855 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T856 { V0(T440, B), V1 { a: Vec<T57>, b: Box<T440> } }
impl Gram for T856 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T856 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T857  { a: T57, b: T448 }
impl Gram for T857 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T857 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T858 (Option<T57>, T448) ;
impl Gram for T858 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T858 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T859 { V0(T448, B), V1 { a: Vec<T57>, b: Box<T448> } }
impl Gram for T859 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T859 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T860  { a: T57, b: T464 }
impl Gram for T860 { fn g() -> G { G::Seq(vec![<T57 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T860 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T861 (Option<T57>, T464) ;
impl Gram for T861 { fn g() -> G { G::Seq(vec![<Option<T57> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T861 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T862 { V0(T464, B), V1 { a: Vec<T57>, b: Box<T464> } }
impl Gram for T862 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T57> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T862 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T863  { a: T99, b: T320 }
impl Gram for T863 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T863 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T864 (Option<T99>, T320) ;
impl Gram for T864 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T864 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T865 { V0(T320, B), V1 { a: Vec<T99>, b: Box<T320> } }
impl Gram for T865 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T865 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T866  { a: T99, b: T335 }
impl Gram for T866 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T866 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T867 (Option<T99>, T335) ;
impl Gram for T867 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T867 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T868 { V0(T335, B), V1 { a: Vec<T99>, b: Box<T335> } }
impl Gram for T868 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T868 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T869  { a: T99, b: T343 }
impl Gram for T869 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T869 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T870 (Option<T99>, T343) ;
impl Gram for T870 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T870 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T871 { V0(T343, B), V1 { a: Vec<T99>, b: Box<T343> } }
impl Gram for T871 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T871 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T872  { a: T99, b: T352 }
impl Gram for T872 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T872 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T873 (Option<T99>, T352) ;
impl Gram for T873 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T873 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T874 { V0(T352, B), V1 { a: Vec<T99>, b: Box<T352> } }
impl Gram for T874 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T874 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T875  { a: T99, b: T432 }
impl Gram for T875 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T875 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T876 (Option<T99>, T432) ;
impl Gram for T876 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T876 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T877 { V0(T432, B), V1 { a: Vec<T99>, b: Box<T432> } }
impl Gram for T877 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T877 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T878  { a: T99, b: T440 }
impl Gram for T878 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T878 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T879 (Option<T99>, T440) ;
impl Gram for T879 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T879 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T880 { V0(T440, B), V1 { a: Vec<T99>, b: Box<T440> } }
impl Gram for T880 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T880 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T881  { a: T99, b: T448 }
impl Gram for T881 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T881 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T882 (Option<T99>, T448) ;
impl Gram for T882 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T882 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T883 { V0(T448, B), V1 { a: Vec<T99>, b: Box<T448> } }
impl Gram for T883 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T883 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T884  { a: T99, b: T464 }
impl Gram for T884 { fn g() -> G { G::Seq(vec![<T99 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T884 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T885 (Option<T99>, T464) ;
impl Gram for T885 { fn g() -> G { G::Seq(vec![<Option<T99> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T885 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T886 { V0(T464, B), V1 { a: Vec<T99>, b: Box<T464> } }
impl Gram for T886 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T99> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T886 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T887  { a: T141, b: T320 }
impl Gram for T887 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T887 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T888 (Option<T141>, T320) ;
impl Gram for T888 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T888 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T889 { V0(T320, B), V1 { a: Vec<T141>, b: Box<T320> } }
impl Gram for T889 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T889 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T890  { a: T141, b: T335 }
impl Gram for T890 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T890 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T891 (Option<T141>, T335) ;
impl Gram for T891 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T891 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T892 { V0(T335, B), V1 { a: Vec<T141>, b: Box<T335> } }
impl Gram for T892 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T892 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T893  { a: T141, b: T343 }
impl Gram for T893 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T893 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T894 (Option<T141>, T343) ;
impl Gram for T894 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T894 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T895 { V0(T343, B), V1 { a: Vec<T141>, b: Box<T343> } }
impl Gram for T895 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T895 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T896  { a: T141, b: T352 }
impl Gram for T896 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T896 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T897 (Option<T141>, T352) ;
impl Gram for T897 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T897 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T898 { V0(T352, B), V1 { a: Vec<T141>, b: Box<T352> } }
impl Gram for T898 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T898 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T899  { a: T141, b: T432 }
impl Gram for T899 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T899 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T900 (Option<T141>, T432) ;
impl Gram for T900 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T900 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T901 { V0(T432, B), V1 { a: Vec<T141>, b: Box<T432> } }
impl Gram for T901 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T901 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T902  { a: T141, b: T440 }
impl Gram for T902 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T902 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T903 (Option<T141>, T440) ;
impl Gram for T903 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T903 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T904 { V0(T440, B), V1 { a: Vec<T141>, b: Box<T440> } }
impl Gram for T904 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T904 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T905  { a: T141, b: T448 }
impl Gram for T905 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T905 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T906 (Option<T141>, T448) ;
impl Gram for T906 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T906 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T907 { V0(T448, B), V1 { a: Vec<T141>, b: Box<T448> } }
impl Gram for T907 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T907 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T908  { a: T141, b: T464 }
impl Gram for T908 { fn g() -> G { G::Seq(vec![<T141 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T908 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T909 (Option<T141>, T464) ;
impl Gram for T909 { fn g() -> G { G::Seq(vec![<Option<T141> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T909 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T910 { V0(T464, B), V1 { a: Vec<T141>, b: Box<T464> } }
impl Gram for T910 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T141> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T910 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T911  { a: T192, b: T320 }
impl Gram for T911 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T911 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T912 (Option<T192>, T320) ;
impl Gram for T912 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T912 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T913 { V0(T320, B), V1 { a: Vec<T192>, b: Box<T320> } }
impl Gram for T913 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T913 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T914  { a: T192, b: T335 }
impl Gram for T914 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T914 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T915 (Option<T192>, T335) ;
impl Gram for T915 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T915 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T916 { V0(T335, B), V1 { a: Vec<T192>, b: Box<T335> } }
impl Gram for T916 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T916 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T917  { a: T192, b: T343 }
impl Gram for T917 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T917 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T918 (Option<T192>, T343) ;
impl Gram for T918 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T918 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T919 { V0(T343, B), V1 { a: Vec<T192>, b: Box<T343> } }
impl Gram for T919 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T919 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T920  { a: T192, b: T352 }
impl Gram for T920 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T920 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T921 (Option<T192>, T352) ;
impl Gram for T921 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T921 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T922 { V0(T352, B), V1 { a: Vec<T192>, b: Box<T352> } }
impl Gram for T922 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T922 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T923  { a: T192, b: T432 }
impl Gram for T923 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T923 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T924 (Option<T192>, T432) ;
impl Gram for T924 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T924 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T925 { V0(T432, B), V1 { a: Vec<T192>, b: Box<T432> } }
impl Gram for T925 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T925 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T926  { a: T192, b: T440 }
impl Gram for T926 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T926 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T927 (Option<T192>, T440) ;
impl Gram for T927 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T927 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T928 { V0(T440, B), V1 { a: Vec<T192>, b: Box<T440> } }
impl Gram for T928 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T928 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T929  { a: T192, b: T448 }
impl Gram for T929 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T929 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T930 (Option<T192>, T448) ;
impl Gram for T930 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T930 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T931 { V0(T448, B), V1 { a: Vec<T192>, b: Box<T448> } }
impl Gram for T931 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T931 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T932  { a: T192, b: T464 }
impl Gram for T932 { fn g() -> G { G::Seq(vec![<T192 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T932 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T933 (Option<T192>, T464) ;
impl Gram for T933 { fn g() -> G { G::Seq(vec![<Option<T192> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T933 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T934 { V0(T464, B), V1 { a: Vec<T192>, b: Box<T464> } }
impl Gram for T934 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T192> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T934 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T935  { a: T243, b: T320 }
impl Gram for T935 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T935 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T936 (Option<T243>, T320) ;
impl Gram for T936 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T936 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T937 { V0(T320, B), V1 { a: Vec<T243>, b: Box<T320> } }
impl Gram for T937 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T937 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T938  { a: T243, b: T335 }
impl Gram for T938 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T938 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T939 (Option<T243>, T335) ;
impl Gram for T939 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T939 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T940 { V0(T335, B), V1 { a: Vec<T243>, b: Box<T335> } }
impl Gram for T940 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T940 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T941  { a: T243, b: T343 }
impl Gram for T941 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T941 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T942 (Option<T243>, T343) ;
impl Gram for T942 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T942 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T943 { V0(T343, B), V1 { a: Vec<T243>, b: Box<T343> } }
impl Gram for T943 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T943 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T944  { a: T243, b: T352 }
impl Gram for T944 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T944 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T945 (Option<T243>, T352) ;
impl Gram for T945 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T945 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T946 { V0(T352, B), V1 { a: Vec<T243>, b: Box<T352> } }
impl Gram for T946 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T946 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T947  { a: T243, b: T432 }
impl Gram for T947 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T947 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T948 (Option<T243>, T432) ;
impl Gram for T948 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T948 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T949 { V0(T432, B), V1 { a: Vec<T243>, b: Box<T432> } }
impl Gram for T949 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T949 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T950  { a: T243, b: T440 }
impl Gram for T950 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T950 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T951 (Option<T243>, T440) ;
impl Gram for T951 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T951 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T952 { V0(T440, B), V1 { a: Vec<T243>, b: Box<T440> } }
impl Gram for T952 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T952 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T953  { a: T243, b: T448 }
impl Gram for T953 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T953 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T954 (Option<T243>, T448) ;
impl Gram for T954 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T954 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T955 { V0(T448, B), V1 { a: Vec<T243>, b: Box<T448> } }
impl Gram for T955 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T955 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T956  { a: T243, b: T464 }
impl Gram for T956 { fn g() -> G { G::Seq(vec![<T243 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T956 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T957 (Option<T243>, T464) ;
impl Gram for T957 { fn g() -> G { G::Seq(vec![<Option<T243> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T957 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T958 { V0(T464, B), V1 { a: Vec<T243>, b: Box<T464> } }
impl Gram for T958 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T243> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T958 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T959  { a: T296, b: T320 }
impl Gram for T959 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T959 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T960 (Option<T296>, T320) ;
impl Gram for T960 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T960 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T961 { V0(T320, B), V1 { a: Vec<T296>, b: Box<T320> } }
impl Gram for T961 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T961 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T962  { a: T296, b: T335 }
impl Gram for T962 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T962 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T963 (Option<T296>, T335) ;
impl Gram for T963 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T963 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T964 { V0(T335, B), V1 { a: Vec<T296>, b: Box<T335> } }
impl Gram for T964 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T964 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T965  { a: T296, b: T343 }
impl Gram for T965 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T965 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T966 (Option<T296>, T343) ;
impl Gram for T966 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T966 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T967 { V0(T343, B), V1 { a: Vec<T296>, b: Box<T343> } }
impl Gram for T967 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T967 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T968  { a: T296, b: T352 }
impl Gram for T968 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T968 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T969 (Option<T296>, T352) ;
impl Gram for T969 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T969 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T970 { V0(T352, B), V1 { a: Vec<T296>, b: Box<T352> } }
impl Gram for T970 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T970 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T971  { a: T296, b: T432 }
impl Gram for T971 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T971 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T972 (Option<T296>, T432) ;
impl Gram for T972 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T972 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T973 { V0(T432, B), V1 { a: Vec<T296>, b: Box<T432> } }
impl Gram for T973 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T973 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T974  { a: T296, b: T440 }
impl Gram for T974 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T974 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T975 (Option<T296>, T440) ;
impl Gram for T975 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T975 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T976 { V0(T440, B), V1 { a: Vec<T296>, b: Box<T440> } }
impl Gram for T976 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T976 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T977  { a: T296, b: T448 }
impl Gram for T977 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T977 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T978 (Option<T296>, T448) ;
impl Gram for T978 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T978 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T979 { V0(T448, B), V1 { a: Vec<T296>, b: Box<T448> } }
impl Gram for T979 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T979 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T980  { a: T296, b: T464 }
impl Gram for T980 { fn g() -> G { G::Seq(vec![<T296 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T980 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T981 (Option<T296>, T464) ;
impl Gram for T981 { fn g() -> G { G::Seq(vec![<Option<T296> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T981 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T982 { V0(T464, B), V1 { a: Vec<T296>, b: Box<T464> } }
impl Gram for T982 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T296> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T982 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T983  { a: T366, b: T320 }
impl Gram for T983 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T983 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T984 (Option<T366>, T320) ;
impl Gram for T984 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T984 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T985 { V0(T320, B), V1 { a: Vec<T366>, b: Box<T320> } }
impl Gram for T985 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T985 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T986  { a: T366, b: T335 }
impl Gram for T986 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T986 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T987 (Option<T366>, T335) ;
impl Gram for T987 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T987 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T988 { V0(T335, B), V1 { a: Vec<T366>, b: Box<T335> } }
impl Gram for T988 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T988 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T989  { a: T366, b: T343 }
impl Gram for T989 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T989 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T990 (Option<T366>, T343) ;
impl Gram for T990 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T990 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T991 { V0(T343, B), V1 { a: Vec<T366>, b: Box<T343> } }
impl Gram for T991 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T991 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T992  { a: T366, b: T352 }
impl Gram for T992 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T992 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T993 (Option<T366>, T352) ;
impl Gram for T993 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T993 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T994 { V0(T352, B), V1 { a: Vec<T366>, b: Box<T352> } }
impl Gram for T994 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T994 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T995  { a: T366, b: T432 }
impl Gram for T995 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T995 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T996 (Option<T366>, T432) ;
impl Gram for T996 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T996 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T997 { V0(T432, B), V1 { a: Vec<T366>, b: Box<T432> } }
impl Gram for T997 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T997 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T998  { a: T366, b: T440 }
impl Gram for T998 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T998 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T999 (Option<T366>, T440) ;
impl Gram for T999 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T999 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1000 { V0(T440, B), V1 { a: Vec<T366>, b: Box<T440> } }
impl Gram for T1000 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T1000 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1001  { a: T366, b: T448 }
impl Gram for T1001 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1001 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1002 (Option<T366>, T448) ;
impl Gram for T1002 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1002 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1003 { V0(T448, B), V1 { a: Vec<T366>, b: Box<T448> } }
impl Gram for T1003 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T1003 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1004  { a: T366, b: T464 }
impl Gram for T1004 { fn g() -> G { G::Seq(vec![<T366 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1004 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1005 (Option<T366>, T464) ;
impl Gram for T1005 { fn g() -> G { G::Seq(vec![<Option<T366> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1005 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1006 { V0(T464, B), V1 { a: Vec<T366>, b: Box<T464> } }
impl Gram for T1006 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T366> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T1006 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1007  { a: T545, b: T320 }
impl Gram for T1007 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T1007 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1008 (Option<T545>, T320) ;
impl Gram for T1008 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T1008 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1009 { V0(T320, B), V1 { a: Vec<T545>, b: Box<T320> } }
impl Gram for T1009 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T1009 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1010  { a: T545, b: T335 }
impl Gram for T1010 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T1010 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1011 (Option<T545>, T335) ;
impl Gram for T1011 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T1011 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1012 { V0(T335, B), V1 { a: Vec<T545>, b: Box<T335> } }
impl Gram for T1012 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T1012 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1013  { a: T545, b: T343 }
impl Gram for T1013 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T1013 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1014 (Option<T545>, T343) ;
impl Gram for T1014 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T1014 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1015 { V0(T343, B), V1 { a: Vec<T545>, b: Box<T343> } }
impl Gram for T1015 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T1015 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1016  { a: T545, b: T352 }
impl Gram for T1016 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T1016 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1017 (Option<T545>, T352) ;
impl Gram for T1017 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T1017 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1018 { V0(T352, B), V1 { a: Vec<T545>, b: Box<T352> } }
impl Gram for T1018 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T1018 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1019  { a: T545, b: T432 }
impl Gram for T1019 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T1019 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1020 (Option<T545>, T432) ;
impl Gram for T1020 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T1020 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1021 { V0(T432, B), V1 { a: Vec<T545>, b: Box<T432> } }
impl Gram for T1021 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T1021 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1022  { a: T545, b: T440 }
impl Gram for T1022 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T1022 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1023 (Option<T545>, T440) ;
impl Gram for T1023 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T1023 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1024 { V0(T440, B), V1 { a: Vec<T545>, b: Box<T440> } }
impl Gram for T1024 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T1024 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1025  { a: T545, b: T448 }
impl Gram for T1025 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1025 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1026 (Option<T545>, T448) ;
impl Gram for T1026 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1026 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1027 { V0(T448, B), V1 { a: Vec<T545>, b: Box<T448> } }
impl Gram for T1027 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T1027 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1028  { a: T545, b: T464 }
impl Gram for T1028 { fn g() -> G { G::Seq(vec![<T545 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1028 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1029 (Option<T545>, T464) ;
impl Gram for T1029 { fn g() -> G { G::Seq(vec![<Option<T545> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1029 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1030 { V0(T464, B), V1 { a: Vec<T545>, b: Box<T464> } }
impl Gram for T1030 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T545> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T1030 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1031  { a: T737, b: T320 }
impl Gram for T1031 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T1031 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1032 (Option<T737>, T320) ;
impl Gram for T1032 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T320 as Gram>::g()]) } }
impl ToTree for T1032 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1033 { V0(T320, B), V1 { a: Vec<T737>, b: Box<T320> } }
impl Gram for T1033 { fn g() -> G { G::Alt(vec![vec![<T320 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T320> as Gram>::g()]]) } }
impl ToTree for T1033 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1034  { a: T737, b: T335 }
impl Gram for T1034 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T1034 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1035 (Option<T737>, T335) ;
impl Gram for T1035 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T335 as Gram>::g()]) } }
impl ToTree for T1035 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1036 { V0(T335, B), V1 { a: Vec<T737>, b: Box<T335> } }
impl Gram for T1036 { fn g() -> G { G::Alt(vec![vec![<T335 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T335> as Gram>::g()]]) } }
impl ToTree for T1036 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1037  { a: T737, b: T343 }
impl Gram for T1037 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T1037 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1038 (Option<T737>, T343) ;
impl Gram for T1038 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T343 as Gram>::g()]) } }
impl ToTree for T1038 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1039 { V0(T343, B), V1 { a: Vec<T737>, b: Box<T343> } }
impl Gram for T1039 { fn g() -> G { G::Alt(vec![vec![<T343 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T343> as Gram>::g()]]) } }
impl ToTree for T1039 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1040  { a: T737, b: T352 }
impl Gram for T1040 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T1040 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1041 (Option<T737>, T352) ;
impl Gram for T1041 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T352 as Gram>::g()]) } }
impl ToTree for T1041 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1042 { V0(T352, B), V1 { a: Vec<T737>, b: Box<T352> } }
impl Gram for T1042 { fn g() -> G { G::Alt(vec![vec![<T352 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T352> as Gram>::g()]]) } }
impl ToTree for T1042 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1043  { a: T737, b: T432 }
impl Gram for T1043 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T1043 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1044 (Option<T737>, T432) ;
impl Gram for T1044 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T432 as Gram>::g()]) } }
impl ToTree for T1044 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1045 { V0(T432, B), V1 { a: Vec<T737>, b: Box<T432> } }
impl Gram for T1045 { fn g() -> G { G::Alt(vec![vec![<T432 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T432> as Gram>::g()]]) } }
impl ToTree for T1045 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1046  { a: T737, b: T440 }
impl Gram for T1046 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T1046 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1047 (Option<T737>, T440) ;
impl Gram for T1047 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T440 as Gram>::g()]) } }
impl ToTree for T1047 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1048 { V0(T440, B), V1 { a: Vec<T737>, b: Box<T440> } }
impl Gram for T1048 { fn g() -> G { G::Alt(vec![vec![<T440 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T440> as Gram>::g()]]) } }
impl ToTree for T1048 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1049  { a: T737, b: T448 }
impl Gram for T1049 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1049 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1050 (Option<T737>, T448) ;
impl Gram for T1050 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T448 as Gram>::g()]) } }
impl ToTree for T1050 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1051 { V0(T448, B), V1 { a: Vec<T737>, b: Box<T448> } }
impl Gram for T1051 { fn g() -> G { G::Alt(vec![vec![<T448 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T448> as Gram>::g()]]) } }
impl ToTree for T1051 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1052  { a: T737, b: T464 }
impl Gram for T1052 { fn g() -> G { G::Seq(vec![<T737 as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1052 { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct T1053 (Option<T737>, T464) ;
impl Gram for T1053 { fn g() -> G { G::Seq(vec![<Option<T737> as Gram>::g(), <T464 as Gram>::g()]) } }
impl ToTree for T1053 { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum T1054 { V0(T464, B), V1 { a: Vec<T737>, b: Box<T464> } }
impl Gram for T1054 { fn g() -> G { G::Alt(vec![vec![<T464 as Gram>::g(), <B as Gram>::g()], vec![<Vec<T737> as Gram>::g(), <Box<T464> as Gram>::g()]]) } }
impl ToTree for T1054 { fn tree(&self) -> Tree { match self { Self::V0(f0, f1) => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum Sexp { V0(A), V1(Quoted3<Sexp>) }
impl Gram for Sexp { fn g() -> G { G::Lazy(|| G::Alt(vec![vec![<A as Gram>::g()], vec![<Quoted3<Sexp> as Gram>::g()]])) } }
impl ToTree for Sexp { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct Chain  { a: A, b: Option<Box<Chain>> }
impl Gram for Chain { fn g() -> G { G::Lazy(|| G::Seq(vec![<A as Gram>::g(), <Option<Box<Chain>> as Gram>::g()])) } }
impl ToTree for Chain { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct Bin  { a: Opd, b: Option<Box<Tail>> }
impl Gram for Bin { fn g() -> G { G::Lazy(|| G::Seq(vec![<Opd as Gram>::g(), <Option<Box<Tail>> as Gram>::g()])) } }
impl ToTree for Bin { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum Opd { V0(A), V1 { a: B, b: Box<Bin>, first: C } }
impl Gram for Opd { fn g() -> G { G::Lazy(|| G::Alt(vec![vec![<A as Gram>::g()], vec![<B as Gram>::g(), <Box<Bin> as Gram>::g(), <C as Gram>::g()]])) } }
impl ToTree for Opd { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1, first: f2 } => Tree::Var(1, vec![f0.tree(), f1.tree(), f2.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum Tail { V0 { a: C, b: Bin }, V1(D, Box<Bin>) }
impl Gram for Tail { fn g() -> G { G::Lazy(|| G::Alt(vec![vec![<C as Gram>::g(), <Bin as Gram>::g()], vec![<D as Gram>::g(), <Box<Bin> as Gram>::g()]])) } }
impl ToTree for Tail { fn tree(&self) -> Tree { match self { Self::V0 { a: f0, b: f1 } => Tree::Var(0, vec![f0.tree(), f1.tree()]), Self::V1(f0, f1) => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub enum Tree3 { V0 { a: C }, V1(A, Box<Tree3>, Box<Tree3>), V2(B, Vec<Tree3>, D) }
impl Gram for Tree3 { fn g() -> G { G::Lazy(|| G::Alt(vec![vec![<C as Gram>::g()], vec![<A as Gram>::g(), <Box<Tree3> as Gram>::g(), <Box<Tree3> as Gram>::g()], vec![<B as Gram>::g(), <Vec<Tree3> as Gram>::g(), <D as Gram>::g()]])) } }
impl ToTree for Tree3 { fn tree(&self) -> Tree { match self { Self::V0 { a: f0 } => Tree::Var(0, vec![f0.tree()]), Self::V1(f0, f1, f2) => Tree::Var(1, vec![f0.tree(), f1.tree(), f2.tree()]), Self::V2(f0, f1, f2) => Tree::Var(2, vec![f0.tree(), f1.tree(), f2.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct G1<T: Node>  { a: Wrap<T>, b: B }
impl<T: Node> Gram for G1<T> { fn g() -> G { G::Seq(vec![<Wrap<T> as Gram>::g(), <B as Gram>::g()]) } }
impl<T: Node> ToTree for G1<T> { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct G2<T, U> (Wrap<T>, Wrap<U>) where T: Node, U: Node + 'static ;
impl<T, U> Gram for G2<T, U> where T: Node, U: Node + 'static { fn g() -> G { G::Seq(vec![<Wrap<T> as Gram>::g(), <Wrap<U> as Gram>::g()]) } }
impl<T, U> ToTree for G2<T, U> where T: Node, U: Node + 'static { fn tree(&self) -> Tree { let Self(f0, f1) = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum G3<T: Node, U: Node> { V0(Wrap<T>), V1 { a: Option<Wrap<U>>, b: C } }
impl<T: Node, U: Node> Gram for G3<T, U> { fn g() -> G { G::Alt(vec![vec![<Wrap<T> as Gram>::g()], vec![<Option<Wrap<U>> as Gram>::g(), <C as Gram>::g()]]) } }
impl<T: Node, U: Node> ToTree for G3<T, U> { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1 { a: f0, b: f1 } => Tree::Var(1, vec![f0.tree(), f1.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct G4<T: Node, const N: usize>  { a: Times<N>, b: Wrap<T> }
impl<T: Node, const N: usize> Gram for G4<T, N> { fn g() -> G { G::Seq(vec![<Times<N> as Gram>::g(), <Wrap<T> as Gram>::g()]) } }
impl<T: Node, const N: usize> ToTree for G4<T, N> { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub enum G5<const N: usize, T: Node> where T: Clone { V0(Wrap<T>), V1(Times<N>) }
impl<const N: usize, T: Node> Gram for G5<N, T> where T: Clone { fn g() -> G { G::Alt(vec![vec![<Wrap<T> as Gram>::g()], vec![<Times<N> as Gram>::g()]]) } }
impl<const N: usize, T: Node> ToTree for G5<N, T> where T: Clone { fn tree(&self) -> Tree { match self { Self::V0(f0) => Tree::Var(0, vec![f0.tree()]), Self::V1(f0) => Tree::Var(1, vec![f0.tree()]), } } }

#[derive(Parse)]
#[token(Tok)]
pub struct G6<'a>  { a: Life<'a>, b: A }
impl<'a> Gram for G6<'a> { fn g() -> G { G::Seq(vec![<Life<'a> as Gram>::g(), <A as Gram>::g()]) } }
impl<'a> ToTree for G6<'a> { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)]
#[token(Tok)]
pub struct G7<'a, T: Node> where T: 'a  { a: Life<'a>, b: Wrap<T> }
impl<'a, T: Node> Gram for G7<'a, T> where T: 'a { fn g() -> G { G::Seq(vec![<Life<'a> as Gram>::g(), <Wrap<T> as Gram>::g()]) } }
impl<'a, T: Node> ToTree for G7<'a, T> where T: 'a { fn tree(&self) -> Tree { let Self { a: f0, b: f1 } = self; Tree::List(vec![f0.tree(), f1.tree()]) } }

#[derive(Parse)] #[token(Tok)] pub struct G8<T: Node = NA, const N: usize = 2> { a: Wrap<T>, b: Times<N> }
impl<T: Node, const N: usize> Gram for G8<T, N> { fn g() -> G { G::Seq(vec![T::g1(), <Times<N>>::g()]) } }
impl<T: Node, const N: usize> ToTree for G8<T, N> { fn tree(&self) -> Tree { Tree::List(vec![self.a.tree(), self.b.tree()]) } }

#[derive(Parse)] pub struct N1 { a: Nothing, b: Option<Nothing> }
impl Gram for N1 { fn g() -> G { G::Seq(vec![Nothing::g(), <Option<Nothing>>::g()]) } }
impl ToTree for N1 { fn tree(&self) -> Tree { Tree::List(vec![self.a.tree(), self.b.tree()]) } }

#[derive(Parse)] pub enum N2 { X, Y(Nothing) }
impl Gram for N2 { fn g() -> G { G::Alt(vec![vec![], vec![Nothing::g()]]) } }
impl ToTree for N2 { fn tree(&self) -> Tree { match self { N2::X => Tree::Var(0, vec![]), N2::Y(a) => Tree::Var(1, vec![a.tree()]) } } }

fn push0(v: &mut Vec<Entry>) {
  v.push(entry!("T0: struct {  }", T0));
  v.push(entry!("T1: struct ()", T1));
  v.push(entry!("T2: struct unit", T2));
  v.push(entry!("T3: struct (A)", T3));
  v.push(entry!("T4: struct { B }", T4));
  v.push(entry!("T5: struct (AB)", T5));
  v.push(entry!("T6: struct { Option<A> }", T6));
  v.push(entry!("T7: struct (Vec<B>)", T7));
  v.push(entry!("T8: struct { SepSeq<A, C> }", T8));
  v.push(entry!("T9: struct (A, A)", T9));
  v.push(entry!("T10: struct { A, B }", T10));
  v.push(entry!("T11: struct (A, AB)", T11));
  v.push(entry!("T12: struct { A, Option<A> }", T12));
  v.push(entry!("T13: struct (A, Vec<B>)", T13));
  v.push(entry!("T14: struct { A, SepSeq<A, C> }", T14));
  v.push(entry!("T15: struct (B, A)", T15));
  v.push(entry!("T16: struct { B, B }", T16));
  v.push(entry!("T17: struct (B, AB)", T17));
  v.push(entry!("T18: struct { B, Option<A> }", T18));
  v.push(entry!("T19: struct (B, Vec<B>)", T19));
  v.push(entry!("T20: struct { B, SepSeq<A, C> }", T20));
  v.push(entry!("T21: struct (AB, A)", T21));
  v.push(entry!("T22: struct { AB, B }", T22));
  v.push(entry!("T23: struct (AB, AB)", T23));
  v.push(entry!("T24: struct { AB, Option<A> }", T24));
  v.push(entry!("T25: struct (AB, Vec<B>)", T25));
  v.push(entry!("T26: struct { AB, SepSeq<A, C> }", T26));
  v.push(entry!("T27: struct (Option<A>, A)", T27));
  v.push(entry!("T28: struct { Option<A>, B }", T28));
  v.push(entry!("T29: struct (Option<A>, AB)", T29));
  v.push(entry!("T30: struct { Option<A>, Option<A> }", T30));
  v.push(entry!("T31: struct (Option<A>, Vec<B>)", T31));
  v.push(entry!("T32: struct { Option<A>, SepSeq<A, C> }", T32));
  v.push(entry!("T33: struct (Vec<B>, A)", T33));
  v.push(entry!("T34: struct { Vec<B>, B }", T34));
  v.push(entry!("T35: struct (Vec<B>, AB)", T35));
  v.push(entry!("T36: struct { Vec<B>, Option<A> }", T36));
  v.push(entry!("T37: struct (Vec<B>, Vec<B>)", T37));
  v.push(entry!("T38: struct { Vec<B>, SepSeq<A, C> }", T38));
  v.push(entry!("T39: struct (SepSeq<A, C>, A)", T39));
}
fn push1(v: &mut Vec<Entry>) {
  v.push(entry!("T40: struct { SepSeq<A, C>, B }", T40));
  v.push(entry!("T41: struct (SepSeq<A, C>, AB)", T41));
  v.push(entry!("T42: struct { SepSeq<A, C>, Option<A> }", T42));
  v.push(entry!("T43: struct (SepSeq<A, C>, Vec<B>)", T43));
  v.push(entry!("T44: struct { SepSeq<A, C>, SepSeq<A, C> }", T44));
  v.push(entry!("T45: struct (A, A, A)", T45));
  v.push(entry!("T46: struct { A, A, B }", T46));
  v.push(entry!("T47: struct (A, A, AB)", T47));
  v.push(entry!("T48: struct { A, A, Option<A> }", T48));
  v.push(entry!("T49: struct (A, A, Vec<B>)", T49));
  v.push(entry!("T50: struct { A, A, SepSeq<A, C> }", T50));
  v.push(entry!("T51: struct (A, B, A)", T51));
  v.push(entry!("T52: struct { A, B, B }", T52));
  v.push(entry!("T53: struct (A, B, AB)", T53));
  v.push(entry!("T54: struct { A, B, Option<A> }", T54));
  v.push(entry!("T55: struct (A, B, Vec<B>)", T55));
  v.push(entry!("T56: struct { A, B, SepSeq<A, C> }", T56));
  v.push(entry!("T57: struct (A, AB, A)", T57));
  v.push(entry!("T58: struct { A, AB, B }", T58));
  v.push(entry!("T59: struct (A, AB, AB)", T59));
  v.push(entry!("T60: struct { A, AB, Option<A> }", T60));
  v.push(entry!("T61: struct (A, AB, Vec<B>)", T61));
  v.push(entry!("T62: struct { A, AB, SepSeq<A, C> }", T62));
  v.push(entry!("T63: struct (A, Option<A>, A)", T63));
  v.push(entry!("T64: struct { A, Option<A>, B }", T64));
  v.push(entry!("T65: struct (A, Option<A>, AB)", T65));
  v.push(entry!("T66: struct { A, Option<A>, Option<A> }", T66));
  v.push(entry!("T67: struct (A, Option<A>, Vec<B>)", T67));
  v.push(entry!("T68: struct { A, Option<A>, SepSeq<A, C> }", T68));
  v.push(entry!("T69: struct (A, Vec<B>, A)", T69));
  v.push(entry!("T70: struct { A, Vec<B>, B }", T70));
  v.push(entry!("T71: struct (A, Vec<B>, AB)", T71));
  v.push(entry!("T72: struct { A, Vec<B>, Option<A> }", T72));
  v.push(entry!("T73: struct (A, Vec<B>, Vec<B>)", T73));
  v.push(entry!("T74: struct { A, Vec<B>, SepSeq<A, C> }", T74));
  v.push(entry!("T75: struct (A, SepSeq<A, C>, A)", T75));
  v.push(entry!("T76: struct { A, SepSeq<A, C>, B }", T76));
  v.push(entry!("T77: struct (A, SepSeq<A, C>, AB)", T77));
  v.push(entry!("T78: struct { A, SepSeq<A, C>, Option<A> }", T78));
  v.push(entry!("T79: struct (A, SepSeq<A, C>, Vec<B>)", T79));
}
fn push2(v: &mut Vec<Entry>) {
  v.push(entry!("T80: struct { A, SepSeq<A, C>, SepSeq<A, C> }", T80));
  v.push(entry!("T81: struct (B, A, A)", T81));
  v.push(entry!("T82: struct { B, A, B }", T82));
  v.push(entry!("T83: struct (B, A, AB)", T83));
  v.push(entry!("T84: struct { B, A, Option<A> }", T84));
  v.push(entry!("T85: struct (B, A, Vec<B>)", T85));
  v.push(entry!("T86: struct { B, A, SepSeq<A, C> }", T86));
  v.push(entry!("T87: struct (B, B, A)", T87));
  v.push(entry!("T88: struct { B, B, B }", T88));
  v.push(entry!("T89: struct (B, B, AB)", T89));
  v.push(entry!("T90: struct { B, B, Option<A> }", T90));
  v.push(entry!("T91: struct (B, B, Vec<B>)", T91));
  v.push(entry!("T92: struct { B, B, SepSeq<A, C> }", T92));
  v.push(entry!("T93: struct (B, AB, A)", T93));
  v.push(entry!("T94: struct { B, AB, B }", T94));
  v.push(entry!("T95: struct (B, AB, AB)", T95));
  v.push(entry!("T96: struct { B, AB, Option<A> }", T96));
  v.push(entry!("T97: struct (B, AB, Vec<B>)", T97));
  v.push(entry!("T98: struct { B, AB, SepSeq<A, C> }", T98));
  v.push(entry!("T99: struct (B, Option<A>, A)", T99));
  v.push(entry!("T100: struct { B, Option<A>, B }", T100));
  v.push(entry!("T101: struct (B, Option<A>, AB)", T101));
  v.push(entry!("T102: struct { B, Option<A>, Option<A> }", T102));
  v.push(entry!("T103: struct (B, Option<A>, Vec<B>)", T103));
  v.push(entry!("T104: struct { B, Option<A>, SepSeq<A, C> }", T104));
  v.push(entry!("T105: struct (B, Vec<B>, A)", T105));
  v.push(entry!("T106: struct { B, Vec<B>, B }", T106));
  v.push(entry!("T107: struct (B, Vec<B>, AB)", T107));
  v.push(entry!("T108: struct { B, Vec<B>, Option<A> }", T108));
  v.push(entry!("T109: struct (B, Vec<B>, Vec<B>)", T109));
  v.push(entry!("T110: struct { B, Vec<B>, SepSeq<A, C> }", T110));
  v.push(entry!("T111: struct (B, SepSeq<A, C>, A)", T111));
  v.push(entry!("T112: struct { B, SepSeq<A, C>, B }", T112));
  v.push(entry!("T113: struct (B, SepSeq<A, C>, AB)", T113));
  v.push(entry!("T114: struct { B, SepSeq<A, C>, Option<A> }", T114));
  v.push(entry!("T115: struct (B, SepSeq<A, C>, Vec<B>)", T115));
  v.push(entry!("T116: struct { B, SepSeq<A, C>, SepSeq<A, C> }", T116));
  v.push(entry!("T117: struct (AB, A, A)", T117));
  v.push(entry!("T118: struct { AB, A, B }", T118));
  v.push(entry!("T119: struct (AB, A, AB)", T119));
}
fn push3(v: &mut Vec<Entry>) {
  v.push(entry!("T120: struct { AB, A, Option<A> }", T120));
  v.push(entry!("T121: struct (AB, A, Vec<B>)", T121));
  v.push(entry!("T122: struct { AB, A, SepSeq<A, C> }", T122));
  v.push(entry!("T123: struct (AB, B, A)", T123));
  v.push(entry!("T124: struct { AB, B, B }", T124));
  v.push(entry!("T125: struct (AB, B, AB)", T125));
  v.push(entry!("T126: struct { AB, B, Option<A> }", T126));
  v.push(entry!("T127: struct (AB, B, Vec<B>)", T127));
  v.push(entry!("T128: struct { AB, B, SepSeq<A, C> }", T128));
  v.push(entry!("T129: struct (AB, AB, A)", T129));
  v.push(entry!("T130: struct { AB, AB, B }", T130));
  v.push(entry!("T131: struct (AB, AB, AB)", T131));
  v.push(entry!("T132: struct { AB, AB, Option<A> }", T132));
  v.push(entry!("T133: struct (AB, AB, Vec<B>)", T133));
  v.push(entry!("T134: struct { AB, AB, SepSeq<A, C> }", T134));
  v.push(entry!("T135: struct (AB, Option<A>, A)", T135));
  v.push(entry!("T136: struct { AB, Option<A>, B }", T136));
  v.push(entry!("T137: struct (AB, Option<A>, AB)", T137));
  v.push(entry!("T138: struct { AB, Option<A>, Option<A> }", T138));
  v.push(entry!("T139: struct (AB, Option<A>, Vec<B>)", T139));
  v.push(entry!("T140: struct { AB, Option<A>, SepSeq<A, C> }", T140));
  v.push(entry!("T141: struct (AB, Vec<B>, A)", T141));
  v.push(entry!("T142: struct { AB, Vec<B>, B }", T142));
  v.push(entry!("T143: struct (AB, Vec<B>, AB)", T143));
  v.push(entry!("T144: struct { AB, Vec<B>, Option<A> }", T144));
  v.push(entry!("T145: struct (AB, Vec<B>, Vec<B>)", T145));
  v.push(entry!("T146: struct { AB, Vec<B>, SepSeq<A, C> }", T146));
  v.push(entry!("T147: struct (AB, SepSeq<A, C>, A)", T147));
  v.push(entry!("T148: struct { AB, SepSeq<A, C>, B }", T148));
  v.push(entry!("T149: struct (AB, SepSeq<A, C>, AB)", T149));
  v.push(entry!("T150: struct { AB, SepSeq<A, C>, Option<A> }", T150));
  v.push(entry!("T151: struct (AB, SepSeq<A, C>, Vec<B>)", T151));
  v.push(entry!("T152: struct { AB, SepSeq<A, C>, SepSeq<A, C> }", T152));
  v.push(entry!("T153: struct (Option<A>, A, A)", T153));
  v.push(entry!("T154: struct { Option<A>, A, B }", T154));
  v.push(entry!("T155: struct (Option<A>, A, AB)", T155));
  v.push(entry!("T156: struct { Option<A>, A, Option<A> }", T156));
  v.push(entry!("T157: struct (Option<A>, A, Vec<B>)", T157));
  v.push(entry!("T158: struct { Option<A>, A, SepSeq<A, C> }", T158));
  v.push(entry!("T159: struct (Option<A>, B, A)", T159));
}
fn push4(v: &mut Vec<Entry>) {
  v.push(entry!("T160: struct { Option<A>, B, B }", T160));
  v.push(entry!("T161: struct (Option<A>, B, AB)", T161));
  v.push(entry!("T162: struct { Option<A>, B, Option<A> }", T162));
  v.push(entry!("T163: struct (Option<A>, B, Vec<B>)", T163));
  v.push(entry!("T164: struct { Option<A>, B, SepSeq<A, C> }", T164));
  v.push(entry!("T165: struct (Option<A>, AB, A)", T165));
  v.push(entry!("T166: struct { Option<A>, AB, B }", T166));
  v.push(entry!("T167: struct (Option<A>, AB, AB)", T167));
  v.push(entry!("T168: struct { Option<A>, AB, Option<A> }", T168));
  v.push(entry!("T169: struct (Option<A>, AB, Vec<B>)", T169));
  v.push(entry!("T170: struct { Option<A>, AB, SepSeq<A, C> }", T170));
  v.push(entry!("T171: struct (Option<A>, Option<A>, A)", T171));
  v.push(entry!("T172: struct { Option<A>, Option<A>, B }", T172));
  v.push(entry!("T173: struct (Option<A>, Option<A>, AB)", T173));
  v.push(entry!("T174: struct { Option<A>, Option<A>, Option<A> }", T174));
  v.push(entry!("T175: struct (Option<A>, Option<A>, Vec<B>)", T175));
  v.push(entry!("T176: struct { Option<A>, Option<A>, SepSeq<A, C> }", T176));
  v.push(entry!("T177: struct (Option<A>, Vec<B>, A)", T177));
  v.push(entry!("T178: struct { Option<A>, Vec<B>, B }", T178));
  v.push(entry!("T179: struct (Option<A>, Vec<B>, AB)", T179));
  v.push(entry!("T180: struct { Option<A>, Vec<B>, Option<A> }", T180));
  v.push(entry!("T181: struct (Option<A>, Vec<B>, Vec<B>)", T181));
  v.push(entry!("T182: struct { Option<A>, Vec<B>, SepSeq<A, C> }", T182));
  v.push(entry!("T183: struct (Option<A>, SepSeq<A, C>, A)", T183));
  v.push(entry!("T184: struct { Option<A>, SepSeq<A, C>, B }", T184));
  v.push(entry!("T185: struct (Option<A>, SepSeq<A, C>, AB)", T185));
  v.push(entry!("T186: struct { Option<A>, SepSeq<A, C>, Option<A> }", T186));
  v.push(entry!("T187: struct (Option<A>, SepSeq<A, C>, Vec<B>)", T187));
  v.push(entry!("T188: struct { Option<A>, SepSeq<A, C>, SepSeq<A, C> }", T188));
  v.push(entry!("T189: struct (Vec<B>, A, A)", T189));
  v.push(entry!("T190: struct { Vec<B>, A, B }", T190));
  v.push(entry!("T191: struct (Vec<B>, A, AB)", T191));
  v.push(entry!("T192: struct { Vec<B>, A, Option<A> }", T192));
  v.push(entry!("T193: struct (Vec<B>, A, Vec<B>)", T193));
  v.push(entry!("T194: struct { Vec<B>, A, SepSeq<A, C> }", T194));
  v.push(entry!("T195: struct (Vec<B>, B, A)", T195));
  v.push(entry!("T196: struct { Vec<B>, B, B }", T196));
  v.push(entry!("T197: struct (Vec<B>, B, AB)", T197));
  v.push(entry!("T198: struct { Vec<B>, B, Option<A> }", T198));
  v.push(entry!("T199: struct (Vec<B>, B, Vec<B>)", T199));
}
fn push5(v: &mut Vec<Entry>) {
  v.push(entry!("T200: struct { Vec<B>, B, SepSeq<A, C> }", T200));
  v.push(entry!("T201: struct (Vec<B>, AB, A)", T201));
  v.push(entry!("T202: struct { Vec<B>, AB, B }", T202));
  v.push(entry!("T203: struct (Vec<B>, AB, AB)", T203));
  v.push(entry!("T204: struct { Vec<B>, AB, Option<A> }", T204));
  v.push(entry!("T205: struct (Vec<B>, AB, Vec<B>)", T205));
  v.push(entry!("T206: struct { Vec<B>, AB, SepSeq<A, C> }", T206));
  v.push(entry!("T207: struct (Vec<B>, Option<A>, A)", T207));
  v.push(entry!("T208: struct { Vec<B>, Option<A>, B }", T208));
  v.push(entry!("T209: struct (Vec<B>, Option<A>, AB)", T209));
  v.push(entry!("T210: struct { Vec<B>, Option<A>, Option<A> }", T210));
  v.push(entry!("T211: struct (Vec<B>, Option<A>, Vec<B>)", T211));
  v.push(entry!("T212: struct { Vec<B>, Option<A>, SepSeq<A, C> }", T212));
  v.push(entry!("T213: struct (Vec<B>, Vec<B>, A)", T213));
  v.push(entry!("T214: struct { Vec<B>, Vec<B>, B }", T214));
  v.push(entry!("T215: struct (Vec<B>, Vec<B>, AB)", T215));
  v.push(entry!("T216: struct { Vec<B>, Vec<B>, Option<A> }", T216));
  v.push(entry!("T217: struct (Vec<B>, Vec<B>, Vec<B>)", T217));
  v.push(entry!("T218: struct { Vec<B>, Vec<B>, SepSeq<A, C> }", T218));
  v.push(entry!("T219: struct (Vec<B>, SepSeq<A, C>, A)", T219));
  v.push(entry!("T220: struct { Vec<B>, SepSeq<A, C>, B }", T220));
  v.push(entry!("T221: struct (Vec<B>, SepSeq<A, C>, AB)", T221));
  v.push(entry!("T222: struct { Vec<B>, SepSeq<A, C>, Option<A> }", T222));
  v.push(entry!("T223: struct (Vec<B>, SepSeq<A, C>, Vec<B>)", T223));
  v.push(entry!("T224: struct { Vec<B>, SepSeq<A, C>, SepSeq<A, C> }", T224));
  v.push(entry!("T225: struct (SepSeq<A, C>, A, A)", T225));
  v.push(entry!("T226: struct { SepSeq<A, C>, A, B }", T226));
  v.push(entry!("T227: struct (SepSeq<A, C>, A, AB)", T227));
  v.push(entry!("T228: struct { SepSeq<A, C>, A, Option<A> }", T228));
  v.push(entry!("T229: struct (SepSeq<A, C>, A, Vec<B>)", T229));
  v.push(entry!("T230: struct { SepSeq<A, C>, A, SepSeq<A, C> }", T230));
  v.push(entry!("T231: struct (SepSeq<A, C>, B, A)", T231));
  v.push(entry!("T232: struct { SepSeq<A, C>, B, B }", T232));
  v.push(entry!("T233: struct (SepSeq<A, C>, B, AB)", T233));
  v.push(entry!("T234: struct { SepSeq<A, C>, B, Option<A> }", T234));
  v.push(entry!("T235: struct (SepSeq<A, C>, B, Vec<B>)", T235));
  v.push(entry!("T236: struct { SepSeq<A, C>, B, SepSeq<A, C> }", T236));
  v.push(entry!("T237: struct (SepSeq<A, C>, AB, A)", T237));
  v.push(entry!("T238: struct { SepSeq<A, C>, AB, B }", T238));
  v.push(entry!("T239: struct (SepSeq<A, C>, AB, AB)", T239));
}
fn push6(v: &mut Vec<Entry>) {
  v.push(entry!("T240: struct { SepSeq<A, C>, AB, Option<A> }", T240));
  v.push(entry!("T241: struct (SepSeq<A, C>, AB, Vec<B>)", T241));
  v.push(entry!("T242: struct { SepSeq<A, C>, AB, SepSeq<A, C> }", T242));
  v.push(entry!("T243: struct (SepSeq<A, C>, Option<A>, A)", T243));
  v.push(entry!("T244: struct { SepSeq<A, C>, Option<A>, B }", T244));
  v.push(entry!("T245: struct (SepSeq<A, C>, Option<A>, AB)", T245));
  v.push(entry!("T246: struct { SepSeq<A, C>, Option<A>, Option<A> }", T246));
  v.push(entry!("T247: struct (SepSeq<A, C>, Option<A>, Vec<B>)", T247));
  v.push(entry!("T248: struct { SepSeq<A, C>, Option<A>, SepSeq<A, C> }", T248));
  v.push(entry!("T249: struct (SepSeq<A, C>, Vec<B>, A)", T249));
  v.push(entry!("T250: struct { SepSeq<A, C>, Vec<B>, B }", T250));
  v.push(entry!("T251: struct (SepSeq<A, C>, Vec<B>, AB)", T251));
  v.push(entry!("T252: struct { SepSeq<A, C>, Vec<B>, Option<A> }", T252));
  v.push(entry!("T253: struct (SepSeq<A, C>, Vec<B>, Vec<B>)", T253));
  v.push(entry!("T254: struct { SepSeq<A, C>, Vec<B>, SepSeq<A, C> }", T254));
  v.push(entry!("T255: struct (SepSeq<A, C>, SepSeq<A, C>, A)", T255));
  v.push(entry!("T256: struct { SepSeq<A, C>, SepSeq<A, C>, B }", T256));
  v.push(entry!("T257: struct (SepSeq<A, C>, SepSeq<A, C>, AB)", T257));
  v.push(entry!("T258: struct { SepSeq<A, C>, SepSeq<A, C>, Option<A> }", T258));
  v.push(entry!("T259: struct (SepSeq<A, C>, SepSeq<A, C>, Vec<B>)", T259));
  v.push(entry!("T260: struct { SepSeq<A, C>, SepSeq<A, C>, SepSeq<A, C> }", T260));
  v.push(entry!("T261: struct (C)", T261));
  v.push(entry!("T262: struct { C, A }", T262));
  v.push(entry!("T263: struct (Option<A>, C)", T263));
  v.push(entry!("T264: struct { Box<B> }", T264));
  v.push(entry!("T265: struct (Box<B>, A)", T265));
  v.push(entry!("T266: struct { Option<A>, Box<B> }", T266));
  v.push(entry!("T267: struct (Option<Vec<C>>)", T267));
  v.push(entry!("T268: struct { Option<Vec<C>>, A }", T268));
  v.push(entry!("T269: struct (Option<A>, Option<Vec<C>>)", T269));
  v.push(entry!("T270: struct { TokenPrefix<A, B> }", T270));
  v.push(entry!("T271: struct (TokenPrefix<A, B>, A)", T271));
  v.push(entry!("T272: struct { Option<A>, TokenPrefix<A, B> }", T272));
  v.push(entry!("T273: struct (OptPrefix<B, C>)", T273));
  v.push(entry!("T274: struct { OptPrefix<B, C>, A }", T274));
  v.push(entry!("T275: struct (Option<A>, OptPrefix<B, C>)", T275));
  v.push(entry!("T276: struct { NonEmptySeq<A> }", T276));
  v.push(entry!("T277: struct (NonEmptySeq<A>, A)", T277));
  v.push(entry!("T278: struct { Option<A>, NonEmptySeq<A> }", T278));
  v.push(entry!("T279: struct { A, B, A, B }", T279));
}
fn push7(v: &mut Vec<Entry>) {
  v.push(entry!("T280: struct { A, Option<A>, Vec<B>, C }", T280));
  v.push(entry!("T281: struct { Option<A>, Option<B>, Option<B>, C }", T281));
  v.push(entry!("T282: struct { C, Option<B>, Option<B>, Option<A> }", T282));
  v.push(entry!("T283: struct (A, B, A, B)", T283));
  v.push(entry!("T284: struct (A, Option<A>, Vec<B>, C)", T284));
  v.push(entry!("T285: struct (Option<A>, Option<B>, Option<B>, C)", T285));
  v.push(entry!("T286: struct (C, Option<B>, Option<B>, Option<A>)", T286));
  v.push(entry!("T287: struct { A, B, A, B, B }", T287));
  v.push(entry!("T288: struct { A, Option<A>, Vec<B>, C, B }", T288));
  v.push(entry!("T289: struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", T289));
  v.push(entry!("T290: struct { C, Option<B>, Option<B>, Option<B>, Option<A> }", T290));
  v.push(entry!("T291: struct (A, B, A, B, B)", T291));
  v.push(entry!("T292: struct (A, Option<A>, Vec<B>, C, B)", T292));
  v.push(entry!("T293: struct (Option<A>, Option<B>, Option<B>, Option<B>, C)", T293));
  v.push(entry!("T294: struct (C, Option<B>, Option<B>, Option<B>, Option<A>)", T294));
  v.push(entry!("T295: struct { A, B, A, B, B, C, B, C }", T295));
  v.push(entry!("T296: struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", T296));
  v.push(entry!("T297: struct { Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C }", T297));
  v.push(entry!("T298: struct { C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A> }", T298));
  v.push(entry!("T299: struct (A, B, A, B, B, C, B, C)", T299));
  v.push(entry!("T300: struct (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A)", T300));
  v.push(entry!("T301: struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", T301));
  v.push(entry!("T302: struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", T302));
  v.push(entry!("T303: struct { A, B, A, B, B, C, B, C, C, D, C, D }", T303));
  v.push(entry!("T304: struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B }", T304));
  v.push(entry!("T305: struct { Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C }", T305));
  v.push(entry!("T306: struct { C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A> }", T306));
  v.push(entry!("T307: struct (A, B, A, B, B, C, B, C, C, D, C, D)", T307));
  v.push(entry!("T308: struct (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B)", T308));
  v.push(entry!("T309: struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", T309));
  v.push(entry!("T310: struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", T310));
  v.push(entry!("T311: struct { A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B }", T311));
  v.push(entry!("T312: struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C> }", T312));
  v.push(entry!("T313: struct { Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C }", T313));
  v.push(entry!("T314: struct { C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A> }", T314));
  v.push(entry!("T315: struct (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B)", T315));
  v.push(entry!("T316: struct (A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A, Option<A>, Vec<B>, C, B, SepSeq<A, C>)", T316));
  v.push(entry!("T317: struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", T317));
  v.push(entry!("T318: struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", T318));
  v.push(entry!("T319: enum unit", T319));
}
fn push8(v: &mut Vec<Entry>) {
  v.push(entry!("T320: enum (A)", T320));
  v.push(entry!("T321: enum { B, A }", T321));
  v.push(entry!("T322: enum (Option<A>, C)", T322));
  v.push(entry!("T323: enum (Vec<B>)", T323));
  v.push(entry!("T324: enum { AB, C }", T324));
  v.push(entry!("T325: enum ()", T325));
  v.push(entry!("T326: enum unit | unit", T326));
  v.push(entry!("T327: enum unit | (A)", T327));
  v.push(entry!("T328: enum unit | { B, A }", T328));
  v.push(entry!("T329: enum unit | (Option<A>, C)", T329));
  v.push(entry!("T330: enum unit | (Vec<B>)", T330));
  v.push(entry!("T331: enum unit | { AB, C }", T331));
  v.push(entry!("T332: enum unit | ()", T332));
  v.push(entry!("T333: enum (A) | unit", T333));
  v.push(entry!("T334: enum (A) | (A)", T334));
  v.push(entry!("T335: enum (A) | { B, A }", T335));
  v.push(entry!("T336: enum (A) | (Option<A>, C)", T336));
  v.push(entry!("T337: enum (A) | (Vec<B>)", T337));
  v.push(entry!("T338: enum (A) | { AB, C }", T338));
  v.push(entry!("T339: enum (A) | ()", T339));
  v.push(entry!("T340: enum { B, A } | unit", T340));
  v.push(entry!("T341: enum { B, A } | (A)", T341));
  v.push(entry!("T342: enum { B, A } | { B, A }", T342));
  v.push(entry!("T343: enum { B, A } | (Option<A>, C)", T343));
  v.push(entry!("T344: enum { B, A } | (Vec<B>)", T344));
  v.push(entry!("T345: enum { B, A } | { AB, C }", T345));
  v.push(entry!("T346: enum { B, A } | ()", T346));
  v.push(entry!("T347: enum (Option<A>, C) | unit", T347));
  v.push(entry!("T348: enum (Option<A>, C) | (A)", T348));
  v.push(entry!("T349: enum (Option<A>, C) | { B, A }", T349));
  v.push(entry!("T350: enum (Option<A>, C) | (Option<A>, C)", T350));
  v.push(entry!("T351: enum (Option<A>, C) | (Vec<B>)", T351));
  v.push(entry!("T352: enum (Option<A>, C) | { AB, C }", T352));
  v.push(entry!("T353: enum (Option<A>, C) | ()", T353));
  v.push(entry!("T354: enum (Vec<B>) | unit", T354));
  v.push(entry!("T355: enum (Vec<B>) | (A)", T355));
  v.push(entry!("T356: enum (Vec<B>) | { B, A }", T356));
  v.push(entry!("T357: enum (Vec<B>) | (Option<A>, C)", T357));
  v.push(entry!("T358: enum (Vec<B>) | (Vec<B>)", T358));
  v.push(entry!("T359: enum (Vec<B>) | { AB, C }", T359));
}
fn push9(v: &mut Vec<Entry>) {
  v.push(entry!("T360: enum (Vec<B>) | ()", T360));
  v.push(entry!("T361: enum { AB, C } | unit", T361));
  v.push(entry!("T362: enum { AB, C } | (A)", T362));
  v.push(entry!("T363: enum { AB, C } | { B, A }", T363));
  v.push(entry!("T364: enum { AB, C } | (Option<A>, C)", T364));
  v.push(entry!("T365: enum { AB, C } | (Vec<B>)", T365));
  v.push(entry!("T366: enum { AB, C } | { AB, C }", T366));
  v.push(entry!("T367: enum { AB, C } | ()", T367));
  v.push(entry!("T368: enum () | unit", T368));
  v.push(entry!("T369: enum () | (A)", T369));
  v.push(entry!("T370: enum () | { B, A }", T370));
  v.push(entry!("T371: enum () | (Option<A>, C)", T371));
  v.push(entry!("T372: enum () | (Vec<B>)", T372));
  v.push(entry!("T373: enum () | { AB, C }", T373));
  v.push(entry!("T374: enum () | ()", T374));
  v.push(entry!("T375: enum unit | unit | unit", T375));
  v.push(entry!("T376: enum unit | unit | (A)", T376));
  v.push(entry!("T377: enum unit | unit | { B, A }", T377));
  v.push(entry!("T378: enum unit | unit | (Option<A>, C)", T378));
  v.push(entry!("T379: enum unit | unit | (Vec<B>)", T379));
  v.push(entry!("T380: enum unit | unit | { AB, C }", T380));
  v.push(entry!("T381: enum unit | unit | ()", T381));
  v.push(entry!("T382: enum unit | (A) | unit", T382));
  v.push(entry!("T383: enum unit | (A) | (A)", T383));
  v.push(entry!("T384: enum unit | (A) | { B, A }", T384));
  v.push(entry!("T385: enum unit | (A) | (Option<A>, C)", T385));
  v.push(entry!("T386: enum unit | (A) | (Vec<B>)", T386));
  v.push(entry!("T387: enum unit | (A) | { AB, C }", T387));
  v.push(entry!("T388: enum unit | (A) | ()", T388));
  v.push(entry!("T389: enum unit | { B, A } | unit", T389));
  v.push(entry!("T390: enum unit | { B, A } | (A)", T390));
  v.push(entry!("T391: enum unit | { B, A } | { B, A }", T391));
  v.push(entry!("T392: enum unit | { B, A } | (Option<A>, C)", T392));
  v.push(entry!("T393: enum unit | { B, A } | (Vec<B>)", T393));
  v.push(entry!("T394: enum unit | { B, A } | { AB, C }", T394));
  v.push(entry!("T395: enum unit | { B, A } | ()", T395));
  v.push(entry!("T396: enum unit | (Option<A>, C) | unit", T396));
  v.push(entry!("T397: enum unit | (Option<A>, C) | (A)", T397));
  v.push(entry!("T398: enum unit | (Option<A>, C) | { B, A }", T398));
  v.push(entry!("T399: enum unit | (Option<A>, C) | (Option<A>, C)", T399));
}
fn push10(v: &mut Vec<Entry>) {
  v.push(entry!("T400: enum unit | (Option<A>, C) | (Vec<B>)", T400));
  v.push(entry!("T401: enum unit | (Option<A>, C) | { AB, C }", T401));
  v.push(entry!("T402: enum unit | (Option<A>, C) | ()", T402));
  v.push(entry!("T403: enum unit | (Vec<B>) | unit", T403));
  v.push(entry!("T404: enum unit | (Vec<B>) | (A)", T404));
  v.push(entry!("T405: enum unit | (Vec<B>) | { B, A }", T405));
  v.push(entry!("T406: enum unit | (Vec<B>) | (Option<A>, C)", T406));
  v.push(entry!("T407: enum unit | (Vec<B>) | (Vec<B>)", T407));
  v.push(entry!("T408: enum unit | (Vec<B>) | { AB, C }", T408));
  v.push(entry!("T409: enum unit | (Vec<B>) | ()", T409));
  v.push(entry!("T410: enum unit | { AB, C } | unit", T410));
  v.push(entry!("T411: enum unit | { AB, C } | (A)", T411));
  v.push(entry!("T412: enum unit | { AB, C } | { B, A }", T412));
  v.push(entry!("T413: enum unit | { AB, C } | (Option<A>, C)", T413));
  v.push(entry!("T414: enum unit | { AB, C } | (Vec<B>)", T414));
  v.push(entry!("T415: enum unit | { AB, C } | { AB, C }", T415));
  v.push(entry!("T416: enum unit | { AB, C } | ()", T416));
  v.push(entry!("T417: enum unit | () | unit", T417));
  v.push(entry!("T418: enum unit | () | (A)", T418));
  v.push(entry!("T419: enum unit | () | { B, A }", T419));
  v.push(entry!("T420: enum unit | () | (Option<A>, C)", T420));
  v.push(entry!("T421: enum unit | () | (Vec<B>)", T421));
  v.push(entry!("T422: enum unit | () | { AB, C }", T422));
  v.push(entry!("T423: enum unit | () | ()", T423));
  v.push(entry!("T424: enum (A) | unit | unit", T424));
  v.push(entry!("T425: enum (A) | unit | (A)", T425));
  v.push(entry!("T426: enum (A) | unit | { B, A }", T426));
  v.push(entry!("T427: enum (A) | unit | (Option<A>, C)", T427));
  v.push(entry!("T428: enum (A) | unit | (Vec<B>)", T428));
  v.push(entry!("T429: enum (A) | unit | { AB, C }", T429));
  v.push(entry!("T430: enum (A) | unit | ()", T430));
  v.push(entry!("T431: enum (A) | (A) | unit", T431));
  v.push(entry!("T432: enum (A) | (A) | (A)", T432));
  v.push(entry!("T433: enum (A) | (A) | { B, A }", T433));
  v.push(entry!("T434: enum (A) | (A) | (Option<A>, C)", T434));
  v.push(entry!("T435: enum (A) | (A) | (Vec<B>)", T435));
  v.push(entry!("T436: enum (A) | (A) | { AB, C }", T436));
  v.push(entry!("T437: enum (A) | (A) | ()", T437));
  v.push(entry!("T438: enum (A) | { B, A } | unit", T438));
  v.push(entry!("T439: enum (A) | { B, A } | (A)", T439));
}
fn push11(v: &mut Vec<Entry>) {
  v.push(entry!("T440: enum (A) | { B, A } | { B, A }", T440));
  v.push(entry!("T441: enum (A) | { B, A } | (Option<A>, C)", T441));
  v.push(entry!("T442: enum (A) | { B, A } | (Vec<B>)", T442));
  v.push(entry!("T443: enum (A) | { B, A } | { AB, C }", T443));
  v.push(entry!("T444: enum (A) | { B, A } | ()", T444));
  v.push(entry!("T445: enum (A) | (Option<A>, C) | unit", T445));
  v.push(entry!("T446: enum (A) | (Option<A>, C) | (A)", T446));
  v.push(entry!("T447: enum (A) | (Option<A>, C) | { B, A }", T447));
  v.push(entry!("T448: enum (A) | (Option<A>, C) | (Option<A>, C)", T448));
  v.push(entry!("T449: enum (A) | (Option<A>, C) | (Vec<B>)", T449));
  v.push(entry!("T450: enum (A) | (Option<A>, C) | { AB, C }", T450));
  v.push(entry!("T451: enum (A) | (Option<A>, C) | ()", T451));
  v.push(entry!("T452: enum (A) | (Vec<B>) | unit", T452));
  v.push(entry!("T453: enum (A) | (Vec<B>) | (A)", T453));
  v.push(entry!("T454: enum (A) | (Vec<B>) | { B, A }", T454));
  v.push(entry!("T455: enum (A) | (Vec<B>) | (Option<A>, C)", T455));
  v.push(entry!("T456: enum (A) | (Vec<B>) | (Vec<B>)", T456));
  v.push(entry!("T457: enum (A) | (Vec<B>) | { AB, C }", T457));
  v.push(entry!("T458: enum (A) | (Vec<B>) | ()", T458));
  v.push(entry!("T459: enum (A) | { AB, C } | unit", T459));
  v.push(entry!("T460: enum (A) | { AB, C } | (A)", T460));
  v.push(entry!("T461: enum (A) | { AB, C } | { B, A }", T461));
  v.push(entry!("T462: enum (A) | { AB, C } | (Option<A>, C)", T462));
  v.push(entry!("T463: enum (A) | { AB, C } | (Vec<B>)", T463));
  v.push(entry!("T464: enum (A) | { AB, C } | { AB, C }", T464));
  v.push(entry!("T465: enum (A) | { AB, C } | ()", T465));
  v.push(entry!("T466: enum (A) | () | unit", T466));
  v.push(entry!("T467: enum (A) | () | (A)", T467));
  v.push(entry!("T468: enum (A) | () | { B, A }", T468));
  v.push(entry!("T469: enum (A) | () | (Option<A>, C)", T469));
  v.push(entry!("T470: enum (A) | () | (Vec<B>)", T470));
  v.push(entry!("T471: enum (A) | () | { AB, C }", T471));
  v.push(entry!("T472: enum (A) | () | ()", T472));
  v.push(entry!("T473: enum { B, A } | unit | unit", T473));
  v.push(entry!("T474: enum { B, A } | unit | (A)", T474));
  v.push(entry!("T475: enum { B, A } | unit | { B, A }", T475));
  v.push(entry!("T476: enum { B, A } | unit | (Option<A>, C)", T476));
  v.push(entry!("T477: enum { B, A } | unit | (Vec<B>)", T477));
  v.push(entry!("T478: enum { B, A } | unit | { AB, C }", T478));
  v.push(entry!("T479: enum { B, A } | unit | ()", T479));
}
fn push12(v: &mut Vec<Entry>) {
  v.push(entry!("T480: enum { B, A } | (A) | unit", T480));
  v.push(entry!("T481: enum { B, A } | (A) | (A)", T481));
  v.push(entry!("T482: enum { B, A } | (A) | { B, A }", T482));
  v.push(entry!("T483: enum { B, A } | (A) | (Option<A>, C)", T483));
  v.push(entry!("T484: enum { B, A } | (A) | (Vec<B>)", T484));
  v.push(entry!("T485: enum { B, A } | (A) | { AB, C }", T485));
  v.push(entry!("T486: enum { B, A } | (A) | ()", T486));
  v.push(entry!("T487: enum { B, A } | { B, A } | unit", T487));
  v.push(entry!("T488: enum { B, A } | { B, A } | (A)", T488));
  v.push(entry!("T489: enum { B, A } | { B, A } | { B, A }", T489));
  v.push(entry!("T490: enum { B, A } | { B, A } | (Option<A>, C)", T490));
  v.push(entry!("T491: enum { B, A } | { B, A } | (Vec<B>)", T491));
  v.push(entry!("T492: enum { B, A } | { B, A } | { AB, C }", T492));
  v.push(entry!("T493: enum { B, A } | { B, A } | ()", T493));
  v.push(entry!("T494: enum { B, A } | (Option<A>, C) | unit", T494));
  v.push(entry!("T495: enum { B, A } | (Option<A>, C) | (A)", T495));
  v.push(entry!("T496: enum { B, A } | (Option<A>, C) | { B, A }", T496));
  v.push(entry!("T497: enum { B, A } | (Option<A>, C) | (Option<A>, C)", T497));
  v.push(entry!("T498: enum { B, A } | (Option<A>, C) | (Vec<B>)", T498));
  v.push(entry!("T499: enum { B, A } | (Option<A>, C) | { AB, C }", T499));
  v.push(entry!("T500: enum { B, A } | (Option<A>, C) | ()", T500));
  v.push(entry!("T501: enum { B, A } | (Vec<B>) | unit", T501));
  v.push(entry!("T502: enum { B, A } | (Vec<B>) | (A)", T502));
  v.push(entry!("T503: enum { B, A } | (Vec<B>) | { B, A }", T503));
  v.push(entry!("T504: enum { B, A } | (Vec<B>) | (Option<A>, C)", T504));
  v.push(entry!("T505: enum { B, A } | (Vec<B>) | (Vec<B>)", T505));
  v.push(entry!("T506: enum { B, A } | (Vec<B>) | { AB, C }", T506));
  v.push(entry!("T507: enum { B, A } | (Vec<B>) | ()", T507));
  v.push(entry!("T508: enum { B, A } | { AB, C } | unit", T508));
  v.push(entry!("T509: enum { B, A } | { AB, C } | (A)", T509));
  v.push(entry!("T510: enum { B, A } | { AB, C } | { B, A }", T510));
  v.push(entry!("T511: enum { B, A } | { AB, C } | (Option<A>, C)", T511));
  v.push(entry!("T512: enum { B, A } | { AB, C } | (Vec<B>)", T512));
  v.push(entry!("T513: enum { B, A } | { AB, C } | { AB, C }", T513));
  v.push(entry!("T514: enum { B, A } | { AB, C } | ()", T514));
  v.push(entry!("T515: enum { B, A } | () | unit", T515));
  v.push(entry!("T516: enum { B, A } | () | (A)", T516));
  v.push(entry!("T517: enum { B, A } | () | { B, A }", T517));
  v.push(entry!("T518: enum { B, A } | () | (Option<A>, C)", T518));
  v.push(entry!("T519: enum { B, A } | () | (Vec<B>)", T519));
}
fn push13(v: &mut Vec<Entry>) {
  v.push(entry!("T520: enum { B, A } | () | { AB, C }", T520));
  v.push(entry!("T521: enum { B, A } | () | ()", T521));
  v.push(entry!("T522: enum (Option<A>, C) | unit | unit", T522));
  v.push(entry!("T523: enum (Option<A>, C) | unit | (A)", T523));
  v.push(entry!("T524: enum (Option<A>, C) | unit | { B, A }", T524));
  v.push(entry!("T525: enum (Option<A>, C) | unit | (Option<A>, C)", T525));
  v.push(entry!("T526: enum (Option<A>, C) | unit | (Vec<B>)", T526));
  v.push(entry!("T527: enum (Option<A>, C) | unit | { AB, C }", T527));
  v.push(entry!("T528: enum (Option<A>, C) | unit | ()", T528));
  v.push(entry!("T529: enum (Option<A>, C) | (A) | unit", T529));
  v.push(entry!("T530: enum (Option<A>, C) | (A) | (A)", T530));
  v.push(entry!("T531: enum (Option<A>, C) | (A) | { B, A }", T531));
  v.push(entry!("T532: enum (Option<A>, C) | (A) | (Option<A>, C)", T532));
  v.push(entry!("T533: enum (Option<A>, C) | (A) | (Vec<B>)", T533));
  v.push(entry!("T534: enum (Option<A>, C) | (A) | { AB, C }", T534));
  v.push(entry!("T535: enum (Option<A>, C) | (A) | ()", T535));
  v.push(entry!("T536: enum (Option<A>, C) | { B, A } | unit", T536));
  v.push(entry!("T537: enum (Option<A>, C) | { B, A } | (A)", T537));
  v.push(entry!("T538: enum (Option<A>, C) | { B, A } | { B, A }", T538));
  v.push(entry!("T539: enum (Option<A>, C) | { B, A } | (Option<A>, C)", T539));
  v.push(entry!("T540: enum (Option<A>, C) | { B, A } | (Vec<B>)", T540));
  v.push(entry!("T541: enum (Option<A>, C) | { B, A } | { AB, C }", T541));
  v.push(entry!("T542: enum (Option<A>, C) | { B, A } | ()", T542));
  v.push(entry!("T543: enum (Option<A>, C) | (Option<A>, C) | unit", T543));
  v.push(entry!("T544: enum (Option<A>, C) | (Option<A>, C) | (A)", T544));
  v.push(entry!("T545: enum (Option<A>, C) | (Option<A>, C) | { B, A }", T545));
  v.push(entry!("T546: enum (Option<A>, C) | (Option<A>, C) | (Option<A>, C)", T546));
  v.push(entry!("T547: enum (Option<A>, C) | (Option<A>, C) | (Vec<B>)", T547));
  v.push(entry!("T548: enum (Option<A>, C) | (Option<A>, C) | { AB, C }", T548));
  v.push(entry!("T549: enum (Option<A>, C) | (Option<A>, C) | ()", T549));
  v.push(entry!("T550: enum (Option<A>, C) | (Vec<B>) | unit", T550));
  v.push(entry!("T551: enum (Option<A>, C) | (Vec<B>) | (A)", T551));
  v.push(entry!("T552: enum (Option<A>, C) | (Vec<B>) | { B, A }", T552));
  v.push(entry!("T553: enum (Option<A>, C) | (Vec<B>) | (Option<A>, C)", T553));
  v.push(entry!("T554: enum (Option<A>, C) | (Vec<B>) | (Vec<B>)", T554));
  v.push(entry!("T555: enum (Option<A>, C) | (Vec<B>) | { AB, C }", T555));
  v.push(entry!("T556: enum (Option<A>, C) | (Vec<B>) | ()", T556));
  v.push(entry!("T557: enum (Option<A>, C) | { AB, C } | unit", T557));
  v.push(entry!("T558: enum (Option<A>, C) | { AB, C } | (A)", T558));
  v.push(entry!("T559: enum (Option<A>, C) | { AB, C } | { B, A }", T559));
}
fn push14(v: &mut Vec<Entry>) {
  v.push(entry!("T560: enum (Option<A>, C) | { AB, C } | (Option<A>, C)", T560));
  v.push(entry!("T561: enum (Option<A>, C) | { AB, C } | (Vec<B>)", T561));
  v.push(entry!("T562: enum (Option<A>, C) | { AB, C } | { AB, C }", T562));
  v.push(entry!("T563: enum (Option<A>, C) | { AB, C } | ()", T563));
  v.push(entry!("T564: enum (Option<A>, C) | () | unit", T564));
  v.push(entry!("T565: enum (Option<A>, C) | () | (A)", T565));
  v.push(entry!("T566: enum (Option<A>, C) | () | { B, A }", T566));
  v.push(entry!("T567: enum (Option<A>, C) | () | (Option<A>, C)", T567));
  v.push(entry!("T568: enum (Option<A>, C) | () | (Vec<B>)", T568));
  v.push(entry!("T569: enum (Option<A>, C) | () | { AB, C }", T569));
  v.push(entry!("T570: enum (Option<A>, C) | () | ()", T570));
  v.push(entry!("T571: enum (Vec<B>) | unit | unit", T571));
  v.push(entry!("T572: enum (Vec<B>) | unit | (A)", T572));
  v.push(entry!("T573: enum (Vec<B>) | unit | { B, A }", T573));
  v.push(entry!("T574: enum (Vec<B>) | unit | (Option<A>, C)", T574));
  v.push(entry!("T575: enum (Vec<B>) | unit | (Vec<B>)", T575));
  v.push(entry!("T576: enum (Vec<B>) | unit | { AB, C }", T576));
  v.push(entry!("T577: enum (Vec<B>) | unit | ()", T577));
  v.push(entry!("T578: enum (Vec<B>) | (A) | unit", T578));
  v.push(entry!("T579: enum (Vec<B>) | (A) | (A)", T579));
  v.push(entry!("T580: enum (Vec<B>) | (A) | { B, A }", T580));
  v.push(entry!("T581: enum (Vec<B>) | (A) | (Option<A>, C)", T581));
  v.push(entry!("T582: enum (Vec<B>) | (A) | (Vec<B>)", T582));
  v.push(entry!("T583: enum (Vec<B>) | (A) | { AB, C }", T583));
  v.push(entry!("T584: enum (Vec<B>) | (A) | ()", T584));
  v.push(entry!("T585: enum (Vec<B>) | { B, A } | unit", T585));
  v.push(entry!("T586: enum (Vec<B>) | { B, A } | (A)", T586));
  v.push(entry!("T587: enum (Vec<B>) | { B, A } | { B, A }", T587));
  v.push(entry!("T588: enum (Vec<B>) | { B, A } | (Option<A>, C)", T588));
  v.push(entry!("T589: enum (Vec<B>) | { B, A } | (Vec<B>)", T589));
  v.push(entry!("T590: enum (Vec<B>) | { B, A } | { AB, C }", T590));
  v.push(entry!("T591: enum (Vec<B>) | { B, A } | ()", T591));
  v.push(entry!("T592: enum (Vec<B>) | (Option<A>, C) | unit", T592));
  v.push(entry!("T593: enum (Vec<B>) | (Option<A>, C) | (A)", T593));
  v.push(entry!("T594: enum (Vec<B>) | (Option<A>, C) | { B, A }", T594));
  v.push(entry!("T595: enum (Vec<B>) | (Option<A>, C) | (Option<A>, C)", T595));
  v.push(entry!("T596: enum (Vec<B>) | (Option<A>, C) | (Vec<B>)", T596));
  v.push(entry!("T597: enum (Vec<B>) | (Option<A>, C) | { AB, C }", T597));
  v.push(entry!("T598: enum (Vec<B>) | (Option<A>, C) | ()", T598));
  v.push(entry!("T599: enum (Vec<B>) | (Vec<B>) | unit", T599));
}
fn push15(v: &mut Vec<Entry>) {
  v.push(entry!("T600: enum (Vec<B>) | (Vec<B>) | (A)", T600));
  v.push(entry!("T601: enum (Vec<B>) | (Vec<B>) | { B, A }", T601));
  v.push(entry!("T602: enum (Vec<B>) | (Vec<B>) | (Option<A>, C)", T602));
  v.push(entry!("T603: enum (Vec<B>) | (Vec<B>) | (Vec<B>)", T603));
  v.push(entry!("T604: enum (Vec<B>) | (Vec<B>) | { AB, C }", T604));
  v.push(entry!("T605: enum (Vec<B>) | (Vec<B>) | ()", T605));
  v.push(entry!("T606: enum (Vec<B>) | { AB, C } | unit", T606));
  v.push(entry!("T607: enum (Vec<B>) | { AB, C } | (A)", T607));
  v.push(entry!("T608: enum (Vec<B>) | { AB, C } | { B, A }", T608));
  v.push(entry!("T609: enum (Vec<B>) | { AB, C } | (Option<A>, C)", T609));
  v.push(entry!("T610: enum (Vec<B>) | { AB, C } | (Vec<B>)", T610));
  v.push(entry!("T611: enum (Vec<B>) | { AB, C } | { AB, C }", T611));
  v.push(entry!("T612: enum (Vec<B>) | { AB, C } | ()", T612));
  v.push(entry!("T613: enum (Vec<B>) | () | unit", T613));
  v.push(entry!("T614: enum (Vec<B>) | () | (A)", T614));
  v.push(entry!("T615: enum (Vec<B>) | () | { B, A }", T615));
  v.push(entry!("T616: enum (Vec<B>) | () | (Option<A>, C)", T616));
  v.push(entry!("T617: enum (Vec<B>) | () | (Vec<B>)", T617));
  v.push(entry!("T618: enum (Vec<B>) | () | { AB, C }", T618));
  v.push(entry!("T619: enum (Vec<B>) | () | ()", T619));
  v.push(entry!("T620: enum { AB, C } | unit | unit", T620));
  v.push(entry!("T621: enum { AB, C } | unit | (A)", T621));
  v.push(entry!("T622: enum { AB, C } | unit | { B, A }", T622));
  v.push(entry!("T623: enum { AB, C } | unit | (Option<A>, C)", T623));
  v.push(entry!("T624: enum { AB, C } | unit | (Vec<B>)", T624));
  v.push(entry!("T625: enum { AB, C } | unit | { AB, C }", T625));
  v.push(entry!("T626: enum { AB, C } | unit | ()", T626));
  v.push(entry!("T627: enum { AB, C } | (A) | unit", T627));
  v.push(entry!("T628: enum { AB, C } | (A) | (A)", T628));
  v.push(entry!("T629: enum { AB, C } | (A) | { B, A }", T629));
  v.push(entry!("T630: enum { AB, C } | (A) | (Option<A>, C)", T630));
  v.push(entry!("T631: enum { AB, C } | (A) | (Vec<B>)", T631));
  v.push(entry!("T632: enum { AB, C } | (A) | { AB, C }", T632));
  v.push(entry!("T633: enum { AB, C } | (A) | ()", T633));
  v.push(entry!("T634: enum { AB, C } | { B, A } | unit", T634));
  v.push(entry!("T635: enum { AB, C } | { B, A } | (A)", T635));
  v.push(entry!("T636: enum { AB, C } | { B, A } | { B, A }", T636));
  v.push(entry!("T637: enum { AB, C } | { B, A } | (Option<A>, C)", T637));
  v.push(entry!("T638: enum { AB, C } | { B, A } | (Vec<B>)", T638));
  v.push(entry!("T639: enum { AB, C } | { B, A } | { AB, C }", T639));
}
fn push16(v: &mut Vec<Entry>) {
  v.push(entry!("T640: enum { AB, C } | { B, A } | ()", T640));
  v.push(entry!("T641: enum { AB, C } | (Option<A>, C) | unit", T641));
  v.push(entry!("T642: enum { AB, C } | (Option<A>, C) | (A)", T642));
  v.push(entry!("T643: enum { AB, C } | (Option<A>, C) | { B, A }", T643));
  v.push(entry!("T644: enum { AB, C } | (Option<A>, C) | (Option<A>, C)", T644));
  v.push(entry!("T645: enum { AB, C } | (Option<A>, C) | (Vec<B>)", T645));
  v.push(entry!("T646: enum { AB, C } | (Option<A>, C) | { AB, C }", T646));
  v.push(entry!("T647: enum { AB, C } | (Option<A>, C) | ()", T647));
  v.push(entry!("T648: enum { AB, C } | (Vec<B>) | unit", T648));
  v.push(entry!("T649: enum { AB, C } | (Vec<B>) | (A)", T649));
  v.push(entry!("T650: enum { AB, C } | (Vec<B>) | { B, A }", T650));
  v.push(entry!("T651: enum { AB, C } | (Vec<B>) | (Option<A>, C)", T651));
  v.push(entry!("T652: enum { AB, C } | (Vec<B>) | (Vec<B>)", T652));
  v.push(entry!("T653: enum { AB, C } | (Vec<B>) | { AB, C }", T653));
  v.push(entry!("T654: enum { AB, C } | (Vec<B>) | ()", T654));
  v.push(entry!("T655: enum { AB, C } | { AB, C } | unit", T655));
  v.push(entry!("T656: enum { AB, C } | { AB, C } | (A)", T656));
  v.push(entry!("T657: enum { AB, C } | { AB, C } | { B, A }", T657));
  v.push(entry!("T658: enum { AB, C } | { AB, C } | (Option<A>, C)", T658));
  v.push(entry!("T659: enum { AB, C } | { AB, C } | (Vec<B>)", T659));
  v.push(entry!("T660: enum { AB, C } | { AB, C } | { AB, C }", T660));
  v.push(entry!("T661: enum { AB, C } | { AB, C } | ()", T661));
  v.push(entry!("T662: enum { AB, C } | () | unit", T662));
  v.push(entry!("T663: enum { AB, C } | () | (A)", T663));
  v.push(entry!("T664: enum { AB, C } | () | { B, A }", T664));
  v.push(entry!("T665: enum { AB, C } | () | (Option<A>, C)", T665));
  v.push(entry!("T666: enum { AB, C } | () | (Vec<B>)", T666));
  v.push(entry!("T667: enum { AB, C } | () | { AB, C }", T667));
  v.push(entry!("T668: enum { AB, C } | () | ()", T668));
  v.push(entry!("T669: enum () | unit | unit", T669));
  v.push(entry!("T670: enum () | unit | (A)", T670));
  v.push(entry!("T671: enum () | unit | { B, A }", T671));
  v.push(entry!("T672: enum () | unit | (Option<A>, C)", T672));
  v.push(entry!("T673: enum () | unit | (Vec<B>)", T673));
  v.push(entry!("T674: enum () | unit | { AB, C }", T674));
  v.push(entry!("T675: enum () | unit | ()", T675));
  v.push(entry!("T676: enum () | (A) | unit", T676));
  v.push(entry!("T677: enum () | (A) | (A)", T677));
  v.push(entry!("T678: enum () | (A) | { B, A }", T678));
  v.push(entry!("T679: enum () | (A) | (Option<A>, C)", T679));
}
fn push17(v: &mut Vec<Entry>) {
  v.push(entry!("T680: enum () | (A) | (Vec<B>)", T680));
  v.push(entry!("T681: enum () | (A) | { AB, C }", T681));
  v.push(entry!("T682: enum () | (A) | ()", T682));
  v.push(entry!("T683: enum () | { B, A } | unit", T683));
  v.push(entry!("T684: enum () | { B, A } | (A)", T684));
  v.push(entry!("T685: enum () | { B, A } | { B, A }", T685));
  v.push(entry!("T686: enum () | { B, A } | (Option<A>, C)", T686));
  v.push(entry!("T687: enum () | { B, A } | (Vec<B>)", T687));
  v.push(entry!("T688: enum () | { B, A } | { AB, C }", T688));
  v.push(entry!("T689: enum () | { B, A } | ()", T689));
  v.push(entry!("T690: enum () | (Option<A>, C) | unit", T690));
  v.push(entry!("T691: enum () | (Option<A>, C) | (A)", T691));
  v.push(entry!("T692: enum () | (Option<A>, C) | { B, A }", T692));
  v.push(entry!("T693: enum () | (Option<A>, C) | (Option<A>, C)", T693));
  v.push(entry!("T694: enum () | (Option<A>, C) | (Vec<B>)", T694));
  v.push(entry!("T695: enum () | (Option<A>, C) | { AB, C }", T695));
  v.push(entry!("T696: enum () | (Option<A>, C) | ()", T696));
  v.push(entry!("T697: enum () | (Vec<B>) | unit", T697));
  v.push(entry!("T698: enum () | (Vec<B>) | (A)", T698));
  v.push(entry!("T699: enum () | (Vec<B>) | { B, A }", T699));
  v.push(entry!("T700: enum () | (Vec<B>) | (Option<A>, C)", T700));
  v.push(entry!("T701: enum () | (Vec<B>) | (Vec<B>)", T701));
  v.push(entry!("T702: enum () | (Vec<B>) | { AB, C }", T702));
  v.push(entry!("T703: enum () | (Vec<B>) | ()", T703));
  v.push(entry!("T704: enum () | { AB, C } | unit", T704));
  v.push(entry!("T705: enum () | { AB, C } | (A)", T705));
  v.push(entry!("T706: enum () | { AB, C } | { B, A }", T706));
  v.push(entry!("T707: enum () | { AB, C } | (Option<A>, C)", T707));
  v.push(entry!("T708: enum () | { AB, C } | (Vec<B>)", T708));
  v.push(entry!("T709: enum () | { AB, C } | { AB, C }", T709));
  v.push(entry!("T710: enum () | { AB, C } | ()", T710));
  v.push(entry!("T711: enum () | () | unit", T711));
  v.push(entry!("T712: enum () | () | (A)", T712));
  v.push(entry!("T713: enum () | () | { B, A }", T713));
  v.push(entry!("T714: enum () | () | (Option<A>, C)", T714));
  v.push(entry!("T715: enum () | () | (Vec<B>)", T715));
  v.push(entry!("T716: enum () | () | { AB, C }", T716));
  v.push(entry!("T717: enum () | () | ()", T717));
  v.push(entry!("T718: enum { A, B } | (B, Option<A>) | { C } | (D, AB)", T718));
  v.push(entry!("T719: enum { A, B } | (B, Option<A>) | (D, AB) | { C }", T719));
}
fn push18(v: &mut Vec<Entry>) {
  v.push(entry!("T720: enum { A, B } | { C } | (B, Option<A>) | (D, AB)", T720));
  v.push(entry!("T721: enum { A, B } | { C } | (D, AB) | (B, Option<A>)", T721));
  v.push(entry!("T722: enum { A, B } | (D, AB) | (B, Option<A>) | { C }", T722));
  v.push(entry!("T723: enum { A, B } | (D, AB) | { C } | (B, Option<A>)", T723));
  v.push(entry!("T724: enum (B, Option<A>) | { A, B } | { C } | (D, AB)", T724));
  v.push(entry!("T725: enum (B, Option<A>) | { A, B } | (D, AB) | { C }", T725));
  v.push(entry!("T726: enum (B, Option<A>) | { C } | { A, B } | (D, AB)", T726));
  v.push(entry!("T727: enum (B, Option<A>) | { C } | (D, AB) | { A, B }", T727));
  v.push(entry!("T728: enum (B, Option<A>) | (D, AB) | { A, B } | { C }", T728));
  v.push(entry!("T729: enum (B, Option<A>) | (D, AB) | { C } | { A, B }", T729));
  v.push(entry!("T730: enum { C } | { A, B } | (B, Option<A>) | (D, AB)", T730));
  v.push(entry!("T731: enum { C } | { A, B } | (D, AB) | (B, Option<A>)", T731));
  v.push(entry!("T732: enum { C } | (B, Option<A>) | { A, B } | (D, AB)", T732));
  v.push(entry!("T733: enum { C } | (B, Option<A>) | (D, AB) | { A, B }", T733));
  v.push(entry!("T734: enum { C } | (D, AB) | { A, B } | (B, Option<A>)", T734));
  v.push(entry!("T735: enum { C } | (D, AB) | (B, Option<A>) | { A, B }", T735));
  v.push(entry!("T736: enum (D, AB) | { A, B } | (B, Option<A>) | { C }", T736));
  v.push(entry!("T737: enum (D, AB) | { A, B } | { C } | (B, Option<A>)", T737));
  v.push(entry!("T738: enum (D, AB) | (B, Option<A>) | { A, B } | { C }", T738));
  v.push(entry!("T739: enum (D, AB) | (B, Option<A>) | { C } | { A, B }", T739));
  v.push(entry!("T740: enum (D, AB) | { C } | { A, B } | (B, Option<A>)", T740));
  v.push(entry!("T741: enum (D, AB) | { C } | (B, Option<A>) | { A, B }", T741));
  v.push(entry!("T742: enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | { C }", T742));
  v.push(entry!("T743: enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", T743));
  v.push(entry!("T744: enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", T744));
  v.push(entry!("T745: enum (C) | (C)", T745));
  v.push(entry!("T746: enum (C) | (Box<B>)", T746));
  v.push(entry!("T747: enum (C) | (Option<Vec<C>>)", T747));
  v.push(entry!("T748: enum (C) | (TokenPrefix<A, B>)", T748));
  v.push(entry!("T749: enum (C) | (OptPrefix<B, C>)", T749));
  v.push(entry!("T750: enum (C) | (NonEmptySeq<A>)", T750));
  v.push(entry!("T751: enum (Box<B>) | (C)", T751));
  v.push(entry!("T752: enum (Box<B>) | (Box<B>)", T752));
  v.push(entry!("T753: enum (Box<B>) | (Option<Vec<C>>)", T753));
  v.push(entry!("T754: enum (Box<B>) | (TokenPrefix<A, B>)", T754));
  v.push(entry!("T755: enum (Box<B>) | (OptPrefix<B, C>)", T755));
  v.push(entry!("T756: enum (Box<B>) | (NonEmptySeq<A>)", T756));
  v.push(entry!("T757: enum (Option<Vec<C>>) | (C)", T757));
  v.push(entry!("T758: enum (Option<Vec<C>>) | (Box<B>)", T758));
  v.push(entry!("T759: enum (Option<Vec<C>>) | (Option<Vec<C>>)", T759));
}
fn push19(v: &mut Vec<Entry>) {
  v.push(entry!("T760: enum (Option<Vec<C>>) | (TokenPrefix<A, B>)", T760));
  v.push(entry!("T761: enum (Option<Vec<C>>) | (OptPrefix<B, C>)", T761));
  v.push(entry!("T762: enum (Option<Vec<C>>) | (NonEmptySeq<A>)", T762));
  v.push(entry!("T763: enum (TokenPrefix<A, B>) | (C)", T763));
  v.push(entry!("T764: enum (TokenPrefix<A, B>) | (Box<B>)", T764));
  v.push(entry!("T765: enum (TokenPrefix<A, B>) | (Option<Vec<C>>)", T765));
  v.push(entry!("T766: enum (TokenPrefix<A, B>) | (TokenPrefix<A, B>)", T766));
  v.push(entry!("T767: enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", T767));
  v.push(entry!("T768: enum (TokenPrefix<A, B>) | (NonEmptySeq<A>)", T768));
  v.push(entry!("T769: enum (OptPrefix<B, C>) | (C)", T769));
  v.push(entry!("T770: enum (OptPrefix<B, C>) | (Box<B>)", T770));
  v.push(entry!("T771: enum (OptPrefix<B, C>) | (Option<Vec<C>>)", T771));
  v.push(entry!("T772: enum (OptPrefix<B, C>) | (TokenPrefix<A, B>)", T772));
  v.push(entry!("T773: enum (OptPrefix<B, C>) | (OptPrefix<B, C>)", T773));
  v.push(entry!("T774: enum (OptPrefix<B, C>) | (NonEmptySeq<A>)", T774));
  v.push(entry!("T775: enum (NonEmptySeq<A>) | (C)", T775));
  v.push(entry!("T776: enum (NonEmptySeq<A>) | (Box<B>)", T776));
  v.push(entry!("T777: enum (NonEmptySeq<A>) | (Option<Vec<C>>)", T777));
  v.push(entry!("T778: enum (NonEmptySeq<A>) | (TokenPrefix<A, B>)", T778));
  v.push(entry!("T779: enum (NonEmptySeq<A>) | (OptPrefix<B, C>)", T779));
  v.push(entry!("T780: enum (NonEmptySeq<A>) | (NonEmptySeq<A>)", T780));
  v.push(entry!("T781: struct { A, B } starts_with(A)", T781));
  v.push(entry!("T782: struct (Option<A>, Vec<B>, C) starts_with(A)", T782));
  v.push(entry!("T783: struct unit starts_with(A)", T783));
  v.push(entry!("T784: enum (A, B) | { B } starts_with(A)", T784));
  v.push(entry!("T785: enum (Option<A>) | unit starts_with(A)", T785));
  v.push(entry!("T786: struct { A, B } starts_with(A, B)", T786));
  v.push(entry!("T787: struct (Option<A>, Vec<B>, C) starts_with(A, B)", T787));
  v.push(entry!("T788: struct unit starts_with(A, B)", T788));
  v.push(entry!("T789: enum (A, B) | { B } starts_with(A, B)", T789));
  v.push(entry!("T790: enum (Option<A>) | unit starts_with(A, B)", T790));
  v.push(entry!("T791: struct { A, B } starts_with(AB, A)", T791));
  v.push(entry!("T792: struct (Option<A>, Vec<B>, C) starts_with(AB, A)", T792));
  v.push(entry!("T793: struct unit starts_with(AB, A)", T793));
  v.push(entry!("T794: enum (A, B) | { B } starts_with(AB, A)", T794));
  v.push(entry!("T795: enum (Option<A>) | unit starts_with(AB, A)", T795));
  v.push(entry!("T796: struct { A, B } starts_with(A, AB, C)", T796));
  v.push(entry!("T797: struct (Option<A>, Vec<B>, C) starts_with(A, AB, C)", T797));
  v.push(entry!("T798: struct unit starts_with(A, AB, C)", T798));
  v.push(entry!("T799: enum (A, B) | { B } starts_with(A, AB, C)", T799));
}
fn push20(v: &mut Vec<Entry>) {
  v.push(entry!("T800: enum (Option<A>) | unit starts_with(A, AB, C)", T800));
  v.push(entry!("T801: struct { A, B } starts_with(A, B, C, D)", T801));
  v.push(entry!("T802: struct (Option<A>, Vec<B>, C) starts_with(A, B, C, D)", T802));
  v.push(entry!("T803: struct unit starts_with(A, B, C, D)", T803));
  v.push(entry!("T804: enum (A, B) | { B } starts_with(A, B, C, D)", T804));
  v.push(entry!("T805: enum (Option<A>) | unit starts_with(A, B, C, D)", T805));
  v.push(entry!("T806: struct { A, B } starts_with(B)", T806));
  v.push(entry!("T807: struct (Option<A>, Vec<B>, C) starts_with(B)", T807));
  v.push(entry!("T808: struct unit starts_with(B)", T808));
  v.push(entry!("T809: enum (A, B) | { B } starts_with(B)", T809));
  v.push(entry!("T810: enum (Option<A>) | unit starts_with(B)", T810));
  v.push(entry!("T811: struct { A, Option<A>, B }", T811));
  v.push(entry!("T812: enum { B, Option<A> } | (A)", T812));
  v.push(entry!("T813: struct { A, B }", T813));
  v.push(entry!("T814: struct { A, B }", T814));
  v.push(entry!("Vec<T3> of struct (A)", Vec<T3>));
  v.push(entry!("Option<T3> of struct (A)", Option<T3>));
  v.push(entry!("SepSeq<T3, D> of struct (A)", SepSeq<T3, D>));
  v.push(entry!("OptSepList<T3, D> of struct (A)", OptSepList<T3, D>));
  v.push(entry!("Vec<T13> of struct (A, Vec<B>)", Vec<T13>));
  v.push(entry!("Option<T13> of struct (A, Vec<B>)", Option<T13>));
  v.push(entry!("SepSeq<T13, D> of struct (A, Vec<B>)", SepSeq<T13, D>));
  v.push(entry!("OptSepList<T13, D> of struct (A, Vec<B>)", OptSepList<T13, D>));
  v.push(entry!("Vec<T20> of struct { B, SepSeq<A, C> }", Vec<T20>));
  v.push(entry!("Option<T20> of struct { B, SepSeq<A, C> }", Option<T20>));
  v.push(entry!("SepSeq<T20, D> of struct { B, SepSeq<A, C> }", SepSeq<T20, D>));
  v.push(entry!("OptSepList<T20, D> of struct { B, SepSeq<A, C> }", OptSepList<T20, D>));
  v.push(entry!("Vec<T27> of struct (Option<A>, A)", Vec<T27>));
  v.push(entry!("Option<T27> of struct (Option<A>, A)", Option<T27>));
  v.push(entry!("SepSeq<T27, D> of struct (Option<A>, A)", SepSeq<T27, D>));
  v.push(entry!("OptSepList<T27, D> of struct (Option<A>, A)", OptSepList<T27, D>));
  v.push(entry!("Vec<T40> of struct { SepSeq<A, C>, B }", Vec<T40>));
  v.push(entry!("Option<T40> of struct { SepSeq<A, C>, B }", Option<T40>));
  v.push(entry!("SepSeq<T40, D> of struct { SepSeq<A, C>, B }", SepSeq<T40, D>));
  v.push(entry!("OptSepList<T40, D> of struct { SepSeq<A, C>, B }", OptSepList<T40, D>));
  v.push(entry!("Vec<T50> of struct { A, A, SepSeq<A, C> }", Vec<T50>));
  v.push(entry!("Option<T50> of struct { A, A, SepSeq<A, C> }", Option<T50>));
  v.push(entry!("SepSeq<T50, D> of struct { A, A, SepSeq<A, C> }", SepSeq<T50, D>));
  v.push(entry!("OptSepList<T50, D> of struct { A, A, SepSeq<A, C> }", OptSepList<T50, D>));
  v.push(entry!("Vec<T57> of struct (A, AB, A)", Vec<T57>));
}
fn push21(v: &mut Vec<Entry>) {
  v.push(entry!("Option<T57> of struct (A, AB, A)", Option<T57>));
  v.push(entry!("SepSeq<T57, D> of struct (A, AB, A)", SepSeq<T57, D>));
  v.push(entry!("OptSepList<T57, D> of struct (A, AB, A)", OptSepList<T57, D>));
  v.push(entry!("Vec<T64> of struct { A, Option<A>, B }", Vec<T64>));
  v.push(entry!("Option<T64> of struct { A, Option<A>, B }", Option<T64>));
  v.push(entry!("SepSeq<T64, D> of struct { A, Option<A>, B }", SepSeq<T64, D>));
  v.push(entry!("OptSepList<T64, D> of struct { A, Option<A>, B }", OptSepList<T64, D>));
  v.push(entry!("Vec<T71> of struct (A, Vec<B>, AB)", Vec<T71>));
  v.push(entry!("Option<T71> of struct (A, Vec<B>, AB)", Option<T71>));
  v.push(entry!("SepSeq<T71, D> of struct (A, Vec<B>, AB)", SepSeq<T71, D>));
  v.push(entry!("OptSepList<T71, D> of struct (A, Vec<B>, AB)", OptSepList<T71, D>));
  v.push(entry!("Vec<T78> of struct { A, SepSeq<A, C>, Option<A> }", Vec<T78>));
  v.push(entry!("Option<T78> of struct { A, SepSeq<A, C>, Option<A> }", Option<T78>));
  v.push(entry!("SepSeq<T78, D> of struct { A, SepSeq<A, C>, Option<A> }", SepSeq<T78, D>));
  v.push(entry!("OptSepList<T78, D> of struct { A, SepSeq<A, C>, Option<A> }", OptSepList<T78, D>));
  v.push(entry!("Vec<T85> of struct (B, A, Vec<B>)", Vec<T85>));
  v.push(entry!("Option<T85> of struct (B, A, Vec<B>)", Option<T85>));
  v.push(entry!("SepSeq<T85, D> of struct (B, A, Vec<B>)", SepSeq<T85, D>));
  v.push(entry!("OptSepList<T85, D> of struct (B, A, Vec<B>)", OptSepList<T85, D>));
  v.push(entry!("Vec<T92> of struct { B, B, SepSeq<A, C> }", Vec<T92>));
  v.push(entry!("Option<T92> of struct { B, B, SepSeq<A, C> }", Option<T92>));
  v.push(entry!("SepSeq<T92, D> of struct { B, B, SepSeq<A, C> }", SepSeq<T92, D>));
  v.push(entry!("OptSepList<T92, D> of struct { B, B, SepSeq<A, C> }", OptSepList<T92, D>));
  v.push(entry!("Vec<T99> of struct (B, Option<A>, A)", Vec<T99>));
  v.push(entry!("Option<T99> of struct (B, Option<A>, A)", Option<T99>));
  v.push(entry!("SepSeq<T99, D> of struct (B, Option<A>, A)", SepSeq<T99, D>));
  v.push(entry!("OptSepList<T99, D> of struct (B, Option<A>, A)", OptSepList<T99, D>));
  v.push(entry!("Vec<T106> of struct { B, Vec<B>, B }", Vec<T106>));
  v.push(entry!("Option<T106> of struct { B, Vec<B>, B }", Option<T106>));
  v.push(entry!("SepSeq<T106, D> of struct { B, Vec<B>, B }", SepSeq<T106, D>));
  v.push(entry!("OptSepList<T106, D> of struct { B, Vec<B>, B }", OptSepList<T106, D>));
  v.push(entry!("Vec<T113> of struct (B, SepSeq<A, C>, AB)", Vec<T113>));
  v.push(entry!("Option<T113> of struct (B, SepSeq<A, C>, AB)", Option<T113>));
  v.push(entry!("SepSeq<T113, D> of struct (B, SepSeq<A, C>, AB)", SepSeq<T113, D>));
  v.push(entry!("OptSepList<T113, D> of struct (B, SepSeq<A, C>, AB)", OptSepList<T113, D>));
  v.push(entry!("Vec<T120> of struct { AB, A, Option<A> }", Vec<T120>));
  v.push(entry!("Option<T120> of struct { AB, A, Option<A> }", Option<T120>));
  v.push(entry!("SepSeq<T120, D> of struct { AB, A, Option<A> }", SepSeq<T120, D>));
  v.push(entry!("OptSepList<T120, D> of struct { AB, A, Option<A> }", OptSepList<T120, D>));
  v.push(entry!("Vec<T127> of struct (AB, B, Vec<B>)", Vec<T127>));
}
fn push22(v: &mut Vec<Entry>) {
  v.push(entry!("Option<T127> of struct (AB, B, Vec<B>)", Option<T127>));
  v.push(entry!("SepSeq<T127, D> of struct (AB, B, Vec<B>)", SepSeq<T127, D>));
  v.push(entry!("OptSepList<T127, D> of struct (AB, B, Vec<B>)", OptSepList<T127, D>));
  v.push(entry!("Vec<T134> of struct { AB, AB, SepSeq<A, C> }", Vec<T134>));
  v.push(entry!("Option<T134> of struct { AB, AB, SepSeq<A, C> }", Option<T134>));
  v.push(entry!("SepSeq<T134, D> of struct { AB, AB, SepSeq<A, C> }", SepSeq<T134, D>));
  v.push(entry!("OptSepList<T134, D> of struct { AB, AB, SepSeq<A, C> }", OptSepList<T134, D>));
  v.push(entry!("Vec<T141> of struct (AB, Vec<B>, A)", Vec<T141>));
  v.push(entry!("Option<T141> of struct (AB, Vec<B>, A)", Option<T141>));
  v.push(entry!("SepSeq<T141, D> of struct (AB, Vec<B>, A)", SepSeq<T141, D>));
  v.push(entry!("OptSepList<T141, D> of struct (AB, Vec<B>, A)", OptSepList<T141, D>));
  v.push(entry!("Vec<T148> of struct { AB, SepSeq<A, C>, B }", Vec<T148>));
  v.push(entry!("Option<T148> of struct { AB, SepSeq<A, C>, B }", Option<T148>));
  v.push(entry!("SepSeq<T148, D> of struct { AB, SepSeq<A, C>, B }", SepSeq<T148, D>));
  v.push(entry!("OptSepList<T148, D> of struct { AB, SepSeq<A, C>, B }", OptSepList<T148, D>));
  v.push(entry!("Vec<T155> of struct (Option<A>, A, AB)", Vec<T155>));
  v.push(entry!("Option<T155> of struct (Option<A>, A, AB)", Option<T155>));
  v.push(entry!("SepSeq<T155, D> of struct (Option<A>, A, AB)", SepSeq<T155, D>));
  v.push(entry!("OptSepList<T155, D> of struct (Option<A>, A, AB)", OptSepList<T155, D>));
  v.push(entry!("Vec<T162> of struct { Option<A>, B, Option<A> }", Vec<T162>));
  v.push(entry!("Option<T162> of struct { Option<A>, B, Option<A> }", Option<T162>));
  v.push(entry!("SepSeq<T162, D> of struct { Option<A>, B, Option<A> }", SepSeq<T162, D>));
  v.push(entry!("OptSepList<T162, D> of struct { Option<A>, B, Option<A> }", OptSepList<T162, D>));
  v.push(entry!("Vec<T169> of struct (Option<A>, AB, Vec<B>)", Vec<T169>));
  v.push(entry!("Option<T169> of struct (Option<A>, AB, Vec<B>)", Option<T169>));
  v.push(entry!("SepSeq<T169, D> of struct (Option<A>, AB, Vec<B>)", SepSeq<T169, D>));
  v.push(entry!("OptSepList<T169, D> of struct (Option<A>, AB, Vec<B>)", OptSepList<T169, D>));
  v.push(entry!("Vec<T179> of struct (Option<A>, Vec<B>, AB)", Vec<T179>));
  v.push(entry!("Option<T179> of struct (Option<A>, Vec<B>, AB)", Option<T179>));
  v.push(entry!("SepSeq<T179, D> of struct (Option<A>, Vec<B>, AB)", SepSeq<T179, D>));
  v.push(entry!("OptSepList<T179, D> of struct (Option<A>, Vec<B>, AB)", OptSepList<T179, D>));
  v.push(entry!("Vec<T192> of struct { Vec<B>, A, Option<A> }", Vec<T192>));
  v.push(entry!("Option<T192> of struct { Vec<B>, A, Option<A> }", Option<T192>));
  v.push(entry!("SepSeq<T192, D> of struct { Vec<B>, A, Option<A> }", SepSeq<T192, D>));
  v.push(entry!("OptSepList<T192, D> of struct { Vec<B>, A, Option<A> }", OptSepList<T192, D>));
  v.push(entry!("Vec<T199> of struct (Vec<B>, B, Vec<B>)", Vec<T199>));
  v.push(entry!("Option<T199> of struct (Vec<B>, B, Vec<B>)", Option<T199>));
  v.push(entry!("SepSeq<T199, D> of struct (Vec<B>, B, Vec<B>)", SepSeq<T199, D>));
  v.push(entry!("OptSepList<T199, D> of struct (Vec<B>, B, Vec<B>)", OptSepList<T199, D>));
  v.push(entry!("Vec<T206> of struct { Vec<B>, AB, SepSeq<A, C> }", Vec<T206>));
}
fn push23(v: &mut Vec<Entry>) {
  v.push(entry!("Option<T206> of struct { Vec<B>, AB, SepSeq<A, C> }", Option<T206>));
  v.push(entry!("SepSeq<T206, D> of struct { Vec<B>, AB, SepSeq<A, C> }", SepSeq<T206, D>));
  v.push(entry!("OptSepList<T206, D> of struct { Vec<B>, AB, SepSeq<A, C> }", OptSepList<T206, D>));
  v.push(entry!("Vec<T219> of struct (Vec<B>, SepSeq<A, C>, A)", Vec<T219>));
  v.push(entry!("Option<T219> of struct (Vec<B>, SepSeq<A, C>, A)", Option<T219>));
  v.push(entry!("SepSeq<T219, D> of struct (Vec<B>, SepSeq<A, C>, A)", SepSeq<T219, D>));
  v.push(entry!("OptSepList<T219, D> of struct (Vec<B>, SepSeq<A, C>, A)", OptSepList<T219, D>));
  v.push(entry!("Vec<T229> of struct (SepSeq<A, C>, A, Vec<B>)", Vec<T229>));
  v.push(entry!("Option<T229> of struct (SepSeq<A, C>, A, Vec<B>)", Option<T229>));
  v.push(entry!("SepSeq<T229, D> of struct (SepSeq<A, C>, A, Vec<B>)", SepSeq<T229, D>));
  v.push(entry!("OptSepList<T229, D> of struct (SepSeq<A, C>, A, Vec<B>)", OptSepList<T229, D>));
  v.push(entry!("Vec<T236> of struct { SepSeq<A, C>, B, SepSeq<A, C> }", Vec<T236>));
  v.push(entry!("Option<T236> of struct { SepSeq<A, C>, B, SepSeq<A, C> }", Option<T236>));
  v.push(entry!("SepSeq<T236, D> of struct { SepSeq<A, C>, B, SepSeq<A, C> }", SepSeq<T236, D>));
  v.push(entry!("OptSepList<T236, D> of struct { SepSeq<A, C>, B, SepSeq<A, C> }", OptSepList<T236, D>));
  v.push(entry!("Vec<T243> of struct (SepSeq<A, C>, Option<A>, A)", Vec<T243>));
  v.push(entry!("Option<T243> of struct (SepSeq<A, C>, Option<A>, A)", Option<T243>));
  v.push(entry!("SepSeq<T243, D> of struct (SepSeq<A, C>, Option<A>, A)", SepSeq<T243, D>));
  v.push(entry!("OptSepList<T243, D> of struct (SepSeq<A, C>, Option<A>, A)", OptSepList<T243, D>));
  v.push(entry!("Vec<T256> of struct { SepSeq<A, C>, SepSeq<A, C>, B }", Vec<T256>));
  v.push(entry!("Option<T256> of struct { SepSeq<A, C>, SepSeq<A, C>, B }", Option<T256>));
  v.push(entry!("SepSeq<T256, D> of struct { SepSeq<A, C>, SepSeq<A, C>, B }", SepSeq<T256, D>));
  v.push(entry!("OptSepList<T256, D> of struct { SepSeq<A, C>, SepSeq<A, C>, B }", OptSepList<T256, D>));
  v.push(entry!("Vec<T266> of struct { Option<A>, Box<B> }", Vec<T266>));
  v.push(entry!("Option<T266> of struct { Option<A>, Box<B> }", Option<T266>));
  v.push(entry!("SepSeq<T266, D> of struct { Option<A>, Box<B> }", SepSeq<T266, D>));
  v.push(entry!("OptSepList<T266, D> of struct { Option<A>, Box<B> }", OptSepList<T266, D>));
  v.push(entry!("Vec<T275> of struct (Option<A>, OptPrefix<B, C>)", Vec<T275>));
  v.push(entry!("Option<T275> of struct (Option<A>, OptPrefix<B, C>)", Option<T275>));
  v.push(entry!("SepSeq<T275, D> of struct (Option<A>, OptPrefix<B, C>)", SepSeq<T275, D>));
  v.push(entry!("OptSepList<T275, D> of struct (Option<A>, OptPrefix<B, C>)", OptSepList<T275, D>));
  v.push(entry!("Vec<T282> of struct { C, Option<B>, Option<B>, Option<A> }", Vec<T282>));
  v.push(entry!("Option<T282> of struct { C, Option<B>, Option<B>, Option<A> }", Option<T282>));
  v.push(entry!("SepSeq<T282, D> of struct { C, Option<B>, Option<B>, Option<A> }", SepSeq<T282, D>));
  v.push(entry!("OptSepList<T282, D> of struct { C, Option<B>, Option<B>, Option<A> }", OptSepList<T282, D>));
  v.push(entry!("Vec<T289> of struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", Vec<T289>));
  v.push(entry!("Option<T289> of struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", Option<T289>));
  v.push(entry!("SepSeq<T289, D> of struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", SepSeq<T289, D>));
  v.push(entry!("OptSepList<T289, D> of struct { Option<A>, Option<B>, Option<B>, Option<B>, C }", OptSepList<T289, D>));
  v.push(entry!("Vec<T296> of struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", Vec<T296>));
}
fn push24(v: &mut Vec<Entry>) {
  v.push(entry!("Option<T296> of struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", Option<T296>));
  v.push(entry!("SepSeq<T296, D> of struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", SepSeq<T296, D>));
  v.push(entry!("OptSepList<T296, D> of struct { A, Option<A>, Vec<B>, C, B, SepSeq<A, C>, C, A }", OptSepList<T296, D>));
  v.push(entry!("Vec<T303> of struct { A, B, A, B, B, C, B, C, C, D, C, D }", Vec<T303>));
  v.push(entry!("Option<T303> of struct { A, B, A, B, B, C, B, C, C, D, C, D }", Option<T303>));
  v.push(entry!("SepSeq<T303, D> of struct { A, B, A, B, B, C, B, C, C, D, C, D }", SepSeq<T303, D>));
  v.push(entry!("OptSepList<T303, D> of struct { A, B, A, B, B, C, B, C, C, D, C, D }", OptSepList<T303, D>));
  v.push(entry!("Vec<T310> of struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", Vec<T310>));
  v.push(entry!("Option<T310> of struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", Option<T310>));
  v.push(entry!("SepSeq<T310, D> of struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", SepSeq<T310, D>));
  v.push(entry!("OptSepList<T310, D> of struct (C, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<A>)", OptSepList<T310, D>));
  v.push(entry!("Vec<T317> of struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", Vec<T317>));
  v.push(entry!("Option<T317> of struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", Option<T317>));
  v.push(entry!("SepSeq<T317, D> of struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", SepSeq<T317, D>));
  v.push(entry!("OptSepList<T317, D> of struct (Option<A>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, C)", OptSepList<T317, D>));
  v.push(entry!("Vec<T335> of enum (A) | { B, A }", Vec<T335>));
  v.push(entry!("Option<T335> of enum (A) | { B, A }", Option<T335>));
  v.push(entry!("SepSeq<T335, D> of enum (A) | { B, A }", SepSeq<T335, D>));
  v.push(entry!("OptSepList<T335, D> of enum (A) | { B, A }", OptSepList<T335, D>));
  v.push(entry!("Vec<T348> of enum (Option<A>, C) | (A)", Vec<T348>));
  v.push(entry!("Option<T348> of enum (Option<A>, C) | (A)", Option<T348>));
  v.push(entry!("SepSeq<T348, D> of enum (Option<A>, C) | (A)", SepSeq<T348, D>));
  v.push(entry!("OptSepList<T348, D> of enum (Option<A>, C) | (A)", OptSepList<T348, D>));
  v.push(entry!("Vec<T366> of enum { AB, C } | { AB, C }", Vec<T366>));
  v.push(entry!("Option<T366> of enum { AB, C } | { AB, C }", Option<T366>));
  v.push(entry!("SepSeq<T366, D> of enum { AB, C } | { AB, C }", SepSeq<T366, D>));
  v.push(entry!("OptSepList<T366, D> of enum { AB, C } | { AB, C }", OptSepList<T366, D>));
  v.push(entry!("Vec<T441> of enum (A) | { B, A } | (Option<A>, C)", Vec<T441>));
  v.push(entry!("Option<T441> of enum (A) | { B, A } | (Option<A>, C)", Option<T441>));
  v.push(entry!("SepSeq<T441, D> of enum (A) | { B, A } | (Option<A>, C)", SepSeq<T441, D>));
  v.push(entry!("OptSepList<T441, D> of enum (A) | { B, A } | (Option<A>, C)", OptSepList<T441, D>));
  v.push(entry!("Vec<T461> of enum (A) | { AB, C } | { B, A }", Vec<T461>));
  v.push(entry!("Option<T461> of enum (A) | { AB, C } | { B, A }", Option<T461>));
  v.push(entry!("SepSeq<T461, D> of enum (A) | { AB, C } | { B, A }", SepSeq<T461, D>));
  v.push(entry!("OptSepList<T461, D> of enum (A) | { AB, C } | { B, A }", OptSepList<T461, D>));
  v.push(entry!("Vec<T488> of enum { B, A } | { B, A } | (A)", Vec<T488>));
  v.push(entry!("Option<T488> of enum { B, A } | { B, A } | (A)", Option<T488>));
  v.push(entry!("SepSeq<T488, D> of enum { B, A } | { B, A } | (A)", SepSeq<T488, D>));
  v.push(entry!("OptSepList<T488, D> of enum { B, A } | { B, A } | (A)", OptSepList<T488, D>));
  v.push(entry!("Vec<T499> of enum { B, A } | (Option<A>, C) | { AB, C }", Vec<T499>));
}
fn push25(v: &mut Vec<Entry>) {
  v.push(entry!("Option<T499> of enum { B, A } | (Option<A>, C) | { AB, C }", Option<T499>));
  v.push(entry!("SepSeq<T499, D> of enum { B, A } | (Option<A>, C) | { AB, C }", SepSeq<T499, D>));
  v.push(entry!("OptSepList<T499, D> of enum { B, A } | (Option<A>, C) | { AB, C }", OptSepList<T499, D>));
  v.push(entry!("Vec<T532> of enum (Option<A>, C) | (A) | (Option<A>, C)", Vec<T532>));
  v.push(entry!("Option<T532> of enum (Option<A>, C) | (A) | (Option<A>, C)", Option<T532>));
  v.push(entry!("SepSeq<T532, D> of enum (Option<A>, C) | (A) | (Option<A>, C)", SepSeq<T532, D>));
  v.push(entry!("OptSepList<T532, D> of enum (Option<A>, C) | (A) | (Option<A>, C)", OptSepList<T532, D>));
  v.push(entry!("Vec<T545> of enum (Option<A>, C) | (Option<A>, C) | { B, A }", Vec<T545>));
  v.push(entry!("Option<T545> of enum (Option<A>, C) | (Option<A>, C) | { B, A }", Option<T545>));
  v.push(entry!("SepSeq<T545, D> of enum (Option<A>, C) | (Option<A>, C) | { B, A }", SepSeq<T545, D>));
  v.push(entry!("OptSepList<T545, D> of enum (Option<A>, C) | (Option<A>, C) | { B, A }", OptSepList<T545, D>));
  v.push(entry!("Vec<T628> of enum { AB, C } | (A) | (A)", Vec<T628>));
  v.push(entry!("Option<T628> of enum { AB, C } | (A) | (A)", Option<T628>));
  v.push(entry!("SepSeq<T628, D> of enum { AB, C } | (A) | (A)", SepSeq<T628, D>));
  v.push(entry!("OptSepList<T628, D> of enum { AB, C } | (A) | (A)", OptSepList<T628, D>));
  v.push(entry!("Vec<T639> of enum { AB, C } | { B, A } | { AB, C }", Vec<T639>));
  v.push(entry!("Option<T639> of enum { AB, C } | { B, A } | { AB, C }", Option<T639>));
  v.push(entry!("SepSeq<T639, D> of enum { AB, C } | { B, A } | { AB, C }", SepSeq<T639, D>));
  v.push(entry!("OptSepList<T639, D> of enum { AB, C } | { B, A } | { AB, C }", OptSepList<T639, D>));
  v.push(entry!("Vec<T658> of enum { AB, C } | { AB, C } | (Option<A>, C)", Vec<T658>));
  v.push(entry!("Option<T658> of enum { AB, C } | { AB, C } | (Option<A>, C)", Option<T658>));
  v.push(entry!("SepSeq<T658, D> of enum { AB, C } | { AB, C } | (Option<A>, C)", SepSeq<T658, D>));
  v.push(entry!("OptSepList<T658, D> of enum { AB, C } | { AB, C } | (Option<A>, C)", OptSepList<T658, D>));
  v.push(entry!("Vec<T723> of enum { A, B } | (D, AB) | { C } | (B, Option<A>)", Vec<T723>));
  v.push(entry!("Option<T723> of enum { A, B } | (D, AB) | { C } | (B, Option<A>)", Option<T723>));
  v.push(entry!("SepSeq<T723, D> of enum { A, B } | (D, AB) | { C } | (B, Option<A>)", SepSeq<T723, D>));
  v.push(entry!("OptSepList<T723, D> of enum { A, B } | (D, AB) | { C } | (B, Option<A>)", OptSepList<T723, D>));
  v.push(entry!("Vec<T730> of enum { C } | { A, B } | (B, Option<A>) | (D, AB)", Vec<T730>));
  v.push(entry!("Option<T730> of enum { C } | { A, B } | (B, Option<A>) | (D, AB)", Option<T730>));
  v.push(entry!("SepSeq<T730, D> of enum { C } | { A, B } | (B, Option<A>) | (D, AB)", SepSeq<T730, D>));
  v.push(entry!("OptSepList<T730, D> of enum { C } | { A, B } | (B, Option<A>) | (D, AB)", OptSepList<T730, D>));
  v.push(entry!("Vec<T737> of enum (D, AB) | { A, B } | { C } | (B, Option<A>)", Vec<T737>));
  v.push(entry!("Option<T737> of enum (D, AB) | { A, B } | { C } | (B, Option<A>)", Option<T737>));
  v.push(entry!("SepSeq<T737, D> of enum (D, AB) | { A, B } | { C } | (B, Option<A>)", SepSeq<T737, D>));
  v.push(entry!("OptSepList<T737, D> of enum (D, AB) | { A, B } | { C } | (B, Option<A>)", OptSepList<T737, D>));
  v.push(entry!("Vec<T744> of enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", Vec<T744>));
  v.push(entry!("Option<T744> of enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", Option<T744>));
  v.push(entry!("SepSeq<T744, D> of enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", SepSeq<T744, D>));
  v.push(entry!("OptSepList<T744, D> of enum (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | (TokenPrefix<A, B>) | (TokenPrefix<A, A>) | { C }", OptSepList<T744, D>));
  v.push(entry!("Vec<T752> of enum (Box<B>) | (Box<B>)", Vec<T752>));
}
fn push26(v: &mut Vec<Entry>) {
  v.push(entry!("Option<T752> of enum (Box<B>) | (Box<B>)", Option<T752>));
  v.push(entry!("SepSeq<T752, D> of enum (Box<B>) | (Box<B>)", SepSeq<T752, D>));
  v.push(entry!("OptSepList<T752, D> of enum (Box<B>) | (Box<B>)", OptSepList<T752, D>));
  v.push(entry!("Vec<T767> of enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", Vec<T767>));
  v.push(entry!("Option<T767> of enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", Option<T767>));
  v.push(entry!("SepSeq<T767, D> of enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", SepSeq<T767, D>));
  v.push(entry!("OptSepList<T767, D> of enum (TokenPrefix<A, B>) | (OptPrefix<B, C>)", OptSepList<T767, D>));
  v.push(entry!("Vec<T775> of enum (NonEmptySeq<A>) | (C)", Vec<T775>));
  v.push(entry!("Option<T775> of enum (NonEmptySeq<A>) | (C)", Option<T775>));
  v.push(entry!("SepSeq<T775, D> of enum (NonEmptySeq<A>) | (C)", SepSeq<T775, D>));
  v.push(entry!("OptSepList<T775, D> of enum (NonEmptySeq<A>) | (C)", OptSepList<T775, D>));
  v.push(entry!("T815: struct { T3, T320 }", T815));
  v.push(entry!("T816: struct (Option<T3>, T320)", T816));
  v.push(entry!("T817: enum (T320, B) | { Vec<T3>, Box<T320> }", T817));
  v.push(entry!("T818: struct { T3, T335 }", T818));
  v.push(entry!("T819: struct (Option<T3>, T335)", T819));
  v.push(entry!("T820: enum (T335, B) | { Vec<T3>, Box<T335> }", T820));
  v.push(entry!("T821: struct { T3, T343 }", T821));
  v.push(entry!("T822: struct (Option<T3>, T343)", T822));
  v.push(entry!("T823: enum (T343, B) | { Vec<T3>, Box<T343> }", T823));
  v.push(entry!("T824: struct { T3, T352 }", T824));
  v.push(entry!("T825: struct (Option<T3>, T352)", T825));
  v.push(entry!("T826: enum (T352, B) | { Vec<T3>, Box<T352> }", T826));
  v.push(entry!("T827: struct { T3, T432 }", T827));
  v.push(entry!("T828: struct (Option<T3>, T432)", T828));
  v.push(entry!("T829: enum (T432, B) | { Vec<T3>, Box<T432> }", T829));
  v.push(entry!("T830: struct { T3, T440 }", T830));
  v.push(entry!("T831: struct (Option<T3>, T440)", T831));
  v.push(entry!("T832: enum (T440, B) | { Vec<T3>, Box<T440> }", T832));
  v.push(entry!("T833: struct { T3, T448 }", T833));
  v.push(entry!("T834: struct (Option<T3>, T448)", T834));
  v.push(entry!("T835: enum (T448, B) | { Vec<T3>, Box<T448> }", T835));
  v.push(entry!("T836: struct { T3, T464 }", T836));
  v.push(entry!("T837: struct (Option<T3>, T464)", T837));
  v.push(entry!("T838: enum (T464, B) | { Vec<T3>, Box<T464> }", T838));
  v.push(entry!("T839: struct { T57, T320 }", T839));
  v.push(entry!("T840: struct (Option<T57>, T320)", T840));
  v.push(entry!("T841: enum (T320, B) | { Vec<T57>, Box<T320> }", T841));
  v.push(entry!("T842: struct { T57, T335 }", T842));
  v.push(entry!("T843: struct (Option<T57>, T335)", T843));
}
fn push27(v: &mut Vec<Entry>) {
  v.push(entry!("T844: enum (T335, B) | { Vec<T57>, Box<T335> }", T844));
  v.push(entry!("T845: struct { T57, T343 }", T845));
  v.push(entry!("T846: struct (Option<T57>, T343)", T846));
  v.push(entry!("T847: enum (T343, B) | { Vec<T57>, Box<T343> }", T847));
  v.push(entry!("T848: struct { T57, T352 }", T848));
  v.push(entry!("T849: struct (Option<T57>, T352)", T849));
  v.push(entry!("T850: enum (T352, B) | { Vec<T57>, Box<T352> }", T850));
  v.push(entry!("T851: struct { T57, T432 }", T851));
  v.push(entry!("T852: struct (Option<T57>, T432)", T852));
  v.push(entry!("T853: enum (T432, B) | { Vec<T57>, Box<T432> }", T853));
  v.push(entry!("T854: struct { T57, T440 }", T854));
  v.push(entry!("T855: struct (Option<T57>, T440)", T855));
  v.push(entry!("T856: enum (T440, B) | { Vec<T57>, Box<T440> }", T856));
  v.push(entry!("T857: struct { T57, T448 }", T857));
  v.push(entry!("T858: struct (Option<T57>, T448)", T858));
  v.push(entry!("T859: enum (T448, B) | { Vec<T57>, Box<T448> }", T859));
  v.push(entry!("T860: struct { T57, T464 }", T860));
  v.push(entry!("T861: struct (Option<T57>, T464)", T861));
  v.push(entry!("T862: enum (T464, B) | { Vec<T57>, Box<T464> }", T862));
  v.push(entry!("T863: struct { T99, T320 }", T863));
  v.push(entry!("T864: struct (Option<T99>, T320)", T864));
  v.push(entry!("T865: enum (T320, B) | { Vec<T99>, Box<T320> }", T865));
  v.push(entry!("T866: struct { T99, T335 }", T866));
  v.push(entry!("T867: struct (Option<T99>, T335)", T867));
  v.push(entry!("T868: enum (T335, B) | { Vec<T99>, Box<T335> }", T868));
  v.push(entry!("T869: struct { T99, T343 }", T869));
  v.push(entry!("T870: struct (Option<T99>, T343)", T870));
  v.push(entry!("T871: enum (T343, B) | { Vec<T99>, Box<T343> }", T871));
  v.push(entry!("T872: struct { T99, T352 }", T872));
  v.push(entry!("T873: struct (Option<T99>, T352)", T873));
  v.push(entry!("T874: enum (T352, B) | { Vec<T99>, Box<T352> }", T874));
  v.push(entry!("T875: struct { T99, T432 }", T875));
  v.push(entry!("T876: struct (Option<T99>, T432)", T876));
  v.push(entry!("T877: enum (T432, B) | { Vec<T99>, Box<T432> }", T877));
  v.push(entry!("T878: struct { T99, T440 }", T878));
  v.push(entry!("T879: struct (Option<T99>, T440)", T879));
  v.push(entry!("T880: enum (T440, B) | { Vec<T99>, Box<T440> }", T880));
  v.push(entry!("T881: struct { T99, T448 }", T881));
  v.push(entry!("T882: struct (Option<T99>, T448)", T882));
  v.push(entry!("T883: enum (T448, B) | { Vec<T99>, Box<T448> }", T883));
}
fn push28(v: &mut Vec<Entry>) {
  v.push(entry!("T884: struct { T99, T464 }", T884));
  v.push(entry!("T885: struct (Option<T99>, T464)", T885));
  v.push(entry!("T886: enum (T464, B) | { Vec<T99>, Box<T464> }", T886));
  v.push(entry!("T887: struct { T141, T320 }", T887));
  v.push(entry!("T888: struct (Option<T141>, T320)", T888));
  v.push(entry!("T889: enum (T320, B) | { Vec<T141>, Box<T320> }", T889));
  v.push(entry!("T890: struct { T141, T335 }", T890));
  v.push(entry!("T891: struct (Option<T141>, T335)", T891));
  v.push(entry!("T892: enum (T335, B) | { Vec<T141>, Box<T335> }", T892));
  v.push(entry!("T893: struct { T141, T343 }", T893));
  v.push(entry!("T894: struct (Option<T141>, T343)", T894));
  v.push(entry!("T895: enum (T343, B) | { Vec<T141>, Box<T343> }", T895));
  v.push(entry!("T896: struct { T141, T352 }", T896));
  v.push(entry!("T897: struct (Option<T141>, T352)", T897));
  v.push(entry!("T898: enum (T352, B) | { Vec<T141>, Box<T352> }", T898));
  v.push(entry!("T899: struct { T141, T432 }", T899));
  v.push(entry!("T900: struct (Option<T141>, T432)", T900));
  v.push(entry!("T901: enum (T432, B) | { Vec<T141>, Box<T432> }", T901));
  v.push(entry!("T902: struct { T141, T440 }", T902));
  v.push(entry!("T903: struct (Option<T141>, T440)", T903));
  v.push(entry!("T904: enum (T440, B) | { Vec<T141>, Box<T440> }", T904));
  v.push(entry!("T905: struct { T141, T448 }", T905));
  v.push(entry!("T906: struct (Option<T141>, T448)", T906));
  v.push(entry!("T907: enum (T448, B) | { Vec<T141>, Box<T448> }", T907));
  v.push(entry!("T908: struct { T141, T464 }", T908));
  v.push(entry!("T909: struct (Option<T141>, T464)", T909));
  v.push(entry!("T910: enum (T464, B) | { Vec<T141>, Box<T464> }", T910));
  v.push(entry!("T911: struct { T192, T320 }", T911));
  v.push(entry!("T912: struct (Option<T192>, T320)", T912));
  v.push(entry!("T913: enum (T320, B) | { Vec<T192>, Box<T320> }", T913));
  v.push(entry!("T914: struct { T192, T335 }", T914));
  v.push(entry!("T915: struct (Option<T192>, T335)", T915));
  v.push(entry!("T916: enum (T335, B) | { Vec<T192>, Box<T335> }", T916));
  v.push(entry!("T917: struct { T192, T343 }", T917));
  v.push(entry!("T918: struct (Option<T192>, T343)", T918));
  v.push(entry!("T919: enum (T343, B) | { Vec<T192>, Box<T343> }", T919));
  v.push(entry!("T920: struct { T192, T352 }", T920));
  v.push(entry!("T921: struct (Option<T192>, T352)", T921));
  v.push(entry!("T922: enum (T352, B) | { Vec<T192>, Box<T352> }", T922));
  v.push(entry!("T923: struct { T192, T432 }", T923));
}
fn push29(v: &mut Vec<Entry>) {
  v.push(entry!("T924: struct (Option<T192>, T432)", T924));
  v.push(entry!("T925: enum (T432, B) | { Vec<T192>, Box<T432> }", T925));
  v.push(entry!("T926: struct { T192, T440 }", T926));
  v.push(entry!("T927: struct (Option<T192>, T440)", T927));
  v.push(entry!("T928: enum (T440, B) | { Vec<T192>, Box<T440> }", T928));
  v.push(entry!("T929: struct { T192, T448 }", T929));
  v.push(entry!("T930: struct (Option<T192>, T448)", T930));
  v.push(entry!("T931: enum (T448, B) | { Vec<T192>, Box<T448> }", T931));
  v.push(entry!("T932: struct { T192, T464 }", T932));
  v.push(entry!("T933: struct (Option<T192>, T464)", T933));
  v.push(entry!("T934: enum (T464, B) | { Vec<T192>, Box<T464> }", T934));
  v.push(entry!("T935: struct { T243, T320 }", T935));
  v.push(entry!("T936: struct (Option<T243>, T320)", T936));
  v.push(entry!("T937: enum (T320, B) | { Vec<T243>, Box<T320> }", T937));
  v.push(entry!("T938: struct { T243, T335 }", T938));
  v.push(entry!("T939: struct (Option<T243>, T335)", T939));
  v.push(entry!("T940: enum (T335, B) | { Vec<T243>, Box<T335> }", T940));
  v.push(entry!("T941: struct { T243, T343 }", T941));
  v.push(entry!("T942: struct (Option<T243>, T343)", T942));
  v.push(entry!("T943: enum (T343, B) | { Vec<T243>, Box<T343> }", T943));
  v.push(entry!("T944: struct { T243, T352 }", T944));
  v.push(entry!("T945: struct (Option<T243>, T352)", T945));
  v.push(entry!("T946: enum (T352, B) | { Vec<T243>, Box<T352> }", T946));
  v.push(entry!("T947: struct { T243, T432 }", T947));
  v.push(entry!("T948: struct (Option<T243>, T432)", T948));
  v.push(entry!("T949: enum (T432, B) | { Vec<T243>, Box<T432> }", T949));
  v.push(entry!("T950: struct { T243, T440 }", T950));
  v.push(entry!("T951: struct (Option<T243>, T440)", T951));
  v.push(entry!("T952: enum (T440, B) | { Vec<T243>, Box<T440> }", T952));
  v.push(entry!("T953: struct { T243, T448 }", T953));
  v.push(entry!("T954: struct (Option<T243>, T448)", T954));
  v.push(entry!("T955: enum (T448, B) | { Vec<T243>, Box<T448> }", T955));
  v.push(entry!("T956: struct { T243, T464 }", T956));
  v.push(entry!("T957: struct (Option<T243>, T464)", T957));
  v.push(entry!("T958: enum (T464, B) | { Vec<T243>, Box<T464> }", T958));
  v.push(entry!("T959: struct { T296, T320 }", T959));
  v.push(entry!("T960: struct (Option<T296>, T320)", T960));
  v.push(entry!("T961: enum (T320, B) | { Vec<T296>, Box<T320> }", T961));
  v.push(entry!("T962: struct { T296, T335 }", T962));
  v.push(entry!("T963: struct (Option<T296>, T335)", T963));
}
fn push30(v: &mut Vec<Entry>) {
  v.push(entry!("T964: enum (T335, B) | { Vec<T296>, Box<T335> }", T964));
  v.push(entry!("T965: struct { T296, T343 }", T965));
  v.push(entry!("T966: struct (Option<T296>, T343)", T966));
  v.push(entry!("T967: enum (T343, B) | { Vec<T296>, Box<T343> }", T967));
  v.push(entry!("T968: struct { T296, T352 }", T968));
  v.push(entry!("T969: struct (Option<T296>, T352)", T969));
  v.push(entry!("T970: enum (T352, B) | { Vec<T296>, Box<T352> }", T970));
  v.push(entry!("T971: struct { T296, T432 }", T971));
  v.push(entry!("T972: struct (Option<T296>, T432)", T972));
  v.push(entry!("T973: enum (T432, B) | { Vec<T296>, Box<T432> }", T973));
  v.push(entry!("T974: struct { T296, T440 }", T974));
  v.push(entry!("T975: struct (Option<T296>, T440)", T975));
  v.push(entry!("T976: enum (T440, B) | { Vec<T296>, Box<T440> }", T976));
  v.push(entry!("T977: struct { T296, T448 }", T977));
  v.push(entry!("T978: struct (Option<T296>, T448)", T978));
  v.push(entry!("T979: enum (T448, B) | { Vec<T296>, Box<T448> }", T979));
  v.push(entry!("T980: struct { T296, T464 }", T980));
  v.push(entry!("T981: struct (Option<T296>, T464)", T981));
  v.push(entry!("T982: enum (T464, B) | { Vec<T296>, Box<T464> }", T982));
  v.push(entry!("T983: struct { T366, T320 }", T983));
  v.push(entry!("T984: struct (Option<T366>, T320)", T984));
  v.push(entry!("T985: enum (T320, B) | { Vec<T366>, Box<T320> }", T985));
  v.push(entry!("T986: struct { T366, T335 }", T986));
  v.push(entry!("T987: struct (Option<T366>, T335)", T987));
  v.push(entry!("T988: enum (T335, B) | { Vec<T366>, Box<T335> }", T988));
  v.push(entry!("T989: struct { T366, T343 }", T989));
  v.push(entry!("T990: struct (Option<T366>, T343)", T990));
  v.push(entry!("T991: enum (T343, B) | { Vec<T366>, Box<T343> }", T991));
  v.push(entry!("T992: struct { T366, T352 }", T992));
  v.push(entry!("T993: struct (Option<T366>, T352)", T993));
  v.push(entry!("T994: enum (T352, B) | { Vec<T366>, Box<T352> }", T994));
  v.push(entry!("T995: struct { T366, T432 }", T995));
  v.push(entry!("T996: struct (Option<T366>, T432)", T996));
  v.push(entry!("T997: enum (T432, B) | { Vec<T366>, Box<T432> }", T997));
  v.push(entry!("T998: struct { T366, T440 }", T998));
  v.push(entry!("T999: struct (Option<T366>, T440)", T999));
  v.push(entry!("T1000: enum (T440, B) | { Vec<T366>, Box<T440> }", T1000));
  v.push(entry!("T1001: struct { T366, T448 }", T1001));
  v.push(entry!("T1002: struct (Option<T366>, T448)", T1002));
  v.push(entry!("T1003: enum (T448, B) | { Vec<T366>, Box<T448> }", T1003));
}
fn push31(v: &mut Vec<Entry>) {
  v.push(entry!("T1004: struct { T366, T464 }", T1004));
  v.push(entry!("T1005: struct (Option<T366>, T464)", T1005));
  v.push(entry!("T1006: enum (T464, B) | { Vec<T366>, Box<T464> }", T1006));
  v.push(entry!("T1007: struct { T545, T320 }", T1007));
  v.push(entry!("T1008: struct (Option<T545>, T320)", T1008));
  v.push(entry!("T1009: enum (T320, B) | { Vec<T545>, Box<T320> }", T1009));
  v.push(entry!("T1010: struct { T545, T335 }", T1010));
  v.push(entry!("T1011: struct (Option<T545>, T335)", T1011));
  v.push(entry!("T1012: enum (T335, B) | { Vec<T545>, Box<T335> }", T1012));
  v.push(entry!("T1013: struct { T545, T343 }", T1013));
  v.push(entry!("T1014: struct (Option<T545>, T343)", T1014));
  v.push(entry!("T1015: enum (T343, B) | { Vec<T545>, Box<T343> }", T1015));
  v.push(entry!("T1016: struct { T545, T352 }", T1016));
  v.push(entry!("T1017: struct (Option<T545>, T352)", T1017));
  v.push(entry!("T1018: enum (T352, B) | { Vec<T545>, Box<T352> }", T1018));
  v.push(entry!("T1019: struct { T545, T432 }", T1019));
  v.push(entry!("T1020: struct (Option<T545>, T432)", T1020));
  v.push(entry!("T1021: enum (T432, B) | { Vec<T545>, Box<T432> }", T1021));
  v.push(entry!("T1022: struct { T545, T440 }", T1022));
  v.push(entry!("T1023: struct (Option<T545>, T440)", T1023));
  v.push(entry!("T1024: enum (T440, B) | { Vec<T545>, Box<T440> }", T1024));
  v.push(entry!("T1025: struct { T545, T448 }", T1025));
  v.push(entry!("T1026: struct (Option<T545>, T448)", T1026));
  v.push(entry!("T1027: enum (T448, B) | { Vec<T545>, Box<T448> }", T1027));
  v.push(entry!("T1028: struct { T545, T464 }", T1028));
  v.push(entry!("T1029: struct (Option<T545>, T464)", T1029));
  v.push(entry!("T1030: enum (T464, B) | { Vec<T545>, Box<T464> }", T1030));
  v.push(entry!("T1031: struct { T737, T320 }", T1031));
  v.push(entry!("T1032: struct (Option<T737>, T320)", T1032));
  v.push(entry!("T1033: enum (T320, B) | { Vec<T737>, Box<T320> }", T1033));
  v.push(entry!("T1034: struct { T737, T335 }", T1034));
  v.push(entry!("T1035: struct (Option<T737>, T335)", T1035));
  v.push(entry!("T1036: enum (T335, B) | { Vec<T737>, Box<T335> }", T1036));
  v.push(entry!("T1037: struct { T737, T343 }", T1037));
  v.push(entry!("T1038: struct (Option<T737>, T343)", T1038));
  v.push(entry!("T1039: enum (T343, B) | { Vec<T737>, Box<T343> }", T1039));
  v.push(entry!("T1040: struct { T737, T352 }", T1040));
  v.push(entry!("T1041: struct (Option<T737>, T352)", T1041));
  v.push(entry!("T1042: enum (T352, B) | { Vec<T737>, Box<T352> }", T1042));
  v.push(entry!("T1043: struct { T737, T432 }", T1043));
}
fn push32(v: &mut Vec<Entry>) {
  v.push(entry!("T1044: struct (Option<T737>, T432)", T1044));
  v.push(entry!("T1045: enum (T432, B) | { Vec<T737>, Box<T432> }", T1045));
  v.push(entry!("T1046: struct { T737, T440 }", T1046));
  v.push(entry!("T1047: struct (Option<T737>, T440)", T1047));
  v.push(entry!("T1048: enum (T440, B) | { Vec<T737>, Box<T440> }", T1048));
  v.push(entry!("T1049: struct { T737, T448 }", T1049));
  v.push(entry!("T1050: struct (Option<T737>, T448)", T1050));
  v.push(entry!("T1051: enum (T448, B) | { Vec<T737>, Box<T448> }", T1051));
  v.push(entry!("T1052: struct { T737, T464 }", T1052));
  v.push(entry!("T1053: struct (Option<T737>, T464)", T1053));
  v.push(entry!("T1054: enum (T464, B) | { Vec<T737>, Box<T464> }", T1054));
  v.push(entry!("recursive Sexp", Sexp));
  v.push(entry!("recursive Chain", Chain));
  v.push(entry!("recursive Bin", Bin));
  v.push(entry!("recursive Opd", Opd));
  v.push(entry!("recursive Tail", Tail));
  v.push(entry!("recursive Tree3", Tree3));
  v.push(entry!("generic G1<NA>", G1<NA>));
  v.push(entry!("generic G2<NA, NB>", G2<NA, NB>));
  v.push(entry!("generic G3<NB, NA>", G3<NB, NA>));
  v.push(entry!("generic G4<NB, 2>", G4<NB, 2>));
  v.push(entry!("generic G5<3, NB>", G5<3, NB>));
  v.push(entry!("generic G6<'static>", G6<'static>));
  v.push(entry!("generic G7<'static, NA>", G7<'static, NA>));
  v.push(entry!("generic G8", G8));
  v.push(entry!("generic G8<NB, 3>", G8<NB, 3>));
  v.push(entry!("no token type, struct", N1));
  v.push(entry!("no token type, enum", N2));
}
pub fn push(v: &mut Vec<Entry>) {
  push0(v);
  push1(v);
  push2(v);
  push3(v);
  push4(v);
  push5(v);
  push6(v);
  push7(v);
  push8(v);
  push9(v);
  push10(v);
  push11(v);
  push12(v);
  push13(v);
  push14(v);
  push15(v);
  push16(v);
  push17(v);
  push18(v);
  push19(v);
  push20(v);
  push21(v);
  push22(v);
  push23(v);
  push24(v);
  push25(v);
  push26(v);
  push27(v);
  push28(v);
  push29(v);
  push30(v);
  push31(v);
  push32(v);
}
