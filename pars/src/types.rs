// generated by gen.py
#![allow(deprecated)]
use crate::model::*;
use laps::ast::*;

#[rustfmt::skip]
fn push0(v: &mut Vec<Entry>) {
  v.push(entry!("A", A));
  v.push(entry!("Box<A>", Box<A>));
  v.push(entry!("Option<A>", Option<A>));
  v.push(entry!("Vec<A>", Vec<A>));
  v.push(entry!("NonEmptySeq<A>", NonEmptySeq<A>));
  v.push(entry!("SepSeq<A, C>", SepSeq<A, C>));
  v.push(entry!("NonEmptySepSeq<A, C>", NonEmptySepSeq<A, C>));
  v.push(entry!("OptSepSeq<A, C>", OptSepSeq<A, C>));
  v.push(entry!("NonEmptyOptSepSeq<A, C>", NonEmptyOptSepSeq<A, C>));
  v.push(entry!("NonEmptySepList<A, C>", NonEmptySepList<A, C>));
  v.push(entry!("SepList<A, C>", SepList<A, C>));
  v.push(entry!("NonEmptyOptSepList<A, C>", NonEmptyOptSepList<A, C>));
  v.push(entry!("OptSepList<A, C>", OptSepList<A, C>));
  v.push(entry!("Quoted<A, A, C>", Quoted<A, A, C>));
  v.push(entry!("Quoted<A, B, A>", Quoted<A, B, A>));
  v.push(entry!("OptPrefix<C, A>", OptPrefix<C, A>));
  v.push(entry!("OptPrefix<A, B>", OptPrefix<A, B>));
  v.push(entry!("OptTokenPrefix<C, A>", OptTokenPrefix<C, A>));
  v.push(entry!("TokenPrefix<C, A>", TokenPrefix<C, A>));
  v.push(entry!("(A,)", (A,)));
  v.push(entry!("(A, B)", (A, B)));
  v.push(entry!("(A, A)", (A, A)));
  v.push(entry!("(A, A, C)", (A, A, C)));
  v.push(entry!("SepSeq<A, A>", SepSeq<A, A>));
  v.push(entry!("NonEmptySepSeq<A, A>", NonEmptySepSeq<A, A>));
  v.push(entry!("OptSepSeq<A, A>", OptSepSeq<A, A>));
  v.push(entry!("NonEmptyOptSepSeq<A, A>", NonEmptyOptSepSeq<A, A>));
  v.push(entry!("NonEmptySepList<A, A>", NonEmptySepList<A, A>));
  v.push(entry!("SepList<A, A>", SepList<A, A>));
  v.push(entry!("NonEmptyOptSepList<A, A>", NonEmptyOptSepList<A, A>));
  v.push(entry!("OptSepList<A, A>", OptSepList<A, A>));
  v.push(entry!("B", B));
  v.push(entry!("Box<B>", Box<B>));
  v.push(entry!("Option<B>", Option<B>));
  v.push(entry!("Vec<B>", Vec<B>));
  v.push(entry!("NonEmptySeq<B>", NonEmptySeq<B>));
  v.push(entry!("SepSeq<B, C>", SepSeq<B, C>));
  v.push(entry!("NonEmptySepSeq<B, C>", NonEmptySepSeq<B, C>));
  v.push(entry!("OptSepSeq<B, C>", OptSepSeq<B, C>));
  v.push(entry!("NonEmptyOptSepSeq<B, C>", NonEmptyOptSepSeq<B, C>));
}
#[rustfmt::skip]
fn push1(v: &mut Vec<Entry>) {
  v.push(entry!("NonEmptySepList<B, C>", NonEmptySepList<B, C>));
  v.push(entry!("SepList<B, C>", SepList<B, C>));
  v.push(entry!("NonEmptyOptSepList<B, C>", NonEmptyOptSepList<B, C>));
  v.push(entry!("OptSepList<B, C>", OptSepList<B, C>));
  v.push(entry!("Quoted<A, B, C>", Quoted<A, B, C>));
  v.push(entry!("Quoted<B, B, A>", Quoted<B, B, A>));
  v.push(entry!("Quoted<A, B, B>", Quoted<A, B, B>));
  v.push(entry!("OptPrefix<C, B>", OptPrefix<C, B>));
  v.push(entry!("OptPrefix<B, B>", OptPrefix<B, B>));
  v.push(entry!("OptTokenPrefix<C, B>", OptTokenPrefix<C, B>));
  v.push(entry!("TokenPrefix<C, B>", TokenPrefix<C, B>));
  v.push(entry!("(B,)", (B,)));
  v.push(entry!("(B, B)", (B, B)));
  v.push(entry!("(A, B, C)", (A, B, C)));
  v.push(entry!("SepSeq<A, B>", SepSeq<A, B>));
  v.push(entry!("NonEmptySepSeq<A, B>", NonEmptySepSeq<A, B>));
  v.push(entry!("OptSepSeq<A, B>", OptSepSeq<A, B>));
  v.push(entry!("NonEmptyOptSepSeq<A, B>", NonEmptyOptSepSeq<A, B>));
  v.push(entry!("NonEmptySepList<A, B>", NonEmptySepList<A, B>));
  v.push(entry!("SepList<A, B>", SepList<A, B>));
  v.push(entry!("NonEmptyOptSepList<A, B>", NonEmptyOptSepList<A, B>));
  v.push(entry!("OptSepList<A, B>", OptSepList<A, B>));
  v.push(entry!("AB", AB));
  v.push(entry!("Box<AB>", Box<AB>));
  v.push(entry!("Option<AB>", Option<AB>));
  v.push(entry!("Vec<AB>", Vec<AB>));
  v.push(entry!("NonEmptySeq<AB>", NonEmptySeq<AB>));
  v.push(entry!("SepSeq<AB, C>", SepSeq<AB, C>));
  v.push(entry!("NonEmptySepSeq<AB, C>", NonEmptySepSeq<AB, C>));
  v.push(entry!("OptSepSeq<AB, C>", OptSepSeq<AB, C>));
  v.push(entry!("NonEmptyOptSepSeq<AB, C>", NonEmptyOptSepSeq<AB, C>));
  v.push(entry!("NonEmptySepList<AB, C>", NonEmptySepList<AB, C>));
  v.push(entry!("SepList<AB, C>", SepList<AB, C>));
  v.push(entry!("NonEmptyOptSepList<AB, C>", NonEmptyOptSepList<AB, C>));
  v.push(entry!("OptSepList<AB, C>", OptSepList<AB, C>));
  v.push(entry!("Quoted<A, AB, C>", Quoted<A, AB, C>));
  v.push(entry!("Quoted<AB, B, A>", Quoted<AB, B, A>));
  v.push(entry!("Quoted<A, B, AB>", Quoted<A, B, AB>));
  v.push(entry!("OptPrefix<C, AB>", OptPrefix<C, AB>));
  v.push(entry!("OptPrefix<AB, B>", OptPrefix<AB, B>));
}
#[rustfmt::skip]
fn push2(v: &mut Vec<Entry>) {
  v.push(entry!("OptTokenPrefix<C, AB>", OptTokenPrefix<C, AB>));
  v.push(entry!("TokenPrefix<C, AB>", TokenPrefix<C, AB>));
  v.push(entry!("(AB,)", (AB,)));
  v.push(entry!("(AB, B)", (AB, B)));
  v.push(entry!("(A, AB)", (A, AB)));
  v.push(entry!("(A, AB, C)", (A, AB, C)));
  v.push(entry!("SepSeq<A, AB>", SepSeq<A, AB>));
  v.push(entry!("NonEmptySepSeq<A, AB>", NonEmptySepSeq<A, AB>));
  v.push(entry!("OptSepSeq<A, AB>", OptSepSeq<A, AB>));
  v.push(entry!("NonEmptyOptSepSeq<A, AB>", NonEmptyOptSepSeq<A, AB>));
  v.push(entry!("NonEmptySepList<A, AB>", NonEmptySepList<A, AB>));
  v.push(entry!("SepList<A, AB>", SepList<A, AB>));
  v.push(entry!("NonEmptyOptSepList<A, AB>", NonEmptyOptSepList<A, AB>));
  v.push(entry!("OptSepList<A, AB>", OptSepList<A, AB>));
  v.push(entry!("Box<Box<A>>", Box<Box<A>>));
  v.push(entry!("Option<Box<A>>", Option<Box<A>>));
  v.push(entry!("Vec<Box<A>>", Vec<Box<A>>));
  v.push(entry!("NonEmptySeq<Box<A>>", NonEmptySeq<Box<A>>));
  v.push(entry!("SepSeq<Box<A>, C>", SepSeq<Box<A>, C>));
  v.push(entry!("NonEmptySepSeq<Box<A>, C>", NonEmptySepSeq<Box<A>, C>));
  v.push(entry!("OptSepSeq<Box<A>, C>", OptSepSeq<Box<A>, C>));
  v.push(entry!("NonEmptyOptSepSeq<Box<A>, C>", NonEmptyOptSepSeq<Box<A>, C>));
  v.push(entry!("NonEmptySepList<Box<A>, C>", NonEmptySepList<Box<A>, C>));
  v.push(entry!("SepList<Box<A>, C>", SepList<Box<A>, C>));
  v.push(entry!("NonEmptyOptSepList<Box<A>, C>", NonEmptyOptSepList<Box<A>, C>));
  v.push(entry!("OptSepList<Box<A>, C>", OptSepList<Box<A>, C>));
  v.push(entry!("Quoted<A, Box<A>, C>", Quoted<A, Box<A>, C>));
  v.push(entry!("Quoted<Box<A>, B, A>", Quoted<Box<A>, B, A>));
  v.push(entry!("Quoted<A, B, Box<A>>", Quoted<A, B, Box<A>>));
  v.push(entry!("OptPrefix<C, Box<A>>", OptPrefix<C, Box<A>>));
  v.push(entry!("OptPrefix<Box<A>, B>", OptPrefix<Box<A>, B>));
  v.push(entry!("OptTokenPrefix<C, Box<A>>", OptTokenPrefix<C, Box<A>>));
  v.push(entry!("TokenPrefix<C, Box<A>>", TokenPrefix<C, Box<A>>));
  v.push(entry!("(Box<A>,)", (Box<A>,)));
  v.push(entry!("(Box<A>, B)", (Box<A>, B)));
  v.push(entry!("(A, Box<A>)", (A, Box<A>)));
  v.push(entry!("(A, Box<A>, C)", (A, Box<A>, C)));
  v.push(entry!("SepSeq<A, Box<A>>", SepSeq<A, Box<A>>));
  v.push(entry!("NonEmptySepSeq<A, Box<A>>", NonEmptySepSeq<A, Box<A>>));
  v.push(entry!("OptSepSeq<A, Box<A>>", OptSepSeq<A, Box<A>>));
}
#[rustfmt::skip]
fn push3(v: &mut Vec<Entry>) {
  v.push(entry!("NonEmptyOptSepSeq<A, Box<A>>", NonEmptyOptSepSeq<A, Box<A>>));
  v.push(entry!("NonEmptySepList<A, Box<A>>", NonEmptySepList<A, Box<A>>));
  v.push(entry!("SepList<A, Box<A>>", SepList<A, Box<A>>));
  v.push(entry!("NonEmptyOptSepList<A, Box<A>>", NonEmptyOptSepList<A, Box<A>>));
  v.push(entry!("OptSepList<A, Box<A>>", OptSepList<A, Box<A>>));
  v.push(entry!("Box<Option<A>>", Box<Option<A>>));
  v.push(entry!("Option<Option<A>>", Option<Option<A>>));
  v.push(entry!("Vec<Option<A>>", Vec<Option<A>>));
  v.push(entry!("NonEmptySeq<Option<A>>", NonEmptySeq<Option<A>>));
  v.push(entry!("SepSeq<Option<A>, C>", SepSeq<Option<A>, C>));
  v.push(entry!("NonEmptySepSeq<Option<A>, C>", NonEmptySepSeq<Option<A>, C>));
  v.push(entry!("OptSepSeq<Option<A>, C>", OptSepSeq<Option<A>, C>));
  v.push(entry!("NonEmptyOptSepSeq<Option<A>, C>", NonEmptyOptSepSeq<Option<A>, C>));
  v.push(entry!("NonEmptySepList<Option<A>, C>", NonEmptySepList<Option<A>, C>));
  v.push(entry!("SepList<Option<A>, C>", SepList<Option<A>, C>));
  v.push(entry!("NonEmptyOptSepList<Option<A>, C>", NonEmptyOptSepList<Option<A>, C>));
  v.push(entry!("OptSepList<Option<A>, C>", OptSepList<Option<A>, C>));
  v.push(entry!("Quoted<A, Option<A>, C>", Quoted<A, Option<A>, C>));
  v.push(entry!("Quoted<Option<A>, B, A>", Quoted<Option<A>, B, A>));
  v.push(entry!("Quoted<A, B, Option<A>>", Quoted<A, B, Option<A>>));
  v.push(entry!("OptPrefix<C, Option<A>>", OptPrefix<C, Option<A>>));
  v.push(entry!("OptPrefix<Option<A>, B>", OptPrefix<Option<A>, B>));
  v.push(entry!("OptTokenPrefix<C, Option<A>>", OptTokenPrefix<C, Option<A>>));
  v.push(entry!("TokenPrefix<C, Option<A>>", TokenPrefix<C, Option<A>>));
  v.push(entry!("(Option<A>,)", (Option<A>,)));
  v.push(entry!("(Option<A>, B)", (Option<A>, B)));
  v.push(entry!("(A, Option<A>)", (A, Option<A>)));
  v.push(entry!("(A, Option<A>, C)", (A, Option<A>, C)));
  v.push(entry!("SepSeq<A, Option<A>>", SepSeq<A, Option<A>>));
  v.push(entry!("NonEmptySepSeq<A, Option<A>>", NonEmptySepSeq<A, Option<A>>));
  v.push(entry!("OptSepSeq<A, Option<A>>", OptSepSeq<A, Option<A>>));
  v.push(entry!("NonEmptyOptSepSeq<A, Option<A>>", NonEmptyOptSepSeq<A, Option<A>>));
  v.push(entry!("NonEmptySepList<A, Option<A>>", NonEmptySepList<A, Option<A>>));
  v.push(entry!("SepList<A, Option<A>>", SepList<A, Option<A>>));
  v.push(entry!("NonEmptyOptSepList<A, Option<A>>", NonEmptyOptSepList<A, Option<A>>));
  v.push(entry!("OptSepList<A, Option<A>>", OptSepList<A, Option<A>>));
  v.push(entry!("Box<Vec<A>>", Box<Vec<A>>));
  v.push(entry!("Option<Vec<A>>", Option<Vec<A>>));
  v.push(entry!("Vec<Vec<A>>", Vec<Vec<A>>));
  v.push(entry!("NonEmptySeq<Vec<A>>", NonEmptySeq<Vec<A>>));
}
#[rustfmt::skip]
fn push4(v: &mut Vec<Entry>) {
  v.push(entry!("SepSeq<Vec<A>, C>", SepSeq<Vec<A>, C>));
  v.push(entry!("NonEmptySepSeq<Vec<A>, C>", NonEmptySepSeq<Vec<A>, C>));
  v.push(entry!("OptSepSeq<Vec<A>, C>", OptSepSeq<Vec<A>, C>));
  v.push(entry!("NonEmptyOptSepSeq<Vec<A>, C>", NonEmptyOptSepSeq<Vec<A>, C>));
  v.push(entry!("NonEmptySepList<Vec<A>, C>", NonEmptySepList<Vec<A>, C>));
  v.push(entry!("SepList<Vec<A>, C>", SepList<Vec<A>, C>));
  v.push(entry!("NonEmptyOptSepList<Vec<A>, C>", NonEmptyOptSepList<Vec<A>, C>));
  v.push(entry!("OptSepList<Vec<A>, C>", OptSepList<Vec<A>, C>));
  v.push(entry!("Quoted<A, Vec<A>, C>", Quoted<A, Vec<A>, C>));
  v.push(entry!("Quoted<Vec<A>, B, A>", Quoted<Vec<A>, B, A>));
  v.push(entry!("Quoted<A, B, Vec<A>>", Quoted<A, B, Vec<A>>));
  v.push(entry!("OptPrefix<C, Vec<A>>", OptPrefix<C, Vec<A>>));
  v.push(entry!("OptPrefix<Vec<A>, B>", OptPrefix<Vec<A>, B>));
  v.push(entry!("OptTokenPrefix<C, Vec<A>>", OptTokenPrefix<C, Vec<A>>));
  v.push(entry!("TokenPrefix<C, Vec<A>>", TokenPrefix<C, Vec<A>>));
  v.push(entry!("(Vec<A>,)", (Vec<A>,)));
  v.push(entry!("(Vec<A>, B)", (Vec<A>, B)));
  v.push(entry!("(A, Vec<A>)", (A, Vec<A>)));
  v.push(entry!("(A, Vec<A>, C)", (A, Vec<A>, C)));
  v.push(entry!("SepSeq<A, Vec<A>>", SepSeq<A, Vec<A>>));
  v.push(entry!("NonEmptySepSeq<A, Vec<A>>", NonEmptySepSeq<A, Vec<A>>));
  v.push(entry!("OptSepSeq<A, Vec<A>>", OptSepSeq<A, Vec<A>>));
  v.push(entry!("NonEmptyOptSepSeq<A, Vec<A>>", NonEmptyOptSepSeq<A, Vec<A>>));
  v.push(entry!("NonEmptySepList<A, Vec<A>>", NonEmptySepList<A, Vec<A>>));
  v.push(entry!("SepList<A, Vec<A>>", SepList<A, Vec<A>>));
  v.push(entry!("NonEmptyOptSepList<A, Vec<A>>", NonEmptyOptSepList<A, Vec<A>>));
  v.push(entry!("OptSepList<A, Vec<A>>", OptSepList<A, Vec<A>>));
  v.push(entry!("Box<NonEmptySeq<A>>", Box<NonEmptySeq<A>>));
  v.push(entry!("Option<NonEmptySeq<A>>", Option<NonEmptySeq<A>>));
  v.push(entry!("Vec<NonEmptySeq<A>>", Vec<NonEmptySeq<A>>));
  v.push(entry!("NonEmptySeq<NonEmptySeq<A>>", NonEmptySeq<NonEmptySeq<A>>));
  v.push(entry!("SepSeq<NonEmptySeq<A>, C>", SepSeq<NonEmptySeq<A>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptySeq<A>, C>", NonEmptySepSeq<NonEmptySeq<A>, C>));
  v.push(entry!("OptSepSeq<NonEmptySeq<A>, C>", OptSepSeq<NonEmptySeq<A>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptySeq<A>, C>", NonEmptyOptSepSeq<NonEmptySeq<A>, C>));
  v.push(entry!("NonEmptySepList<NonEmptySeq<A>, C>", NonEmptySepList<NonEmptySeq<A>, C>));
  v.push(entry!("SepList<NonEmptySeq<A>, C>", SepList<NonEmptySeq<A>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptySeq<A>, C>", NonEmptyOptSepList<NonEmptySeq<A>, C>));
  v.push(entry!("OptSepList<NonEmptySeq<A>, C>", OptSepList<NonEmptySeq<A>, C>));
  v.push(entry!("Quoted<A, NonEmptySeq<A>, C>", Quoted<A, NonEmptySeq<A>, C>));
}
#[rustfmt::skip]
fn push5(v: &mut Vec<Entry>) {
  v.push(entry!("Quoted<NonEmptySeq<A>, B, A>", Quoted<NonEmptySeq<A>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptySeq<A>>", Quoted<A, B, NonEmptySeq<A>>));
  v.push(entry!("OptPrefix<C, NonEmptySeq<A>>", OptPrefix<C, NonEmptySeq<A>>));
  v.push(entry!("OptPrefix<NonEmptySeq<A>, B>", OptPrefix<NonEmptySeq<A>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptySeq<A>>", OptTokenPrefix<C, NonEmptySeq<A>>));
  v.push(entry!("TokenPrefix<C, NonEmptySeq<A>>", TokenPrefix<C, NonEmptySeq<A>>));
  v.push(entry!("(NonEmptySeq<A>,)", (NonEmptySeq<A>,)));
  v.push(entry!("(NonEmptySeq<A>, B)", (NonEmptySeq<A>, B)));
  v.push(entry!("(A, NonEmptySeq<A>)", (A, NonEmptySeq<A>)));
  v.push(entry!("(A, NonEmptySeq<A>, C)", (A, NonEmptySeq<A>, C)));
  v.push(entry!("SepSeq<A, NonEmptySeq<A>>", SepSeq<A, NonEmptySeq<A>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptySeq<A>>", NonEmptySepSeq<A, NonEmptySeq<A>>));
  v.push(entry!("OptSepSeq<A, NonEmptySeq<A>>", OptSepSeq<A, NonEmptySeq<A>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptySeq<A>>", NonEmptyOptSepSeq<A, NonEmptySeq<A>>));
  v.push(entry!("NonEmptySepList<A, NonEmptySeq<A>>", NonEmptySepList<A, NonEmptySeq<A>>));
  v.push(entry!("SepList<A, NonEmptySeq<A>>", SepList<A, NonEmptySeq<A>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptySeq<A>>", NonEmptyOptSepList<A, NonEmptySeq<A>>));
  v.push(entry!("OptSepList<A, NonEmptySeq<A>>", OptSepList<A, NonEmptySeq<A>>));
  v.push(entry!("Box<SepSeq<A, C>>", Box<SepSeq<A, C>>));
  v.push(entry!("Option<SepSeq<A, C>>", Option<SepSeq<A, C>>));
  v.push(entry!("Vec<SepSeq<A, C>>", Vec<SepSeq<A, C>>));
  v.push(entry!("NonEmptySeq<SepSeq<A, C>>", NonEmptySeq<SepSeq<A, C>>));
  v.push(entry!("SepSeq<SepSeq<A, C>, C>", SepSeq<SepSeq<A, C>, C>));
  v.push(entry!("NonEmptySepSeq<SepSeq<A, C>, C>", NonEmptySepSeq<SepSeq<A, C>, C>));
  v.push(entry!("OptSepSeq<SepSeq<A, C>, C>", OptSepSeq<SepSeq<A, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<SepSeq<A, C>, C>", NonEmptyOptSepSeq<SepSeq<A, C>, C>));
  v.push(entry!("NonEmptySepList<SepSeq<A, C>, C>", NonEmptySepList<SepSeq<A, C>, C>));
  v.push(entry!("SepList<SepSeq<A, C>, C>", SepList<SepSeq<A, C>, C>));
  v.push(entry!("NonEmptyOptSepList<SepSeq<A, C>, C>", NonEmptyOptSepList<SepSeq<A, C>, C>));
  v.push(entry!("OptSepList<SepSeq<A, C>, C>", OptSepList<SepSeq<A, C>, C>));
  v.push(entry!("Quoted<A, SepSeq<A, C>, C>", Quoted<A, SepSeq<A, C>, C>));
  v.push(entry!("Quoted<SepSeq<A, C>, B, A>", Quoted<SepSeq<A, C>, B, A>));
  v.push(entry!("Quoted<A, B, SepSeq<A, C>>", Quoted<A, B, SepSeq<A, C>>));
  v.push(entry!("OptPrefix<C, SepSeq<A, C>>", OptPrefix<C, SepSeq<A, C>>));
  v.push(entry!("OptPrefix<SepSeq<A, C>, B>", OptPrefix<SepSeq<A, C>, B>));
  v.push(entry!("OptTokenPrefix<C, SepSeq<A, C>>", OptTokenPrefix<C, SepSeq<A, C>>));
  v.push(entry!("TokenPrefix<C, SepSeq<A, C>>", TokenPrefix<C, SepSeq<A, C>>));
  v.push(entry!("(SepSeq<A, C>,)", (SepSeq<A, C>,)));
  v.push(entry!("(SepSeq<A, C>, B)", (SepSeq<A, C>, B)));
  v.push(entry!("(A, SepSeq<A, C>)", (A, SepSeq<A, C>)));
}
#[rustfmt::skip]
fn push6(v: &mut Vec<Entry>) {
  v.push(entry!("(A, SepSeq<A, C>, C)", (A, SepSeq<A, C>, C)));
  v.push(entry!("SepSeq<A, SepSeq<A, C>>", SepSeq<A, SepSeq<A, C>>));
  v.push(entry!("NonEmptySepSeq<A, SepSeq<A, C>>", NonEmptySepSeq<A, SepSeq<A, C>>));
  v.push(entry!("OptSepSeq<A, SepSeq<A, C>>", OptSepSeq<A, SepSeq<A, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, SepSeq<A, C>>", NonEmptyOptSepSeq<A, SepSeq<A, C>>));
  v.push(entry!("NonEmptySepList<A, SepSeq<A, C>>", NonEmptySepList<A, SepSeq<A, C>>));
  v.push(entry!("SepList<A, SepSeq<A, C>>", SepList<A, SepSeq<A, C>>));
  v.push(entry!("NonEmptyOptSepList<A, SepSeq<A, C>>", NonEmptyOptSepList<A, SepSeq<A, C>>));
  v.push(entry!("OptSepList<A, SepSeq<A, C>>", OptSepList<A, SepSeq<A, C>>));
  v.push(entry!("Box<NonEmptySepSeq<A, C>>", Box<NonEmptySepSeq<A, C>>));
  v.push(entry!("Option<NonEmptySepSeq<A, C>>", Option<NonEmptySepSeq<A, C>>));
  v.push(entry!("Vec<NonEmptySepSeq<A, C>>", Vec<NonEmptySepSeq<A, C>>));
  v.push(entry!("NonEmptySeq<NonEmptySepSeq<A, C>>", NonEmptySeq<NonEmptySepSeq<A, C>>));
  v.push(entry!("SepSeq<NonEmptySepSeq<A, C>, C>", SepSeq<NonEmptySepSeq<A, C>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptySepSeq<A, C>, C>", NonEmptySepSeq<NonEmptySepSeq<A, C>, C>));
  v.push(entry!("OptSepSeq<NonEmptySepSeq<A, C>, C>", OptSepSeq<NonEmptySepSeq<A, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptySepSeq<A, C>, C>", NonEmptyOptSepSeq<NonEmptySepSeq<A, C>, C>));
  v.push(entry!("NonEmptySepList<NonEmptySepSeq<A, C>, C>", NonEmptySepList<NonEmptySepSeq<A, C>, C>));
  v.push(entry!("SepList<NonEmptySepSeq<A, C>, C>", SepList<NonEmptySepSeq<A, C>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptySepSeq<A, C>, C>", NonEmptyOptSepList<NonEmptySepSeq<A, C>, C>));
  v.push(entry!("OptSepList<NonEmptySepSeq<A, C>, C>", OptSepList<NonEmptySepSeq<A, C>, C>));
  v.push(entry!("Quoted<A, NonEmptySepSeq<A, C>, C>", Quoted<A, NonEmptySepSeq<A, C>, C>));
  v.push(entry!("Quoted<NonEmptySepSeq<A, C>, B, A>", Quoted<NonEmptySepSeq<A, C>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptySepSeq<A, C>>", Quoted<A, B, NonEmptySepSeq<A, C>>));
  v.push(entry!("OptPrefix<C, NonEmptySepSeq<A, C>>", OptPrefix<C, NonEmptySepSeq<A, C>>));
  v.push(entry!("OptPrefix<NonEmptySepSeq<A, C>, B>", OptPrefix<NonEmptySepSeq<A, C>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptySepSeq<A, C>>", OptTokenPrefix<C, NonEmptySepSeq<A, C>>));
  v.push(entry!("TokenPrefix<C, NonEmptySepSeq<A, C>>", TokenPrefix<C, NonEmptySepSeq<A, C>>));
  v.push(entry!("(NonEmptySepSeq<A, C>,)", (NonEmptySepSeq<A, C>,)));
  v.push(entry!("(NonEmptySepSeq<A, C>, B)", (NonEmptySepSeq<A, C>, B)));
  v.push(entry!("(A, NonEmptySepSeq<A, C>)", (A, NonEmptySepSeq<A, C>)));
  v.push(entry!("(A, NonEmptySepSeq<A, C>, C)", (A, NonEmptySepSeq<A, C>, C)));
  v.push(entry!("SepSeq<A, NonEmptySepSeq<A, C>>", SepSeq<A, NonEmptySepSeq<A, C>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptySepSeq<A, C>>", NonEmptySepSeq<A, NonEmptySepSeq<A, C>>));
  v.push(entry!("OptSepSeq<A, NonEmptySepSeq<A, C>>", OptSepSeq<A, NonEmptySepSeq<A, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptySepSeq<A, C>>", NonEmptyOptSepSeq<A, NonEmptySepSeq<A, C>>));
  v.push(entry!("NonEmptySepList<A, NonEmptySepSeq<A, C>>", NonEmptySepList<A, NonEmptySepSeq<A, C>>));
  v.push(entry!("SepList<A, NonEmptySepSeq<A, C>>", SepList<A, NonEmptySepSeq<A, C>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptySepSeq<A, C>>", NonEmptyOptSepList<A, NonEmptySepSeq<A, C>>));
  v.push(entry!("OptSepList<A, NonEmptySepSeq<A, C>>", OptSepList<A, NonEmptySepSeq<A, C>>));
}
#[rustfmt::skip]
fn push7(v: &mut Vec<Entry>) {
  v.push(entry!("Box<OptSepSeq<A, C>>", Box<OptSepSeq<A, C>>));
  v.push(entry!("Option<OptSepSeq<A, C>>", Option<OptSepSeq<A, C>>));
  v.push(entry!("Vec<OptSepSeq<A, C>>", Vec<OptSepSeq<A, C>>));
  v.push(entry!("NonEmptySeq<OptSepSeq<A, C>>", NonEmptySeq<OptSepSeq<A, C>>));
  v.push(entry!("SepSeq<OptSepSeq<A, C>, C>", SepSeq<OptSepSeq<A, C>, C>));
  v.push(entry!("NonEmptySepSeq<OptSepSeq<A, C>, C>", NonEmptySepSeq<OptSepSeq<A, C>, C>));
  v.push(entry!("OptSepSeq<OptSepSeq<A, C>, C>", OptSepSeq<OptSepSeq<A, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<OptSepSeq<A, C>, C>", NonEmptyOptSepSeq<OptSepSeq<A, C>, C>));
  v.push(entry!("NonEmptySepList<OptSepSeq<A, C>, C>", NonEmptySepList<OptSepSeq<A, C>, C>));
  v.push(entry!("SepList<OptSepSeq<A, C>, C>", SepList<OptSepSeq<A, C>, C>));
  v.push(entry!("NonEmptyOptSepList<OptSepSeq<A, C>, C>", NonEmptyOptSepList<OptSepSeq<A, C>, C>));
  v.push(entry!("OptSepList<OptSepSeq<A, C>, C>", OptSepList<OptSepSeq<A, C>, C>));
  v.push(entry!("Quoted<A, OptSepSeq<A, C>, C>", Quoted<A, OptSepSeq<A, C>, C>));
  v.push(entry!("Quoted<OptSepSeq<A, C>, B, A>", Quoted<OptSepSeq<A, C>, B, A>));
  v.push(entry!("Quoted<A, B, OptSepSeq<A, C>>", Quoted<A, B, OptSepSeq<A, C>>));
  v.push(entry!("OptPrefix<C, OptSepSeq<A, C>>", OptPrefix<C, OptSepSeq<A, C>>));
  v.push(entry!("OptPrefix<OptSepSeq<A, C>, B>", OptPrefix<OptSepSeq<A, C>, B>));
  v.push(entry!("OptTokenPrefix<C, OptSepSeq<A, C>>", OptTokenPrefix<C, OptSepSeq<A, C>>));
  v.push(entry!("TokenPrefix<C, OptSepSeq<A, C>>", TokenPrefix<C, OptSepSeq<A, C>>));
  v.push(entry!("(OptSepSeq<A, C>,)", (OptSepSeq<A, C>,)));
  v.push(entry!("(OptSepSeq<A, C>, B)", (OptSepSeq<A, C>, B)));
  v.push(entry!("(A, OptSepSeq<A, C>)", (A, OptSepSeq<A, C>)));
  v.push(entry!("(A, OptSepSeq<A, C>, C)", (A, OptSepSeq<A, C>, C)));
  v.push(entry!("SepSeq<A, OptSepSeq<A, C>>", SepSeq<A, OptSepSeq<A, C>>));
  v.push(entry!("NonEmptySepSeq<A, OptSepSeq<A, C>>", NonEmptySepSeq<A, OptSepSeq<A, C>>));
  v.push(entry!("OptSepSeq<A, OptSepSeq<A, C>>", OptSepSeq<A, OptSepSeq<A, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, OptSepSeq<A, C>>", NonEmptyOptSepSeq<A, OptSepSeq<A, C>>));
  v.push(entry!("NonEmptySepList<A, OptSepSeq<A, C>>", NonEmptySepList<A, OptSepSeq<A, C>>));
  v.push(entry!("SepList<A, OptSepSeq<A, C>>", SepList<A, OptSepSeq<A, C>>));
  v.push(entry!("NonEmptyOptSepList<A, OptSepSeq<A, C>>", NonEmptyOptSepList<A, OptSepSeq<A, C>>));
  v.push(entry!("OptSepList<A, OptSepSeq<A, C>>", OptSepList<A, OptSepSeq<A, C>>));
  v.push(entry!("Box<NonEmptyOptSepSeq<A, C>>", Box<NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("Option<NonEmptyOptSepSeq<A, C>>", Option<NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("Vec<NonEmptyOptSepSeq<A, C>>", Vec<NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("NonEmptySeq<NonEmptyOptSepSeq<A, C>>", NonEmptySeq<NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("SepSeq<NonEmptyOptSepSeq<A, C>, C>", SepSeq<NonEmptyOptSepSeq<A, C>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptyOptSepSeq<A, C>, C>", NonEmptySepSeq<NonEmptyOptSepSeq<A, C>, C>));
  v.push(entry!("OptSepSeq<NonEmptyOptSepSeq<A, C>, C>", OptSepSeq<NonEmptyOptSepSeq<A, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptyOptSepSeq<A, C>, C>", NonEmptyOptSepSeq<NonEmptyOptSepSeq<A, C>, C>));
  v.push(entry!("NonEmptySepList<NonEmptyOptSepSeq<A, C>, C>", NonEmptySepList<NonEmptyOptSepSeq<A, C>, C>));
}
#[rustfmt::skip]
fn push8(v: &mut Vec<Entry>) {
  v.push(entry!("SepList<NonEmptyOptSepSeq<A, C>, C>", SepList<NonEmptyOptSepSeq<A, C>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptyOptSepSeq<A, C>, C>", NonEmptyOptSepList<NonEmptyOptSepSeq<A, C>, C>));
  v.push(entry!("OptSepList<NonEmptyOptSepSeq<A, C>, C>", OptSepList<NonEmptyOptSepSeq<A, C>, C>));
  v.push(entry!("Quoted<A, NonEmptyOptSepSeq<A, C>, C>", Quoted<A, NonEmptyOptSepSeq<A, C>, C>));
  v.push(entry!("Quoted<NonEmptyOptSepSeq<A, C>, B, A>", Quoted<NonEmptyOptSepSeq<A, C>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptyOptSepSeq<A, C>>", Quoted<A, B, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("OptPrefix<C, NonEmptyOptSepSeq<A, C>>", OptPrefix<C, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("OptPrefix<NonEmptyOptSepSeq<A, C>, B>", OptPrefix<NonEmptyOptSepSeq<A, C>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptyOptSepSeq<A, C>>", OptTokenPrefix<C, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("TokenPrefix<C, NonEmptyOptSepSeq<A, C>>", TokenPrefix<C, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("(NonEmptyOptSepSeq<A, C>,)", (NonEmptyOptSepSeq<A, C>,)));
  v.push(entry!("(NonEmptyOptSepSeq<A, C>, B)", (NonEmptyOptSepSeq<A, C>, B)));
  v.push(entry!("(A, NonEmptyOptSepSeq<A, C>)", (A, NonEmptyOptSepSeq<A, C>)));
  v.push(entry!("(A, NonEmptyOptSepSeq<A, C>, C)", (A, NonEmptyOptSepSeq<A, C>, C)));
  v.push(entry!("SepSeq<A, NonEmptyOptSepSeq<A, C>>", SepSeq<A, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptyOptSepSeq<A, C>>", NonEmptySepSeq<A, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("OptSepSeq<A, NonEmptyOptSepSeq<A, C>>", OptSepSeq<A, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptyOptSepSeq<A, C>>", NonEmptyOptSepSeq<A, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("NonEmptySepList<A, NonEmptyOptSepSeq<A, C>>", NonEmptySepList<A, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("SepList<A, NonEmptyOptSepSeq<A, C>>", SepList<A, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptyOptSepSeq<A, C>>", NonEmptyOptSepList<A, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("OptSepList<A, NonEmptyOptSepSeq<A, C>>", OptSepList<A, NonEmptyOptSepSeq<A, C>>));
  v.push(entry!("Box<NonEmptySepList<A, C>>", Box<NonEmptySepList<A, C>>));
  v.push(entry!("Option<NonEmptySepList<A, C>>", Option<NonEmptySepList<A, C>>));
  v.push(entry!("Vec<NonEmptySepList<A, C>>", Vec<NonEmptySepList<A, C>>));
  v.push(entry!("NonEmptySeq<NonEmptySepList<A, C>>", NonEmptySeq<NonEmptySepList<A, C>>));
  v.push(entry!("SepSeq<NonEmptySepList<A, C>, C>", SepSeq<NonEmptySepList<A, C>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptySepList<A, C>, C>", NonEmptySepSeq<NonEmptySepList<A, C>, C>));
  v.push(entry!("OptSepSeq<NonEmptySepList<A, C>, C>", OptSepSeq<NonEmptySepList<A, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptySepList<A, C>, C>", NonEmptyOptSepSeq<NonEmptySepList<A, C>, C>));
  v.push(entry!("NonEmptySepList<NonEmptySepList<A, C>, C>", NonEmptySepList<NonEmptySepList<A, C>, C>));
  v.push(entry!("SepList<NonEmptySepList<A, C>, C>", SepList<NonEmptySepList<A, C>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptySepList<A, C>, C>", NonEmptyOptSepList<NonEmptySepList<A, C>, C>));
  v.push(entry!("OptSepList<NonEmptySepList<A, C>, C>", OptSepList<NonEmptySepList<A, C>, C>));
  v.push(entry!("Quoted<A, NonEmptySepList<A, C>, C>", Quoted<A, NonEmptySepList<A, C>, C>));
  v.push(entry!("Quoted<NonEmptySepList<A, C>, B, A>", Quoted<NonEmptySepList<A, C>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptySepList<A, C>>", Quoted<A, B, NonEmptySepList<A, C>>));
  v.push(entry!("OptPrefix<C, NonEmptySepList<A, C>>", OptPrefix<C, NonEmptySepList<A, C>>));
  v.push(entry!("OptPrefix<NonEmptySepList<A, C>, B>", OptPrefix<NonEmptySepList<A, C>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptySepList<A, C>>", OptTokenPrefix<C, NonEmptySepList<A, C>>));
}
#[rustfmt::skip]
fn push9(v: &mut Vec<Entry>) {
  v.push(entry!("TokenPrefix<C, NonEmptySepList<A, C>>", TokenPrefix<C, NonEmptySepList<A, C>>));
  v.push(entry!("(NonEmptySepList<A, C>,)", (NonEmptySepList<A, C>,)));
  v.push(entry!("(NonEmptySepList<A, C>, B)", (NonEmptySepList<A, C>, B)));
  v.push(entry!("(A, NonEmptySepList<A, C>)", (A, NonEmptySepList<A, C>)));
  v.push(entry!("(A, NonEmptySepList<A, C>, C)", (A, NonEmptySepList<A, C>, C)));
  v.push(entry!("SepSeq<A, NonEmptySepList<A, C>>", SepSeq<A, NonEmptySepList<A, C>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptySepList<A, C>>", NonEmptySepSeq<A, NonEmptySepList<A, C>>));
  v.push(entry!("OptSepSeq<A, NonEmptySepList<A, C>>", OptSepSeq<A, NonEmptySepList<A, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptySepList<A, C>>", NonEmptyOptSepSeq<A, NonEmptySepList<A, C>>));
  v.push(entry!("NonEmptySepList<A, NonEmptySepList<A, C>>", NonEmptySepList<A, NonEmptySepList<A, C>>));
  v.push(entry!("SepList<A, NonEmptySepList<A, C>>", SepList<A, NonEmptySepList<A, C>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptySepList<A, C>>", NonEmptyOptSepList<A, NonEmptySepList<A, C>>));
  v.push(entry!("OptSepList<A, NonEmptySepList<A, C>>", OptSepList<A, NonEmptySepList<A, C>>));
  v.push(entry!("Box<SepList<A, C>>", Box<SepList<A, C>>));
  v.push(entry!("Option<SepList<A, C>>", Option<SepList<A, C>>));
  v.push(entry!("Vec<SepList<A, C>>", Vec<SepList<A, C>>));
  v.push(entry!("NonEmptySeq<SepList<A, C>>", NonEmptySeq<SepList<A, C>>));
  v.push(entry!("SepSeq<SepList<A, C>, C>", SepSeq<SepList<A, C>, C>));
  v.push(entry!("NonEmptySepSeq<SepList<A, C>, C>", NonEmptySepSeq<SepList<A, C>, C>));
  v.push(entry!("OptSepSeq<SepList<A, C>, C>", OptSepSeq<SepList<A, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<SepList<A, C>, C>", NonEmptyOptSepSeq<SepList<A, C>, C>));
  v.push(entry!("NonEmptySepList<SepList<A, C>, C>", NonEmptySepList<SepList<A, C>, C>));
  v.push(entry!("SepList<SepList<A, C>, C>", SepList<SepList<A, C>, C>));
  v.push(entry!("NonEmptyOptSepList<SepList<A, C>, C>", NonEmptyOptSepList<SepList<A, C>, C>));
  v.push(entry!("OptSepList<SepList<A, C>, C>", OptSepList<SepList<A, C>, C>));
  v.push(entry!("Quoted<A, SepList<A, C>, C>", Quoted<A, SepList<A, C>, C>));
  v.push(entry!("Quoted<SepList<A, C>, B, A>", Quoted<SepList<A, C>, B, A>));
  v.push(entry!("Quoted<A, B, SepList<A, C>>", Quoted<A, B, SepList<A, C>>));
  v.push(entry!("OptPrefix<C, SepList<A, C>>", OptPrefix<C, SepList<A, C>>));
  v.push(entry!("OptPrefix<SepList<A, C>, B>", OptPrefix<SepList<A, C>, B>));
  v.push(entry!("OptTokenPrefix<C, SepList<A, C>>", OptTokenPrefix<C, SepList<A, C>>));
  v.push(entry!("TokenPrefix<C, SepList<A, C>>", TokenPrefix<C, SepList<A, C>>));
  v.push(entry!("(SepList<A, C>,)", (SepList<A, C>,)));
  v.push(entry!("(SepList<A, C>, B)", (SepList<A, C>, B)));
  v.push(entry!("(A, SepList<A, C>)", (A, SepList<A, C>)));
  v.push(entry!("(A, SepList<A, C>, C)", (A, SepList<A, C>, C)));
  v.push(entry!("SepSeq<A, SepList<A, C>>", SepSeq<A, SepList<A, C>>));
  v.push(entry!("NonEmptySepSeq<A, SepList<A, C>>", NonEmptySepSeq<A, SepList<A, C>>));
  v.push(entry!("OptSepSeq<A, SepList<A, C>>", OptSepSeq<A, SepList<A, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, SepList<A, C>>", NonEmptyOptSepSeq<A, SepList<A, C>>));
}
#[rustfmt::skip]
fn push10(v: &mut Vec<Entry>) {
  v.push(entry!("NonEmptySepList<A, SepList<A, C>>", NonEmptySepList<A, SepList<A, C>>));
  v.push(entry!("SepList<A, SepList<A, C>>", SepList<A, SepList<A, C>>));
  v.push(entry!("NonEmptyOptSepList<A, SepList<A, C>>", NonEmptyOptSepList<A, SepList<A, C>>));
  v.push(entry!("OptSepList<A, SepList<A, C>>", OptSepList<A, SepList<A, C>>));
  v.push(entry!("Box<NonEmptyOptSepList<A, C>>", Box<NonEmptyOptSepList<A, C>>));
  v.push(entry!("Option<NonEmptyOptSepList<A, C>>", Option<NonEmptyOptSepList<A, C>>));
  v.push(entry!("Vec<NonEmptyOptSepList<A, C>>", Vec<NonEmptyOptSepList<A, C>>));
  v.push(entry!("NonEmptySeq<NonEmptyOptSepList<A, C>>", NonEmptySeq<NonEmptyOptSepList<A, C>>));
  v.push(entry!("SepSeq<NonEmptyOptSepList<A, C>, C>", SepSeq<NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptyOptSepList<A, C>, C>", NonEmptySepSeq<NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("OptSepSeq<NonEmptyOptSepList<A, C>, C>", OptSepSeq<NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptyOptSepList<A, C>, C>", NonEmptyOptSepSeq<NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("NonEmptySepList<NonEmptyOptSepList<A, C>, C>", NonEmptySepList<NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("SepList<NonEmptyOptSepList<A, C>, C>", SepList<NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptyOptSepList<A, C>, C>", NonEmptyOptSepList<NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("OptSepList<NonEmptyOptSepList<A, C>, C>", OptSepList<NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("Quoted<A, NonEmptyOptSepList<A, C>, C>", Quoted<A, NonEmptyOptSepList<A, C>, C>));
  v.push(entry!("Quoted<NonEmptyOptSepList<A, C>, B, A>", Quoted<NonEmptyOptSepList<A, C>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptyOptSepList<A, C>>", Quoted<A, B, NonEmptyOptSepList<A, C>>));
  v.push(entry!("OptPrefix<C, NonEmptyOptSepList<A, C>>", OptPrefix<C, NonEmptyOptSepList<A, C>>));
  v.push(entry!("OptPrefix<NonEmptyOptSepList<A, C>, B>", OptPrefix<NonEmptyOptSepList<A, C>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptyOptSepList<A, C>>", OptTokenPrefix<C, NonEmptyOptSepList<A, C>>));
  v.push(entry!("TokenPrefix<C, NonEmptyOptSepList<A, C>>", TokenPrefix<C, NonEmptyOptSepList<A, C>>));
  v.push(entry!("(NonEmptyOptSepList<A, C>,)", (NonEmptyOptSepList<A, C>,)));
  v.push(entry!("(NonEmptyOptSepList<A, C>, B)", (NonEmptyOptSepList<A, C>, B)));
  v.push(entry!("(A, NonEmptyOptSepList<A, C>)", (A, NonEmptyOptSepList<A, C>)));
  v.push(entry!("(A, NonEmptyOptSepList<A, C>, C)", (A, NonEmptyOptSepList<A, C>, C)));
  v.push(entry!("SepSeq<A, NonEmptyOptSepList<A, C>>", SepSeq<A, NonEmptyOptSepList<A, C>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptyOptSepList<A, C>>", NonEmptySepSeq<A, NonEmptyOptSepList<A, C>>));
  v.push(entry!("OptSepSeq<A, NonEmptyOptSepList<A, C>>", OptSepSeq<A, NonEmptyOptSepList<A, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptyOptSepList<A, C>>", NonEmptyOptSepSeq<A, NonEmptyOptSepList<A, C>>));
  v.push(entry!("NonEmptySepList<A, NonEmptyOptSepList<A, C>>", NonEmptySepList<A, NonEmptyOptSepList<A, C>>));
  v.push(entry!("SepList<A, NonEmptyOptSepList<A, C>>", SepList<A, NonEmptyOptSepList<A, C>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptyOptSepList<A, C>>", NonEmptyOptSepList<A, NonEmptyOptSepList<A, C>>));
  v.push(entry!("OptSepList<A, NonEmptyOptSepList<A, C>>", OptSepList<A, NonEmptyOptSepList<A, C>>));
  v.push(entry!("Box<OptSepList<A, C>>", Box<OptSepList<A, C>>));
  v.push(entry!("Option<OptSepList<A, C>>", Option<OptSepList<A, C>>));
  v.push(entry!("Vec<OptSepList<A, C>>", Vec<OptSepList<A, C>>));
  v.push(entry!("NonEmptySeq<OptSepList<A, C>>", NonEmptySeq<OptSepList<A, C>>));
  v.push(entry!("SepSeq<OptSepList<A, C>, C>", SepSeq<OptSepList<A, C>, C>));
}
#[rustfmt::skip]
fn push11(v: &mut Vec<Entry>) {
  v.push(entry!("NonEmptySepSeq<OptSepList<A, C>, C>", NonEmptySepSeq<OptSepList<A, C>, C>));
  v.push(entry!("OptSepSeq<OptSepList<A, C>, C>", OptSepSeq<OptSepList<A, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<OptSepList<A, C>, C>", NonEmptyOptSepSeq<OptSepList<A, C>, C>));
  v.push(entry!("NonEmptySepList<OptSepList<A, C>, C>", NonEmptySepList<OptSepList<A, C>, C>));
  v.push(entry!("SepList<OptSepList<A, C>, C>", SepList<OptSepList<A, C>, C>));
  v.push(entry!("NonEmptyOptSepList<OptSepList<A, C>, C>", NonEmptyOptSepList<OptSepList<A, C>, C>));
  v.push(entry!("OptSepList<OptSepList<A, C>, C>", OptSepList<OptSepList<A, C>, C>));
  v.push(entry!("Quoted<A, OptSepList<A, C>, C>", Quoted<A, OptSepList<A, C>, C>));
  v.push(entry!("Quoted<OptSepList<A, C>, B, A>", Quoted<OptSepList<A, C>, B, A>));
  v.push(entry!("Quoted<A, B, OptSepList<A, C>>", Quoted<A, B, OptSepList<A, C>>));
  v.push(entry!("OptPrefix<C, OptSepList<A, C>>", OptPrefix<C, OptSepList<A, C>>));
  v.push(entry!("OptPrefix<OptSepList<A, C>, B>", OptPrefix<OptSepList<A, C>, B>));
  v.push(entry!("OptTokenPrefix<C, OptSepList<A, C>>", OptTokenPrefix<C, OptSepList<A, C>>));
  v.push(entry!("TokenPrefix<C, OptSepList<A, C>>", TokenPrefix<C, OptSepList<A, C>>));
  v.push(entry!("(OptSepList<A, C>,)", (OptSepList<A, C>,)));
  v.push(entry!("(OptSepList<A, C>, B)", (OptSepList<A, C>, B)));
  v.push(entry!("(A, OptSepList<A, C>)", (A, OptSepList<A, C>)));
  v.push(entry!("(A, OptSepList<A, C>, C)", (A, OptSepList<A, C>, C)));
  v.push(entry!("SepSeq<A, OptSepList<A, C>>", SepSeq<A, OptSepList<A, C>>));
  v.push(entry!("NonEmptySepSeq<A, OptSepList<A, C>>", NonEmptySepSeq<A, OptSepList<A, C>>));
  v.push(entry!("OptSepSeq<A, OptSepList<A, C>>", OptSepSeq<A, OptSepList<A, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, OptSepList<A, C>>", NonEmptyOptSepSeq<A, OptSepList<A, C>>));
  v.push(entry!("NonEmptySepList<A, OptSepList<A, C>>", NonEmptySepList<A, OptSepList<A, C>>));
  v.push(entry!("SepList<A, OptSepList<A, C>>", SepList<A, OptSepList<A, C>>));
  v.push(entry!("NonEmptyOptSepList<A, OptSepList<A, C>>", NonEmptyOptSepList<A, OptSepList<A, C>>));
  v.push(entry!("OptSepList<A, OptSepList<A, C>>", OptSepList<A, OptSepList<A, C>>));
  v.push(entry!("Box<Quoted<A, B, C>>", Box<Quoted<A, B, C>>));
  v.push(entry!("Option<Quoted<A, B, C>>", Option<Quoted<A, B, C>>));
  v.push(entry!("Vec<Quoted<A, B, C>>", Vec<Quoted<A, B, C>>));
  v.push(entry!("NonEmptySeq<Quoted<A, B, C>>", NonEmptySeq<Quoted<A, B, C>>));
  v.push(entry!("SepSeq<Quoted<A, B, C>, C>", SepSeq<Quoted<A, B, C>, C>));
  v.push(entry!("NonEmptySepSeq<Quoted<A, B, C>, C>", NonEmptySepSeq<Quoted<A, B, C>, C>));
  v.push(entry!("OptSepSeq<Quoted<A, B, C>, C>", OptSepSeq<Quoted<A, B, C>, C>));
  v.push(entry!("NonEmptyOptSepSeq<Quoted<A, B, C>, C>", NonEmptyOptSepSeq<Quoted<A, B, C>, C>));
  v.push(entry!("NonEmptySepList<Quoted<A, B, C>, C>", NonEmptySepList<Quoted<A, B, C>, C>));
  v.push(entry!("SepList<Quoted<A, B, C>, C>", SepList<Quoted<A, B, C>, C>));
  v.push(entry!("NonEmptyOptSepList<Quoted<A, B, C>, C>", NonEmptyOptSepList<Quoted<A, B, C>, C>));
  v.push(entry!("OptSepList<Quoted<A, B, C>, C>", OptSepList<Quoted<A, B, C>, C>));
  v.push(entry!("Quoted<A, Quoted<A, B, C>, C>", Quoted<A, Quoted<A, B, C>, C>));
  v.push(entry!("Quoted<Quoted<A, B, C>, B, A>", Quoted<Quoted<A, B, C>, B, A>));
}
#[rustfmt::skip]
fn push12(v: &mut Vec<Entry>) {
  v.push(entry!("Quoted<A, B, Quoted<A, B, C>>", Quoted<A, B, Quoted<A, B, C>>));
  v.push(entry!("OptPrefix<C, Quoted<A, B, C>>", OptPrefix<C, Quoted<A, B, C>>));
  v.push(entry!("OptPrefix<Quoted<A, B, C>, B>", OptPrefix<Quoted<A, B, C>, B>));
  v.push(entry!("OptTokenPrefix<C, Quoted<A, B, C>>", OptTokenPrefix<C, Quoted<A, B, C>>));
  v.push(entry!("TokenPrefix<C, Quoted<A, B, C>>", TokenPrefix<C, Quoted<A, B, C>>));
  v.push(entry!("(Quoted<A, B, C>,)", (Quoted<A, B, C>,)));
  v.push(entry!("(Quoted<A, B, C>, B)", (Quoted<A, B, C>, B)));
  v.push(entry!("(A, Quoted<A, B, C>)", (A, Quoted<A, B, C>)));
  v.push(entry!("(A, Quoted<A, B, C>, C)", (A, Quoted<A, B, C>, C)));
  v.push(entry!("SepSeq<A, Quoted<A, B, C>>", SepSeq<A, Quoted<A, B, C>>));
  v.push(entry!("NonEmptySepSeq<A, Quoted<A, B, C>>", NonEmptySepSeq<A, Quoted<A, B, C>>));
  v.push(entry!("OptSepSeq<A, Quoted<A, B, C>>", OptSepSeq<A, Quoted<A, B, C>>));
  v.push(entry!("NonEmptyOptSepSeq<A, Quoted<A, B, C>>", NonEmptyOptSepSeq<A, Quoted<A, B, C>>));
  v.push(entry!("NonEmptySepList<A, Quoted<A, B, C>>", NonEmptySepList<A, Quoted<A, B, C>>));
  v.push(entry!("SepList<A, Quoted<A, B, C>>", SepList<A, Quoted<A, B, C>>));
  v.push(entry!("NonEmptyOptSepList<A, Quoted<A, B, C>>", NonEmptyOptSepList<A, Quoted<A, B, C>>));
  v.push(entry!("OptSepList<A, Quoted<A, B, C>>", OptSepList<A, Quoted<A, B, C>>));
  v.push(entry!("Box<Quoted<B, B, A>>", Box<Quoted<B, B, A>>));
  v.push(entry!("Option<Quoted<B, B, A>>", Option<Quoted<B, B, A>>));
  v.push(entry!("Vec<Quoted<B, B, A>>", Vec<Quoted<B, B, A>>));
  v.push(entry!("NonEmptySeq<Quoted<B, B, A>>", NonEmptySeq<Quoted<B, B, A>>));
  v.push(entry!("SepSeq<Quoted<B, B, A>, C>", SepSeq<Quoted<B, B, A>, C>));
  v.push(entry!("NonEmptySepSeq<Quoted<B, B, A>, C>", NonEmptySepSeq<Quoted<B, B, A>, C>));
  v.push(entry!("OptSepSeq<Quoted<B, B, A>, C>", OptSepSeq<Quoted<B, B, A>, C>));
  v.push(entry!("NonEmptyOptSepSeq<Quoted<B, B, A>, C>", NonEmptyOptSepSeq<Quoted<B, B, A>, C>));
  v.push(entry!("NonEmptySepList<Quoted<B, B, A>, C>", NonEmptySepList<Quoted<B, B, A>, C>));
  v.push(entry!("SepList<Quoted<B, B, A>, C>", SepList<Quoted<B, B, A>, C>));
  v.push(entry!("NonEmptyOptSepList<Quoted<B, B, A>, C>", NonEmptyOptSepList<Quoted<B, B, A>, C>));
  v.push(entry!("OptSepList<Quoted<B, B, A>, C>", OptSepList<Quoted<B, B, A>, C>));
  v.push(entry!("Quoted<A, Quoted<B, B, A>, C>", Quoted<A, Quoted<B, B, A>, C>));
  v.push(entry!("Quoted<Quoted<B, B, A>, B, A>", Quoted<Quoted<B, B, A>, B, A>));
  v.push(entry!("Quoted<A, B, Quoted<B, B, A>>", Quoted<A, B, Quoted<B, B, A>>));
  v.push(entry!("OptPrefix<C, Quoted<B, B, A>>", OptPrefix<C, Quoted<B, B, A>>));
  v.push(entry!("OptPrefix<Quoted<B, B, A>, B>", OptPrefix<Quoted<B, B, A>, B>));
  v.push(entry!("OptTokenPrefix<C, Quoted<B, B, A>>", OptTokenPrefix<C, Quoted<B, B, A>>));
  v.push(entry!("TokenPrefix<C, Quoted<B, B, A>>", TokenPrefix<C, Quoted<B, B, A>>));
  v.push(entry!("(Quoted<B, B, A>,)", (Quoted<B, B, A>,)));
  v.push(entry!("(Quoted<B, B, A>, B)", (Quoted<B, B, A>, B)));
  v.push(entry!("(A, Quoted<B, B, A>)", (A, Quoted<B, B, A>)));
  v.push(entry!("(A, Quoted<B, B, A>, C)", (A, Quoted<B, B, A>, C)));
}
#[rustfmt::skip]
fn push13(v: &mut Vec<Entry>) {
  v.push(entry!("SepSeq<A, Quoted<B, B, A>>", SepSeq<A, Quoted<B, B, A>>));
  v.push(entry!("NonEmptySepSeq<A, Quoted<B, B, A>>", NonEmptySepSeq<A, Quoted<B, B, A>>));
  v.push(entry!("OptSepSeq<A, Quoted<B, B, A>>", OptSepSeq<A, Quoted<B, B, A>>));
  v.push(entry!("NonEmptyOptSepSeq<A, Quoted<B, B, A>>", NonEmptyOptSepSeq<A, Quoted<B, B, A>>));
  v.push(entry!("NonEmptySepList<A, Quoted<B, B, A>>", NonEmptySepList<A, Quoted<B, B, A>>));
  v.push(entry!("SepList<A, Quoted<B, B, A>>", SepList<A, Quoted<B, B, A>>));
  v.push(entry!("NonEmptyOptSepList<A, Quoted<B, B, A>>", NonEmptyOptSepList<A, Quoted<B, B, A>>));
  v.push(entry!("OptSepList<A, Quoted<B, B, A>>", OptSepList<A, Quoted<B, B, A>>));
  v.push(entry!("Box<Quoted<A, B, B>>", Box<Quoted<A, B, B>>));
  v.push(entry!("Option<Quoted<A, B, B>>", Option<Quoted<A, B, B>>));
  v.push(entry!("Vec<Quoted<A, B, B>>", Vec<Quoted<A, B, B>>));
  v.push(entry!("NonEmptySeq<Quoted<A, B, B>>", NonEmptySeq<Quoted<A, B, B>>));
  v.push(entry!("SepSeq<Quoted<A, B, B>, C>", SepSeq<Quoted<A, B, B>, C>));
  v.push(entry!("NonEmptySepSeq<Quoted<A, B, B>, C>", NonEmptySepSeq<Quoted<A, B, B>, C>));
  v.push(entry!("OptSepSeq<Quoted<A, B, B>, C>", OptSepSeq<Quoted<A, B, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<Quoted<A, B, B>, C>", NonEmptyOptSepSeq<Quoted<A, B, B>, C>));
  v.push(entry!("NonEmptySepList<Quoted<A, B, B>, C>", NonEmptySepList<Quoted<A, B, B>, C>));
  v.push(entry!("SepList<Quoted<A, B, B>, C>", SepList<Quoted<A, B, B>, C>));
  v.push(entry!("NonEmptyOptSepList<Quoted<A, B, B>, C>", NonEmptyOptSepList<Quoted<A, B, B>, C>));
  v.push(entry!("OptSepList<Quoted<A, B, B>, C>", OptSepList<Quoted<A, B, B>, C>));
  v.push(entry!("Quoted<A, Quoted<A, B, B>, C>", Quoted<A, Quoted<A, B, B>, C>));
  v.push(entry!("Quoted<Quoted<A, B, B>, B, A>", Quoted<Quoted<A, B, B>, B, A>));
  v.push(entry!("Quoted<A, B, Quoted<A, B, B>>", Quoted<A, B, Quoted<A, B, B>>));
  v.push(entry!("OptPrefix<C, Quoted<A, B, B>>", OptPrefix<C, Quoted<A, B, B>>));
  v.push(entry!("OptPrefix<Quoted<A, B, B>, B>", OptPrefix<Quoted<A, B, B>, B>));
  v.push(entry!("OptTokenPrefix<C, Quoted<A, B, B>>", OptTokenPrefix<C, Quoted<A, B, B>>));
  v.push(entry!("TokenPrefix<C, Quoted<A, B, B>>", TokenPrefix<C, Quoted<A, B, B>>));
  v.push(entry!("(Quoted<A, B, B>,)", (Quoted<A, B, B>,)));
  v.push(entry!("(Quoted<A, B, B>, B)", (Quoted<A, B, B>, B)));
  v.push(entry!("(A, Quoted<A, B, B>)", (A, Quoted<A, B, B>)));
  v.push(entry!("(A, Quoted<A, B, B>, C)", (A, Quoted<A, B, B>, C)));
  v.push(entry!("SepSeq<A, Quoted<A, B, B>>", SepSeq<A, Quoted<A, B, B>>));
  v.push(entry!("NonEmptySepSeq<A, Quoted<A, B, B>>", NonEmptySepSeq<A, Quoted<A, B, B>>));
  v.push(entry!("OptSepSeq<A, Quoted<A, B, B>>", OptSepSeq<A, Quoted<A, B, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, Quoted<A, B, B>>", NonEmptyOptSepSeq<A, Quoted<A, B, B>>));
  v.push(entry!("NonEmptySepList<A, Quoted<A, B, B>>", NonEmptySepList<A, Quoted<A, B, B>>));
  v.push(entry!("SepList<A, Quoted<A, B, B>>", SepList<A, Quoted<A, B, B>>));
  v.push(entry!("NonEmptyOptSepList<A, Quoted<A, B, B>>", NonEmptyOptSepList<A, Quoted<A, B, B>>));
  v.push(entry!("OptSepList<A, Quoted<A, B, B>>", OptSepList<A, Quoted<A, B, B>>));
  v.push(entry!("Box<OptPrefix<C, A>>", Box<OptPrefix<C, A>>));
}
#[rustfmt::skip]
fn push14(v: &mut Vec<Entry>) {
  v.push(entry!("Option<OptPrefix<C, A>>", Option<OptPrefix<C, A>>));
  v.push(entry!("Vec<OptPrefix<C, A>>", Vec<OptPrefix<C, A>>));
  v.push(entry!("NonEmptySeq<OptPrefix<C, A>>", NonEmptySeq<OptPrefix<C, A>>));
  v.push(entry!("SepSeq<OptPrefix<C, A>, C>", SepSeq<OptPrefix<C, A>, C>));
  v.push(entry!("NonEmptySepSeq<OptPrefix<C, A>, C>", NonEmptySepSeq<OptPrefix<C, A>, C>));
  v.push(entry!("OptSepSeq<OptPrefix<C, A>, C>", OptSepSeq<OptPrefix<C, A>, C>));
  v.push(entry!("NonEmptyOptSepSeq<OptPrefix<C, A>, C>", NonEmptyOptSepSeq<OptPrefix<C, A>, C>));
  v.push(entry!("NonEmptySepList<OptPrefix<C, A>, C>", NonEmptySepList<OptPrefix<C, A>, C>));
  v.push(entry!("SepList<OptPrefix<C, A>, C>", SepList<OptPrefix<C, A>, C>));
  v.push(entry!("NonEmptyOptSepList<OptPrefix<C, A>, C>", NonEmptyOptSepList<OptPrefix<C, A>, C>));
  v.push(entry!("OptSepList<OptPrefix<C, A>, C>", OptSepList<OptPrefix<C, A>, C>));
  v.push(entry!("Quoted<A, OptPrefix<C, A>, C>", Quoted<A, OptPrefix<C, A>, C>));
  v.push(entry!("Quoted<OptPrefix<C, A>, B, A>", Quoted<OptPrefix<C, A>, B, A>));
  v.push(entry!("Quoted<A, B, OptPrefix<C, A>>", Quoted<A, B, OptPrefix<C, A>>));
  v.push(entry!("OptPrefix<C, OptPrefix<C, A>>", OptPrefix<C, OptPrefix<C, A>>));
  v.push(entry!("OptPrefix<OptPrefix<C, A>, B>", OptPrefix<OptPrefix<C, A>, B>));
  v.push(entry!("OptTokenPrefix<C, OptPrefix<C, A>>", OptTokenPrefix<C, OptPrefix<C, A>>));
  v.push(entry!("TokenPrefix<C, OptPrefix<C, A>>", TokenPrefix<C, OptPrefix<C, A>>));
  v.push(entry!("(OptPrefix<C, A>,)", (OptPrefix<C, A>,)));
  v.push(entry!("(OptPrefix<C, A>, B)", (OptPrefix<C, A>, B)));
  v.push(entry!("(A, OptPrefix<C, A>)", (A, OptPrefix<C, A>)));
  v.push(entry!("(A, OptPrefix<C, A>, C)", (A, OptPrefix<C, A>, C)));
  v.push(entry!("SepSeq<A, OptPrefix<C, A>>", SepSeq<A, OptPrefix<C, A>>));
  v.push(entry!("NonEmptySepSeq<A, OptPrefix<C, A>>", NonEmptySepSeq<A, OptPrefix<C, A>>));
  v.push(entry!("OptSepSeq<A, OptPrefix<C, A>>", OptSepSeq<A, OptPrefix<C, A>>));
  v.push(entry!("NonEmptyOptSepSeq<A, OptPrefix<C, A>>", NonEmptyOptSepSeq<A, OptPrefix<C, A>>));
  v.push(entry!("NonEmptySepList<A, OptPrefix<C, A>>", NonEmptySepList<A, OptPrefix<C, A>>));
  v.push(entry!("SepList<A, OptPrefix<C, A>>", SepList<A, OptPrefix<C, A>>));
  v.push(entry!("NonEmptyOptSepList<A, OptPrefix<C, A>>", NonEmptyOptSepList<A, OptPrefix<C, A>>));
  v.push(entry!("OptSepList<A, OptPrefix<C, A>>", OptSepList<A, OptPrefix<C, A>>));
  v.push(entry!("Box<OptPrefix<A, B>>", Box<OptPrefix<A, B>>));
  v.push(entry!("Option<OptPrefix<A, B>>", Option<OptPrefix<A, B>>));
  v.push(entry!("Vec<OptPrefix<A, B>>", Vec<OptPrefix<A, B>>));
  v.push(entry!("NonEmptySeq<OptPrefix<A, B>>", NonEmptySeq<OptPrefix<A, B>>));
  v.push(entry!("SepSeq<OptPrefix<A, B>, C>", SepSeq<OptPrefix<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<OptPrefix<A, B>, C>", NonEmptySepSeq<OptPrefix<A, B>, C>));
  v.push(entry!("OptSepSeq<OptPrefix<A, B>, C>", OptSepSeq<OptPrefix<A, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<OptPrefix<A, B>, C>", NonEmptyOptSepSeq<OptPrefix<A, B>, C>));
  v.push(entry!("NonEmptySepList<OptPrefix<A, B>, C>", NonEmptySepList<OptPrefix<A, B>, C>));
  v.push(entry!("SepList<OptPrefix<A, B>, C>", SepList<OptPrefix<A, B>, C>));
}
#[rustfmt::skip]
fn push15(v: &mut Vec<Entry>) {
  v.push(entry!("NonEmptyOptSepList<OptPrefix<A, B>, C>", NonEmptyOptSepList<OptPrefix<A, B>, C>));
  v.push(entry!("OptSepList<OptPrefix<A, B>, C>", OptSepList<OptPrefix<A, B>, C>));
  v.push(entry!("Quoted<A, OptPrefix<A, B>, C>", Quoted<A, OptPrefix<A, B>, C>));
  v.push(entry!("Quoted<OptPrefix<A, B>, B, A>", Quoted<OptPrefix<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, OptPrefix<A, B>>", Quoted<A, B, OptPrefix<A, B>>));
  v.push(entry!("OptPrefix<C, OptPrefix<A, B>>", OptPrefix<C, OptPrefix<A, B>>));
  v.push(entry!("OptPrefix<OptPrefix<A, B>, B>", OptPrefix<OptPrefix<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, OptPrefix<A, B>>", OptTokenPrefix<C, OptPrefix<A, B>>));
  v.push(entry!("TokenPrefix<C, OptPrefix<A, B>>", TokenPrefix<C, OptPrefix<A, B>>));
  v.push(entry!("(OptPrefix<A, B>,)", (OptPrefix<A, B>,)));
  v.push(entry!("(OptPrefix<A, B>, B)", (OptPrefix<A, B>, B)));
  v.push(entry!("(A, OptPrefix<A, B>)", (A, OptPrefix<A, B>)));
  v.push(entry!("(A, OptPrefix<A, B>, C)", (A, OptPrefix<A, B>, C)));
  v.push(entry!("SepSeq<A, OptPrefix<A, B>>", SepSeq<A, OptPrefix<A, B>>));
  v.push(entry!("NonEmptySepSeq<A, OptPrefix<A, B>>", NonEmptySepSeq<A, OptPrefix<A, B>>));
  v.push(entry!("OptSepSeq<A, OptPrefix<A, B>>", OptSepSeq<A, OptPrefix<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, OptPrefix<A, B>>", NonEmptyOptSepSeq<A, OptPrefix<A, B>>));
  v.push(entry!("NonEmptySepList<A, OptPrefix<A, B>>", NonEmptySepList<A, OptPrefix<A, B>>));
  v.push(entry!("SepList<A, OptPrefix<A, B>>", SepList<A, OptPrefix<A, B>>));
  v.push(entry!("NonEmptyOptSepList<A, OptPrefix<A, B>>", NonEmptyOptSepList<A, OptPrefix<A, B>>));
  v.push(entry!("OptSepList<A, OptPrefix<A, B>>", OptSepList<A, OptPrefix<A, B>>));
  v.push(entry!("Box<OptTokenPrefix<C, A>>", Box<OptTokenPrefix<C, A>>));
  v.push(entry!("Option<OptTokenPrefix<C, A>>", Option<OptTokenPrefix<C, A>>));
  v.push(entry!("Vec<OptTokenPrefix<C, A>>", Vec<OptTokenPrefix<C, A>>));
  v.push(entry!("NonEmptySeq<OptTokenPrefix<C, A>>", NonEmptySeq<OptTokenPrefix<C, A>>));
  v.push(entry!("SepSeq<OptTokenPrefix<C, A>, C>", SepSeq<OptTokenPrefix<C, A>, C>));
  v.push(entry!("NonEmptySepSeq<OptTokenPrefix<C, A>, C>", NonEmptySepSeq<OptTokenPrefix<C, A>, C>));
  v.push(entry!("OptSepSeq<OptTokenPrefix<C, A>, C>", OptSepSeq<OptTokenPrefix<C, A>, C>));
  v.push(entry!("NonEmptyOptSepSeq<OptTokenPrefix<C, A>, C>", NonEmptyOptSepSeq<OptTokenPrefix<C, A>, C>));
  v.push(entry!("NonEmptySepList<OptTokenPrefix<C, A>, C>", NonEmptySepList<OptTokenPrefix<C, A>, C>));
  v.push(entry!("SepList<OptTokenPrefix<C, A>, C>", SepList<OptTokenPrefix<C, A>, C>));
  v.push(entry!("NonEmptyOptSepList<OptTokenPrefix<C, A>, C>", NonEmptyOptSepList<OptTokenPrefix<C, A>, C>));
  v.push(entry!("OptSepList<OptTokenPrefix<C, A>, C>", OptSepList<OptTokenPrefix<C, A>, C>));
  v.push(entry!("Quoted<A, OptTokenPrefix<C, A>, C>", Quoted<A, OptTokenPrefix<C, A>, C>));
  v.push(entry!("Quoted<OptTokenPrefix<C, A>, B, A>", Quoted<OptTokenPrefix<C, A>, B, A>));
  v.push(entry!("Quoted<A, B, OptTokenPrefix<C, A>>", Quoted<A, B, OptTokenPrefix<C, A>>));
  v.push(entry!("OptPrefix<C, OptTokenPrefix<C, A>>", OptPrefix<C, OptTokenPrefix<C, A>>));
  v.push(entry!("OptPrefix<OptTokenPrefix<C, A>, B>", OptPrefix<OptTokenPrefix<C, A>, B>));
  v.push(entry!("OptTokenPrefix<C, OptTokenPrefix<C, A>>", OptTokenPrefix<C, OptTokenPrefix<C, A>>));
  v.push(entry!("TokenPrefix<C, OptTokenPrefix<C, A>>", TokenPrefix<C, OptTokenPrefix<C, A>>));
}
#[rustfmt::skip]
fn push16(v: &mut Vec<Entry>) {
  v.push(entry!("(OptTokenPrefix<C, A>,)", (OptTokenPrefix<C, A>,)));
  v.push(entry!("(OptTokenPrefix<C, A>, B)", (OptTokenPrefix<C, A>, B)));
  v.push(entry!("(A, OptTokenPrefix<C, A>)", (A, OptTokenPrefix<C, A>)));
  v.push(entry!("(A, OptTokenPrefix<C, A>, C)", (A, OptTokenPrefix<C, A>, C)));
  v.push(entry!("SepSeq<A, OptTokenPrefix<C, A>>", SepSeq<A, OptTokenPrefix<C, A>>));
  v.push(entry!("NonEmptySepSeq<A, OptTokenPrefix<C, A>>", NonEmptySepSeq<A, OptTokenPrefix<C, A>>));
  v.push(entry!("OptSepSeq<A, OptTokenPrefix<C, A>>", OptSepSeq<A, OptTokenPrefix<C, A>>));
  v.push(entry!("NonEmptyOptSepSeq<A, OptTokenPrefix<C, A>>", NonEmptyOptSepSeq<A, OptTokenPrefix<C, A>>));
  v.push(entry!("NonEmptySepList<A, OptTokenPrefix<C, A>>", NonEmptySepList<A, OptTokenPrefix<C, A>>));
  v.push(entry!("SepList<A, OptTokenPrefix<C, A>>", SepList<A, OptTokenPrefix<C, A>>));
  v.push(entry!("NonEmptyOptSepList<A, OptTokenPrefix<C, A>>", NonEmptyOptSepList<A, OptTokenPrefix<C, A>>));
  v.push(entry!("OptSepList<A, OptTokenPrefix<C, A>>", OptSepList<A, OptTokenPrefix<C, A>>));
  v.push(entry!("Box<TokenPrefix<C, A>>", Box<TokenPrefix<C, A>>));
  v.push(entry!("Option<TokenPrefix<C, A>>", Option<TokenPrefix<C, A>>));
  v.push(entry!("Vec<TokenPrefix<C, A>>", Vec<TokenPrefix<C, A>>));
  v.push(entry!("NonEmptySeq<TokenPrefix<C, A>>", NonEmptySeq<TokenPrefix<C, A>>));
  v.push(entry!("SepSeq<TokenPrefix<C, A>, C>", SepSeq<TokenPrefix<C, A>, C>));
  v.push(entry!("NonEmptySepSeq<TokenPrefix<C, A>, C>", NonEmptySepSeq<TokenPrefix<C, A>, C>));
  v.push(entry!("OptSepSeq<TokenPrefix<C, A>, C>", OptSepSeq<TokenPrefix<C, A>, C>));
  v.push(entry!("NonEmptyOptSepSeq<TokenPrefix<C, A>, C>", NonEmptyOptSepSeq<TokenPrefix<C, A>, C>));
  v.push(entry!("NonEmptySepList<TokenPrefix<C, A>, C>", NonEmptySepList<TokenPrefix<C, A>, C>));
  v.push(entry!("SepList<TokenPrefix<C, A>, C>", SepList<TokenPrefix<C, A>, C>));
  v.push(entry!("NonEmptyOptSepList<TokenPrefix<C, A>, C>", NonEmptyOptSepList<TokenPrefix<C, A>, C>));
  v.push(entry!("OptSepList<TokenPrefix<C, A>, C>", OptSepList<TokenPrefix<C, A>, C>));
  v.push(entry!("Quoted<A, TokenPrefix<C, A>, C>", Quoted<A, TokenPrefix<C, A>, C>));
  v.push(entry!("Quoted<TokenPrefix<C, A>, B, A>", Quoted<TokenPrefix<C, A>, B, A>));
  v.push(entry!("Quoted<A, B, TokenPrefix<C, A>>", Quoted<A, B, TokenPrefix<C, A>>));
  v.push(entry!("OptPrefix<C, TokenPrefix<C, A>>", OptPrefix<C, TokenPrefix<C, A>>));
  v.push(entry!("OptPrefix<TokenPrefix<C, A>, B>", OptPrefix<TokenPrefix<C, A>, B>));
  v.push(entry!("OptTokenPrefix<C, TokenPrefix<C, A>>", OptTokenPrefix<C, TokenPrefix<C, A>>));
  v.push(entry!("TokenPrefix<C, TokenPrefix<C, A>>", TokenPrefix<C, TokenPrefix<C, A>>));
  v.push(entry!("(TokenPrefix<C, A>,)", (TokenPrefix<C, A>,)));
  v.push(entry!("(TokenPrefix<C, A>, B)", (TokenPrefix<C, A>, B)));
  v.push(entry!("(A, TokenPrefix<C, A>)", (A, TokenPrefix<C, A>)));
  v.push(entry!("(A, TokenPrefix<C, A>, C)", (A, TokenPrefix<C, A>, C)));
  v.push(entry!("SepSeq<A, TokenPrefix<C, A>>", SepSeq<A, TokenPrefix<C, A>>));
  v.push(entry!("NonEmptySepSeq<A, TokenPrefix<C, A>>", NonEmptySepSeq<A, TokenPrefix<C, A>>));
  v.push(entry!("OptSepSeq<A, TokenPrefix<C, A>>", OptSepSeq<A, TokenPrefix<C, A>>));
  v.push(entry!("NonEmptyOptSepSeq<A, TokenPrefix<C, A>>", NonEmptyOptSepSeq<A, TokenPrefix<C, A>>));
  v.push(entry!("NonEmptySepList<A, TokenPrefix<C, A>>", NonEmptySepList<A, TokenPrefix<C, A>>));
}
#[rustfmt::skip]
fn push17(v: &mut Vec<Entry>) {
  v.push(entry!("SepList<A, TokenPrefix<C, A>>", SepList<A, TokenPrefix<C, A>>));
  v.push(entry!("NonEmptyOptSepList<A, TokenPrefix<C, A>>", NonEmptyOptSepList<A, TokenPrefix<C, A>>));
  v.push(entry!("OptSepList<A, TokenPrefix<C, A>>", OptSepList<A, TokenPrefix<C, A>>));
  v.push(entry!("Box<(A,)>", Box<(A,)>));
  v.push(entry!("Option<(A,)>", Option<(A,)>));
  v.push(entry!("Vec<(A,)>", Vec<(A,)>));
  v.push(entry!("NonEmptySeq<(A,)>", NonEmptySeq<(A,)>));
  v.push(entry!("SepSeq<(A,), C>", SepSeq<(A,), C>));
  v.push(entry!("NonEmptySepSeq<(A,), C>", NonEmptySepSeq<(A,), C>));
  v.push(entry!("OptSepSeq<(A,), C>", OptSepSeq<(A,), C>));
  v.push(entry!("NonEmptyOptSepSeq<(A,), C>", NonEmptyOptSepSeq<(A,), C>));
  v.push(entry!("NonEmptySepList<(A,), C>", NonEmptySepList<(A,), C>));
  v.push(entry!("SepList<(A,), C>", SepList<(A,), C>));
  v.push(entry!("NonEmptyOptSepList<(A,), C>", NonEmptyOptSepList<(A,), C>));
  v.push(entry!("OptSepList<(A,), C>", OptSepList<(A,), C>));
  v.push(entry!("Quoted<A, (A,), C>", Quoted<A, (A,), C>));
  v.push(entry!("Quoted<(A,), B, A>", Quoted<(A,), B, A>));
  v.push(entry!("Quoted<A, B, (A,)>", Quoted<A, B, (A,)>));
  v.push(entry!("OptPrefix<C, (A,)>", OptPrefix<C, (A,)>));
  v.push(entry!("OptPrefix<(A,), B>", OptPrefix<(A,), B>));
  v.push(entry!("OptTokenPrefix<C, (A,)>", OptTokenPrefix<C, (A,)>));
  v.push(entry!("TokenPrefix<C, (A,)>", TokenPrefix<C, (A,)>));
  v.push(entry!("((A,),)", ((A,),)));
  v.push(entry!("((A,), B)", ((A,), B)));
  v.push(entry!("(A, (A,))", (A, (A,))));
  v.push(entry!("(A, (A,), C)", (A, (A,), C)));
  v.push(entry!("SepSeq<A, (A,)>", SepSeq<A, (A,)>));
  v.push(entry!("NonEmptySepSeq<A, (A,)>", NonEmptySepSeq<A, (A,)>));
  v.push(entry!("OptSepSeq<A, (A,)>", OptSepSeq<A, (A,)>));
  v.push(entry!("NonEmptyOptSepSeq<A, (A,)>", NonEmptyOptSepSeq<A, (A,)>));
  v.push(entry!("NonEmptySepList<A, (A,)>", NonEmptySepList<A, (A,)>));
  v.push(entry!("SepList<A, (A,)>", SepList<A, (A,)>));
  v.push(entry!("NonEmptyOptSepList<A, (A,)>", NonEmptyOptSepList<A, (A,)>));
  v.push(entry!("OptSepList<A, (A,)>", OptSepList<A, (A,)>));
  v.push(entry!("Box<(A, B)>", Box<(A, B)>));
  v.push(entry!("Option<(A, B)>", Option<(A, B)>));
  v.push(entry!("Vec<(A, B)>", Vec<(A, B)>));
  v.push(entry!("NonEmptySeq<(A, B)>", NonEmptySeq<(A, B)>));
  v.push(entry!("SepSeq<(A, B), C>", SepSeq<(A, B), C>));
  v.push(entry!("NonEmptySepSeq<(A, B), C>", NonEmptySepSeq<(A, B), C>));
}
#[rustfmt::skip]
fn push18(v: &mut Vec<Entry>) {
  v.push(entry!("OptSepSeq<(A, B), C>", OptSepSeq<(A, B), C>));
  v.push(entry!("NonEmptyOptSepSeq<(A, B), C>", NonEmptyOptSepSeq<(A, B), C>));
  v.push(entry!("NonEmptySepList<(A, B), C>", NonEmptySepList<(A, B), C>));
  v.push(entry!("SepList<(A, B), C>", SepList<(A, B), C>));
  v.push(entry!("NonEmptyOptSepList<(A, B), C>", NonEmptyOptSepList<(A, B), C>));
  v.push(entry!("OptSepList<(A, B), C>", OptSepList<(A, B), C>));
  v.push(entry!("Quoted<A, (A, B), C>", Quoted<A, (A, B), C>));
  v.push(entry!("Quoted<(A, B), B, A>", Quoted<(A, B), B, A>));
  v.push(entry!("Quoted<A, B, (A, B)>", Quoted<A, B, (A, B)>));
  v.push(entry!("OptPrefix<C, (A, B)>", OptPrefix<C, (A, B)>));
  v.push(entry!("OptPrefix<(A, B), B>", OptPrefix<(A, B), B>));
  v.push(entry!("OptTokenPrefix<C, (A, B)>", OptTokenPrefix<C, (A, B)>));
  v.push(entry!("TokenPrefix<C, (A, B)>", TokenPrefix<C, (A, B)>));
  v.push(entry!("((A, B),)", ((A, B),)));
  v.push(entry!("((A, B), B)", ((A, B), B)));
  v.push(entry!("(A, (A, B))", (A, (A, B))));
  v.push(entry!("(A, (A, B), C)", (A, (A, B), C)));
  v.push(entry!("SepSeq<A, (A, B)>", SepSeq<A, (A, B)>));
  v.push(entry!("NonEmptySepSeq<A, (A, B)>", NonEmptySepSeq<A, (A, B)>));
  v.push(entry!("OptSepSeq<A, (A, B)>", OptSepSeq<A, (A, B)>));
  v.push(entry!("NonEmptyOptSepSeq<A, (A, B)>", NonEmptyOptSepSeq<A, (A, B)>));
  v.push(entry!("NonEmptySepList<A, (A, B)>", NonEmptySepList<A, (A, B)>));
  v.push(entry!("SepList<A, (A, B)>", SepList<A, (A, B)>));
  v.push(entry!("NonEmptyOptSepList<A, (A, B)>", NonEmptyOptSepList<A, (A, B)>));
  v.push(entry!("OptSepList<A, (A, B)>", OptSepList<A, (A, B)>));
  v.push(entry!("Box<(A, B, C)>", Box<(A, B, C)>));
  v.push(entry!("Option<(A, B, C)>", Option<(A, B, C)>));
  v.push(entry!("Vec<(A, B, C)>", Vec<(A, B, C)>));
  v.push(entry!("NonEmptySeq<(A, B, C)>", NonEmptySeq<(A, B, C)>));
  v.push(entry!("SepSeq<(A, B, C), C>", SepSeq<(A, B, C), C>));
  v.push(entry!("NonEmptySepSeq<(A, B, C), C>", NonEmptySepSeq<(A, B, C), C>));
  v.push(entry!("OptSepSeq<(A, B, C), C>", OptSepSeq<(A, B, C), C>));
  v.push(entry!("NonEmptyOptSepSeq<(A, B, C), C>", NonEmptyOptSepSeq<(A, B, C), C>));
  v.push(entry!("NonEmptySepList<(A, B, C), C>", NonEmptySepList<(A, B, C), C>));
  v.push(entry!("SepList<(A, B, C), C>", SepList<(A, B, C), C>));
  v.push(entry!("NonEmptyOptSepList<(A, B, C), C>", NonEmptyOptSepList<(A, B, C), C>));
  v.push(entry!("OptSepList<(A, B, C), C>", OptSepList<(A, B, C), C>));
  v.push(entry!("Quoted<A, (A, B, C), C>", Quoted<A, (A, B, C), C>));
  v.push(entry!("Quoted<(A, B, C), B, A>", Quoted<(A, B, C), B, A>));
  v.push(entry!("Quoted<A, B, (A, B, C)>", Quoted<A, B, (A, B, C)>));
}
#[rustfmt::skip]
fn push19(v: &mut Vec<Entry>) {
  v.push(entry!("OptPrefix<C, (A, B, C)>", OptPrefix<C, (A, B, C)>));
  v.push(entry!("OptPrefix<(A, B, C), B>", OptPrefix<(A, B, C), B>));
  v.push(entry!("OptTokenPrefix<C, (A, B, C)>", OptTokenPrefix<C, (A, B, C)>));
  v.push(entry!("TokenPrefix<C, (A, B, C)>", TokenPrefix<C, (A, B, C)>));
  v.push(entry!("((A, B, C),)", ((A, B, C),)));
  v.push(entry!("((A, B, C), B)", ((A, B, C), B)));
  v.push(entry!("(A, (A, B, C))", (A, (A, B, C))));
  v.push(entry!("(A, (A, B, C), C)", (A, (A, B, C), C)));
  v.push(entry!("SepSeq<A, (A, B, C)>", SepSeq<A, (A, B, C)>));
  v.push(entry!("NonEmptySepSeq<A, (A, B, C)>", NonEmptySepSeq<A, (A, B, C)>));
  v.push(entry!("OptSepSeq<A, (A, B, C)>", OptSepSeq<A, (A, B, C)>));
  v.push(entry!("NonEmptyOptSepSeq<A, (A, B, C)>", NonEmptyOptSepSeq<A, (A, B, C)>));
  v.push(entry!("NonEmptySepList<A, (A, B, C)>", NonEmptySepList<A, (A, B, C)>));
  v.push(entry!("SepList<A, (A, B, C)>", SepList<A, (A, B, C)>));
  v.push(entry!("NonEmptyOptSepList<A, (A, B, C)>", NonEmptyOptSepList<A, (A, B, C)>));
  v.push(entry!("OptSepList<A, (A, B, C)>", OptSepList<A, (A, B, C)>));
  v.push(entry!("Box<SepSeq<A, B>>", Box<SepSeq<A, B>>));
  v.push(entry!("Option<SepSeq<A, B>>", Option<SepSeq<A, B>>));
  v.push(entry!("Vec<SepSeq<A, B>>", Vec<SepSeq<A, B>>));
  v.push(entry!("NonEmptySeq<SepSeq<A, B>>", NonEmptySeq<SepSeq<A, B>>));
  v.push(entry!("SepSeq<SepSeq<A, B>, C>", SepSeq<SepSeq<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<SepSeq<A, B>, C>", NonEmptySepSeq<SepSeq<A, B>, C>));
  v.push(entry!("OptSepSeq<SepSeq<A, B>, C>", OptSepSeq<SepSeq<A, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<SepSeq<A, B>, C>", NonEmptyOptSepSeq<SepSeq<A, B>, C>));
  v.push(entry!("NonEmptySepList<SepSeq<A, B>, C>", NonEmptySepList<SepSeq<A, B>, C>));
  v.push(entry!("SepList<SepSeq<A, B>, C>", SepList<SepSeq<A, B>, C>));
  v.push(entry!("NonEmptyOptSepList<SepSeq<A, B>, C>", NonEmptyOptSepList<SepSeq<A, B>, C>));
  v.push(entry!("OptSepList<SepSeq<A, B>, C>", OptSepList<SepSeq<A, B>, C>));
  v.push(entry!("Quoted<A, SepSeq<A, B>, C>", Quoted<A, SepSeq<A, B>, C>));
  v.push(entry!("Quoted<SepSeq<A, B>, B, A>", Quoted<SepSeq<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, SepSeq<A, B>>", Quoted<A, B, SepSeq<A, B>>));
  v.push(entry!("OptPrefix<C, SepSeq<A, B>>", OptPrefix<C, SepSeq<A, B>>));
  v.push(entry!("OptPrefix<SepSeq<A, B>, B>", OptPrefix<SepSeq<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, SepSeq<A, B>>", OptTokenPrefix<C, SepSeq<A, B>>));
  v.push(entry!("TokenPrefix<C, SepSeq<A, B>>", TokenPrefix<C, SepSeq<A, B>>));
  v.push(entry!("(SepSeq<A, B>,)", (SepSeq<A, B>,)));
  v.push(entry!("(SepSeq<A, B>, B)", (SepSeq<A, B>, B)));
  v.push(entry!("(A, SepSeq<A, B>)", (A, SepSeq<A, B>)));
  v.push(entry!("(A, SepSeq<A, B>, C)", (A, SepSeq<A, B>, C)));
  v.push(entry!("SepSeq<A, SepSeq<A, B>>", SepSeq<A, SepSeq<A, B>>));
}
#[rustfmt::skip]
fn push20(v: &mut Vec<Entry>) {
  v.push(entry!("NonEmptySepSeq<A, SepSeq<A, B>>", NonEmptySepSeq<A, SepSeq<A, B>>));
  v.push(entry!("OptSepSeq<A, SepSeq<A, B>>", OptSepSeq<A, SepSeq<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, SepSeq<A, B>>", NonEmptyOptSepSeq<A, SepSeq<A, B>>));
  v.push(entry!("NonEmptySepList<A, SepSeq<A, B>>", NonEmptySepList<A, SepSeq<A, B>>));
  v.push(entry!("SepList<A, SepSeq<A, B>>", SepList<A, SepSeq<A, B>>));
  v.push(entry!("NonEmptyOptSepList<A, SepSeq<A, B>>", NonEmptyOptSepList<A, SepSeq<A, B>>));
  v.push(entry!("OptSepList<A, SepSeq<A, B>>", OptSepList<A, SepSeq<A, B>>));
  v.push(entry!("Box<NonEmptySepSeq<A, B>>", Box<NonEmptySepSeq<A, B>>));
  v.push(entry!("Option<NonEmptySepSeq<A, B>>", Option<NonEmptySepSeq<A, B>>));
  v.push(entry!("Vec<NonEmptySepSeq<A, B>>", Vec<NonEmptySepSeq<A, B>>));
  v.push(entry!("NonEmptySeq<NonEmptySepSeq<A, B>>", NonEmptySeq<NonEmptySepSeq<A, B>>));
  v.push(entry!("SepSeq<NonEmptySepSeq<A, B>, C>", SepSeq<NonEmptySepSeq<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptySepSeq<A, B>, C>", NonEmptySepSeq<NonEmptySepSeq<A, B>, C>));
  v.push(entry!("OptSepSeq<NonEmptySepSeq<A, B>, C>", OptSepSeq<NonEmptySepSeq<A, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptySepSeq<A, B>, C>", NonEmptyOptSepSeq<NonEmptySepSeq<A, B>, C>));
  v.push(entry!("NonEmptySepList<NonEmptySepSeq<A, B>, C>", NonEmptySepList<NonEmptySepSeq<A, B>, C>));
  v.push(entry!("SepList<NonEmptySepSeq<A, B>, C>", SepList<NonEmptySepSeq<A, B>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptySepSeq<A, B>, C>", NonEmptyOptSepList<NonEmptySepSeq<A, B>, C>));
  v.push(entry!("OptSepList<NonEmptySepSeq<A, B>, C>", OptSepList<NonEmptySepSeq<A, B>, C>));
  v.push(entry!("Quoted<A, NonEmptySepSeq<A, B>, C>", Quoted<A, NonEmptySepSeq<A, B>, C>));
  v.push(entry!("Quoted<NonEmptySepSeq<A, B>, B, A>", Quoted<NonEmptySepSeq<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptySepSeq<A, B>>", Quoted<A, B, NonEmptySepSeq<A, B>>));
  v.push(entry!("OptPrefix<C, NonEmptySepSeq<A, B>>", OptPrefix<C, NonEmptySepSeq<A, B>>));
  v.push(entry!("OptPrefix<NonEmptySepSeq<A, B>, B>", OptPrefix<NonEmptySepSeq<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptySepSeq<A, B>>", OptTokenPrefix<C, NonEmptySepSeq<A, B>>));
  v.push(entry!("TokenPrefix<C, NonEmptySepSeq<A, B>>", TokenPrefix<C, NonEmptySepSeq<A, B>>));
  v.push(entry!("(NonEmptySepSeq<A, B>,)", (NonEmptySepSeq<A, B>,)));
  v.push(entry!("(NonEmptySepSeq<A, B>, B)", (NonEmptySepSeq<A, B>, B)));
  v.push(entry!("(A, NonEmptySepSeq<A, B>)", (A, NonEmptySepSeq<A, B>)));
  v.push(entry!("(A, NonEmptySepSeq<A, B>, C)", (A, NonEmptySepSeq<A, B>, C)));
  v.push(entry!("SepSeq<A, NonEmptySepSeq<A, B>>", SepSeq<A, NonEmptySepSeq<A, B>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptySepSeq<A, B>>", NonEmptySepSeq<A, NonEmptySepSeq<A, B>>));
  v.push(entry!("OptSepSeq<A, NonEmptySepSeq<A, B>>", OptSepSeq<A, NonEmptySepSeq<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptySepSeq<A, B>>", NonEmptyOptSepSeq<A, NonEmptySepSeq<A, B>>));
  v.push(entry!("NonEmptySepList<A, NonEmptySepSeq<A, B>>", NonEmptySepList<A, NonEmptySepSeq<A, B>>));
  v.push(entry!("SepList<A, NonEmptySepSeq<A, B>>", SepList<A, NonEmptySepSeq<A, B>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptySepSeq<A, B>>", NonEmptyOptSepList<A, NonEmptySepSeq<A, B>>));
  v.push(entry!("OptSepList<A, NonEmptySepSeq<A, B>>", OptSepList<A, NonEmptySepSeq<A, B>>));
  v.push(entry!("Box<OptSepSeq<A, B>>", Box<OptSepSeq<A, B>>));
  v.push(entry!("Option<OptSepSeq<A, B>>", Option<OptSepSeq<A, B>>));
}
#[rustfmt::skip]
fn push21(v: &mut Vec<Entry>) {
  v.push(entry!("Vec<OptSepSeq<A, B>>", Vec<OptSepSeq<A, B>>));
  v.push(entry!("NonEmptySeq<OptSepSeq<A, B>>", NonEmptySeq<OptSepSeq<A, B>>));
  v.push(entry!("SepSeq<OptSepSeq<A, B>, C>", SepSeq<OptSepSeq<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<OptSepSeq<A, B>, C>", NonEmptySepSeq<OptSepSeq<A, B>, C>));
  v.push(entry!("OptSepSeq<OptSepSeq<A, B>, C>", OptSepSeq<OptSepSeq<A, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<OptSepSeq<A, B>, C>", NonEmptyOptSepSeq<OptSepSeq<A, B>, C>));
  v.push(entry!("NonEmptySepList<OptSepSeq<A, B>, C>", NonEmptySepList<OptSepSeq<A, B>, C>));
  v.push(entry!("SepList<OptSepSeq<A, B>, C>", SepList<OptSepSeq<A, B>, C>));
  v.push(entry!("NonEmptyOptSepList<OptSepSeq<A, B>, C>", NonEmptyOptSepList<OptSepSeq<A, B>, C>));
  v.push(entry!("OptSepList<OptSepSeq<A, B>, C>", OptSepList<OptSepSeq<A, B>, C>));
  v.push(entry!("Quoted<A, OptSepSeq<A, B>, C>", Quoted<A, OptSepSeq<A, B>, C>));
  v.push(entry!("Quoted<OptSepSeq<A, B>, B, A>", Quoted<OptSepSeq<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, OptSepSeq<A, B>>", Quoted<A, B, OptSepSeq<A, B>>));
  v.push(entry!("OptPrefix<C, OptSepSeq<A, B>>", OptPrefix<C, OptSepSeq<A, B>>));
  v.push(entry!("OptPrefix<OptSepSeq<A, B>, B>", OptPrefix<OptSepSeq<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, OptSepSeq<A, B>>", OptTokenPrefix<C, OptSepSeq<A, B>>));
  v.push(entry!("TokenPrefix<C, OptSepSeq<A, B>>", TokenPrefix<C, OptSepSeq<A, B>>));
  v.push(entry!("(OptSepSeq<A, B>,)", (OptSepSeq<A, B>,)));
  v.push(entry!("(OptSepSeq<A, B>, B)", (OptSepSeq<A, B>, B)));
  v.push(entry!("(A, OptSepSeq<A, B>)", (A, OptSepSeq<A, B>)));
  v.push(entry!("(A, OptSepSeq<A, B>, C)", (A, OptSepSeq<A, B>, C)));
  v.push(entry!("SepSeq<A, OptSepSeq<A, B>>", SepSeq<A, OptSepSeq<A, B>>));
  v.push(entry!("NonEmptySepSeq<A, OptSepSeq<A, B>>", NonEmptySepSeq<A, OptSepSeq<A, B>>));
  v.push(entry!("OptSepSeq<A, OptSepSeq<A, B>>", OptSepSeq<A, OptSepSeq<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, OptSepSeq<A, B>>", NonEmptyOptSepSeq<A, OptSepSeq<A, B>>));
  v.push(entry!("NonEmptySepList<A, OptSepSeq<A, B>>", NonEmptySepList<A, OptSepSeq<A, B>>));
  v.push(entry!("SepList<A, OptSepSeq<A, B>>", SepList<A, OptSepSeq<A, B>>));
  v.push(entry!("NonEmptyOptSepList<A, OptSepSeq<A, B>>", NonEmptyOptSepList<A, OptSepSeq<A, B>>));
  v.push(entry!("OptSepList<A, OptSepSeq<A, B>>", OptSepList<A, OptSepSeq<A, B>>));
  v.push(entry!("Box<NonEmptyOptSepSeq<A, B>>", Box<NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("Option<NonEmptyOptSepSeq<A, B>>", Option<NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("Vec<NonEmptyOptSepSeq<A, B>>", Vec<NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("NonEmptySeq<NonEmptyOptSepSeq<A, B>>", NonEmptySeq<NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("SepSeq<NonEmptyOptSepSeq<A, B>, C>", SepSeq<NonEmptyOptSepSeq<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptyOptSepSeq<A, B>, C>", NonEmptySepSeq<NonEmptyOptSepSeq<A, B>, C>));
  v.push(entry!("OptSepSeq<NonEmptyOptSepSeq<A, B>, C>", OptSepSeq<NonEmptyOptSepSeq<A, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptyOptSepSeq<A, B>, C>", NonEmptyOptSepSeq<NonEmptyOptSepSeq<A, B>, C>));
  v.push(entry!("NonEmptySepList<NonEmptyOptSepSeq<A, B>, C>", NonEmptySepList<NonEmptyOptSepSeq<A, B>, C>));
  v.push(entry!("SepList<NonEmptyOptSepSeq<A, B>, C>", SepList<NonEmptyOptSepSeq<A, B>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptyOptSepSeq<A, B>, C>", NonEmptyOptSepList<NonEmptyOptSepSeq<A, B>, C>));
}
#[rustfmt::skip]
fn push22(v: &mut Vec<Entry>) {
  v.push(entry!("OptSepList<NonEmptyOptSepSeq<A, B>, C>", OptSepList<NonEmptyOptSepSeq<A, B>, C>));
  v.push(entry!("Quoted<A, NonEmptyOptSepSeq<A, B>, C>", Quoted<A, NonEmptyOptSepSeq<A, B>, C>));
  v.push(entry!("Quoted<NonEmptyOptSepSeq<A, B>, B, A>", Quoted<NonEmptyOptSepSeq<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptyOptSepSeq<A, B>>", Quoted<A, B, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("OptPrefix<C, NonEmptyOptSepSeq<A, B>>", OptPrefix<C, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("OptPrefix<NonEmptyOptSepSeq<A, B>, B>", OptPrefix<NonEmptyOptSepSeq<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptyOptSepSeq<A, B>>", OptTokenPrefix<C, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("TokenPrefix<C, NonEmptyOptSepSeq<A, B>>", TokenPrefix<C, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("(NonEmptyOptSepSeq<A, B>,)", (NonEmptyOptSepSeq<A, B>,)));
  v.push(entry!("(NonEmptyOptSepSeq<A, B>, B)", (NonEmptyOptSepSeq<A, B>, B)));
  v.push(entry!("(A, NonEmptyOptSepSeq<A, B>)", (A, NonEmptyOptSepSeq<A, B>)));
  v.push(entry!("(A, NonEmptyOptSepSeq<A, B>, C)", (A, NonEmptyOptSepSeq<A, B>, C)));
  v.push(entry!("SepSeq<A, NonEmptyOptSepSeq<A, B>>", SepSeq<A, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptyOptSepSeq<A, B>>", NonEmptySepSeq<A, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("OptSepSeq<A, NonEmptyOptSepSeq<A, B>>", OptSepSeq<A, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptyOptSepSeq<A, B>>", NonEmptyOptSepSeq<A, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("NonEmptySepList<A, NonEmptyOptSepSeq<A, B>>", NonEmptySepList<A, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("SepList<A, NonEmptyOptSepSeq<A, B>>", SepList<A, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptyOptSepSeq<A, B>>", NonEmptyOptSepList<A, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("OptSepList<A, NonEmptyOptSepSeq<A, B>>", OptSepList<A, NonEmptyOptSepSeq<A, B>>));
  v.push(entry!("Box<NonEmptySepList<A, B>>", Box<NonEmptySepList<A, B>>));
  v.push(entry!("Option<NonEmptySepList<A, B>>", Option<NonEmptySepList<A, B>>));
  v.push(entry!("Vec<NonEmptySepList<A, B>>", Vec<NonEmptySepList<A, B>>));
  v.push(entry!("NonEmptySeq<NonEmptySepList<A, B>>", NonEmptySeq<NonEmptySepList<A, B>>));
  v.push(entry!("SepSeq<NonEmptySepList<A, B>, C>", SepSeq<NonEmptySepList<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptySepList<A, B>, C>", NonEmptySepSeq<NonEmptySepList<A, B>, C>));
  v.push(entry!("OptSepSeq<NonEmptySepList<A, B>, C>", OptSepSeq<NonEmptySepList<A, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptySepList<A, B>, C>", NonEmptyOptSepSeq<NonEmptySepList<A, B>, C>));
  v.push(entry!("NonEmptySepList<NonEmptySepList<A, B>, C>", NonEmptySepList<NonEmptySepList<A, B>, C>));
  v.push(entry!("SepList<NonEmptySepList<A, B>, C>", SepList<NonEmptySepList<A, B>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptySepList<A, B>, C>", NonEmptyOptSepList<NonEmptySepList<A, B>, C>));
  v.push(entry!("OptSepList<NonEmptySepList<A, B>, C>", OptSepList<NonEmptySepList<A, B>, C>));
  v.push(entry!("Quoted<A, NonEmptySepList<A, B>, C>", Quoted<A, NonEmptySepList<A, B>, C>));
  v.push(entry!("Quoted<NonEmptySepList<A, B>, B, A>", Quoted<NonEmptySepList<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptySepList<A, B>>", Quoted<A, B, NonEmptySepList<A, B>>));
  v.push(entry!("OptPrefix<C, NonEmptySepList<A, B>>", OptPrefix<C, NonEmptySepList<A, B>>));
  v.push(entry!("OptPrefix<NonEmptySepList<A, B>, B>", OptPrefix<NonEmptySepList<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptySepList<A, B>>", OptTokenPrefix<C, NonEmptySepList<A, B>>));
  v.push(entry!("TokenPrefix<C, NonEmptySepList<A, B>>", TokenPrefix<C, NonEmptySepList<A, B>>));
  v.push(entry!("(NonEmptySepList<A, B>,)", (NonEmptySepList<A, B>,)));
}
#[rustfmt::skip]
fn push23(v: &mut Vec<Entry>) {
  v.push(entry!("(NonEmptySepList<A, B>, B)", (NonEmptySepList<A, B>, B)));
  v.push(entry!("(A, NonEmptySepList<A, B>)", (A, NonEmptySepList<A, B>)));
  v.push(entry!("(A, NonEmptySepList<A, B>, C)", (A, NonEmptySepList<A, B>, C)));
  v.push(entry!("SepSeq<A, NonEmptySepList<A, B>>", SepSeq<A, NonEmptySepList<A, B>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptySepList<A, B>>", NonEmptySepSeq<A, NonEmptySepList<A, B>>));
  v.push(entry!("OptSepSeq<A, NonEmptySepList<A, B>>", OptSepSeq<A, NonEmptySepList<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptySepList<A, B>>", NonEmptyOptSepSeq<A, NonEmptySepList<A, B>>));
  v.push(entry!("NonEmptySepList<A, NonEmptySepList<A, B>>", NonEmptySepList<A, NonEmptySepList<A, B>>));
  v.push(entry!("SepList<A, NonEmptySepList<A, B>>", SepList<A, NonEmptySepList<A, B>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptySepList<A, B>>", NonEmptyOptSepList<A, NonEmptySepList<A, B>>));
  v.push(entry!("OptSepList<A, NonEmptySepList<A, B>>", OptSepList<A, NonEmptySepList<A, B>>));
  v.push(entry!("Box<SepList<A, B>>", Box<SepList<A, B>>));
  v.push(entry!("Option<SepList<A, B>>", Option<SepList<A, B>>));
  v.push(entry!("Vec<SepList<A, B>>", Vec<SepList<A, B>>));
  v.push(entry!("NonEmptySeq<SepList<A, B>>", NonEmptySeq<SepList<A, B>>));
  v.push(entry!("SepSeq<SepList<A, B>, C>", SepSeq<SepList<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<SepList<A, B>, C>", NonEmptySepSeq<SepList<A, B>, C>));
  v.push(entry!("OptSepSeq<SepList<A, B>, C>", OptSepSeq<SepList<A, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<SepList<A, B>, C>", NonEmptyOptSepSeq<SepList<A, B>, C>));
  v.push(entry!("NonEmptySepList<SepList<A, B>, C>", NonEmptySepList<SepList<A, B>, C>));
  v.push(entry!("SepList<SepList<A, B>, C>", SepList<SepList<A, B>, C>));
  v.push(entry!("NonEmptyOptSepList<SepList<A, B>, C>", NonEmptyOptSepList<SepList<A, B>, C>));
  v.push(entry!("OptSepList<SepList<A, B>, C>", OptSepList<SepList<A, B>, C>));
  v.push(entry!("Quoted<A, SepList<A, B>, C>", Quoted<A, SepList<A, B>, C>));
  v.push(entry!("Quoted<SepList<A, B>, B, A>", Quoted<SepList<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, SepList<A, B>>", Quoted<A, B, SepList<A, B>>));
  v.push(entry!("OptPrefix<C, SepList<A, B>>", OptPrefix<C, SepList<A, B>>));
  v.push(entry!("OptPrefix<SepList<A, B>, B>", OptPrefix<SepList<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, SepList<A, B>>", OptTokenPrefix<C, SepList<A, B>>));
  v.push(entry!("TokenPrefix<C, SepList<A, B>>", TokenPrefix<C, SepList<A, B>>));
  v.push(entry!("(SepList<A, B>,)", (SepList<A, B>,)));
  v.push(entry!("(SepList<A, B>, B)", (SepList<A, B>, B)));
  v.push(entry!("(A, SepList<A, B>)", (A, SepList<A, B>)));
  v.push(entry!("(A, SepList<A, B>, C)", (A, SepList<A, B>, C)));
  v.push(entry!("SepSeq<A, SepList<A, B>>", SepSeq<A, SepList<A, B>>));
  v.push(entry!("NonEmptySepSeq<A, SepList<A, B>>", NonEmptySepSeq<A, SepList<A, B>>));
  v.push(entry!("OptSepSeq<A, SepList<A, B>>", OptSepSeq<A, SepList<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, SepList<A, B>>", NonEmptyOptSepSeq<A, SepList<A, B>>));
  v.push(entry!("NonEmptySepList<A, SepList<A, B>>", NonEmptySepList<A, SepList<A, B>>));
  v.push(entry!("SepList<A, SepList<A, B>>", SepList<A, SepList<A, B>>));
}
#[rustfmt::skip]
fn push24(v: &mut Vec<Entry>) {
  v.push(entry!("NonEmptyOptSepList<A, SepList<A, B>>", NonEmptyOptSepList<A, SepList<A, B>>));
  v.push(entry!("OptSepList<A, SepList<A, B>>", OptSepList<A, SepList<A, B>>));
  v.push(entry!("Box<NonEmptyOptSepList<A, B>>", Box<NonEmptyOptSepList<A, B>>));
  v.push(entry!("Option<NonEmptyOptSepList<A, B>>", Option<NonEmptyOptSepList<A, B>>));
  v.push(entry!("Vec<NonEmptyOptSepList<A, B>>", Vec<NonEmptyOptSepList<A, B>>));
  v.push(entry!("NonEmptySeq<NonEmptyOptSepList<A, B>>", NonEmptySeq<NonEmptyOptSepList<A, B>>));
  v.push(entry!("SepSeq<NonEmptyOptSepList<A, B>, C>", SepSeq<NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<NonEmptyOptSepList<A, B>, C>", NonEmptySepSeq<NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("OptSepSeq<NonEmptyOptSepList<A, B>, C>", OptSepSeq<NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("NonEmptyOptSepSeq<NonEmptyOptSepList<A, B>, C>", NonEmptyOptSepSeq<NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("NonEmptySepList<NonEmptyOptSepList<A, B>, C>", NonEmptySepList<NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("SepList<NonEmptyOptSepList<A, B>, C>", SepList<NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("NonEmptyOptSepList<NonEmptyOptSepList<A, B>, C>", NonEmptyOptSepList<NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("OptSepList<NonEmptyOptSepList<A, B>, C>", OptSepList<NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("Quoted<A, NonEmptyOptSepList<A, B>, C>", Quoted<A, NonEmptyOptSepList<A, B>, C>));
  v.push(entry!("Quoted<NonEmptyOptSepList<A, B>, B, A>", Quoted<NonEmptyOptSepList<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, NonEmptyOptSepList<A, B>>", Quoted<A, B, NonEmptyOptSepList<A, B>>));
  v.push(entry!("OptPrefix<C, NonEmptyOptSepList<A, B>>", OptPrefix<C, NonEmptyOptSepList<A, B>>));
  v.push(entry!("OptPrefix<NonEmptyOptSepList<A, B>, B>", OptPrefix<NonEmptyOptSepList<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, NonEmptyOptSepList<A, B>>", OptTokenPrefix<C, NonEmptyOptSepList<A, B>>));
  v.push(entry!("TokenPrefix<C, NonEmptyOptSepList<A, B>>", TokenPrefix<C, NonEmptyOptSepList<A, B>>));
  v.push(entry!("(NonEmptyOptSepList<A, B>,)", (NonEmptyOptSepList<A, B>,)));
  v.push(entry!("(NonEmptyOptSepList<A, B>, B)", (NonEmptyOptSepList<A, B>, B)));
  v.push(entry!("(A, NonEmptyOptSepList<A, B>)", (A, NonEmptyOptSepList<A, B>)));
  v.push(entry!("(A, NonEmptyOptSepList<A, B>, C)", (A, NonEmptyOptSepList<A, B>, C)));
  v.push(entry!("SepSeq<A, NonEmptyOptSepList<A, B>>", SepSeq<A, NonEmptyOptSepList<A, B>>));
  v.push(entry!("NonEmptySepSeq<A, NonEmptyOptSepList<A, B>>", NonEmptySepSeq<A, NonEmptyOptSepList<A, B>>));
  v.push(entry!("OptSepSeq<A, NonEmptyOptSepList<A, B>>", OptSepSeq<A, NonEmptyOptSepList<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, NonEmptyOptSepList<A, B>>", NonEmptyOptSepSeq<A, NonEmptyOptSepList<A, B>>));
  v.push(entry!("NonEmptySepList<A, NonEmptyOptSepList<A, B>>", NonEmptySepList<A, NonEmptyOptSepList<A, B>>));
  v.push(entry!("SepList<A, NonEmptyOptSepList<A, B>>", SepList<A, NonEmptyOptSepList<A, B>>));
  v.push(entry!("NonEmptyOptSepList<A, NonEmptyOptSepList<A, B>>", NonEmptyOptSepList<A, NonEmptyOptSepList<A, B>>));
  v.push(entry!("OptSepList<A, NonEmptyOptSepList<A, B>>", OptSepList<A, NonEmptyOptSepList<A, B>>));
  v.push(entry!("Box<OptSepList<A, B>>", Box<OptSepList<A, B>>));
  v.push(entry!("Option<OptSepList<A, B>>", Option<OptSepList<A, B>>));
  v.push(entry!("Vec<OptSepList<A, B>>", Vec<OptSepList<A, B>>));
  v.push(entry!("NonEmptySeq<OptSepList<A, B>>", NonEmptySeq<OptSepList<A, B>>));
  v.push(entry!("SepSeq<OptSepList<A, B>, C>", SepSeq<OptSepList<A, B>, C>));
  v.push(entry!("NonEmptySepSeq<OptSepList<A, B>, C>", NonEmptySepSeq<OptSepList<A, B>, C>));
  v.push(entry!("OptSepSeq<OptSepList<A, B>, C>", OptSepSeq<OptSepList<A, B>, C>));
}
#[rustfmt::skip]
fn push25(v: &mut Vec<Entry>) {
  v.push(entry!("NonEmptyOptSepSeq<OptSepList<A, B>, C>", NonEmptyOptSepSeq<OptSepList<A, B>, C>));
  v.push(entry!("NonEmptySepList<OptSepList<A, B>, C>", NonEmptySepList<OptSepList<A, B>, C>));
  v.push(entry!("SepList<OptSepList<A, B>, C>", SepList<OptSepList<A, B>, C>));
  v.push(entry!("NonEmptyOptSepList<OptSepList<A, B>, C>", NonEmptyOptSepList<OptSepList<A, B>, C>));
  v.push(entry!("OptSepList<OptSepList<A, B>, C>", OptSepList<OptSepList<A, B>, C>));
  v.push(entry!("Quoted<A, OptSepList<A, B>, C>", Quoted<A, OptSepList<A, B>, C>));
  v.push(entry!("Quoted<OptSepList<A, B>, B, A>", Quoted<OptSepList<A, B>, B, A>));
  v.push(entry!("Quoted<A, B, OptSepList<A, B>>", Quoted<A, B, OptSepList<A, B>>));
  v.push(entry!("OptPrefix<C, OptSepList<A, B>>", OptPrefix<C, OptSepList<A, B>>));
  v.push(entry!("OptPrefix<OptSepList<A, B>, B>", OptPrefix<OptSepList<A, B>, B>));
  v.push(entry!("OptTokenPrefix<C, OptSepList<A, B>>", OptTokenPrefix<C, OptSepList<A, B>>));
  v.push(entry!("TokenPrefix<C, OptSepList<A, B>>", TokenPrefix<C, OptSepList<A, B>>));
  v.push(entry!("(OptSepList<A, B>,)", (OptSepList<A, B>,)));
  v.push(entry!("(OptSepList<A, B>, B)", (OptSepList<A, B>, B)));
  v.push(entry!("(A, OptSepList<A, B>)", (A, OptSepList<A, B>)));
  v.push(entry!("(A, OptSepList<A, B>, C)", (A, OptSepList<A, B>, C)));
  v.push(entry!("SepSeq<A, OptSepList<A, B>>", SepSeq<A, OptSepList<A, B>>));
  v.push(entry!("NonEmptySepSeq<A, OptSepList<A, B>>", NonEmptySepSeq<A, OptSepList<A, B>>));
  v.push(entry!("OptSepSeq<A, OptSepList<A, B>>", OptSepSeq<A, OptSepList<A, B>>));
  v.push(entry!("NonEmptyOptSepSeq<A, OptSepList<A, B>>", NonEmptyOptSepSeq<A, OptSepList<A, B>>));
  v.push(entry!("NonEmptySepList<A, OptSepList<A, B>>", NonEmptySepList<A, OptSepList<A, B>>));
  v.push(entry!("SepList<A, OptSepList<A, B>>", SepList<A, OptSepList<A, B>>));
  v.push(entry!("NonEmptyOptSepList<A, OptSepList<A, B>>", NonEmptyOptSepList<A, OptSepList<A, B>>));
  v.push(entry!("OptSepList<A, OptSepList<A, B>>", OptSepList<A, OptSepList<A, B>>));
}

pub fn push(v: &mut Vec<Entry>) {
  push0(v);
  push1(v);
  push2(v);
  push3(v);
  push4(v);
  push5(v);
  push6(v);
  push7(v);
  push8(v);
  push9(v);
  push10(v);
  push11(v);
  push12(v);
  push13(v);
  push14(v);
  push15(v);
  push16(v);
  push17(v);
  push18(v);
  push19(v);
  push20(v);
  push21(v);
  push22(v);
  push23(v);
  push24(v);
  push25(v);
}

/// The kind of the k-th part of a tuple.
pub fn tuple_kind(k: usize) -> usize {
  (k * k + k / 4) % 4
}

#[rustfmt::skip]
pub fn push_tuples(v: &mut Vec<Entry>) {
  v.push(entry!("(A,)", (A,)));
  v.push(entry!("(A, B,)", (A, B,)));
  v.push(entry!("(A, B, A,)", (A, B, A,)));
  v.push(entry!("(A, B, A, B,)", (A, B, A, B,)));
  v.push(entry!("(A, B, A, B, B,)", (A, B, A, B, B,)));
  v.push(entry!("(A, B, A, B, B, C,)", (A, B, A, B, B, C,)));
  v.push(entry!("(A, B, A, B, B, C, B,)", (A, B, A, B, B, C, B,)));
  v.push(entry!("(A, B, A, B, B, C, B, C,)", (A, B, A, B, B, C, B, C,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C,)", (A, B, A, B, B, C, B, C, C,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D,)", (A, B, A, B, B, C, B, C, C, D,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C,)", (A, B, A, B, B, C, B, C, C, D, C,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D,)", (A, B, A, B, B, C, B, C, C, D, C, D,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D,)", (A, B, A, B, B, C, B, C, C, D, C, D, D,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C, B,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C, B,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C, B, C,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C, B, C,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C, B, C, C,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C, B, C, C,)));
  v.push(entry!("(A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C, B, C, C, D,)", (A, B, A, B, B, C, B, C, C, D, C, D, D, A, D, A, A, B, A, B, B, C, B, C, C, D,)));
}
