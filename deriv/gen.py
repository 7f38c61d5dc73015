#!/usr/bin/env python3
"""Writes src/parse_types.rs (derived parsers) and src/span_types.rs (derived spans, hand-written parsers)."""
import itertools, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))

# field types: (type, has a span for sure)
A, B, AB, OA, VB, SQ = ("A", 1), ("B", 1), ("AB", 1), ("Option<A>", 0), ("Vec<B>", 0), ("SepSeq<A, C>", 0)
FIELDS = [A, B, AB, OA, VB, SQ]
C, BA, OV, TP, OP, NE = ("C", 1), ("Box<B>", 1), ("Option<Vec<C>>", 0), ("TokenPrefix<A, B>", 1), ("OptPrefix<B, C>", 1), ("NonEmptySeq<A>", 1)
MORE = [C, BA, OV, TP, OP, NE]


class T:
    """One type definition."""
    def __init__(self, variants, enum, starts=None, raw=False, generics=("", "", ""), attrs="", lazy=False, must=None, token="#[token(Tok)]"):
        # variants: list of (style, [field types]); style n(amed) t(uple) u(nit)
        self.variants, self.enum, self.starts, self.raw, self.generics, self.attrs = variants, enum, starts, raw, generics, attrs
        self.lazy, self.token = lazy, token
        self.must = must

    def spannable(self):
        return all(any(m for _, m in f) for _, f in self.variants) and self.variants != []


types = []
n = itertools.count()
STYLE = "nt"


def struct(fields, **k):
    types.append(T([(k.pop("style", STYLE[next(n) % 2]), fields)], False, **k))


for s in "ntu":
    struct([], style=s)
for k in (1, 2, 3):
    for f in itertools.product(FIELDS, repeat=k):
        struct(list(f))
for f in MORE:
    struct([f])
    struct([f, A])
    struct([OA, f])
# structs with many fields
for k in (4, 5, 8, 12, 20):
    for s in "nt":
        struct([[A, B, C, ("D", 1)][(i * i + i // 4) % 4] for i in range(k)], style=s)
        struct([[A, OA, VB, C, B, SQ, C][i % 7] for i in range(k)], style=s)
        struct([OA] + [("Option<B>", 0)] * (k - 2) + [C], style=s)
        struct([C] + [("Option<B>", 0)] * (k - 2) + [OA], style=s)

SHAPES = [("u", []), ("t", [A]), ("n", [B, A]), ("t", [OA, C]), ("t", [VB]), ("n", [AB, C]), ("t", [])]
for k in (1, 2, 3):
    for v in itertools.product(SHAPES, repeat=k):
        types.append(T([v[i] for i in range(k)], True))
WIDE = [("n", [A, B]), ("t", [B, OA]), ("n", [C]), ("t", [("D", 1), ("AB", 1)])]
for v in itertools.permutations(WIDE):
    types.append(T(list(v), True))
for k in (5, 8, 16):
    types.append(T([("t", [TP if i % 2 else ("TokenPrefix<A, A>", 1)]) for i in range(k - 1)] + [("n", [C])], True))
for v in itertools.product([("t", [f]) for f in MORE], repeat=2):
    types.append(T(list(v), True))

# declared starting patterns
for ps in (["A"], ["A", "B"], ["AB", "A"], ["A", "AB", "C"], ["A", "B", "C", "D"], ["B"]):
    kinds = {"A": "A", "B": "B", "C": "C", "D": "D", "AB": "AB"}
    types.append(T([("n", [A, B])], False, starts=ps))
    types.append(T([("t", [OA, VB, C])], False, starts=ps))
    types.append(T([("u", [])], False, starts=ps))
    types.append(T([("t", [A, B]), ("n", [B])], True, starts=ps))
    types.append(T([("t", [OA]), ("u", [])], True, starts=ps))

# raw identifiers, documentation, other attributes
types.append(T([("n", [A, OA, B])], False, raw=True, attrs="/// Documented {with braces}.\n#[derive(Clone)]\n#[allow(dead_code)]"))
types.append(T([("n", [B, OA]), ("t", [A])], True, raw=True, attrs="#[doc = \"more\"]\n#[repr(u8)]"))
# token type written in other ways
types.append(T([("n", [A, B])], False, token="#[token(laps::token::Token<Kind>)]"))
types.append(T([("n", [A, B])], False, token="#[token(crate::model::Tok)]"))

base = list(types)
simple = len(types)

out, names = {}, []


def field_attr(must, spans):
    return "" if must or not spans else "#[try_span] "


def define(name, t, spans, arg=None):
    """The definition of a type; arg: how the entry names it."""
    g_impl, g_use, where = t.generics
    w = []
    derive = "Spanned" if spans else "Parse"
    if spans and not t.spannable():
        return None
    w.append(t.attrs)
    w.append("#[derive(%s)]" % derive)
    if not spans:
        if t.token:
            w.append(t.token)
        if t.starts:
            w.append("#[starts_with(%s)]" % ", ".join(t.starts))
    fname = (lambda i: ["r#type", "r#fn", "tokens", "span", "self_"][i % 5] + ("" if i < 5 else str(i))) if t.raw else (lambda i: ["a", "b", "first", "_c", "tokens", "span"][i] if i < 6 else "f%d" % i)
    vname = (lambda i: ["r#Some", "r#None", "Ok"][i]) if t.raw else (lambda i: "V%d" % i)

    def body(style, fs):
        if style == "u":
            return ""
        if style == "n":
            return " { " + ", ".join(field_attr(m, spans) + fname(i) + ": " + f for i, (f, m) in enumerate(fs)) + " }"
        return "(" + ", ".join(field_attr(m, spans) + f for f, m in fs) + ")"

    def pat(style, fs):
        if style == "u":
            return ""
        if style == "n":
            return " { " + ", ".join("%s: f%d" % (fname(i), i) for i in range(len(fs))) + " }"
        return "(" + ", ".join("f%d" % i for i in range(len(fs))) + ")"

    def make(style, fs):
        if style == "u":
            return ""
        if style == "n":
            return " { " + ", ".join("%s: ts.parse()?" % fname(i) for i in range(len(fs))) + " }"
        return "(" + ", ".join("ts.parse()?" for _ in fs) + ")"

    if t.enum:
        w.append("pub enum %s%s %s{ %s }" % (name, g_impl, where, ", ".join(vname(i) + body(*v) for i, v in enumerate(t.variants))))
    else:
        s, f = t.variants[0]
        b = body(s, f)
        w.append("pub struct %s%s %s%s" % (name, g_impl, where + b if s == "n" else b + " " + where, "" if s == "n" else ";"))
    full = name + g_use
    gs = lambda fs: "vec![%s]" % ", ".join("<%s as Gram>::g()" % f for f, _ in fs)
    if t.enum:
        g = "G::Alt(vec![%s])" % ", ".join(gs(f) for _, f in t.variants)
    else:
        g = "G::Seq(%s)" % gs(t.variants[0][1])
    if t.starts and not spans:
        g = "G::Starts(vec![%s], Box::new(%s))" % (", ".join("kinds::<%s>()" % p for p in t.starts), g)
    if t.lazy:
        w.append("impl%s Gram for %s %s{ fn g() -> G { G::Lazy(|| %s) } }" % (g_impl, full, where, g))
    else:
        w.append("impl%s Gram for %s %s{ fn g() -> G { %s } }" % (g_impl, full, where, g))
    tr = lambda fs: "vec![%s]" % ", ".join("f%d.tree()" % i for i in range(len(fs)))
    if t.enum:
        m = " ".join("Self::%s%s => Tree::Var(%d, %s)," % (vname(i), pat(*v), i, tr(v[1])) for i, v in enumerate(t.variants))
        m = "match self { %s }" % m
    else:
        m = "let Self%s = self; Tree::List(%s)" % (pat(*t.variants[0]), tr(t.variants[0][1]))
    w.append("impl%s ToTree for %s %s{ fn tree(&self) -> Tree { %s } }" % (g_impl, full, where, m))
    if spans:
        if t.enum:
            p = ""
            for i, v in enumerate(t.variants):
                if i + 1 < len(t.variants):
                    p += "if " + ("<%s as Parse<S>>::maybe(ts)?" % v[1][0][0] if v[1] else "true") + " "
                p += "{ Self::%s%s }" % (vname(i), make(*v)) + (" else " if i + 1 < len(t.variants) else "")
            p = "Ok(%s)" % p
            mb = "Ok(" + " || ".join("<%s as Parse<S>>::maybe(ts)?" % v[1][0][0] if v[1] else "true" for v in t.variants) + ")"
        else:
            p = "Ok(Self%s)" % make(*t.variants[0])
            fs = t.variants[0][1]
            mb = "<%s as Parse<S>>::maybe(ts)" % fs[0][0] if fs else "Ok(true)"
        gi = g_impl[1:-1] + ", " if g_impl else ""
        w.append("impl<%sS: TokenStream<Token = Tok>> Parse<S> for %s %s{ fn parse(ts: &mut S) -> laps::span::Result<Self> { %s } fn maybe(ts: &mut S) -> laps::span::Result<bool> { %s } }"
                 % (gi, full, where, p, mb))
    return "\n".join(x for x in w if x)


def desc(t):
    d = []
    for s, f in t.variants:
        l = ", ".join(x for x, _ in f)
        d.append({"u": "unit", "n": "{ %s }" % l, "t": "(%s)" % l}[s])
    return ("enum " if t.enum else "struct ") + " | ".join(d) + (" starts_with(%s)" % ", ".join(t.starts) if t.starts else "")


def write(spans):
    f = open("src/%s_types.rs" % ("span" if spans else "parse"), "w")
    f.write("// generated by gen.py\n#![allow(dead_code, non_camel_case_types, unused, unused_imports)]\n#![cfg_attr(rustfmt, rustfmt_skip)]\nuse crate::model::*;\nuse laps::ast::*;\nuse laps::parse::Parse;\n"
            "use laps::span::Spanned;\nuse laps::token::TokenStream;\nuse laps::prelude::*;\nuse crate::support::*;\n\n")
    if spans:
        f.write("")
    entries = []
    for i, t in enumerate(base):
        d = define("T%d" % i, t, spans)
        if d:
            f.write(d + "\n\n")
            entries.append(("T%d" % i, "T%d: %s" % (i, desc(t))))
    # nested: derived types inside predefined structures and other derived types
    consuming = [i for i, t in enumerate(base) if t.spannable() and not t.starts and not t.raw]
    some = [i for k, i in enumerate(consuming) if k % 7 == 0]
    enums = [i for i in consuming if base[i].enum][:40:5]
    k = len(base)
    for i in some:
        for o in ("Vec<%s>", "Option<%s>", "SepSeq<%s, D>", "OptSepList<%s, D>"):
            n_ = "T%d" % i
            entries.append((o % n_, (o % n_) + " of " + desc(base[i])))
    for i, j in itertools.product(some[::6], enums):
        for t in (T([("n", [("T%d" % i, 1), ("T%d" % j, 1)])], False), T([("t", [("Option<T%d>" % i, 0), ("T%d" % j, 1)])], False),
                  T([("t", [("T%d" % j, 1), B]), ("n", [("Vec<T%d>" % i, 0), ("Box<T%d>" % j, 1)])], True)):
            f.write(define("T%d" % k, t, spans) + "\n\n")
            entries.append(("T%d" % k, "T%d: %s" % (k, desc(t))))
            k += 1
    # recursive types
    rec = [("Sexp", T([("t", [A]), ("t", [("Quoted3<Sexp>", 1)])], True, lazy=True)),
           ("Chain", T([("n", [A, ("Option<Box<Chain>>", 0)])], False, lazy=True)),
           ("Bin", T([("n", [("Opd", 1), ("Option<Box<Tail>>", 0)])], False, lazy=True)),
           ("Opd", T([("t", [A]), ("n", [B, ("Box<Bin>", 1), C])], True, lazy=True)),
           ("Tail", T([("n", [C, ("Bin", 1)]), ("t", [("D", 1), ("Box<Bin>", 1)])], True, lazy=True)),
           ("Tree3", T([("n", [("C", 1)]), ("t", [A, ("Box<Tree3>", 1), ("Box<Tree3>", 1)]), ("t", [B, ("Vec<Tree3>", 0), ("D", 1)])], True, lazy=True))]
    for name, t in rec:
        f.write(define(name, t, spans) + "\n\n")
        entries.append((name, "recursive " + name))
    # generic types
    gen = [("G1", T([("n", [("Wrap<T>", 1), B])], False, generics=("<T: Node>", "<T>", "")), "G1<NA>"),
           ("G2", T([("t", [("Wrap<T>", 1), ("Wrap<U>", 1)])], False, generics=("<T, U>", "<T, U>", "where T: Node, U: Node + 'static ")), "G2<NA, NB>"),
           ("G3", T([("t", [("Wrap<T>", 1)]), ("n", [("Option<Wrap<U>>", 0), C])], True, generics=("<T: Node, U: Node>", "<T, U>", "")), "G3<NB, NA>"),
           ("G4", T([("n", [("Times<N>", 1), ("Wrap<T>", 1)])], False, generics=("<T: Node, const N: usize>", "<T, N>", "")), "G4<NB, 2>"),
           ("G5", T([("t", [("Wrap<T>", 1)]), ("t", [("Times<N>", 1)])], True, generics=("<const N: usize, T: Node>", "<N, T>", "where T: Clone ")), "G5<3, NB>"),
           ("G6", T([("n", [("Life<'a>", 1), A])], False, generics=("<'a>", "<'a>", "")), "G6<'static>"),
           ("G7", T([("n", [("Life<'a>", 1), ("Wrap<T>", 1)])], False, generics=("<'a, T: Node>", "<'a, T>", "where T: 'a ")), "G7<'static, NA>")]
    for name, t, use in gen:
        f.write(define(name, t, spans) + "\n\n")
        entries.append((use, "generic " + use))
    if not spans:
        # defaults of parameters, and no token type at all
        f.write("#[derive(Parse)] #[token(Tok)] pub struct G8<T: Node = NA, const N: usize = 2> { a: Wrap<T>, b: Times<N> }\n"
                "impl<T: Node, const N: usize> Gram for G8<T, N> { fn g() -> G { G::Seq(vec![T::g1(), <Times<N>>::g()]) } }\n"
                "impl<T: Node, const N: usize> ToTree for G8<T, N> { fn tree(&self) -> Tree { Tree::List(vec![self.a.tree(), self.b.tree()]) } }\n\n"
                "#[derive(Parse)] pub struct N1 { a: Nothing, b: Option<Nothing> }\n"
                "impl Gram for N1 { fn g() -> G { G::Seq(vec![Nothing::g(), <Option<Nothing>>::g()]) } }\n"
                "impl ToTree for N1 { fn tree(&self) -> Tree { Tree::List(vec![self.a.tree(), self.b.tree()]) } }\n\n"
                "#[derive(Parse)] pub enum N2 { X, Y(Nothing) }\n"
                "impl Gram for N2 { fn g() -> G { G::Alt(vec![vec![], vec![Nothing::g()]]) } }\n"
                "impl ToTree for N2 { fn tree(&self) -> Tree { match self { N2::X => Tree::Var(0, vec![]), N2::Y(a) => Tree::Var(1, vec![a.tree()]) } } }\n\n")
        entries += [("G8", "generic G8"), ("G8<NB, 3>", "generic G8<NB, 3>"), ("N1", "no token type, struct"), ("N2", "no token type, enum")]
    parts = [entries[i:i + 40] for i in range(0, len(entries), 40)]
    for j, p in enumerate(parts):
        f.write("fn push%d(v: &mut Vec<Entry>) {\n" % j)
        for ty, d in p:
            f.write('  v.push(entry!("%s", %s));\n' % (d.replace("{", "{").replace('"', "'"), ty))
        f.write("}\n")
    f.write("pub fn push(v: &mut Vec<Entry>) {\n" + "".join("  push%d(v);\n" % j for j in range(len(parts))) + "}\n")
    print(len(entries))


write(False)
write(True)
