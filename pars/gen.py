#!/usr/bin/env python3
"""Writes src/types.rs: every predefined structure over tokens, and every nesting of two of them."""
OUT = ["{X}", "Box<{X}>", "Option<{X}>", "Vec<{X}>", "NonEmptySeq<{X}>", "SepSeq<{X}, C>", "NonEmptySepSeq<{X}, C>", "OptSepSeq<{X}, C>",
       "NonEmptyOptSepSeq<{X}, C>", "NonEmptySepList<{X}, C>", "SepList<{X}, C>", "NonEmptyOptSepList<{X}, C>", "OptSepList<{X}, C>",
       "Quoted<A, {X}, C>", "Quoted<{X}, B, A>", "Quoted<A, B, {X}>", "OptPrefix<C, {X}>", "OptPrefix<{X}, B>", "OptTokenPrefix<C, {X}>",
       "TokenPrefix<C, {X}>", "({X},)", "({X}, B)", "(A, {X})", "(A, {X}, C)",
       "SepSeq<A, {X}>", "NonEmptySepSeq<A, {X}>", "OptSepSeq<A, {X}>", "NonEmptyOptSepSeq<A, {X}>", "NonEmptySepList<A, {X}>",
       "SepList<A, {X}>", "NonEmptyOptSepList<A, {X}>", "OptSepList<A, {X}>"]
INNER = ["A", "B", "AB"]
names = []
for a in INNER:
    for o in OUT:
        names.append(o.replace("{X}", a))
for i in OUT[1:]:
    for o in OUT[1:]:
        for a in ["A"] if "A" not in i.replace("{X}", "") else ["B"]:
            names.append(o.replace("{X}", i.replace("{X}", a)))
seen, out = set(), []
for n in names:
    if n not in seen:
        seen.add(n)
        out.append(n)
with open("src/types.rs", "w") as f:
    f.write("// generated by gen.py\n#![allow(deprecated)]\nuse crate::model::*;\nuse laps::ast::*;\n\n")
    parts = [out[i:i + 40] for i in range(0, len(out), 40)]
    for k, p in enumerate(parts):
        f.write("#[rustfmt::skip]\nfn push%d(v: &mut Vec<Entry>) {\n" % k)
        for n in p:
            f.write('  v.push(entry!("%s", %s));\n' % (n, n))
        f.write("}\n")
    f.write("\npub fn push(v: &mut Vec<Entry>) {\n" + "".join("  push%d(v);\n" % k for k in range(len(parts))) + "}\n\n")
    f.write("/// The kind of the k-th part of a tuple.\npub fn tuple_kind(k: usize) -> usize {\n  (k * k + k / 4) % 4\n}\n\n")
    f.write("#[rustfmt::skip]\npub fn push_tuples(v: &mut Vec<Entry>) {\n")
    K = "ABCD"
    for n in range(1, 27):
        t = "(" + "".join(K[(k * k + k // 4) % 4] + ", " for k in range(n)).rstrip() + ")"
        f.write('  v.push(entry!("%s", %s));\n' % (t, t))
    f.write("}\n")
print(len(out))
