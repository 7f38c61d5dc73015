#!/usr/bin/env python3
"""Writes src/defs.rs: lexer definitions, with their patterns for the reference lexer."""
import itertools, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
out, table = [], []
N = itertools.count()


def rstr(s):
    n = 0
    while '"' + "#" * n in s:
        n += 1
    return "r" + "#" * n + '"' + s + '"' + "#" * n if ("\\" in s or '"' in s) else '"' + s.replace("\n", "\\n") + '"'


class V:
    """A variant: kind regex/skip/eof/none, pattern, style, extra attributes."""
    def __init__(self, kind, pat=None, style="S", doc=None, attrs="", value=None, parser=None, ty=None):
        self.kind, self.pat, self.style, self.doc, self.attrs, self.value, self.parser, self.ty = kind, pat, style, doc, attrs, value, parser, ty


def lexer(vs, frags, n, name=None, bytes_=False, par=None, char_attr=False, note="", decl=None):
    """frags: the pieces inputs are made of; n: how many at most (quick)."""
    i = next(N)
    name = name or "L%d" % i
    w = ["#[derive(Tokenize)]"]
    if bytes_:
        w.append("#[char_type(u8)]")
    elif char_attr:
        w.append("#[char_type(char)]")
    if par is not None:
        w.append("#[enable_par(%s)]" % str(par).lower())
    w.append("pub enum %s {" % (decl or name))
    shows, specs = [], []
    for k, v in enumerate(vs):
        vn = "V%d" % k
        if v.doc:
            w.append("  /// %s" % v.doc)
        body, show, parser = "", "Self::%s => (%d, None)" % (vn, k), ""
        value = "|_| Some(None)"
        if v.kind == "regex":
            if v.style == "S":      # text, by the default parser
                if bytes_:
                    body, parser = "(Vec<u8>)", ", |b: &Vec<u8>| Some(b.clone())"
                    show = "Self::%s(x) => (%d, Some(latin(x)))" % (vn, k)
                else:
                    body = "(String)"
                    show = "Self::%s(x) => (%d, Some(x.clone()))" % (vn, k)
                value = "|s| Some(Some(s.to_string()))"
            elif v.style == "N":    # length, by a closure
                body = "(usize)"
                parser = ", |b: &%s| Some(b.len())" % ("Vec<u8>" if bytes_ else "String")
                show = "Self::%s(x) => (%d, Some(x.to_string()))" % (vn, k)
                value = "|s| Some(Some(%s.to_string()))" % ("s.chars().count()" if bytes_ else "s.len()")
            elif v.style == "E":    # a parser that refuses texts of odd length
                body = "(usize)"
                parser = ", |b: &%s| (b.len() %% 2 == 0).then_some(b.len())" % ("Vec<u8>" if bytes_ else "String")
                show = "Self::%s(x) => (%d, Some(x.to_string()))" % (vn, k)
                value = "|s| (%s %% 2 == 0).then(|| Some(%s.to_string()))" % (("s.chars().count()",) * 2 if bytes_ else ("s.len()",) * 2)
            elif v.style == "T":    # a given type
                body = "(%s)" % v.ty
                parser = ", " + v.parser if v.parser else ""
                show = "Self::%s(x) => (%d, Some(format!(\"{x:?}\")))" % (vn, k)
                value = v.value
            elif v.style == "P":
                body, show = "()", "Self::%s() => (%d, None)" % (vn, k)
            w.append("  %s#[regex(%s%s)]%s\n  %s%s," % (v.attrs if v.attrs.startswith("#") else "", rstr(v.pat), parser, " " + v.attrs[1:] if v.attrs.startswith("@") else "", vn, body))
        elif v.kind == "skip":
            if v.style == "P":
                body, show = "()", "Self::%s() => (%d, None)" % (vn, k)
            w.append("  #[skip(%s)]\n  %s%s," % (rstr(v.pat), vn, body))
        elif v.kind == "eof":
            if v.style == "P":
                body, show = "()", "Self::%s() => (%d, None)" % (vn, k)
            w.append("  #[eof]\n  %s%s," % (vn, body))
        else:
            w.append("  %s," % vn)
        shows.append(show)
        specs.append("(%s, %s, %s, %s)" % ({"regex": "What::Regex", "skip": "What::Skip", "eof": "What::Eof", "none": "What::None"}[v.kind],
                                           rstr(v.pat) if v.pat is not None else '""', value, rstr((v.doc or "v%d" % k).lower().rstrip("."))))
    w.append("}")
    w.append("impl Show for %s { fn show(&self) -> (usize, Option<String>) { match self { %s } } }" % (name, ", ".join(shows)))
    out.append("\n".join(w))
    table.append("  v.push(Def { name: \"%s %s\", bytes: %s, vars: &[%s], frags: &[%s], n: %d, run: run_%s::<%s> });" % (
        name, note.replace("\\", "\\\\").replace('"', "'"), "true" if bytes_ else "false", ", ".join(specs),
        ", ".join('"' + f.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"' for f in frags), n, "bytes" if bytes_ else "chars", name))


EOF = lambda s="U": V("eof", style=s)
ABC = ["a", "b", "c", "\n", "x"]
POOL = ["a", "b", "ab", "a+", "a*", "[ab]+", "a|bc", "ab*c", "(ab)+", ".", "[^a]", "a{2,3}", "b?c", "\\n"]
ST = "SUNEP"
for i, p in enumerate(POOL):
    lexer([V("regex", p, ST[i % 5]), EOF()], ABC, 6, note="{%s}" % p)
k = 0
for a, b in itertools.product(POOL, POOL):
    k += 1
    order = k % 3
    vs = [V("regex", a, ST[k % 5]), V("regex", b, ST[(k + 2) % 5])]
    if order == 0:
        vs.append(EOF())
    elif order == 1:
        vs.insert(0, EOF("P"))
    else:
        vs.insert(1, EOF())
        if k % 2:
            vs.append(V("none"))
    lexer(vs, ABC, 6, note="{%s}{%s}" % (a, b))
for a, b in itertools.product(POOL, POOL[::2] + ["\\n"]):
    k += 1
    vs = [V("regex", a, ST[k % 5]), V("skip", b, "PU"[k % 2])]
    if k % 4 >= 2:
        vs.reverse()
    if k % 3:
        vs.insert(k % 3 - 1, EOF())
    lexer(vs, ABC, 6, note="{%s}skip{%s}" % (a, b))
SMALL = ["a", "ab", "[a-c]", "b+", "a.c?", "(a|b)*c"]
for t in itertools.permutations(SMALL, 3):
    k += 1
    lexer([V("regex", t[0], ST[k % 4]), V("skip" if k % 5 == 0 else "regex", t[1], "U" if k % 5 == 0 else ST[k % 3]), V("regex", t[2], "S"), EOF()], ABC, 5,
          note="{%s}{%s}{%s}" % t)

# byte lexers
BF = ["a", "b", "\n", "\u0080", "\u00ff", "\u007f"]
BP = ["a", "ab", "a+b?", "(?-u:\\xff)", "(?-u:[\\x80-\\xff])+", "(?-u:[^a])", "(?-u:\\x80)a|b", "\\x7f*\\n", "(?s-u:.)", "(?-u:.)+"]
for a, b in itertools.product(BP, BP):
    k += 1
    vs = [V("regex", a, ["S", "U", "N", "E", "P"][k % 5]), V("skip" if k % 4 == 0 else "regex", b, "U" if k % 4 == 0 else ["S", "N", "U"][k % 3])]
    if k % 3:
        vs.append(EOF())
    lexer(vs, BF, 5, bytes_=True, note="bytes {%s}{%s}" % (a, b))

# options
for par in (True, False):
    lexer([V("regex", "a[ab]*", "S"), V("regex", "b+c|x", "U"), V("skip", "\\s+"), EOF()], ABC, 6, par=par, note="enable_par")
    lexer([V("regex", "(?-u:a|\\xff)", "S"), EOF()], BF, 5, par=par, bytes_=True, note="enable_par bytes")
lexer([V("regex", "a[ab]*", "S"), EOF()], ABC, 6, char_attr=True, note="char_type(char)")
lexer([EOF()] + [V("regex", "a", "U")], ABC, 5, note="eof first")
lexer([V("regex", "a+b", "U")], ABC, 6, note="no eof")
lexer([V("skip", "a+b")], ABC, 6, note="only skip")
lexer([V("skip", "[^x]"), EOF()], ABC, 6, note="only skip, eof")
lexer([V("regex", "(?-u:[ab]+)", "U")], BF, 5, bytes_=True, note="bytes no eof")
lexer([V("regex", "a+", "U", doc="Ay {} {0} {x} }{", attrs="@#[allow(dead_code)] #[doc(hidden)]"), V("regex", "b+", "E", doc="Bee {braces}.", attrs="#[allow(unused)] "), EOF()], ABC, 6, note="docs")
lexer([V("regex", "b+", "E", doc="Bee."), V("regex", "a+", "E", doc="UPPER CASE"), V("regex", "c", "T", ty="u8", value="|_| None", doc="never a number"), EOF()], ABC, 6, note="failing parsers")
lexer([V("regex", "", "U"), V("regex", "a", "U"), EOF()], ABC, 5, note="empty pattern")
lexer([V("regex", "a*", "U"), V("skip", "b*"), EOF()], ABC, 6, note="nullable patterns")
lexer([V("regex", "a?b?c?", "S"), EOF()], ABC, 6, note="nullable pattern")
lexer([V("skip", "a*"), V("skip", "\\n*")], ABC, 6, note="nullable skips")

# names that the generated code must not be confused by, generic lexers
for i, nm in enumerate(("Kind", "Token", "Lexer", "C", "E", "Input", "Tokens", "T", "Location", "Error", "Buf", "Table", "Iterator", "Char")):
    lexer([V("regex", "a[ab]*", "S"), V("regex", "b+c|x", "U"), V("skip", "\\n+"), EOF("UP"[i % 2])], ABC, 6, name=nm, note="named")
GV = "|s| s.parse::<u8>().ok().map(|x| Some(format!(\"{x:?}\")))"
lexer([V("regex", "[12]+", "T", ty="T", value=GV), V("regex", "b", "U"), V("skip", "\\n+"), EOF()], ["1", "2", "b", "\n"], 5, name="Gen<u8>", decl="Gen<T: std::str::FromStr>", note="generic")
lexer([V("regex", "[12]+", "T", ty="T", value=GV), V("skip", "b"), V("regex", "\\n+", "E", doc="Lines."), EOF("P")], ["1", "2", "b", "\n"], 5, name="Gen2<u8>", decl="Gen2<T> where T: std::str::FromStr", note="generic, where")
lexer([V("regex", "(?-u:\\xff)", "N"), V("regex", "a+", "T", ty="T", parser="|b: &Vec<u8>| (b.len() < 3).then(|| T::from(b.len() as u8))", value="|s| (s.len() < 3).then(|| Some(s.len().to_string()))"), EOF()], BF, 5, bytes_=True, name="Gen3<u32>", decl="Gen3<T: From<u8>>", note="generic bytes")

# classes, counted repetitions
UF = ["a", "d", "z", "\u00e9", "\u00fd", "\u4e2d", "\U0001f602"]
lexer([V("regex", "[a-cx-z\u00e9-\u00fc]+", "S"), V("regex", "[d\u00fd-\u00ff]", "U"), EOF()], UF, 5, note="three ranges")
lexer([V("regex", "[^\u00e9d]", "S"), V("regex", "d+", "N"), EOF()], UF, 5, note="negated")
lexer([V("regex", "\\d+", "S"), V("regex", "[a-z_]", "U"), EOF()], ["1", "\u0663", "a", "_", "\u4e2d"], 5, note="digits")
lexer([V("regex", "\\p{Greek}+", "S"), V("regex", "[a-z\u4e00-\u9fff]", "U"), V("skip", "\\s"), EOF()], ["\u03b1", "\u03a9", "a", "\u4e2d", "\u00a0", "1"], 5, note="Unicode classes")
lexer([V("regex", "\\u{10ffff}", "U"), V("regex", "[\\u{0}-\\u{1f}]", "S"), V("regex", "[\\u{d7ff}-\\u{e000}]+", "S"), EOF()],
      ["\U0010ffff", "\0", "\x1f", " ", "\ud7ff", "\ue000", "\ue001"], 4, note="extremes")
lexer([V("regex", "(?i)if|(?i:Else)", "S"), V("regex", "[a-zA-Z]+", "S"), V("skip", " "), EOF()], ["if", "IF", "iF", "else", "ELSE", "x", " "], 4, note="case")
for lo, hi in ((0, 1), (1, 4), (2, 2), (3, None), (0, 3), (0, 0), (1, 1)):
    r = "{%d,%s}" % (lo, "" if hi is None else hi)
    lexer([V("regex", "a%s" % r, "S"), V("regex", "(bc)%s" % r, "N"), EOF()], ["a", "b", "c", "\n"], 7, note=r)

# automata of critical sizes: n + 1 states
for n in (7, 15, 126, 127, 128, 253, 254, 255, 256, 257, 300):
    lexer([V("regex", "a{%d}" % n, "N"), V("regex", "b", "U"), EOF()], ["a" * (n - 1), "a", "a" * n, "b"], 4, note="a{%d}" % n)
lexer([V("regex", "[ab]*a[ab]{7}c", "N"), V("regex", "b", "U"), EOF()], ["a", "b" * 7, "c", "ab", "b"], 6, note="256 subsets")
lexer([V("regex", "(?-u:a{254}|[\\x80-\\xff]{255})", "N"), EOF()], ["a" * 253, "a", "\u0080" * 254, "\u00ff"], 4, bytes_=True, note="bytes many states")

# many variants
KW = ["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut",
      "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while"]
lexer([V("regex", w, "U") for w in KW] + [V("regex", "[a-z_]+", "S"), V("skip", " +"), EOF()],
      ["a", "s", "as", "in", "if", "cont", "inue", "st", "ruct", "true", " "], 4, note="keywords first")
lexer([V("regex", "[a-z_]+", "S")] + [V("regex", w, "U") for w in KW] + [V("skip", " +"), EOF()],
      ["as", "in", "if", "cont", "inue", "x", " "], 4, note="keywords last")
OPS = ["+", "++", "+=", "-", "--", "-=", "->", "<", "<<", "<<=", "<=", "=", "==", "=>", ">", ">>", ">>=", ">=", "&", "&&", "|", "||", "!", "!=", ".", "..", "...", "..="]
esc = lambda s: "".join("\\" + c if c in "+.|&*?-" else c for c in s)
lexer([V("regex", esc(o), "U") for o in OPS] + [EOF()], ["+", "-", "<", "=", ">", "&", "|", "!", "."], 5, note="operators")
lexer([V("regex", esc(o), "U") for o in reversed(OPS)] + [V("skip", " "), EOF()], ["+", "-", "<", "=", ">", ".", " "], 5, note="operators reversed")
lexer([V("regex", "a{%d}" % (i + 1), "U") for i in range(40)] + [V("regex", "b+", "S"), EOF()], ["a", "aaaa", "a" * 20, "b"], 6, note="40 literals")

# realistic languages
S = lambda f: "|s| %s.map(|x| Some(format!(\"{x:?}\")))" % f
lexer([V("regex", "[a-zA-Z_][a-zA-Z0-9_]*", "S"), V("regex", "[0-9]+\\.[0-9]+", "T", ty="f64", value=S("s.parse::<f64>().ok()"), doc="Floating-point."),
       V("regex", "[0-9]|[1-9][0-9]+|0[xX][0-9a-fA-F]+", "T", ty="u16", parser="|s: &String| int_literal(s)", value=S("int_literal::<u16>(s)"), doc="Integer."),
       V("regex", "\"([^\"\\\\]|\\\\.)*\"", "T", ty="String", parser="|s: &String| str_literal(s)", value=S("str_literal(s)"), doc="String literal."),
       V("regex", "'([^'\\\\\\n]|\\\\.)*'", "T", ty="char", parser="|s: &String| char_literal(s)", value=S("char_literal(s)"), doc="Character."),
       V("skip", "//[^\\n]*"), V("skip", "/\\*([^*]|\\*+[^*/])*\\*+/"), V("skip", "\\s+"), V("regex", ".", "S"), EOF()],
      ["a", "0", "9", "0x", ".", "\"", "\\", "n", "'", "/", "*", "\n", " ", "\u00e9", "70000"], 4, note="C-like")
lexer([V("regex", "\\{|\\}|\\[|\\]|:|,", "T", ty="char", value=S("s.parse::<char>().ok()")), V("regex", "true|false", "T", ty="bool", value=S("s.parse::<bool>().ok()")), V("regex", "null", "P"),
       V("regex", "-?(0|[1-9][0-9]*)(\\.[0-9]+)?([eE][+-]?[0-9]+)?", "T", ty="f64", value=S("s.parse::<f64>().ok()")),
       V("regex", "\"([^\"\\\\]|\\\\.)*\"", "T", ty="String", parser="|s: &String| str_literal(s)", value=S("str_literal(s)")), V("skip", "[ \\t\\r\\n]+"), EOF()],
      ["{", "]", ",", "null", "tru", "e", "-", "0", "1", ".", "\"", "\\", " "], 4, note="JSON")
lexer([V("regex", "[()]", "S"), V("regex", "[^\\s()]+", "S"), V("skip", "\\s+"), EOF()], ["(", ")", "a", "\u4e2d", " ", "\n"], 6, note="S-expressions")
lexer([V("regex", "(-|\\+)?[0-9]+", "T", ty="i8", parser="signed_int_literal_", value=S("signed_int_literal_(&s.to_string())"), doc="Small {number}."), V("skip", "\\n"), EOF("P")],
      ["-", "+", "1", "12", "8", "\n"], 6, note="failing numbers")
lexer([V("regex", "a(\\n|b)*c", "S"), V("regex", "\\n", "S"), V("skip", "(x\\n)+x"), EOF()], ["a", "b", "c", "\n", "x"], 6, note="several lines")
lexer([V("regex", "<!--([^-]|-[^-]|--[^>])*-->", "N"), V("regex", "<[a-z]+>", "S"), V("regex", "[^<]+", "S"), EOF()], ["<", "!--", "-->", "-", "a", ">", "\n"], 5, note="markup")

open("src/defs.rs", "w").write(
    "// generated by gen.py\n#![cfg_attr(rustfmt, rustfmt_skip)]\n#![allow(dead_code, unused)]\nuse crate::{latin, run_bytes, run_chars, signed_int_literal_, Def, Show, What};\n"
    "use laps::lexer::{char_literal, int_literal, str_literal};\nuse laps::lexer::Tokenize;\n\n" + "\n\n".join(out) + "\n\n" +
    "".join("fn push%d(v: &mut Vec<Def>) {\n%s\n}\n" % (i, "\n".join(table[j:j + 50])) for i, j in enumerate(range(0, len(table), 50))) +
    "pub fn push(v: &mut Vec<Def>) {\n" + "".join("  push%d(v);\n" % i for i, j in enumerate(range(0, len(table), 50))) + "}\n")
print(len(table))
