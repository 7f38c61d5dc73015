"""Which harness decides which property, with what limits; also the source of MANIFEST.json (tools/gen_manifest.py)."""
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Part:
    def __init__(self, crate, bin=None, compile_failure_is_violation=False, mem=24, case_mem=8, hang=120, quick=600, thorough=7200):
        self.crate = crate
        self.bin = bin or crate
        self.name = self.bin
        self.needs = ()
        self.compile_failure_is_violation = compile_failure_is_violation
        self.mem, self.case_mem, self.hang = mem, case_mem, hang
        self.budget = {"quick": quick, "thorough": thorough}

    def env(self):
        return {"CARGO_TARGET_DIR": os.path.join(V, "target"), "CARGO_NET_OFFLINE": "true"}

    def build_cmd(self):
        return ["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", os.path.join(V, self.crate, "Cargo.toml"), "--bin", self.bin]

    def argv(self):
        return [os.path.join(V, "target", "release", self.bin)]




class Instrumented(Part):
    """Built with the compiler's thread-sanitizer instrumentation, which calls the scheduler in sched/rt.c."""
    def env(self):
        return dict(super().env(), RUSTC_BOOTSTRAP="1",
                    RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -Zexternal-clangrt")

    def build_cmd(self):
        return super().build_cmd() + ["--target", "x86_64-unknown-linux-gnu"]

    def argv(self):
        return [os.path.join(V, "target", "x86_64-unknown-linux-gnu", "release", self.bin)]


class Configured(Part):
    """A harness crate in one feature configuration, with the part it is compared with."""
    def __init__(self, crate, bin, features, needs=(), **kw):
        super().__init__(crate, bin, **kw)
        self.features, self.needs = features, needs

    def build_cmd(self):
        return super().build_cmd() + ["--features", self.features]


RX = Part("rx")
SCHED = Instrumented("sched", hang=3000)

PROD = ("explicit-state model checking: exhaustive product of the built automaton with a Brzozowski-derivative machine over all "
        "expressions within a size bound")
A_RX = ["the reference semantics (derivatives of the pattern, written independently in rx/src/re.rs)",
        "regex-syntax parses pattern text as documented",
        "symbols inside one interval of the common refinement of the reference classes and the built table behave alike (both ends are run)"]
SEQ = "explicit-state model checking of the real code against a reference model over all "

PLAN = {}


def p(pid, parts, technique, note, assumptions, covers=""):
    PLAN[pid] = dict(parts=parts, technique=technique, note=note, assumptions=assumptions)


p("C01", [RX], PROD,
  "Every expression of the enumerated spaces is built with the real code and its automaton is compared with the derivative machine in "
  "every reachable product state, so each expression is decided for strings of every length. Expressions beyond the size bound are not covered.", A_RX)
p("C02", [RX], PROD,
  "All orders and tag assignments of overlapping sets within the bound; the smallest matching tag is compared in every product state.", A_RX)
p("C03", [RX], PROD,
  "All pairs of ranges over 19 critical end points, all pairs and triples of subset classes at four places of the code space, escapes swept "
  "over all 1,112,064 scalar values.", A_RX)
p("C04", [RX], PROD,
  "As C03 over bytes, plus byte-mode expressions and patterns over all 256 bytes in every state.", A_RX)
p("C05", [RX], PROD,
  "All short texts over the metacharacters and all short fragment sequences: building returns a correct matcher or an error, and never panics or hangs.", A_RX)
p("C06", [RX], PROD,
  "Every set is built in all modes and pool sizes and the resulting automata are compared by their product. Interleavings inside rayon are C09's.", A_RX)
p("C07", [RX], SEQ + "call histories up to a depth",
  "All histories of 6 (thorough: more) calls on 10 matchers, each call compared with the reference machine.", A_RX)
p("C08", [RX], PROD.replace("exhaustive product of the built automaton with a Brzozowski-derivative machine", "reachability and partition refinement of every built table"),
  "All tables of the enumerated expressions: no unreachable, dead or equivalent states, no duplicate columns, disjoint symbol ranges.", A_RX)

p("C09", [SCHED], "stateless model checking of the compiled code: all schedules of concurrent builds within a preemption bound (serial builds) or a delay "
  "bound (rayon pool), on real threads under a controlling scheduler",
  "Every pair of ten expression sets built concurrently, three threads, and parallel builds alone and next to others; matchers are compared with the one "
  "built alone on every word of up to four letters and in size. More preemptions, more threads and weak memory are not covered.",
  ["memory is sequentially consistent (weak memory effects are not explored)",
   "the standard library's own code between two instrumented operations runs without interruption",
   "two matchers that agree on every word of up to four letters and in their number of states are taken for equivalent"])
LIB = Part("lib")
A_MODEL = ["the reference model of the component (written from the property, independent of the implementation)"]

p("C10", [LIB], SEQ + "texts and all splits of their bytes into reads",
  "Every text up to a byte bound is read from sources that split its bytes in every possible way, and around the ends of the reader's buffer; "
  "the characters delivered must be those of the text. Longer texts are covered by families around the buffer size only.",
  ["`Read` sources return at least one byte until their end"])
p("C11", [LIB], SEQ + "byte strings, splits into reads and points of failure",
  "Every byte string up to a bound over all kinds of UTF-8 bytes, under every split, with a failure injected at no read and at every read: exactly "
  "the characters before the fault are delivered, then an error that is counted, and later reads stay within the input.", A_MODEL)
p("C12", [LIB], SEQ + "histories of stream operations up to a depth",
  "All histories of eleven operations on all texts up to a bound, on both readers and on a stream that uses the trait's own methods, against a "
  "position in a vector. Deeper histories are not covered.", A_MODEL)
p("C13", [LIB], SEQ + "histories of stream operations up to a depth, position overrides and very long lines and files",
  "The histories of C12 with every reported location compared, all texts after position overrides at the extremes, and texts with more than 65,535 "
  "columns or lines.", A_MODEL)
p("C14", [LIB], SEQ + "texts, starting positions and predicates",
  "All subsets of the alphabet as stop characters and predicates with state, from every position of every text up to a bound, for the three helpers on "
  "three kinds of streams; the calls of the predicate are compared as well.", A_MODEL)
p("C18", [LIB], "explicit enumeration of all literal texts up to a length and of the neighbourhood of every power of two, against a big-number decoder "
  "(bounded exhaustive model checking of a total function)",
  "Texts beyond the length bound are covered only as values up to 70,000 and near powers of two up to 2^130.", A_MODEL)
p("C19", [LIB], "explicit enumeration of all literal texts up to a length, all escapes and all code points, against a decoder written from the documentation "
  "(bounded exhaustive model checking of a total function)",
  "Texts beyond the length bound are covered only as single escapes and single characters.", A_MODEL)
p("C20", [LIB], SEQ + "histories of token stream operations and placements of tokenizer errors",
  "All histories of eighteen operations up to a depth on all event sequences up to a length against a list of pending events.", A_MODEL)
p("C21", [LIB], SEQ + "lookahead chains, peeks, earlier uses of the stream and placements of tokenizer errors",
  "Pairs of peeking actions (chains up to a length) after every kind of earlier use, on the buffered and a minimal stream, then everything is read.", A_MODEL)
LEX = SEQ + "inputs up to a length, for all pairs of small patterns and a family of lexer definitions"
A_LEX = ["the reference lexer of lex/src/refer.rs (longest live prefix by derivatives of the patterns, first listed variant)",
         "regex-syntax parses pattern text as documented"]
LEXN = ("About 600 derived lexers, each on every input up to 4 to 7 pieces of its alphabet, longer repetitive inputs through real readers, and every position "
        "of failure of the source. Lexers outside the family and long irregular inputs are not covered; that tables equal their patterns for all strings is C01-C08.")
p("C15", [Part("lex", compile_failure_is_violation=True)], LEX, LEXN, A_LEX)
p("C16", [Part("lex")], LEX, LEXN, A_LEX)
p("C17", [Part("lex")], LEX, LEXN, A_LEX)
PARS = Part("pars")
A_GRAM = ["the predictive interpreter of grammars in pars/src/model.rs (written from the documentation of the structures)"]
p("C22", [PARS], SEQ + "token sequences and placements of tokenizer errors, for all nestings of two predefined structures",
  "Every predefined structure and every nesting of two in every position on every short token sequence, and on long repetitive ones; deeper nestings "
  "appear in C24 and C30 only.", A_GRAM)
p("C23", [PARS], SEQ + "token sequences, placements of tokenizer errors and numbers of buffered tokens, for all nestings of two predefined structures",
  "As C22, with the question asked twice and the stream and reports examined afterwards.", A_GRAM)
p("C24", [Part("deriv", "deriv_parse", compile_failure_is_violation=True)],
  SEQ + "token sequences and placements of tokenizer errors, for all small struct and enum definitions",
  "All structs of up to three fields over six field types and all enums of up to three variants over seven shapes, plus larger, nested, recursive "
  "and generic ones; each on every short token sequence. That accepted definitions compile is part of the check.", A_GRAM)
p("C25", [Part("tokmac", compile_failure_is_violation=True)], "explicit enumeration of all token patterns of a family against all kinds of a domain, "
  "in every following context (bounded exhaustive model checking)",
  "Fifty patterns of every form, ninety kinds, what follows and what was peeked before; all conversions, equalities and displays of all kinds.",
  ["the predicates written next to the patterns in tokmac/src/defs.rs"])
p("C26", [PARS, Part("deriv", "deriv_span", compile_failure_is_violation=True)],
  SEQ + "token sequences, for all nestings of two predefined structures and all small struct and enum definitions",
  "The span of every value parsed from every short token sequence is compared with its first and last token.", A_GRAM)
A_SCHED = ["memory is sequentially consistent (weak memory effects are not explored)",
           "the standard library's own code between two instrumented operations runs without interruption"]
p("C27", [LIB, SCHED], SEQ + "histories of reports and span operations up to a depth; stateless model checking of the compiled code (all schedules "
  "of two and three reporting threads, preemption-bounded for longer ones)",
  "All histories of eighteen operations on three spans of two sources, all counters compared after every operation; then every interleaving of pairs of "
  "single operations, and preemption-bounded ones of longer sequences and three threads, on the real code under a controlling scheduler.", A_MODEL + A_SCHED)
p("C28", [LIB], "explicit enumeration of all small source texts, spans and file states with the rendered report parsed and compared cell by cell with the source "
  "(bounded exhaustive model checking)",
  "Every span between two characters of every text up to a bound, lines near powers of ten, and locations in a grid and at the extremes for unreadable "
  "files. The harness replaces libc's write to capture standard error.",
  ["unicode-width gives the number of cells of a character", "the layout of a report: gutter, bar, text; marks in the row below"])
REF_BARE = Configured("nolog", "ref_bare", "logger", compile_failure_is_violation=True)
REF_MACROS = Configured("nolog", "ref_macros", "logger,macros", compile_failure_is_violation=True)
p("C29", [Configured("nolog", "nolog_bare", "bare", [REF_BARE], compile_failure_is_violation=True),
          Configured("nolog", "nolog_macros", "macros", [REF_MACROS], compile_failure_is_violation=True)],
  SEQ + "histories of reports up to a depth, and against the configuration with the logger over all short inputs, in every feature configuration",
  "All histories of 46 operations up to a depth against a model; hand-written and derived front ends on all short texts, each result, message and "
  "total compared with what the same front end prints in the configuration with the logger. Building in all four feature configurations is part of the check.",
  A_MODEL + ["the configurations with the logger are right about the text of messages (their totals and behaviour are C27's and C28's)"])
p("C30", [Part("front", compile_failure_is_violation=True), Configured("front", "front_logger", "logger", compile_failure_is_violation=True)],
  "explicit enumeration of all texts and token sequences up to a length and of all neighbours of all sentences up to a greater length, for four complete "
  "front ends, against the language generated from a grammar (bounded exhaustive model checking)",
  "S-expressions, JSON, a C-like language (three entries) and a line-based language over bytes. The table of sentences is made by enumerating derivations. "
  "Longer texts and other grammars are not covered (C22-C26 take all small definitions).",
  ["the grammars and hand-written reference scanners in front/src", "a scanner does not give back the characters it read past a token that fails (C16)"])
p("C31", [RX], PROD.replace("the built automaton", "every stage (NFA, DFA, table), run through its public edges,"),
  "Every expression of the spaces is built stage by stage and each stage compared with the derivative machine in every reachable product state; "
  "both dumps are read back. Expressions beyond the size bound are not covered.", A_RX)
p("C32", [LIB], SEQ + "histories of span operations up to a depth and all reachable states up to a greater one",
  "All histories of 38 operations on three spans of two sources, every span and pair of spans compared after every operation; compound values in every "
  "reachable state; every character and byte. Locations at the limits of 32 bits are not moved beyond them.", A_MODEL)
p("C33", [Part("defs", compile_failure_is_violation=True)], "explicit enumeration of all combinations of attribute forms, items, variants, fields and arms of a family, "
  "each compiled against the library (bounded exhaustive model checking of the macros)",
  "About 7,000 definitions (seven families) are compiled with the real macros. Whether a well-formed definition behaves as it should is C15-C17 and C24-C26; misplaced "
  "attributes (on an item where the derive does not look for them) are not covered.",
  ["the forms the documentation describes, written down in defs/src/gen.rs"])
