#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=hook)))

RX = ["laps_regex/src/re.rs", "laps_regex/src/mir.rs", "laps_regex/src/nfa.rs", "laps_regex/src/fa.rs",
      "laps_regex/src/dfa.rs", "laps_regex/src/table.rs"]

p("C01", "A built matcher accepts exactly the strings its regular expressions match",
  """For every set of supported regular expressions, the built matcher reports a string as matched if and only if
  at least one of the expressions matches that whole string according to standard regular-expression semantics.
  This covers literals, concatenation, alternation, grouping, the empty expression, and every greedy repetition
  (`*`, `+`, `?`, `{n}`, `{n,}`, `{n,m}`) in any nesting.""",
  ["inputs", "programs"],
  "for every regular expression (and set of them) and for every input string, of any length",
  """A test fixes one pattern and a few strings; the language of a pattern is infinite and the interaction of nested
  operators (star of alternation of star ...) is combinatorial. The existing tests use about a dozen patterns.""",
  RX, [("HIR to MIR rewriting and optimisation", "laps_regex/src/mir.rs"),
       ("Thompson-style construction", "laps_regex/src/nfa.rs"),
       ("powerset construction and minimisation", "laps_regex/src/dfa.rs"),
       ("state-transition table", "laps_regex/src/table.rs")],
  obs=["RegexMatcher::is_str_match", "RegexMatcher::is_accept/is_final"])

p("C02", "When several expressions match, the smallest tag wins",
  """When a string is matched by several of the expressions given to one builder, the tag returned is the smallest
  tag among exactly those expressions that match it, and it never depends on the order in which the expressions
  were added, on how they overlap, or on whether the same expression text was added more than once.""",
  ["inputs", "programs"],
  "for every set of tagged expressions, every order of adding them, and every input string",
  """Conflicts between expressions form per string and per insertion order; tests fix one order and disjoint or
  trivially overlapping patterns, never duplicates or shuffled tags.""",
  RX, [("tag selection when subsets are built", "laps_regex/src/dfa.rs"),
       ("tag bookkeeping of the combined automaton", "laps_regex/src/fa.rs"),
       ("collection of tagged expressions", "laps_regex/src/re.rs")],
  obs=["RegexMatcher::is_str_match", "RegexMatcher::is_final"])

p("C03", "Character classes are exact for every Unicode scalar value",
  """A literal, range, (negated) class or Unicode-aware escape, alone or combined with others in one matcher, accepts
  exactly the scalar values it denotes, for every scalar value from U+0000 to U+10FFFF, including around the
  surrogate gap and at both ends of the code space.""",
  ["inputs", "programs"],
  "for every combination of (overlapping, adjacent, nested) classes and every scalar value at every position",
  """The code splits the classes of all expressions into disjoint equivalence classes and merges them again; errors
  appear only at particular end points out of 1.1 million scalar values, and depend on the other classes present.""",
  RX, [("class normalisation and splitting into disjoint ranges", "laps_regex/src/mir.rs"),
       ("symbol successor/predecessor across the surrogate gap", "laps_regex/src/mir.rs"),
       ("equivalence-class merging", "laps_regex/src/table.rs")],
  state=[("symbol map", "disjoint ranges to equivalence id", "laps_regex/src/table.rs")],
  obs=["RegexMatcher<char, _>"])

p("C04", "Byte-mode matchers are exact over all 256 byte values",
  """A matcher built for bytes accepts exactly the byte strings its expressions match, where literals, byte classes
  and byte escapes denote bytes 0x00 to 0xFF, non-ASCII literals denote their UTF-8 bytes, and the strings may be invalid
  UTF-8. An expression with a Unicode class beyond ASCII is rejected with an error instead of being matched wrongly, and
  one whose classes are all ASCII is not rejected.""",
  ["inputs", "programs"],
  "for every set of byte-mode expressions and every byte string",
  "Byte mode is reached by one unit test over ASCII; 0x00/0xFF end points and overlapping byte classes are untested.",
  RX, [("byte-mode MIR building", "laps_regex/src/mir.rs"), ("u8 symbol operations", "laps_regex/src/mir.rs")],
  obs=["RegexBuilder::build_bytes", "RegexMatcher<u8, _>"])

p("C05", "Building a matcher always ends with a matcher or an error",
  """Building terminates without panicking for every set of expression strings: sets of supported expressions give a
  matcher, an expression with a syntax error gives an error that carries the tag of that expression, and an unsupported
  construct (look-around assertions, lazy repetition, classes that match nothing) or an empty set gives an error. An
  unsupported construct is never silently ignored or reinterpreted.""",
  ["inputs", "programs"],
  "for every set of expression strings, valid or not, in both character and byte mode",
  "Tests build a handful of well-formed patterns and check two error kinds; degenerate sets (empty expression only, "
  "classes that touch the ends of the code space, an empty builder) are never built.",
  RX, [("error reporting by tag", "laps_regex/src/re.rs"), ("rejection of unsupported constructs", "laps_regex/src/mir.rs")],
  obs=["RegexBuilder::build", "RegexBuilder::build_bytes"])

p("C06", "Serial, parallel and repeated builds give equivalent matchers",
  """Building the same expressions with parallelisation off, on, or left to the builder, any number of times and after
  any other matchers were built in the process, gives matchers that agree on every input string: same acceptance,
  same tags, and same viability of every prefix.""",
  ["configurations", "inputs", "schedules"],
  "for every set of expressions, every parallel setting and thread count, and every earlier build in the process",
  "Tests build each pattern once in one configuration and process history; automaton construction uses hashed "
  "collections, a process-wide id counter and a thread pool, so results could differ per run.",
  ["laps_regex/src/dfa.rs", "laps_regex/src/fa.rs", "laps_regex/src/re.rs", "laps_regex/src/nfa.rs"],
  [("serial and parallel powerset construction", "laps_regex/src/dfa.rs"),
   ("process-wide state id allocation", "laps_regex/src/fa.rs")],
  state=[("next state id", "global counter shared by all builds", "laps_regex/src/fa.rs")],
  obs=["RegexBuilder::enable_par", "RegexMatcher"])

p("C07", "Stepwise matching agrees with whole-string matching in every history",
  """Feeding a matcher one symbol at a time reports a symbol as accepted exactly when the symbols accepted since the
  last reset followed by it form a prefix of some matched string (a rejected symbol leaves the position unchanged), and
  reports a final tag exactly when the symbols accepted so far are themselves matched; resetting always restores the
  initial state. Whole-string matching, stepwise matching, saved states and the exported table's own transition function
  never disagree, after any history of calls.""",
  ["histories", "inputs"],
  "for every sequence of feed/reset/whole-string/query calls on one matcher, and every symbol",
  "The stepwise interface is used by one unit test with a fixed word; call histories (reset in the middle, whole-string "
  "calls between steps, rejected symbols) are not explored.",
  ["laps_regex/src/re.rs", "laps_regex/src/table.rs"],
  [("state cursor and reset", "laps_regex/src/re.rs"), ("table transition", "laps_regex/src/table.rs")],
  state=[("current state", "position in the automaton", "laps_regex/src/re.rs")],
  obs=["RegexMatcher::{is_accept,is_final,state,is_state_final,reset,is_str_match}", "StateTransTable"])

p("C08", "The exported table is compact: no two states or symbol classes are redundant",
  """The state-transition table obtained from a built matcher is minimal: every live state is reachable from the
  initial state, no two states behave identically (same tag and same future on every string), and no two
  symbol classes have the same column.""",
  ["inputs", "programs"],
  "for every set of supported expressions",
  "Unit tests look at one hand-computed automaton; minimality is a global property of every reachable pair of states.",
  ["laps_regex/src/dfa.rs", "laps_regex/src/table.rs"],
  [("partition refinement", "laps_regex/src/dfa.rs"), ("equivalence-class merging", "laps_regex/src/table.rs")],
  obs=["StateTransTable::{num_states,table,sym_map,tags}"])

p("C09", "Builds running at the same time do not disturb each other",
  """Matchers built by several threads at the same time are each equivalent to the one the same expressions give when
  built alone, whatever the interleaving, and no such interleaving deadlocks or panics.""",
  ["schedules"],
  "for every interleaving (up to a preemption bound) of two or more concurrent builds, serial or parallel",
  "Tests never control the interleaving of builds; the shared state-id counter is the one global all builds touch.",
  ["laps_regex/src/fa.rs", "laps_regex/src/dfa.rs", "laps_regex/src/re.rs"],
  [("mutex around the global id counter", "laps_regex/src/fa.rs")],
  state=[("next state id", "global counter shared by all builds", "laps_regex/src/fa.rs")],
  obs=["RegexBuilder::build from several threads"])

p("C10", "Readers deliver exactly the input, however the source chunks it",
  """For every valid input, a reader delivers exactly its characters (or bytes, for the byte reader), each once and in
  order, and then end-of-input forever, no matter how the underlying source splits the bytes over reads or where the
  reader's internal buffer ends.""",
  ["inputs", "fault_sequences"],
  "for every input text, every way the source may return short reads, and every alignment with the internal buffer",
  "Tests read short string literals through sources that always fill the buffer, so no multi-byte character is ever "
  "split across two reads or across the buffer boundary.",
  ["src/reader.rs", "src/input.rs"],
  [("buffer refill and incomplete-tail handling", "src/reader.rs")],
  state=[("byte buffer and offset", "bytes read and not yet delivered", "src/reader.rs")],
  obs=["InputStream::next_char_loc"])

p("C11", "Invalid UTF-8 and read failures are reported after all good characters",
  """When the source fails or its bytes stop being valid UTF-8 (including a sequence truncated by end of input), the
  reader first delivers every character before that point, correctly and with correct locations, and then returns an
  error; it never delivers a character that is not in the input and never panics.""",
  ["inputs", "fault_sequences"],
  "for every byte string, every chunking of it, and an I/O failure injected at every read",
  "No existing test contains an invalid byte sequence or a failing source.",
  ["src/reader.rs"], [("UTF-8 validation on refill", "src/reader.rs"), ("error returns", "src/reader.rs")],
  obs=["InputStream::next_char_loc on Reader"])

p("C12", "Peeking and unreading never lose, repeat or reorder characters",
  """Under every sequence of read, peek, scan and unread operations on an input stream, the characters delivered are
  the same as those of the plain input in order, an unread character (or end-of-input) is delivered again next and
  the current location is again the one it was read at, even if the position was overridden since, and
  peeking changes neither the following characters nor the current location.""",
  ["histories", "inputs"],
  "for every sequence of stream operations up to a depth, over inputs with newlines, multi-byte characters and end of input",
  "Unit tests use a few fixed operation sequences; unread at end of input or at a newline, or mixed with peeks is not covered.",
  ["src/input.rs", "src/reader.rs"],
  [("single-slot unread buffer", "src/reader.rs"), ("default peek methods", "src/input.rs")],
  state=[("unread slot", "the character handed back", "src/reader.rs"), ("span", "current location", "src/reader.rs")],
  obs=["InputStream"])

p("C13", "Every character is reported at its exact line and column",
  """Every character is reported at the line and column implied by the text up to it: lines count newlines from one, columns
  count characters from one within a line, a newline counts as column zero of the line it starts, and the end of input is
  reported where the last character was. This holds for arbitrarily long lines and files, after unreading and
  re-reading, and after the position was overridden by the user, from which counting then continues.""",
  ["inputs", "histories"],
  "for every text and operation history including position overrides, and for lines and files beyond 65,535 lines/columns",
  "Tests look at positions of a few characters of one short text.",
  ["src/span.rs", "src/reader.rs", "src/input.rs"],
  [("location update per character", "src/span.rs"), ("location restore on unread", "src/reader.rs")],
  state=[("span", "current location", "src/reader.rs")],
  obs=["InputStream::{span,next_char_span,peek_with_span,set_line_col}"])

p("C14", "Scanning helpers stop exactly at the first match or end of input",
  """Skipping or collecting characters until a predicate holds consumes exactly the characters before the first one that
  satisfies it (or all, at end of input), leaves that character, at its own location, to be read next, asks the predicate exactly once about
  each character up to and including that one and about nothing beyond it, and returns exactly the consumed characters together with the span from the first to the last of them.""",
  ["inputs", "histories"],
  "for every input, starting position and predicate over the alphabet",
  "Tests use one input and two predicates.",
  ["src/input.rs"], [("skip_until/collect_until/collect_with_span_until", "src/input.rs")],
  obs=["InputStream::{skip_until,collect_until,collect_with_span_until}"])

LX = ["laps_macros/src/tokenize.rs", "src/lexer.rs"]
p("C15", "Derived lexers split the input into longest, first-listed tokens, losing nothing",
  """A derived lexer reads, for each token, the longest run of characters that can still lead to a match of one of its
  patterns; if that run is matched it becomes a token of the first-listed variant whose pattern matches it, carrying
  the value parsed from exactly that text, or is skipped if that variant is a skip pattern. Consecutive tokens and
  skipped runs cover the input without gaps or overlaps, for character and byte lexers alike and for automata of any
  size.""",
  ["inputs", "programs"],
  "for every lexer definition and every input text",
  "Tests run one lexer on one text; sizes of the automaton, overlapping patterns, and byte mode are configuration dimensions not sampled.",
  LX + RX, [("generated scan loop and table", "laps_macros/src/tokenize.rs"),
            ("tag to variant mapping", "laps_macros/src/tokenize.rs"),
            ("table element type selection", "laps_macros/src/tokenize.rs")],
  obs=["Tokenize::next_token", "Lexer"])

p("C16", "Token spans cover exactly the token's text",
  """The span of every token produced by a derived lexer starts at its first character and ends at its last one, with the
  exact lines and columns of the input; the end-of-input token is located where the input ends. Tokens after skipped
  text, after newlines, or spanning several lines are no exception.""",
  ["inputs"],
  "for every input text up to a length over an alphabet with newlines, tabs and multi-byte characters",
  "Tests compare kinds of tokens; few spans are compared and none for multi-line tokens.",
  LX + ["src/span.rs", "src/reader.rs"], [("span tracking in the generated loop", "laps_macros/src/tokenize.rs")],
  obs=["Token::span"])

p("C17", "Lexing always makes progress and reports errors and end of input faithfully",
  """On every input a derived lexer reaches, in finitely many calls each of which returns, either end of input or an error.
  Text no pattern matches yields an error (never a token), input that ends inside an unfinished token yields an
  unexpected-end error, failures of the input source are passed on, and at end of input the end token (or an error
  when none is declared) is returned again on every further call.""",
  ["inputs", "programs", "fault_sequences"],
  "for every lexer definition (including patterns that match the empty string) and every input, valid or not",
  "Tests only lex valid inputs with patterns that cannot match the empty string.",
  LX, [("generated loop: end of input, skip and unknown handling", "laps_macros/src/tokenize.rs")],
  obs=["Tokenize::next_token"])

p("C18", "Integer literals convert to exactly the value they denote, or are refused",
  """The integer-literal helpers give, for every decimal, binary, octal or hexadecimal text, exactly the mathematical value it
  denotes in the requested integer type, and nothing when the text is not such a literal or the value is out of
  range; this holds for all widths, including both extremes of every signed type.""",
  ["inputs"],
  "for every text over the literal alphabet up to a length, and texts around the limits of every integer type",
  "Tests convert a handful of values in one type.",
  ["src/lexer.rs"], [("radix prefix handling and checked parsing", "src/lexer.rs")],
  obs=["int_literal", "signed_int_literal"])

p("C19", "String and character literals decode exactly, or are refused",
  """The string- and character-literal helpers decode a quoted text to exactly the characters it denotes, resolving every
  documented escape, and refuse texts that are not a complete literal: missing quotes, unknown or truncated escapes,
  code points out of range, or (for characters) anything but exactly one character.""",
  ["inputs"],
  "for every text up to a length over an alphabet of quotes, backslashes, escape letters, hex digits, braces and multi-byte characters",
  "Tests decode a few literals; malformed escapes are combinatorial.",
  ["src/lexer.rs"], [("escape parser", "src/lexer.rs")], obs=["str_literal", "char_literal"])

p("C20", "Token streams deliver each token once and in order under any history",
  """Under every sequence of next, unread, peek (one, two, n), lookahead, skip-until, collect-until, expect and parse
  operations, also when the tokenizer fails in between, a buffered token stream behaves like a plain sequence of tokens
  with a push-back list: each token is delivered once, in order, unread tokens come back in last-in-first-out order,
  and a tokenizer error is passed on exactly once, without losing or repeating a token that the failing operation had not consumed (peeking
  and looking ahead consume none).""",
  ["histories", "fault_sequences"],
  "for every operation sequence up to a depth and every placement of tokenizer errors",
  "Tests execute one operation sequence with an infallible tokenizer.",
  ["src/token.rs"], [("token buffer", "src/token.rs"), ("default stream methods", "src/token.rs")],
  state=[("token_buf", "tokens read ahead or handed back", "src/token.rs")],
  obs=["TokenBuffer as TokenStream"])

p("C21", "Peeking and looking ahead never change what is read next",
  """Peeking any number of tokens, or looking ahead by any mix of tokens and patterns and then dropping the lookahead,
  leaves the stream delivering exactly the same tokens afterwards, even when it ended in an error; a lookahead over patterns is true
  exactly when the upcoming tokens can start those patterns one after the other. This holds for the buffered stream and
  for streams that only provide the two required operations.""",
  ["histories", "fault_sequences"],
  "for every stream content, buffered prefix, lookahead pattern sequence and error placement, on both kinds of stream",
  "Tests look ahead twice on a single error-free stream.",
  ["src/token.rs"], [("restore on drop", "src/token.rs"), ("peek2/peek_n", "src/token.rs")],
  state=[("lookahead buffer", "tokens to put back", "src/token.rs")],
  obs=["TokenStream::{peek,peek2,peek_n,lookahead}", "Lookahead"])

p("C22", "Predefined sequences and lists accept exactly their grammar",
  """Parsing a predefined sequence or list (optional, repeated, non-empty, separated, with optional trailing separator,
  prefixed, quoted, tuple of any arity) (over elements that consume at least one token each)
  succeeds exactly on token sequences its description allows, collects exactly the elements and
  separators that are present in order, consumes exactly its own tokens and leaves the rest; otherwise it returns an
  error.""",
  ["inputs", "programs"],
  "for every token sequence up to a length, every predefined structure and every nesting of two of them",
  "Tests parse one or two token sequences per structure.",
  ["src/ast.rs", "src/parse.rs"], [("parse loops", "src/ast.rs"), ("tuple and container impls", "src/parse.rs")],
  obs=["TokenStream::parse"])

p("C23", "Deciding whether something can be parsed is predictive and side-effect free",
  """Asking whether a structure can start at the current position consumes nothing, emits nothing, gives the same answer
  every time, and is exact for the next token (or the tokens after an optional or mandatory single-token prefix): it is
  true whenever parsing the structure there would succeed, and never true when the structure cannot start with the upcoming tokens. A sequence or
  struct is decided by its first part (and the part after a single-token prefix); a part that may be empty can always start.""",
  ["inputs", "histories", "fault_sequences"],
  "for every predefined structure, derived parser and token sequence up to a length, also when the tokenizer fails",
  "Tests call it on a few tokens; agreement with parsing on every sequence cannot be sampled.",
  ["src/ast.rs", "src/parse.rs", "laps_macros/src/parse.rs", "laps_macros/src/token_ast.rs"],
  [("maybe implementations", "src/ast.rs"), ("generated maybe", "laps_macros/src/parse.rs")],
  obs=["Parse::maybe"])

p("C24", "Derived parsers accept exactly the grammar written by the type",
  """A derived parser for a struct parses its fields in declaration order; for an enum it parses the first variant that the
  upcoming tokens can start (by its first field, or by the declared starting patterns) and otherwise fails with an
  error at the upcoming token. The value built holds exactly the parsed parts, and exactly its own
  tokens are consumed.""",
  ["inputs", "programs"],
  "for every derived type shape (struct/tuple/unit, enum variants, recursive, generic) and every token sequence up to a length",
  "Tests derive a few types and parse a few sequences.",
  ["laps_macros/src/parse.rs", "laps_macros/src/utils.rs"],
  [("generated parse", "laps_macros/src/parse.rs"), ("starts_with handling", "laps_macros/src/parse.rs")],
  obs=["Parse::{parse,maybe} on derived types"])

p("C25", "Token macros map each token pattern to exactly one accepting type",
  """A type defined for a token pattern parses exactly the tokens that match the pattern: it consumes that one token and holds it,
  and fails with an error otherwise; a pattern with a prompt reports the prompt. Values wrapped into a token kind unwrap to
  the same value and to nothing else, and equal kinds display alike.""",
  ["inputs", "programs"],
  "for every declared token pattern against every token kind",
  "Tests check single tokens of three patterns.",
  ["laps_macros/src/token_ast.rs", "laps_macros/src/token_kind.rs"],
  [("generated token AST types", "laps_macros/src/token_ast.rs"), ("generated kind conversions", "laps_macros/src/token_kind.rs")],
  obs=["token_ast!", "token_kind"])

p("C26", "The span of a syntax tree runs from its first to its last token",
  """The span of every parsed predefined structure or derived type runs from the start of its first spanned part to the
  end of its last one, exactly; a structure that may be empty has no span exactly when no part of it has one. Optional,
  nested and trailing parts are no exception.""",
  ["inputs", "programs"],
  "for every structure, derived type and every token sequence it accepts up to a length",
  "Tests compare the spans of two parses.",
  ["src/span.rs", "src/ast.rs", "laps_macros/src/spanned.rs"],
  [("Spanned/TrySpan impls", "src/span.rs"), ("derived Spanned", "laps_macros/src/spanned.rs")],
  obs=["Spanned::span", "TrySpan::try_span"])

p("C27", "Error and warning counters are exact in every history and interleaving",
  """The error and warning totals of a source equal the numbers of errors and warnings ever reported through any span of
  that source, including clones, updated spans and spans used from several threads at once; summaries and informational
  reports do not change them, and spans of other sources are unaffected.""",
  ["histories", "schedules"],
  "for every sequence of span operations up to a depth, and every interleaving of two or three reporting threads",
  "No test counts diagnostics, and a lost update needs a particular interleaving.",
  ["src/span.rs"], [("shared atomic counters", "src/span.rs")],
  state=[("errors/warnings", "per-source totals", "src/span.rs")],
  obs=["Span::{error_num,warning_num,log_*}"])

p("C28", "Diagnostics never fail and point at the right source text",
  """Reporting through a span never panics, whatever the span, the file contents or the state of the file on disk, and the report
  shows the level, message and start location; when the source file can be read and the span runs forward from one
  character of the text to another, it shows the spanned lines (long runs of middle lines may be elided) with their
  line numbers and marks exactly the columns covered by the span, with tabs and wide characters accounted for.""",
  ["inputs", "fault_sequences"],
  "for every small source text over an alphabet with tabs, wide, zero-width and multi-byte characters, and every span in (or beyond) it",
  "No test renders a diagnostic.",
  ["src/span.rs"], [("single- and multi-line rendering", "src/span.rs")],
  obs=["standard error output of Span::log_*"])

p("C29", "Without the logger the library still builds and counts and returns messages",
  """With logging to the terminal disabled by configuration, the library still compiles, prints nothing, keeps exact error and warning totals, and
  every reported error carries its own message and location, so callers can show it themselves.""",
  ["configurations", "histories"],
  "for every feature configuration, and every sequence of reports up to a depth",
  "Tests run only in the default configuration.",
  ["src/span.rs", "src/lib.rs"], [("feature-gated logging", "src/span.rs")],
  obs=["Error", "Span::{error_num,warning_num}"])

p("C30", "A complete front end recognises exactly its grammar",
  """A front end assembled from a derived lexer and derived parsers (such as the documented S-expression example) accepts
  exactly the texts of its grammar, yields the tree the text denotes, and rejects every other text with an error;
  reprinting an accepted tree and reading it again gives the same tree.""",
  ["inputs"],
  "for every text up to a length over the alphabet of the grammar",
  "Tests parse one document; the whole pipeline (reader, lexer, token buffer, derived parser) is never compared with a grammar.",
  ["README.md", "examples/sexp/main.rs", "src/parse.rs", "src/token.rs", "laps_macros/src/parse.rs", "laps_macros/src/tokenize.rs"],
  [("whole pipeline", "src/lib.rs")],
  obs=["TokenStream::parse of the example grammar"])

p("C31", "Every pipeline stage denotes the patterns' language; dumps show the automata",
  """The pipeline may be used stage by stage: the NFA built from an intermediate representation (optimised or not), the DFA built
  from an optimised one (sequentially or in parallel), and the transition table of the DFA each accept exactly the strings of the
  patterns, with the smallest matching tag, when explored through their public edges, states and tags; the DFA is deterministic,
  optimising again changes nothing, and the Graphviz dumps of the automata are well-formed and show exactly their states and edges. Automata assembled
  by hand through the same interface hold exactly the states, edges and final states given to them.""",
  ["inputs"],
  "for every expression and tagged set up to a size bound, in every reachable state of every stage",
  "Tests look at one or two tables; the public NFA and DFA are never run, and the dumps never read back.",
  ["laps_regex/src/mir.rs", "laps_regex/src/nfa.rs", "laps_regex/src/dfa.rs", "laps_regex/src/fa.rs", "laps_regex/src/table.rs"],
  [("stages of the pipeline", "laps_regex/src/lib.rs"), ("dumping automata", "laps_regex/src/fa.rs")],
  obs=["Mir::optimize", "NFA::{fa,tags}", "DFA::{fa,tags}", "FiniteAutomaton::dump", "StateTransTable"])

p("C32", "Spans and their combinations denote exactly the locations they are given",
  """A span starts at 1:0; updating it by a character or byte moves its start to column 0 of the next line for a newline and to the next column
  otherwise, and ends it there; overriding sets both ends; extending it by another span takes over that span's end and nothing else (source and totals
  stay its own); clones are independent; two spans are equal exactly if source, start and end are; a span is in the same line as another exactly if the
  other starts in the line it ends in; it is shown as `line:col-line:col`. Boxes, tuples of every supported size, options and vectors of
  spanned values span from their first to their last present element.""",
  ["histories"],
  "for every sequence of span operations up to a depth, and every combination of the resulting spans",
  "Tests apply two operations to one span; a lost end or a taken-over source needs a particular sequence of operations on several spans.",
  ["src/span.rs"], [("span operations", "src/span.rs")],
  obs=["Span::{new,update,into_updated,update_loc,update_end,into_end_updated,is_in_same_line_as,start,end,eq}", "Spanned::span", "TrySpan::try_span"])

p("C33", "Malformed definitions are refused at compile time, well-formed ones accepted",
  """Definitions given to the derives and macros in the documented forms compile and implement the trait they ask for; definitions in any other form
  (an attribute of the library without, with wrong, or with surplus arguments, bound twice, or on a kind of item, variant or field it does not support;
  several end-of-file variants; unsupported or invalid regular expressions; parsers of the wrong kind; no field that always has a span;
  malformed `token_ast!` heads and arms) are refused with a compile error, and never silently given another meaning.""",
  ["inputs"],
  "for every combination of attribute forms, items, variants, fields and arms of a family",
  "Tests compile a few well-formed definitions; one refusal is tested (in a doc test).",
  ["laps_macros/src/tokenize.rs", "laps_macros/src/parse.rs", "laps_macros/src/spanned.rs", "laps_macros/src/token_kind.rs", "laps_macros/src/token_ast.rs", "laps_macros/src/utils.rs"],
  [("derives and macros", "laps_macros/src/lib.rs")],
  obs=["compile errors of definitions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
