#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

T="src/tokenization.rs"; NT="src/production/non_terminals/"; W="src/production/wrappers/"; TM="src/production/terminals/"; LX="src/lexeme/"
ALLP=[NT+"concat.rs",NT+"union.rs",NT+"suffixes.rs"]+[W+x for x in ("list.rs","separated_list.rs","nullable.rs","node.rs","hidden.rs","look_ahead.rs","validated.rs")]

prop("C01","Tokenization tiles the input and honours lexeme priority",
 "A successful tokenization returns non-empty tokens that cover the input from its first to its last byte without gap or overlap, followed by exactly one zero-width end-of-file token at the end of the input. Every token is the one produced by the first lexeme, in the order they were given, that accepts at that offset. When no lexeme accepts, tokenization fails with an error pointing at exactly that offset; it never loops, skips a byte or panics, and the empty input yields just the end-of-file token.",
 ["inputs","configurations"],"all ordered lexeme sets drawn from a pool of patterns, punctuation sets and constants, times all byte strings up to a length bound over a small alphabet",
 "Tests tokenize a handful of well-formed texts with one lexer each; priority conflicts, failures at every offset, and empty or multi-byte inputs are not enumerated.",
 [T,LX+"pattern.rs",LX+"punctuation.rs",LX+"constants.rs"],
 [("tokenize loop",T),("first accepting lexeme (find_map)",T),("zero-width pattern match guard",LX+"pattern.rs")],
 ["ITokenization::tokenize","DefaultParser::tokenize"])
prop("C02","Literal sets match the longest listed literal and nothing else",
 "A set of literal strings (punctuations or constants, as lexeme or as lexerless symbol) matches at an offset exactly when some listed literal is a prefix of the remaining input, and then takes the longest such literal together with its own token or node value. Listing order never changes the result, and a single literal symbol matches exactly its own bytes. Sets that promise to reject duplicate literals (punctuation sets) do so at construction, and an empty literal is never accepted as a token.",
 ["inputs","configurations"],"all sets (in every listing order) of up to three literals of length <= 3 over a two/three letter alphabet, all inputs up to a length bound, every offset",
 "Longest-match defects need particular prefix relations between literals and a particular continuation of the input; tests use a few operator tables on valid programs.",
 ["src/field_tree.rs",LX+"punctuation.rs",LX+"constants.rs",TM+"punctuation.rs",TM+"constant_field.rs"],
 [("prefix tree insert/find","src/field_tree.rs"),("length-sorted scan",LX+"constants.rs"),("length-sorted scan",TM+"constant_field.rs")],
 ["Punctuations","Constants","PunctuationsField","ConstantField","ConstantFieldSet"])
prop("C03","Lexeme adaptors re-label or gate tokens, never move them",
 "Wrapping a lexeme in a mapper changes only the token value, and does so exactly when the complete matched text equals a mapped key (or the mapping closure returns a value). A middleware gate makes the lexeme accept exactly when the gate approves and the wrapped lexeme accepts. Adaptors never alter the matched span, are given the real input and the tokens produced so far, and compose in any nesting order as the composition of these rules.",
 ["inputs","configurations"],"all stacks of up to three adaptors over a pool of base lexemes and closures, times all inputs up to a length bound",
 "Tests show one mapper and one middleware on one text; nesting, history-dependent gates and near-miss keys are not covered.",
 [LX+"mapper.rs",LX+"middleware.rs",LX+"builder.rs",LX+"mod.rs"],
 [("full-text key lookup",LX+"mapper.rs"),("gate before consume",LX+"middleware.rs")],
 ["ITokenization::tokenize with wrapped lexemes"])
prop("C04","State-switching tokenization equals a pushdown tokenizer",
 "With state actions attached to tokens, the lexemes tried at each offset are exactly those registered for the state on top of the state stack, or for the default state when the stack is empty. Push, pop, switch and no-op actions transform that stack as their names say, each action of an accepted lexeme is applied exactly once and takes effect from the next token on, and a discarding action makes the lexeme count as not accepted so the next one is tried at the same offset. No sequence of actions makes tokenization panic: popping an empty stack makes the lexeme count as not accepted.",
 ["inputs","configurations","histories"],"all assignments of actions to token kinds for up to three states, static or computed, times all inputs up to a length bound",
 "Tests follow two nested template-literal texts; the reachable stack contents under arbitrary action sequences are not explored.",
 [T,LX+"mixin.rs"],
 [("perform_state_action",LX+"mixin.rs"),("analyzer re-selection after each token",T)],
 ["CombinedTokenizer::tokenize"],
 state=[("state stack","pending lexer states, innermost last",T)])
prop("C05","Lexerless parsing equals ordered-choice semantics",
 "For every accepted grammar and every input, parsing without a tokenizer accepts exactly the inputs, and returns exactly the tree, given by the ordered-choice reading of the grammar: sequences match in order, alternatives are tried in order and the first success wins without reconsideration, optional, hidden, node, look-ahead and validation symbols act on that single result. Input left over after the root symbol is not an error; only an explicit end-of-file symbol demands the end. The outcome never depends on anything but grammar and input.",
 ["inputs","programs"],"all grammar expressions up to a size bound over every production utility usable without tokens, and all one- and two-rule recursive systems up to a size bound, times all inputs up to a length bound",
 "Tests parse a few sentences of a few grammars; ordering, backtracking and nullability interactions appear only for particular combinations of utilities and inputs.",
 ALLP+["src/parsing.rs",TM+"constant_field.rs",TM+"regex_field.rs",TM+"punctuation.rs",TM+"eof.rs",TM+"null.rs"],
 [("advance_ptr of each production","src/production/"),("LexerlessParser::parse","src/parsing.rs")],
 ["LexerlessParser::parse","IProduction::advance_ptr"])
prop("C06","Token parsing equals ordered-choice semantics",
 "For every accepted grammar and every token sequence, parsing over the structural tokens accepts exactly the sequences, and returns exactly the tree, given by the ordered-choice reading of the grammar over those tokens. Selecting alternatives by the next token is only an optimisation: it never changes which alternative wins or what an alternative that matches the empty input contributes; an alternative that cannot start with the next token may be skipped without running validations of what matches nothing, and no other validation error is lost. Non-structural tokens never influence the result except through symbols that ask for them.",
 ["inputs","programs"],"all grammar expressions up to a size bound over every production utility usable with tokens, and all one- and two-rule recursive systems up to a size bound, times all token sequences up to a length bound (structural and non-structural kinds)",
 "The token dispatch tables and nullability flags are derived from the whole grammar and cached; tests cover a few deterministic grammars where every alternative starts with a different token.",
 ALLP+["src/parsing.rs","src/filtered_stream.rs",TM+"token_field.rs",TM+"eof.rs",TM+"null.rs"],
 [("advance_fltr_ptr of each production","src/production/"),("first-set dispatch",NT+"union.rs"),("first-set dispatch",NT+"suffixes.rs"),("DefaultParser::parse_stream","src/parsing.rs")],
 ["DefaultParser::parse_stream","DefaultParser::parse"],
 state=[("first-set tables","token -> candidate alternatives, built lazily",NT+"union.rs"),("nullability cells","cached per non-terminal",NT+"mod.rs")])
prop("C07","Raw-token regions see exactly the tokens between structural ones",
 "A symbol that switches to raw tokens is matched against the complete token sequence starting right after the previous structural token (or at the very first token), and parsing of structural tokens resumes where it stood. When the region must be filled, it succeeds only if it consumed every token up to the next structural one. A symbol that switches back to structural tokens starts at the first structural token at or after the current raw position and resumes the raw sequence right after the last structural token it consumed; alternatives inside and outside such regions keep their order.",
 ["inputs","programs"],"all grammar expressions up to a size bound mixing raw-token and structural-token switches with the other utilities, times all token sequences up to a length bound over two structural and two non-structural kinds",
 "One documentation example exercises one raw-token region in mid-input; start-of-input, adjacent, nested and filling regions are never tested (the structural switch is documented as untested).",
 [W+"non_structural.rs",W+"structural.rs",NT+"union.rs",NT+"suffixes.rs","src/filtered_stream.rs"],
 [("raw pointer computation",W+"non_structural.rs"),("filtered pointer computation",W+"structural.rs"),("raw-token dispatch",NT+"union.rs")],
 ["DefaultParser::parse_stream","IProduction::advance_token_ptr"])
prop("C08","Repetition is greedy, non-empty, and handles trailing separators",
 "A list matches its symbol one or more times, greedily, and fails only if the first match fails. A separated list matches symbol (separator symbol)*; a dangling separator is consumed, with its nodes, by an inclusive list and left unconsumed, contributing nothing, by a non-inclusive one. Repetition always terminates, also when the symbol or separator can match nothing, and yields the children of each repetition in order.",
 ["inputs","programs"],"all symbol/separator pairs of grammar expressions up to a size bound, both trailing policies, in all three input modes (bytes, structural tokens, raw tokens), times all inputs up to a length bound",
 "Tests use non-nullable items with one-token separators; multi-token separators that fail half-way, nullable items and nesting are not covered.",
 [W+"list.rs",W+"separated_list.rs"],
 [("List::consume",W+"list.rs"),("SeparatedList::consume",W+"separated_list.rs")],
 ["LexerlessParser::parse","DefaultParser::parse_stream","IProduction::advance_token_ptr"])
prop("C09","Suffix productions pick the first matching tail and wrap it",
 "A suffix production matches its body once, then its tails in order; the first matching tail wins and the children of body and tail become the children of one node with that tail's value, spanning body start to tail end. When no tail matches, a standalone suffix production yields the body alone and a non-standalone one fails. This is the same in all input modes, for tails that can match nothing, and regardless of how tails are pre-selected by the next token.",
 ["inputs","programs"],"all bodies and up to two/three tails up to a size bound, standalone or not, nested and recursive, in all three input modes, times all inputs up to a length bound",
 "Tests use operator-precedence grammars whose tails start with distinct tokens and always consume.",
 [NT+"suffixes.rs"],
 [("advance_* of Suffixes",NT+"suffixes.rs"),("tail dispatch table",NT+"suffixes.rs")],
 ["LexerlessParser::parse","DefaultParser::parse_stream","IProduction::advance_token_ptr"])
prop("C10","Tokenizing and inserting ignorable tokens never change the parse",
 "When each literal of a grammar is one token, tokenize-then-parse and lexerless parsing of the same grammar agree on acceptance, error position and tree for every input. Inserting ignorable (non-structural) tokens between structural tokens leaves acceptance and tree shape unchanged and only shifts positions accordingly, as long as the grammar does not ask for raw tokens. Parsing a text is the same as tokenizing it and parsing the resulting stream.",
 ["inputs","programs"],"all grammar expressions up to a size bound, all inputs up to a length bound, all placements of up to one ignorable token per gap",
 "Two independent code paths (three advance functions per production) must agree on all grammars and inputs; tests compare them only on one JSON text.",
 ALLP+["src/parsing.rs","src/filtered_stream.rs"],
 [("parallel advance functions","src/production/"),("structural filter","src/filtered_stream.rs")],
 ["LexerlessParser::parse","DefaultParser::parse","DefaultParser::tokenize_n_parse"])
prop("C11","Syntax trees are well formed",
 "In every returned tree each node's span is ordered and inside the input; for grammars that do not ask for raw tokens, children lie inside their parent's span in left-to-right order without overlapping, and leaves of terminals carry exactly the matched text span. In token parsing, each node's token bounds are consistent with its byte span: the span starts at the start of the first bound token, a matched token's leaf ends at its end, and a composite node ends at the start of the token bounding it on the right; without a tokenizer there are no bounds. Symbols that match nothing produce zero-width nodes at the current position. The span reported for a match runs from the start of its first node to the end of its last one, and there is none without nodes.",
 ["inputs","programs"],"all grammar expressions up to a size bound in both parsers, times all inputs up to a length bound including ignorable tokens",
 "Span errors show up only in particular nestings (empty symbols at the ends, look-ahead nodes, trailing ignorable tokens); tests mostly print trees without asserting spans.",
 ["src/ast_node.rs",W+"node.rs",W+"nullable.rs",W+"look_ahead.rs",NT+"suffixes.rs",TM+"token_field.rs",TM+"eof.rs",TM+"null.rs"],
 [("node construction sites",W+"node.rs"),("leaf construction sites",TM+"token_field.rs")],
 ["ASTNode.start/end/bound/children of parse results"])
prop("C12","Syntax errors point at the furthest failure",
 "When parsing fails without a validation error, the reported pointer is the end of the furthest text any terminal matched (lexerless) or the start of the first structural token at or after that end (token parsing), so the token named in the message is the first one that could not be consumed. A validation error is reported with exactly its own pointer and message; a tokenization error with the first offset no lexeme accepts. The message is valid text, names the line and column of that pointer, and says end of file exactly when the pointer is at the end.",
 ["inputs","programs"],"all grammar expressions up to a size bound in both parsers, times all failing inputs up to a length bound including adjacent tokens, ignorable tokens, newlines and multi-byte characters",
 "Tests assert that an error occurs, almost never where; off-by-one errors depend on token adjacency.",
 ["src/cache.rs","src/parsing.rs","src/code.rs","src/tokenization.rs","src/filtered_stream.rs"],
 [("create_error","src/cache.rs"),("furthest position tracking (update_index)","src/cache.rs")],
 ["ParseError.pointer","ParseError.message"],
 state=[("max_parsed_point","end of the furthest matched terminal","src/cache.rs")])
prop("C13","Validation errors abort the whole parse",
 "A validation closure runs on exactly the nodes its symbol produced, with the complete input, each time the symbol matches; when it approves, the result is unchanged. When it returns a validation error, that error becomes the result of the whole parse (a validation of an empty match inside an alternative that token parsing skips because it cannot start with the next token does not run): no alternative, optional, list, suffix, look-ahead or memoized symbol around it swallows or replaces it. When it merely declines, the symbol counts as not matched and alternatives are tried.",
 ["inputs","programs"],"all grammar expressions up to a size bound containing validators (approving, declining, failing, text-dependent) at every position, three input modes, times all inputs up to a length bound",
 "Every combinator has its own error-propagation branch per input mode; tests exercise one validator under one parent.",
 [W+"validated.rs",NT+"union.rs",NT+"suffixes.rs",W+"nullable.rs",W+"list.rs",W+"separated_list.rs","src/error.rs"],
 [("is_invalid branches",NT+"union.rs"),("closure call",W+"validated.rs")],
 ["LexerlessParser::parse","DefaultParser::parse_stream"])
prop("C14","Memoization is transparent and evaluates once per position",
 "Wrapping any symbol of a grammar in a memoizing symbol never changes acceptance, tree or reported error position for any input. During one parse, a memoized symbol's content is evaluated at most once per text position or structural token position, and results are never shared between different symbols, positions or parses. The parse cache itself behaves as a map from (key, position) to the last stored result plus a furthest-position mark that never moves backwards.",
 ["inputs","programs","histories"],"all grammar expressions up to a size bound with memoizing symbols at every subset of positions (same expression shared from several places), times all inputs up to a length bound; all cache operation sequences up to a depth",
 "No existing test memoizes anything (keys cannot even be created outside the crate); cache hits need backtracking inputs.",
 [W+"cache.rs","src/cache.rs"],
 [("Cacheable",W+"cache.rs"),("Cache find/insert","src/cache.rs")],
 ["parse results with and without memoization","Cache operations"],
 hook="constructor for the memoization key type")
prop("C15","Grammar validation rejects exactly the unusable grammars",
 "Constructing a parser fails if and only if some reachable rule has no symbols assigned or can reach itself again before consuming any input (a symbol that switches to raw tokens counts as one that may consume none of the structural tokens). The verdict does not depend on the order of rules, on sharing, on which wrappers lie in between, or on earlier validations of overlapping grammars. Validation itself always terminates with a verdict and never panics.",
 ["programs","configurations"],"all systems of up to three mutually referencing rules up to a size bound, with every wrapper on the cycle and every nullable prefix, including unassigned rules",
 "Reachability-before-consumption is a fixpoint over the whole grammar graph; the tests try three tiny hand-written graphs.",
 [NT+"mod.rs",NT+"concat.rs",NT+"union.rs",NT+"suffixes.rs",W+"separated_list.rs",W+"look_ahead.rs","src/parsing.rs",TM+"constant_field.rs"],
 [("validate / has_visited",NT+"mod.rs"),("obtain_nullability",NT+"concat.rs")],
 ["DefaultParser::new","LexerlessParser::new"],
 state=[("nullability cells","lazily cached per rule",NT+"mod.rs")])
prop("C16","Accepted grammars parse every input to a verdict",
 "For a parser that was constructed successfully, parsing any input terminates with a tree or an error: it never loops or recurses without progress (recursion is bounded by the nesting of the input and the size of the grammar), or panics, whatever the nesting of repetition, optional, look-ahead and recursive rules and however malformed the input. This includes empty input, input ending inside a construct, and arbitrary non-text bytes. (A memoizing symbol used inside a raw-token region is outside this guarantee: the library declares that combination unsupported.)",
 ["inputs","programs"],"all validated one- to three-rule systems up to a size bound in both parsers, times all inputs up to a length bound including non-ASCII bytes",
 "A non-terminating combination needs a specific zero-width cycle; tests only run grammars that consume at each step.",
 ALLP+["src/parsing.rs","src/cache.rs","src/filtered_stream.rs"],
 [("progress checks",W+"list.rs"),("progress checks",W+"separated_list.rs"),("construction-time validation","src/parsing.rs")],
 ["DefaultParser::parse","LexerlessParser::parse"])
prop("C17","A parser has no memory",
 "Any sequence of operations on one parser (parsing or tokenizing any inputs, failing or not, printing the grammar, re-validating, parsing streams) gives at each step the result a freshly built parser would give. Results do not depend on which input was seen first, and grammars sharing sub-rules do not influence each other.",
 ["histories","programs"],"all operation sequences up to a depth over a set of operations and inputs, on every grammar of a bounded family and on pairs of grammars sharing rules",
 "Lazily built tables (nullability, token dispatch, line breaks) are written on first use; a test that uses one parser once cannot see order effects.",
 ["src/parsing.rs",NT+"mod.rs",NT+"union.rs",NT+"suffixes.rs","src/code.rs"],
 [("OnceCell tables",NT+"union.rs"),("per-parse cache","src/parsing.rs")],
 ["DefaultParser and LexerlessParser public methods"],
 state=[("lazy cells","first_set, suffix_first_set, nullability, null_hidden",NT+"mod.rs")])
prop("C18","Logging never changes results",
 "Assigning any log level to any lexeme, tokenizer or production symbol changes nothing but the printed output: acceptance, trees, tokens, errors and termination stay identical for every input, and logging never panics. A second log assignment to the same symbol is refused and leaves the first in place.",
 ["inputs","configurations"],"all log levels on every symbol of every grammar of a bounded family (and every lexeme of a lexer family), times all inputs up to a length bound including multi-byte text",
 "Log code runs only when enabled and recomputes positions and slices; tests enable it on one or two successful parses.",
 ["src/logger.rs","src/production/mod.rs",LX+"mod.rs",T],
 [("ProductionLogger","src/production/mod.rs"),("LexemeLogger",LX+"mod.rs")],
 ["set_log / assign_debugger then parse"])
prop("C19","Debug entry points run the chosen symbol at the chosen offset",
 "Running a registered symbol at an offset of a text gives exactly the result of matching that symbol there: the tokenized variant starts at the first structural token at or after the offset, the lexerless variant at the offset itself. A failure reports the furthest failure counted from that offset, and an unregistered name is an error, not a panic. Registering symbols does not affect normal parsing.",
 ["inputs","programs"],"all expressions up to a size bound registered in a parser, all inputs up to a length bound, every offset",
 "Tests call these entry points once or not at all; the offset-to-token translation depends on ignorable tokens around the offset.",
 ["src/parsing.rs","src/filtered_stream.rs","src/cache.rs"],
 [("debug_production_at","src/parsing.rs"),("debug_parser_at","src/parsing.rs")],
 ["DefaultParser::debug_production_at","LexerlessParser::debug_parser_at"])
prop("C20","Line and column of every offset are exact",
 "For every text and every offset up to its length, the reported line is one plus the number of line feeds before the offset and the column is one plus the number of bytes since the last of them; this does not depend on which offsets were asked before. The list of line breaks is exactly the offsets of line feeds in order. The position computed from a text prefix alone equals the position of its end.",
 ["inputs","histories"],"all byte strings up to a length bound over {letter, LF, CR, multi-byte letter}, every offset, every pair of queries",
 "Off-by-one errors appear at offsets on, just before and just after a line feed, at the start and end of input; no existing test asserts a column.",
 ["src/code.rs","src/position.rs"],
 [("line break binary search","src/code.rs"),("prefix position","src/position.rs")],
 ["Code::obtain_position","Code::obtain_line_breaks","Position::from"],
 state=[("line_breaks","lazy line table","src/code.rs")])
prop("C21","Tree queries agree with a pre-order walk",
 "On every tree, listing queries return exactly the matching nodes in pre-order, including the root; find queries return the first of those or nothing; containment is whether any exists; the direct-child query looks only at immediate children and returns the first. A nested query resolves its path step by step, each step searching within the node found before (itself included). Cloning and displaying a tree neither change it nor fail.",
 ["inputs"],"all ordered trees up to a node bound labelled from a small alphabet, all query labels, predicates and paths up to a length bound",
 "Tests look up unique nodes in one tree; duplicates, absent labels and root matches are not covered.",
 ["src/ast_node.rs"],
 [("find_* / list_* / walk_tree","src/ast_node.rs")],
 ["ASTNode query methods"])
prop("C22","Token stream navigation is consistent",
 "The filtered view of a token sequence is exactly its structural tokens in order, each mapping to its place in the full sequence. Lookup by byte offset or by full-sequence index returns the exact token when one starts (or is) there, flagged as exact, and otherwise the next one, flagged as inexact; existence, length, end-of-stream, previous-token, range and pairing queries agree with that view. Any in-range query is total, and none changes the stream.",
 ["inputs","configurations"],"all token sequences up to a length bound over structural and ignorable kinds with varying widths, all offsets, indices and ranges",
 "Navigation helpers are used indirectly by one error path; their boundary cases (offset inside a token, after the last structural token) are never asserted.",
 ["src/filtered_stream.rs","src/wrapper_index.rs"],
 [("binary searches","src/filtered_stream.rs"),("index types","src/wrapper_index.rs")],
 ["TokenStream methods","TokenPtr / FltrPtr arithmetic"])
prop("C23","The bundled JSON grammars recognise exactly JSON shapes",
 "The bundled tokenized JSON grammar accepts a text exactly when it is a sequence of JSON tokens forming one JSON value (one trailing comma is tolerated in an object or array that is not empty), and its tree mirrors the value: objects with one item node per member in order, each with key and value, arrays with their elements in order (an empty one holds a single null leaf), primitives as leaves over their exact text. The bundled lexerless JSON grammar accepts the same texts and yields a tree of the same shape, with the same spans when no whitespace is inserted. Both report errors rather than panic on every other text.",
 ["inputs"],"all sequences of JSON tokens up to a length bound (with and without whitespace between them) and all byte strings up to a length bound over JSON punctuation",
 "Tests parse a few valid documents; rejection and tree shape over all short token sequences are not checked.",
 ["src/examples/json/tokenized.rs","src/examples/json/lexerless.rs"],
 [("json_grammar","src/examples/json/tokenized.rs"),("json_lexerless_grammar","src/examples/json/lexerless.rs")],
 ["examples::json parsers"])
prop("C24","Printed grammars list every reachable rule once",
 "The printed grammar of a parser starts with a line naming the start symbol and then contains each reachable named rule exactly once, with all its symbols or alternatives in order, and printing always terminates, also for recursive grammars. Printing is deterministic and does not depend on earlier use of the parser. The tokenizer's part lists every lexeme pattern under its state.",
 ["programs"],"all one- to three-rule systems up to a size bound, each rule a sequence, choice or suffix production reached through every wrapper",
 "Reachability through each kind of symbol is separate code; tests only print one grammar to the console.",
 [NT+"concat.rs",NT+"union.rs",NT+"suffixes.rs",W+"node.rs",W+"hidden.rs",W+"separated_list.rs","src/lib.rs",T],
 [("impl_grammar","src/production/"),("build_grammar","src/lib.rs")],
 ["DefaultParser::grammar","LexerlessParser::grammar","ITokenization::build_grammar"])
prop("C25","Every way of building a grammar means the same",
 "A rule declared first and given its symbols later behaves exactly like one built at once, and the fluent builder methods behave exactly like the corresponding constructors, for every grammar and input. Assigning symbols a second time is refused and leaves the first assignment in force. Sharing one symbol object between several places behaves like using separate equal copies.",
 ["programs","histories"],"all grammar expressions up to a size bound built by each construction route and sharing pattern, times all inputs up to a length bound",
 "Tests use one route per grammar and never compare routes.",
 ["src/production/builder.rs",NT+"concat.rs",NT+"union.rs",NT+"suffixes.rs",LX+"builder.rs"],
 [("set_symbols / set_suffixes",NT+"concat.rs"),("builder methods","src/production/builder.rs")],
 ["LexerlessParser::parse","DefaultParser::parse_stream"])
prop("C26","Debug and release builds behave the same",
 "For every grammar, lexer and input, a build with debug assertions and a build without return the same tokens, trees, error positions and construction verdicts (only the wording of the offending token in an error message is more detailed in debug builds). Debug instrumentation only adds output or assertions on conditions that never fail for valid use.",
 ["inputs","programs","configurations"],"the bounded families of grammars, lexers and inputs of the other properties, executed in both build profiles and compared result by result",
 "The test suite runs in one profile; code under debug-only or release-only conditions is never compared.",
 ["src/","src/production/","src/parsing.rs","src/cache.rs"],
 [("cfg(debug_assertions) blocks","src/")],
 ["all public results in both profiles"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
