"""Which slice of the contracts decides which property."""
ALL_MODULES = ["alter", "create", "data_type", "delete", "drop", "expression", "identifier", "insert_replace", "issue",
               "keywords", "lexer", "parser", "qualified_name", "rename", "select", "span", "sstring", "statement",
               "truncate", "update", "vx", "with_query"]
LEVEL = {}
ASSUME = [
    "usize and the other machine integers are verified as machine integers; no arithmetic is treated as mathematical in executable code",
    "the source text is at most usize::MAX bytes (it is a &str, so at most isize::MAX)",
]
PROPS = {
    "P03": dict(tags=[], modules=["lexer", "vx"], secs=8, key=["lexer::Lexer::next_token"], assumptions=ASSUME),
    "P11": dict(tags=[], modules=["lexer", "keywords", "vx"], secs=8, assumptions=ASSUME),
    "P15": dict(tags=[], modules=["lexer", "vx"], secs=8, assumptions=ASSUME),
    "P08": dict(tags=["strs", "min"], modules=["parser", "sstring", "vx"], secs=8, assumptions=ASSUME),
    "P01": dict(tags=["wf"], modules="all", secs=12, assumptions=ASSUME),
    "P04": dict(tags=["wf"], modules="all", secs=8, assumptions=ASSUME),
    "P05": dict(tags=["wf"], modules="all", secs=8, assumptions=ASSUME),
    "P20": dict(tags=["min"], modules=["span", "vx"], secs=4, assumptions=ASSUME),
    "P02": dict(tags=["wf", "term"], modules="all", secs=8, assumptions=ASSUME),
    "P06": dict(tags=["err", "clean"], modules="all", secs=8, assumptions=ASSUME),
    "P07": dict(tags=["state", "min"], modules="all", secs=8, assumptions=ASSUME),
    "P12": dict(tags=["state", "min"], modules="all", secs=8, assumptions=ASSUME),
    "P13": dict(tags=["state", "min", "err", "args"], modules="all", secs=8, rlimit=40, assumptions=ASSUME),
    "P16": dict(tags=["names"], modules="all", secs=8, assumptions=ASSUME),
    "P19": dict(tags=["names", "warns", "min"], modules="all", secs=8, assumptions=ASSUME + ["Keyword::reserved is a function of the keyword (its table is not part of this property)", "noninterference is composed from the contracts: the three functions which read the options are shown to return, read and report errors independently of them; no other function may read them or the list of issues (a verified precondition false at every such read)"]),
    "P17": dict(tags=["names", "kwds"], modules="all", secs=8, assumptions=ASSUME + ["the tables in tools/kwds.py (which keywords each node stands for) are the specification; they were written from the node names and the SQL grammar"]),
    "P09": dict(tags=["names", "prec"], modules="all", secs=8, key=["vx::l_unique", "expression::parse_expression"], assumptions=ASSUME + ["the table of precedences (bprio, uprio, pprio in contracts/prelude9.rs) is the specification; it was written from the MariaDB manual"]),
    "P18": dict(tags=["err", "clean", "dial"], modules="all", secs=8, assumptions=ASSUME),
    "P14": dict(tags=["wf", "err"], modules=["parser", "vx"], secs=8, assumptions=ASSUME),
}

TRUST = " Trusted: Verus and Z3, the extractor's listed rewrites, the assumed contracts of the standard library functions listed in the evidence (trusted_base)."
NOTES = {
    "P01": "Proof, for every text, dialect and option setting: every function of the crate, the scanner and the Spanned implementations included, is verified free of arithmetic overflow, failed unwrap, unreachable!, index out of range and slices off a character boundary. Not covered: stack exhaustion by deep nesting (known finding). Rendering of the issues by Display is included; writing to the formatter is opaque." + TRUST,
    "P04": "Proof, for every text: every span in a returned tree, of any node and of every issue and fragment satisfies span_ok (ordered, inside the text, on character boundaries); every quoted fragment is the slice of its span." + TRUST,
    "P05": "Proof, for every tree with valid spans: the span computed by Spanned/OptSpanned for each node type covers the spans of all its parts (generated from the type definitions), and no span means no part has one." + TRUST,
    "P20": "Proof: join_span, opt_join_span and the implementations for lists, tuples, options and boxes return exactly the hull of the parts, and none exactly if no part has one." + TRUST,
    "P03": "Proof, for every source text: Lexer::next_token returns the token and span of the lexical grammar written as a specification (skip, tok_rel), with no bound." + TRUST,
    "P02": "Proof, for every text: every loop and every recursion of the crate has a measure (tokens and characters left, then the rank of the function in the call graph) which the verifier shows to decrease; so every call returns, without bound on the text. Functions that promise progress (returning Ok or Some uses up at least a token) are verified to make it." + TRUST,
    "P06": "Proof, for every text: each parsing function that returns Err, None where a statement was due, or a tree containing an Invalid node has added an issue of level error; the statement functions end at the end of the text or have added one. unwrap is assumed to return here (shown in P01)." + TRUST,
    "P07": "Proof, for every text: every parsing function, and parse_statement and parse_statements themselves, leaves the issues reported before in place and in order; the functions that report an issue or add a fragment append exactly one with the given level, message and span." + TRUST,
    "P12": "Proof, for every text: every parsing function below the statement list leaves the statement delimiter, the permission for compound statements and the options as it found them, whether it succeeds or fails; only the DELIMITER command changes the delimiter. That the text of one statement then parses in the same way follows as the parser has no other mode; the search compares real parses of pairs of statements." + TRUST,
    "P13": "Proof, for every text: a ghost counter of the positional placeholders read (updated in Parser::next) equals the argument counter at the entry and exit of every parsing function unless an error was reported or placeholders were chosen as delimiter; each placeholder node is built with the number of the placeholder just read, its span, and only for the style of the options ($n: number n - 1)." + TRUST,
    "P08": "Proof, for every text: decode_quoted_string computes the decoding function dec_str given as a specification, and consume_string returns the decodings of all the adjacent string tokens (taken from a ghost log of the tokens read), in order, with the span from the first to the last." + TRUST,
    "P16": "Proof, for every text: each Identifier in a tree returned by any parsing function, and in the results of parse_statement and parse_statements, carries exactly the source text of its span, or what stands between the quotes there; the parser invariant ties the text of each name token to its span, which follows from the lexical grammar proved for the scanner." + TRUST,
    "P19": "Proof, for every text: the functions that read the warning options consume, return and report errors as determined by the tokens alone, and add one warning, with the span of the token, exactly if the option is on and the name is unquoted (the keyword has a small letter); any other read of these options, or of the issues, has a precondition that fails; each name put into a tree is quoted or has been reported when asked for. The wording of the warnings is not covered by the proof." + TRUST,
    "P18": "Proof, for every text and dialect: a tree that contains a construct of other dialects (a table of conditions on the node types) is returned only with an error reported; the reading of a backquoted or double quoted name likewise; a read of the dialect by any function other than those concerned has a precondition that fails. That a construct is accepted without an error in its own dialect, and operator classes and function bodies in AS $$, which leave nothing in the tree, are covered by the bounded search only." + TRUST,
    "P11": "Proof, for every word: the keyword table equals the table read off the keyword names, and the scanner applies it to the upper-cased word." + TRUST,
    "P09": "Proof, for every text: an expression returned by parse_expression is the tree of the operands and operators read between its first token and the token after it (each once, in order, without a gap), grouped by the table of precedences with equal precedence to the left (predicate gok, via an invariant of the operator stack); an operand with an operator at its top was read between parentheses; the operator of a node is the one written at its span. A lemma (l_unique) shows that this determines the tree." + TRUST,
    "P17": "Proof, for every text: each node of a tree returned by a parsing function stands for the keywords that are written at its spans (a table of conditions on the node types: data types, join kinds, operators, functions, options, actions); a flag is set only by its keyword. That no keyword is read and then dropped from the tree is covered by a bounded search over a list of statements only." + TRUST,
    "P14": "Proof, for every digit string: consume_int yields the parsed value or reports an error. str::parse is assumed to be exact." + TRUST,
    "P15": "Proof, for every text: read_from_stdin returns the block up to the end marker as specified by stdin_data." + TRUST,
}
NB = "not built yet"
NOT_APPLICABLE = {"P%02d" % k: NB for k in range(1, 21)}
