#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so the file stays schema-valid)."""
import json, os
P = "crates/postgresql-cst-parser/src/"
G = "crates/parser-generator/src/"
A = "crates/automata/src/"
L = "crates/lexer-generator/"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook))
props = [
p("C01", "Parsing any text ends in a tree or an error, never a panic or a hang",
  "For every input string, parsing terminates and returns either a tree or an error value; it never panics, never indexes outside its tables or the text, and never loops forever. Only exhaustion of memory or of the call stack by extremely deep or long inputs is outside the guarantee.",
  ["inputs"], "every UTF-8 string, including malformed SQL, stray bytes such as NUL, multi-byte characters at any position, unterminated literals and out-of-range numbers",
  "Tests parse a few hundred well-formed statements plus six malformed ones; panics sit on inputs nobody wrote down (a multi-byte character after a quote, an unknown character, an overflowing parameter number).",
  [P+"cst.rs", P+"lexer.rs", P+"lexer/util.rs", P+"lexer/lexer_ported.rs", P+"lexer/generated.rs", P+"parser.rs"],
  [("LR driver: every stack pop, table index and goto is within range", P+"cst.rs parse, lookup_parser_action, lookup_goto_state"),
   ("lexer loop: each step consumes input or strictly advances the lexer state", P+"lexer/generated.rs parse_token; "+P+"lexer/util.rs find_match_len"),
   ("token kinds unknown to the grammar become errors", P+"parser.rs token_kind_to_component_id")],
  [("index_bytes/yyleng", "scan position and current match length; always in bounds and on a character boundary", P+"lexer.rs Lexer"),
   ("stack", "LR stack of (state, node); always a path of the automaton", P+"cst.rs parse")],
  ["postgresql_cst_parser::parse"]),
p("C02", "The tree reproduces the input text exactly",
  "Whenever parsing succeeds, concatenating the text of all tokens of the tree in order gives back the input byte for byte, and every node and token covers exactly the range of input its text comes from. Nothing is dropped, duplicated, reordered or altered, wherever whitespace and comments fall.",
  ["inputs"], "every input string that parses, with whitespace and comments at any position, including before the first and after the last token and next to empty grammar nodes",
  "The existing tree tests only check that sample files parse; none compares the tree's text with the input, and placement of comments around empty nodes depends on the whole token history.",
  [P+"cst.rs", P+"lexer.rs"],
  [("gaps between tokens become whitespace entries; extras are merged into the tree by start position", P+"cst.rs parse, Parser::parse_rec, Parser::parse"),
   ("token value is the slice of the input between its start and end", P+"lexer.rs lex")],
  [("last_pos", "end of the last token or comment consumed", P+"cst.rs parse"), ("extras", "whitespace/comment entries in input order", P+"cst.rs parse")],
  ["ResolvedNode::text of the root", "token text ranges"]),
p("C03", "Only SQL whitespace and comments are outside the grammar",
  "In every tree, each token that is not a grammar terminal is either a comment or a run of SQL whitespace characters (space, tab, newline, carriage return, form feed, vertical tab), and each grammar terminal's text is exactly one token of the input. No other input character is ever skipped or absorbed into whitespace.",
  ["inputs"], "every input that parses: any byte that is neither whitespace nor part of a comment belongs to a grammar terminal",
  "Tests never look at what the whitespace tokens contain, so silently skipped characters (e.g. after an embedded NUL) pass.",
  [P+"cst.rs", P+"lexer.rs", P+"lexer/generated.rs"],
  [("only the whitespace rule consumes text without producing a token", P+"lexer/generated.rs parse_token"),
   ("gap between consecutive tokens", P+"cst.rs parse last_pos/extras")],
  [], ["tokens of kind Whitespace, C_COMMENT, SQL_COMMENT"]),
p("C04", "Comments end exactly where PostgreSQL ends them",
  "A line comment runs from two dashes to just before the next line break or the end of input; a block comment runs from its opening to the matching close with arbitrarily nested block comments inside, whatever else it contains. An unterminated block comment is an error, and each comment is exactly one comment token.",
  ["inputs"], "every input, comments with any contents and any nesting depth, directly adjacent to operators, literals or other comments",
  "Nesting depth and contents are unbounded; the samples contain only a handful of simple comments.",
  [P+"lexer/generated.rs", P+"lexer/util.rs"],
  [("comment state with depth counter", P+"lexer/generated.rs parse_token rules 1-8")],
  [("xcdepth", "number of unclosed nested comments", P+"lexer.rs Lexer")],
  ["tokens of kind C_COMMENT and SQL_COMMENT"]),
p("C05", "Quoted tokens span exactly the literal PostgreSQL would read",
  "Every string, bit-string, hex-string, escape-string, Unicode-escape string, dollar-quoted string and quoted identifier is one token that starts at its prefix or opening delimiter and ends at the closing delimiter PostgreSQL's rules define: doubled quotes stay inside character strings and quoted identifiers, backslash escapes count only in E strings, a dollar quote ends at the first repetition of its exact tag, and literals separated by whitespace containing a line break are one literal. Unterminated literals and zero-length identifiers are errors.",
  ["inputs"], "every input; literal contents of any length and any characters, every prefix in either case, every dollar tag, every number of continuation segments",
  "The contents of literals are unbounded and the samples only use short simple ones.",
  [P+"lexer/generated.rs", P+"lexer/util.rs", P+"lexer/lexer_ported.rs", P+"lexer.rs"],
  [("quote states xb, xh, xq, xe, xus, xd, xui, xdolq and the quote-stop state xqs", P+"lexer/generated.rs parse_token rules 9-51"),
   ("end position of multi-part tokens", P+"lexer.rs lex; "+P+"lexer/lexer_ported.rs set_yyllocend")],
  [("state_before_str_stop", "kind of literal being closed", P+"lexer.rs Lexer"), ("dolqstart", "opening dollar tag", P+"lexer.rs Lexer")],
  ["tokens SCONST, BCONST, XCONST, IDENT"]),
p("C06", "Escape sequences in E strings are decoded or rejected as PostgreSQL does",
  "In an E string every well-formed escape is accepted, and a Unicode escape is accepted exactly when it denotes a valid non-zero code point or the first half of a surrogate pair immediately followed by its second half. Every other Unicode escape is reported as an error with the documented message, never accepted silently and never a crash.",
  ["inputs"], "every E-string body; all 16- and 32-bit escape values, octal and hex byte escapes, a backslash before any character, and every way to break off a surrogate pair",
  "The unit tests try four fixed malformed escapes out of 2^32 values and of all the ways to interrupt a pair.",
  [P+"lexer/generated.rs", P+"lexer/lexer_ported.rs"],
  [("escape rules in states xe and xeu", P+"lexer/generated.rs parse_token rules 27-36"),
   ("surrogate classification and combination; code point check", P+"lexer/lexer_ported.rs is_utf16_surrogate_first, is_utf16_surrogate_second, surrogate_pair_to_codepoint, addunicode, is_valid_unicode_codepoint")],
  [("utf16_first_part", "pending first surrogate", P+"lexer.rs Lexer")],
  ["parse result on E strings"]),
p("C07", "Operator characters split into tokens by PostgreSQL's operator rules",
  "A run of operator characters becomes the longest operator that stops before an embedded comment start and, if it contains none of ~ ! @ # ^ & | ` ? %, does not end in + or - unless it is that single character; what remains is returned as the matching punctuation token, the matching named comparison token, or a generic operator. Operators of 64 bytes or more are an error.",
  ["inputs"], "every run of operator characters of any length, followed by anything",
  "There are unboundedly many operator strings; the samples use about twenty common operators.",
  [P+"lexer/generated.rs"],
  [("operator rule with comment search and trailing sign stripping", P+"lexer/generated.rs parse_token rule 62"),
   ("fixed two-character tokens and self characters", P+"lexer/generated.rs parse_token rules 53-61")],
  [], ["tokens Op, single-character tokens, TYPECAST, DOT_DOT, COLON_EQUALS, EQUALS_GREATER, LESS_EQUALS, GREATER_EQUALS, NOT_EQUALS"]),
p("C08", "Numeric literals are classified as PostgreSQL classifies them",
  "A decimal, hexadecimal, octal or binary integer literal, with or without underscores, is an integer constant exactly when its value fits in a 32-bit signed integer, otherwise a float constant; decimals and exponents are float constants; a positional parameter is a dollar sign and digits. Number-like text with trailing junk or a bad radix prefix and a parameter number over 32 bits are errors, and no value overflows or crashes.",
  ["inputs"], "every digit string of any length in every radix, with underscores, signs in exponents, trailing dots and following text",
  "The boundary values, radixes and junk suffixes are unbounded; the samples only use small decimals.",
  [P+"lexer/generated.rs", P+"lexer/lexer_ported.rs"],
  [("integer literal conversion", P+"lexer/lexer_ported.rs process_integer_literal"), ("number rules", P+"lexer/generated.rs parse_token rules 63-77")],
  [], ["tokens ICONST, FCONST, PARAM"]),
p("C09", "A word is a keyword exactly when it is in the keyword list, in any case",
  "An unquoted identifier is a maximal run of identifier characters; it becomes the keyword token of a list entry exactly when it equals that entry ignoring ASCII letter case, and otherwise an identifier. Quoted identifiers are never keywords, and every keyword is known to the grammar under its own kind.",
  ["inputs"], "every identifier, in every mix of upper and lower case and with any non-ASCII characters",
  "The samples use a fraction of the nearly 500 keywords in one or two spellings.",
  [P+"lexer/generated.rs", P+"lexer/util.rs", P+"parser.rs", L+"resources/kwlist.h"],
  [("keyword lookup after ASCII lower-casing", P+"lexer/util.rs get_keyword"), ("keyword table", P+"lexer/generated.rs get_keyword_map"),
   ("identifier rule", P+"lexer/generated.rs parse_token rule 78"), ("keyword token numbering", P+"parser.rs token_kind_to_component_id")],
  [], ["kinds of word tokens"]),
p("C10", "The lexer automata recognise exactly the lexical rules, longest match first",
  "In every lexer state and at every position, the lexer selects the longest prefix matched by any lexical rule of the lexer specification active in that state, and the earliest rule among equally long ones (rules that share one action through '|' count as one). The table-driven matcher and the alternative regular-expression matcher give the same tokens and the same errors for every input.",
  ["inputs", "configurations"], "every input, position and lexer state; both matcher configurations",
  "The tables hold several thousand transitions per state over 256 bytes; tests reach only those the sample files walk through, and no test compares the two matchers.",
  [P+"lexer/generated.rs", P+"lexer/util.rs", L+"resources/scan.l"],
  [("transition and accept tables", P+"lexer/generated.rs TRANSITION_TABLE_*, ACCEPT_TABLE_*, get_dfa_table"), ("matcher loop", P+"lexer/util.rs find_match_len"),
   ("regular-expression rules", P+"lexer/generated.rs get_rules")],
  [], ["token boundaries and kinds"]),
p("C11", "Two-word keywords are recognised by the next real token only",
  "FORMAT, NOT, NULLS, WITH and WITHOUT get their look-ahead token kind exactly when the next token that is not a comment is one of the words PostgreSQL lists for it (JSON; BETWEEN, IN, LIKE, ILIKE, SIMILAR; FIRST, LAST; TIME, ORDINALITY; TIME). No other token changes, and no text or position changes.",
  ["inputs"], "every token sequence, with any comments and whitespace between the two words, at any position including the end",
  "The decision depends on arbitrary token sequences including comments between words; samples cover only some pairs without comments.",
  [P+"lexer/lexer_ported.rs"],
  [("token conversion pass", P+"lexer/lexer_ported.rs init_tokens")],
  [], ["kinds FORMAT_LA, NOT_LA, NULLS_LA, WITH_LA, WITHOUT_LA"]),
p("C12", "Every node of a tree is an instance of a grammar production",
  "In every tree, each inner node's kind is a grammar nonterminal whose children, ignoring comments and whitespace and counting removed empty nodes, are exactly the right-hand side of one production of that nonterminal in the grammar file, in order, with the leaf tokens of matching kind, and the root holds one complete derivation of the start symbol. A text that is not derivable is never accepted.",
  ["inputs"], "every input that parses",
  "Only acceptance of sample files is tested; which productions and children the nodes get is never compared with the grammar.",
  [P+"cst.rs", P+"parser.rs", G+"../resources/gram.y"],
  [("LR driver: pops as many nodes as the rule is long, reverses, pushes the goto state", P+"cst.rs parse"),
   ("action, goto and rule tables", P+"parser.rs ACTION_*, GOTO_*, RULES"), ("table lookup", P+"cst.rs lookup_parser_action, lookup_goto_state")],
  [("stack", "states and nodes; spells a viable prefix of the grammar", P+"cst.rs parse")],
  ["children kinds of every node"]),
p("C13", "The shipped parse tables are those of the grammar file",
  "The parser accepts every statement the grammar file derives under the usual LALR(1) construction with the file's precedence declarations: in every automaton state each token leads to the shift, reduction, acceptance or error that construction prescribes. Tables, rule list, symbol numbering and keyword handling in the shipped parser agree with the grammar file for every entry.",
  ["inputs"], "every (state, terminal) and (state, nonterminal) entry, hence every token sequence",
  "There are millions of table entries; the tests only exercise those reached by the sample statements, and mostly the accepting ones.",
  [P+"parser.rs", P+"cst.rs", G+"../resources/gram.y"],
  [("compressed action and goto tables", P+"parser.rs"), ("decoding of action codes and default actions", P+"cst.rs lookup_parser_action, parse")],
  [], ["acceptance and tree shape"]),
p("C14", "Errors are located at the text that causes them",
  "A syntax error reports the exact byte range of the first token at which no continuation is possible, or the empty range at the end of the input when the input is cut short; everything before that token is a viable prefix. Every position in any error lies within the input on a character boundary with start not after end.",
  ["inputs"], "every input that does not parse",
  "Six fixed erroneous inputs are tested; syntax error ranges are not tested at all.",
  [P+"cst.rs", P+"lexer.rs", P+"lexer/generated.rs", P+"lexer/parser_error.rs"],
  [("error construction in the LR driver", P+"cst.rs parse"), ("scan reports", P+"lexer/generated.rs parse_token, ereport, lexer_errposition")],
  [], ["ParserError fields"]),
p("C15", "Dropping empty nodes changes nothing but empty nodes",
  "With the option that removes empty nodes enabled, the tree is exactly the tree built without it minus the nodes that cover no input text; all tokens, comments, whitespace, their text and order stay the same, and so do all other nodes with the parent relations among nodes and grammar tokens (a comment or whitespace token may hang from a different ancestor). With it disabled, every production instance appears, including empty ones.",
  ["inputs", "configurations"], "every input that parses, in both feature configurations",
  "The test suite runs in one configuration and never compares trees.",
  [P+"cst.rs"],
  [("skipping of nodes with equal start and end; emission of pending comments before a node", P+"cst.rs Parser::parse_rec"),
   ("position given to nodes without children", P+"cst.rs parse")],
  [], ["tree structure in both configurations"]),
p("C16", "Every grammar symbol has its own kind and keeps it everywhere",
  "Terminals, nonterminals, comments, whitespace and the root each have a distinct kind; the kind of every tree element is the one named after its grammar symbol, the numbering used by lexer tokens, parser tables, rules and public kinds agree, and converting a kind to its raw number and back gives the same kind. The generator numbers symbols without collisions or gaps.",
  ["inputs", "programs"], "every one of the roughly 1,260 kinds and every sequence of symbols handed to the generator",
  "Tests name only a handful of kinds; an off-by-one in one numbering mislabels nodes without failing a parse.",
  [P+"parser.rs", P+"syntax_kind.rs", P+"cst.rs", G+"parser_generator/id_mapper.rs"],
  [("token and rule numbering", P+"parser.rs token_kind_to_component_id, rule_name_to_component_id, num_terminal_symbol"),
   ("kind enum", P+"syntax_kind.rs SyntaxKind"), ("symbol numbering", G+"parser_generator/id_mapper.rs IdMapper")],
  [], ["SyntaxKind of every node and token"]),
p("C17", "Table compression preserves every parse table entry",
  "For every set of automaton states, actions and gotos, looking up any state and symbol in the compressed tables the generator writes gives the same shift, reduction, accept, error or goto as the uncompressed tables. Default actions apply only to entries that had that action. (Numeric limits: the codes fit 16 bits without meeting the reserved ones, there are 1 to 32,764 symbols, and every state has an action.)",
  ["programs"], "every action table and goto table whose codes fit the 16-bit entries without meeting the reserved codes (shift targets below 32,765, rules and gotos below 32,767), with an action in every state",
  "The generator has no test of its compressed output; overlapping rows collide only for particular tables.",
  [G+"parser_generator.rs", P+"cst.rs"],
  [("row displacement with check table and default actions", G+"parser_generator.rs compress_action_table, compress_goto_table, find_most_common_action"),
   ("lookup", P+"cst.rs lookup_parser_action, lookup_goto_state")],
  [("offset_used", "offsets already owned by a row", G+"parser_generator.rs compress_action_table")],
  ["compressed tables"]),
p("C18", "The generator builds the LALR(1) automaton with yacc's conflict rules",
  "For every grammar, the generated action and goto tables are those of the LALR(1) automaton: first sets and nullability are the least ones, states with equal cores are merged with the union of their lookaheads, and every shift/reduce conflict is resolved by comparing precedence, then associativity, defaulting to shift, with the earlier rule winning between reductions. No entry is lost or added.",
  ["programs"], "every context-free grammar with any precedence and associativity declarations",
  "Three toy grammars are checked by the number of table entries only.",
  [G+"parser_generator/lalr.rs"],
  [("first sets", G+"parser_generator/lalr.rs build_first_set"), ("closure and state merging", G+"parser_generator/lalr.rs closure, add_state_lalr"),
   ("conflict resolution", G+"parser_generator/lalr.rs build_lalr1_parse_table")],
  [], ["Lalr action_table and goto_table"]),
p("C19", "The grammar file is read completely and literally",
  "For every well-formed grammar file, the generator's rule list contains each alternative of each rule exactly once, in file order, with its symbols in order, classified as terminal or nonterminal correctly and with its precedence override; comments and action code contribute nothing. Precedence levels follow declaration order and associativity follows the declaring directive.",
  ["inputs"], "every grammar file in the subset of the format the PostgreSQL grammar uses: identifiers and character literals as symbols, %prec followed by a name, action code with balanced braces (counted also inside its strings and comments), comments between symbols; no %empty, no escaped quote literals, no directives inside the %{ %} prologue, no comments inside precedence declarations other than a trailing block comment",
  "Three toy grammars exercise a few lines of the reader; nested braces, quotes and comments in actions are not tested.",
  [G+"parser_generator/bison.rs"],
  [("scanner", G+"parser_generator/bison.rs scan"), ("rule and directive readers", G+"parser_generator/bison.rs parse_grammar_rules, parse_assoc, parse_bison")],
  [], ["Bison rules and assoc"]),
p("C20", "Compiling lexer patterns to automata preserves their meaning",
  "For every set of lexer patterns and start states, the automaton built for a start state accepts a byte string for rule r exactly when r is the first of that state's patterns that matches the string under the usual meaning of the pattern syntax. Character classes, repetition bounds, alternation, grouping, escapes, quoting and named definitions keep their meaning.",
  ["programs", "inputs"], "every list of patterns and definitions in the supported syntax (classes and negated classes, '.' for any byte but newline, * + ? {n,m}, alternation of non-empty alternatives, grouping, quoting, octal and hexadecimal escapes, named definitions) and every byte string without NUL",
  "A few fixed patterns are tried on a few strings.",
  [A+"regexp.rs", A+"nfa.rs", A+"dfa.rs", A+"lib.rs"],
  [("pattern parser", A+"regexp.rs RegexpParser"), ("NFA construction and epsilon closure", A+"lib.rs build_nfa_from_regex_node; "+A+"nfa.rs collect_epsilon_closure"),
   ("subset construction and rule priority", A+"dfa.rs DFA::from, select_highest_priority_rule")],
  [], ["DFA::match_bytes"]),
p("C21", "The lexer generator reads its specification completely",
  "For every lexer specification, the lists the generator reads hold each exclusive start state, each named definition and each rule exactly once and in file order: a rule with its pattern, with the start states that apply to it (its own list, else those of the enclosing scope, else INITIAL) and with its action up to the line on which its braces balance. Nothing from C code, options, comments or the code section becomes a state, a definition or a rule.",
  ["inputs"], "every lexer specification in the subset of the format scan.l uses: one name per %x line, definitions beginning with a letter or underscore and a tab after the name, patterns without white space followed by white space and an action, C code between %{ and %} lines, scopes that open with <...>{ and close with } on lines of their own and are not nested",
  "One small specification is read and its lists are compared.",
  ["crates/lexer-generator/src/flex_file.rs"],
  [("section and rule readers", "crates/lexer-generator/src/flex_file.rs parse_flex_file, parse_rules, parse_pattern_actions, parse_actions, skip_c_source")],
  [], ["FlexFile"]),
p("C22", "The lexer generator's tables of a start state recognise exactly that state's rules",
  "For every lexer specification as read, the generator writes one transition table and one accept table per start state, in the order of the states, and these tables accept a byte string for rule r exactly when r is the first of that state's rules whose pattern, with the named definitions expanded, matches it. No rule is missing from or foreign to a state's tables, and the tables' numbers are those of the automaton.",
  ["programs", "inputs"], "every list of states, definitions and rules in the supported pattern syntax (C20's) with at least one rule in every state, at most 255 rules and at most 255 automaton states per start state (the tables' entries are bytes, 255 is the mark for none)",
  "No test builds tables; scan.l's committed tables are only exercised through the parser's tests.",
  ["crates/lexer-generator/src/lexer_generator.rs", A+"lib.rs"],
  [("tables of the states", "crates/lexer-generator/src/lexer_generator.rs construct_dfa; "+A+"lib.rs to_flex_pattern_dfa")],
  [], ["generated TRANSITION_TABLE_n and ACCEPT_TABLE_n"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in props: f.write(json.dumps(q, ensure_ascii=False) + "\n")
