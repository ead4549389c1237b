#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
M = 'crates/postgresql-cst-parser/src/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(obs), 'hook_needed': hook}})


prop('C01', 'Lossless syntax tree',
     'Whenever parsing succeeds, the leaves of the tree, read from left to right, are exactly the bytes of the input: each byte belongs to exactly one leaf, no leaf is empty, and every node spans exactly the text of its children. Bytes outside tokens and comments appear as whitespace leaves that contain only SQL whitespace.',
     ['inputs'], 'every UTF-8 string that parses',
     'The fixtures are a few dozen statements and the snapshot test does not compare text with the source; losing or duplicating text needs particular layouts (comment before an empty rule, trailing blanks, multi-part literals).',
     [M + 'cst.rs', M + 'lexer.rs'],
     [('gaps between tokens recorded as whitespace while shifting, comments recorded when peeked', 'cst.rs parse'),
      ('trivia merged back in position order while the tree is built', 'cst.rs Parser::parse_rec')],
     [('last_pos', 'end of the text already accounted for', 'cst.rs parse'), ('extras', 'pending trivia with positions', 'cst.rs parse')],
     ['parse', 'ResolvedNode::text', 'descendants_with_tokens'])

prop('C02', 'Total: every input gets a tree or an error',
     'For every UTF-8 string parsing returns, in bounded time, either a tree or an error value; it never panics, aborts or loops. Every position carried by an error value lies inside the input, on a character boundary, with start not after end.',
     ['inputs'], 'every UTF-8 string, including control characters, NUL, multi-byte characters, unterminated constructs and out-of-range literals',
     'Tests feed well-formed SQL plus six hand-picked scanner errors; panics need unusual bytes at particular scanner states.',
     [M + 'lexer.rs', M + 'lexer/generated.rs', M + 'lexer/lexer_ported.rs', M + 'lexer/util.rs', M + 'cst.rs', M + 'parser.rs'],
     [('each scanner rule consumes input or changes mode', 'lexer/generated.rs parse_token'),
      ('errors are values (ParserError)', 'lexer/parser_error.rs'), ('token kind to terminal id', 'parser.rs token_kind_to_component_id')],
     [('scanner mode', 'flex start condition', 'lexer.rs Lexer.state')], ['parse'])

prop('C03', 'Token boundaries and kinds follow scan.l',
     'For every input the sequence of tokens and comments -- their kinds and byte ranges -- is the one defined by the PostgreSQL scanner rules: longest match, first rule on ties, per start condition (string continuation, dollar quotes, nested comments, escape strings, operator trimming, number forms, throw-back rules).',
     ['inputs'], 'every UTF-8 string; the scanner has 12 modes, nested comment depth, saved modes and throw-backs',
     'The fixtures exercise common lexemes only; boundaries depend on multi-rule interactions such as +-/*, $a$$b$, 1..2, U&, quote-newline-quote.',
     [M + 'lexer.rs', M + 'lexer/generated.rs', M + 'lexer/util.rs', M + 'lexer/lexer_ported.rs', 'crates/lexer-generator/resources/scan.l'],
     [('DFA tables per start condition and rule actions', 'lexer/generated.rs'), ('longest match', 'lexer/util.rs find_match_len'),
      ('operator trimming', 'scan.l {operator} action'), ('integer or float constant', 'lexer_ported.rs process_integer_literal')],
     [('mode, comment depth, mode before string end, dollar tag', 'scanner state', 'lexer.rs Lexer')],
     ['leaves of the tree', 'verif_hooks::tokens'], 'token list of the scanner (cfg pgcst_verif)')

prop('C04', 'Keyword and identifier classification',
     'An unquoted word is a keyword token exactly when its ASCII-lower-cased spelling is one of the PostgreSQL keywords, and then of that keyword\'s own kind whatever its letter case; every other word, and every quoted word, is an identifier token. Case folding is ASCII-only.',
     ['inputs'], 'every word in every letter case; all 491 keywords, their prefixes, extensions and one-character edits, non-ASCII look-alikes',
     'The fixtures use perhaps half of the keywords in one letter case; a wrong or missing entry for a rare keyword is not seen.',
     [M + 'lexer/generated.rs', M + 'lexer/util.rs', M + 'parser.rs', 'crates/lexer-generator/resources/kwlist.h'],
     [('keyword map', 'lexer/generated.rs get_keyword_map'), ('case folding', 'lexer/util.rs get_keyword'), ('keyword to terminal id', 'parser.rs')],
     [], ['token kinds in the tree', 'verif_hooks::tokens'], 'token list of the scanner (cfg pgcst_verif)')

prop('C05', 'Lexical errors',
     'Input that the scanner rules reject -- unterminated strings, identifiers and comments, bad escapes and surrogates, malformed numbers, empty quoted identifiers, over-long operators -- is reported as the scan error of the first failing construct, with its message and, where it carries one, its position; input the scanner accepts never yields a scan error. A scan error anywhere takes precedence over any syntax error.',
     ['inputs'], 'every UTF-8 string, cut off or corrupted at every position',
     'Six error inputs are tested; there are about twenty error exits reachable from twelve modes at any offset.',
     [M + 'lexer/generated.rs', M + 'lexer/lexer_ported.rs', M + 'lexer/parser_error.rs', 'crates/lexer-generator/resources/scan.l'],
     [('yyerror / ereport actions', 'lexer/generated.rs'), ('surrogate pairing state', 'lexer_ported.rs')],
     [('utf16_first_part, mode xeu', 'pending surrogate', 'lexer.rs Lexer')], ['parse error value'], None)

prop('C06', 'Two-token look-ahead merging',
     'NOT, NULLS, WITH, WITHOUT and FORMAT become their look-ahead variants exactly when the next token, skipping any comments and whitespace, is one of the keywords PostgreSQL lists for it; otherwise, and at the end of input, they stay plain. Identifiers and strings with Unicode escapes reach the grammar as plain identifiers and strings; no other token is altered.',
     ['inputs'], 'every pair of tokens with any trivia between them, at any place in the input',
     'The fixtures contain a handful of the pairs, never with comments in between and never the negative cases.',
     [M + 'lexer/lexer_ported.rs', 'crates/lexer-generator/resources/parser.c'],
     [('token filter', 'lexer_ported.rs init_tokens')], [], ['token kinds in the tree', 'verif_hooks::tokens'], 'token list before and after the filter (cfg pgcst_verif)')

prop('C07', 'Accepted language is that of gram.y',
     'A token sequence is accepted exactly when the PostgreSQL grammar, with its precedence and associativity declarations resolving conflicts, derives it. At every point reached by some valid prefix, the set of tokens that can be accepted next is exactly the grammar\'s.',
     ['inputs'], 'every token sequence: all 6473 parser situations times all 530-odd tokens',
     'The fixtures drive a small part of the 3420 productions and check no rejected statement.',
     [M + 'parser.rs', M + 'cst.rs', 'crates/parser-generator/resources/gram.y', 'crates/parser-generator/src/parser_generator/lalr.rs'],
     [('LALR(1) action and goto tables', 'parser.rs'), ('table lookup with check and default entries', 'cst.rs lookup_parser_action, lookup_goto_state'), ('driver loop', 'cst.rs parse')],
     [('stack of states', 'LR stack', 'cst.rs parse')], ['parse result'])

prop('C08', 'Tree is the grammar derivation',
     'The tree of an accepted input, ignoring trivia, is the derivation of its token sequence in the grammar: every node has the kind of the left-hand side and, in order, the children of one production, nodes that derive no text are absent, and the root holds the derivation of the start symbol.',
     ['inputs'], 'every accepted input, every production and every parser transition',
     'Snapshots cover some statements and are rewritten rather than compared by the test run, so a misplaced or misnamed node passes.',
     [M + 'cst.rs', M + 'parser.rs', M + 'syntax_kind.rs'],
     [('children popped per production and relabelled', 'cst.rs parse, Reduce'), ('production table', 'parser.rs RULES'), ('kind numbering shared by tables and enum', 'syntax_kind.rs')],
     [('stack of nodes', 'partial derivation', 'cst.rs parse')], ['tree kinds and nesting'])

prop('C09', 'Syntax errors point at the first unviable token',
     'When an input scans but does not parse, the error range is that of the first token that cannot continue any sentence starting with the tokens before it, or the empty range at the end of the input if every token is viable. Trivia never receives the error.',
     ['inputs'], 'every rejected token sequence with any trivia',
     'No syntax error is tested at all.',
     [M + 'cst.rs', M + 'parser.rs'], [('error entries of the action table', 'cst.rs parse, Action::Error')], [], ['ParserError::ParseError'])

prop('C10', 'Trivia does not change the meaning',
     'Inserting, removing or replacing whitespace and comments between tokens (keeping the token sequence) changes neither whether an input parses, nor the tree apart from trivia leaves, nor which token an error points to.',
     ['inputs', 'histories'], 'every token sequence and every choice of trivia in every gap',
     'No test relates two inputs; comments are special-cased in three places of the driver.',
     [M + 'cst.rs', M + 'lexer/lexer_ported.rs'],
     [('comments set aside before the table lookup', 'cst.rs parse'), ('comments skipped by the look-ahead filter', 'lexer_ported.rs next_token_index')],
     [], ['parse'])

prop('C11', 'Trivia placement in the tree',
     'Every whitespace run and comment is its own leaf of kind whitespace, line comment or block comment, placed between the two tokens it separates and directly in front of the outermost construct beginning at the following token; only where that construct begins with an elided optional part may trivia that follows the last comment sit inside it. No construct other than the root ends with trivia, and trailing trivia belongs to the root.',
     ['inputs'], 'every accepted input with trivia in any gap, including gaps next to empty productions',
     'The few snapshots with comments are rewritten, not compared.',
     [M + 'cst.rs'], [('start position of a node versus start of pending trivia', 'cst.rs Parser::parse_rec'), ('start of an empty production', 'cst.rs parse, Reduce')],
     [('extras', 'pending trivia', 'cst.rs parse')], ['tree'])

prop('C12', 'Statements compose',
     'Joining inputs that each parse on their own with semicolons gives an input that parses, and its statement subtrees are those of the separate inputs in order; if the k-th input is the first that does not parse on its own (and nothing scans across the join), the joined input fails at the same token, or, where the k-th input ended too early, at the semicolon after it or later, if at all. Empty statements are allowed anywhere.',
     ['inputs', 'histories'], 'every sequence of statements',
     'Each fixture is parsed once as a whole; no test relates a script to its statements.',
     [M + 'cst.rs', M + 'parser.rs', 'crates/parser-generator/resources/gram.y'], [('stmtmulti productions', 'gram.y'), ('end handling', 'cst.rs parse')], [], ['parse'])

prop('C13', 'Both scanner engines agree',
     'The table-driven scanner and the regular-expression scanner (feature regex-match) give the same result -- the same tree or the same error -- for every input.',
     ['inputs', 'configurations'], 'every UTF-8 string, both builds',
     'The suite runs both builds on the same few inputs and compares neither with the other.',
     [M + 'lexer/util.rs', M + 'lexer/generated.rs', 'crates/lexer-generator/src/lexer_generator.rs'],
     [('two find_match_len', 'lexer/util.rs'), ('two parse_token bodies generated from one rule list', 'lexer/generated.rs')], [], ['parse in both builds'])

prop('C14', 'Full derivation without remove-empty-node',
     'Built without the default feature, an accepted input yields the complete derivation, with a node for every production used including those that derive nothing; dropping its empty nodes gives the default build\'s tree up to trivia placement. Errors are identical in both builds.',
     ['inputs', 'configurations'], 'every input, both feature settings',
     'The suite never builds without default features.',
     [M + 'cst.rs'], [('remove-empty-node test', 'cst.rs Parser::parse_rec')], [], ['parse in both builds'])

prop('C15', 'Pattern compiler yields flex semantics',
     'For any list of patterns with start conditions and named definitions, the automaton built for a start condition accepts exactly the byte strings some pattern of that condition matches, and reports the first such pattern in the list.',
     ['programs', 'inputs'], 'every set of patterns in the supported syntax (classes, ranges, negation, escapes, quotes, groups, alternation, *, +, ?, counted repetition, references, end of input) and every byte string',
     'Three small examples are tested.',
     ['crates/automata/src/lib.rs', 'crates/automata/src/nfa.rs', 'crates/automata/src/dfa.rs', 'crates/automata/src/regexp.rs'],
     [('pattern parser', 'regexp.rs'), ('Thompson construction', 'lib.rs build_nfa_from_regex_node'), ('subset construction and rule priority', 'dfa.rs')],
     [], ['to_flex_pattern_dfa', 'DFA::match_bytes'])

prop('C16', 'Parser generator implements LALR(1) with precedence',
     'For any grammar whose conflicts the precedence declarations resolve, the generated tables act, for every token string, as the grammar\'s LALR(1) automaton under yacc\'s rules: a reduction is taken only on look-ahead the grammar allows, shift/reduce conflicts go to the higher precedence, then by associativity, nonassoc ties become errors, and unresolved ones shift.',
     ['programs', 'inputs'], 'every such grammar (nullable symbols, left and right recursion, LALR-but-not-SLR, %prec) and every token string',
     'Only the full PostgreSQL grammar is ever generated, and its result is not compared with anything.',
     ['crates/parser-generator/src/parser_generator/lalr.rs', 'crates/parser-generator/src/parser_generator/bison.rs', 'crates/parser-generator/src/parser_generator.rs'],
     [('item sets merged by core, look-aheads propagated to a fixed point', 'lalr.rs'), ('conflict resolution', 'lalr.rs')],
     [('look-ahead sets', 'per item', 'lalr.rs StateSet')], ['generated parser.rs'])

prop('C17', 'Compressed tables are faithful',
     'The compressed action and goto tables emitted for a grammar answer every (state, symbol) query exactly as the uncompressed automaton does, including error entries, for both lookup functions and without reading outside the tables.',
     ['programs', 'inputs'], 'every automaton, every state and every symbol',
     'Row overlap and the default-action encoding matter only for entries no test visits.',
     ['crates/parser-generator/src/parser_generator.rs', M + 'cst.rs', M + 'parser.rs'],
     [('row displacement with check table and default action', 'parser_generator.rs compress_action_table, compress_goto_table'), ('lookup', 'cst.rs')],
     [], ['generated parser.rs', 'parse'])

prop('C18', 'Committed artefacts match their sources',
     'Running the two generators on the committed grammar, scanner definition and keyword list yields a parser and scanner that behave like the committed ones on every input, and the grammar, precedence and keyword data are those of PostgreSQL as pinned here.',
     ['programs', 'inputs'], 'the committed inputs of both generators; every parser situation and scanner mode of the result',
     'No test runs the generators.',
     ['crates/parser-generator/src/parser_generator.rs', 'crates/lexer-generator/src/lexer_generator.rs', 'crates/lexer-generator/resources/scan.l', 'crates/lexer-generator/resources/kwlist.h', 'crates/parser-generator/resources/gram.y', 'crates/lexer-generator/templates/lex_template.rs', 'crates/parser-generator/templates/parser_template.rs'],
     [('code generation', 'lexer_generator.rs, parser_generator.rs'), ('copied scanner files', 'parser_generator.rs write_file')], [], ['generated files, behaviour of the rebuilt crate'])

prop('C19', 'Grammar and scanner file readers',
     'Reading a yacc grammar gives exactly its tokens, productions, %prec marks and precedence levels whatever comments, actions and layout surround them, and reading a flex file gives exactly its definitions, start conditions, patterns and rule order, with a "|" action sharing the next rule\'s action.',
     ['programs'], 'every file in the format of gram.y and scan.l',
     'Four small examples and the shipped files are read; nothing checks what was dropped.',
     ['crates/parser-generator/src/parser_generator/bison.rs', 'crates/lexer-generator/src/flex_file.rs'],
     [('yacc scanner and parser', 'bison.rs'), ('flex file parser', 'flex_file.rs')], [], ['generated files'])

prop('C20', 'WebAssembly wrapper',
     'The WebAssembly entry point returns, for every input, the indented debug rendering of the tree the parser returns, one line per node and leaf with kind and byte range, or the text "Error: " followed by the debug rendering of the parser\'s error.',
     ['inputs'], 'every UTF-8 string', 'The wrapper has no tests.',
     ['crates/postgresql-cst-parser-wasm/src/lib.rs'], [('parse_sql', 'lib.rs')], [], ['parse_sql'])

prop('C21', 'Parsing is a pure function',
     'The result of parsing depends on the input alone: repeated calls, calls after any other calls (including failing ones), and any number of concurrent calls on different threads give equal trees and equal errors.',
     ['histories', 'schedules', 'inputs'], 'every sequence and interleaving of calls',
     'Each test parses an input once.',
     [M + 'cst.rs', M + 'lexer/util.rs', M + 'lib.rs'], [('all state local to a call', 'cst.rs parse, Lexer::new')], [], ['parse'])

prop('C22', 'Operator precedence and associativity',
     'In an expression, operators group as PostgreSQL documents: each binary, prefix and postfix operator application becomes a nested expression node so that tighter-binding operators are nested deeper, equal levels nest to the left (or right for right-associative ones), non-associative operators do not chain, and parentheses override.',
     ['inputs'], 'every sequence of operands and operators over all precedence levels',
     'A handful of expressions appear in fixtures; there are hundreds of operator pairs in three expression contexts.',
     [M + 'parser.rs', 'crates/parser-generator/resources/gram.y', 'crates/parser-generator/src/parser_generator/lalr.rs'],
     [('precedence declarations', 'gram.y'), ('conflict resolution', 'lalr.rs')], [], ['tree nesting of a_expr'])

prop('C23', 'Command-line tool',
     'The command-line program reads all of standard input and, if it parses, writes the indented debug rendering of the tree the parser returns, followed by a line end, to standard output and nothing to standard error; otherwise it writes the debug rendering of the parser\'s error to standard error and nothing to standard output.',
     ['inputs'], 'every UTF-8 input', 'The program has no tests.',
     ['crates/postgresql-cst-parser/src/bin/parse.rs'], [('main', 'bin/parse.rs')], [], ['standard output', 'standard error'])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
