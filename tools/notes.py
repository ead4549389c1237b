"""Per claimed property: deciding method and what it rests on (read by mkmanifest.py)."""
TV = 'TLA+ specification checked with TLC: '
NOTES = {
 'C01': (TV + 'Lossless.tla judges every leaf sequence and span of trees recorded from the real parser; sentences generated from the grammar specification with trivia in every gap, plus random mixtures',
         'Each recorded tree is decided in full by the specification; inputs are generated to cover every production and every gap kind.'),
 'C02': (TV + 'Total.tla (every call ends in a tree or an in-range, char-boundary error) over outcomes of the real parser on adversarial inputs, each run in its own process with a time limit',
         'Outcome set is exhaustive per call, inputs are generated: mode-boundary bytes, cut-offs, literals, deep nesting (K1 is the recorded finding).'),
 'C03': (TV + 'trace validation of recorded token lists against the scanner state machine Scanner.tla; exhaustive small alphabets, boundary families, random mixtures; design invariants of Scanner.tla model-checked (ScanMC)',
         'Every recorded scan must be a behaviour of the scanner state machine, token by token. Trusts the transcription of scan.l in Scanner.tla and the guarded hook that lists the tokens.'),
 'C04': (TV + 'trace validation against Scanner.tla with the pinned keyword table; all keywords x cases x contexts, edits, all words up to three letters',
         'Exhaustive over keywords; sampled over the other words. Trusts the pinned keyword list.'),
 'C05': (TV + 'trace validation of outcomes against Scanner.tla (scan error with message and position, or none), public API only',
         'Every outcome must be the one the state machine ends with; inputs are cut off and corrupted at every position.'),
 'C06': (TV + 'FilterTrace.tla: the token list handed to the grammar must be Filter(scanned tokens) for all token pairs and trivia',
         'Exhaustive over (look-ahead word, next token) pairs; sampled contexts. K2 (UESCAPE) is the recorded finding.'),
 'C07': (TV + 'ParseTrace.tla/Viable.tla: the LALR(1) machine of the pinned grammar (computed independently, decided in TLC) must accept the same sentences and allow the same next tokens as the real parser',
         'All automaton states and transitions are visited by generated sentences; next-token sets are compared for the states visited.'),
 'C08': (TV + 'trace validation: the tree recorded from the real parser must be the derivation the LR machine ParseTrace.tla builds for its token list',
         'Sentences cover every production and every automaton transition.'),
 'C09': (TV + 'trace validation: the error range must be that of the token at which the machine of ParseTrace.tla stops',
         'Generated sentences are truncated, and have tokens inserted, deleted and replaced, with trivia around the error.'),
 'C10': (TV + 'Trivia.tla relates recorded results of inputs with equal token lists and different trivia (2-safety)',
         'Pairs are generated from covering sentences and error inputs; every kind of trivia at every gap.'),
 'C11': (TV + 'ParseTrace.tla states where each trivia leaf goes; recorded trees must agree node by node',
         'Sentences cover every production, trivia in each gap kind including before empty productions.'),
 'C12': (TV + 'Compose.tla relates the recorded result of a joined script to those of its statements',
         'Generated scripts over covering statements, failing statements and empty statements.'),
 'C13': (TV + 'Agree.tla over the results of the two builds (table scanner, feature regex-match), and Scanner.tla on both token lists',
         'Same inputs as C03 and C05 through both builds.'),
 'C14': (TV + 'ParseTrace.tla complete derivation against the tree of the build without default features; Agree.tla between the two builds',
         'Sentences cover every production, including all that derive nothing.'),
 'C15': (TV + 'Pattern.tla gives patterns their meaning by derivatives; PatternMC.tla explores the product of the derivatives with the automata the real automata crate built, over every byte class',
         'For each pattern list the agreement is decided for all byte strings; pattern lists are enumerated up to four symbols, generated beyond, and include all of scan.l.'),
 'C16': (TV + 'Lalr.tla builds the LR(0) sets, LALR(1) look-aheads and precedence decisions of a grammar; LalrMC walks that automaton in step with the tables the real generator emitted (every situation, every symbol) and replays token strings on the parser built from them',
         'Grammars are curated (LALR-not-SLR, nonassoc, %prec, nullable, unit chains) and random; per grammar every reachable situation is decided.'),
 'C17': (TV + 'TableMC.tla: the committed tables, as the real look-up functions answer, against the automaton of the pinned grammar in every state and for every symbol; LalrMC for the tables of generated grammars',
         'All 8 million look-ups of the committed tables are decided; the automaton of the pinned grammar comes from tools/lalr.py (trusted; Lalr.tla certifies the construction on small grammars).'),
 'C18': (TV + 'GramFile.tla reads gram.y and kwlist.h lexeme by lexeme against the pinned data; TableMC, ScanTrace and Agree compare the tables, scans and parses of the committed crate and of the crate rebuilt from the generators output',
         'One program pair: tables exhaustively, scans and parses over generated inputs. The pinned data are those of the pinned commit.'),
 'C19': (TV + 'Yacc.tla and FlexFile.tla give grammar and scanner files their meaning; the parser (LalrMC) and scanner (FlexMC) that the real generators produce from generated files must act accordingly',
         'Files are generated in the format of gram.y and scan.l: comments, actions, layout, prolog and epilog noise, start conditions, blocks, "|" actions.'),
 'C20': (TV + 'Render.tla states the rendering of a tree or error; the bytes returned by parse_sql (native build of the wrapper crate) must equal it',
         'parse_sql itself is called natively; the wasm-bindgen glue is not exercised.'),
 'C21': (TV + 'Pure.tla: a history of calls (sequential, after failures, concurrent threads) is explained by one function from input to result',
         'Histories are generated; thread schedules are those the operating system produced.'),
 'C22': (TV + 'Expr.tla computes the grouping of operator sequences from the documented precedence table; recorded expression nesting must agree',
         'All pairs and triples of operator levels in a_expr and b_expr contexts, sampled longer ones.'),
 'C23': (TV + 'Render.tla: what the program writes to both streams must be, character by character, the rendering of the tree or error the parser returns',
         'Every run is decided in full by the specification; inputs are sampled from covering sentences, damaged ones, lexical families and long inputs.'),
}
