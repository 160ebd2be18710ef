GEN = "assurance is that of a generated search, not a proof; trusts the harness (reference model, generators) and the Go toolchain"

prop('C01', 'An accepted source gets a tree that is a derivation of the grammar',
 'When parsing succeeds with the full-source option, the tree reported through node hooks is a derivation of the described grammar: its root is the first described node, every node\'s children form a sequence its definition allows, and its leaves are exactly the non-side tokens of the source, in order. This holds for every accepted grammar, ambiguous ones included. Tokens that end the input ($) may appear only where the definition allows them.',
 ['inputs', 'programs'], 'all grammar descriptions (any nesting of alternatives, groups, optional and repeated parts, several nodes, recursion) and all token sequences',
 'the tests parse a few dozen fixed grammar/source pairs; the claim is about every grammar the description language can express',
 ['langdef/parser.go', 'langdef/chunks.go', 'langdef/result.go', 'parser/parser.go'],
 [('states and rules built from description chunks', 'langdef/chunks.go BuildStates'), ('rule lookup and node stack', 'parser/parser.go parse, applyRule, popNode')],
 ['node hooks calls'], 'property-based testing: random grammars and sentences, derivation checker as oracle', GEN + '; shapes of known finding KF-LOOP are excluded by construction')

prop('C02', 'LL(1) grammars: exactly the described language is accepted, same tree',
 'For a grammar in which one token of lookahead decides every choice, parsing with the full-source option succeeds exactly for the sentences of the grammar and reports their unique derivation tree. Any other source is rejected with a syntax error located at the first token that cannot continue a sentence: unexpected end of input, unexpected token, or remaining source after a complete sentence.',
 ['inputs', 'programs'], 'all LL(1) grammars with non-empty nested nodes and all token sequences, with end-of-input tokens, reserved words, caseless and grouped token types',
 'tests sample a few grammars with a few accepted and rejected strings each; nothing compares with an independent definition of the language',
 ['langdef/parser.go', 'langdef/chunks.go', 'parser/parser.go', 'grammar/grammar.go'],
 [('first-token sets', 'langdef/parser.go resolveDependencies'), ('fallback rules for optional parts', 'langdef/chunks.go groupChunk.BuildStates'), ('error reporting', 'parser/errors.go')],
 ['parse result', 'llx.Error code and position'], 'property-based testing: differential against a predictive reference parser', GEN + '; KF-LOOP shapes excluded by construction')

prop('C03', 'Conflicting alternatives are resolved by looking ahead as far as needed',
 'When several alternatives of a definition start alike, the parser looks ahead over any number of tokens until one remains, so a source following any one alternative is accepted and gets the tree of that alternative, no matter in what order the alternatives are written. An alternative may also be a start of another one: the longest one that fits is taken. Tokens looked at are neither lost, duplicated nor reordered, and a source that follows none of them is rejected at the first token that fits none.',
 ['inputs', 'programs'], 'all grammars with choices whose alternatives share prefixes of any length (plain sequences, groups, nested nodes, repetitions) and are told apart by a later token inside the choice or by what follows the node; optional and repeated parts are matched greedily',
 'tests have a handful of ambiguous grammars with at most a few tokens of lookahead; number, order and nesting of competing alternatives matter',
 ['parser/parser.go', 'parser/misc.go', 'internal/queue/queue.go'],
 [('parallel exploration of branches', 'parser/parser.go resolveConflict'), ('branch copies', 'parser/misc.go Split'), ('saved tokens and rules', 'parser/parser.go nextRule')],
 ['parse result', 'llx.Error'], 'property-based testing: random prefix-sharing choices, backtracking reference recognizer as oracle', GEN)

prop('C04', 'Literals win over token types, reserved words are literals only',
 'Among the parts of a group that may come next (optional ones and the one after them) a token is matched first as the literal with its text, then by its token type, and only if neither fits an optional rest of the group is skipped; a token whose text is a reserved word is never matched by its type. Text of a case-insensitive type is compared in upper case, and a type excluded from literal matching is matched by type only.',
 ['inputs', 'programs'], 'all combinations of literals, token types, reserved words, case-insensitive and non-literal types expected at the same point, and all token texts',
 'tests use single fixed grammars for reserved, caseless and literal directives; combinations are not sampled',
 ['parser/parser.go', 'langdef/parser.go'],
 [('rule keys by priority', 'parser/parser.go possibleRuleKeys, findRules'), ('literal and reserved directives', 'langdef/parser.go parseLiteralDir, parseReservedDir')],
 ['parse result'], 'property-based testing: random choice tables, priority model as oracle', GEN)

prop('C05', 'Parsing any source ends with a result or a located error',
 'For every accepted grammar and every sequence of bytes split into any number of sources, parsing ends, does not crash, and gives either a result or an llx error that is a lexical error, an unexpected token, an unexpected end of input, or (with the full-source option) text left after the root node. Every such error except for an unexpected end of input has a source name, line and column that denote a place inside the given sources.',
 ['inputs', 'programs'], 'all accepted grammars, ambiguous and hard ones included, and all byte sequences including invalid UTF-8 and empty sources',
 'tests only feed well-formed text and a few hand-written wrong samples',
 ['parser/parser.go', 'lexer/lexer.go', 'source/source.go'],
 [('error construction', 'parser/errors.go, lexer/lexer.go'), ('expected token lookup', 'parser/parser.go getExpectedToken')],
 ['parse result', 'llx.Error'], 'fuzzing with generated grammars and byte strings, totality oracle with a watchdog', GEN + '; parsing is bounded by a context that counts steps')

prop('C06', 'A compiled grammar contains exactly what the description declares',
 'Compiling a correct description gives the declared token types in order of definition with their expressions, groups and flags, then external types, then literals; nodes with the first defined one as root; and hook layers with their commands and arguments in order. The state table is well-formed: all indexes are in range, entries are sorted, the rules of each node describe exactly the sequences its definition allows, and every state lists exactly the token types that can match its rules plus side types.',
 ['programs'], 'all correct descriptions: any order of directives and definitions, templates, groups, layers',
 'tests compare compiled output for a few tiny descriptions',
 ['langdef/parser.go', 'langdef/result.go', 'grammar/grammar.go'],
 [('directive handling', 'langdef/parser.go parseDir'), ('token groups', 'langdef/parser.go assignTokenGroups, assignStateTokenTypes'), ('state serialization', 'langdef/result.go BuildGrammar')],
 ['grammar.Grammar'], 'property-based testing: random descriptions, declared content as oracle, structural invariants', GEN)

prop('C07', 'Wrong grammar descriptions are rejected with the documented error',
 'A description that breaks one of the documented rules (unknown or side token in a definition, redefinition, undefined or unused node, left recursion, unresolvable nodes, bad expression, bad escape, unknown template or directive, literal that is not allowed or that no token type can produce, reassigned group, undefined token, syntax error, premature end) is rejected with the error code of that rule, located at the offending token where the rule has one. Compiling any text whatsoever ends without a crash, and gives either a grammar or an llx error of the description or lexical class located inside the text.',
 ['inputs'], 'all texts; all ways to inject one rule violation into a correct description',
 'tests have one or two fixed samples per error code',
 ['langdef/parser.go', 'langdef/errors.go'],
 [('validation passes', 'langdef/parser.go Parse'), ('error codes', 'langdef/errors.go')],
 ['llx.Error code, line, column'], 'property-based testing: violation injection with expected code and place; byte-level fuzzing for totality', GEN)

prop('C08', 'The way a description is written does not affect the grammar',
 'Descriptions that differ only in spaces, line breaks, comments, quoting style of literals, expressions split into templates, directives split or moved, order of nodes, or redundant grouping brackets compile to the same grammar up to numbering of states, nodes and literals. Compiling the same text again gives an identical grammar.',
 ['inputs', 'programs'], 'all correct descriptions and all compositions of meaning-preserving rewrites of their text',
 'tests have a fixed text for each construct',
 ['langdef/parser.go'],
 [('description lexer', 'langdef/parser.go llxLexer'), ('escapes', 'langdef/parser.go processStringToken'), ('templates', 'langdef/parser.go fetchRegexp')],
 ['grammar.Grammar'], 'metamorphic property-based testing: equivalent rewrites of descriptions', GEN)

prop('C09', 'Tokens cover sources exactly, in order, with true positions',
 'Tokens fetched from a queue of sources, side tokens included, are consecutive pieces of the sources: concatenated they give back every byte that is not insignificant, each token\'s source, offset, line and column denote where its text is, an end-of-file token follows each non-empty source, and then end-of-input tokens follow forever. With the option to pass side tokens node hooks see the whole source text up to the end of the root node, in order, exactly once.',
 ['inputs', 'programs'], 'all token definitions that cover the text, and all sequences of sources',
 'tests use a couple of fixed strings',
 ['lexer/lexer.go', 'lexer/token.go', 'source/source.go', 'parser/parser.go'],
 [('fetching', 'lexer/lexer.go fetch, matchToken'), ('side token delivery', 'parser/parser.go handleNodeSides')],
 ['lexer.Token', 'node hooks'], 'property-based testing: round-trip of token texts, independent position computation', GEN)

prop('C10', 'The lexer picks the first fitting type of the first fitting group',
 'At each position the lexer returns the first defined of the token types whose expressions match there, as if expressions were tried in order of definition, with types of separate groups tried group by group, and only if a type of the group is expected. Text matching an error type is reported as a bad token with its text and place, text matching nothing as a wrong character with the rune and place, and a failed fetch leaves the position unchanged.',
 ['inputs', 'programs'], 'all sets of expressions, orders, groups, sets of expected types, and texts',
 'tests check a few fixed expressions',
 ['lexer/lexer.go', 'parser/parser.go'],
 [('combined expression', 'parser/parser.go New'), ('type masks', 'lexer/lexer.go NextOf'), ('groups', 'parser/parser.go fetchToken')],
 ['lexer.Token', 'llx.Error'], 'property-based testing: per-expression reference matcher as oracle', GEN)

prop('C11', 'Offsets and line/column pairs convert both ways',
 'For every valid UTF-8 content, line and column of an offset count line feeds before it and runes from the line start, converting back gives the offset of that rune, and out-of-range arguments are clamped as documented. The answer depends on the argument only, never on earlier questions.',
 ['inputs', 'histories'], 'all contents, all offsets, lines and columns, and all sequences of queries to the same source',
 'tests query a few offsets in a few fixed orders, the cached line index depends on history',
 ['source/source.go'], [('line index with cache', 'source/source.go findLineIndex')],
 ['Source.LineCol, Source.Pos, Pos'], 'property-based testing: random query histories against a scanning model', GEN)

prop('C12', 'A source queue behaves as a list of sources with saved positions',
 'Any sequence of appending, prepending, discarding, moving within the current source, snapshots and restores behaves as documented: sources are visited in queue order, an interrupted source resumes where it was left, positions stay within the content, empty sources are not added to a non-empty queue, and restoring a snapshot brings back exactly the state it was taken in, any number of times.',
 ['histories'], 'all sequences of operations on a source queue',
 'tests run a few short fixed sequences',
 ['source/source.go', 'internal/queue/queue.go'], [('queue operations', 'source/source.go Queue'), ('snapshots', 'source/source.go Snapshot, Restore')],
 ['Queue methods'], 'stateful model-based testing against a list model', GEN)

prop('C13', 'Line break normalization rewrites CR LF and CR to LF and nothing else',
 'Normalizing any content replaces every CR LF pair and every lone CR with one LF, keeps all other bytes in order, is idempotent, and does not touch memory outside of the content.',
 ['inputs'], 'all byte sequences', 'tests use a dozen fixed strings',
 ['source/source.go'], [('in-place rewriting', 'source/source.go NormalizeNls')], ['NormalizeNls'],
 'property-based testing against a naive implementation', GEN)

prop('C14', 'Token hooks see each token once and fully control what goes further',
 'Every token of a type or text that is hooked is passed to exactly one hook of a layer, the text hook first, then the type hook, then the any-token hook, and it is dropped, passed on, replaced or followed by extra tokens exactly as the hook says; layers are applied from the first to the last and user hooks come last. End-of-file and end-of-input tokens cannot be dropped, and emitting a token of an unknown, literal or error type is an error.',
 ['inputs', 'histories', 'configurations'], 'all stacks of layers, all hook tables, all reactions of hooks, all sources',
 'tests use a few fixed hooks in at most two layers',
 ['parser/parser.go', 'parser/hooks.go'], [('layered fetching', 'parser/parser.go pullToken, handleToken'), ('hook tables', 'parser/parser.go newHookLayer')],
 ['token hooks calls', 'node hooks calls'], 'property-based testing: scripted hooks against a pipeline model', GEN)

prop('C15', 'Peeking at tokens shows what comes next and changes nothing',
 'Peeking from a token hook returns first the tokens pending from earlier layers and then the tokens of the sources in order, across source boundaries, each call one token further. A parse in which hooks peek any number of tokens gives exactly the same token stream, result and queue state as a parse in which they do not.',
 ['inputs', 'histories'], 'all layer stacks, all numbers of peeked tokens at any point, all sources',
 'one fixed test peeks a few tokens',
 ['parser/hooks.go', 'source/source.go', 'parser/parser.go'], [('peek with snapshot', 'parser/hooks.go PeekToken, restore')],
 ['TokenContext.PeekToken'], 'metamorphic property-based testing (peeking vs. not) plus a stream model', GEN)

prop('C16', 'Node hooks are called in document order with matching results',
 'For every node of the derivation its hook is asked for once with the node name and its first token, the instance gets its direct tokens and children in document order (announcement before, result of the closest hooked descendant after), and is ended once; a specific hook takes precedence over the any-node one and nodes without hooks are transparent. The parse result is what the root hook returns, or the result passed up when the root has no hook, and the reported stack of nodes is the actual path to the root.',
 ['inputs', 'programs', 'configurations'], 'all grammars, sources, and tables of node hooks',
 'tests check a few fixed call sequences',
 ['parser/parser.go', 'parser/hooks.go'], [('node stack', 'parser/parser.go pushNode, popNode, handleNodeToken'), ('default root hook', 'parser/parser.go newParseContext')],
 ['NodeHook, NodeHookInstance calls'], 'property-based testing: recorded call logs against logs predicted from the derivation tree', GEN)

prop('C17', 'Errors from hooks and cancellation stop parsing and are returned as is',
 'An error returned by any token hook, node hook, hook instance method or layer, at any call, makes parsing stop without further hook calls and return that very error; a context cancelled at any moment makes it return the cancellation error. Hooks for undeclared token types or nodes are reported before any token is read.',
 ['fault_sequences', 'inputs'], 'all hook call sites and call numbers at which the error or the cancellation happens, all grammars and sources, lookahead included',
 'tests inject an error at one or two places',
 ['parser/parser.go'], [('error propagation', 'parser/parser.go parse, nextToken, resolveConflict'), ('cancellation checks', 'parser/parser.go parse, handleToken')],
 ['Parse error', 'hook calls'], 'fault injection at every recorded hook call of generated parses', GEN)

prop('C18', 'Parsing stops right after the root node unless told to use everything',
 'Without the full-source option a successful parse uses exactly the tokens of the root node and leaves the queue positioned so that the rest of the sources can be read from the first unused token; consecutive parses of one queue thus split it into consecutive sentences. With the option, a parse succeeds only if nothing but side tokens is left, and otherwise reports the first remaining token.',
 ['inputs', 'programs', 'histories'], 'all grammars and all sources with anything after a sentence, split over any number of sources',
 'one fixed test checks the rest of the source',
 ['parser/parser.go', 'source/source.go'], [('rewinding', 'parser/parser.go parse'), ('full-source option', 'parser/parser.go WithFullSource')],
 ['Queue state after Parse', 'llx.Error'], 'property-based testing: sentence + tail, model gives the first unused token', GEN)

prop('C19', 'A parser keeps no state between parses and may be shared',
 'Results, hook calls and errors of a parse depend only on the parser, the sources and the hooks: repeating a parse, parsing other sources in between (failed or aborted ones included), or parsing different sources in many goroutines with one parser gives the same outcome as a fresh parser used alone.',
 ['histories', 'schedules'], 'all sequences and all interleavings of parses with one parser',
 'no test reuses a parser after a failure or in parallel',
 ['parser/parser.go', 'lexer/lexer.go', 'parser/layers/indent/indent.go'], [('per-parse context', 'parser/parser.go newParseContext')],
 ['parse results'], 'property-based testing: histories and parallel runs compared with isolated ones; random sets of parses run at once under the Go race detector', GEN + '; schedules are whatever the Go scheduler does, no schedule control (the race detector reports unsynchronised accesses without the bad schedule)')

prop('C20', 'The convert layer replaces exactly the configured tokens',
 'Every token whose text (and type, if an input type is given) matches a configured conversion is replaced by one token with the configured text, of the output type, or of its own type if none is given, with its position kept only if the layer is told so. All other tokens, side tokens included, come through unchanged and in order, and stacked layers are applied one after another.',
 ['inputs', 'configurations'], 'all sets of conversions, types, orders of commands, stacks of conversion layers, and all sources',
 'tests use six fixed configurations with one conversion each and one source',
 ['parser/layers/convert/convert.go', 'parser/parser.go'], [('conversion hook', 'parser/layers/convert/convert.go Setup')], ['tokens received by user hooks and node hooks'],
 'property-based testing: random layer configurations against a one-line model of a conversion', GEN)

prop('C21', 'The indent layer marks every change of indentation exactly once',
 'For any text whose lines start with consistent indentation the indentation layer emits one on-indent token where a line is deeper than the current level and one on-dedent token per level left, before the spaces that caused it, closes all levels at the end of input, ignores blank and side-token-only lines, and passes every token of the source on unchanged, no matter how spaces are split into tokens. A line whose indentation fits no open level, or is broken by side tokens, is an error located at that line; the source itself is never modified.',
 ['inputs', 'configurations'], 'all sequences of indented lines, spaces, tabs, comments, and all ways spaces are tokenized',
 'tests use a few texts with one token per run of spaces',
 ['parser/layers/indent/indent.go'], [('line state machine', 'parser/layers/indent/indent.go layerState.handle')], ['tokens received by user hooks', 'parse result'],
 'property-based testing: random indented texts against a line-based model, and tree structure of a block language', GEN + '; the first significant token of a text is not indented')

prop('C22', 'The restrict layer rejects exactly the nodes forbidden where they occur',
 'With a restriction layer a source is rejected exactly when some restricted node occurs whose closest allowing or forbidding ancestor is a forbidding one, with an error located at the first token of the first such node. Any other source is parsed with the very same outcome as without the layer.',
 ['inputs', 'programs', 'configurations'], 'all grammars, sources, and sets of restricted, allowing and forbidding nodes, several layers',
 'tests use one grammar with one layer and eleven sources',
 ['parser/layers/restrict/restrict.go', 'parser/parser.go'], [('ancestor search', 'parser/layers/restrict/restrict.go Setup'), ('node stack', 'parser/hooks.go NodeStack')], ['parse result', 'llx.Error'],
 'property-based testing: random grammars and layers, differential against the parse without layers', GEN)

prop('C23', 'Wrong layer definitions are rejected with the documented error',
 'Every definition of a standard layer that follows its documentation is accepted, in any order of commands. A definition that breaks one rule (unknown layer or command, missing or repeated command, wrong number of arguments, repeated argument, unknown token type or node) is rejected with the error code of that rule and a message that names the layer, never with a crash or silence.',
 ['configurations'], 'all layer definitions with at most one broken rule',
 'tests have one or two fixed samples per error code and layer',
 ['parser/layers/convert/convert.go', 'parser/layers/indent/indent.go', 'parser/layers/restrict/restrict.go', 'parser/layers/common/errors.go', 'parser/parser.go'],
 [('configuration', 'Setup of layer templates'), ('error constructors', 'parser/layers/common/errors.go')], ['llx.Error code and message'],
 'property-based testing: correct random definitions with an injected fault, expected code as oracle', GEN)

prop('C24', 'Tree edits keep the tree consistent and do what they say',
 'After any sequence of detaching, replacing, removing and inserting elements (before or after an element, as a child at any place), every element has exactly the parent, the previous and the next sibling, and the first and the last child that the edits imply, and an element is found in one place only. Edits with a nil element, with the same element twice, or with an element that is not a child of the given node do nothing, and adjacent, detached and parentless elements are not special. An element is never placed into its own subtree, and AddChild gets detached elements.',
 ['histories'], 'all sequences of edits of all trees and detached elements',
 'tests do one edit of a fixed tree at a time; adjacent elements, the root, elements without parents and repeated edits are not sampled',
 ['tree/tree.go'], [('edits', 'tree/tree.go Detach, Replace, AppendSibling, PrependSibling, AppendChild'), ('links', 'tree/tree.go AddChild, RemoveChild')],
 ['Parent, Prev, Next, FirstChild, LastChild of all elements'], 'stateful model-based property testing', GEN)

prop('C25', 'Trees mirror parses and are traversed completely and in order',
 'The standard tree hook builds a tree with exactly the nodes and tokens of the parse, in order, with the initial token for each nested node. A walker fetches each element of a subtree exactly once, parents first, in the given direction, with the true nesting level, leaving out exactly the children or the remaining siblings it is told to skip, and then nothing. Functions that return the first, last, next and previous token elements, children, ancestors and siblings agree with the order of elements in the tree, whatever empty nodes there are.',
 ['inputs', 'programs'], 'all trees, subtrees, directions, and sequences of flags; all elements of trees',
 'tests walk a fixed tree without empty nodes and with a few flags',
 ['tree/tree.go'], [('walker', 'tree/tree.go Walker.Step'), ('token navigation', 'tree/tree.go NextTokenElement, PrevTokenElement'), ('tree hook', 'tree/tree.go HookInstance')],
 ['visited elements and levels', 'returned elements', 'parse result'], 'property-based testing: recursive reference traversal as oracle', GEN)

prop('C26', 'Selectors return what their steps define, in order',
 'A selector applied to any elements returns what its steps give one after another: extractors replace each element with related ones in the documented order, filters keep accepted ones, searches give accepted descendants (stopping at accepted ones or not). Combinations of extractors and filters (any, all, nth, not) follow their definitions, a unique selector keeps the first of repeated elements, nil inputs are ignored, and selectors may be applied many times with no effect on inputs or on the tree.',
 ['inputs', 'programs'], 'all trees, selectors, and lists of inputs',
 'tests apply a few fixed selectors to a fixed tree',
 ['tree/tree.go'], [('application', 'tree/tree.go Selector.Apply, selectNodes'), ('combinators', 'tree/tree.go Any, All, Nth, IsNot, IsAny, IsAll')],
 ['output list'], 'property-based testing: list semantics of steps as oracle', GEN)

prop('C28', 'Integer sets behave as mathematical sets without sharing contents',
 'After any sequence of additions, removals, copies, unions, intersections and subtractions (in place or into a new set), a set contains exactly the integers a mathematical set would, lists them in ascending order without repetitions, and two sets are equal exactly when they have the same items. Changing a set never changes another one, a copy or an operand.',
 ['histories'], 'all sequences of operations on several sets, all items including negative ones',
 'tests use fixed sets of small numbers; word boundaries, different ranges of operands and aliasing are sampled in a few places',
 ['internal/ints/intset.go'], [('set operations on word ranges', 'internal/ints/intset.go')], ['ints.Set methods'],
 'stateful model-based testing: map-based sets as the model', GEN)

prop('C29', 'The double-ended queue gives items back in order',
 'After any sequence of insertions and removals at both ends, refills and clearings the queue holds exactly the items a list would hold, in the same order, reports their number, and finds an item by its index counted from either end; taking from an empty queue or a missing index is reported as such. A list taken from the queue does not change with it.',
 ['histories'], 'all sequences of operations, any length including those that make the storage grow and wrap around',
 'tests run short fixed sequences; growth with a wrapped storage depends on history',
 ['internal/queue/queue.go'], [('ring storage and growth', 'internal/queue/queue.go')], ['queue.Queue methods'],
 'stateful model-based testing: a slice as the model', GEN)

prop('C27', 'llxgen writes the very grammar it is given, or nothing',
 'For any correct description llxgen writes a Go file that compiles and defines one variable holding the same grammar that langdef builds, or a JSON file that is decoded to the same grammar, into the requested or default file, under the requested or default package and variable names, and touches no other file. For wrong options, names, files or descriptions it explains the reason (a wrong name or the langdef error), exits with a non-zero code (2 for wrong usage, 3 otherwise), and writes no file.',
 ['inputs'], 'all descriptions, options, file and folder names, and file faults',
 'there are no tests of llxgen at all',
 ['cmd/llxgen/llxgen.go'], [('Go output', 'cmd/llxgen/llxgen.go makeGo'), ('JSON output', 'cmd/llxgen/llxgen.go makeJson'), ('options', 'cmd/llxgen/llxgen.go main')],
 ['output file read by go/types and encoding/json', 'exit code and messages', 'files of the folder'], 'property-based testing of the built tool: round trip through go/types and encoding/json', GEN)

prop('C30', 'The calculator example computes what its help promises',
 'In a session of the calculator example every input is answered as its help says: expressions have the value defined by arithmetic with the usual precedence and associativity (^ is right-associative), variables and functions are set, redefined and used in separate namespaces, and arguments hide variables. A wrong input is reported (naming the unknown variable or function, wrong number of arguments, or repeated argument) and changes nothing, and an incomplete input is continued with the next line.',
 ['histories'], 'all sequences of inputs without recursive functions',
 'tests run a few fixed inputs; state, incomplete inputs, and mixed operators are hardly combined',
 ['examples/calc/calc.go', 'examples/calc/internal/lib.go'], [('evaluation', 'examples/calc/internal/lib.go chain, power, funcCall'), ('session', 'examples/calc/calc.go main')],
 ['prompts and answers of the tool'], 'property-based testing of the built tool: independent parser and evaluator as oracle', GEN)

prop('C31', 'The grammar checking example tells right samples from wrong ones',
 'The grammar checking example splits a file into samples as documented (separator prefix, empty samples), accepts exactly the samples of the language, prints the tree of each accepted one within the given width, reports each wrong one, and with -e requires every sample to be wrong. Its exit code tells the documented reason: usage, file, encoding, grammar, parser, or syntax.',
 ['inputs', 'faults'], 'all LL(1) grammars and files of samples with insignificant line feeds and no empty lines, options, and faults of files and grammars',
 'tests run a few fixed grammars and samples',
 ['examples/grammar/grammar.go'], [('samples', 'examples/grammar/grammar.go makeSources, sourceSample'), ('printing', 'examples/grammar/grammar.go printTreeNode'), ('exit codes', 'examples/grammar/grammar.go main')],
 ['stdout, stderr, exit code'], 'property-based testing of the built tool: reference parser as oracle', GEN)

prop('C32', 'Syntax errors say truly what was found and what was expected',
 'The message of an unexpected-token error shows the type and text of the offending token, and that of an unexpected-token or unexpected-end error names a literal or token type that could continue the source at that very point (or the end of input if the source could end there). A wrong-character error shows the character, a broken-token error the broken text. Every error made from a position carries code, source name, line and column, and its message ends with them when all are known; without a position they are empty; error text is always the formatted message, whatever characters it has.',
 ['inputs', 'programs'], 'all LL(1) grammars and grammars with lookahead, all sources with a syntax or lexical error at any place, all arguments of error constructors',
 'tests compare error codes and never look at messages',
 ['parser/errors.go', 'parser/parser.go', 'lexer/lexer.go', 'llx.go', 'parser/layers/common/common.go'],
 [('expected token', 'parser/parser.go getExpectedToken'), ('messages', 'parser/errors.go, lexer/lexer.go'), ('error construction', 'llx.go FormatErrorPos, NewError')],
 ['llx.Error message, code, position'], 'property-based testing: viable-prefix sets of the reference parser as oracle for named tokens; models of messages', GEN)

prop('C33', 'A parser describes its grammar truthfully and runs custom layers as ordered',
 'Parser queries agree with the grammar: Tokens gives its tokens, TokenType knows exactly the usable token type names and the special ones, IsSideType, IsSpecialType and IsValidType hold for exactly the right numbers, MakeToken makes a token of the named type with the given content and no position, or fails for an unknown name. Every custom layer definition sets up its template once, in order, with exactly its commands and arguments; templates given to the parser override registered ones; registering a name twice fails and changes nothing; a setup error is returned as is. Each parse starts every layer once with the right context, and tokens go through layers in the order of definition.',
 ['inputs', 'programs'], 'all descriptions, names and numbers; all lists of custom layer definitions and ways to provide templates',
 'tests use one or two layers and never query most of these methods',
 ['parser/parser.go', 'parser/hooks.go', 'lexer/token.go'],
 [('queries', 'parser/parser.go IsSideType, IsSpecialType, IsValidType, TokenType, MakeToken'), ('layer setup', 'parser/parser.go New'), ('registry', 'parser/hooks.go RegisterHookLayer')],
 ['Parser methods', 'HookLayerTemplate and HookLayer calls'], 'property-based testing: grammar content as oracle; recording layer templates', GEN)

prop('C34', 'Token hooks may change the source queue while parsing',
 'Hooks may add, drop, or seek sources freely: sources that a token hook adds in front of the current one are read in place of (or right after) the token, and the interrupted source goes on where it was left; sources added at the end are read last; skipped text is never looked at; after a backward seek tokens are read again; another parser run on the queue by a hook takes exactly its sentence; looking ahead after a change reads the changed queue and does not undo the change. The parse is then the same as of one plain source with the resulting sequence of tokens: the same tree, or the same error at the same token, and every token refers to its true source and place. A parse without the full-source option leaves the queue so that the next one reads exactly the tokens that were not used, in order.',
 ['inputs', 'histories'], 'all grammars, all ways to spread a text over sources with hooks, all sequences of changes made by hooks',
 'tests include one source at one place of one grammar, without lookahead and without a second parse of the rest',
 ['parser/parser.go', 'source/source.go', 'lexer/lexer.go'],
 [('fetching tokens', 'parser/parser.go nextToken, pullToken, fetchToken'), ('return of unused tokens', 'parser/parser.go returnTokens'), ('queue', 'source/source.go Queue')],
 ['node hooks', 'Queue after Parse'], 'property-based testing: metamorphic, the same tokens in one plain source, hooks of random directives', GEN)

prop('C35', 'The configuration editor example changes just what it is told to',
 'A run of the configuration editor example leaves the file with exactly the sections and values that follow from its commands (sections removed, added, values removed, set, in this documented order; the last of repeated entries counts). All the rest (other entries, section headers, comments of sections that are not removed, text around a changed value) is kept in its place, and where nothing is to be changed the file is not touched at all, up to the last byte. A wrong option or a wrong file is reported with exit code 2, and the file is left as it was. One more run without commands changes nothing.',
 ['inputs', 'histories'], 'all files of entries, sections, comments and empty lines with any line breaks, all lists of commands, but for the listed findings',
 'tests run a few fixed files and commands',
 ['examples/conf-edit/conf-edit.go', 'examples/conf-edit/internal/lib.go'], [('editing', 'examples/conf-edit/internal/lib.go AddSection, SetEntry, RemoveSection, RemoveEntry'), ('reading', 'examples/conf-edit/internal/lib.go Parse'), ('commands', 'examples/conf-edit/conf-edit.go main')],
 ['the file after a run', 'exit code and messages'], 'property-based testing of the built tool: independent line-based reader and model of commands', GEN)

prop('C36', 'The description language is what its documented self-definition says',
 'The definition of the description language given in its own documentation is accepted by langdef itself and tells the truth: a text is free of syntax errors for langdef if and only if the parser built from this definition takes it, the first syntax error is at the place where that parser stops, and lexemes of the text are the tokens this parser finds. (Excluded: a backslash before a line break, kinds of arguments of directives.)',
 ['inputs'], 'all descriptions, correct and wrong, and any texts',
 'there is no test of the self-definition; agreement of two readers must hold for every text',
 ['langdef/docs.go', 'langdef/parser.go', 'parser/parser.go'], [('self-definition', 'langdef/docs.go'), ('reader of descriptions', 'langdef/parser.go'), ('parsing', 'parser/parser.go')],
 ['errors of langdef.ParseString', 'result of Parser.Parse'], 'property-based testing: differential, the hand-written reader against the parser built from its documented definition', GEN)

prop('C37', 'Grammars and parsers are made independently of each other',
 'What langdef makes of a description (the very grammar, or the error) depends on this description alone: not on those read before it, wrong ones included, nor on those read at the same time in other goroutines; reading another description does not change a grammar made before. Any number of parsers may be made of one grammar, one after another or at once, while layer templates are being registered; all of them parse alike, and neither making a parser nor parsing changes the grammar.',
 ['histories', 'schedules'], 'all sequences and interleavings of readings of descriptions and makings of parsers',
 'tests read each description once and make one parser of it, in one goroutine',
 ['langdef/parser.go', 'parser/parser.go', 'parser/hooks.go', 'parser/layers'], [('reading descriptions', 'langdef/parser.go Parse'), ('making parsers', 'parser/parser.go New'), ('registry of layers', 'parser/hooks.go RegisterHookLayer'), ('setup of layers', 'parser/layers/*/*.go Setup')],
 ['grammar returned by langdef.Parse*', 'errors of langdef.Parse* and parser.New', 'outcomes of parses'], 'property-based testing: metamorphic (again, in another order, in parallel goroutines, with the race detector)', GEN)
