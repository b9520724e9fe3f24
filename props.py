# Single source of the property list: check.py reads it, mkmanifest.py writes properties.jsonl and MANIFEST.json.
# claimed properties have 'note' (level_note) and 'replay'; the others have 'na' (reason).

def P(title, statement, over, text, why, files, mech, observe, **kw):
    d = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe)
    d.update(kw)
    return d

TR = ' Trusted: the verification condition generator (govc), go/ssa, the SMT solvers'

PROPS = {
'C01': P('Offset to line and column is exact',
  'For every source text, every byte offset and every earlier sequence of queries, the reported line is 1 plus the number of newline bytes before the offset and the reported column is 1 plus the number of UTF-8 runes (an invalid byte counts as one) between the start of that line and the offset. Offsets outside the text are clamped to its ends, and the answer never depends on earlier queries or changes the text.',
  ['inputs', 'histories'], 'all byte contents, all offsets (negative and past the end too), all earlier queries on the same source',
  'tests check a handful of short ASCII texts; the line lookup keeps a cache of the previous line and a binary search, so wrong answers need particular texts and query orders',
  ['source/source.go'], [('line index and cached binary search', 'source.New, Source.findLineIndex, Source.LineCol')],
  ['Source.LineCol', 'Queue.LineCol', 'Pos.LineCol', 'Source.Name', 'Source.Content', 'Source.Len'],
  replay=('source', ['c01.go.txt']),
  note='Unbounded proof of every obligation of the listed functions for all texts and offsets.' + TR + ', utf8.RuneCount and bytes.Count contracts (documented behaviour).'),

'C02': P('Line and column to offset, and the round trip',
  'For every text, converting a line and column to an offset gives the offset reached from the start of that line by passing column-1 runes but never past the end of the line or of the text; lines beyond the last give the text length and non-positive lines or columns give 0. For every offset on a rune boundary of its line, converting it to line and column and back returns the same offset.',
  ['inputs'], 'all byte contents, all lines and columns, all rune-boundary offsets',
  'tests use a few fixed texts; multi-byte, invalid and truncated runes, columns beyond the line end and the last line are not enumerable',
  ['source/source.go'], [('rune walk bounded by the line', 'Source.Pos'), ('line index', 'source.New')],
  ['Source.Pos', 'Source.LineCol'],
  replay=('source', ['c01.go.txt', 'c02.go.txt']),
  note='Unbounded proof, including the inductive round-trip lemma.' + TR + ', utf8.DecodeRune, utf8.RuneCount and bytes.Count contracts (RFC 3629 decoding).'),

'C03': P('Source queue behaves as an ordered list of sources with positions',
  'After every history of append, prepend, next-source, skip, rewind, seek, snapshot and restore, the source queue yields exactly the current source with its position followed by the queued (source, position) pairs in order: append adds at the end, prepend suspends the current source at its position and resumes it later, nil is ignored and empty sources are ignored unless nothing is queued. The position always stays within the current source (0 when there is none), whatever sizes or offsets are passed, and restoring a snapshot brings back exactly the state it captured, any number of times.',
  ['histories', 'inputs'], 'all operation histories, all source lengths, all int arguments including extremes',
  'tests run short fixed sequences; ring-buffer wrap and growth, repeated restores of one snapshot and extreme sizes need long or unusual histories',
  ['source/source.go', 'internal/queue/queue.go'], [('current source/position plus ring-buffer deque', 'source.Queue'), ('copying snapshots', 'Queue.Snapshot, Queue.Restore')],
  ['Queue.Source', 'Queue.Pos', 'Queue.NextSource', 'Queue.ContentPos', 'Queue.Eof', 'Queue.IsEmpty'],
  replay=('source', ['c03.go.txt']),
  note='Unbounded proof over the abstract view (current source, position, queued entries) for every operation, built on the proved deque contracts.' + TR + '. Assumes a queue never holds 2^32 or more sources.'),

'C04': P('Newline normalisation rewrites CRLF and CR to LF and nothing else',
  'For every byte sequence, newline normalisation turns each CR LF pair and each remaining lone CR into one LF, keeps every other byte and the order, shortens the slice accordingly and touches no byte outside the given slice.',
  ['inputs'], 'all byte sequences',
  'tests use a few samples; the in-place two-cursor copy only goes wrong on particular runs of CR, LF and other bytes',
  ['source/source.go'], [('in-place block moves', 'source.NormalizeNls')], ['source.NormalizeNls'],
  replay=('source', ['c04.go.txt']),
  note='Unbounded proof of the byte-by-byte specification and of the frame.' + TR + '.'),

'C23': P('Deque is a faithful double-ended sequence',
  'After every history of operations, the generic double-ended queue holds exactly the sequence the operations describe: append and prepend add one element at the right end, first and last remove and return the end elements (or report emptiness), peek with any index, negative ones counting from the end, reads without removing, fill and clear replace the content. No element is lost, duplicated or reordered when the buffer wraps or grows, and slices it returned earlier never change.',
  ['histories', 'inputs'], 'all operation histories, element types, initial contents and indexes',
  'tests use short sequences; the bugs of a ring buffer appear only at particular head/tail/size combinations',
  ['internal/queue/queue.go'], [('power-of-two ring buffer', 'queue.Queue')],
  ['Queue.Items', 'Queue.Len', 'Queue.First', 'Queue.Last', 'Queue.Peek'],
  replay=('internal/queue', ['c23.go.txt']),
  note='Unbounded proof over the abstract sequence for every method and every element type (one generic proof).' + TR + '. Assumes fewer than 2^32 elements.'),
'C05': P('Lexer returns exactly the tokens the expression describes',
  'For every lexer, source queue, position and set of wanted types, a successful call skips the insignificant lexemes at the current position and returns the first wanted capturing group of the match there: its type and type name, exactly the bytes of that group, and a position pointing at them in their source; the queue then stands right after the whole lexeme, so consecutive calls cover the text without gaps or overlaps. At the end of a source the call yields an end-of-file token for that source and moves to the next one, and an end-of-input token when no source is left.',
  ['inputs', 'histories'], 'all expressions and token tables, all texts and positions, all wanted type sets, all queue contents',
  'tests lex a few short texts; group order, unwanted types, multi-group matches, long runs of insignificant lexemes and source switches combine without limit',
  ['lexer/lexer.go', 'lexer/token.go'], [('group selection', 'Lexer.matchToken'), ('skip loop and end of source', 'Lexer.fetch, Lexer.Next, Lexer.NextOf')],
  ['Lexer.Next', 'Lexer.NextOf', 'Token.Type', 'Token.Text', 'Token.Content', 'Token.Pos', 'source.Queue.Pos'],
  replay=('lexer', ['lexutil.go.txt', 'c05.go.txt']),
  note='Unbounded proof over an abstract match function of (expression, bytes), including termination.' + TR + ', the documented contract of regexp.FindSubmatchIndex.'),

'C06': P('A lexer call that returns no token leaves the queue unchanged',
  'For every lexer, queue, position and set of wanted types, a call that returns an error, or that finds no token of a wanted type, leaves the current source, the position and the queued sources exactly as they were, also when insignificant lexemes were skipped first. Errors are returned exactly when the expression does not match, matches nothing, or matches an error group, and never together with a token.',
  ['inputs', 'histories'], 'all expressions, texts, positions, wanted type sets and queue contents',
  'the parser retries with other type sets at the same place; tests check one failing call at a time without preceding insignificant lexemes',
  ['lexer/lexer.go'], [('position restore', 'Lexer.Next, Lexer.NextOf'), ('match classification', 'Lexer.matchToken')],
  ['Lexer.Next', 'Lexer.NextOf', 'source.Queue.Pos', 'source.Queue.Source'],
  replay=('lexer', ['lexutil.go.txt', 'c06.go.txt']),
  note='Unbounded proof of the postconditions and frames of Next and NextOf.' + TR + ', the documented contract of regexp.FindSubmatchIndex.'),

'C24': P('Integer sets are exact',
  'For every history of operations on sets of integers (the sets langdef computes first tokens and dependencies with): membership, emptiness, equality and the sorted list of items are those of the mathematical set; adding, removing, union, intersection and difference give exactly the mathematical result, change no set but the receiver of a changing operation, and results share nothing with their arguments.',
  ['inputs', 'histories'], 'all items of moderate size, all histories of operations on any number of sets, negative items and empty ranges too',
  'tests use a few items; sets are bit strings that grow in both directions, so ranges that only partly overlap, word boundaries and negative items decide the result',
  ['internal/ints/intset.go'], [('bit strings', 'Set, allocate, doSet, Contains'), ('set algebra', 'Union, Intersect, Subtract, IsEqual'), ('listing', 'ToSlice, countBits')],
  ['ints.Set methods', 'langdef.Parse'],
  replay=('internal/ints', ['c24.go.txt']), budget=6,
  note='Unbounded proof of every function of the package, with the bit-level facts proved over bit vectors.' + TR + '; items are within 2^40 of zero (token and node numbers are).'),

'C25': P('Errors name the exact place they are about',
  'For every lexical error the reported code, source name, line and column are those of the offending byte: the first byte that starts no lexeme, or the first byte of the broken lexeme. An error formatted at a token or source position carries that position, and its message ends with the source name, line and column exactly when all three are known.',
  ['inputs'], 'all texts, positions, source names and messages',
  'tests compare a few messages; positions after insignificant lexemes, multi-byte characters and line breaks, and unnamed sources are easily wrong',
  ['llx.go', 'lexer/lexer.go', 'lexer/token.go', 'source/source.go'], [('error construction', 'llx.NewError, llx.FormatErrorPos'), ('lexical errors', 'lexer.wrongCharError, lexer.wrongTokenError'), ('positions', 'source.Pos')],
  ['llx.Error', 'llx.FormatErrorPos', 'Lexer.Next', 'Lexer.NextOf'],
  replay=('lexer', ['lexutil.go.txt', 'c25.go.txt']),
  note='Unbounded proof of code, source name, line and column; the message text (fmt.Sprintf) is only tested by the bounded replay.' + TR + ', the documented contract of regexp.FindSubmatchIndex.'),

'C07': P('The parser follows the grammar tables with the documented rule priority',
  'For every grammar table and token sequence the parser does exactly what the table prescribes: for the token at hand it applies the rule of a matching literal first (compared in upper case for caseless token types, never for types that do not match literals), then the rule of the token type unless the literal is reserved, then the any-token rule; side tokens that the state does not name are skipped; rules naming a node enter it, final rules leave it and continue in the parent. Input the table derives is accepted completely, any other input is rejected at the first token with no applicable rule, with the documented error code, position and expected token, and after a successful parse the source queue stands at the first token not consumed.',
  ['inputs'], 'all grammar tables without ambiguous rules, all token sequences and source texts',
  'tests parse a few fixed texts with a few grammars; literal, reserved, caseless, side and any-token rules interact in ways no sample covers',
  ['parser/parser.go', 'grammar/grammar.go'], [('rule keys in priority order', 'ParseContext.possibleRuleKeys, ParseContext.findRules'), ('state machine step', 'ParseContext.applyRule, pushNode, popNode'), ('main loop', 'ParseContext.parse, nextRule, nextToken')],
  ['Parser.Parse', 'Parser.ParseString', 'llx.Error'],
  replay=('parser', ['parutil.go.txt', 'c07.go.txt']), budget=25,
  note='Unbounded proof of rule selection, of the node stack and of the state machine step (every rule application) for all tables; the main loop that repeats the step, the error texts and the final queue position are covered by the bounded replay only (random tables against an independent interpreter).' + TR + ', strings.ToUpper as a function of its argument.'),

'C08': P('Node hooks see a well-nested walk with the right results',
  'For every grammar table, input and set of node hooks, each hook instance is called exactly as the parse tree prescribes: it is created when its node starts, gets every token of its own node and, for each child, the announcement of the node, then the child result when it ends, in source order, and is asked for its result exactly once when its node ends; parents see the result of the child of their own hook layer. Pending side tokens are delivered to the node they belong to before its next event and otherwise at the end of the root. Nodes without hook are skipped, the first error returned by any hook stops everything and is returned, and the result of the parse is the result of the root hook of the user layer.',
  ['inputs', 'histories'], 'all grammar tables, inputs, numbers of hook layers, hook results and hook errors',
  'tests use one layer and simple trees; nesting, side tokens at node borders, several layers and errors in the middle combine without limit',
  ['parser/parser.go', 'parser/hooks.go'], [('event delivery', 'ParseContext.pushNode, popNode, handleNodeToken, handleNodeSides, getNodeHook'), ('side tokens', 'nodeRec.sides')],
  ['NodeHookInstance.NewNode', 'NodeHookInstance.HandleNode', 'NodeHookInstance.HandleToken', 'NodeHookInstance.EndNode', 'Parser.Parse'],
  replay=('parser', ['parutil.go.txt', 'c08.go.txt']), budget=25,
  note='Unbounded proof, for every single rule application, of the exact sequence of hook calls (a ghost log folded over layers, children and side tokens) and of the results handed to parents; the sequence over a whole parse follows by repetition in the main loop, which only the bounded replay covers.' + TR + '; hooks do not touch unexported parser state.'),

'C09': P('Ambiguous rules are resolved by the variant that survives longest',
  'For every grammar table with ambiguous rules and every input, when the next token fits several rules, the parser looks ahead, traces the variants in parallel and follows the one that can take the longest run of further tokens; a variant is complete when the node in which the choice arose ends. The tokens read ahead are parsed again in order, without loss or duplication, and hooks see only the chosen variant, exactly as if the choice had been known in advance. Input that some variant accepts up to the decision point is not rejected, and parsing never loops without consuming input.',
  ['inputs'], 'all grammar tables with ambiguous rules, all inputs',
  'tests contain a handful of ambiguous grammars with two variants; three or more variants, nested choices, side tokens and end of input in the look-ahead are not covered',
  ['parser/parser.go', 'parser/misc.go'], [('parallel tracing of variants', 'ParseContext.resolveConflict'), ('replay of tokens and rules', 'ParseContext.nextRule, nextToken')],
  ['Parser.Parse', 'NodeHookInstance.HandleToken', 'NodeHookInstance.NewNode'],
  replay=('parser', ['parutil.go.txt', 'c09.go.txt']), budget=45, level='other',
  explanation='Mixed. Proved without bound: findRules yields exactly the variants of the ambiguous rule, and applyRule with hooks off (how variants are traced) tells no hook anything, changes only the traced node stack and steps it as the table says; the node stack copy is equal and separate. Bounded only: the choice made by resolveConflict and the re-parsing of tokens (random tables and inputs against an independent interpreter; choices with several equally long variants are not judged).',
  note='Contracts discharged for the parts resolveConflict is built from; resolveConflict itself is only checked by the bounded replay.' + TR + '.'),

'C10': P('Token hook layers filter the token stream as documented',
  'For every set of token hook layers and every input: a raw token is fetched with the first token group that has an expected token at the position (of any type when all are accepted); each layer, starting with the one next to the lexer, sees every token coming from the layer below it, exactly once and in order, in its hook for the literal, else for the token type, else for any token defined in the grammar; the hook decides whether the token goes on and which extra tokens follow it, before anything else is read. Tokens the hook drops vanish, end-of-file and end-of-input tokens cannot be dropped without replacement, tokens of unknown types are rejected with an error, and errors stop the parse at once.',
  ['inputs', 'histories'], 'all layers of hooks, all hook answers, all inputs',
  'tests use one or two layers with few tokens; queues of extra tokens in several layers, special tokens and dropped tokens interleave in many ways',
  ['parser/parser.go', 'parser/hooks.go'], [('layered pull', 'ParseContext.pullToken'), ('hook choice', 'ParseContext.handleToken'), ('token groups', 'ParseContext.fetchToken')],
  ['TokenHook', 'Parser.Parse', 'NodeHookInstance.HandleToken'],
  replay=('parser', ['parutil.go.txt', 'c10.go.txt']), budget=45, level='other',
  explanation='Mixed. Proved without bound: fetchToken (which group answers, which token, where the queue stands afterwards, when it fails) and handleToken (which hook is called, with what, what is passed on, special tokens, the queue restored). Bounded only: the recursion over layers and their queues in pullToken (random layers of hooks against an independent interpreter).',
  note='Contracts discharged for fetchToken, handleToken and the deques; pullToken is only checked by the bounded replay.' + TR + '; token hooks reach the source queue only through PeekToken.'),

'C11': P('Looking ahead in a token hook leaves no trace',
  'For every token hook and every number of PeekToken calls, successive calls return first the extra tokens waiting in the layers below, in order, then the tokens that follow in the sources, one after another across source ends; when the hook returns, the source queue, the position, the waiting tokens and everything the parser does next are exactly what they would have been without any PeekToken call.',
  ['inputs', 'histories'], 'all hooks, numbers of calls, waiting tokens, source queues and texts',
  'tests peek once or twice within one source; peeking across source ends, past waiting tokens and repeatedly needs longer histories',
  ['parser/hooks.go', 'parser/parser.go', 'source/source.go'], [('snapshot on first read', 'TokenContext.PeekToken'), ('restore', 'TokenContext.restore, ParseContext.handleToken')],
  ['TokenContext.PeekToken', 'source.Queue.Pos', 'source.Queue.Source', 'Parser.Parse'],
  replay=('parser', ['parutil.go.txt', 'c11.go.txt']), budget=15,
  note='Unbounded proof: what each PeekToken call returns (waiting tokens of the layers below, then fetched tokens), that the first read saves the queue and later reads keep the saved copy intact, that restore brings back exactly the saved queue and that handleToken returns with the queue as before the hook.' + TR + '; token hooks reach the source queue only through PeekToken.'),

'C12': P('A grammar definition becomes tables that accept exactly its language',
  'For every accepted grammar definition the produced state machine accepts exactly the token sequences its nodes describe: sequences in order, one of the variants, the optional part once or not at all, the repeated part any number of times, nested nodes as a whole, with the named token types, literals and the end of input. Every rule is kept: none is lost, doubled, reordered across states or given to another state or token; keys with several rules become ambiguous rules and keys with one rule plain ones, each group sorted by token. Every token type a state can use is among its fetchable types.',
  ['inputs', 'programs'], 'all grammar definitions, all token sequences',
  'tests compare the tables of some twenty small definitions; nested optional, repeated and variant parts share states in ways that grow with the nesting',
  ['langdef/chunks.go', 'langdef/result.go', 'langdef/parser.go'], [('states of chunks', 'groupChunk.BuildStates, variantChunk.BuildStates, nodeChunk.BuildStates, tokenChunk.BuildStates'), ('rules of a state', 'stateEntry.AddRule, CopyRules, BypassRule, DropLoop'), ('tables', 'parseResult.BuildGrammar, stateEntry.BuildGrammarState, writeGrammarState, rmKeys')],
  ['langdef.ParseString', 'grammar.Grammar.States', 'grammar.Grammar.Rules', 'grammar.Grammar.MultiRules'],
  replay=('langdef', ['ldutil.go.txt', 'c12.go.txt']), budget=25, level='other',
  explanation='Mixed. Proved without bound: adding, copying, bypassing and dropping rules of a state, and writing a state into the tables (every rule is found there exactly once under its own key, plain and ambiguous keys sorted and separated, the ranges of the state exact, other states untouched). Bounded only: how the parts of a definition are turned into states, decided by comparing the language of the tables with that of the definition for random definitions and words.',
  note='Contracts discharged for the rule and table operations; the recursive construction of states is only checked by the bounded language comparison, which leaves out optional groups that begin with a repeated part (known finding).' + TR + ', sort.Ints sorts and permutes.'),

'C13': P('String literals in grammar definitions mean what is documented',
  'For every grammar definition, a single-quoted literal stands for exactly its characters and a double-quoted literal for its characters with each documented escape replaced: the byte of \\x##, the UTF-8 form of the rune of \\u#### and \\U########, line feed, carriage return, tab, quote and backslash. Every other escape and every escape that is cut off or has a wrong digit is rejected as an invalid escape, and every number that is not a Unicode rune as an invalid rune, at the position of the literal, wherever a literal may stand.',
  ['inputs'], 'all string literals',
  'tests check a few escapes; edge numbers (surrogates, beyond 10FFFF), cut-off escapes at the end of the literal and signs or underscores instead of digits are not sampled',
  ['langdef/parser.go'], [('escape decoder', 'processStringToken'), ('escape table', 'escapeCharMap')],
  ['langdef.ParseString', 'grammar.Token.Name', 'grammar.LayerCommand.Arguments'],
  replay=('langdef', ['ldutil.go.txt', 'c13.go.txt']),
  note='Unbounded proof that the decoder returns the literal defined by a recursive specification of the escapes, or the error it prescribes, for all literals the lexer yields.' + TR + ', documented behaviour of strconv.ParseUint, utf8.AppendRune, utf8.ValidRune and bytes.IndexByte.'),

'C14': P('Wrong grammar definitions are rejected where they are wrong',
  'For every byte sequence, reading it as a grammar definition ends, without panic, hang or unreasonable effort, with either a grammar or an error, never both. A definition that breaks a documented rule is rejected: syntax, unknown directives, templates, token types and nodes, repeated definitions, wrong regular expressions, side or error types in nodes, types mentioned but not defined, types moved to groups twice, literals no type can hold or that are not allowed, unused, unresolvable and left-recursive nodes, too many types. The error tells the kind, names the culprit and has the position of the offending text if there is one. A definition that breaks no rule is accepted.',
  ['inputs', 'programs'], 'all texts',
  'tests check one sample per error; rules interact (order of records, directives before definitions, names shared by templates, types and nodes) and unfinished texts end anywhere',
  ['langdef/parser.go', 'langdef/errors.go', 'langdef/chunks.go'], [('reading tokens', 'parseContext.fetch, fetchAll, fetchOne, skip'), ('records', 'parseDir, parseTemplateDef, parseTokenDef, parseLayerDef, parseNodeDef, parseVariant'), ('checks of nodes', 'findUndefinedNodes, findUnusedNodes, resolveDependencies, findRecursions'), ('checks of tokens', 'parseContext.Parse, assignTokenGroups')],
  ['langdef.Parse', 'langdef.ParseString', 'langdef.ParseBytes', 'llx.Error'],
  replay=('langdef', ['ldutil.go.txt', 'ldgen.go.txt', 'c14.go.txt']), budget=25, level='other',
  explanation='Mixed. Proved without bound: every error of the package has its documented code and the position of its token; reading the next token of a definition (fetch, fetchOne, skip, skipOne, fetchAll): the token is handed out exactly when it is one of the expected ones, is kept for the next reader when it is not and may be absent, and otherwise is reported as unexpected (or as an unexpected end) at its position, the end of the text is never lost; findUndefinedNodes reports an error exactly when a node has no definition. Bounded only: the records built from the tokens and all other checks, by random definitions, correct, wrong and garbled, against an independent model of the documented rules (kinds, names and positions of errors).',
  note='Contracts discharged for reading tokens, for all errors and for undefined nodes; the records and the other checks are only checked by the bounded comparison. Trusted: the groups of the regular expression of llxLexer match what they are meant to. Not judged: definitions that break several rules may be rejected for any of them, types both defined and external, $ in directives, nodes that begin with themselves only at the end of the input.' + TR + '.'),

'C16': P('Tree edits keep the tree linked and do exactly what they say',
  'For every tree built and edited with this package, parent, previous, next, first-child and last-child links always agree: every child knows its parent, the siblings form one list from the first to the last child, and a detached element has neither parent nor siblings. Each operation (add, remove, detach, append child, append or prepend sibling, replace) yields exactly the documented child order, moves an element out of its former place, also when it moves within one parent or next to itself, and changes no other element; the documented no-op cases change nothing.',
  ['histories', 'inputs'], 'all trees and all histories of edits with proper arguments (the element moved is not an ancestor of its new place)',
  'tests make a few edits on small trees; moving the first or last child, an adjacent sibling, an only child or a whole tree differ, and a broken link may surface many edits later',
  ['tree/tree.go'], [('linked elements', 'nodeElement, tokenElement, AddChild, RemoveChild'), ('edit operations', 'Detach, AppendChild, AppendSibling, PrependSibling, Replace'), ('building from the parser', 'HookInstance, NodeHook')],
  ['tree.Element', 'tree.NodeElement', 'tree.Children', 'tree.NewWalker'],
  replay=('tree', ['treeutil.go.txt', 'c16.go.txt']), budget=8,
  note='Unbounded proof of the pointer-level effect and frame of every edit for every heap of elements that satisfies the link invariant.' + TR + '. Element types defined outside the package are trusted to behave like the built-in ones; AddChild needs a detached element.'),

'C17': P('Navigation functions return the neighbours in tree order',
  'For every tree and every element: the first and last token of an element are the outermost tokens of its subtree, the next and previous token of an element are the nearest tokens after or before its subtree in document order, also when nodes without tokens lie between, and nil means there is none; children, previous and next siblings and ancestors are returned completely and in the documented order.',
  ['inputs'], 'all trees, all elements',
  'tests use one small tree; nodes without tokens, last children and deep nesting decide the result',
  ['tree/tree.go'], [('token navigation', 'FirstTokenElement, LastTokenElement, NextTokenElement, PrevTokenElement'), ('sibling and ancestor lists', 'Children, PrevSiblings, NextSiblings, Ancestors')],
  ['tree.FirstTokenElement', 'tree.LastTokenElement', 'tree.NextTokenElement', 'tree.PrevTokenElement', 'tree.Ancestors', 'tree.Children'],
  replay=('tree', ['treeutil.go.txt', 'c17.go.txt']),
  note='Unbounded proof of partial correctness against recursive definitions over the links of the tree (termination rests on trees being finite).' + TR + '. Element types defined outside the package are trusted to behave like the built-in ones.'),

'C18': P('Walkers visit every element once, in order, and obey the skip flags',
  'For every tree, starting element and direction, stepping a walker visits the element itself and all its descendants exactly once in left-to-right or right-to-left preorder, reports the depth of each below the start, and stops for good when all are visited, never leaving the subtree. A step that skips children or siblings omits exactly those subtrees, and a visitor stops the walk exactly when it asks for it.',
  ['inputs', 'histories'], 'all trees, starting elements, directions and sequences of flags',
  'tests walk one tree with few flags; skipping at the last sibling, at the start element or at the deepest level needs particular combinations',
  ['tree/tree.go'], [('walker state', 'Walker.Step, Walker.pushFlags, Walker.popFlags'), ('visitor loop', 'Walk, Walker.Walk')],
  ['tree.Walker.Step', 'tree.Walker.Next', 'tree.Walker.Walk', 'tree.Walk'],
  replay=('tree', ['treeutil.go.txt', 'c18.go.txt']),
  note='Unbounded proof that every single step goes to the element the flags prescribe and reports its depth; that the repetition of steps enumerates the preorder is the definition of the step relation.' + TR + '; visitors do not change links.'),

'C19': P('Selectors return exactly the matching elements in document order',
  'For every tree, set of starting elements and selector, the result is exactly what the chained filters and extractors describe: type, literal, negation, any and all filters accept precisely the elements they name, search finds every matching descendant (the deep variant also inside matches), indexed extractors give the elements at the listed indexes that exist, in the listed order, any takes the first non-empty and all concatenates in order, and each step works on every element of the result of the step before, in order. Duplicates are removed, keeping the first, exactly when the selector is told to be unique.',
  ['inputs'], 'all trees, selectors, filters, extractors and indexes',
  'tests run a few selectors on one tree; absent indexes, empty intermediate results, nested matches and combined extractors are hardly covered',
  ['tree/tree.go'], [('filters', 'IsA, IsALiteral, IsNot, IsAny, IsAll'), ('extractors', 'Any, All, Nth, Search, DeepSearch'), ('chain', 'Selector.Apply')],
  ['tree.Selector.Apply', 'tree.IsA', 'tree.Search', 'tree.DeepSearch', 'tree.Nth'],
  replay=('tree', ['treeutil.go.txt', 'c19.go.txt']), budget=10, level='other',
  explanation='Mixed. Proved without bound: IsA, IsNot, IsAny, IsAll, Filter, Any, All, Nth (exact results for all arguments), and that searches return accepted elements only. Bounded only: completeness and order of searches, IsALiteral and Selector.Apply (random trees and selectors against an independent interpreter).',
  note='Contracts discharged for the filter and extractor constructors; searches and Selector.Apply are partly left to the bounded replay.' + TR + '; filters and extractors given by users are functions of the element.'),

'C20': P('The convert layer rewrites exactly the listed tokens',
  'For every grammar with convert layers and every input: a token of the input type (of any type when none is given) whose text is one of the listed ones is replaced by one token with the paired text and with the output type (its own type when none is given), which keeps the position exactly when save-position is given; every other token passes unchanged, in order, exactly once. Layers apply one after another. A layer definition is rejected exactly when it has an unknown, repeated or malformed command, an unknown or special type, a text listed twice, or no convert command.',
  ['inputs', 'configurations'], 'all layer definitions, all grammars, all token streams',
  'tests convert two digraphs; unusual definitions (several layers, texts chained through layers, types shared with other tokens, commands in any order) are not covered',
  ['parser/layers/convert/convert.go'], [('definition', 'convert template.Setup'), ('token hook', 'the hook made by Setup')],
  ['parser.New', 'parser.HookLayer', 'Parser.Parse'],
  replay=('parser/layers/convert', ['layerutil.go.txt', 'c20.go.txt']), budget=15,
  note='Unbounded proof: the hook replaces exactly the listed texts by the right token, Setup accepts exactly the definitions the rules allow and returns hooks under the right keys; MakeToken and TokenType likewise. The path of a token to the hook is C10.' + TR + '.'),

'C21': P('The restrict layer forbids nodes exactly where the definition says',
  'For every grammar with restrict layers and every input: entering a restricted node fails, at the first token of the node, exactly when it has an ancestor that allows or forbids and the closest such ancestor forbids; otherwise the layer changes nothing. A layer definition is rejected exactly when it has an unknown command, a command without arguments, a repeated name within its group, or lacks node or forbid-in.',
  ['inputs', 'configurations'], 'all layer definitions, all grammars, all node stacks',
  'tests use one definition; nodes that are restricted and special at once, nested special nodes and several layers decide the result',
  ['parser/layers/restrict/restrict.go'], [('definition', 'restrict template.Setup'), ('node hook', 'the hook made by Setup'), ('open nodes', 'NodeContext.NodeStack')],
  ['parser.New', 'NodeContext.NodeStack', 'Parser.Parse'],
  replay=('parser/layers/restrict', ['layerutil.go.txt', 'c21.go.txt']), budget=15,
  note='Unbounded proof: the hook fails exactly under a closest special ancestor that forbids, for every node stack; Setup accepts exactly the definitions the rules allow and hooks exactly the restricted nodes; NodeStack lists the open nodes from the innermost one.' + TR + '.'),

'C22': P('The indent layer emits balanced indents where the lines say',
  'For every grammar with an indent layer and every input: at the first non-side token of a line the spaces that start the line are compared with the open indentation: deeper gives one on-indent token, equal to an outer open one gives one on-dedent token for each level closed, the same gives none, anything else, or a comment before the token, is an error; blank lines and lines with side tokens only change nothing; every open indentation is closed by an on-dedent token at the end of the input. The emitted tokens precede the spaces that caused them, all other tokens pass unchanged, in order, exactly once. Wrong layer definitions are rejected.',
  ['inputs', 'configurations', 'histories'], 'all layer definitions and all token streams, over any number of lines and sources',
  'tests check short fragments; mixed tabs and spaces, tokens that hold several newlines, comments, blank lines, ends of sources and deep nesting combine in many ways',
  ['parser/layers/indent/indent.go'], [('line state machine', 'layerState.handle, handleSpace, handleSide, handleCommon, handleEoi'), ('indentation stack', 'layerState.indent, layerState.dedent'), ('definition', 'indent template.Setup')],
  ['parser.New', 'TokenContext.PeekToken', 'Parser.Parse'],
  replay=('parser/layers/indent', ['layerutil.go.txt', 'c22.go.txt']), budget=20,
  note='Unbounded proof of the transition of every handler from every state: which tokens come out, how the stack of indentations and the pending tokens change, when it fails, that the stack stays a chain of growing prefixes; Setup accepts exactly the right definitions. The line-by-line reading of whole inputs follows by repetition and is also tested by the replay against a line model.' + TR + ', documented behaviour of package bytes; memory shared between the tokens a hook returns and the hook itself is not modelled.'),

'C26': P('Hook layers and hooks are looked up, set up and bound by name',
  'For every grammar, set of registered layer templates, options and hooks: a name registers at most one template; every layer of the grammar is set up once, in order, with exactly its commands and the parser being made, by the template given as an option or else by the registered one; an unknown layer or a failing set-up is reported and no parser is made. For each parse every layer is initialised once, and each hook is bound to exactly the token type, token text or node of its name, whatever else is bound in other layers or earlier parses; a hook for an unknown token type or node is reported before anything is read.',
  ['inputs', 'configurations', 'histories'], 'all registries, grammars, layer definitions and hook tables, any number of parses with one parser',
  'tests set up one layer at a time; the tables of hooks are indexed by numbers that depend on all literals seen before, so wrong bindings need several layers and texts unknown to the grammar',
  ['parser/hooks.go', 'parser/parser.go'], [('registry', 'RegisterHookLayer, WithLayerTemplates'), ('set-up of layers', 'parser.New'), ('hook tables', 'newParseContext, newHookLayer')],
  ['parser.RegisterHookLayer', 'parser.WithLayerTemplates', 'parser.New', 'Parser.Parse'],
  replay=('parser', ['layerutil.go.txt', 'c26.go.txt']), budget=15, level='other',
  explanation='Mixed. Proved without bound: RegisterHookLayer (nothing is replaced), the WithLayerTemplates option, and newHookLayer (complete error condition, every hook at exactly its index, nothing else bound, numbers of texts never change, other layers untouched), and newParseContext (unknown names of user hooks are reported before any layer is initialised; every layer is initialised exactly once, the last one first; the hooks of the user are the first layer and are still bound to their types, texts and nodes after all layers are set up; the texts known to the parse are the context\'s own copy). Bounded only: the order of set-up calls in New (random registries, grammars and hook tables against an independent model).',
  note='Contracts discharged for the registry, the hook tables and newParseContext; New is only checked by the bounded replay.' + TR + '; maps.Copy behaves as documented; layer initialisation changes nothing of the unexported state of the parser; locks change nothing but the lock.'),
'C29': P('Token types, literals and layers are recorded as defined',
  'For every accepted grammar definition the produced grammar lists the defined token types first, in order of definition and each with the concatenation of its regular expressions and templates, then the external types, then the literals used or reserved, each once. Each type has exactly the flags the directives give it and is in the group of the directive that names it, groups in order of their directives and all others in the default group, wherever directives stand relative to definitions. Reserved literals are marked, literals are fetched with exactly the allowed types that can hold them, the layers come in order with their commands and arguments, the first defined node is the root, and every state fetches exactly the side types and the types of the tokens it can use.',
  ['inputs', 'programs'], 'all grammar definitions',
  'tests use each directive once, after the definitions; directives before definitions, types mentioned in several directives and literals in several roles meet in many orders',
  ['langdef/parser.go', 'grammar/grammar.go'], [('token types and flags', 'parseContext.addToken, addExtraToken, addTokenFlag, parseDir'), ('literals', 'addLiteralToken, useLiteralToken, parseVariant'), ('fetchable types', 'assignTokenGroups, assignStateTokenTypes'), ('layers', 'parseContext.parseLayerDef')],
  ['grammar.Grammar.Tokens', 'grammar.Grammar.Layers', 'grammar.Grammar.Nodes', 'grammar.State.TokenTypes'],
  replay=('langdef', ['ldutil.go.txt', 'ldgen.go.txt', 'c29.go.txt']), budget=25, level='other',
  explanation='Mixed. Proved without bound: addToken, addExtraToken, addTokenFlag, addLiteralToken and useLiteralToken (each records exactly one type, flag or literal, merges what was said before the definition, and touches nothing else). Bounded only: the records read from the text and the order in which they are applied (random definitions against an independent model of the documentation).',
  note='Contracts discharged for the tables of token types and literals; reading the records is only checked by the bounded comparison.' + TR + '.'),
}

NA = {
}
