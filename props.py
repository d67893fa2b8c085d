p("C01", "Source reading yields every code point once, in order",
  "Reading a source text to its end delivers its code points in order, each exactly once, with every CR and CR LF delivered as a single line feed, each undecodable byte delivered as the replacement character, and an end-of-input marker from then on. After every read the byte offset and the code-point position equal the number of bytes and code points consumed so far. Skipping white space consumes exactly the maximal run of Unicode white space and reports whether that run contained a line terminator.",
  ["inputs", "histories"], "every source text (any bytes, below 4 GiB) and every sequence of read, conditional read and skip operations",
  "the existing tests read three short texts; nothing covers truncated encodings, CR at the end, or mixed operation sequences",
  ["span/source.go"], "cursor state (rest of text, byte offset, code-point position, line-break flag) advanced by one decoder",
  claim="every function of the cursor is proved against its contract for all texts; standard-library UTF-8 decoding and white-space classification are trusted contracts")
p("C02", "Lookahead consumes nothing and restore returns exactly to the saved point",
  "Looking ahead one or two code points, or asking for end of input, answers what the following reads will deliver and leaves the reading position, the counters and the line-break flag unchanged. Saving the reading state and later restoring it brings back exactly the state at the save, whatever was read, skipped, saved, restored or discarded in between. Discarding a saved state leaves the current state and the older saved states untouched.",
  ["inputs", "histories"], "every source text and every properly nested history of save, restore, discard, read and lookahead operations",
  "tests exercise a single lookahead and no nested save/restore; backtracking depends on every combination",
  ["span/source.go"], "state saved by value on a stack; lookahead decodes a copy of the remaining text",
  claim="all lookahead and save/restore functions are proved against contracts that include the frame (nothing else changes) for all texts and stack contents")
p("C03", "Byte offsets map to the right line and column",
  "For every offset in a source text the reported line is one plus the number of line breaks (CR LF, lone CR or LF) that end at or before it, and the reported column is the number of code points between the start of that line and the offset. Mapping a range gives the positions of its two ends, computed the same way. Mapping a position never moves the reading cursor.",
  ["inputs"], "every source text below 4 GiB and every offset or ordered range inside it",
  "tests check a dozen positions in texts with plain line feeds; the mapping has to hold at every offset, including inside CR LF and after multi-byte characters",
  ["span/source.go"], "scan for line breaks from the start of the text, count code points from the last one",
  claim="loop invariants prove both mapping functions equal to a recursive line/column specification for all texts and offsets; trusted: the regular-expression engine's leftmost match of the line-break pattern, byte view of a string")
p("C04", "Token lookahead and backtracking never change the token stream",
  "Peeking at upcoming tokens, one or several ahead, returns exactly the tokens that the following reads deliver, in the same order and each once; peeking again returns the same token and changes nothing. Saving the lexer state and restoring it brings back the same upcoming tokens, the same previous token and the same lexical modes as at the save, whatever tokens were read, and whatever modes were pushed, popped, added or erased in between; discarding a saved state changes neither the live state nor older saved ones. Modes form a stack: pop undoes the matching push, a mode pushed with inheritance takes over exactly the strict, async and TypeScript flags of the mode below, and the bottom mode is never lost.",
  ["inputs", "histories"], "every sequence of token reads, lookaheads (within the five-token buffer), mode changes, saves, restores and discards",
  "tests never interleave lookahead, mode changes and restore; the buffer wraps around and the states are copied structures holding shared storage",
  ["ecma/parser/lexer.go"], "ring buffer of five tokens inside a state copied onto a stack",
  claim="ring buffer, peek/next, mode stack and save/restore functions are proved against contracts with frames for all states; reading one token (lexTok) enters as an assumed contract that the bounded oracle exercises")
p("C13", "Slice and map helpers do exactly what they say",
  "Copying a slice or cloning a map yields equal contents in separate storage. Membership reports exactly whether the value occurs. Swapping exchanges two elements and removing an element by position drops exactly that one, and neither touches the others. Merging one map into another adds exactly the missing keys and overwrites none; picking returns an existing entry without removing it and taking removes exactly the entry returned. Looking up a path in nested objects gives the value reached by following the keys, or nothing; flattening lists every leaf under its dotted path; deep merging keeps whatever the source does not set.",
  ["inputs"], "every slice, map, index, key and nested object, for every element type",
  "tests cover one call of two of these helpers; the rest of the system uses them on graphs and scopes of any size",
  ["util/slice.go", "util/sets.go", "util/map.go", "util/obj.go", "util/merge.go"], "generic helper functions over slices and maps",
  claim="the generic helpers are proved for an arbitrary element type with full functional contracts and frames; path lookup, flattening, deep merge and key listing are covered by the bounded oracle")
p("C08", "Names, labels and jump targets resolve to the right scope",
  "A name resolves to the binding of the innermost enclosing scope that declares it. Within one scope a let or const declaration of a name already declared there with var, let or const is rejected, and so is a var or parameter clash with let or const of the same function; redeclaring with var, and shadowing in an inner scope, are accepted; a var declared in a block is also a binding of the enclosing function. Opening a scope links a new empty scope under the current one and passes on exactly the loop, switch, try, generator, async, parameter, constructor, strict, class and module context that reaches into it; leaving returns to the enclosing scope. Labels are visible up to the nearest function and may not be nested under the same name; an unlabelled break is accepted exactly inside a loop or switch of the same function, an unlabelled continue exactly inside a loop, and a labelled jump exactly inside a statement with that label in the same function. Whether two TypeScript declarations may share a name depends on their kinds only.",
  ["inputs", "histories"], "every scope chain, every set of existing bindings, every pair of definition kinds, and every nesting of statements, functions and labels",
  "tests try individual declarations; the rules have to hold for every nesting and for every combination of definition flags",
  ["ecma/parser/symtab.go", "ecma/parser/parser.go"], "scope chain linked by Up with per-scope maps of bindings and labels and inherited kind bits",
  claim="all scope, binding and definition-kind functions of symtab.go are proved against contracts for every chain, map and flag value; the statement functions of the parser that call them are covered by the bounded oracle")

p("C11", "Constant expressions and conditional branches evaluate as in JavaScript",
  "A numeric literal, in decimal, fraction, exponent, hexadecimal, octal, binary or legacy octal form and with or without separators, has its mathematical value rounded to a double. Evaluating an expression over literals, given variables, arrays and object members gives JavaScript's value: + adds numbers and concatenates when a side is a string, - * / work on doubles, equality of two values of one type compares them, && and || yield the operand that decides, ! negates truthiness, a whole index in range names that array element and anything else names nothing, a computed or dotted name names that property, and includes tests membership. Selecting branches under given variables reaches exactly the code whose conditions hold (if, else if, else, &&, ||, ?:), each part once and in order.",
  ["inputs"], "every expression of the supported operators and every nest of conditionals, under every set of variables",
  "tests evaluate some thirty fixed expressions; operators, nesting, literal forms and variables combine without bound",
  ["ecma/exec/vm.go", "ecma/parser/astutil.go", "ecma/astutil/astutil.go"], "listeners over a tree walk pushing operands on a stack; value conversion helpers",
  claim="the value conversion, addition, member and argument functions and the operator branch functions are proved against contracts for all values (IEEE doubles bit-precise); the stack machine and if-chains are covered by the bounded oracle")
p("C05", "Literals and names denote the characters that were written",
  "The value of a string literal, of each piece of a template literal, of an identifier and of JSX text is the sequence of characters its source text denotes: escape sequences (single-character, \\x, \\u, \\u{}, octal where allowed) stand for the code point they encode, an escaped surrogate pair for one character, a line continuation for nothing, CR and CRLF in a template for a line feed, an HTML entity for its character, everything else for itself. A literal or name with a malformed escape, an escape of a character a name may not contain, or no closing quote is rejected (in a tagged template a malformed escape is accepted), and no well-formed one is. The token ends exactly at its closing quote or at the last character of the name, and reading one always terminates.",
  ["inputs"], "every source text of a string, template, name or JSX text, of any length, with any characters and escapes",
  "tests cover a few dozen fixed literals; the value must be right for every combination of escapes and surrounding characters",
  ["ecma/parser/lexer.go"], "character loops over the source cursor that collect bytes and call the escape readers",
  claim="the escape readers, the name reader and the string and template scanners are proved: which escapes are legal, the code point each denotes, where the token ends, termination, and the text of names without escapes; the concatenation of the collected characters is compared by the bounded oracle")
p("C06", "The source text splits into the tokens of the lexical grammar",
  "Reading tokens from a source text yields the sequence the lexical grammar prescribes: white space and comments are skipped, each token is the longest one of its class that starts at the current position (punctuators, numeric literals with separators, exponents, radix prefixes and bigint suffixes, strings, names, keywords, regular expressions), it carries its exact extent, and it is marked as preceded by a line break exactly when a line terminator stands before it, alone or inside comments. Malformed numbers and unterminated comments are rejected. A name is classified as a keyword exactly when its text is one. The end of the text yields the end token, again and again, and every reading step terminates.",
  ["inputs"], "every source text, of any length, with any Unicode characters, white space, line terminators and comments between tokens",
  "tests tokenize fixed snippets; token boundaries must be right for every sequence of neighbouring characters",
  ["ecma/parser/lexer.go", "ecma/parser/token.go", "span/source.go"], "hand-written scanner: one switch over the first character, loops over digits and name characters, a mode stack and a one-token memory for regular expressions",
  claim="the scanner is proved from the token loop down: white space, comments, punctuators (longest match), numbers (accepted exactly when well formed, exact end), names and keywords, the regexp/division decision, extents, line-break marks of single tokens and termination; the regular expression body and the Unicode tables enter as assumed contracts that the oracle checks")
p("C07", "Expressions are grouped by operator precedence and associativity",
  "Parsing an expression yields the tree that ECMAScript's precedence and associativity prescribe: operands of a binary operator that are binary themselves bind tighter than it, or equally tight on the side the operator associates to (left, except ** on the right); a conditional, assignment, arrow function or comma never appears unparenthesised as an operand of something tighter; unary and update operators apply to exactly the operand that follows or precedes them; member accesses, calls, new and optional chains attach to exactly their base; parentheses override all of this. A slash starts a regular expression exactly where an operand may begin and divides everywhere else. Every node keeps the operator and the operands that were written, in their order.",
  ["inputs"], "every expression built from the operators, calls, member accesses, literals, functions and parentheses, of any nesting and length, with any white space and comments between tokens",
  "tests parse a few hundred fixed expressions; the grouping has to be right for every combination of neighbouring operators",
  ["ecma/parser/parser.go", "ecma/parser/token.go"], "operator-precedence loop over a table of token kinds, recursive descent above and below it",
  claim="token classification, the operator table and the functions for comma, assignment, conditional, binary, unary and update expressions are proved against contracts that state the grouping rules for all token streams; operand parsing below them (lhs, arrow functions, yield, await, TypeScript forms) enters as assumed contracts that the bounded round-trip oracle exercises")
p("C09", "A tree walk visits every node once, nested, in its scope",
  "Walking a syntax tree visits the root and every child that a visited node has, each once per place it stands in, under the key that names this place, in the order of the places; absent children are skipped. The before event of a node is raised before any of its children is visited and the after event after all of them, both for the node's own type, and at each of these points the context gives the node, its parent, the path of keys from the root and the scope that the parser has opened for the innermost enclosing construct; afterwards all of them are as before. Listeners of an event run in the order in which they were added, without those removed. A replaced visitor decides alone whether its subtree is visited. Once the walk is stopped no further node is visited and no further listener of the running event is called, while nodes already entered are still left properly.",
  ["inputs", "histories"], "every syntax tree, every assignment of visitors and listeners, every point at which the walk is stopped",
  "tests walk some ten small programs; there are 120 node kinds, each with its own visitor function, and any nesting of them",
  ["ecma/walk/visitor.go", "ecma/walk/ctx.go", "script/visitor_gen/main.go"], "one generated function per node kind that calls visitors through a table, with a context stack and a scope stack",
  claim="all generated visitor functions and the walk context functions (322 contracts, CallListener and NewWalkCtx included) are proved: the exact sequence of visitor and listener calls with key, parent context and scope for every tree and stop point; the dispatch table, listener registration, and the visitors of TsRef and TsIdxSig are covered by the bounded oracle")
p("C10", "ESTree conversion is faithful to the syntax tree",
  "Converting a parsed program to ESTree gives, for every node of the tree, the ESTree node whose type the node's kind and flags prescribe, with its children converted and placed under the right names, in their order and number (a missing child is null, a hole in an array keeps its place), and with the node's own values: operator, name, literal value and raw text, kind, and the computed, shorthand, method, static, async, generator, optional, prefix, delegate and await marks. Parentheses leave no trace. Template literals alternate strings and expressions, each string with its cooked and raw text and only the last marked as tail. Start and end are the node's range (reaching back to its first decorator, or over its type annotation, where there is one), and the line and column given for them are those of the source text when asked for and absent otherwise. TypeScript annotations, type parameters and arguments, decorators and modifiers of a node are carried over in the same way.",
  ["inputs"], "every parsed program (JavaScript, JSX, TypeScript), of any nesting, with or without line and column",
  "tests compare whole-program JSON of some hundred fixed sources; there are about 170 node kinds with several variants each, and any combination of flags and absent children",
  ["ecma/estree/convert.go", "ecma/estree/ts_convert.go"], "one large switch over node kinds that builds one ESTree struct each, recursively",
  claim="Convert is proved kind by kind (103 clauses: type, range, place, every field, every child, for all trees), with the functions for lists, parameters, templates, imports, exports, identifiers, type parameters, places of typed and decorated nodes; the contracts speak about normal returns; ConvertTsTyp (types and declarations of TypeScript) is proved in the same way, 66 more clauses")
p("C12", "The ordered map keeps insertion order and the LRU cache its capacity",
  "An ordered map holds for each key the value last set and nothing for keys removed or never set. Going through it from its front gives every key exactly once, in the order in which the keys were last set. The LRU cache answers with the value last set for a key it holds, never holds more entries than its capacity, evicts nothing while there is room, and when full evicts exactly the configured number of entries (a third of the capacity, at least one, if none was given), namely those set longest ago; an evicted key is no longer held.",
  ["inputs", "histories"], "every history of set, get, has, remove and traversal operations, every key and value type, every positive capacity and clear count",
  "there is no test of either; the map and the list behind them have to agree after every history",
  ["util/map.go", "util/lru.go"], "a dictionary into a doubly linked list",
  claim="all functions of both types are proved for arbitrary key and value types with a representation invariant tying dictionary and list; the standard library list and mutex are trusted contracts")
p("C14", "Parsing ends, without a panic, in a tree or one error for every text",
  "For every source text and every combination of language features, parsing terminates and returns either a syntax tree or one error whose position lies inside the text; it never panics, and parsing the same text twice gives the same outcome.",
  ["inputs"], "every source text, every feature set",
  "tests parse fixed texts; hangs and panics hide in rare token sequences",
  ["ecma/parser/parser.go", "ecma/parser/ts.go", "ecma/parser/jsx.go"], "recursive descent with backtracking",
  na="needs contracts with nil-safety, type-assertion and termination measures for all of the roughly 400 mutually recursive functions of parser.go, ts.go and jsx.go (9000 lines, backtracking by PushState/PopState); within reach were the scanner (C04-C06), scopes (C08) and the expression functions (C07), whose run-time-error and termination obligations are discharged there; claiming the whole would rest on a bounded check only")
p("C15", "The control-flow graph links exactly the possible next steps",
  "The control-flow graph built from a program has an edge between two nodes exactly when control can pass from the one directly to the other: sequences, branches, loops, short-circuit operators, jumps with and without labels, switch fall-through, return, throw and the try, catch and finally paths; code after an unconditional jump is cut off, and every edge is recorded at both of its ends.",
  ["inputs"], "every program",
  "tests compare the printed graph of some fifty snippets",
  ["ecma/analysis"], "listeners on the tree walk that link blocks through stacks of pending edges",
  na="the graph is assembled by listener closures that share mutable stacks across before and after events of different nodes; its correctness is a relation between a cyclic heap graph and the whole program text, which needs separation logic or a global heap invariant over all node kinds that govc's first-order per-function contracts cannot carry")
p("C16", "The directory walker and the parse cache are safe under concurrency",
  "Walking a directory with any number of workers hands every file and directory below it to the handler exactly once and then ends, under every schedule; stopping it ends it early and keeps the error given. A parse cache shared by goroutines never hands out the tree of another file.",
  ["inputs", "schedules"], "every directory tree, every number of workers, every schedule",
  "tests walk one small directory with the scheduler's usual interleaving",
  ["util/walkdir.go", "parseutil/cache.go"], "worker goroutines over a shared queue with counters and a mutex",
  na="govc reasons about sequential code only: it has no permissions, locks or interference conditions, so a schedule-quantified guarantee is outside this technique here (the sequential behaviour of the structure behind the cache is C12)")
