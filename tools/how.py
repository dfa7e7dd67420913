"""Per property: how static analysis decides it (goes into DESIGN.md)."""
HOW = {
'P01': "The input cursor is a linear value. For each of the 43 decoder node kinds, both interpreters are run abstractly with the node's variant fixed; every nested parse receives a cursor whose provenance (entry cursor, result of the previous nested parse, split, offset …) must be the one the node defines (table in the rule), and so must the cursor the node returns on every successful path. `ReadCtxt` operations are judged separately (advance amount, bounds test before every read, slice containment).",
'P02': "Sibling comparison. For every node kind, expression kind × operand value kinds × lambda results, pattern × value kind, the abstract results (value, failure, panic, nested calls and their arguments, location erased) of the plain and of the located interpreter must coincide. Oracle: the other implementation. Split cases which the domain cannot separate are undecided.",
'P03': "The located interpreter's values carry (offset, length). For each node kind the provenance of both must be: offset = entry cursor offset, length = difference of exit and entry cursor offsets; wrappers delegate; computed values carry no location.",
'P04': "Coverage tokens: error lists returned by nested parses are tagged 'earlier' / 'last'; the list attached to each successful result must cover both, plus the node's own soft error in the forced cases (failed soft condition, permitted failure, trailing bytes) on *every* alternative. The entry points must consume the whole list.",
'P05': "Case split by forced answers: lookahead decision tree answer, predicate truth, order of counter and bounds, outcome of the nested parse. For each combination the set of reachable outcomes (continue, succeed, fail) must be the defined one.",
'P06': "The location-erased provenance of each node's result value must be the defined constructor over the defined parts; element-coverage tokens show that the returned list holds every element parsed; no operation removes or reorders elements.",
'P07': "The scope argument of every nested parse/eval is compared with the defined binding structure; lookup functions are run for each binding kind × (name equal / not equal) and must return the binding, or continue with the parent scope.",
'P08': "Each expression is run for each operand kind under assumed comparison outcomes; the operation tree must be the defined one: checked operations for arithmetic, lossless or checked casts, byte at position i shifted by 8·i, elements read at the defined indices, accumulator threading in folds.",
'P09': "matches_inner is run for each pattern kind × value kind × comparison outcome: verdict, what is compared with what, nested (sub-pattern, sub-value) pairing and bindings must be as defined; wrappers are looked through at every depth.",
'P10': "Each operation is run abstractly once per representation with symbolic elements; branch conditions over index, length and end are decided for each ordering of the three (a representative of each region), the result stays symbolic and must be the term the elements define. Violations: a wrong term in the vocabulary of lists, repetition counts and ranges, or a region that is accepted / rejected against the definition. Cannot see: equality between differently represented sequences (derived, and different by design).",
'P11': "The ends of every result are terms over the operand ends; a small derivation system (lower / upper bound of an operand, monotone and antitone operators, checked and saturating arithmetic, a shift kept only if it shifts back) must derive them as bounds. Selections (union, containment, clamp, number ranges) are run under every total preorder of the ends. Common-prefix masks are evaluated in a domain of two bit regions (below / from the highest differing bit). Raw machine arithmetic on ends is a violation unless a comparison guards it (then undecided).",
'P12': "256 constant bytes x four symbolic words give the exact boolean function each result bit computes, so every member of the quantifier is covered; tests and extremes are decided for every combination of empty / full / other words, lengths for distinct word counts, ranges for pairs inside, at the edges of and across words; generated tests per size class 0, 1, 2..254, 255, 256.",
'P13': "Each format node is compiled abstractly (43 plain, 42 typed nodes) with the answers of nested compilation, tree construction, nullability, lookahead and count bounds forced; the resulting decoder term must be the one in the table: operands by position, nested formats with the continuation that follows them, lookahead over (element+rest / nothing) or the alternatives in order, definitions compiled against the continuation they are called with unless independent of it.",
'P14': "(1) For each format node and each continuation kind the lookahead step is an exact term: union of nested steps with the continuation that follows, or the admit-anything step for nodes that are not predictable. (2) The byte-set terms produced by union_branch / merge_branch / peek / peek_not are classified (old class, new class, common part, rest); each class must be filed under exactly the continuations that admit it, for every combination of empty/non-empty parts. (3) grow / accepts / merge_accept / matches / build are run with forced outcomes. Cost: under a second. Known finding: negated lookahead of an unpredictable node.",
'P15': "For each format node the bounds are an exact term over the bounds of its parts (sums and unions flattened, products compared factor by factor), bits are checked through concrete bounds, dependence on the continuation by forcing the answer of each nested format that compile_format compiles against the continuation (same operand table as P13). For expressions the operator on bounds must be the operator of the node or the unbounded interval.",
'P16': "Each operation's MIR is interpreted abstractly with symbolic offsets; comparisons are resolved by a finite set of orderings of position, amount, innermost limit, buffer end and view start (byte and bit positions, up to three open contexts of every kind), so each path is decided for all offsets of that ordering. The resulting terms (byte index read, bit shift, new position, new stack) are compared with a reference semantics of the operation written from the documentation. Contexts are kept in an ordered list domain so pushes and truncations of the stack are exact. Not covered: sequences that are not well nested, and backward seeks (generated offset reads before the start of an open slice deliberately see past the slice).",
'P17': "CodeGen::translate and CaseLogic::to_ast are interpreted abstractly (MIR, ordered list domain, trait dispatch by the abstract receiver) on each TypedDecoder variant with symbolic children; inner code is supplied in three shapes (fails in a statement, fails in its value through ?, cannot fail; all combinations for alternatives). The GenBlock or RustExpr that comes out is an abstract value, not text: engine/rustsem.py reads it in continuation-passing style and yields a canonical description of operations, branches, loops, accumulation and result, so that let-bindings, closures, match versus if, statement order of pure code and block nesting do not matter. That is compared with the meaning of the node (the same meaning P01, P05 and P06 hold the interpreter to). The same reading is applied to the block flattened to statements, converted to an expression, and wrapped in its function; to the lookahead code of 116 match trees; to byte-set code for all set sizes; and to the repetition helper of the prelude on all orderings of length, minimum and maximum. Not covered: the printing of the tree as text, and names chosen by a format that collide with names the generator uses.",
'P18': "embed_expr, embed_pattern, embed_view_expr and GenLambda's apply, beta_reduce and apply_pair are interpreted abstractly on every TypedExpr / TypedPattern / ViewExpr variant with symbolic parts, for every operator, integer type and closure kind; the Rust syntax tree that comes out is reduced by engine/rustsem.py (let and tuple bindings substituted with scoping, matches! and ! read as truth functions) and compared with the meaning of the node. Matches that only give true or false are compared as truth tables over all literal/wildcard/true/false arrangements of up to three cases. Applications run over bodies that use the parameter directly, destructure it by let or by match, ignore a part, or rebind a name, with argument names that coincide with the binders; the free-variable test contains_var_ref is interpreted too, not assumed. Integer-range patterns are compared end by end. The helpers in prelude.rs are interpreted with an unknown function value whose applications stay symbolic, on sequences of zero to three symbolic elements. Not covered: names chosen by a format that collide with names the generator introduces in its own templates; arithmetic on embedded numeric expressions (P19); sub-expressions the interpreter itself panics on.",
'P19': "The 704 machine-integer helpers of numeric/eval.rs are interpreted abstractly, each on operands that range over intervals (the type cut at zero, -1 and the ends of the types involved), with comparisons decided by interval arithmetic; the number that comes out is read back as an exact integer expression (a cast or unchecked step that can leave its type ends the reading as a violation) and compared with the operation of the helper's name, as are the type whose range decides between value and error and the number reported in the error. synthesize is interpreted on all 2944 signatures (5 binary operations x 8^3, 4 unary x 8^2, casts x 8^2 in both semantics) and the call it builds must name an existing helper of that operation and signature, or the fallback with those type parameters. Expr::eval and Expr::eval_strict are interpreted on every operation, sign combination and validity flag; bitwise_cast on all 64 pairs; ranges, inclusion, conversions, representability and comparisons entry by entry. Not covered: which types the elaborator infers for an expression without annotations; remainder by a negative divisor in generated code (the evaluator has none).",
'P21': "The Bits arm of both interpreters is interpreted abstractly on an input of zero to two symbolic bytes; every element of the buffer it hands on is a term over those bytes, read as the bit it selects. The Dynamic arm is interpreted with the two expressions evaluating to constant sequences (every second element wrapped in a mapping), so that constants are propagated through the conversion, the reordering, the counting and the assignment of codes; the format it compiles must be the union of exactly the canonical codes, each mapped to its symbol. parse_huffman of the runtime is propagated the same way to the closure it returns, whose tree is then applied to every code, every proper prefix of a code, every code with a further bit, and all strings of the longest length; the symbol, the number of bits read and the errors are compared with the canonical code, and tables that violate the Kraft inequality must yield errors. Bounded: tables of up to three (thorough: four) symbols with lengths up to three, of two symbols with lengths up to six (runtime: four), and a few larger ones; loops are followed element by element, so the check says nothing about tables it does not enumerate. The byte order of bits in the runtime is part of P16, the binding of the decoder to its name of P07, the code that calls parse_huffman of P17.",
'P20': "The MIR of every public reader (doodle's ReadCtxt and View, the readers, scopes, arrays and iterators of smallsorts) is interpreted abstractly on a symbolic buffer and position with symbolic amounts; comparisons are resolved once per ordering class of position, amount times item size and end of buffer, with amounts up to the word size and those whose product wraps to something small. A slice is read as (buffer, start, length), a number as a term over the bytes of the buffer (compared with the big-endian value under six valuations that tell every bit and byte apart). get_unchecked and the unchecked item reads carry the obligation to lie inside their slice, overflow and bounds assertions the obligation not to fire. Item types are abstract: a read of T consumes SIZE(T) bytes, which is separately shown for every implementation of ReadUnchecked (tuples by their generic constants); so what is shown of arrays holds for all item types. Iterators are stepped to their end, and their size hints compared with what remains. Not covered: the Debug printers, ReadScopeOwned and ReadBuf (ownership wrappers), and the tag module. Before the fix commits the check reported the overflowing array sizes, the stride ignored by read_item, the size hint that never shrank and the overflowing offsets.",
'P22': "Every node kind of RustExpr, RustOp, RustStmt, RustControl, RustPattern and their helpers is built with symbolic leaves, and with every other node kind in each of its operand positions whose type admits it (comparisons and arithmetic on numbers, logic on booleans; infix subtraction is never generated). Its printer is interpreted abstractly over the MIR, so that precedence comparison, parentheses, separators and concatenation are propagated as constants; the text is then read by rules/rustparse.py, a reader for the expression and statement grammar of the Rust reference, and the tree read must be the tree printed. Chains of one associative operator are compared ungrouped. Fragment::is_vacuous, on which separators depend, and the Display of Fragment are decided separately on each kind of fragment. Numeric literals (formatted by the standard library), types and items are not covered. About 5,200 trees, 35 s.",
}
