#!/usr/bin/env python3
"""Single table of the properties; `props.py` rewrites properties.jsonl and MANIFEST.json from it."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, L = 'src/decoder.rs', 'src/loc_decoder.rs'
NOTE = 'Decides the stated rule for every construct of the current source, for all inputs; trusts rustc MIR, the MIR dumper, the value-flow engine and the rule table. Constructs the abstraction cannot resolve are listed as undecided in the evidence and not counted as discharged.'
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note='', observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe), 'hook_needed': None},
                  technique=technique, note=note))
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}, na=reason))

INTERP = [('Decoder::parse, one arm per format node', D), ('Decoder::parse_with_loc, one arm per format node', L)]
prop('P01', 'Every parse step continues exactly where the previous one stopped',
     'Interpreting a format, each nested format starts at the input position where the one before it ended; after sub-slices, alignment, lookahead, bit fields, offsets and views, the position the node resumes at is the one the node defines, independent of how the nested parse went. Lookahead never consumes input and a slice always consumes exactly its declared length.',
     ['inputs', 'programs'], 'for every format, every input and every outcome of the nested parses, in both interpreters',
     'The existing tests run a few dozen hand-written formats on short inputs; a position slip on a rarely taken path (a node inside a slice, a failing branch, a zero-length repetition) is not sampled.',
     [D, L, 'src/read.rs'], INTERP + [('ReadCtxt cursor', 'src/read.rs')],
     'linear-cursor value flow over MIR, one abstract run per node kind')
prop('P03', 'Reported locations span exactly the bytes each value was parsed from',
     'When a file is interpreted with locations, every value carries the offset at which its node started and the number of bytes the node consumed; wrapper values report the location of what they wrap, and computed values are marked as not coming from the input.',
     ['inputs', 'programs'], 'for every format and input, every value in the located result',
     'No existing test looks at offset and length of more than a handful of values.',
     [L], [('location constructors', L), ('ParsedValue::get_loc / translate', L)],
     'value flow of (offset, length) pairs over MIR per node kind')
prop('P04', 'Recoverable errors are never lost',
     'Every recoverable error met while interpreting (a soft condition that fails, a permitted failure, bytes left over after an embedded parse) is still in the error list of the final result, whatever combinators enclose it, and the entry points report every one of them. Only errors of a speculative alternative that was abandoned are dropped.',
     ['inputs', 'programs', 'fault_sequences'], 'for every format, input and sequence of soft failures, in both interpreters',
     'Tests check single soft failures in a few positions; losing errors in one loop or one wrapper is invisible to them.',
     [D, L, 'src/util.rs'], INTERP + [('WithErr error list', 'src/util.rs')],
     'coverage-token value flow of error lists over MIR')
prop('P05', 'Choices, repetitions and validations accept and reject as defined',
     'Each choice, repetition, optional, lookahead and validation node continues, succeeds or fails exactly as its lookahead answer, predicate, bounds and nested outcome prescribe: bounded repetition respects both bounds, terminator-driven repetition stops at the first element satisfying the predicate, negative lookahead succeeds only if the nested parse fails, and a strict condition that does not hold is an error.',
     ['inputs', 'programs'], 'for every combination of lookahead answer, predicate truth, bound order and nested outcome, in both interpreters',
     'The space of answer combinations times node kinds is only sampled by tests; several nodes have no rejecting test at all.',
     [D, L], INTERP, 'case-split value flow over MIR: reachable outcomes per forced answer')
prop('P06', 'Parse results contain every parsed part exactly once and in order',
     'The value produced by a format node is built from the values of exactly its parts, in parse order, with the right label, branch number or wrapper; a repetition yields every element it parsed, none dropped, duplicated or reordered.',
     ['inputs', 'programs'], 'for every format and input, in both interpreters',
     'Tests compare complete values for a few small formats; loss of an element on a boundary iteration is not sampled.',
     [D, L], INTERP, 'value-provenance and element-coverage flow over MIR')
prop('P07', 'Names resolve to the innermost binding and nested formats see the right scope',
     'A nested format or expression sees exactly the bindings its enclosing nodes introduce: each binding node adds its own name with its own value on top of the surrounding scope, the newest binding of a name wins, and a called definition sees only its arguments, evaluated in the scope of the caller. Looking a name up never yields a binding of another name or another kind.',
     ['programs', 'inputs'], 'for every nesting of binding nodes and every name, in both interpreters',
     'Tests rarely shadow names or nest different kinds of bindings.',
     [D, L], INTERP + [('Scope lookup', D), ('LocScope lookup', L)], 'value flow of scope arguments over MIR; lookup decided per binding kind and name equality')
prop('P02', 'The plain and the located interpreter agree on every input',
     'Running a program with locations and without gives the same outcome: the same format nodes parse the same nested formats at the same positions in the same scopes, evaluate the same expressions with the same arguments and build the same value; every expression, on every kind of operand value, gives the same result or panics in both; every pattern matches the same values and binds the same names; converting located values to plain ones keeps their kind and contents.',
     ['inputs', 'programs'], 'for every format, expression, pattern and value kind, and every input',
     'Tests run one of the two interpreters on a given format; a divergence in one arm on one operand kind is never compared.',
     [D, L, 'src/decoder/value.rs'], INTERP + [('Expr::eval / Expr::eval_with_loc', D + ', ' + L), ('Value::matches_inner / ParsedValue::matches_inner', 'src/decoder/value.rs, ' + L)],
     'sibling comparison of abstract results over MIR, split by node, expression, operand, lambda-result, pattern and value kind')
prop('P08', 'Expressions evaluate to what their operator means',
     'Comparisons and arithmetic give the mathematical result of their operands in the written order, or panic, for every integer width: overflow, underflow and narrowing conversions are never silently wrapped. Byte-order conversions place every byte at its own position, sequence operations (length, index, sub-sequence, inflating copy, duplication, ranges, folds and flat-maps) read exactly the elements they define and pass the running state from step to step, and matches evaluate the arm that matched in the scope its pattern bound.',
     ['inputs', 'programs'], 'for every operator, operand kind and operand order, in both interpreters',
     'Operators times widths times operand kinds are sampled by a few tests; wrapped narrowing or a swapped byte shows only on particular values.',
     [D, L, 'src/decoder/value.rs', 'src/decoder/seq_kind.rs'], [('Expr::eval', D), ('Expr::eval_with_loc', L), ('Value::int_rel / arith / unary', 'src/decoder/value.rs')],
     'case-split value flow over MIR: per operator, operand kind and assumed operand order the abstract result is compared with the defined one')
prop('P09', 'A pattern matches exactly the values it describes and binds the right parts',
     'Matching a value against a pattern succeeds exactly when the value, seen through mapping, branch and permitted-failure wrappers at every depth, has the described kind, number, range, label, length and nested parts; numbers match by value whatever their width where the pattern allows it. A binding names exactly the part it stands for and a match yields bindings exactly when it succeeds.',
     ['inputs', 'programs'], 'for every pattern kind, value kind and comparison outcome, in both interpreters',
     'Pattern kinds times value kinds times wrappers are far more combinations than tests hold.',
     ['src/decoder/value.rs', L], [('Value::matches_inner', 'src/decoder/value.rs'), ('ParsedValue::matches_inner', L), ('coerce_nominal_value / coerce_mapped_value', 'src/decoder/value.rs')],
     'case-split value flow over MIR: verdict, compared data, nested pairing and bindings per pattern x value kind')

prop('P10', 'A sequence has the same length and elements however it is represented',
     'A sequence held as an explicit list, as a repeated element or as an integer range has the length, emptiness, elements (by index and by iteration) and sub-sequences that its elements define; an access or sub-sequence that leaves the sequence is rejected and every one that stays inside it, up to and including the end, is accepted; concatenation keeps all elements of both sides in order.',
     ['inputs'], 'for every sequence, index and length',
     'Sequences of any length arise from input; off-by-one ends and rare representations only show for particular lengths.',
     ['src/decoder/seq_kind.rs'], [('SeqKind::get / sub_seq / append / into_vec / iter, Index', 'src/decoder/seq_kind.rs'), ('sub_range', 'src/decoder/seq_kind.rs'), ('ValueSeq', 'src/decoder/seq_kind.rs')],
     'per-representation value flow over MIR with branch conditions decided for each ordering of index, end and length')
prop('P11', 'Interval arithmetic on counts and sizes never excludes a possible result',
     'For every pair of ranges, bounded or not, the range computed for their sum, difference, product, quotient, remainder, shift, bitwise combination or union contains every mathematical result of combining a value of the one with a value of the other, also where ends overflow; two exact operands of an arithmetic operator do not give an unbounded result unless it overflows; containment, intersection with limits, exactness, conversion to bytes and the comparison and union of number ranges answer exactly.',
     ['inputs'], 'for all ranges and all values in them',
     'The existing tests sample operands below 256 at random; a wrong end shows for single combinations of a value and a range.',
     ['src/bounds.rs', 'src/numeric/core.rs'], [('Bounds and its operators', 'src/bounds.rs'), ('Bounds::bitwise_bounds / mask', 'src/bounds.rs'), ('Bounds::contains / encompasses / unify', 'src/numeric/core.rs')],
     'derivation of each interval end by monotonicity over terms extracted from MIR, per ordering of the operand ends, with a two-region bit domain for common prefixes')
prop('P12', 'Byte sets behave as sets of bytes, also in generated code',
     'A byte set contains exactly the bytes put into it: membership, insertion and removal concern the given byte and no other, union, intersection, difference and complement are those of sets, emptiness, fullness, disjointness, size, least and greatest member are exact, a set built from bytes or from a range (inclusive or not, within or across machine words) has exactly those members, and the test generated for a set in a parser accepts exactly its members.',
     ['inputs'], 'for all 2^256 sets and all bytes',
     'The bytes of a set are spread over four words; a slip in one word, at a word boundary or for one size only shows for particular sets.',
     ['src/byte_set.rs', 'src/codegen/mod.rs'], [('ByteSet', 'src/byte_set.rs'), ('ByteCriterion / embed_byteset', 'src/codegen/mod.rs')],
     'constant propagation of every byte value through MIR with symbolic words, compared bit by bit as boolean functions')
prop('P13', 'Compiling a format keeps every part of it and what follows it',
     'Compiling a format, for the interpreters and for code generation alike, yields a decoder with the meaning of the format: each node becomes its own decoder, every operand ends up in its place, every nested format is compiled against what can really follow it, alternatives are told apart in their own order, and a named format means the same as the format written in its place. A format that could repeat forever without consuming, whose alternatives cannot be told apart, or that looks ahead without limit is rejected rather than compiled.',
     ['programs'], 'for every format, nested in every context',
     'The set of formats and of contexts in which one is nested is unbounded; tests compile a few dozen.',
     ['src/decoder.rs', 'src/codegen/typed_decoder.rs'], [('Compiler::compile_format', 'src/decoder.rs'), ('GTCompiler::compile_gt_format', 'src/codegen/typed_decoder.rs')],
     'per-node value flow over MIR from each format node to the decoder, with forced outcomes of nested compilation, lookahead and nullability')
prop('P14', 'Lookahead admits for each alternative the bytes it can begin with',
     'The tree that chooses between alternatives, or between going on and stopping, admits for each of them the bytes it can begin with (a permitted format counting as its content) followed by what follows it: no alternative is excluded on input it could match, two alternatives are kept apart by exactly the bytes on which they differ, and where no bounded lookahead can keep them apart no tree is built. Matching a tree against input follows the branch that holds the next byte, and falls back to the alternative that accepts here.',
     ['programs', 'inputs'], 'for every set of alternatives, continuation and input',
     'Lookahead failures show only on particular combinations of alternatives, continuations and bytes, which samples rarely hit.',
     ['src/lib.rs'], [('MatchTreeStep::from_format / from_gt_format / from_next', 'src/lib.rs'), ('MatchTreeStep::union / peek / peek_not / from_slice', 'src/lib.rs'), ('MatchTreeLevel::merge_* / grow, MatchTree::matches / build', 'src/lib.rs')],
     'per-node value flow over MIR plus symbolic set-algebra classification of the byte classes filed by the merge operations')
prop('P15', 'Size bounds and dependence on what follows never underestimate a format',
     'The number of bytes a format can consume, and the number it can look at, lie within the bounds computed for it; a count or length expression evaluates within its bounds; a format that may consume nothing is nullable; and a format some part of which is compiled differently depending on what follows it is reported to depend on what follows it.',
     ['programs', 'inputs'], 'for every format and expression',
     'Bounds are consulted at compile time for formats of any shape; a wrong one only shows for particular nestings.',
     ['src/format.rs', 'src/codegen/typed_format.rs', 'src/lib.rs'], [('Format::match_bounds / lookahead_bounds / is_nullable / depends_on_next', 'src/format.rs'), ('TypedFormat::match_bounds / lookahead_bounds', 'src/codegen/typed_format.rs'), ('Expr::bounds', 'src/lib.rs')],
     'per-node value flow over MIR, compared with the algebra of consumption (sum, union, product) of the node')

prop('P16', 'The parser behind generated code stays inside its slice and rewinds exactly',
     'Every operation of the parser that generated code runs on (reading, skipping, aligning, opening and closing slices, lookaheads, negative lookaheads, alternatives, bits-mode, finishing, views) reads the byte or bit at its position, fails exactly when it would pass the innermost open slice or the end of the buffer, leaves the position where the operation ends, and restores on rewinding the position and the open contexts of the checkpoint; none of them panics on a well-nested use.',
     ['inputs', 'histories'], 'for every sequence of open contexts, every position (bytes or bits) and every ordering of position, amount, slice end and buffer end',
     'The parser tests run a few call sequences on short buffers; a slip at a slice end inside an alternative in bits-mode is not sampled.',
     ['src/parser/mod.rs', 'src/parser/offset.rs', 'src/parser/view.rs', 'src/parser/error.rs'], [('Parser operations', 'src/parser/mod.rs'), ('BufferOffset, ViewStack, ByteOffset', 'src/parser/offset.rs'), ('View', 'src/parser/view.rs')],
     'abstract interpretation of each operation over MIR with an ordered list domain for the context stack and case splits over orderings of symbolic offsets')

prop('P17', 'Generated code performs for every decoder node the steps of that node',
     'The Rust code generated for each kind of decoder node (bytes, sequences, alternatives, lookahead, repetitions, slices, bits-mode, offsets, bindings, conditions, records, variants, calls, views) performs exactly the parser operations of that node in order, takes the decisions the node stands for, accumulates every repeated value once, and yields the same value, whether the inner code can fail in a statement, in its value, or not at all; lookahead code selects the alternative that the match tree selects, also at the end of input, and rewinds.',
     ['inputs', 'histories'], 'for every node kind with any inner decoders, expressions and patterns, every list size up to three, every combination of failing and not failing inner code, every match tree up to depth two, and so for every input the generated code is run on',
     'The tests compile one fixed generated file and run a few formats; a slip in the code of a node shape or nesting that no shipped format uses is never executed.',
     ['src/codegen/mod.rs', 'src/codegen/model.rs', 'src/codegen/rust_ast/mod.rs', 'src/prelude.rs'], [('CodeGen::translate', 'src/codegen/mod.rs'), ('CaseLogic::to_ast and the *Logic it dispatches to', 'src/codegen/mod.rs'), ('embed_matchtree, ByteCriterion, embed_byteset', 'src/codegen/mod.rs'), ('GenBlock conversions, local_try, abstracted_try', 'src/codegen/mod.rs'), ('repeat_between_finished', 'src/prelude.rs')],
     'abstract interpretation of the code generator over MIR on symbolic nodes, followed by a denotational reading of the Rust syntax tree it builds, compared with the meaning of the node')

prop('P18', 'Generated expressions, patterns and function calls compute the right value',
     'The Rust code generated for every kind of expression (literals, variables, projections, arithmetic, comparisons, casts, byte composition, sequence operations, lifted options, matches), for every pattern and for every application of a user function to one or two arguments computes the value the interpreter computes wherever that yields one: same operator and operand order, same first matching case (also where a match that only gives true or false is shortened), parameters bound to the arguments even when a name occurs on both sides; and the run-time helpers it calls (mapping, folding, sub-sequences, searching by key, dynamic-length copying) process every element once, in order.',
     ['inputs'], 'for every expression and pattern kind with any operands of any type of integer, every true/false match of up to three cases, every one- or two-argument function over any body, and for the helpers every function value and every sequence of up to three elements',
     'The tests compile one fixed generated file whose formats use few kinds of expressions with few shapes; an operand order, a match with a wildcard in the middle or a clash of names that no shipped format has is never executed.',
     ['src/codegen/mod.rs', 'src/codegen/model.rs', 'src/codegen/rust_ast/mod.rs', 'src/prelude.rs'], [('embed_expr, embed_match_expr, try_as_matches_macro_cases', 'src/codegen/mod.rs'), ('embed_pattern, embed_view_expr', 'src/codegen/mod.rs'), ('GenLambda::apply, beta_reduce, apply_pair', 'src/codegen/mod.rs'), ('VarContainer::contains_var_ref', 'src/codegen/rust_ast/mod.rs'), ('try_flat_map_vec, fold_left, find_by_key and other helpers', 'src/prelude.rs')],
     'abstract interpretation of the code generator over MIR on symbolic expressions, followed by a denotational reading of the Rust syntax tree it builds, compared with the meaning of the expression; abstract interpretation of the run-time helpers over symbolic sequences and an unknown function')

prop('P19', 'Arithmetic on embedded numbers is exact or reported as an error',
     'An operation on embedded numbers of machine-integer types (addition, subtraction, multiplication, division, remainder, negation, absolute value, casts) yields the exact mathematical result whenever it has a place in the result type, and an error otherwise: never a wrapped, truncated or saturated number and never a panic. Generated code calls, for every combination of operand and result types, an operation that exists and computes exactly that; the interpreter evaluates the same expressions to the exact number tagged with the requested type, fails on division by zero, on remainder by a non-positive divisor and on operands of unrelated types, and knows whether each intermediate result had a place in its type. Bitwise casts keep exactly the low bits, and the tables of ranges, inclusions and conversions of the integer types are right.',
     ['inputs', 'programs'], 'for all pairs of operand values (as intervals that cover each type, split at zero and at the ends of the types) for each of the operand and result types from 8 to 64 bits, signed and unsigned',
     'The tests evaluate a dozen expressions with small operands; of the 700 operations and 3000 type combinations only a handful is ever called, and none at the ends of its range.',
     ['src/numeric/eval.rs', 'src/numeric/core.rs', 'src/numeric/codegen.rs', 'src/numeric/elaborator.rs'], [('add_*, sub_*, mul_*, div_*, rem_*, neg_*, abs_*, cast_*', 'src/numeric/eval.rs'), ('eval_fallback, eval_unary_fallback, Eval::eval', 'src/numeric/eval.rs'), ('Expr::eval, Expr::eval_strict, bitwise_cast', 'src/numeric/core.rs'), ('MachineRep, Bounds, TypedConst', 'src/numeric/core.rs'), ('synthesize', 'src/numeric/codegen.rs')],
     'abstract interpretation over MIR with interval-valued operands, reading the number handed out as an exact integer expression and comparing it with the operation demanded; abstract interpretation of the generator\'s choice of operation on every type signature; exhaustive interpretation of the casts and type tables')

prop('P20', 'Reading from a buffer yields the encoded value and never leaves the buffer',
     'Every way of reading from a byte buffer (single bytes, big-endian numbers of each width, slices, sub-scopes, views, and arrays of fixed-size items with or without stride, by index, by iteration or by search) yields exactly the value encoded at the position and advances by exactly its size, or fails and leaves the position where it was. Whatever count, index, stride or offset it is given, however large, no access falls outside the buffer and no arithmetic on the way overflows.',
     ['inputs'], 'for all buffers, positions, counts, indices, strides and offsets up to the full width of a word, for all item sizes and every implementation of the fixed-size reader',
     'The tests read a handful of well-formed values; the ends of the buffer, counts whose size does not fit a word, strided arrays and the unchecked (unsafe) accesses are not exercised, and an access outside the buffer need not fail in a test.',
     ['src/read.rs', 'src/parser/view.rs', 'smallsorts/src/binary/read.rs'], [('ReadCtxt', 'src/read.rs'), ('View::{offset,read_len,as_read_array,read_array_*,read_u16be}', 'src/parser/view.rs'), ('ReadScope, ReadCtxt, ReadArray, ReadArrayIter, ReadUnchecked', 'smallsorts/src/binary/read.rs')],
     'abstract interpretation over MIR with symbolic buffer, position and amount, comparisons decided per ordering class of position, amount, size and end of buffer; results read as terms over the bytes of the buffer; bounds and overflow obligations on every unchecked access and arithmetic step')

prop('P21', 'Bit streams and Huffman codes decode as their tables define',
     'A format read in bits mode by an interpreter sees each byte as its eight bits, least significant first, one byte of 0 or 1 per bit. A dynamic Huffman format with given code lengths (reordered by the code values if there are any) decodes exactly the canonical prefix code of these lengths (shorter codes first, codes of one length in the order of their symbols, symbols of length zero absent, most significant bit first), in both interpreters and in the runtime of generated code alike. The runtime reads exactly the bits of the code it decodes, and reports bits that are no code, and tables whose codes collide, as errors.',
     ['inputs', 'programs'], 'for all input bytes, all values of the code words, and every table of up to three symbols of lengths up to three (thorough: four symbols), of two symbols of lengths up to six, and some larger ones, with and without reordering, on every bit string around its codes',
     'The tests decode a few files with the same two or three kinds of tables; a table with one symbol, with gaps in its lengths, with symbols of length zero or in an unusual order of values never occurs.',
     ['src/decoder.rs', 'src/loc_decoder.rs', 'src/prelude.rs'], [('Decoder::parse: Bits, Dynamic', 'src/decoder.rs'), ('make_huffman_codes, bit_range, value_to_vec_usize', 'src/decoder.rs'), ('Decoder::parse_with_loc: Bits, Dynamic', 'src/loc_decoder.rs'), ('make_huffman_codes, bit_range, value_to_vec_usize', 'src/loc_decoder.rs'), ('parse_huffman, make_huffman_decoder, bit_range', 'src/prelude.rs'), ('HuffmanNode::insert, HuffmanDriver::parse_one', 'src/prelude.rs')],
     'bit-level value-flow analysis over MIR on symbolic bytes, and constant propagation through table construction, tree construction and decoding for a bounded, exhaustive set of code tables, compared with the canonical code')

prop('P22', 'The text of generated code reads back as the code that was generated',
     'Printing a tree of generated Rust code gives text that the Rust grammar reads as the same tree: every operator keeps its operands and their grouping whatever it is nested in (up to regrouping a chain of one associative operator), and every projection, call, cast, closure, block, statement, control structure, match arm and pattern keeps its parts, in order. In particular parentheses are never left out where precedence or associativity would regroup the text, and nothing is dropped because it was taken for empty text.',
     ['programs', 'outputs'], 'for every kind of node of the generated-code tree in every operand position of every other kind its result can be an operand of, for all operand texts; values passed on unchanged are looked through',
     'The tests compare the printed text of two tiny trees; the generated parsers of the repository nest few operators, so that a grouping lost in printing compiles and goes unnoticed.',
     ['src/codegen/rust_ast/mod.rs', 'src/precedence.rs', 'src/output.rs'], [('ToFragmentExt for RustExpr, RustOp, RustClosure', 'src/codegen/rust_ast/mod.rs'), ('ToFragment for RustStmt, RustControl, RustPattern, RustMatchBody', 'src/codegen/rust_ast/mod.rs'), ('Precedence::relate, cond_paren', 'src/precedence.rs'), ('Fragment', 'src/output.rs')],
     'constant propagation through the printers (MIR) for every pair of parent and child nodes with symbolic leaves, and parsing of the resulting text by the precedence and associativity rules of the Rust reference')

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
               'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE} for p in sorted(P, key=lambda p: p['id']) if 'na' not in p]
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in sorted(P, key=lambda p: p['id']) if 'na' in p],
         'notes': 'Every check dumps MIR facts of /repo with a rustc driver (cached in .work by source hash) and decides its rule from them; nothing of /repo is executed.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
def design():
    import sys; sys.path.insert(0, os.path.join(ROOT, 'tools')); sys.dont_write_bytecode = True
    from how import HOW
    t = open(os.path.join(ROOT, 'tools', 'DESIGN.tmpl')).read()
    ps = []
    for p in sorted(P, key=lambda p: p['id']):
        ps.append('### %s %s\n\n%s\n' % (p['id'], p['title'], ('Not applicable: ' + p['na']) if 'na' in p else HOW[p['id']] + ' Beyond tests: ' + p['why_tests_cant']))
    fx = '\n'.join('* ' + x[len('fixed: '):] for x in json.load(open(os.path.join(ROOT, 'known_findings.json')))['fixed'])
    fi = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
    if fi: fx += '\n\nRecorded, not repaired:\n\n' + '\n'.join('* %s `%s`: %s' % (f['property'], f['key'], f['what']) for f in fi)
    rows = ['| planted bug | property | caught by its check | what |', '|---|---|---|---|']
    sd = os.path.join(ROOT, 'seeded'); st = {}
    sp = os.path.join(ROOT, 'tools', 'caught.json')
    if os.path.exists(sp): st = json.load(open(sp))
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (d, m['property'], st.get(d, '?'), m['what_it_breaks'].replace('|', '/')))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t.replace('@@PROPS@@', '\n'.join(ps)).replace('@@FIXED@@', fx).replace('@@SEEDS@@', '\n'.join(rows)))
if __name__ == '__main__': main(); design()
