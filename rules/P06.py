"""The value a format node yields is built from exactly its parts, in order, none lost."""
import re
import absint as A, interp as I
CRATES = ['doodle']
RULE = ('Value flow over the MIR of both interpreters: the (location-erased) value each node kind returns must be the constructor and operands '
        'the node defines, and for sequence-like nodes a coverage token proves that every element parsed so far is in the sequence '
        'when the next one is parsed and when the node returns.')

SPEC = {
    'Call': r'VAL\[program\.decoders\.\[\]\.0\]|VAL\[program\.decoders.*\]',
    'Pos': r'Value::U64\((cast:usize->u64|try_from:\w*|u64::from)\[(CUR0|ENTRY)\.offset\]\)',
    'Fail': r'',
    'EndOfInput': r'Value::Tuple\(LIST\{\}\)', 'Align': r'Value::Tuple\(LIST\{\}\)', 'SkipRemainder': r'Value::Tuple\(LIST\{\}\)', 'PeekNot': r'Value::Tuple\(LIST\{\}\)',
    'Byte': r'Value::U8\(READ:read_byte\[\]\)',
    'Variant': r'Value::Variant\(self\.Variant\.0, VAL\[self\.Variant\.1\]\)',
    'Parallel': r'Value::Branch\(index\[iter\[self\.Parallel\.0\]\], VAL\[self\.Parallel\.0\.\[\]\]\)',
    'Branch': r'Value::Branch\(TREE\[self\.Branch\.0\], VAL\[self\.Branch\.1\.\[\]\]\)',
    'Tuple': r'Value::Tuple\(LIST\{VAL\[self\.Tuple\.0\.\[\]\]\}\)',
    'Sequence': r'Value::Seq\(LIST\{VAL\[self\.Sequence\.0\.\[\]\]\}\)',
    'While': r'Value::Seq\(LIST\{VAL\[self\.While\.1\]\}\)', 'Until': r'Value::Seq\(LIST\{VAL\[self\.Until\.1\]\}\)',
    'RepeatCount': r'Value::Seq\(LIST\{VAL\[self\.RepeatCount\.1\]\}\)', 'RepeatUntilLast': r'Value::Seq\(LIST\{VAL\[self\.RepeatUntilLast\.1\]\}\)',
    'RepeatUntilSeq': r'Value::Seq\(LIST\{VAL\[self\.RepeatUntilSeq\.1\]\}\)', 'RepeatBetween': r'Value::Seq\(LIST\{VAL\[self\.RepeatBetween\.3\]\}\)',
    'ForEach': r'Value::Seq\(LIST\{VAL\[self\.ForEach\.2\]\}\)',
    'Maybe': r'Value::Option\(Option::None\(\)\|Option::Some\(VAL\[self\.Maybe\.1\]\)\)',
    'LiftedOption': r'Value::Option\(Option::None\(\)\|Option::Some\(VAL\[self\.LiftedOption\.0\.Some\.0\]\)\)',
    'Peek': r'VAL\[self\.Peek\.0\]', 'Slice': r'VAL\[self\.Slice\.1\]', 'Bits': r'VAL\[self\.Bits\.0\]',
    'WithRelativeOffset': r'VAL\[self\.WithRelativeOffset\.2\]', 'Where': r'VAL\[self\.Where\.0\]', 'Let': r'VAL\[self\.Let\.2\]',
    'Map': r'Value::Mapped\(VAL\[self\.Map\.0\], LAMBDA\[self\.Map\.1, scope, VAL\[self\.Map\.0\]\]\)',
    'Compute': r'EVAL\[self\.Compute\.0, scope\]',
    'Match': r'Value::Branch\(index\[iter\[self\.Match\.1\]\], VAL\[self\.Match\.1\.\[\]\.1\]\)',
    'Dynamic': r'VAL\[self\.Dynamic\.2\]', 'Apply': r'VAL\[Scope::get_decoder_by_name.*\]', 'DecodeBytes': r'VAL\[self\.DecodeBytes\.1\]',
    'ParseFromView': r'VAL\[self\.ParseFromView\.1\]', 'LetFormat': r'VAL\[self\.LetFormat\.2\]', 'MonadSeq': r'VAL\[self\.MonadSeq\.1\]',
    'LetView': r'VAL\[self\.LetView\.1\]',
    'AccumUntil': r'Value::Tuple\(ARR\(EVAL\[self\.AccumUntil\.2, scope\]\|LAMBDA\[self\.AccumUntil\.1, scope, Value::Tuple\(ARR\((EVAL\[self\.AccumUntil\.2, scope\]|LAMBDA\*\[self\.AccumUntil\.1\]|\|)+, VAL\[self\.AccumUntil\.4\]\)\)\], Value::Seq\(LIST\{VAL\[self\.AccumUntil\.4\]\}\)\)\)',
    'CaptureBytes': r'Value::Seq\(LIST\{Value::U8\(READ:read_byte\[\]\)\}\)',
    'ReadArray': r'Value::Seq\(LIST\{(Value::(U16\(READ:read_u16be|U32\(READ:read_u32be|U64\(READ:read_u64be|U8\(READ:read_byte)\[\]\)\|?)+\}\)',
    'ReifyView': r'Value::View\(O?VIEW\.offset\)', 'Phantom': r'Value::PhantomData\(\)',
    'Permit': r'Value::Permit\(Result::Err\(Option::Some\(EVAL\[self\.Permit\.1, scope\]\)\)\|Result::Ok\(VAL\[self\.Permit\.0\]\)\)',
    'Enforce': r'VAL\[self\.Enforce\.0\]',
}
# lambda nodes: the argument the predicate / mapping sees
LAMBDAS = {
    'Map': r'VAL\[self\.Map\.0\]', 'Where': r'VAL\[self\.Where\.0\]', 'RepeatUntilLast': r'VAL\[self\.RepeatUntilLast\.1\]',
    'RepeatUntilSeq': r'Value::Seq\(LIST\{VAL\[self\.RepeatUntilSeq\.1\]\}\)',
}
LISTS = ['Tuple', 'Sequence', 'While', 'Until', 'RepeatCount', 'RepeatUntilLast', 'RepeatUntilSeq', 'RepeatBetween', 'ForEach', 'AccumUntil', 'CaptureBytes', 'ReadArray']

def lists_in(v, c, d=0):
    """coverage tokens of the sequence inside a returned value"""
    out = set()
    for a in c.erase(v) if d == 0 else v:
        if a[0] == 'sym' and a[1] in I.COV: out.add(I.COV[a[1]])
        elif a[0] == 'vec' or a[0] == 'op' and a[1] in ('push', 'extend'):
            if I.has_tok(a): out |= I.cov_a(a)
        elif a[0] == 'agg' and a[1] == 'Value':
            for f in a[3]: out |= lists_in(f, c, d + 1)
        elif a[0] == 'agg' and a[1] == 'array' and d:
            for f in a[3]: out |= lists_in(f, c, d + 1)
    return out

DROPS = {'pop', 'truncate', 'remove', 'swap_remove', 'drain', 'clear', 'dedup', 'dedup_by', 'dedup_by_key', 'retain', 'retain_mut', 'split_off', 'swap',
         'reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'rotate_left', 'rotate_right', 'pop_front', 'pop_back', 'push_front'}

def run(prog, rep, tier):
    c = I.Canon(prog)
    vs = I.variants(prog); n = 0
    for located in (False, True):
        tag = 'located' if located else 'plain'
        it = I.Interp(prog, located); where = '%s %s' % (it.fn.loc(), it.fnname)
        for v in vs:
            name = v['n']; key = '%s:%s' % (tag, name)
            an, r, s = I.summary(prog, located, v); n += 1
            rep.analysed_fns(an.inlined | {it.fn.name})
            spec = SPEC.get(name)
            if spec is None: rep.known(False, key, 'node kind without a rule'); continue
            got = c.v(s.values()) if s.ok else ''
            if s.unk or 'top' in re.split(r'\W+', got):
                rep.known(False, key, 'value not understood: %s' % got[:150], where)
            else:
                rep.ob(re.fullmatch(spec, got), key + ':value', '%s yields %s' % (name, got[:300]), where)
            rep.count('nodes')
            for e in an.events.values():
                if e.args and e.callee.split('::')[-1] in DROPS and re.search(r'Vec|slice', e.callee):
                    t = I.show(e.args[0])
                    rep.ob('VAL[' not in t and 'READ:' not in t, key + ':' + e.callee, '%s takes out or moves already parsed elements (%s)' % (name, e.callee), where)
            lam = LAMBDAS.get(name)
            if lam:
                args = set(c.v(e.args[2]) for e in s.evals if 'lambda' in e.callee)
                rep.ob(args and all(re.fullmatch(lam, a) for a in args), key + ':lambda-argument', 'the lambda of %s is applied to %s' % (name, sorted(args)), where)
            if name in LISTS:
                an, r, s = I.summary(prog, located, v, mode='values', tag='values')
                cov = set()
                for val, _, _ in s.ok: cov |= lists_in(val, c)
                if rep.known(bool(cov), key + ':elements', 'sequence of %s not traced' % name, where):
                    rep.ob(cov == {I.COV['E:all']}, key + ':complete', '%s can return a sequence that lacks elements it parsed (%s)' % (name, ['+'.join(sorted(x)) or 'none' for x in cov]), where)
                    rep.count('sequences')
    rep.floor(n, 'node_kinds_analysed', 70)
    rep.floor(rep.counts.get('sequences', 0), 'sequences', 20)
