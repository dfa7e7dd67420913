"""Control decisions of every choice / repetition / validation combinator in both interpreters."""
import re
import absint as A, interp as I
CRATES = ['doodle']
RULE = ('Case-split value flow over the MIR of both interpreters: for each choice, repetition, lookahead and validation node the '
        'answers that drive it (lookahead branch, predicate truth, nested success or failure, order of length against the bounds) are '
        'enumerated as a finite set of abstract cases, and in each case the reachable outcomes (continue parsing, succeed, fail) must be '
        'exactly those the combinator defines.')

def cond(prog, sev):
    """a Where condition with a known severity"""
    c = next((a for p, a in prog.adts.items() if p.split('::')[-1] == 'Condition'), None)
    s = next((p for p, a in prog.adts.items() if p.split('::')[-1] == 'Severity'), None)
    if not c or not s: return None
    fs = tuple(A.V(('agg', s, sev, ())) if f[0] == 'severity' else A.V(('sym', 'self', ('Where.1', f[0]))) for f in c['v'][0]['f'])
    return A.V(('agg', c['adt'], c['v'][0]['n'], fs))

# (node, case name, forced answers, must-ok, may-err, must nested parses happen: True/False/None)
# outcome encodings: ok 'yes' (reachable), 'no' (unreachable); err likewise; parse 'yes'/'no'/'any'
CASES = [
    ('While', 'element next', dict(tree=0, parse='ok'), 'no', 'no', 'yes'),
    ('While', 'follower next', dict(tree=1, parse='ok'), 'yes', 'no', 'no'),
    ('While', 'neither', dict(tree='none', parse='ok'), 'no', 'yes', 'no'),
    ('While', 'element fails', dict(tree=0, parse='err'), 'no', 'yes', 'yes'),
    ('Until', 'follower next', dict(tree=0, parse='ok'), 'yes', 'no', 'yes'),
    ('Until', 'element next', dict(tree=1, parse='ok'), 'no', 'no', 'yes'),
    ('Until', 'neither', dict(tree='none', parse='ok'), 'no', 'yes', 'yes'),
    ('Until', 'element fails', dict(tree=1, parse='err'), 'no', 'yes', 'yes'),
    ('Branch', 'no branch', dict(tree='none', parse='ok'), 'no', 'yes', 'no'),
    ('Branch', 'branch fails', dict(tree=0, parse='err'), 'no', 'yes', 'yes'),
    ('Branch', 'branch succeeds', dict(tree=0, parse='ok'), 'yes', 'no', 'yes'),
    ('RepeatBetween', 'neither', dict(tree='none', parse='ok'), 'no', 'yes', 'no'),
    ('RepeatUntilLast', 'last element', dict(bool=1, parse='ok'), 'yes', 'no', 'yes'),
    ('RepeatUntilLast', 'not last', dict(bool=0, parse='ok'), 'no', 'no', 'yes'),
    ('RepeatUntilLast', 'element fails', dict(bool=1, parse='err'), 'no', 'yes', 'yes'),
    ('RepeatUntilSeq', 'sequence complete', dict(bool=1, parse='ok'), 'yes', 'no', 'yes'),
    ('RepeatUntilSeq', 'sequence incomplete', dict(bool=0, parse='ok'), 'no', 'no', 'yes'),
    ('RepeatUntilSeq', 'element fails', dict(bool=1, parse='err'), 'no', 'yes', 'yes'),
    ('AccumUntil', 'done', dict(bool=1, parse='ok'), 'yes', 'no', 'no'),
    ('AccumUntil', 'not done', dict(bool=0, parse='ok'), 'no', 'no', 'yes'),
    ('AccumUntil', 'element fails', dict(bool=0, parse='err'), 'no', 'yes', 'yes'),
    ('Maybe', 'absent', dict(bool=0, parse='ok'), 'yes', 'no', 'no'),
    ('Maybe', 'present', dict(bool=1, parse='ok'), 'yes', 'no', 'yes'),
    ('Maybe', 'present fails', dict(bool=1, parse='err'), 'no', 'yes', 'yes'),
    ('PeekNot', 'nested succeeds', dict(parse='ok'), 'no', 'yes', 'yes'),
    ('PeekNot', 'nested fails', dict(parse='err'), 'yes', 'no', 'yes'),
    ('Peek', 'nested succeeds', dict(parse='ok'), 'yes', 'no', 'yes'),
    ('Peek', 'nested fails', dict(parse='err'), 'no', 'yes', 'yes'),
    ('Parallel', 'alternative succeeds', dict(parse='ok'), 'yes', 'any', 'yes'),
    ('Parallel', 'alternatives fail', dict(parse='err'), 'no', 'yes', 'yes'),
    ('Permit', 'nested succeeds', dict(parse='ok'), 'yes', 'no', 'yes'),
    ('Permit', 'nested fails', dict(parse='err'), 'yes', 'no', 'yes'),
    ('Byte', 'in set', dict(read=True, contains=1), 'yes', 'no', 'any'),
    ('Byte', 'not in set', dict(read=True, contains=0), 'no', 'yes', 'any'),
    ('Byte', 'no byte left', dict(read=False), 'no', 'yes', 'any'),
    ('EndOfInput', 'byte left', dict(read=True), 'no', 'yes', 'any'),
    ('EndOfInput', 'no byte left', dict(read=False), 'yes', 'no', 'any'),
    ('Where', 'condition true', dict(bool=1, parse='ok'), 'yes', 'no', 'yes'),
    ('Where', 'nested fails', dict(bool=1, parse='err'), 'no', 'yes', 'yes'),
]
for _n in ('Variant', 'Map', 'Let', 'LetView', 'LetFormat', 'MonadSeq', 'Dynamic', 'Apply', 'Slice', 'Bits', 'WithRelativeOffset',
           'DecodeBytes', 'ParseFromView', 'Call'):
    CASES.append((_n, 'nested fails', dict(parse='err'), 'no', 'yes', 'any'))
    CASES.append((_n, 'nested succeeds', dict(parse='ok'), 'yes', 'any', 'yes'))
for _len, _tree, _ok, _err, _parse in ((0, 0, 'no', 'yes', 'no'), (0, 1, 'no', 'no', 'yes'), (2, 0, 'yes', 'no', 'no'), (2, 1, 'no', 'no', 'yes'),
                                       (3, 0, 'yes', 'no', 'no'), (3, 1, 'no', 'no', 'yes'), (5, 0, 'yes', 'no', 'no'), (5, 1, 'yes', 'no', 'no')):
    rel = {0: 'fewer than min', 2: 'exactly min', 3: 'between', 5: 'exactly max'}[_len]
    CASES.append(('RepeatBetween', '%s, %s' % (rel, 'element next' if _tree else 'no element next'),
                  dict(tree=_tree, parse='ok', len=_len, usize={'RepeatBetween.1': 2, 'RepeatBetween.2': 5}), _ok, _err, _parse))

COUNTED = {'RepeatCount': ('RepeatCount.0',), 'CaptureBytes': ('CaptureBytes.1',), 'ReadArray': ('ReadArray.1',)}
KINDS = {'U8': ('read_byte', 'U8'), 'U16Ext': ('read_u16be', 'U16'), 'U32Ext': ('read_u32be', 'U32'), 'U64Ext': ('read_u64be', 'U64')}

def outcome(rep, key, case, r, s, want_ok, want_err, want_parse, where):
    for what, want, got in (('succeed', want_ok, bool(s.ok)), ('fail', want_err, bool(s.err)), ('parse its operand', want_parse, bool(s.parses))):
        if want == 'any': continue
        if s.unk and got != (want == 'yes'):
            rep.known(False, key + ':' + what, 'outcome not understood in case `%s`' % case, where); continue
        rep.ob(got == (want == 'yes'), key + ':' + what, 'in case `%s` it %s %s' % (case, 'can' if got else 'can not', what), where)

def counted_ok(an, s, operand, rep, key, where, events):
    n = 'usize[EVAL[self.%s, scope]]' % operand
    rng = set()
    for e in an.events.values():
        if e.callee.endswith('::next'):
            for a in e.args[0]:
                t = I.show(A.V(a))
                if 'Range' in t and 'EVAL[self.%s' % operand in t: rng.add(t)
    if rng:
        rep.ob(rng == {'Range(0, %s)' % n}, key + ':count', 'repeats over %s instead of 0..count' % sorted(rng), where)
        return
    gs = set()
    for e in events:
        for a, lab in e.guards:
            t = I.show(A.V(a))
            if n in t: gs.add((t.split('[')[0], t, lab))
    good = [g for g in gs if (g[0] == 'Lt' and g[1].endswith(', %s]' % n) and g[2] == 1) or (g[0] == 'Ge' and g[1].endswith(', %s]' % n) and g[2] == 0)
            or (g[0] == 'Gt' and g[1].startswith('Gt[%s' % n) and g[2] == 1)]
    bad = [g for g in gs if g not in good]
    if good or not bad: rep.known(bool(good), key + ':count', 'the repetition bound is not recognised', where)
    else: rep.ob(False, key + ':count', 'the repetition is bounded by %s' % [g[1:] for g in bad], where)

def run(prog, rep, tier):
    c = I.Canon(prog)
    vs = {v['n']: v for v in I.variants(prog)}
    n = 0
    for located in (False, True):
        tag = 'located' if located else 'plain'
        it = I.Interp(prog, located); where = '%s %s' % (it.fn.loc(), it.fnname)
        for name, case, force, ok, er, pa in CASES:
            if name not in vs: rep.ob(False, 'anchor:' + name, 'node kind %s no longer exists' % name); continue
            an, r, s = I.summary(prog, located, vs[name], force); n += 1
            rep.analysed_fns(an.inlined | {it.fn.name})
            outcome(rep, '%s:%s:%s' % (tag, name, case), case, r, s, ok, er, pa, where)
        for sev, ok, er in (('Expect', 'yes', 'no'), ('Require', 'no', 'yes')):
            f = cond(prog, sev)
            if f is None: rep.ob(False, 'anchor:Condition', 'Condition/Severity types not found'); continue
            an, r, s = I.summary(prog, located, vs['Where'], dict(bool=0, parse='ok'), {'1': f}, tag=sev); n += 1
            outcome(rep, '%s:Where:%s false' % (tag, sev), 'condition false, severity ' + sev, r, s, ok, er, 'yes', where)
            if sev == 'Expect':
                for _, _, e in s.ok:
                    rep.ob(any(a[0] != 'sym' or a[2] for a in e), '%s:Where:Expect:records' % tag, 'a failed soft condition records no error', where)
        # which alternative runs
        an, r, s = I.summary(prog, located, vs['Branch'])
        idx = set(I.show(e.args[1]) for e in s.index if I.show(e.args[0]) == 'self.Branch.1')
        got = set(x for a in s.values() if a[0] == 'agg' and a[2] == 'Branch' for x in [c.v(a[3][0])])
        if rep.known(bool(idx), tag + ':Branch:index-site', 'the selection of the branch is not recognised', where):
            rep.ob(idx == {'TREE[self.Branch.0]'}, tag + ':Branch:index', 'the branch that runs is %s' % sorted(idx), where)
        rep.ob(got == {'TREE[self.Branch.0]'}, tag + ':Branch:reported', 'the branch index reported is %s' % sorted(got), where)
        an, r, s = I.summary(prog, located, vs['Call'])
        idx = set(I.show(e.args[1]) for e in s.index if 'decoders' in I.show(e.args[0]))
        if rep.known(bool(idx), tag + ':Call:index-site', 'the selection of the called decoder is not recognised', where):
            rep.ob(idx == {'self.Call.0'}, tag + ':Call:index', 'the decoder called is %s' % sorted(idx), where)
        # alternatives are tried in declaration order, elements visited in order
        for name in ('Parallel', 'Match', 'Tuple', 'Sequence', 'ForEach', 'RepeatCount', 'Call', 'Bits', 'CaptureBytes', 'ReadArray', 'DecodeBytes'):
            an, r, s = I.summary(prog, located, vs[name])
            bad = sorted(set(e.callee for e in an.events.values() if e.callee.split('::')[-1] in ('rev', 'next_back', 'skip', 'step_by', 'rposition', 'sort', 'sort_by', 'reverse', 'swap', 'insert', 'skip_while', 'take_while', 'dedup', 'truncate')
                             and 'self.' + name in ''.join(I.show(x) for x in e.args[:1])))
            rep.ob(not bad, '%s:%s:order' % (tag, name), 'elements are not visited in order: %s' % bad, where)
        for name in ('Match',):
            an, r, s = I.summary(prog, located, vs[name])
            for who, _, sc, cur, e in s.parses:
                g = [lab for a, lab in e.guards if 'matches' in I.show(A.V(a)) and isinstance(lab, str)]
                sct = c.v(sc)
                rep.ob('is:Some' in g or '.Some.0' in sct, '%s:Match:guard' % tag, 'a branch runs without its pattern having matched', where)
        for name, ops in COUNTED.items():
            an, r, s = I.summary(prog, located, vs[name])
            evs = [e for *_, e in s.parses] or [e for e in an.events.values() if e.callee.startswith('ReadCtxt::read')]
            for op in ops: counted_ok(an, s, op, rep, '%s:%s' % (tag, name), where, evs)
        # fixed-width array elements
        bk = next((a for p, a in prog.adts.items() if p.split('::')[-1] == 'BaseKind'), None)
        en = next((a for p, a in prog.adts.items() if p.split('::')[-1] == 'Endian'), None)
        if rep.ob(bk and en, 'anchor:BaseKind', 'BaseKind/Endian types not found'):
            for v in bk['v']:
                rd, cons = KINDS.get(v['n'], (None, None))
                if rd is None: continue
                fv = A.V(('agg', bk['adt'], v['n'], (A.V(('agg', en['adt'], 'Be', ())),) if v['f'] else ()))
                an, r, s = I.summary(prog, located, vs['ReadArray'], {}, {'2': fv}, tag='k' + v['n']); n += 1
                got = c.v(s.values())
                rep.ob(got == 'Value::Seq(LIST{Value::%s(READ:%s[])})' % (cons, rd), '%s:ReadArray:%s' % (tag, v['n']), 'big-endian %s elements are read as %s' % (v['n'], got), where)
        # bit order inside a byte
        an, r, s = I.summary(prog, located, vs['Bits'])
        B = set()
        for e in s.news:
            for a in e.args[0]:
                if a[0] == 'vec': B |= {I.show(A.V(x)) for x in a[1]}
        EL = 'elem[REST[CUR0]]'; IX = 'in[Range(0, 8)]'
        good = {'Shr[BitAnd[%s, Shl[1, %s]], %s]' % (EL, IX, IX), 'BitAnd[Shr[%s, %s], 1]' % (EL, IX), 'BitAnd[1, Shr[%s, %s]]' % (EL, IX),
                'Shr[BitAnd[Shl[1, %s], %s], %s]' % (IX, EL, IX), 'Rem[Shr[%s, %s], 2]' % (EL, IX)}
        shape = [b for b in B if re.fullmatch(r'[\w\[\], .()]*', b) and EL in b]
        if B <= good and B: rep.ob(True, tag + ':Bits:order')
        elif shape and any(('Sub[7' in b or 'Sub[8' in b or 'Range(1' in b or not ('Range(0, 8)' in b)) for b in shape):
            rep.ob(False, tag + ':Bits:order', 'bits of a byte are produced as %s, not least-significant first' % sorted(B), where)
        else: rep.known(False, tag + ':Bits:order', 'bit extraction not recognised: %s' % sorted(B)[:2], where)
    rep.floor(n, 'cases_analysed', 2 * len(CASES))
