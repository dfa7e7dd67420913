"""A sequence has the same length, elements and sub-sequences however it is represented."""
import re
import absint as A, interp as I, common as C
CRATES = ['doodle']
RULE = ('Per representation of a sequence (explicit list, repeated element, integer range) the abstract result over the MIR of each sequence operation must be the one its elements define; '
        'accesses and sub-sequences are decided for every ordering of index, end and length, and must reject exactly those that leave the sequence; concatenation keeps the order.')
S = C.sym

def ev(t, env):
    """value of a linear term under an ordering representative"""
    if t[0] == 'int': return t[1]
    if t[0] == 'sym': return env.get('.'.join((t[1],) + t[2]))
    if t[0] != 'op': return None
    n = t[1].split('::')[-1].lower().replace('ovf:', '')
    if n == 'len' or n.startswith('len'): return env.get('n')
    xs = []
    for v in t[2]:
        if len(v) != 1: return None
        x = ev(next(iter(v)), env)
        if x is None: return None
        xs.append(x)
    if len(xs) == 2:
        if n in ('add', 'checked_add', 'saturating_add', 'addwithoverflow'): return xs[0] + xs[1]
        if n in ('sub', 'checked_sub', 'subwithoverflow'): return xs[0] - xs[1]
        if n == 'saturating_sub': return max(0, xs[0] - xs[1])
        if n in ('min', 'max'): return (min if n == 'min' else max)(xs)
    return None

def oracle(env):
    def cmp(o, a, b):
        if len(a) != 1 or len(b) != 1: return None
        x, y = ev(next(iter(a)), env), ev(next(iter(b)), env)
        if x is None or y is None: return None
        x = (x > y) - (x < y)
        if o == 'cmp': return x
        return {'Eq': x == 0, 'Ne': x != 0, 'Lt': x < 0, 'Le': x <= 0, 'Gt': x > 0, 'Ge': x >= 0}[o]
    return cmp

def model(env):
    def m(an, name, nn, vals, targs, st, site, f, bb, line):
        last = nn.split('::')[-1]
        if last in ('checked_sub', 'checked_add') and len(vals) == 2:
            a, b = an.snap(vals[0], st), an.snap(vals[1], st)
            t = ('op', 'Sub' if last == 'checked_sub' else 'Add', (a, b)); x = ev(t, env)
            if x is not None: return A.V(A.NONE) if x < 0 else A.V(A.some(A.V(t)))
        if nn in ('Range::len', '<Range as ExactSizeIterator>::len', 'ExactSizeIterator::len'): return A.V(('op', 'len', (an.snap(vals[0], st),)))
        if nn in ('Range::is_empty',) and 'n' in env: return A.V(('int', int(env['n'] == 0)))
        if nn == 'Vec::is_empty' or nn == 'slice::is_empty':
            t = C.show(an.snap(vals[0], st)); k = 'empty:' + t.split('.')[0]
            if k in env: return A.V(('int', int(env[k])))
        return None
    return m

class X:
    def __init__(self, prog, rep): self.prog = prog; self.rep = rep; self.n = 0
    def run(self, f, args, env=None):
        self.n += 1
        an, r = C.run(self.prog, f, args, model=model(env or {}), cmp=oracle(env or {}))
        self.rep.analysed_fns(an.inlined | {f.name})
        return an, r

def run(prog, rep, tier):
    x = X(prog, rep); K = C.adt(prog, 'SeqKind'); V = C.adt(prog, 'ValueSeq')
    if not rep.known(K is not None and V is not None, 'types', 'sequence types not found'): return
    def each(nm, file=None):
        fs = prog.find(nm, file)
        rep.known(fs, nm, 'operation not found')
        return fs
    loc = lambda f: '%s %s' % (f.loc(), f.name)
    st, du = C.variant_value(K, 'Strict'), C.variant_value(K, 'Dup')
    def expect(nm, sv, rx, vocab, args=(), env=None, tag='', fs=None):
        for f in fs or each(nm):
            an, r = x.run(f, [sv] + list(args), env); t = C.show(r); key = nm + tag
            if re.fullmatch(rx, t): rep.ob(True, key)
            elif vocab and re.fullmatch(vocab, t): rep.ob(False, key, 'gives %s' % t[:160], loc(f))
            else: rep.known(False, key, t[:160], loc(f))
    LIST, N, E = r'self\.Strict\.0', r'self\.Dup\.0', r'self\.Dup\.1'
    NUM = r'(\d+|self\.Dup\.0|(Add|Sub)\[self\.Dup\.0, \d+\]|(Add|Sub)\[len\[self\.Strict\.0\], \d+\])'
    expect('SeqKind::len', st, r'len\[self\.Strict\.0\]', NUM, tag=':Strict'); expect('SeqKind::len', du, N, NUM, tag=':Dup')
    for e in (0, 1):
        expect('SeqKind::is_empty', st, str(e), '[01]', env={'empty:self': e, 'n': 0 if e else 2}, tag=':Strict'); 
        expect('SeqKind::is_empty', du, str(e), '[01]', env={'self.Dup.0': 0 if e else 2}, tag=':Dup')
    expect('SeqKind::is_empty', du, '0', '[01]', env={'self.Dup.0': 1}, tag=':Dup1')
    expect('SeqKind::into_vec', st, LIST, None, tag=':Strict')
    for f in each('SeqKind::into_vec'):
        an, r = x.run(f, [du]); key = 'SeqKind::into_vec:Dup'
        fe = [[C.show(a) for a in e.args] for e in an.events.values() if e.callee.split('::')[-1] in ('from_elem', 'repeat_n')]
        if rep.known(fe, key, C.show(r)[:120], loc(f)): rep.ob(all(a == ['self.Dup.1', 'self.Dup.0'] for a in fe), key, 'expands to %s' % fe, loc(f))
    # element access: every ordering of index and length
    for i, n in ((0, 0), (0, 1), (0, 2), (1, 2), (2, 2), (3, 2), (1, 1), (1, 3)):
        ok = r'Option::Some\(self\.Dup\.1\)' if i < n else r'Option::None\(\)'
        expect('SeqKind::get', du, ok, r'Option::(None\(\)|Some\(self\.Dup\.1\))', [S('ix')], {'ix': i, 'self.Dup.0': n}, ':Dup')
        for f in each('<SeqKind as Index>::index'):
            an, r = x.run(f, [du, S('ix')], {'ix': i, 'self.Dup.0': n}); t = C.show(r); key = 'SeqKind::index:Dup'
            if t in ('!', 'self.Dup.1'): rep.ob(t == ('self.Dup.1' if i < n else '!'), key, 'element %d of %d repeated ones is %s' % (i, n, t), loc(f))
            else: rep.known(False, key, t[:120], loc(f))
    for nm in ('SeqKind::get', '<SeqKind as Index>::index'):
        for f in each(nm):
            an, r = x.run(f, [st, S('ix')]); key = nm + ':Strict'
            ge = [[C.show(a) for a in e.args] for e in an.events.values() if e.callee in ('slice::get', 'Vec::get', '<Vec as Index>::index', 'slice::index')]
            if rep.known(ge, key, C.show(r)[:120], loc(f)): rep.ob(all(g == ['self.Strict.0', 'ix'] for g in ge), key, 'looks up %s' % ge, loc(f))
    # sub-sequences
    for s, l, n in [(s, l, n) for n in (0, 1, 3) for s in range(n + 2) for l in range(n + 2)]:
        for f in each('SeqKind::sub_seq'):
            an, r = x.run(f, [du, S('s'), S('l')], {'s': s, 'l': l, 'self.Dup.0': n}); t = C.show(r); key = 'SeqKind::sub_seq:Dup'
            good = t == ('SeqKind::Dup(l, self.Dup.1)' if s + l <= n else '!') or t == 'SeqKind::Strict(vec[self.Dup.1])' and s + l <= n
            if good or re.fullmatch(r'!|SeqKind::Dup\([^()]*, self\.Dup\.1\)', t): rep.ob(good, key, '%d elements from index %d of %d repeated ones are %s' % (l, s, n, t), loc(f))
            else: rep.known(False, key, t[:120], loc(f))
        for f in [g for g in prog.fns.values() if g.name.endswith('seq_kind::sub_range')]:
            rg = A.V(('agg', 'Range', None, (S('lo'), S('hi'))))
            an, r = x.run(f, [rg, S('s'), S('l')], {'s': s, 'l': l, 'n': n, 'lo': 10, 'hi': 10 + n}); t = C.show(r).replace('ovf:', ''); key = 'sub_range'
            ends = [next(iter(r))[3]] if r and len(r) == 1 and next(iter(r))[0] == 'agg' and len(next(iter(r))[3]) == 2 else None
            if t == '!': rep.ob(s + l > n, key, 'rejects %d numbers from index %d of a range of %d' % (l, s, n), loc(f)); continue
            env = {'s': s, 'l': l, 'n': n, 'lo': 10, 'hi': 10 + n}
            v = [ev(next(iter(z)), env) if len(z) == 1 else None for z in ends[0]] if ends else [None]
            if rep.known(None not in v, key, t[:120], loc(f)): rep.ob(s + l <= n and (v == [10 + s, 10 + s + l] or l == 0 and v[0] == v[1]), key, '%d numbers from index %d of a range of %d are %s' % (l, s, n, t), loc(f))
    good = (r'SeqKind::Strict\((collect\[|vec\[)?index\[index\[self\.Strict\.0, RangeFrom\(s\)\], RangeTo\(l\)\]\]?\)', r'SeqKind::Strict\(index\[self\.Strict\.0, Range\(s, Add\[(s, l|l, s)\]\)\]\)', r'SeqKind::Strict\(index\[index\[self\.Strict\.0, RangeTo\(Add\[(s, l|l, s)\]\)\], RangeFrom\(s\)\]\)')
    expect('SeqKind::sub_seq', st, '|'.join(good), r'SeqKind::Strict\((index\[)*self\.Strict\.0(, Range\w*\([\w, \[\]]*\)\])*\)', [S('s'), S('l')], tag=':Strict')
    # iteration
    for nm, pre in (('SeqKind::iter', 'Iter'), ('<SeqKind as IntoIterator>::into_iter', r'(Into)?Iter')):
        expect(nm, st, pre + r'::Strict\(iter\[self\.Strict\.0\]\)', pre + r'::Strict\((rev|skip|take|step_by)\[.*\]\)', tag=':Strict')
        expect(nm, du, pre + r'::Dup\(repeat_n\[self\.Dup\.1, self\.Dup\.0\]\)', pre + r'::Dup\((repeat_n\[self\.Dup\.1, .*\]|repeat\[.*\])\)', tag=':Dup')
    vi = C.adt(prog, 'ValueIter')
    expect('<ValueSeq as IntoIterator>::into_iter', C.variant_value(V, 'IntRange'), r'ValueIter::IntRange\(self\.IntRange\.0\)', r'ValueIter::IntRange\(.*\)', tag=':IntRange')
    for f in each('<ValueSeq as IntoIterator>::into_iter'):
        for k, sv in (('Strict', st), ('Dup', du)):
            an, r = x.run(f, [C.variant_value(V, 'ValueSeq', fields={'0': sv})]); t = C.show(r); key = 'ValueSeq::into_iter:' + k
            if rep.known(re.search(r'iter\[|repeat_n\[', t), key, t[:120], loc(f)): rep.ob(re.fullmatch(r'ValueIter(::ValueIter)?\(Iter::%s\((iter\[self\.Strict\.0\]|repeat_n\[self\.Dup\.1, self\.Dup\.0\])\)\)' % k, t), key, 'iterates over %s' % t[:120], loc(f))
    # abstract sequences of values
    for k, sv, ln in (('Strict', st, r'len\[self\.Strict\.0\]'), ('Dup', du, N)):
        expect('ValueSeq::len', C.variant_value(V, 'ValueSeq', fields={'0': sv}), ln, NUM, tag=':' + k)
    expect('ValueSeq::len', C.variant_value(V, 'IntRange'), r'len\[self\.IntRange\.0\]|Sub\[self\.IntRange\.0\.end, self\.IntRange\.0\.start\]', r'\d+|(Add|Sub)\[len\[self\.IntRange\.0\], \d+\]', tag=':IntRange')
    for e in (0, 1):
        for k, sv in (('Strict', st), ('Dup', du)): expect('ValueSeq::is_empty', C.variant_value(V, 'ValueSeq', fields={'0': sv}), str(e), '[01]', env={'empty:self': e, 'self.Dup.0': 0 if e else 2, 'n': 0 if e else 2}, tag=':' + k)
        expect('ValueSeq::is_empty', C.variant_value(V, 'IntRange'), str(e), '[01]', env={'n': 0 if e else 2}, tag=':IntRange')
    # concatenation
    for f in each('SeqKind::append'):
        for ka in ('Strict', 'Dup'):
            for kb in ('Strict', 'Dup'):
                for ea in (0, 1):
                    for eb in (0, 1):
                        env = {'empty:self': ea, 'empty:other': eb, 'self.Dup.0': 0 if ea else 2, 'other.Dup.0': 0 if eb else 2}
                        an, r = x.run(f, [C.variant_value(K, ka), C.variant_value(K, kb, 'other')], env); t = C.show(r); key = 'SeqKind::append:%s+%s' % (ka, kb)
                        ap = [[C.show(a) for a in e.args] for e in an.events.values() if e.callee.split('::')[-1] in ('append', 'extend', 'extend_from_slice') and not e.callee.startswith('SeqKind')]
                        whole = {'self': C.show(C.variant_value(K, ka)), 'other': C.show(C.variant_value(K, kb, 'other'))}
                        if t in whole.values(): rep.ob(t == whole['other'] and ea or t == whole['self'] and eb, key + ':empty', 'the concatenation with %s is only %s' % ('nothing' if ea or eb else 'a non-empty sequence', t[:100]), loc(f)); continue
                        if not rep.known(ap, key, t[:120], loc(f)): continue
                        for a in ap: rep.ob('self' in a[0] and 'other' in a[1] and 'self' not in a[1], key + ':order', 'concatenates %s with %s' % (a[0][:60], a[1][:60]), loc(f))
    rep.floor(x.n, 'abstract runs', 100)
