"""Choosing between alternatives by lookahead: the tree admits for each alternative exactly the bytes it can begin with."""
import re
import absint as A, interp as I, common as C, fmt
CRATES = ['doodle']
RULE = ('Per format node (plain and typed) and per pending continuation, the abstract result over the MIR of the lookahead step must be the set of first '
        'bytes of that node followed by the right continuation (or the admit-anything step where the node is not predictable); the set operations on '
        'steps and levels must file every byte class under exactly the continuations that admit it; growing must merge every candidate under its own '
        'index and fail rather than guess; matching must follow the branch that contains the byte read.')
ANY, NO = 'MatchTreeStep(1, LIST{})', 'MatchTreeStep(0, LIST{})'

def norm_union(s):
    """union is commutative: order its two arguments"""
    return s

class Terms:
    """canonical text in which the commutative combinations are sorted and accumulations are flattened"""
    def __init__(self, c): self.c = c
    def v(self, v): return '|'.join(sorted(set(self.a(a) for a in v)))
    def flat(self, v):
        out = set()
        for a in v:
            if a[0] == 'op' and a[1] == 'union':
                for x in a[2]: out |= self.flat(x)
            elif a[0] == 'op' and a[1] in ('fold', 'reduce'):
                for x in a[2]: out |= self.flat(x)
            elif a[0] == 'phi': pass
            else: out.add(self.c.v(A.V(a)))
        return out
    def union(self, v): return sorted(self.flat(v))

def step_specs(vn, o, typed):
    """(forced bounds, nested step) cases -> expected leaves of the union"""
    S = lambda i: 'self.%s.%d' % (vn, i + o)
    mt = lambda x: 'MaybeTyped::%s(%s)' % ('Typed' if typed else 'Untyped', x)
    FF = lambda f, nx='next': 'FF[module, %s, %s]' % (f, nx)
    FN = lambda nx='next': 'FN[module, %s]' % nx
    E = 'Next::Empty()'
    seq = FF('slice::split_first.Some.0.0', 'Next::Sequence(%s, next)' % mt('slice::split_first.Some.0.1'))
    rep = lambda i: FF(S(i), 'Next::Repeat(%s, next)' % mt(S(i)))
    one = {
        'Fail': [NO], 'EndOfInput': [ANY], 'SkipRemainder': [ANY], 'Phantom': [ANY], 'Apply': [ANY], 'Bits': [ANY], 'WithRelativeOffset': [ANY],
        'RepeatUntilLast': [ANY], 'RepeatUntilSeq': [ANY], 'AccumUntil': [ANY],
        'Byte': ['MatchTreeStep(0, LIST{tuple(self.Byte.0, next)})'],
        'Variant': [FF(S(1))], 'Map': [FF(S(0))], 'Where': [FF(S(0))], 'Permit': [FF(S(0))], 'Let': [FF(S(2))], 'Dynamic': [FF(S(2))], 'Hint': [FF(S(1))], 'LetView': [FF(S(1))],
        'Compute': [FN()], 'Pos': [FN()], 'DecodeBytes': [FN()], 'ParseFromView': [FN()], 'WithView': [FN()],
        'LetFormat': [FF(S(0), 'Next::Cat(%s, next)' % mt(S(2)))], 'MonadSeq': [FF(S(0), 'Next::Cat(%s, next)' % mt(S(1)))],
        'Tuple': [seq, FN()], 'Sequence': [seq, FN()], 'LiftedOption': [FF(S(0) + '.Some.0'), FN()],
        'Union': [NO, FF(S(0) + '.[]')], 'UnionNondet': [NO, FF(S(0) + '.[]')], 'Match': [NO, FF(S(1) + '.[].1')],
        'Repeat': [FN(), rep(0)], 'Repeat1': [rep(0)], 'Maybe': [FF(S(1)), FN()],
        'Peek': ['peek[%s, %s]' % (FN(), FF(S(0), E))], 'PeekNot': ['peek_not[%s, %s]' % (FN(), FF(S(0), E))],
        'ItemVar': [FF('DEF[module, self.ItemVar.0]')], 'FormatCall': [FF('DEF[module, self.FormatCall.1]')],
    }
    if vn in one: return [('', None, one[vn])]
    cnt = lambda n, nx: FF(S(1), 'Next::RepeatCount(%d, %s, %s)' % (n, mt(S(1)), nx))
    if vn == 'RepeatCount':
        return [('exactly 0', ((0, 0),), [FN()]), ('exactly 1', ((1, 1),), ([cnt(0, 'next')], [FF(S(1), 'next')])), ('1 or more', ((1, None),), ([cnt(0, E)], [FF(S(1), E)])), ('0 or more', ((0, None),), [FN(E)]), ('exactly 3', ((3, 3),), [cnt(2, 'next')]), ('2 or more', ((2, None),), [cnt(1, E)]), ('2 to 7', ((2, 7),), [cnt(1, E)]), ('0 to 7', ((0, 7),), [FN(E)])]
    if vn == 'Slice':
        sl = lambda n, nx: 'SLICE[module, %d, Next::Cat(%s, %s), %s]' % (n, mt(S(1)), E, nx)
        return [('exactly 0', ((0, 0),), [sl(0, 'next')]), ('exactly 3', ((3, 3),), [sl(3, 'next')]), ('2 or more', ((2, None),), [sl(2, E)]), ('2 to 7', ((2, 7),), [sl(2, E)])]
    if vn == 'RepeatBetween':
        mx = lambda n: 'Next::RepeatMax(%d, %s, next)' % (n, mt(S(2)))
        return [('2 to 5', ((2, 2), (5, 5)), [FF(S(2), 'Next::RepeatBetween(1, 4, %s, next)' % mt(S(2)))]), ('0 to 5', ((0, 0), (5, 5)), [FN(mx(5))]),
                ('1 to 2', ((1, 1), (2, 2)), ([FF(S(2), 'Next::RepeatBetween(0, 1, %s, next)' % mt(S(2)))], [FF(S(2), mx(1))])), ('1 to 1', ((1, 1), (1, 1)), ([FF(S(2), 'Next::RepeatCount(0, %s, next)' % mt(S(2)))], [FF(S(2), 'next')])),
                ('4 to 4', ((4, 4), (4, 4)), [FF(S(2), 'Next::RepeatCount(3, %s, next)' % mt(S(2)))]), ('0 to 0', ((0, 0), (0, 0)), [FN()])]
    if vn == 'ForEach':
        return [('element of 1 or more bytes', ((1, None),), [FN(), rep(2)]), ('element of 0 bytes', ((0, 0),), [FN()]), ('nullable element', ((0, 4),), [ANY])]
    if vn == 'Align': return [('1', 1, [FN()]), ('8', 8, [ANY])]
    return None

T0 = {'MatchTreeStep::from_format': 'FF', 'MatchTreeStep::from_gt_format': 'FF', 'MatchTreeStep::from_next': 'FN', 'MatchTreeStep::union': 'union', 'MatchTreeStep::peek': 'peek',
      'MatchTreeStep::peek_not': 'peek_not', 'MatchTreeStep::from_slice': 'SLICE', 'FormatModule::get_format': 'DEF'}

class Ctx:
    def __init__(self, prog):
        self.prog = prog; self.F = fmt.Fmt(prog); self.t = Terms(self.F.c); self.c = self.F.c
        self.step = C.adt(prog, 'MatchTreeStep'); self.level = C.adt(prog, 'MatchTreeLevel'); self.tree = C.adt(prog, 'MatchTree')
    def struct(self, a, **kw):
        return A.V(('agg', a['adt'], a['v'][0]['n'], tuple(kw[f[0]] for f in a['v'][0]['f'])))
    def mkstep(self, root, accept): return self.struct(self.step, accept=A.V(('int', accept)), branches=C.sym(root, 'branches'))
    def part(self, v, name, adt=None):
        """the field of a step/level/tree value, through functional updates"""
        out = frozenset(); a = adt or self.step; i = [f[0] for f in a['v'][0]['f']].index(name)
        for x in v:
            if x[0] == 'agg': out |= x[3][i]
            elif x[0] == 'op' and x[1] == 'with.' + name: out |= x[2][1]
            elif x[0] == 'op' and x[1].startswith('with.'): out |= self.part(x[2][0], name, a)
            elif x[0] == 'sym': out |= A.V(('sym', x[1], x[2] + (name,)))
            else: out |= A.V(('op', '.' + name, (A.V(x),)))
        return out

def run(prog, rep, tier):
    X = Ctx(prog); n = 0
    n += steps(prog, rep, X, False); n += steps(prog, rep, X, True)
    n += nexts(prog, rep, X)
    n += algebra(prog, rep, X)
    n += levels(prog, rep, X)
    n += negated(rep, X)
    rep.floor(n, 'lookahead rules', 130)

def foreign(s): return bool(re.search(r'unresolved|\btop\b|opaque|phi', s))

def judge(rep, got, want, key, what, where):
    if got == want: return rep.ob(True, key, '', where)
    s = ' | '.join(got)
    if foreign(s): return rep.known(False, key, s[:200], where)
    return rep.ob(False, key, '%s admits %s, not %s' % (what, s[:260] or 'nothing', ' | '.join(want)[:200]), where)

def steps(prog, rep, X, typed):
    F = X.F; fn = prog.one('MatchTreeStep::from_gt_format' if typed else 'MatchTreeStep::from_format'); n = 0
    if fn is None: rep.floor(0, 'lookahead of formats', 2); return 0
    tag = 'typed' if typed else 'plain'; where = '%s %s' % (fn.loc(), fn.name)
    for v in F.variants(typed):
        vn = v['n']; o = F.off(typed, vn); sp = step_specs(vn, o, typed); key = '%s:%s' % (tag, vn)
        if vn == 'FormatCall': o = 0
        if sp is None: rep.known(False, key, 'node without a rule', where); continue
        for case, bnds, want in sp:
            P = dict(T0); fields = None
            if vn == 'Align':
                fields = {v['f'][0][0]: A.V(('int', bnds))}
                if typed and bnds == 1: want = [ANY]
            if isinstance(bnds, tuple):
                def bounds(an, s, bnds=bnds, vn=vn, o=o):
                    t = X.c.v(s[0])
                    for i in range(len(bnds)):
                        if t == 'self.%s.%d' % (vn, i + o) or vn == 'ForEach' and t == 'self.%s.%d' % (vn, 2 + o): return F.bnd(*bnds[i])
                    return A.V(('op', 'BOUNDS', s))
                for q in ('Expr::bounds', 'TypedExpr::bounds') if vn != 'ForEach' else ('Format::match_bounds', 'TypedFormat::match_bounds'): P[q] = bounds
            a = F.typed if typed else F.format
            an, r = F.run(fn, [C.sym('module'), C.variant_value(a, vn, fields=fields), C.sym('next')], P); n += 1
            rep.analysed_fns(an.inlined | {fn.name})
            kk = key + (':' + case if case else '')
            if r is None: rep.ob(False, kk, 'lookahead of %s %s is never computed' % (vn, case), where); continue
            got = X.t.union(r)
            if isinstance(want, tuple): want = next((w for w in want if sorted(w) == got), want[0])
            if typed and vn == 'Align' and got != want and bnds == 1: want = ['FN[module, next]']
            judge(rep, got, sorted(want), kk, '%s%s' % (vn, ' (%s)' % case if case else ''), where)
            # alternatives are merged, not chosen: what is admitted in either case must both be present, unless they are separate outcomes
            merged = vn in ('Repeat', 'Maybe') or vn == 'ForEach' and len(want) == 2
            if merged and got == sorted(want):
                rep.ob(len(r) == 1 and next(iter(r))[0] == 'op' and next(iter(r))[1] == 'union', kk + ':merged', 'lookahead of %s does not merge stopping and going on: %s' % (vn, X.c.v(r)[:200]), where); n += 1
    return n

def nexts(prog, rep, X):
    F = X.F; fn = prog.one('MatchTreeStep::from_next'); n = 0
    if fn is None: rep.floor(0, 'lookahead of continuations', 1); return 0
    where = '%s %s' % (fn.loc(), fn.name); adt = F.next
    def go(vn, fields, want, case='', merged=None):
        nonlocal n
        P = dict(T0)
        an, r = F.run(fn, [C.sym('module'), C.variant_value(adt, vn, fields=fields)], P); n += 1
        rep.analysed_fns(an.inlined | {fn.name})
        key = 'next:%s%s' % (vn, ':' + case if case else '')
        if r is None: rep.ob(False, key, 'the continuation %s %s has no lookahead (it panics)' % (vn, case), where); return
        got = X.t.union(r)
        if isinstance(want, tuple): want = next((w for w in want if sorted(w) == got), want[0])
        judge(rep, got, sorted(want), key, 'continuation %s %s' % (vn, case), where)
        if merged and got == sorted(want):
            n += 1; rep.ob(all(a[0] == 'op' and a[1] == 'union' for a in r), key + ':merged', '%s does not merge stopping and going on' % vn, where)
    vs = {v['n']: v for v in adt['v']}
    S = lambda vn, i: 'self.%s.%d' % (vn, i)
    both = lambda vn, i, nx: ['FF[module, self.%s.%d.%s.0, %s]' % (vn, i, t, nx) for t in ('Typed', 'Untyped')]
    FN = lambda x: 'FN[module, %s]' % x
    iv = lambda **k: {i[1:]: A.V(('int', x)) for i, x in k.items()}
    if 'Empty' in vs: go('Empty', None, [ANY])
    if 'Union' in vs: go('Union', None, [FN(S('Union', 0)), FN(S('Union', 1))], merged=True)
    if 'Cat' in vs: go('Cat', None, both('Cat', 0, 'self.Cat.1'))
    if 'Sequence' in vs:
        go('Sequence', None, ['FF[module, slice::split_first.Some.0.0, Next::Sequence(MaybeTyped::%s(slice::split_first.Some.0.1), self.Sequence.1)]' % t for t in ('Typed', 'Untyped')] + [FN('self.Sequence.1')])
    if 'Repeat' in vs: go('Repeat', None, both('Repeat', 0, 'Next::Repeat(self.Repeat.0, self.Repeat.1)') + [FN('self.Repeat.1')], merged=True)
    if 'RepeatCount' in vs:
        go('RepeatCount', iv(_0=0), [FN(S('RepeatCount', 2))], 'none left')
        go('RepeatCount', iv(_0=3), both('RepeatCount', 1, 'Next::RepeatCount(2, self.RepeatCount.1, self.RepeatCount.2)'), '3 left')
        go('RepeatCount', iv(_0=1), (both('RepeatCount', 1, 'Next::RepeatCount(0, self.RepeatCount.1, self.RepeatCount.2)'), both('RepeatCount', 1, 'self.RepeatCount.2')), '1 left')
        go('RepeatCount', iv(_0=2), both('RepeatCount', 1, 'Next::RepeatCount(1, self.RepeatCount.1, self.RepeatCount.2)'), '2 left')
    if 'RepeatMax' in vs:
        go('RepeatMax', iv(_0=1), (both('RepeatMax', 1, 'Next::RepeatMax(0, self.RepeatMax.1, self.RepeatMax.2)') + [FN(S('RepeatMax', 2))], both('RepeatMax', 1, 'self.RepeatMax.2') + [FN(S('RepeatMax', 2))]), 'up to 1', merged=True)
        go('RepeatMax', iv(_0=0), [FN(S('RepeatMax', 2))], 'none left')
        go('RepeatMax', iv(_0=3), both('RepeatMax', 1, 'Next::RepeatMax(2, self.RepeatMax.1, self.RepeatMax.2)') + [FN(S('RepeatMax', 2))], 'up to 3', merged=True)
    if 'RepeatBetween' in vs:
        go('RepeatBetween', iv(_0=2, _1=5), both('RepeatBetween', 2, 'Next::RepeatBetween(1, 4, self.RepeatBetween.2, self.RepeatBetween.3)'), '2 to 5')
        go('RepeatBetween', iv(_0=1, _1=5), (both('RepeatBetween', 2, 'Next::RepeatBetween(0, 4, self.RepeatBetween.2, self.RepeatBetween.3)'), both('RepeatBetween', 2, 'Next::RepeatMax(4, self.RepeatBetween.2, self.RepeatBetween.3)')), '1 to 5')
        go('RepeatBetween', iv(_0=0, _1=1), [FN('Next::RepeatMax(1, self.RepeatBetween.2, self.RepeatBetween.3)')], '0 to 1')
        go('RepeatBetween', iv(_0=0, _1=5), [FN('Next::RepeatMax(5, self.RepeatBetween.2, self.RepeatBetween.3)')], '0 to 5')
        # as many as that again: same as a counted repetition
        for m, alts in ((3, [both('RepeatBetween', 2, 'Next::%s(%s2, self.RepeatBetween.2, self.RepeatBetween.3)' % (k, p)) for k, p in (('RepeatCount', ''), ('RepeatBetween', '2, '))] + [[FN('Next::RepeatCount(3, self.RepeatBetween.2, self.RepeatBetween.3)')]]),
                        (0, [[FN('self.RepeatBetween.3')], [FN('Next::RepeatMax(0, self.RepeatBetween.2, self.RepeatBetween.3)')], [FN('Next::RepeatCount(0, self.RepeatBetween.2, self.RepeatBetween.3)')]])):
            an, r = F.run(fn, [C.sym('module'), C.variant_value(adt, 'RepeatBetween', fields=iv(_0=m, _1=m))], dict(T0)); n += 1
            k = 'next:RepeatBetween:%d to %d' % (m, m)
            if r is None: rep.ob(False, k, 'the continuation RepeatBetween %d to %d has no lookahead (it panics)' % (m, m), where); continue
            got = X.t.union(r); w = next((sorted(x) for x in alts if sorted(x) == got), sorted(alts[0]))
            judge(rep, got, w, k, 'continuation RepeatBetween %d to %d' % (m, m), where)
    if 'Slice' in vs: go('Slice', None, ['SLICE[module, self.Slice.0, self.Slice.1, self.Slice.2]'])
    if 'Peek' in vs: go('Peek', None, ['peek[%s, %s]' % (FN(S('Peek', 0)), FN(S('Peek', 1)))])
    if 'PeekNot' in vs: go('PeekNot', None, ['peek_not[%s, %s]' % (FN(S('PeekNot', 0)), FN(S('PeekNot', 1)))])
    for vn in vs:
        if vn not in ('Empty', 'Union', 'Cat', 'Sequence', 'Repeat', 'RepeatCount', 'RepeatMax', 'RepeatBetween', 'Slice', 'Peek', 'PeekNot'): rep.known(False, 'next:' + vn, 'continuation without a rule', where)
    return n

# ---- set operations -------------------------------------------------------------------------------------------------
BS = {'ByteSet::intersection': 'inter', 'ByteSet::difference': 'diff'}
def kind(v, c):
    """class of a byte-set term: the element's set, the new set (less what is already filed), their common part, the element's rest"""
    ks = set()
    for a in v:
        if a[0] == 'phi': continue
        if a[0] == 'sym': ks.add({'self.branches.[].0': 'OLD', 'bs': 'NEW', 'peek.branches.[].0': 'PEEK'}.get(c.v(A.V(a)), '?'))
        elif a[0] == 'op' and a[1] in ('inter', 'diff'):
            x, y = kind(a[2][0], c), kind(a[2][1], c)
            if a[1] == 'inter':
                s = {x, y}
                ks.add('COMMON' if s <= {'OLD', 'NEW', 'COMMON'} and len(s) > 1 or s == {'OLD', 'PEEK'} or s == {'COMMON'} else '?')
            elif x == 'OLD' and y in ('NEW', 'COMMON', 'PEEK'): ks.add('REST')
            elif x == 'REST' and y in ('PEEK', 'NEW', 'COMMON'): ks.add('REST')
            elif x == 'NEW' and y in ('OLD', 'COMMON', 'REST'): ks.add('NEW')
            else: ks.add('?')
        else: ks.add('?')
    if ks == {'OLD', 'REST'}: return 'REST'
    return ks.pop() if len(ks) == 1 else '?'

def watched(X, fn, args, pure, empties=None, root='self'):
    """run a set operation over a list of branches; (analysis, result, in-place stores, pushes, appends)"""
    stores = {}
    c = X.c
    class R(A.Analysis):
        def on_store(self, a, key, st):
            if key[1] == root and '[]' in key[2]: stores.setdefault(key[2][-1], []).append(st.get(key))
    def model(an, name, nn, vals, targs, st, site, f, bb, line):
        last = nn.split('::')[-1]
        if last == 'next' and vals and 'branches' in c.v(an.snap(vals[0], st)):
            for k in [k for k in st if k != 'G' and k[0] == 'heap' and k[1] == root and '[]' in k[2]]: del st[k]
            return None
        if nn == 'ByteSet::is_empty':
            k = kind(an.snap(vals[0], st), c)
            if empties and k in empties: return A.V(('int', empties[k]))
            return None
        p = pure.get(nn)
        if p is None: return None
        sn = tuple(an.snap(v, st) for v in vals)
        return p(an, sn) if callable(p) else A.V(('op', p, sn))
    an = R(X.prog, model=model); an.cmp = None
    try: r = an.run(fn, args)[0]
    except A.Diverge: r = None
    ev = lambda *ns: [e for e in an.events.values() if e.callee.split('::')[-1] in ns]
    return an, r, stores, ev

def items(x):
    """the elements of a list or array value"""
    if x[0] == 'vec': return x[1]
    if x[0] == 'agg' and x[1] == 'array': return frozenset().union(*x[3]) if x[3] else frozenset()
    return None

def tuples(v):
    """components of the tuple alternatives of a value"""
    return [a[3] for a in v if a[0] == 'agg' and len(a[3]) == 2] + [('?', '?') for a in v if not (a[0] == 'agg' and len(a[3]) == 2) and a[0] != 'phi']

def algebra(prog, rep, X):
    n = 0; c = X.c; S = C.sym
    # one more branch
    for name, lvl in (('MatchTreeStep::union_branch', False), ('MatchTreeLevel::merge_branch', True)):
        fn = prog.one(name)
        if not rep.known(fn, name, 'not found', name): continue
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        args = [S('self')] + ([S('index')] if lvl else []) + [S('bs'), S('next')]
        new = 'tuple(index, next)' if lvl else 'next'
        def added(v):
            """does the continuation keep the old ones and add the new one"""
            t = c.v(v)
            return re.fullmatch(r'Next::Union\((self\.branches\.\[\]\.1, next|next, self\.branches\.\[\]\.1)\)', t) if not lvl else None
        for em, label in (({'COMMON': 0, 'REST': 0, 'NEW': 0}, 'overlapping'), ({'COMMON': 0, 'REST': 1, 'NEW': 0}, 'covering'), ({'COMMON': 0, 'REST': 0, 'NEW': 1}, 'covered'), ({'COMMON': 1, 'REST': 0, 'NEW': 0}, 'disjoint')):
            an, r, stores, ev = watched(X, fn, args, BS, em); n += 1
            key = '%s:%s' % (name.split('::')[-1], label)
            push = [(t, e) for e in ev('push') for t in tuples(e.args[1])]
            s0 = [kind(v, c) for v in stores.get('0', [])]; s1 = [c.v(v) for v in stores.get('1', [])]
            ins = [(c.v(e.args[0]), c.v(e.args[1])) for e in ev('insert')]
            ks = [kind(t[0], c) if t[0] != '?' else '?' for t, e in push]
            if '?' in ks + s0 and not rep.known(False, key, 'sets not classified: %s %s' % (ks, s0), where): continue
            filed = set()
            for (t, e), k in zip(push, ks):
                nx = c.v(t[1])
                old = nx == 'self.branches.[].1'
                newest = nx == 'next' if not lvl else bool(re.search(r'tuple\(index, next\)', nx)) and 'self.branches' not in nx
                mixed = (bool(added(t[1])) if not lvl else False)
                filed.add((k, 'old' if old else 'new' if newest else 'both' if mixed else '?:' + nx[:80]))
            inplace = set(s0)
            if em['COMMON'] == 0:
                # the shared bytes go on with the old and the new continuation
                if inplace or s1 or lvl:
                    okset = inplace == {'COMMON'}
                    oknext = (all(added(v) for v in stores.get('1', [])) and bool(s1)) if not lvl else any(a == 'self.branches.[].1' and b == 'tuple(index, next)' for a, b in ins)
                    rep.ob(okset and oknext, key + ':shared', 'bytes in both the old and the new class are filed under %s / %s' % (sorted(inplace) or 'the whole old class', (s1 or ins)[:2]), where)
                else: rep.ob(('COMMON', 'both') in filed, key + ':shared', 'bytes in both classes are filed as %s' % sorted(filed), where)
            else:
                rep.ob(not s0 and not s1, key + ':shared', 'a branch that shares no byte with the new class is changed', where)
            want = set()
            if em['COMMON'] == 0 and em['REST'] == 0: want.add(('REST', 'old'))
            if em['NEW'] == 0: want.add(('NEW', 'new'))
            got = filed - {('COMMON', 'both')}
            if not any(x[1].startswith('?') for x in got): rep.ob(got == want, key + ':rest', 'byte classes filed apart: %s, expected %s' % (sorted(got), sorted(want)), where)
            else: rep.known(False, key + ':rest', str(sorted(got))[:200], where)
            # what was set apart ends up in the result
            if ('REST', 'old') in want and ('REST', 'old') in got:
                into = [e for e in ev('push', 'append', 'extend') if c.v(e.args[0]).startswith('self.branches') or 'self.branches' in c.v(e.args[0])]
                apart = [e for (t, e), k in zip(push, ks) if k == 'REST' and not c.v(e.args[0]).startswith('self.branches')]
                rep.ob(not apart or any(e.callee.split('::')[-1] in ('append', 'extend') for e in into), key + ':kept', 'the rest of a split byte class is dropped', where)
    # union of two steps
    fn = prog.one('MatchTreeStep::union')
    if rep.known(fn, 'union', 'not found', 'MatchTreeStep::union'):
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        for a in (0, 1):
            for b in (0, 1):
                an, r = X.F.run(fn, [X.mkstep('self', a), X.mkstep('other', b)], {'MatchTreeStep::union_branch': 'UB'}); n += 1
                if not rep.known(r is not None, 'union:%d%d' % (a, b), 'never returns', where): continue
                acc = c.v(X.part(r, 'accept'))
                rep.ob(acc == str(a | b), 'union:accept:%d%d' % (a, b), 'union of steps that %s and %s accept here %s' % ('do' if a else 'do not', 'do' if b else 'do not', 'does not accept' if acc == '0' else 'is ' + acc), where)
                ub = [e for e in an.events.values() if e.callee.endswith('::union_branch')]
                rep.ob(any([c.v(x) for x in e.args[1:]] == ['other.branches.[].0', 'other.branches.[].1'] for e in ub), 'union:branches:%d%d' % (a, b), 'branches of the second step are not all added: %s' % [[c.v(x) for x in e.args[1:]] for e in ub][:2], where)
    # intersection with a peeked step, and its complement
    for name in ('peek', 'peek_not'):
        fn = prog.one('MatchTreeStep::' + name)
        if not rep.known(fn, name, 'not found', 'MatchTreeStep::' + name): continue
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        for a in (0, 1):
            for p in (0, 1):
                for em in ({'COMMON': 0, 'REST': 0}, {'COMMON': 1, 'REST': 0}, {'COMMON': 0, 'REST': 1}):
                    def is_empty(an, s, em=em):
                        k = kind(s[0], c)
                        return A.V(('int', 0 if k == 'OLD' else em[k])) if k in em or k == 'OLD' else A.V(('op', 'EMPTYQ', s))
                    an, r = X.F.run(fn, [X.mkstep('self', a), X.mkstep('peek', p)], dict(BS, **{'ByteSet::is_empty': is_empty})); n += 1
                    key = '%s:%d%d%d%d' % (name, a, p, em['COMMON'], em['REST'])
                    if not rep.known(r is not None, key, 'never returns', where): continue
                    acc = c.v(X.part(r, 'accept')); br = X.part(r, 'branches'); what = '%s of a step that %s here with one that %s' % (name, 'accepts' if a else 'goes on', 'accepts' if p else 'goes on')
                    if name == 'peek' and p: want = (str(a), {'self.branches'})
                    elif name == 'peek' and a: want = ('0', {'peek.branches'})
                    elif name == 'peek': want = ('0', {('COMMON', 'Next::Peek(self.branches.[].1, peek.branches.[].1)')} if em['COMMON'] == 0 else set())
                    elif p: want = ('0', set())
                    else:
                        w = set()
                        if em['COMMON'] == 0: w.add(('COMMON', 'Next::PeekNot(self.branches.[].1, peek.branches.[].1)'))
                        if em['REST'] == 0: w.add(('REST', 'self.branches.[].1'))
                        want = (str(a), w)
                    got = set()
                    for x in br:
                        if x[0] == 'sym': got.add(c.v(A.V(x)))
                        elif items(x) is not None:
                            ps = [e for e in an.events.values() if e.callee.split('::')[-1] == 'push']
                            for t in [t for e in ps for t in tuples(e.args[1])] if ps else tuples(items(x)): got.add((kind(t[0], c), c.v(t[1])) if t[0] != '?' else '?')
                        else: got.add('?')
                    # with nothing peeked at all the class stays whole
                    if name == 'peek_not' and not p: got = {('REST', y) if x == 'OLD' else (x, y) for x, y in (g if isinstance(g, tuple) else ('?', g) for g in got)}
                    if '?' in str(sorted(map(str, got))): rep.known(False, key, str(got)[:200], where); continue
                    if name == 'peek_not' and not p and em['REST'] == 1: got.discard(('REST', 'self.branches.[].1'))
                    rep.ob((acc, got) == want, key, '%s yields accept=%s with branches %s, expected %s' % (what, acc, sorted(map(str, got)), want), where)
    # a bounded window
    fn = prog.one('MatchTreeStep::from_slice')
    if rep.known(fn, 'from_slice', 'not found', 'MatchTreeStep::from_slice'):
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        an, r = X.F.run(fn, [S('module'), A.V(('int', 0)), S('inner'), S('next')], T0_without('MatchTreeStep::from_slice')); n += 1
        rep.ob(r is not None and c.v(r) == 'FN[module, next]', 'slice:exhausted', 'after the window the lookahead is %s, not what follows' % (c.v(r) if r else 'never computed'), where)
        full = r'ByteSet\(ARR\((18446744073709551615(, )?){4}\)\)'
        for acc in (0, 1):
            for empty in (0, 1):
                br = C.sym('tree', 'branches') if not empty else A.V(('vec', frozenset()))
                P = T0_without('MatchTreeStep::from_slice'); st = X.struct(X.step, accept=A.V(('int', acc)), branches=br)
                P['MatchTreeStep::from_next'] = lambda an, s, st=st: st if c.v(s[1]) == 'inner' else A.V(('op', 'FN', s))
                ie = lambda an, s, e=empty: A.V(('int', e))
                P['Vec::is_empty'] = ie; P['slice::is_empty'] = ie
                an, r, stores, ev = watched(X, fn, [S('module'), A.V(('int', 3)), S('inner'), S('next')], P, root='tree'); n += 1
                key = 'slice:%s:%s' % ('accepting' if acc else 'not accepting', 'no branch' if empty else 'branches')
                if not rep.known(r is not None, key, 'never returns', where): continue
                a = c.v(X.part(r, 'accept')); b = X.part(r, 'branches')
                got = set()
                for x in b:
                    if items(x) is not None:
                        for t in tuples(items(x)): got.add((c.v(t[0]), c.v(t[1])) if t[0] != '?' else '?')
                    elif x[0] == 'sym' and x[1] == 'tree':
                        for v in stores.get('1', []) or [C.sym('tree', 'branches', '[]', '1')]: got.add((' / '.join(c.v(v) for v in stores.get('0', [])) or 'inner_bs', c.v(v).replace('tree.branches.[].1', 'inner_next')))
                    else: got.add('?')
                got = {g if g == '?' else tuple(y.replace('tree.branches.[].1', 'inner_next').replace('tree.branches.[].0', 'inner_bs') for y in g) for g in got}
                any_ = [(s, nx) for s, nx in (g for g in got if g != '?') if re.fullmatch(full, s) and nx == 'Next::Slice(2, Next::Empty(), next)']
                inner = [g for g in got if g == ('inner_bs', 'Next::Slice(2, inner_next, next)')]
                rep.ob(a == '0', key + ':accept', 'a window with bytes left accepts (accept=%s)' % a, where)
                if '?' in got: rep.known(False, key, str(got)[:200], where); continue
                if acc or empty: rep.ob(any_, key, 'whatever is left of a window once its content may be complete is skipped, but the lookahead admits only %s' % sorted(got), where)
                else: rep.ob(inner, key, 'inside a window the lookahead admits %s' % sorted(got), where)
    return n

MAY_FAIL = ('EndOfInput',)
def negated(rep, X):
    """a step that admits anything only because the node is not predictable must not be negated"""
    fn = X.prog.one('MatchTreeStep::peek_not'); ff = X.prog.one('MatchTreeStep::from_format'); n = 0
    if fn is None or ff is None: return 0
    for vn in MAY_FAIL:
        an, r = X.F.run(ff, [C.sym('module'), C.variant_value(X.F.format, vn), C.sym('next')], dict(T0)); n += 1
        if r is None: continue
        an, q = X.F.run(fn, [X.mkstep('self', 0), r], dict(BS))
        if q is None: continue
        left = X.part(q, 'branches')
        rep.ob(any(items(x) is None or items(x) for x in left), 'negated:' + vn, 'PeekNot of %s admits no byte at all in lookahead although %s can fail' % (vn, vn), '%s %s' % (fn.loc(), fn.name))
    return n

def T0_without(*ks): return {k: v for k, v in T0.items() if k not in ks}

def levels(prog, rep, X):
    n = 0; c = X.c; S = C.sym
    fn = prog.one('MatchTreeLevel::merge_accept')
    if rep.known(fn, 'merge_accept', 'not found', 'merge_accept'):
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        for nm, acc, o, want in (('first', A.V(A.NONE), 0, 'Ok'), ('same', A.V(A.some(S('prev'))), 0, 'Ok'), ('smaller', A.V(A.some(S('prev'))), -1, 'Err'), ('larger', A.V(A.some(S('prev'))), 1, 'Err')):
            st = {('heap', 'self', ('accept',)): acc}
            an, r = C.run(prog, fn, [S('self'), S('index')], st=st, cmp=C.ordering('prev', 'index', o)); n += 1
            k = set() if r is None else set(a[2] for a in r if a[0] == 'agg')
            if len(k) > 1 and want in k: rep.known(False, 'merge_accept:' + nm, 'either of %s' % sorted(k), where); continue
            rep.ob(k == {want}, 'merge_accept:' + nm, 'two alternatives accepting at once: %s gives %s' % (nm, sorted(k)), where)
    fn = prog.one('MatchTreeLevel::merge_step')
    if rep.known(fn, 'merge_step', 'not found', 'merge_step'):
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        for acc in (0, 1):
            for ok in (0, 1):
                P = {'MatchTreeLevel::merge_accept': lambda an, s, ok=ok: A.V(A.ok(A.V(A.UNIT))) if ok else A.V(A.err(A.V(A.UNIT))), 'MatchTreeLevel::merge_branch': 'MBR'}
                an, r = X.F.run(fn, [S('self'), S('index'), X.mkstep('step', acc)], P); n += 1
                ma = [e for e in an.events.values() if e.callee.endswith('::merge_accept')]; mb = [e for e in an.events.values() if e.callee.endswith('::merge_branch')]
                key = 'merge_step:%d%d' % (acc, ok)
                rep.ob(bool(ma) == bool(acc) and all(c.v(e.args[1]) == 'index' for e in ma), key + ':accept', 'a step that %s is merged with %s' % ('accepts' if acc else 'does not accept', [c.v(e.args[1]) for e in ma] or 'no accepting index'), where)
                okv, er = fmt.split(r)
                rep.ob((okv is None) == bool(acc and not ok) and (er is None) == (not (acc and not ok)), key + ':conflict', 'two alternatives that both accept here are %s' % ('merged silently' if okv is not None else 'rejected without conflict'), where)
                if not (acc and not ok): rep.ob(any([c.v(x) for x in e.args[1:]] == ['index', 'step.branches.[].0', 'step.branches.[].1'] for e in mb), key + ':branches', 'branches merged: %s' % [[c.v(x) for x in e.args[1:]] for e in mb][:2], where)
    fn = prog.one('MatchTreeLevel::accepts')
    if rep.known(fn, 'accepts', 'not found', 'accepts'):
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        for ok in (0, 1):
            P = {'MatchTreeLevel::merge_accept': lambda an, s, ok=ok: A.V(A.ok(A.V(A.UNIT))) if ok else A.V(A.err(A.V(A.UNIT)))}
            an, r = X.F.run(fn, [S('nexts')], P); n += 1
            ma = [e for e in an.events.values() if e.callee.endswith('::merge_accept')]
            if not rep.known(ma and r is not None, 'accepts:%d' % ok, 'no merge of indices', where): continue
            rep.ob(all(c.v(e.args[1]).endswith('.0') and 'nexts' in c.v(e.args[1]) or 'nexts' in c.v(e.args[1]) for e in ma), 'accepts:%d:index' % ok, 'indices merged: %s' % [c.v(e.args[1]) for e in ma][:3], where)
            if ok:
                t = [a for a in r if a[0] == 'agg' and a[2] == 'Some']
                rep.ob(t and all('LIST{}' in c.v(X.part(a[3][0], 'branches', X.tree)) for a in t), 'accepts:leaf', 'a decided set of alternatives yields %s' % c.v(r)[:160], where)
            else: rep.ob(any(a[0] == 'agg' and a[2] == 'None' for a in r), 'accepts:undecided', 'several alternatives are taken for one', where)
    fn = prog.one('MatchTreeLevel::grow')
    if rep.known(fn, 'grow', 'not found', 'grow'):
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        def go(acc, merge, sub, depth):
            P = {'MatchTreeLevel::accepts': lambda an, s: A.V(A.some(S('LEAF'))) if acc else A.V(A.NONE), 'MatchTreeStep::from_next': 'FN',
                 'MatchTreeLevel::merge_step': lambda an, s: A.V(A.ok(S('MERGED'))) if merge else A.V(A.err(A.V(A.UNIT))),
                 'MatchTreeLevel::grow': lambda an, s: A.V(A.some(A.V(('op', 'GROW', s)))) if sub else A.V(A.NONE)}
            return X.F.run(fn, [S('module'), S('nexts'), A.V(('int', depth))], P)
        def opt(r): return set(c.v(a[3][0]) if a[2] == 'Some' else None for a in r if a[0] == 'agg') if r is not None else {'!'}
        an, r = go(1, 1, 1, 5); n += 1
        rep.ob(opt(r) == {'LEAF'}, 'grow:decided', 'a set of one alternative grows to %s' % opt(r), where)
        an, r = go(0, 1, 1, 0); n += 1
        rep.ob(opt(r) == {None}, 'grow:limit', 'undecided alternatives at the depth limit grow to %s' % opt(r), where)
        an, r = go(0, 0, 1, 5); n += 1
        rep.ob(r is not None and all(x is None or 'MERGED' not in x for x in opt(r)), 'grow:conflict', 'two alternatives that accept at once grow to %s' % opt(r), where)
        ms = [e for e in an.events.values() if e.callee.endswith('::merge_step')]
        rep.ob(None in opt(r), 'grow:conflict:none', 'two alternatives that accept at once never fail the tree', where)
        an, r = go(0, 1, 0, 5); n += 1
        rep.ob(None in opt(r), 'grow:nested', 'undecided nested alternatives never fail the tree: %s' % opt(r), where)
        an, r = go(0, 1, 1, 5); n += 1
        ms = [e for e in an.events.values() if e.callee.endswith('::merge_step')]
        for e in ms:
            i, s = c.v(e.args[1]), c.v(e.args[2])
            m = re.fullmatch(r'FN\[module, (.*)\.1\]', s); j = re.fullmatch(r'(.*)\.0', i)
            if m is None: m = re.fullmatch(r'FN\[module, \.1\[(.*)\]\]', s); j = re.fullmatch(r'\.0\[(.*)\]', i)
            if not rep.known(m, 'grow:candidates', 'merge of %s %s' % (i, s), where): continue
            rep.ob(j and m.group(1) == j.group(1) and 'nexts' in i, 'grow:candidates', 'the candidate %s is merged under the index %s' % (m.group(1), i), where)
        rep.ob(ms, 'grow:merged', 'candidates are not merged', where)
        t = [a[3][0] for a in r if a[0] == 'agg' and a[2] == 'Some'] if r is not None else []
        for v in t:
            acc = c.v(X.part(v, 'accept', X.tree)); br = X.part(v, 'branches', X.tree)
            if 'LEAF' in c.v(v): continue
            rep.ob('MERGED.accept' in acc.split('|'), 'grow:accept', 'the accepting alternative of the tree is %s' % acc[:100], where)
            for x in br:
                if items(x) is None: rep.known(False, 'grow:branches', c.v(A.V(x))[:120], where); continue
                for tp in tuples(items(x)):
                    if tp[0] == '?': rep.known(False, 'grow:branches', 'not a pair', where); continue
                    k, s = c.v(tp[0]), c.v(tp[1])
                    m = re.fullmatch(r'GROW\[module, (.*), (\d+)\]', s)
                    if not rep.known(m, 'grow:branches', s[:120], where): continue
                    rep.ob(m.group(1) == 'MERGED.branches.[].1' and k == 'MERGED.branches.[].0' and int(m.group(2)) <= 4, 'grow:branches', 'bytes %s lead to %s' % (k, s[:120]), where)
            n += 1
    fn = prog.one('MatchTree::matches')
    if rep.known(fn, 'matches', 'not found', 'matches'):
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        for more, has in ((0, 0), (1, 0), (1, 1)):
            P = {'MatchTree::matches': 'MATCHES', 'ReadCtxt::read_byte': lambda an, s, m=more: A.V(A.some(A.V(A.tup(S('b'), S('input2'))))) if m else A.V(A.NONE), 'ByteSet::contains': lambda an, s, h=has: A.V(('int', h))}
            an, r = X.F.run(fn, [S('self'), S('input')], P); n += 1
            key = 'matches:%s' % ('end of input' if not more else 'byte in a branch' if has else 'byte in no branch')
            got = set() if r is None else set(c.v(A.V(a)) for a in r)
            acc = lambda g: g.startswith('self.accept')
            if not more or not has: rep.ob(got and all(acc(g) for g in got), key, 'the alternative is %s, not the one that accepts here' % sorted(got), where)
            else:
                rep.ob('MATCHES[self.branches.[].1, input2]' in got and all(acc(g) or g == 'MATCHES[self.branches.[].1, input2]' for g in got), key, 'the alternative is %s, not the one of the branch that contains the byte' % sorted(got), where)
                ce = [e for e in an.events.values() if e.callee == 'ByteSet::contains']
                rep.ob(ce and all([c.v(x) for x in e.args] == ['self.branches.[].0', 'b'] for e in ce), key + ':tested', 'membership asked of %s' % [[c.v(x) for x in e.args] for e in ce], where)
    fn = prog.one('MatchTree::build')
    if rep.known(fn, 'build', 'not found', 'build'):
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        an, r = X.F.run(fn, [S('module'), S('branches'), S('next')], {'MatchTreeLevel::grow': 'GROW'}); n += 1
        ins = [c.v(e.args[1]) for e in an.events.values() if e.callee.split('::')[-1] == 'insert']
        got = '' if r is None else c.v(r)
        pat = r'tuple\((.*?), Next::Cat\(MaybeTyped::Untyped\(branches\.\[\]\), next\)\)'
        hit = [x for x in ins if re.fullmatch(pat, x)] or re.findall(pat, got)
        if rep.known(ins or 'LIST' in got, 'build:candidates', got[:160], where):
            rep.ob(hit, 'build:candidates', 'candidates of the tree are %s: each alternative must be under its own position, followed by what follows the choice' % (ins or got)[:2], where)
            m = [re.fullmatch(pat, x).group(1) for x in ins if re.fullmatch(pat, x)]
            if m: rep.ob(all(re.search(r'count|index|idx|enum|in\[|\.\.', x) or not re.fullmatch(r'\d+', x) for x in m), 'build:index', 'alternatives are numbered %s' % m, where)
        g = [e for e in an.events.values() if e.callee.endswith('::grow')]
        rep.ob(g and r is not None and got.startswith('GROW['), 'build:grown', 'the tree is %s' % got[:100], where)
    return n
