"""Static size bounds, lookahead bounds and dependence on what follows never underestimate a format."""
import re
import absint as A, interp as I, common as C, fmt
CRATES = ['doodle']
RULE = ('Per format node (plain and typed) the abstract result over the MIR of match_bounds and lookahead_bounds must combine the bounds of every nested '
        'format the way the node consumes it (sum, union, product with the count), per expression node the bounds must combine those of its operands with '
        'the same operator, nullability must be a minimum of zero, and dependence on the continuation must be answered yes whenever a nested format that is '
        'compiled against the continuation depends on it.')
Z, ANYB, B1, AL1 = 'Bounds(0, Option::Some(0))', 'Bounds(0, Option::None())', 'Bounds(1, Option::Some(1))', 'Bounds(1, Option::None())'
OPS = ('union', 'add', 'mul', 'sub', 'div', 'bitor', 'bitand', 'shl', 'shr', 'rem')
BOPS = {'Bounds::union': 'union', '<Bounds as Add>::add': 'add', '<Bounds as Sub>::sub': 'sub', '<Bounds as Mul>::mul': 'mul', '<Bounds as Div>::div': 'div', '<Bounds as BitOr>::bitor': 'bitor',
        '<Bounds as BitAnd>::bitand': 'bitand', '<Bounds as Shl>::shl': 'shl', '<Bounds as Shr>::shr': 'shr', 'Bounds::rem': 'rem', 'Bounds::add': 'add', 'Bounds::mul': 'mul'}

class Terms:
    def __init__(self, c): self.c = c
    def flat(self, v):
        out = set(); used = set()
        def go(v):
            for a in v:
                if a[0] == 'op' and a[1] in ('union', 'add'): used.add(a[1]); [go(x) for x in a[2]]
                elif a[0] == 'op' and a[1] in ('reduce', 'fold', 'sum'): [go(x) for x in a[2]]
                elif a[0] == 'phi': pass
                else: out.add(self.one(a))
        go(v); return out, used
    def one(self, a):
        if a[0] == 'op' and a[1] == 'mul':
            return 'mul{%s}' % ', '.join(sorted('+'.join(sorted(self.flat(x)[0])) for x in a[2]))
        return self.c.v(A.V(a))

def specs(vn, o, typed, what):
    """[(leaves, operators)] any of which is right"""
    S = lambda i: 'self.%s.%d' % (vn, i + o)
    m = '' if typed else ', module'
    M = lambda x: 'MB[%s%s]' % (x, m); L = lambda x: ('MB' if what == 'match' else 'LB') + '[%s%s]' % (x, m)
    E = lambda x: 'BOUNDS[%s]' % x
    mul = lambda *xs: 'mul{%s}' % ', '.join(sorted(xs))
    match = what == 'match'
    el = {'Union': S(0) + '.[]', 'UnionNondet': S(0) + '.[]', 'Match': S(1) + '.[].1', 'Tuple': S(0) + '.[]', 'Sequence': S(0) + '.[]'}.get(vn)
    if vn in ('Union', 'UnionNondet', 'Match'): return [({L(el)}, {'union'}), ({L(el), Z}, {'union'})] if False else [({L(el)}, {'union'})]
    if vn in ('Tuple', 'Sequence'):
        return [({Z, L(el)}, {'add'})] + ([({Z, L(el), M(el)}, {'add', 'union'})] if not match else [])
    if vn in ('LetFormat', 'MonadSeq'):
        a, b = S(0), S(2 if vn == 'LetFormat' else 1)
        return [({L(a), L(b)}, {'add'})] if match else [({L(a), M(a), L(b)}, {'add', 'union'})]
    if vn == 'Maybe': return [({Z, L(S(1))}, {'union'})]
    if vn == 'Permit': return [({Z, L(S(0))}, {'union'})] + ([({L(S(0))}, set())] if not match else [])
    if vn == 'LiftedOption': return [({Z, L(S(0) + '.Some.0')}, set())]
    one = {
        'ItemVar': L('DEF[module, self.ItemVar.0]'), 'FormatCall': L('self.FormatCall.4'),
        'Fail': Z, 'EndOfInput': Z, 'Compute': Z, 'Pos': Z, 'DecodeBytes': Z, 'ParseFromView': Z, 'WithView': Z, 'Phantom': Z, 'Byte': B1,
        'Repeat': ANYB, 'RepeatUntilSeq': ANYB, 'AccumUntil': ANYB, 'ForEach': ANYB, 'Apply': AL1,
        'Variant': L(S(1)), 'Map': L(S(0)), 'Where': L(S(0)), 'Let': L(S(2)), 'Dynamic': L(S(2)), 'LetView': L(S(1)), 'Hint': L(S(1)),
        'Repeat1': mul(L(S(0)), AL1), 'RepeatUntilLast': mul(L(S(1)), AL1), 'RepeatCount': mul(L(S(1)), E(S(0))), 'RepeatBetween': mul(L(S(2)), '+'.join(sorted((E(S(0)), E(S(1)))))),
        'Peek': Z if match else L(S(0)), 'PeekNot': Z if match else L(S(0)), 'Slice': E(S(0)), 'WithRelativeOffset': Z if match else ANYB,
    }
    if vn in one: return [({one[vn]}, set())]
    if vn == 'SkipRemainder': return [({ANYB}, set())] + ([({Z}, set())] if not match else [])
    return None

INF = float('inf')
def iadd(a, b): return (a[0] + b[0], a[1] + b[1])
def iuni(a, b): return (min(a[0], b[0]), max(a[1], b[1]))
def imul(a, b): return (a[0] * b[0], 0 if 0 in (a[1], b[1]) else a[1] * b[1])

def sem(vn, o, what, L, M, E, cnt):
    """the sizes a node admits when its operands have the given sizes"""
    S = lambda i: 'self.%s.%d' % (vn, i + o); Z = (0, 0); match = what == 'match'; ids = ['e%d' % i for i in range(cnt)]
    if vn in ('Union', 'UnionNondet', 'Match'):
        t = L(ids[0])
        for x in ids[1:]: t = iuni(t, L(x))
        return t
    if vn in ('Tuple', 'Sequence', 'MonadSeq', 'LetFormat'):
        xs = ids if vn in ('Tuple', 'Sequence') else [S(0), S(2 if vn == 'LetFormat' else 1)]
        at = Z; t = Z
        for x in xs: t = iuni(t, iadd(at, L(x))); at = iadd(at, M(x))
        return at if match else t
    if vn in ('Maybe', 'Permit'): return iuni(Z, L(S(1 if vn == 'Maybe' else 0)))
    if vn == 'ItemVar': return L('DEF[module, self.ItemVar.0]')
    if vn == 'FormatCall': return L('self.FormatCall.4')
    i = {'Variant': 1, 'Map': 0, 'Where': 0, 'Let': 2, 'Dynamic': 2, 'LetView': 1, 'Hint': 1}.get(vn)
    if i is not None: return L(S(i))
    if vn in ('Repeat1', 'RepeatUntilLast'): return imul(L(S(0 if vn == 'Repeat1' else 1)), (1, INF))
    if vn == 'RepeatCount': return imul(L(S(1)), E(S(0)))
    if vn == 'RepeatBetween': return imul(L(S(2)), (E(S(0))[0], E(S(1))[1]))
    if vn in ('Peek', 'PeekNot'): return Z if match else L(S(0))
    if vn == 'Slice': return E(S(0))
    return None

def concrete(F, fn, adt, vn, v, o, typed, what, tail, base):
    """with representative sizes for the operands: '' when every answer covers them, the first that does not, None when one is not a known bound"""
    import lists as LL
    samples = [[(1, 2), (3, 5), (0, 4)], [(0, INF), (2, 2), (1, 1)], [(2, 2), (1, INF), (0, 0)]]
    ty = 'TypedFormat' if typed else 'Format'; isl = vn in ('Union', 'UnionNondet', 'Match', 'Tuple', 'Sequence')
    for sz in samples:
        for cnt in ((1, 2, 3) if isl else (1,)):
            P = {k: x for k, x in base.items() if k not in BOPS}; seen = []
            def size(t):
                if re.fullmatch(r'e\d', t): return sz[int(t[1])]
                if t not in seen: seen.append(t)
                m = re.search(r'\.(\d)$', t); return sz[int(m[1]) % 3] if m else sz[0]
            def val(an, s):
                lo, hi = size(F.c.v(s[0])); return F.bnd(lo, None if hi == INF else hi)
            for k in ('%s::match_bounds' % ty, '%s::lookahead_bounds' % ty, 'Expr::bounds', 'TypedExpr::bounds'): P[k] = val
            fi = {v['f'][o + (vn == 'Match')][0]: LL.arr([C.sym('e%d' % i) if vn != 'Match' else A.V(A.tup(C.sym('p%d' % i), C.sym('e%d' % i))) for i in range(cnt)])} if isl else None
            w = sem(vn, o, what, size, size, size, cnt)
            if w is None: return None
            an, r = F.run(fn, [C.variant_value(adt, vn, fields=fi)] + tail, P, lists=2, arrays=True)
            m = re.fullmatch(r'Bounds\((\d+), Option::(?:Some\((\d+)\)|None\(\))\)', '!' if r is None else F.c.v(r))
            if not m: return None
            lo, hi = int(m[1]), INF if m[2] is None else int(m[2])
            if hi < w[1] or what == 'match' and lo > w[0]: return '%d to %s where its parts take %s to %s' % (lo, hi, w[0], w[1])
    return ''

def run(prog, rep, tier):
    F = fmt.Fmt(prog); T = Terms(F.c); n = 0
    for typed in (False, True):
        ty = 'TypedFormat' if typed else 'Format'; adt = F.typed if typed else F.format; tail = [] if typed else [C.sym('module')]
        base = dict(BOPS); base.update({'Expr::bounds': 'BOUNDS', 'TypedExpr::bounds': 'BOUNDS', 'FormatModule::get_format': 'DEF', ty + '::match_bounds': 'MB', ty + '::lookahead_bounds': 'LB'})
        for what in ('match', 'lookahead'):
            fn = prog.one('%s::%s_bounds' % (ty, what))
            if fn is None: rep.floor(0, ty + ' ' + what, 1); continue
            where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
            for v in adt['v']:
                vn = v['n']; o = F.off(typed, vn); key = '%s:%s:%s' % (ty, what, vn)
                if vn == 'FormatCall': o = 0
                if vn == 'Align':
                    for k in (1, 8):
                        an, r = F.run(fn, [C.variant_value(adt, vn, fields={v['f'][0][0]: A.V(('int', k))})] + tail, base); n += 1
                        got = '!' if r is None else F.c.v(r)
                        rep.ob(got == 'Bounds(0, Option::Some(%d))' % (k - 1), key + ':%d' % k, 'aligning to %d skips %s' % (k, got), where)
                    continue
                if vn == 'Bits':
                    for (lo, hi), w in (((0, 0), Z), ((9, 17), 'Bounds(2, Option::Some(3))'), ((8, None), AL1), ((16, 16), 'Bounds(2, Option::Some(2))')):
                        P = dict(base)
                        for q in ('match', 'lookahead'): P['%s::%s_bounds' % (ty, q)] = lambda an, s, lo=lo, hi=hi: F.bnd(lo, hi)
                        an, r = F.run(fn, [C.variant_value(adt, vn)] + tail, P); n += 1
                        got = '!' if r is None else F.c.v(r)
                        if re.search(r'[a-z_]+\[', got): rep.known(False, key, got[:120], where); continue
                        rep.ob(got == w, key + ':%s to %s bits' % (lo, hi), '%s to %s bits take %s bytes' % (lo, hi, got), where)
                    continue
                sp = specs(vn, o, typed, what)
                if sp is None: rep.known(False, key, 'node without a rule', where); continue
                an, r = F.run(fn, [C.variant_value(adt, vn)] + tail, base); n += 1
                rep.analysed_fns(an.inlined)
                if r is None: rep.ob(False, key, '%s bound of %s is never computed' % (what, vn), where); continue
                got = T.flat(r)
                if got in sp: rep.ob(True, key, '', where); continue
                s = F.c.v(r)
                bad = concrete(F, fn, adt, vn, v, o, typed, what, tail, base)
                if bad is None and (len(r) > 1 or re.search(r'unresolved|\btop\b|opaque|fold|reduce|elem\b', s)): rep.known(False, key, s[:200], where); continue
                rep.ob(bad == '', key, '%s bound of %s is %s' % (what, vn, bad or s[:240]), where)
        fn = prog.one(ty + '::is_nullable')
        if fn is not None:
            where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
            for (lo, hi), w in (((0, 0), 1), ((0, 3), 1), ((0, None), 1), ((1, 1), 0), ((1, None), 0), ((2, 5), 0)):
                an, r = F.run(fn, [C.sym('self')] + tail, {ty + '::match_bounds': lambda an, s, lo=lo, hi=hi: F.bnd(lo, hi)}); n += 1
                got = '!' if r is None else F.c.v(r)
                rep.ob(got == str(w), '%s:nullable:%s..%s' % (ty, lo, hi), 'a format of %s to %s bytes is %s' % (lo, hi, 'nullable' if got == '1' else 'not nullable' if got == '0' else got), where)
        else: rep.known(False, ty + ':nullable', 'not found', ty)
    n += depends(prog, rep, F)
    n += exprs(prog, rep, F)
    rep.floor(n, 'bound rules', 250)

# nested formats compiled against the continuation, by operand
SEES = {'Variant': [1], 'Map': [0], 'Where': [0], 'Let': [2], 'LetView': [1], 'Dynamic': [2], 'ForEach': [2], 'MonadSeq': [0, 1], 'LetFormat': [0, 2], 'Permit': [0], 'Hint': [1],
        'RepeatCount': [1], 'RepeatUntilLast': [1], 'RepeatUntilSeq': [1], 'AccumUntil': [4]}
NEVER = ('Fail', 'EndOfInput', 'SkipRemainder', 'Align', 'Byte', 'WithView', 'Peek', 'PeekNot', 'Slice', 'Bits', 'WithRelativeOffset', 'Compute', 'Pos', 'Apply', 'DecodeBytes', 'ParseFromView', 'Phantom')
ALWAYS = ('Repeat', 'Repeat1', 'RepeatBetween', 'Maybe')
LISTS = {'Tuple': 'self.Tuple.0.[]', 'Sequence': 'self.Sequence.0.[]', 'Match': 'self.Match.1.[].1', 'LiftedOption': 'self.LiftedOption.0.Some.0', 'ItemVar': 'DEF[module, self.ItemVar.0]'}

def depends(prog, rep, F):
    fn = prog.one('Format::depends_on_next'); n = 0
    if not rep.known(fn, 'depends', 'not found', 'Format::depends_on_next'): return 0
    where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
    def go(vn, deps, build=None):
        asked = set(); built = set()
        def dep(an, s):
            t = F.c.v(s[0]); asked.add(t); return A.V(('int', deps(t)))
        def bld(an, s):
            built.add(tuple(F.c.v(x) for x in s[1:])); return A.V(A.some(C.sym('TREE'))) if build else A.V(A.NONE)
        an, r = F.run(fn, [C.variant_value(F.format, vn), C.sym('module')], {'Format::depends_on_next': dep, 'FormatModule::get_format': 'DEF', 'MatchTree::build': bld})
        rep.analysed_fns(an.inlined)
        vals = set()
        for a in r or ():
            if a[0] == 'int': vals.add(a[1])
            elif a[0] == 'op' and a[1] == 'any': vals |= {0} | {x[1] for v in a[2] for x in v if x[0] == 'int'}
            else: vals.add('?')
        return vals, asked, built
    for v in F.format['v']:
        vn = v['n']; key = 'depends:' + vn
        if vn in NEVER:
            # asking is harmless (the answer is only ever too cautious): what matters is that nothing compiled against the continuation is missed
            rep.ob(True, key, '', where); n += 1; continue
        if vn in ALWAYS or vn in SEES or vn in LISTS:
            kids = ['self.%s.%d' % (vn, i) for i in SEES.get(vn, [])] or ([LISTS[vn]] if vn in LISTS else [None])
            for k in kids:
                vals, asked, _ = go(vn, (lambda t, k=k: int(t == k)) if k else (lambda t: 0)); n += 1
                if vals - {0, 1} or not vals: rep.known(False, key, str(vals), where); continue
                good = 1 in vals and (vals == {1} or vn in LISTS)
                rep.ob(good, key + (':' + k.split('.', 2)[-1] if k else ''), '%s is compiled against what follows it%s, but is reported not to depend on it' % (vn, ' when %s depends on it' % k if k else ''), where)
            if vn in SEES:
                vals, asked, _ = go(vn, lambda t: 0); n += 1
                rep.ob(vals <= {0, 1, '?'}, key + ':none', '', where)
            continue
        if vn in ('Union', 'UnionNondet'):
            el = 'self.%s.0.[]' % vn
            vals, asked, built = go(vn, lambda t: 1, True); n += 1
            if rep.known(vals and not vals - {0, 1}, key, str(vals), where):
                rep.ob(1 in vals and el in asked, key + ':alternatives', 'a choice with an alternative that depends on what follows is reported not to depend on it', where)
            vals, asked, built = go(vn, lambda t: 0, False); n += 1
            if rep.known(vals and not vals - {0, 1}, key, str(vals), where): rep.ob(vals == {1}, key + ':undecided', 'a choice that cannot be decided without what follows is reported not to depend on it', where)
            for b in built:
                rep.ob(re.fullmatch(r'(LIST\{)?self\.%s\.0(\.\[\])?\}?' % vn, b[0]) and b[1] == 'Next::Empty()', key + ':tree', 'decided from a tree over %s followed by %s' % b[:2], where); n += 1
            continue
        rep.known(False, key, 'node without a rule', where)
    return n

def exprs(prog, rep, F):
    n = 0
    for ty in ('Expr', 'TypedExpr'):
        fn = prog.one(ty + '::bounds'); adt = F.expr if ty == 'Expr' else C.adt(prog, 'TypedExpr')
        if not rep.known(fn, ty, 'not found', ty): continue
        where = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        P = dict(BOPS); P.update({'Expr::bounds': 'B', 'TypedExpr::bounds': 'B', 'Bounds::clamp': 'clamp'})
        def go(vn, fields=None):
            an, r = F.run(fn, [C.variant_value(adt, vn, fields=fields)], P); rep.analysed_fns(an.inlined)
            return None if r is None else set(F.c.v(A.V(a)) for a in r)
        arith = C.adt(prog, 'Arith'); unary = C.adt(prog, 'UnaryOp')
        for v in adt['v']:
            vn = v['n']; key = '%s:%s' % (ty, vn)
            if vn in ('U8', 'U16', 'U32', 'U64'):
                x = 'self.%s.0' % vn; got = go(vn); n += 1
                got = {re.sub(r'cast:u\d+->usize\[([^\]]*)\]', r'\1', g) for g in got or ()}
                rep.ob(got == {'Bounds(%s, Option::Some(%s))' % (x, x)} or got == {ANYB}, key, 'the constant %s is bounded by %s' % (vn, sorted(got)), where)
            elif vn == 'Arith' or vn == 'Unary':
                a = arith if vn == 'Arith' else unary; fl = [f[0] for f in v['f']]
                oi = 1 if ty == 'TypedExpr' else 0
                x, y = 'B[self.%s.%d]' % (vn, oi + 1), 'B[self.%s.%d]' % (vn, oi + 2)
                for op in a['v']:
                    got = go(vn, {fl[oi]: A.V(('agg', a['adt'], op['n'], ()))}); n += 1
                    w = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'Shl': 'shl', 'Shr': 'shr', 'BitAnd': 'bitand', 'BitOr': 'bitor'}.get(op['n'])
                    good = [{ANYB}]
                    if w: good += [{'%s[%s, %s]' % (w, x, y)}] + ([{'%s[%s, %s]' % (w, y, x)}] if w in ('add', 'mul', 'bitand', 'bitor') else [])
                    if op['n'] == 'IntSucc': good += [{'add[%s, %s]' % (x, B1)}, {'add[%s, %s]' % (B1, x)}]
                    if op['n'] == 'IntPred': good += [{'sub[%s, %s]' % (x, B1)}]
                    if got is None or any(re.search('unresolved|top', g) for g in got): rep.known(False, key + ':' + op['n'], str(got)[:120], where); continue
                    rep.ob(got in good, key + ':' + op['n'], 'bounds of %s are %s' % (op['n'], sorted(got)), where)
            elif vn in ('AsU8', 'AsU16', 'AsU32', 'AsU64'):
                got = go(vn); n += 1; mx = (1 << int(vn[3:])) - 1
                good = {ANYB, '.0[#Some[clamp[B[self.%s.0], 0, %d]]]' % (vn, mx)}
                rep.ob(got and ANYB in got and got <= good, key, 'bounds of the conversion %s are %s' % (vn, sorted(got or ())), where)
            elif vn == 'Numeric':
                got = go(vn); n += 1
                if got is None or any('top' in g or 'unresolved' in g for g in got): rep.known(False, key, str(got)[:120], where); continue
                m = [re.fullmatch(r'Bounds\((.*), (.*)\)', g) for g in got]
                ok = all(x and ('Option::None()' in x.group(2)) == ('0' in x.group(1).split('|')) for x in m)
                rep.ob(ok, key, 'bounds of a numeric tree are %s' % sorted(got), where)
            else:
                got = go(vn); n += 1
                if got is not None and got != {ANYB} and any(re.search(r'B\[', g) for g in got): rep.known(False, key, 'combined from operands: %s' % sorted(got)[:2], where); continue
                rep.ob(got == {ANYB}, key, 'the value of %s is not predictable, yet bounded by %s' % (vn, sorted(got or ())), where)
    return n
