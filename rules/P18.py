"""P18: the code generated for every expression, pattern and function application computes what the interpreter computes.

The code generator (embed_expr, embed_pattern, embed_view_expr, GenLambda::apply / apply_pair) is interpreted abstractly on every
kind of expression and pattern, its parts left symbolic; the Rust it builds is reduced by engine/rustsem.py and compared with the
meaning of the expression.  The run-time helpers that code calls (doodle::prelude) are interpreted abstractly on short sequences of
symbolic elements with an unknown function."""
import itertools, re
import absint as A, common as C, gen, rustsem, lists as LL
from gen import opt, arr, tup, st, num, one
from P17 import compare, where, undecided, WORDS
CRATES = ['doodle']
RULE = ('The code generator is interpreted abstractly on every kind of expression, pattern, view and function application with symbolic parts, and the Rust it builds, reduced to the value it computes, must be the value the '
        'expression denotes: operator, operands and their order, projections, constructors, first matching case, binding of arguments. The run-time helpers used by that code are interpreted on short symbolic sequences.')
S = C.sym

class Types:
    def __init__(self, G):
        self.RT = RT = lambda v, **f: G.vv('RustType', v, **f)
        self.prim = lambda p: RT('Atom', _0=G.vv('AtomType', 'Prim', _0=G.vv('PrimType', 'Unsigned', _0=G.vv('MachineUint', p)) if p[0] == 'U' and p != 'Usize' else G.vv('PrimType', p)))
        self.inl = lambda rt: G.vv('GenType', 'Inline', _0=rt)
        self.comp = lambda k, t: RT('Atom', _0=G.vv('AtomType', 'Comp', _0=G.vv('CompType', k, _0=t)))
        self.decl = lambda *vs: G.rec('RustTypeDecl', {'def': G.vv('RustTypeDef', 'Enum', _0=arr(*vs))})
        self.unit = lambda n: G.vv('RustVariant', 'Unit', _0=st(n))
        self.tupv = lambda n, *ts: G.vv('RustVariant', 'Tuple', _0=st(n), _1=arr(*ts))
        self.named = lambda d: G.vv('GenType', 'Def', _0=tup(num(1), st('Ty')), _1=d)
        self.pair = self.inl(RT('AnonTuple', _0=arr(self.prim('U8'), self.prim('U16'))))

SEQS = {'FlatMap': 'try_flat_map_vec(s.iter().cloned(), %s)', 'FlatMapAccum': 'try_fold_map_curried(s.iter().cloned(), init, %s)', 'LeftFold': 'try_fold_left_curried(s.iter().cloned(), init, %s)',
        'FlatMapList': 'try_flat_map_append_vec(s.iter().cloned(), %s)'}
def do(c, q=''): return '%s%s; => <%s>' % (c, q, c)
def cm(a, b, op): return {'Eq': '(%s Eq %s)' % (a, b), 'Ne': 'not (%s Eq %s)' % (a, b), 'Lt': '(%s Lt %s)' % (a, b), 'Gt': '(%s Lt %s)' % (b, a), 'Lte': 'not (%s Lt %s)' % (b, a), 'Gte': 'not (%s Lt %s)' % (a, b)}[op]

def exprs(G, TE, P, T):
    """(name, expression, expected, extra model)"""
    e = lambda v, **f: G.vv(TE, v, **f)
    p = lambda v, **f: G.vv(P, v, **f)
    def forced(**by): return lambda an, nn, last, sn, vals: by.get(last)
    yield 'Var', e('Var', _1=st('x')), '=> x', None
    for b in (0, 1): yield 'Bool', e('Bool', _0=num(b)), '=> ' + ('false', 'true')[b], None
    for w in ('U8', 'U16', 'U32', 'U64'):
        yield w, e(w, _0=num(7)), '=> 7', None
        yield 'As' + w, e('As' + w, _0=S('x')), '=> (x as %s)' % w, None
        for en in ('Be', 'Le'):
            if w != 'U8': yield w + en, e(w + en, _0=S('x')), do('%s%s(x)' % (w.lower(), en.lower())), None
    yield 'AsChar', e('AsChar', _0=S('x')), 'char::from_u32(x); ' + do('<char::from_u32(x)>.unwrap()'), None
    for i in (0, 1, 2): yield 'TupleProj', e('TupleProj', _1=S('x'), _2=num(i)), '=> x.%d' % i, None
    yield 'RecordProj', e('RecordProj', _1=S('x'), _2=st('f')), '=> x.f', None
    yield 'SeqLength', e('SeqLength', _0=S('x')), '=> (x.len() as U32)', None
    yield 'SeqIx', e('SeqIx', _1=S('s'), _2=S('i')), '=> s[i]', None
    yield 'SubSeq', e('SubSeq', _1=S('s'), _2=S('i'), _3=S('n')), do('Vec::from(s[i..(i Add n)])'), None
    yield 'SubSeqInflate', e('SubSeqInflate', _1=S('s'), _2=S('i'), _3=S('n')), do('slice_ext(s, i..(i Add n))'), None
    yield 'EnumFromTo', e('EnumFromTo', _1=S('a'), _2=S('b')), '=> a..b', None
    yield 'Append', e('Append', _1=S('a'), _2=S('b')), do('seq_append(a, b)'), None
    yield 'Dup', e('Dup', _1=S('n'), _2=S('x')), do('dup32(n, x)'), None
    yield 'LiftOption None', e('LiftOption', _1=opt(None)), '=> None', None
    yield 'LiftOption Some', e('LiftOption', _1=opt(S('x'))), '=> Some(x)', None
    for n in range(4):
        xs = ['x%d' % i for i in range(n)]
        yield 'Tuple of %d' % n, e('Tuple', _1=arr(*map(S, xs))), '=> (%s)' % ', '.join(xs), None
        yield 'Seq of %d' % n, e('Seq', _1=arr(*map(S, xs))), '=> [%s]' % ', '.join(xs), None
    dc = T.decl(T.unit('A'), T.tupv('B', T.prim('U8')), T.tupv('C', T.RT('AnonTuple', _0=S('tys'))))
    gt = T.named(dc)
    yield 'Variant without content', e('Variant', _0=gt, _1=st('A'), _2=S('x')), '=> Ty::A', None
    for v in 'BC': yield 'Variant ' + v, e('Variant', _0=gt, _1=st(v), _2=S('x')), '=> Ty::%s(x)' % v, None
    for g in (gt, T.inl(T.RT('Atom', _0=G.vv('AtomType', 'TypeRef', _0=G.vv('LocalType', 'LocalDef', _1=st('Ty')))))):
        for perm in itertools.permutations('ab'): yield 'Record', e('Record', _0=g, _1=arr(*[tup(st(k), S(v)) for k, v in zip('abc', list(perm) + ['x'])])), '=> Ty {a: %s, b: %s, c: x}' % perm, None
    for v in G.ad('IntRel')['v']: yield 'IntRel ' + v['n'], e('IntRel', _1=G.vv('IntRel', v['n']), _2=S('x'), _3=S('y')), '=> ' + cm('x', 'y', v['n']), None
    for v in G.ad('Arith')['v']: yield 'Arith ' + v['n'], e('Arith', _1=G.vv('Arith', v['n']), _2=S('x'), _3=S('y')), do('try_sub!(x, y, trace)') if v['n'] == 'Sub' else '=> (x %s y)' % v['n'], None
    UO = G.ad('UnaryOp', lambda a: any(v['n'] == 'BoolNot' for v in a['v']))
    for v in UO['v']: yield 'Unary ' + v['n'], e('Unary', _1=G.vv(UO, v['n']), _2=S('x')), {'BoolNot': '=> BoolNot(x)', 'IntSucc': do('succ(x)'), 'IntPred': do('pred(x)')}[v['n']], None
    lam = e('Lambda', _0=tup(T.pair, S('rt')), _1=st('$h'), _2=S('body'))
    for v, c in SEQS.items():
        fs = {x['n']: [f[0] for f in x['f']] for x in TE['v']}[v]
        yield v, e(v, _1=lam, **{'_2': S('s') if v == 'FlatMap' else S('init'), '_' + fs[-1]: S('s')}), do(c % '|$h| {=> Ok(body)}', '?'), None
    for b, m in ((0, 'unsorted'), (1, 'sorted')):
        yield 'FindByKey ' + m, e('FindByKey', _0=T.pair, _1=num(b), _2=lam, _3=S('q'), _4=S('s')), do('find_by_key_%s(|$h| {=> body}, q, s)' % m), None
    irr = forced(is_pattern_irrefutable=num(1))
    B = lambda n: p('Binding', _0=T.pair, _1=st(n))
    W = p('Wildcard', _0=T.pair)
    yield 'Destructure pair', e('Destructure', _1=S('v'), _2=p('Tuple', _1=arr(B('a'), W, B('b'))), _3=e('Tuple', _1=arr(e('Var', _1=st('b')), e('Var', _1=st('a')), S('y')))), '=> (v.2, v.0, y)', irr
    yield 'Destructure name', e('Destructure', _1=S('v'), _2=B('a'), _3=e('Tuple', _1=arr(e('Var', _1=st('a')), S('y')))), '=> (v, y)', irr
    u8, vec = T.inl(T.prim('U8')), T.inl(T.comp('Vec', T.prim('U8')))
    def matchtype(rf, ht): return lambda an, nn, last, sn, vals: G.vv('Refutability', rf) if last == 'refutability_check' else opt(A.V(('agg', 'std::borrow::Cow', 'Owned', (ht,)))) if last == 'get_type' else None
    for rf in [v['n'] for v in G.ad('Refutability')['v']]:
        for ht in (u8, vec):
            want = 'match v {p0: => x0 | p1: => x1' + ('}' if rf == 'Irrefutable' else ' | _: => err}')
            yield 'Match ' + rf, e('Match', _0=u8, _1=S('v'), _2=arr(tup(S('p0'), S('x0')), tup(S('p1'), S('x1')))), want, matchtype(rf, ht)

# matches on yes/no results ------------------------------------------------------------------
def truth(t, v):
    """value of the text of a yes/no expression over v, None when it has none"""
    t = t.strip()
    if t.startswith('=> '): t = t[3:]
    if t in ('true', 'false'): return t == 'true'
    m = re.fullmatch(r'BoolNot\((.*)\)', t)
    if m:
        r = truth(m[1], v); return None if r is None else not r
    m = re.fullmatch(r'matches\(v, (.*)\)', t)
    if m: return any(x == '_' or x == str(v) for x in m[1].split(' | ')) if m[1] else False
    m = re.fullmatch(r'(not )?\(v Eq (\d+)\)', t)
    if m: return (int(m[2]) == v) == (not m[1])
    m = re.match(r'if (.*?) \{', t)
    if m:
        d, i = 1, m.end()
        while i < len(t) and d: d += {'{': 1, '}': -1}.get(t[i], 0); i += 1
        a = t[m.end():i - 1]; rest = t[i:].strip()
        if not rest.startswith('else {') or not rest.endswith('}'): raise rustsem.Unknown(t)
        c = truth(m[1], v)
        return truth(a if c else rest[6:-1], v)
    m = re.fullmatch(r'match v \{(.*)\}', t)
    if m:
        for c in m[1].split(' | '):
            x = re.fullmatch(r'(\d+|_): => (true|false|err|panic)', c)
            if not x: raise rustsem.Unknown(t[:100])
            if x[1] in ('_', str(v)): return truth(x[2], v)
        return None
    if t in ('err', 'panic'): return None
    raise rustsem.Unknown('yes/no value ' + t[:100])

def yesno(G, rep, TE, P, T, f):
    n = 0
    B = T.inl(T.prim('Bool')); u8 = T.inl(T.prim('U8'))
    pats = {'1': G.vv(P, 'U8', _0=num(1)), '2': G.vv(P, 'U8', _0=num(2)), '_': G.vv(P, 'Wildcard', _0=u8)}
    for k in (1, 2, 3):
        for ps in itertools.product('12_', repeat=k):
            if len(set(ps)) < k: continue
            for bs in itertools.product((0, 1), repeat=k):
                e = G.vv(TE, 'Match', _0=B, _1=S('v'), _2=arr(*[tup(pats[p], G.vv(TE, 'Bool', _0=num(b))) for p, b in zip(ps, bs)]))
                def ex(an, nn, last, sn, vals):
                    if last == 'refutability_check': return G.vv('Refutability', 'Irrefutable' if '_' in ps else 'Refutable')
                    if last == 'get_type': return opt(A.V(('agg', 'std::borrow::Cow', 'Owned', (u8,))))
                    if last in ('eq', 'ne') and 'MatchCase' not in nn: return None
                desc = ', '.join('%s gives %s' % (p, bool(b)) for p, b in zip(ps, bs)); key = 'yesno:' + desc
                try:
                    t = G.sem.expr_top(G.run(f, [e, G.vv('ExprInfo', 'Natural')], G.model('stm', ex)))
                    for v in (1, 2, 3):
                        want = next((bool(b) for p, b in zip(ps, bs) if p == '_' or p == str(v)), None)
                        if want is None: continue
                        n += 1
                        rep.ob(truth(t, v) == want, key + ':%d' % v, 'the code for a match where %s computes %s of the value %d, it should be %s: %s' % (desc, truth(t, v), v, want, t[:150]), where(f))
                except (rustsem.Unknown, gen.Missing) as x: undecided(rep, key, str(x)[:150])
    rep.floor(n, 'yes/no matches', 60)

# patterns -------------------------------------------------------------------------------------
def patterns(G, rep, P, T, vocab):
    f = G.find(lambda n: n.endswith('codegen::embed_pattern'))
    if f is None: undecided(rep, 'pattern', 'no embed_pattern'); return
    p = lambda v, **k: G.vv(P, v, **k)
    u8 = T.inl(T.prim('U8')); W = p('Wildcard', _0=u8); B = lambda n: p('Binding', _0=u8, _1=st(n)); gt = T.named(T.decl()); og = T.inl(T.comp('Option', T.prim('U8')))
    V = lambda n, x: p('Variant', _0=gt, _1=st(n), _2=x); O = lambda x: p('Option', _0=og, _1=opt(x)); Tu = lambda *x: p('Tuple', _0=u8, _1=arr(*x)); Sq = lambda *x: p('Seq', _0=u8, _1=arr(*x))
    cs = [(W, '_'), (B('a'), 'a'), (O(None), 'None')]
    for w in ('U8', 'U16', 'U32', 'U64'):
        cs.append((p(w, _0=num(7)), '7'))
        for a, b in ((3, 3), (3, 9), (3, None), (0, 255)):
            bd = G.rec('Bounds', {'min': num(a), 'max': opt(None if b is None else num(b))})
            cs.append((p('Int', _0=T.inl(T.prim(w)), _1=bd), '3' if a == b else '%d..' % a if b is None else '%d..=%d' % (a, b)))
    for b in (0, 1): cs.append((p('Bool', _0=num(b)), str(b)))
    cs.append((p('Char', _0=num(65)), '65'))
    cs.append((p('ZConst', _1=S('z')), 'z')); cs.append((p('ZRange', _1=S('r')), 'r.min..=r.max'))
    base = [(W, '_'), (B('a'), 'a'), (p('U8', _0=num(3)), '3'), (O(None), 'None'), (O(B('c')), 'Some(c)'), (V('N', B('d')), 'Ty::N(d)'), (V('N', W), 'Ty::N(_)'), (Sq(B('e')), '[e]'), (Tu(B('f'), W), '(f, _)')]
    for k in range(4):
        for off in range(len(base) if k else 1):
            xs = [base[(off + i * 2) % len(base)] for i in range(k)]
            cs.append((Tu(*[x[0] for x in xs]), '(%s)' % ', '.join(x[1] for x in xs)))
            cs.append((Sq(*[x[0] for x in xs]), '[%s]' % ', '.join(x[1] for x in xs)))
    for x, t in base: cs += [(V('M', x), 'Ty::M(%s)' % t), (O(x), 'Some(%s)' % t)]
    n = 0
    for copy in (0, 1):
        def ex(an, nn, last, sn, vals):
            if last == 'is_copy': return num(copy)
            if last in ('try_into', 'try_from'):
                a = one(sn(0))
                if a and a[0] == 'agg' and a[1].split('::')[-1] == 'Bounds': return A.V(A.ok(tup(*a[3])))
        for i, (x, want) in enumerate(cs):
            n += 1
            def get():
                t = G.sem.ptext(G.run(f, [x], G.model('stm', ex))).replace('ref ', '')
                t = re.sub(r'(?<=\()\.\.(?=\))', '_', t)
                return '(_)' if t == '..' else t
            compare(rep, vocab, 'pattern:%d:%d' % (i, copy), 'the pattern generated for %s' % want, want, get, f)
    rep.floor(n, 'patterns', 100)
    for w in ('u8', 'u16', 'u32', 'u64'):
        g = G.find(lambda n: 'TryFrom<bounds::Bounds> for (%s' % w in n and n.endswith('::try_from'))
        if g is None: continue
        for a, b in ((3, 9), (0, 255), (4, None)):
            r = G.run(g, [G.rec('Bounds', {'min': num(a), 'max': opt(None if b is None else num(b))})], G.model('stm', lambda an, nn, last, sn, vals: A.V(A.ok(sn(0))) if last in ('try_into', 'try_from') and one(sn(0)) and one(sn(0))[0] == 'int' else None))
            x = one(r); got = None
            if x and x[0] == 'agg' and x[2] == 'Ok':
                y = one(x[3][0])
                if y and y[0] == 'agg' and len(y[3]) == 2: got = C.show(y[3][0]) + ' ' + C.show(y[3][1])
            want = '%d %s' % (a, 'Option::None()' if b is None else 'Option::Some(%d)' % b)
            if got is None or re.search(r'[^\d :()\w]', got): undecided(rep, 'range:%s:%s' % (w, b), C.show(r)[:100])
            else: rep.ob(got == want, 'range:%s:%s' % (w, b), 'the bounds %s become the range %s' % (want, got), where(g))

# function application -------------------------------------------------------------------------
def application(G, rep, TE, P, T, vocab):
    e = lambda v, **k: G.vv(TE, v, **k)
    p = lambda v, **k: G.vv(P, v, **k)
    f1, f2 = (G.find(lambda n, m=m: 'codegen' in n and 'Lambda' in n and n.endswith('::' + m)) for m in ('apply', 'apply_pair'))
    f0 = G.find(lambda n: 'codegen' in n and 'Lambda' in n and n.endswith('::beta_reduce'))
    lam = lambda kind, body, head='$h': G.rec('TypedLambda', {'head': st(head), 'head_type': T.pair, 'kind': G.vv('ClosureKind', kind), 'body': body})
    NAT = G.vv('ExprInfo', 'Natural'); u8 = T.inl(T.prim('U8'))
    n = 0
    kinds = [v['n'] for v in G.ad('ClosureKind')['v']]
    def forced(br, ok):
        def ex(an, nn, last, sn, vals):
            if last == 'is_beta_reducible': return num(br)
            if last in ('eq', 'ne') and 'Option' in C.show(sn(0))[:8]:
                l, r = C.show(sn(0)), C.show(sn(1))
                if all(re.fullmatch(r"Option::(None\(\)|Some\('\$?\w+'\))", x) for x in (l, r)): return num(int((l == r) == (last == 'eq')))
            if last == 'needs_ok' and 'Lambda' in nn: return num(ok)
            if last == 'refutability_check': return G.vv('Refutability', 'Irrefutable')
            if last == 'is_pattern_irrefutable': return num(1)
            if last == 'get_type': return opt(A.V(('agg', 'std::borrow::Cow', 'Owned', (T.pair,))))
            if last == 'as_ref' and one(sn(0)) and one(sn(0))[0] == 'sym' and C.show(sn(0)) == 'body': return sn(0)
        return ex
    params = [('a name', G.local('q'), 'let $h = q; '), ('the same name', G.local('$h'), ''), ('an expression', G.call('g', G.local('q')), 'g(q); let $h = <g(q)>; ')]
    for kind in kinds:
        for what, prm, pre in params:
            for br, ok in ((1, 0), (0, 0), (0, 1)):
                for f, nm in ((f1, 'apply'), (f0, 'beta_reduce')):
                    if f is None or (nm == 'beta_reduce' and not br): continue
                    n += 1
                    want = pre + '=> body' if pre or br else 'let $h = $h; => body'
                    ex = forced(br, ok)
                    compare(rep, vocab, 'apply:%s:%s:%s:%d%d' % (nm, kind, what, br, ok), 'applying a function to %s' % what, want, lambda: G.sem.expr_top(G.run(f, [lam(kind, S('body')), prm, NAT], G.model('stm', ex))), f)
    V = lambda x: e('Var', _0=u8, _1=st(x))
    B = lambda x: p('Binding', _0=u8, _1=st(x)); W = p('Wildcard', _0=u8)
    sub = lambda a, b: e('Tuple', _0=u8, _1=arr(a, b))
    H = e('Var', _0=T.pair, _1=st('h'))
    bodies = [('its parts', lambda names: sub(e('TupleProj', _1=H, _2=num(1)), e('TupleProj', _1=H, _2=num(0))), ('a', 'b'), '=> (h.1, h.0)')]
    for nm in ('Destructure', 'Match'):
        mk = (lambda pt, bd: e('Destructure', _0=u8, _1=H, _2=pt, _3=bd)) if nm == 'Destructure' else (lambda pt, bd: e('Match', _0=u8, _1=H, _2=arr(tup(pt, bd))))
        for pt, bd, want in (((B('a'), B('b')), (V('b'), V('a')), '=> (%1, %0)'), ((B('a'), B('b')), (V('a'), V('a')), '=> (%0, %0)'), ((B('a'), B('b')), (V('b'), V('z')), '=> (%1, z)'),
                             ((W, B('b')), (V('b'), V('b')), '=> (%1, %1)'), ((B('a'), W), (V('a'), V('z')), '=> (%0, z)')):
            if nm == 'Match' and (pt[0] is W or pt[1] is W): continue
            bodies.append(('%s of (%s)' % (nm, ', '.join('_' if x is W else 'ab'[i] for i, x in enumerate(pt))), (lambda names, pt=pt, bd=bd, mk=mk: mk(p('Tuple', _0=T.pair, _1=arr(*pt)), sub(*bd))), None, want))
    inner = lambda pt, bd: e('Destructure', _0=u8, _1=e('Var', _0=T.pair, _1=st('a')), _2=p('Tuple', _0=T.pair, _1=arr(*pt)), _3=bd)
    for pt, bd, want in (((B('a'), B('c')), sub(V('c'), V('z')), '=> (%0.1, z)'), ((B('a'), B('c')), sub(V('a'), V('b')), '=> (%0.0, %1)'), ((B('b'), B('c')), sub(V('b'), V('c')), '=> %0')):
        bodies.append(('Destructure of (a, b) rebinding its names', (lambda names, pt=pt, bd=bd: e('Destructure', _0=u8, _1=H, _2=p('Tuple', _0=T.pair, _1=arr(B('a'), B('b'))), _3=inner(pt, bd))), None, want))
    other = e('Var', _0=T.pair, _1=st('z'))
    for bd, want in ((sub(V('a'), V('b')), '=> z'), (sub(V('b'), e('TupleProj', _1=H, _2=num(0))), '=> (z.1, %0)')):
        bodies.append(('Destructure of another pair', (lambda names, bd=bd: e('Destructure', _0=u8, _1=other, _2=p('Tuple', _0=T.pair, _1=arr(B('a'), B('b'))), _3=bd)), None, want))
    for kind in kinds:
        if kind == 'ExtractKey' or f2 is None: continue
        for what, body, _, want in bodies:
            for q0, q1 in (('q', 'r'), ('b', 'a'), ('a', 'b')):
                w = want.replace('%0', q0).replace('%1', q1)
                if what == 'its parts': w = '=> (%s, %s)' % (q1, q0)
                n += 1
                compare(rep, vocab, 'pair:%s:%s:%s,%s' % (kind, what, q0, q1), 'applying a function over %s to (%s, %s)' % (what, q0, q1), w,
                        lambda: re.sub(r'\((\w+), (\w+)\)\.([01])', lambda m: m[1 + int(m[3])], G.sem.expr_top(G.run(f2, [lam(kind, body(None), 'h'), G.local(q0), G.local(q1), NAT], G.model('stm', forced(1, 0))))), f2)
    rep.floor(n, 'function applications', 60)

# views ----------------------------------------------------------------------------------------
def views(G, rep, vocab):
    f = G.find(lambda n: n.endswith('codegen::embed_view_expr'))
    if f is None: undecided(rep, 'view', 'no embed_view_expr'); return
    v = lambda x, **k: G.vv('TypedViewExpr', x, **k)
    w = v('Var', _0=st('w')); o = lambda b, t: v('Offset', _0=b, _1=S(t))
    for x, want in ((w, '=> w'), (o(w, 'o'), do('w.offset(o)', '?')), (o(o(w, 'o'), 'q'), 'w.offset(o)?; ' + do('<w.offset(o)>.offset(q)', '?'))):
        compare(rep, vocab, 'view:' + want, 'the code for a view', want, lambda: G.sem.expr_top(G.run(f, [x], G.model('stm'))), f)

# exhaustiveness of the generated matches --------------------------------------------------------
def refutability(G, rep, P, T):
    f = G.find(lambda n: n.endswith('codegen::refutability_check') or 'codegen::refutability_check::<' in n)
    if f is None: undecided(rep, 'refutability', 'no refutability_check'); return
    p = lambda v, **k: G.vv(P, v, **k)
    B = T.prim('Bool'); bt = T.inl(B); O = lambda t: T.comp('Option', t)
    wild = p('Wildcard', _0=bt); tt, ff = p('Bool', _0=num(1)), p('Bool', _0=num(0))
    bools = [('_', wild, lambda v: True), ('true', tt, lambda v: v is True), ('false', ff, lambda v: v is False)]
    def some(ty, inner): return [('Some(%s)' % n, p('Option', _0=ty, _1=opt(x)), (lambda v, m=m: v is not None and m(v[0]))) for n, x, m in inner]
    def none(ty): return ('None', p('Option', _0=ty, _1=opt(None)), lambda v: v is None)
    ob = T.inl(O(B)); obs = [none(ob)] + some(ob, bools)
    oo = T.inl(O(O(B))); oos = [none(oo)] + some(oo, [none(ob)] + some(ob, bools[:2]))
    tb = T.inl(T.RT('AnonTuple', _0=arr(B, B)))
    pairs = [('(%s, %s)' % (a[0], b[0]), p('Tuple', _0=tb, _1=arr(a[1], b[1])), (lambda v, a=a, b=b: a[2](v[0]) and b[2](v[1]))) for a in bools for b in bools[:2]]
    u = T.inl(T.prim('U8')); nums = [(str(i), p('U8', _0=num(i)), (lambda v, i=i: v == i)) for i in (0, 1)] + [bools[0]]
    ens = {}
    for names in (('A',), ('A', 'B')):
        et = T.named(T.decl(*[T.tupv(n, B) for n in names]))
        ens[names] = (et, [('%s(%s)' % (n, b[0]), p('Variant', _0=et, _1=st(n), _2=b[1]), (lambda v, n=n, b=b: v[0] == n and b[2](v[1]))) for n in names for b in bools[:2]])
    doms = [('bool', bt, bools, [True, False]), ('Option<bool>', ob, obs, [None, (True,), (False,)]), ('Option<Option<bool>>', oo, oos, [None, (None,), ((True,),), ((False,),)]),
            ('(bool, bool)', tb, pairs, list(itertools.product((True, False), repeat=2))), ('u8', u, nums, list(range(256)))]
    doms += [('enum of %s' % ' and '.join(k), v[0], v[1], [(n, b) for n in k for b in (True, False)]) for k, v in ens.items()]
    def ex(an, nn, last, sn, vals):
        if last in ('eq', 'ne'):
            l, r = C.show(sn(0)), C.show(sn(1))
            if all(re.fullmatch(r"'\w+'", x) for x in (l, r)): return num(int((l == r) == (last == 'eq')))
    n = 0
    for dn, ty, pats, vals in doms:
        for k in (0, 1, 2):
            for cs in itertools.combinations(pats, k):
                n += 1
                r = G.run(f, [ty, arr(*[tup(c[1], S('r%d' % i)) for i, c in enumerate(cs)])], G.model('stm', ex), arrays=True, lists=2)
                got = {x[2] for x in r or () if x[0] == 'agg' and x[1].endswith('Refutability')}
                key = 'refutability:%s:%s' % (dn, ', '.join(c[0] for c in cs))
                if r is None or len(got) != len(r): undecided(rep, key, '-' if r is None else C.show(r)[:100]); continue
                full = all(any(c[2](v) for c in cs) for v in vals)
                if len(got) > 1 and not full and 'Irrefutable' in got: undecided(rep, key, sorted(got)); continue
                rep.ob(full or 'Irrefutable' not in got, key, 'a match on %s with the patterns %s is taken to be exhaustive' % (dn, ', '.join(c[0] for c in cs) or '(none)'), where(f))
    rep.floor(n, 'exhaustiveness questions', 40)

# run-time helpers -----------------------------------------------------------------------------
def helpers(G, rep):
    n = [0]
    def fun(kind, keys=None):
        def f(an, a, args, s):
            if a[0] != 'sym' or a[1] != 'f': return None
            x = [an.snap(v, s) for v in args]
            cnt = next((keys[i] for i in range(9) if isinstance(keys, tuple) and i < len(keys) and re.search(r'x%d\)?$' % i, C.show(x[0]))), None)
            made = lambda: arr(*[A.V(('op', o, tuple(x))) for o in 'GH'[:cnt]])
            if kind == 'list': return A.V(A.ok(made()))
            if kind == 'val': return A.V(A.ok(A.V(('op', 'F', tuple(x)))))
            if kind == 'pair': return A.V(A.ok(tup(A.V(('op', 'F', tuple(x))), made())))
            if kind == 'key': return num(keys[C.show(x[0])])
            if kind == 'fail': return A.V(A.err(S('E'))) if C.show(x[0]) == keys else A.V(A.ok(arr()))
        return f
    def flat(v):
        if v is None: return 'panic'
        out = {C.show(x[3][0]) if x[0] == 'agg' and x[2] in ('Borrowed', 'Owned') else C.show(A.V(x)) for x in v}
        return out.pop() if len(out) == 1 else ' or '.join(sorted(out))
    def h(name, args, want, kind='', keys=None):
        f = G.find(lambda x: x.endswith('prelude::' + name))
        if f is None: undecided(rep, 'helper:' + name, 'not found'); return
        n[0] += 1
        got = flat(G.run(f, args, G.model('stm'), applied=fun(kind, keys), arrays=True, lists=2, asserts=C.overflow(LL.num)))
        key = 'helper:%s:%s%s' % (name, ','.join(C.show(a) for a in args)[:80], ':%s' % (keys,) if keys else '')
        if got == want: rep.ob(True, key, '', where(f)); return
        odd = set(re.findall(r'[A-Za-z_]\w*', got)) - {'Result', 'Ok', 'Err', 'Option', 'Some', 'None', 'array', 'tuple', 'F', 'G', 'H', 'E', 'i', 'f', 'v', 'q', 'x', 'y', 'z', 'Add', 'Sub', 'num_traits', 'one', 'panic', 'from_be_bytes', 'from_le_bytes', 'u16', 'u32', 'u64'} - {'x%d' % i for i in range(9)}
        if odd or ' or ' in got or '|' in got: undecided(rep, key, '%s: %s' % (name, got[:150])); return
        rep.ob(False, key, '%s(%s) computes %s, it should compute %s' % (name, ', '.join(C.show(a) for a in args)[:120], got[:250], want[:250]), where(f))
    L = lambda xs: 'array(%s)' % ', '.join(xs)
    for k in range(4):
        names = ['x%d' % i for i in range(k)]; xs = arr(*map(S, names))
        v = 'i'
        for x in names: v = 'F[tuple(%s, %s)]' % (v, x)
        h('try_fold_left_curried', [xs, S('i'), S('f')], 'Result::Ok(%s)' % v, 'val')
        # the function contributes none, one or two elements for each element of the sequence
        for cnt in itertools.product((0, 1, 2), repeat=k):
            res = lambda a, c: ['%s[%s]' % (o, a) for o in 'GH'[:c]]
            h('try_flat_map_vec', [xs, S('f')], 'Result::Ok(%s)' % L([y for x, c in zip(names, cnt) for y in res(x, c)]), 'list', cnt)
            acc = []; v = 'i'; out = []
            for x, c in zip(names, cnt):
                acc = acc + res('tuple(%s, %s)' % (L(acc), x), c)
                a = 'tuple(%s, %s)' % (v, x); out += res(a, c); v = 'F[%s]' % a
            h('try_flat_map_append_vec', [xs, S('f')], 'Result::Ok(%s)' % L(acc), 'list', cnt)
            h('try_fold_map_curried', [xs, S('i'), S('f')], 'Result::Ok(%s)' % L(out), 'pair', cnt)
        for j in range(3): h('seq_append', [xs, arr(*[S(y) for y in 'yzv'[:j]])], L(names + list('yzv'[:j])))
        h('dup32', [num(k), S('v')], L(['v'] * k))
        for x in names: h('try_flat_map_vec', [xs, S('f')], 'Result::Err(E)', 'fail', x)
        for q in range(5):
            h('find_by_key_sorted', [S('f'), num(q), xs], 'Option::Some(x%d)' % (q // 2) if q % 2 == 0 and q // 2 < k else 'Option::None()', 'key', {x: 2 * i for i, x in enumerate(names)})
            ks = (1, 0, 1)[:k]
            h('find_by_key_unsorted', [S('f'), num(q), xs], 'Option::Some(x%d)' % ks.index(q) if q in ks else 'Option::None()', 'key', dict(zip(names, ks)))
        for a in range(k + 1):
            for b in range(a, k + 4):
                ref = []
                for i in range(a, b):
                    if i >= k and i - k >= len(ref): ref = None; break
                    ref.append(names[i] if i < k else ref[i - k])
                if ref is None: continue
                h('slice_ext', [xs, A.V(('agg', 'std::ops::Range', 'Range', (num(a), num(b))))], L(ref))
    for w in (2, 4, 8):
        for en in ('be', 'le'): h('u%d%s' % (8 * w, en), [tup(*[S('x%d' % i) for i in range(w)])], 'u%d::from_%s_bytes[%s]' % (8 * w, en, L(['x%d' % i for i in range(w)])))
    h('pred', [S('x')], 'Sub[x, num_traits::one]'); h('succ', [S('x')], 'Add[x, num_traits::one]'); h('slice_all', [S('x')], 'x')
    rep.floor(n[0], 'runs of run-time helpers', 80)

def run(prog, rep, tier):
    G = gen.Gen(prog)
    TE = G.ad('TypedExpr', lambda a: any(v['n'] == 'FlatMapAccum' for v in a['v']))
    P = G.ad('TypedPattern'); T = Types(G)
    f = G.find(lambda n: n.endswith('codegen::embed_expr'))
    alls = list(exprs(G, TE, P, T))
    seen = {c[0].split()[0] for c in alls} | {'Lambda', 'Numeric'}
    for v in TE['v']:
        if v['n'] not in seen: undecided(rep, 'expression:' + v['n'], 'no meaning recorded for the expression ' + v['n'])
    vocab = set(WORDS) | set('abcdefghinpqrsvwxyz') | {'let', 'BoolNot', 'matches', 'init', 'body', 'h', '$h', 'Ty', 'M', 'N', 'g'}
    for c in alls: vocab |= set(re.findall(r'[A-Za-z_$][\w]*', c[2]))
    n = 0
    if f is None: undecided(rep, 'expression', 'no embed_expr')
    else:
        for i, (name, e, want, ex) in enumerate(alls):
            for info in [v['n'] for v in G.ad('ExprInfo')['v']]:
                n += 1
                compare(rep, vocab, 'expression:%s:%s:%d' % (name, info, i), 'the code generated for the expression %s' % name, want, lambda: G.sem.expr_top(G.run(f, [e, G.vv('ExprInfo', info)], G.model('stm', ex))), f)
        rep.floor(n, 'expressions', 100)
        yesno(G, rep, TE, P, T, f)
    patterns(G, rep, P, T, vocab)
    G.keep_lambda = True
    application(G, rep, TE, P, T, vocab)
    refutability(G, rep, P, T)
    G.keep_lambda = False
    views(G, rep, vocab)
    helpers(G, rep)
    rep.analysed_fns(G.fns)
