"""The printed Rust text of generated code reads back as the code that was meant: same operators, same grouping, same parts in the same order."""
import re
import absint as A, common as C, lists as LL, rustparse as RP
CRATES = ['doodle']
RULE = ('For every node of the generated-code tree (expressions with every operator as an operand of every other, statements, blocks, control flow, patterns, macros, literals) '
        'the text is computed by abstract interpretation of the MIR of its to_fragment and to_fragment_precedence, then read back with the precedence, associativity and '
        'delimiters of the Rust reference: the tree read must be the tree printed.')
TOKEN = {'Eq': '==', 'Neq': '!=', 'Lt': '<', 'Lte': '<=', 'Gt': '>', 'Gte': '>=', 'Div': '/', 'Rem': '%', 'Add': '+', 'Sub': '-', 'Mul': '*', 'Shl': '<<', 'Shr': '>>', 'BitOr': '|', 'BitAnd': '&', 'BoolOr': '||', 'BoolAnd': '&&'}
CMP = ('Eq', 'Neq', 'Lt', 'Lte', 'Gt', 'Gte'); LOGIC = ('BoolOr', 'BoolAnd')
ASSOC = ('+', '|', '&', '&&', '||')

class Unknown(Exception): pass

def norm(t):
    """chains of one associative operator compare equal however they are grouped; a block of nothing but its value is the value"""
    if not isinstance(t, tuple): return t
    if t[:1] == ('block',) and len(t) == 3 and not t[1] and t[2] is not None: return norm(t[2])
    if t[:1] == ('bin',) and t[1] in ASSOC:
        xs = []
        def go(x):
            if isinstance(x, tuple) and x[:1] == ('bin',) and x[1] == t[1]: go(x[2]); go(x[3])
            else: xs.append(norm(x))
        go(t); return ('chain', t[1], tuple(xs))
    return tuple(norm(x) for x in t)

class Pr:
    def __init__(self, prog, rep):
        self.prog = prog; self.rep = rep; self.n = 0; self.memo = {}; self.handles = {}
        self.a = {k: C.adt(prog, k) for k in ('RustExpr', 'RustOp', 'InfixOperator', 'PrefixOperator', 'Precedence', 'Fragment', 'RustStmt', 'RustControl', 'RustMatchBody', 'RustPattern', 'RustPrimLit', 'RustNumLit', 'OwnedRustExpr',
                                              'OwnedKind', 'RustClosure', 'RustClosureHead', 'ClosureBody', 'RustMacro', 'VecExpr', 'StructExpr', 'Constructor', 'RustEntity', 'SubIdent', 'MatchCaseLHS', 'Mut', 'ReturnKind',
                                              'RustCatchAll', 'MethodSpecifier', 'CommonMethod', 'FnEntity', 'MonoLevel', 'ArithLevel', 'BitwiseLevel', 'LogicalLevel', 'CompareLevel', 'CalculusLevel')}
    def en(self, ty, n, *f): return A.V(('agg', self.a[ty]['adt'], n, tuple(f)))
    def st(self, ty, **kw):
        v = self.a[ty]['v'][0]; return A.V(('agg', self.a[ty]['adt'], v['n'], tuple(kw[f[0]] for f in v['f'])))
    def frag(self, s): return self.en('Fragment', 'String', A.V(('str', s)))
    def fn(self, val, prec):
        a = next(iter(val))
        if a[0] != 'agg': return None
        ty = a[1].split('::')[-1]
        if a[1] == 'tuple' or a[2] == 'tuple' or ty == 'tuple': ty = None
        if ty is None:
            for f in self.prog.fns.values():
                if f.name.endswith('::to_fragment') and 'MatchCaseLHS' in f.name and 'Vec' in f.name: return f
            return None
        return self.prog.one('<%s as %s' % (ty, 'ToFragmentExt>::to_fragment_precedence' if prec is not None else 'ToFragment>::to_fragment'))
    def run(self, val, prec):
        k = (val, prec)
        if k in self.memo: return self.memo[k]
        f = self.fn(val, prec)
        if f is None: raise Unknown('no printer for %s' % C.show(val)[:80])
        def model(an, name, nn, vals, targs, st, site, g, bb, line):
            l = nn.split('::')[-1]
            if l == 'is_empty' and vals:
                s = an.snap(vals[0], st); x = next(iter(s)) if len(s) == 1 else ('?',)
                if x[0] in ('str', 'sym'): return A.V(('int', int(x[1] == '')))
            if l == 'is_vacuous' and vals:
                # decided on its own below: nothing but text of no length
                try: return A.V(('int', int(self.text(an.snap(vals[0], st)) == '')))
                except Unknown: return A.V(('op', 'vacuous', ()))
            if l in ('to_fragment_precedence', 'to_fragment') and vals:
                s = an.snap(vals[0], st)
                if len(s) != 1: return None
                x = next(iter(s))
                if x[0] == 'sym' and x[1] in self.handles: return self.run(self.handles[x[1]], an.snap(vals[1], st) if len(vals) > 1 else None)
                if x[0] == 'sym': return self.frag(x[1])
                if x[0] == 'str': return self.frag(x[1])
                if x[0] == 'agg': return self.run(s, an.snap(vals[1], st) if len(vals) > 1 else None)
            return None
        an, r = C.run(self.prog, f, [val] + ([prec] if prec is not None else []), model=model, recur=6, lists=2, arrays=True, max_depth=24)
        self.n += 1; self.rep.analysed_fns(an.inlined | {f.name})
        if r is None: raise Unknown('printing %s never ends' % C.show(val)[:80])
        try: t = self.text(r); r = self.frag(t) if t else self.en('Fragment', 'Empty')
        except Unknown: pass
        self.memo[k] = r
        return r
    def text(self, v):
        if len(v) != 1: raise Unknown('the text is ambiguous: %s' % C.show(v)[:120])
        a = next(iter(v))
        if a[0] != 'agg' or a[1] != self.a['Fragment']['adt']: raise Unknown('the text is not understood: %s' % C.show(v)[:120])
        n, f = a[2], a[3]
        if n == 'Empty': return ''
        if n in ('Char', 'String'):
            if len(f[0]) != 1: raise Unknown('ambiguous text')
            y = next(iter(f[0]))
            while y[0] == 'agg' and len(y[3]) == 1: y = next(iter(y[3][0]))
            if y[0] == 'int': return chr(y[1])
            if y[0] in ('str', 'sym'): return str(y[1])
            raise Unknown('text %s' % C.show(f[0])[:100])
        if n == 'Cat': return self.text(f[0]) + self.text(f[1])
        if n == 'Group': return self.text(f[0])
        if n == 'Sequence':
            names = [x[0] for x in next(z for z in self.a['Fragment']['v'] if z['n'] == 'Sequence')['f']]; d = dict(zip(names, f))
            xs = LL.items(d['items']); s = next(iter(d['sep']))
            if xs is None: raise Unknown('items %s' % C.show(d['items'])[:100])
            if not (s[0] == 'agg' and s[2] in ('Some', 'None')): raise Unknown('separator')
            return (self.text(s[3][0]) if s[2] == 'Some' else '').join(self.text(x) for x in xs)
        if n in ('DisplayAtom', 'DebugAtom'):
            y = next(iter(f[0])) if len(f[0]) == 1 else ('?',)
            while y[0] == 'agg' and len(y[3]) == 1: y = next(iter(y[3][0]))
            if y[0] == 'int': return '$%s%d' % (n[0], y[1])
            if y[0] == 'sym': return '$%s%s' % (n[0], y[1])
        raise Unknown('fragment %s' % C.show(v)[:100])

def nodes(p):
    """{key: (operand names with the class wanted, class of the result, build(values, trees) -> (value, tree))}"""
    X = lambda n, *f: p.en('RustExpr', n, *f); arr = LL.arr; S = C.sym; some = lambda v: A.V(A.some(v)); none = A.V(A.NONE)
    out = {}
    def node(key, ops, cls, build): out[key] = (ops, cls, build)
    for op, t in TOKEN.items():
        o, r = ('bb', 'b') if op in LOGIC else ('nn', 'b') if op in CMP else ('nn', 'n')
        node(op, o, r, lambda v, q, op=op, t=t: (X('Operation', p.en('RustOp', 'InfixOp', p.en('InfixOperator', op), v[0], v[1])), ('bin', t, q[0], q[1])))
    node('Not', 'b', 'b', lambda v, q: (X('Operation', p.en('RustOp', 'PrefixOp', p.en('PrefixOperator', 'BoolNot'), v[0])), ('un', '!', q[0])))
    node('Cast', 'n', 'n', lambda v, q: (X('Operation', p.en('RustOp', 'AsCast', v[0], S('u32'))), ('cast', q[0], 'u32')))
    node('Method', 'raa', 'a', lambda v, q: (X('MethodCall', v[0], S('m'), arr([v[1], v[2]])), ('method', q[0], 'm', (q[1], q[2]))))
    node('Len', 'r', 'n', lambda v, q: (X('MethodCall', v[0], p.en('MethodSpecifier', 'Common', p.en('CommonMethod', 'Len')), arr([])), ('method', q[0], 'len', ())))
    node('Field', 'r', 'a', lambda v, q: (X('FieldAccess', v[0], p.en('SubIdent', 'ByName', S('fld'))), ('field', q[0], 'fld')))
    node('Call', 'aa', 'a', lambda v, q: (X('FunctionCall', S('fun'), arr([v[0], v[1]])), ('call', ('id', 'fun'), (q[0], q[1]))))
    node('Applied', 'fa', 'a', lambda v, q: (X('FunctionCall', v[0], arr([v[1]])), ('call', q[0], (q[1],))))
    node('Invoke', 'aa', 'a', lambda v, q: (X('Invoke', S('fun'), arr([v[0], v[1]])), ('call', ('id', 'fun'), (q[0], q[1]))))
    node('Index', 'rn', 'a', lambda v, q: (X('Index', v[0], v[1]), ('index', q[0], q[1])))
    node('Slice', 'rnn', 'a', lambda v, q: (X('Slice', v[0], v[1], v[2]), ('index', q[0], ('range', q[1], q[2]))))
    node('Range', 'nn', 'g', lambda v, q: (X('RangeExclusive', v[0], v[1]), ('range', q[0], q[1])))
    node('Try', 'r', 'a', lambda v, q: (X('Try', v[0]), ('try', q[0])))
    node('Borrow', 'a', '&', lambda v, q: (X('Borrow', v[0]), ('un', '&', q[0])))
    node('BorrowMut', 'a', '&', lambda v, q: (X('BorrowMut', v[0]), ('un', '&mut', q[0])))
    own = lambda k: lambda v, q, k=k: (X('Owned', p.st('OwnedRustExpr', expr=v[0], kind=p.en('OwnedKind', k))), {'Cloned': ('method', q[0], 'clone', ()), 'Deref': ('un', '*', q[0]), 'Copied': q[0]}[k])
    opt = lambda k: lambda v, q, k=k: (X('OwnedOption', v[0], p.en('OwnedKind', k)), {'Cloned': ('method', q[0], 'cloned', ()), 'Deref': ('method', q[0], 'copied', ()), 'Copied': q[0]}[k])
    for k in ('Cloned', 'Deref', 'Copied'):
        node('Owned' + k, 'r' if k == 'Cloned' else 'd' if k == 'Deref' else 'a', '*' if k == 'Deref' else 'p' if k == 'Copied' else 'a', own(k)); node('Option' + k, 'r' if k != 'Copied' else 'a', 'a' if k != 'Copied' else 'p', opt(k))
    node('Tuple2', 'aa', 'a', lambda v, q: (X('Tuple', arr(list(v))), ('tuple', tuple(q))))
    node('Tuple1', 'a', 'a', lambda v, q: (X('Tuple', arr(list(v))), ('tuple', tuple(q))))
    node('Array', 'aaa', 'a', lambda v, q: (X('ArrayLit', arr(list(v))), ('array', tuple(q))))
    node('Ok', 'a', 'a', lambda v, q: (X('ResultOk', some(S('PResult')), v[0]), ('call', ('id', 'PResult::Ok'), (q[0],))))
    node('PlainOk', 'a', 'a', lambda v, q: (X('ResultOk', none, v[0]), ('call', ('id', 'Ok'), (q[0],))))
    node('Err', 'a', 'a', lambda v, q: (X('ResultErr', v[0]), ('call', ('id', 'Err'), (q[0],))))
    node('Matches', 'a', 'b', lambda v, q: (X('Macro', p.en('RustMacro', 'Matches', v[0], arr([S('P'), S('Q')]))), ('macro', 'matches', (q[0], 'P | Q'))))
    node('Vec', 'aa', 'a', lambda v, q: (X('Macro', p.en('RustMacro', 'Vec', p.en('VecExpr', 'List', arr(list(v))))), ('macro', 'vec', tuple(q))))
    node('VecRepeat', 'an', 'a', lambda v, q: (X('Macro', p.en('RustMacro', 'Vec', p.en('VecExpr', 'Repeat', v[0], v[1]))), ('macro', 'vec', ('repeat', q[0], q[1]))))
    node('Record', 'aa', 'a', lambda v, q: (X('Struct', p.en('Constructor', 'Compound', S('En'), S('Va')), p.en('StructExpr', 'Record', arr([A.V(A.tup(S('fa'), some(v[0]))), A.V(A.tup(S('fb'), none)), A.V(A.tup(S('fc'), some(v[1])))]))),
                                            ('struct', 'En::Va', (('fa', q[0]), ('fb', None), ('fc', q[1])))))
    node('Variant', 'aa', 'a', lambda v, q: (X('Struct', p.en('Constructor', 'Simple', S('Va')), p.en('StructExpr', 'Tuple', arr(list(v)))), ('call', ('id', 'Va'), tuple(q))))
    node('BareBlock', 'a', 'p', lambda v, q: (X('BlockScope', arr([]), v[0]), q[0]))
    let = lambda v, q: (p.en('RustStmt', 'Let', p.en('Mut', 'Immutable'), S('tmp'), none, v), ('let', 'tmp', q))
    ret = lambda v: p.en('RustStmt', 'Return', p.en('ReturnKind', 'Implicit'), v)
    node('Block', 'aa', 'k', lambda v, q: (X('BlockScope', arr([let(v[0], q[0])[0]]), v[1]), ('block', (let(v[0], q[0])[1],), q[1])))
    node('If', 'baa', 'k', lambda v, q: (X('Control', p.en('RustControl', 'If', v[0], arr([ret(v[1])]), some(arr([ret(v[2])])))), ('if', q[0], q[1], q[2])))
    case = lambda pat, v: A.V(A.tup(p.en('MatchCaseLHS', 'Pattern', S(pat)), arr([ret(v)])))
    node('Match', 'aaa', 'k', lambda v, q: (X('Control', p.en('RustControl', 'Match', v[0], p.en('RustMatchBody', 'Irrefutable', arr([case('P', v[1]), case('Q', v[2])])))), ('match', q[0], (('P', None, q[1]), ('Q', None, q[2])))))
    node('MatchElse', 'aa', 'k', lambda v, q: (X('Control', p.en('RustControl', 'Match', v[0], p.en('RustMatchBody', 'Refutable', arr([case('P', v[1])]), p.en('RustCatchAll', 'PanicUnreachable', S('msg')) if False else catchall(p)))), None))
    node('Closure', 'a', 'f', lambda v, q: (X('Closure', p.en('RustClosure', p.a['RustClosure']['v'][0]['n'], p.en('RustClosureHead', 'SimpleVar', S('arg'), none), p.en('ClosureBody', 'Expression', v[0]))), ('closure', 'arg', q[0])))
    node('Thunk', 'a', 'f', lambda v, q: (X('Closure', p.en('RustClosure', p.a['RustClosure']['v'][0]['n'], p.en('RustClosureHead', 'Thunk'), p.en('ClosureBody', 'Statements', arr([let(v[0], q[0])[0], ret(S('tmp'))])))), ('closure', '', ('block', (let(v[0], q[0])[1],), ('id', 'tmp')))))
    del out['MatchElse']
    return out

def catchall(p): return A.EMPTY

def run(prog, rep, tier):
    p = Pr(prog, rep)
    miss = [k for k, v in p.a.items() if v is None]
    if not rep.known(not miss, 'types', 'not found: %s' % miss, 'rust_ast'): rep.floor(0, 'printers', 1); return
    N = nodes(p); top = p.en('Precedence', 'Top')
    fn = prog.one('<RustExpr as ToFragmentExt>::to_fragment_precedence'); where = '%s %s' % (fn.loc(), fn.name)
    n = 0
    def check(key, val, want, prec=top):
        nonlocal n
        n += 1
        try: t = p.text(p.run(val, prec))
        except Unknown as e: rep.known(False, key, str(e)[:200], where); return
        try: got = RP.parse_expr(t)
        except RP.Bad as e: rep.ob(False, key, 'printed as %r, which does not parse: %s' % (t[:120], e), where); return
        rep.ob(norm(got) == norm(want), key, 'printed as %r, which reads as %s instead of %s' % (t[:120], str(got)[:160], str(want)[:160]), where)
    leaf = lambda i: (C.sym('x%d' % i), ('id', 'x%d' % i))
    for k, (ops, cls, build) in N.items():
        ls = [leaf(i) for i in range(len(ops))]
        v, t = build([x[0] for x in ls], [x[1] for x in ls]); check(k, v, t)
        for pos in range(len(ops)):
            for ck, (cops, ccls, cbuild) in N.items():
                if not allowed(k, ops[pos], pos, ck, ccls): continue
                cl = [(C.sym('y%d' % i), ('id', 'y%d' % i)) for i in range(len(cops))]
                cv, ct = cbuild([x[0] for x in cl], [x[1] for x in cl])
                if k in NEST: p.handles['@' + ck] = cv; cv = C.sym('@' + ck)
                vs = [x[0] for x in ls]; qs = [x[1] for x in ls]; vs[pos] = cv; qs[pos] = ct
                v, t = build(vs, qs); check('%s.%d:%s' % (k, pos, ck), v, t)
                # a value passed on as it is must not hide the operator it passes on
                if ccls != 'p' or k not in TOKEN and k not in ('Not', 'Cast', 'Method', 'OwnedDeref'): continue
                for gk, (gops, gcls, gbuild) in N.items():
                    if gk not in TOKEN and gk not in ('Not', 'Cast') or not allowed(k, ops[pos], pos, gk, gcls): continue
                    gv, gt = gbuild([C.sym('z%d' % i) for i in range(len(gops))], [('id', 'z%d' % i) for i in range(len(gops))])
                    vs[pos], qs[pos] = cbuild([gv], [gt]); v, t = build(vs, qs); check('%s.%d:%s:%s' % (k, pos, ck, gk), v, t)
    statements(p, check, top)
    pieces(p, rep)
    vacuous(p, rep)
    display(p, rep)
    rep.floor(n, 'printed trees', 3000)

def statements(p, check, top):
    arr = LL.arr; S = C.sym; some = lambda v: A.V(A.some(v)); none = A.V(A.NONE); st = lambda n, *f: p.en('RustStmt', n, *f); I = lambda x: ('id', x)
    mut = lambda b: p.en('Mut', 'Mutable' if b else 'Immutable'); rk = lambda b: p.en('ReturnKind', 'Keyword' if b else 'Implicit')
    blk = lambda xs, tail='v': p.en('RustExpr', 'BlockScope', arr(xs), S(tail))
    add = p.en('RustExpr', 'Operation', p.en('RustOp', 'InfixOp', p.en('InfixOperator', 'Add'), S('q'), S('r'))); addt = ('bin', '+', I('q'), I('r'))
    for nm, v, t in (('Let', st('Let', mut(0), S('x'), none, add), ('let', 'x', addt)), ('LetMut', st('Let', mut(1), S('x'), none, add), ('let', 'mut x', addt)),
                     ('LetTyped', st('Let', mut(0), S('x'), some(S('T')), add), ('let', 'x : T', addt)), ('LetPattern', st('LetPattern', S('P'), add), ('let', 'P', addt)),
                     ('Reassign', st('Reassign', S('x'), add), ('set', I('x'), addt)), ('Expr', st('Expr', add), ('do', addt)), ('Return', st('Return', rk(1), add), ('do', ('return', addt)))):
        check('statement:' + nm, blk([v]), ('block', (t,), I('v')))
        # in order
        check('statement:%s:order' % nm, blk([v, st('Expr', S('w')), v]), ('block', (t, ('do', I('w')), t), I('v')))
    ct = lambda n, *f: p.en('RustExpr', 'Control', p.en('RustControl', n, *f)); body = arr([st('Expr', S('s1')), st('Expr', S('s2'))]); bt = ('block', (('do', I('s1')), ('do', I('s2'))), None)
    check('control:Loop', ct('Loop', body), ('loop', bt)); check('control:While', ct('While', add, body), ('while', addt, bt))
    check('control:ForIter', ct('ForIter', S('x'), add, body), ('for', 'x', addt, bt)); check('control:ForRange0', ct('ForRange0', S('x'), add, body), ('for', 'x', ('range', ('lit', '0'), addt), bt))
    check('control:If', ct('If', add, body, none), ('if', addt, bt, None)); check('control:Break', ct('Break'), ('break',))
    b2 = arr([st('Expr', S('s3'))])
    check('control:IfElse', ct('If', add, body, some(b2)), ('if', addt, bt, ('block', (('do', I('s3')),), None)))
    lhs = lambda n, *f: p.en('MatchCaseLHS', n, *f)
    arms = arr([A.V(A.tup(lhs('WithGuard', S('P'), add), body)), A.V(A.tup(lhs('Pattern', S('Q')), b2))]); at = (('P', addt, bt), ('Q', None, ('block', (('do', I('s3')),), None)))
    check('control:Match', ct('Match', S('h'), p.en('RustMatchBody', 'Irrefutable', arms)), ('match', I('h'), at))
    err = ('block', (('do', ('return', I('e'))),), None)
    for v in p.a['RustCatchAll']['v']:
        if v['n'] != 'ReturnErrorValue': continue
        check('control:Match:catch all', ct('Match', S('h'), p.en('RustMatchBody', 'Refutable', arms, p.en('RustCatchAll', 'ReturnErrorValue', S('e')))), ('match', I('h'), at + (('_', None, err),)))

def pieces(p, rep):
    """patterns, names and literals, as their text"""
    S = C.sym; arr = LL.arr; some = lambda v: A.V(A.some(v)); none = A.V(A.NONE); pt = lambda n, *f: p.en('RustPattern', n, *f)
    cases = [('PrimLiteral', pt('PrimLiteral', S('1')), '1'), ('PrimRange', pt('PrimRange', S('1'), some(S('9'))), '1 ..= 9'), ('PrimRange:open', pt('PrimRange', S('1'), none), '1 ..'),
             ('Tuple', pt('TupleLiteral', arr([S('P'), S('Q')])), '( P , Q )'), ('Array', pt('ArrayLiteral', arr([S('P'), S('Q')])), '[ P , Q ]'), ('Option:None', pt('Option', none), 'None'),
             ('Option:Some', pt('Option', some(S('P'))), 'Some ( P )'), ('Fill', pt('Fill'), '..'), ('CatchAll', pt('CatchAll', none), '_'), ('CatchAll:name', pt('CatchAll', some(S('x'))), 'x'), ('BindRef', pt('BindRef', S('x')), 'ref x'),
             ('Variant', pt('Variant', p.en('Constructor', 'Compound', S('En'), S('Va')), S('P')), 'En :: Va ( P )'), ('Variant:plain', pt('Variant', p.en('Constructor', 'Simple', S('Va')), S('P')), 'Va ( P )'),
             ('Entity', p.en('RustEntity', 'Scoped', arr([S('pa'), S('pb')]), S('nm')), 'pa :: pb :: nm'), ('Entity:local', p.en('RustEntity', 'Local', S('nm')), 'nm'),
             ('SubIdent', p.en('SubIdent', 'ByPosition', A.V(('int', 7))), '$D7'), ('Boolean:true', p.en('RustPrimLit', 'Boolean', A.V(('int', 1))), ('$D1', 'true')), ('Boolean:false', p.en('RustPrimLit', 'Boolean', A.V(('int', 0))), ('$D0', 'false')),
             ('Head', p.en('RustClosureHead', 'VarList', arr([A.V(A.tup(S('x'), none)), A.V(A.tup(S('y'), some(S('T'))))])), '| x , y : T |')]
    for nm, v, want in cases:
        key = 'piece:' + nm; f = p.fn(v, None); where = '%s %s' % (f.loc(), f.name) if f else 'rust_ast'
        try: t = p.text(p.run(v, None)); got = ' '.join(x for _, x in RP.tokens(t))
        except (Unknown, RP.Bad) as e: rep.known(False, key, str(e)[:200], where); continue
        rep.ob(got in ((want,) if isinstance(want, str) else want), key, '%s is printed as %r' % (nm, t[:100]), where)

def vacuous(p, rep):
    """a text counts as nothing exactly when it has no length"""
    fn = p.prog.one('Fragment::is_vacuous')
    if not rep.known(fn, 'vacuous', 'not found', 'Fragment'): return
    where = '%s %s' % (fn.loc(), fn.name); F = lambda n, *f: p.en('Fragment', n, *f); s = lambda t: F('String', A.V(('str', t))); ch = F('Char', A.V(('int', 65)))
    fl = [x[0] for x in next(z for z in p.a['Fragment']['v'] if z['n'] == 'Sequence')['f']]
    sq = lambda sep, xs: F('Sequence', *[{'sep': A.V(A.NONE) if sep is None else A.V(A.some(sep)), 'items': LL.arr(xs)}[k] for k in fl])
    E = F('Empty')
    cases = [E, ch, s(''), s('a'), F('Cat', s(''), E), F('Cat', s('a'), E), F('Cat', E, ch), F('Group', s('')), F('Group', ch), sq(None, []), sq(ch, []), sq(ch, [s('')]), sq(None, [ch]), sq(ch, [E, E]), sq(s(''), [E, s('')]), sq(None, [E, ch]), sq(None, [ch, E]), sq(None, [E, E])]
    def model(an, name, nn, vals, targs, st, site, g, bb, line):
        if nn.split('::')[-1] == 'is_empty' and vals:
            v = an.snap(vals[0], st); x = next(iter(v)) if len(v) == 1 else ('?',)
            if x[0] == 'str': return A.V(('int', int(x[1] == '')))
    for v in cases:
        an, r = C.run(p.prog, fn, [v], model=model, recur=6, lists=2, arrays=True); p.rep.analysed_fns(an.inlined | {fn.name})
        got = next(iter(r)) if r is not None and len(r) == 1 else ('?',); t = p.text(v); key = 'vacuous:%s' % next(iter(v))[2]
        if rep.known(got[0] == 'int', key, '%s: %s' % (C.show(v)[:80], 'never' if r is None else C.show(r)[:80]), where): rep.ob(got[1] == int(t == ''), key, '%s is taken for %s' % (C.show(v)[:100], 'nothing' if got[1] else 'text'), where)

# deep trees are named, and printed where they are asked to be
NEST = ('If', 'Match', 'Block', 'Thunk')
# which results a generated operand can have: n numbers, b booleans, a anything read or called, k blocks and control flow, p a value passed on as it is,
# g ranges, f closures, & borrows, * dereferences (comparisons and arithmetic are on numbers; a borrow or dereference is never the receiver of a projection)
OPERANDS = {'n': 'nakp*', 'b': 'bakp*', 'r': 'nakpg', 'd': 'akp&*', 'f': 'f', 'a': 'nbakpgf&*'}
def allowed(k, want, pos, ck, cls):
    if cls not in OPERANDS[want]: return False
    if ck == 'Sub': return False    # subtraction is generated as a call of try_sub!
    if (k, pos) in (('If', 0), ('Match', 0)) and ck in ('Record', 'Closure', 'Thunk', 'Range'): return False
    return True

def display(p, rep):
    """what is written is the text of the parts in order, with the separator between"""
    fn = p.prog.one('<Fragment as Display>::fmt') or p.prog.one('<Fragment as fmt::Display>::fmt')
    if not rep.known(fn, 'display', 'not found', 'Fragment'): return
    where = '%s %s' % (fn.loc(), fn.name); F = lambda n, *f: p.en('Fragment', n, *f); s = lambda t: F('String', A.V(('str', t))); ch = F('Char', A.V(('int', 65))); E = F('Empty')
    fl = [x[0] for x in next(z for z in p.a['Fragment']['v'] if z['n'] == 'Sequence')['f']]
    sq = lambda sep, xs: F('Sequence', *[{'sep': A.V(A.NONE) if sep is None else A.V(A.some(sep)), 'items': LL.arr(xs)}[k] for k in fl])
    for v in (E, ch, s('ab'), F('Cat', s('ab'), ch), F('Group', F('Cat', ch, s('cd'))), F('Cat', F('Cat', s('a'), s('b')), F('Cat', s('c'), s('d'))), sq(None, []), sq(ch, []), sq(ch, [s('x')]), sq(ch, [s('x'), s('y'), s('z')]), sq(None, [s('x'), s('y')]), sq(s(', '), [sq(ch, [s('p'), s('q')]), s('r')])):
        wrote = []; vague = []
        def model(an, name, nn, vals, targs, st, site, g, bb, line):
            l = nn.split('::')[-1]
            if nn == '<Box as Display>::fmt' and len(vals) == 2:
                x = an.snap(vals[0], st)
                if len(x) == 1 and next(iter(x))[0] == 'agg': return C.run(p.prog, fn, [x, C.sym('f')], model=model, recur=6, lists=2, arrays=True, max_depth=24)[1]
            if l in ('write_char', 'write_str') and len(vals) == 2:
                x = an.snap(vals[1], st); y = next(iter(x)) if len(x) == 1 else ('?',)
                while y[0] == 'agg' and len(y[3]) == 1: y = next(iter(y[3][0]))
                if y[0] not in ('int', 'str'): vague.append(C.show(x))
                else: wrote.append(chr(y[1]) if y[0] == 'int' else y[1])
                return A.V(A.ok(A.V(A.UNIT)))
        an, r = C.run(p.prog, fn, [v, C.sym('f')], model=model, recur=6, lists=2, arrays=True, max_depth=24); p.rep.analysed_fns(an.inlined | {fn.name})
        got = ''.join(wrote); t = p.text(v); key = 'display:%s' % next(iter(v))[2]
        # a loop the analysis goes round more than once writes more than once: only a straight run is compared
        if not rep.known(not vague and r is not None and C.show(r) == 'Result::Ok(tuple())', key, 'writing is not understood: %s' % (vague[:1] or [r and C.show(r)[:100]]), where): continue
        rep.ob(got == t, key, '%s is written as %r' % (C.show(v)[:120], got[:80]), where)
