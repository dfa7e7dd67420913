"""P19: arithmetic on embedded numbers is exact, or is reported as an error.

The machine-integer helpers generated parsers call (numeric::eval) are interpreted abstractly with operands ranging over intervals, and
the number they hand out is read back as an exact integer expression.  The generator's choice of helper is interpreted on every
signature of machine integers.  The evaluator of the interpreter, the casts and the tables relating the integer types are interpreted on
every case."""
import itertools, os, pickle, re
import absint as A, common as C, gen
from gen import opt, arr, tup, st, num
from numhelpers import RANGES, World, within, Odd, Wraps
from P17 import where, undecided
CRATES = ['doodle']
RULE = ('Every helper for machine integers is interpreted abstractly with operands ranging over intervals (split by sign and at the ends of the types): a number it yields must be, as an exact integer expression, the result of the '
        'operation it is named for, and it may report an error exactly where that result has no place in the result type. The helper chosen for each of the signatures must exist and have that signature; the evaluator, the bitwise '
        'casts and the tables relating the integer types are interpreted on every case.')
INTS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']
BIN = ('add', 'sub', 'mul', 'div', 'rem'); UN = ('neg', 'abs', 'cast', 'succ', 'pred')

def signature(name):
    m = re.fullmatch(r'(%s)((?:_[iu](?:8|16|32|64))+)' % '|'.join(BIN + UN), name)
    if not m: return None
    op, ts = m[1], m[2][1:].split('_')
    if op in BIN: sig = {1: lambda: (ts * 2, ts[0]), 2: lambda: ([ts[0]] * 2, ts[1]), 3: lambda: (ts[:2], ts[2])}.get(len(ts))
    else: sig = {1: lambda: (ts, ts[0]), 2: lambda: (ts[:1], ts[1])}.get(len(ts))
    return (op, *sig()) if sig else None

def cuts(t, points):
    """the range of a type, cut into intervals at the given points (each a point of its own)"""
    lo, hi = RANGES[t]; out = []; at = lo
    for p in sorted({p for p in points if lo <= p <= hi}):
        if at < p: out.append((at, p - 1))
        out.append((p, p)); at = p + 1
    if at <= hi: out.append((at, hi))
    return out

def classes(op, ts, out):
    if op in UN:
        lo, hi = RANGES[out]
        pts = {0, -1, 1, lo + 1, hi - 1, RANGES[ts[0]][0], RANGES[ts[0]][1], lo, hi, lo - 1, hi + 1, -lo, -hi, -lo + 1, -hi - 1}
        return [{'x': (r, ts[0])} for r in cuts(ts[0], pts)]
    ends = [{0, -1, RANGES[t][0]} if op in ('div', 'rem') else {0} for t in ts]
    return [{'x': (a, ts[0]), 'y': (b, ts[1])} for a in cuts(ts[0], ends[0]) for b in cuts(ts[1], ends[1])]

def judge(w, op, out, res):
    """None when the outcomes are what the operation demands, else ('bad' | 'odd', why)"""
    names = list(w.syms); rs = [w.syms[n][0] for n in names]
    es = [str(r[0]) if r[0] == r[1] else n for n, r in zip(names, rs)]
    if op == 'rem' and rs[1][1] < 0: return None            # the evaluator has no remainder for these
    undefined = op in ('div', 'rem') and rs[1] == (0, 0)
    e, r = w.rd.arith({'succ': 'add', 'pred': 'sub'}[op], es + ['1'], rs + [(1, 1)]) if op in ('succ', 'pred') else w.rd.arith({'cast': 'id'}.get(op, op), es, rs)
    fits, never = within(r, out), r[1] < RANGES[out][0] or r[0] > RANGES[out][1]
    what = 'for %s' % ', '.join('%s in %d..=%d' % (n, *q) for n, q in zip(names, rs))
    for k in res:
        if k[0] == 'odd': return 'odd', k[1]
        if k[0] == 'wraps': return 'bad', '%s %s' % (what, k[1])
        if k[0] == 'panic': return 'bad', '%s it panics %s' % (what, k[1])
        if k[0] == 'value':
            if undefined: return 'bad', '%s it yields %s' % (what, k[1])
            if k[1] != e: return 'bad', '%s it yields %s, not %s' % (what, k[1], e)
            if never: return 'bad', '%s it yields a value although %s has no place in %s' % (what, e, out)
        if k[0] == 'error' and not undefined:
            if fits: return 'bad', '%s it reports an error although %s has a place in %s' % (what, e, out)
            if k[1] is not None and k[1] != e: return 'bad', '%s the error reports the number %s, not %s' % (what, k[1], e)
    kinds = {k[0] for k in res}
    if undefined or never: return None if kinds == {'error'} else ('odd', str(res))
    if fits: return None if kinds == {'value'} else ('odd', str(res))
    if kinds != {'value', 'error'}: return ('bad', '%s it never reports an error, though %s need not have a place in %s' % (what, e, out)) if kinds == {'value'} else ('odd', str(res))
    for x, t in w.notes:
        if x != e: return 'odd', 'checked: %s in %s' % (x, t)
        if not within(RANGES[out], t): return 'bad', '%s it reports an error when %s leaves %s, not when it leaves %s' % (what, e, t, out)
    return None if w.notes else ('odd', 'no check seen')

def helpers(prog, rep):
    found = {}
    for n, f in prog.fns.items():
        m = re.search(r'numeric::eval::(\w+)$', str(n))
        sg = m and signature(m[1])
        if not sg: continue
        op, ts, out = sg; found[m[1]] = f
        have = [f.local_ty(i + 1).s for i in range(f.argc)]; got = f.local_ty(0).s
        mo = re.search(r'Eval<(\w+)>', got)
        if not mo or any(t not in RANGES for t in have): undecided(rep, 'helper:' + m[1], '%s -> %s' % (have, got)); continue
        rep.ob(have == ts and mo[1] == out, 'signature:' + m[1], '%s takes %s and yields %s' % (m[1], ', '.join(have), mo[1]), where(f))
        if have != ts or mo[1] != out: continue
        for syms in classes(op, ts, out):
            w = World(prog, syms)
            _, v = w.run(f)
            bad = judge(w, op, out, w.result(v))
            key = 'helper:%s:%s' % (m[1], ','.join('%d..%d' % r for r, _ in syms.values()))
            if bad is None: rep.ob(True, key, '', where(f))
            elif bad[0] == 'odd': undecided(rep, key, '%s: %s' % (m[1], bad[1][:150]))
            else: rep.ob(False, key, '%s %s' % (m[1], bad[1]), where(f))
    rep.floor(len(found), 'helpers for machine integers', 300)
    return found

def one(v): return next(iter(v)) if v is not None and len(v) == 1 else None
def flat(v):
    """a value without unknown parts as a nested tuple, else None"""
    a = one(v)
    if a is None: return None
    if a[0] in ('int', 'str'): return a
    if a[0] == 'agg':
        fs = [flat(x) for x in a[3]]
        return None if None in fs else (a[2], tuple(fs))

class Num:
    """values of the types of numeric::core and numeric::elaborator, and runs over them"""
    def __init__(self, prog):
        self.prog = prog; self.G = G = gen.Gen(prog)
        core = lambda n: G.ad(n, lambda a: 'numeric::core' in a['adt'])
        self.EX, self.VAL, self.TC, self.NR, self.MR, self.BO, self.UO, self.CO = map(core, ('Expr', 'Value', 'TypedConst', 'NumRep', 'MachineRep', 'BinOp', 'UnaryOp', 'CastOp'))
        self.BND = core('Bounds')
        self.TE = G.ad('TypedExpr', lambda a: any(v['n'] == 'ElabBinOp' for v in a['v']))
        self.widths = [v['n'] for v in sorted(G.ad('BitWidth')['v'], key=lambda v: v['d'])]
    def rec(self, a, **k):
        if isinstance(a, str): a = self.G.ad(a)
        v = a['v'][0]
        return A.V(('agg', a['adt'], v['n'], tuple(k.get('_' + f[0] if f[0].isdigit() else f[0], C.sym('?' + f[0])) for f in v['f'])))
    def mrep(self, t): return self.rec(self.MR, is_signed=num(int(t[0] == 'i')), bit_width=self.G.vv('BitWidth', 'Bits' + t[1:]))
    def nrep(self, t): return self.G.vv(self.NR, 'Auto') if t == '?' else self.G.vv(self.NR, 'Concrete', _0=self.mrep(t))
    def prim(self, t): return self.G.vv('PrimInt', t.upper())
    def itype(self, t): return self.G.vv('IntType', 'Prim', _0=self.prim(t))
    def const(self, n, t): return self.rec(self.TC, _0=n, _1=self.nrep(t))
    def gtype(self, t):
        G = self.G
        a = G.vv('AtomType', 'Signed', _0=G.vv('MachineSint', t.upper())) if t[0] == 'i' else G.vv('AtomType', 'Prim', _0=G.vv('PrimType', 'Unsigned', _0=G.vv('MachineUint', t.upper())))
        return G.vv('GenType', 'Inline', _0=G.vv('RustType', 'Atom', _0=a))
    def name(self, v):
        """the machine integer a value of any of these types stands for, None when that is not known"""
        x = flat(v)
        def nm(x):
            if x is None: return None
            if x[0] == 'int' or x[0] == 'str': return None
            if x[0] == 'MachineRep' and len(x[1]) == 2 and x[1][0][0] == 'int' and str(x[1][1][0]).startswith('Bits'): return 'ui'[x[1][0][1]] + x[1][1][0][4:]
            if x[0] == 'Auto': return '?'
            if re.fullmatch(r'[UI](8|16|32|64)', str(x[0])): return x[0].lower()
            return nm(x[1][0]) if len(x[1]) == 1 else None
        return nm(x)
    def extra(self, more=None):
        def ex(an, nn, last, sn, vals):
            if more:
                r = more(an, nn, last, sn, vals)
                if r is not None: return r
            if last in ('eq', 'ne', 'cmp') and len(vals) == 2:
                a, b = flat(sn(0)), flat(sn(1))
                if a is None or b is None or a[0] in ('int', 'str'): return None
                if last != 'cmp': return num(int((a == b) == (last == 'eq')))
                if a[0] in self.widths and b[0] in self.widths:
                    d = self.widths.index(a[0]) - self.widths.index(b[0])
                    return A.V(('agg', 'std::cmp::Ordering', 'Less' if d < 0 else 'Greater' if d else 'Equal', ()))
            return None
        return ex
    def run(self, f, args, more=None, world=None, **kw):
        base = self.G.model('stm', self.extra(more))
        def model(an, name, nn, va, targs, s, *r):
            v = world.model(an, name, nn, va, targs, s, *r) if world is not None and nn.split('::')[-1] in ('try_from', 'try_into') else None
            if v is None: v = base(an, name, nn, va, targs, s, *r)
            if v is None and world is not None: v = world.model(an, name, nn, va, targs, s, *r)
            return v
        if world is not None: kw['number'] = world.decide
        return self.G.run(f, args, model, **kw)

def fallbacks(N, rep):
    """the general evaluation: converts, applies, converts back or keeps the number"""
    for nm, n in (('eval_fallback', 2), ('eval_unary_fallback', 1)):
        f = N.G.find(lambda x: x.endswith('numeric::eval::' + nm))
        if f is None or f.argc != n + 2: undecided(rep, 'fallback:' + nm, 'not found'); continue
        w = World(N.prog, {})
        for some in ((1, 0) if n == 2 else (1,)):
            def more(an, nn, last, sn, vals):
                if last in ('_eprint', 'type_name'): return A.V(('agg', 'tuple', None, ()))
                if last in ('from', 'into') and len(vals) == 1: return A.V(('op', 'big', (sn(0),)))
                if last in ('try_from', 'try_into') and len(vals) == 1: return A.V(A.ok(A.V(('op', 'narrow', (sn(0),))))) | A.V(A.err(A.V(('op', 'failed', (sn(0),)))))
            def applied(an, a, args, s):
                if a[0] != 'sym' or a[1] != 'f': return None
                r = A.V(('op', 'F', tuple(an.snap(x, s) for x in args)))
                return r if n == 1 else A.V(A.some(r)) if some else A.V(A.NONE)
            v = N.run(f, [C.sym(x) for x in 'lr'[:n]] + [C.sym('h'), C.sym('f')], more, w, applied=applied)
            got = set(); odd = v is None
            for a in v or ():
                if a[0] != 'agg' or a[2] not in ('NaN', 'Direct', 'Indirect'): odd = True; continue
                if a[2] == 'Indirect':
                    x = one(a[3][0]); x = one(x[3][0]) if x and x[0] == 'agg' else None
                    clo = one(x[2][0]) if x and x[0] == 'op' and x[1] == 'lazy' else None
                    g = N.prog.fns.get(clo[1]) if clo and clo[0] == 'clo' else None
                    if g is None: odd = True; continue
                    got.add('error with ' + C.show(N.run(g, [A.V(clo)], more, w)))
                else: got.add('error' if a[2] == 'NaN' else C.show(a[3][0]))
            res = 'F[%s]' % ', '.join('big[%s]' % x for x in 'lr'[:n])
            want = {'narrow[%s]' % res, 'error with ' + res} if some else {'error'}
            key = 'fallback:%s:%d' % (nm, some)
            if odd: undecided(rep, key, C.show(v)[:150]); continue
            rep.ob(got == want, key, '%s yields %s, it should yield %s' % (nm, ' or '.join(sorted(got)), ' or '.join(sorted(want))), where(f))
    f = N.G.find(lambda x: re.search(r'numeric::eval::Eval::<\w+>::eval$', x))
    E = N.G.ad('Eval', lambda a: 'numeric' in a['adt'])
    if f is None: undecided(rep, 'eval', 'not found'); return
    for vn, k, want in (('NaN', {}, 'Err'), ('Direct', {'_0': C.sym('x')}, 'x'), ('Indirect', {'_0': C.sym('i')}, 'Err')):
        v = N.run(f, [N.G.vv(E, vn, **k)]); a = one(v)
        if not a or a[0] != 'agg' or a[2] not in ('Ok', 'Err'): undecided(rep, 'eval:' + vn, C.show(v)[:150]); continue
        got = 'Err' if a[2] == 'Err' else C.show(a[3][0])
        rep.ob(got == want, 'eval:' + vn, 'evaluating %s yields %s' % (vn, got), where(f))

OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}
UOPS = {'Negate': 'neg', 'AbsVal': 'abs', 'IntSucc': 'succ', 'IntPred': 'pred'}
FALL = {'Negate': 'Neg::neg', 'AbsVal': 'Signed::abs', 'IntSucc': 'Numeric::succ', 'IntPred': 'Numeric::pred'}
class Share:
    """obligations gathered in a child process"""
    def __init__(self): self.out = []
    def ob(self, *a): self.out.append(('ob', a))
    def known(self, *a): self.out.append(('known', a))
def spread(jobs, rep, fns, n=8):
    """runs the jobs in n processes; each job takes a report"""
    pipes = []
    for i in range(n):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r); sh = Share()
                for j in jobs[i::n]: j(sh)
                with os.fdopen(w, 'wb') as f: pickle.dump((sh.out, set(fns)), f)
                code = 0
            finally: os._exit(code)
        os.close(w); pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as f: data = f.read()
        if os.waitpid(pid, 0)[1] != 0 or not data: raise RuntimeError('a worker failed')
        out, seen = pickle.loads(data)
        fns |= seen
        for k, a in out: getattr(rep, k)(*a)

def selection(N, rep, found):
    """the helper the generator names for every signature"""
    G = N.G; f = G.find(lambda x: x.endswith('numeric::codegen::synthesize'))
    if f is None: undecided(rep, 'choice', 'no synthesize'); return
    var = lambda n, t: G.vv(N.TE, 'ElabNumVar', _0=N.gtype(t), _1=st(n))
    jobs = []
    def check(*a): jobs.append(lambda rep: check1(rep, *a))
    def check1(rep, key, e, op, ts, o, big):
        args = 'ab'[:len(ts)]
        try: got = G.sem.expr_top(N.run(f, [e]))
        except gen.rustsem.Unknown as x: undecided(rep, key, str(x)[:150]); return
        what = 'for %s of %s yielding %s' % (op, ' and '.join(ts), o)
        m = re.fullmatch(r'(\w+)\(([^()]*)\); \1\(\2\)\.eval\(\)\?; => <\1\(\2\)\.eval\(\)>', got)
        if m:
            if m[2] != ', '.join(args): rep.ob(False, key, '%s the generated code calls %s(%s)' % (what, m[1], m[2]), where(f)); return
            if m[1] not in found and op in ('succ', 'pred'): rep.ob(False, 'missing:' + op, 'for the %s of an embedded number the generated code calls helpers such as %s, which do not exist' % ({'succ': 'successor', 'pred': 'predecessor'}[op], op + '_u8'), where(f)); return
            if m[1] not in found: rep.ob(False, key, '%s the generated code calls %s, which does not exist' % (what, m[1]), where(f)); return
            rep.ob(signature(m[1]) == (op, list(ts), o), key, '%s the generated code calls %s' % (what, m[1]), where(f)); return
        m = re.match(r"(eval_(?:unary_)?fallback)<([^<>]*)>\(([\w, ]*?), (?:Cow::\w+\()?'[^']*'\)?, \|([\w, ]*)\| \{(?:[^{}]*; )?=> <?([\w:]+)\(([\w, ]*)\)>?\}\)", got)
        if m:
            okay = m[2].split(', ') == list(ts) + [o] and m[3] == ', '.join(args) and m[4] == m[6] and m[5] == big and (m[1] == 'eval_fallback') == (len(ts) == 2)
            rep.ob(okay, key, '%s the generated code is %s' % (what, got[:200]), where(f)); return
        if op == 'cast' and got == '=> a': rep.ob(list(ts) == [o], key, '%s the generated code does not convert' % what, where(f)); return
        undecided(rep, key, '%s: %s' % (what, got[:150]))
    for op, nm in OPS.items():
        for l, r, o in itertools.product(INTS, repeat=3):
            t = N.rec('TypedBinOp', sig=tup(tup(N.gtype(l), N.gtype(r)), N.gtype(o)), inner=N.rec(N.BO, op=G.vv('BasicBinOp', op), out_rep=opt(N.mrep(o))))
            check('choice:%s:%s,%s->%s' % (nm, l, r, o), G.vv(N.TE, 'ElabBinOp', _0=N.gtype(o), _1=t, _2=var('a', l), _3=var('b', r)), nm, (l, r), o, 'BigInt::checked_' + nm)
    for op, nm in UOPS.items():
        for i, o in itertools.product(INTS, repeat=2):
            t = N.rec('TypedUnaryOp', sig=tup(N.gtype(i), N.gtype(o)), inner=N.rec(N.UO, op=G.vv('BasicUnaryOp', op), out_rep=opt(N.mrep(o))))
            check('choice:%s:%s->%s' % (nm, i, o), G.vv(N.TE, 'ElabUnaryOp', _0=N.gtype(o), _1=t, _2=var('a', i)), nm, (i,), o, FALL[op])
    for i, o in itertools.product(INTS, repeat=2):
        mk = lambda sem: G.vv(N.TE, 'ElabCast', _0=N.gtype(o), _1=N.rec('TypedCast', sig=tup(N.gtype(i), N.gtype(o)), op=N.rec(N.CO, cast_semantics=G.vv('CastSemantics', sem), out_rep=N.mrep(o))), _2=var('a', i))
        check('choice:cast:%s->%s' % (i, o), mk('Arithmetic'), 'cast', (i,), o, None)
        jobs.append(lambda rep, i=i, o=o, e=mk('Bitwise'): bitwise(rep, i, o, e))
    def bitwise(rep, i, o, e):
        key = 'choice:as:%s->%s' % (i, o)
        try: got = G.sem.expr_top(N.run(f, [e]))
        except gen.rustsem.Unknown as x: undecided(rep, key, str(x)[:150]); return
        m = re.fullmatch(r'=> \(a as (\w+)\)', got)
        if not m: undecided(rep, key, got[:150]); return
        rep.ob(m[1].lower() == o, key, 'for a bitwise cast of %s to %s the generated code is %s' % (i, o, got), where(f))
    spread(jobs, rep, G.fns)
    rep.floor(len(jobs), 'signatures', 2000)

BIG = (-10**40, 10**40)
SIGNS = {'negative': (-10**40, -1), 'zero': (0, 0), 'positive': (1, 10**40)}
def evaluator(N, rep):
    """the evaluator of the interpreter: exact numbers, tagged with the type the expression asks for"""
    G = N.G; n = [0]
    for which in ('eval', 'eval_strict'):
        strict = which == 'eval_strict'
        f = G.find(lambda x: x.endswith('numeric::core::Expr::' + which))
        if f is None: undecided(rep, which, 'not found'); continue
        def outcome(e, reps, w, flags=None, ok=1, fail=None):
            def more(an, nn, last, sn, vals):
                a = one(sn(0)) if vals else None
                if last == which and a and a[0] == 'sym' and a[1] in reps:
                    if a[1] == fail: return A.V(A.err(C.sym('E')))
                    v = G.vv(N.VAL, 'Const', _0=N.const(C.sym('x' if a[1] == 'L' else 'y'), reps[a[1]]))
                    return A.V(A.ok(N.rec('Strict', value=v, is_valid=num(flags[a[1]])) if strict else v))
                if last == 'is_representable' and strict and len(vals) == 1: return num(ok)
            v = N.run(f, [e, C.sym('scope')], more, w); a = one(v)
            if v is None or not v: return 'panic'
            if not a or a[0] != 'agg' or a[2] not in ('Ok', 'Err'): raise Odd(C.show(v)[:150])
            if a[2] == 'Err': return 'error'
            x = one(a[3][0]); valid = None
            if strict: valid = flat(x[3][1]); x = one(x[3][0])
            x = one(x[3][0]) if x and x[0] == 'agg' and x[2] == 'Const' else None
            if not x or x[0] != 'agg' or len(x[3]) != 2: raise Odd(C.show(v)[:150])
            t = N.name(x[3][1])
            if t is None or (strict and valid is None): raise Odd(C.show(v)[:150])
            return w.rd.read(x[3][0])[0], t, valid[1] if strict else None
        def check(key, what, want, get):
            n[0] += 1
            try: got = get()
            except Odd as o: undecided(rep, key, str(o)[:150]); return
            except Wraps as o: got = str(o)
            rep.ob(got == want, '%s:%s' % (which, key), '%s of %s yields %s, it should yield %s' % (which, what, got, want), where(f))
        combos = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)] if strict else [(1, 1, 1)]
        for op, nm in OPS.items():
            for lr, rr, out in [(a, b, c) for a in INTS[::3] + ['?'] for b in INTS[::3] + ['?'] for c in (None, 'u8', 'i64')]:
                for (ls, lv), (rs, rv) in itertools.product(SIGNS.items(), repeat=2):
                    if (lr, rr, out) != ('u8', 'u8', None) and (ls, rs) not in (('positive', 'positive'), ('negative', 'zero'), ('zero', 'negative')): continue
                    e = G.vv(N.EX, 'BinOp', _0=N.rec(N.BO, op=G.vv('BasicBinOp', op), out_rep=opt(N.mrep(out) if out else None)), _1=C.sym('L'), _2=C.sym('R'))
                    t = out or (lr if lr == rr or rr == '?' else rr if lr == '?' else None)
                    for fl in combos if (lr, rr) == ('u8', 'u8') and out is None else combos[-1:]:
                        w = World(N.prog, {'x': (lv, None), 'y': (rv, None)})
                        es = [str(r[0]) if r[0] == r[1] else k for k, r in (('x', lv), ('y', rv))]
                        want = 'error' if t is None or (nm == 'div' and rs == 'zero') or (nm == 'rem' and rs != 'positive') else (w.rd.arith(nm, es, [lv, rv])[0], t, int(all(fl)) if strict else None)
                        what = '%s of a %s %s and a %s %s%s' % (nm, ls, lr, rs, rr, ' as ' + out if out else '')
                        check('%s:%s:%s:%s:%s:%s:%s' % (nm, lr, ls, rr, rs, out, fl), what, want, lambda: outcome(e, {'L': lr, 'R': rr}, w, {'L': fl[0], 'R': fl[1]}, fl[2]))
            e = G.vv(N.EX, 'BinOp', _0=N.rec(N.BO, op=G.vv('BasicBinOp', op), out_rep=opt(None)), _1=C.sym('L'), _2=C.sym('R'))
            for bad in 'LR':
                w = World(N.prog, {'x': ((1, 10**40), None), 'y': ((1, 10**40), None)})
                check('%s:failing %s' % (nm, bad), '%s with an operand that fails' % nm, 'error', lambda: outcome(e, {'L': 'u8', 'R': 'u8'}, w, {'L': 1, 'R': 1}, 1, bad))
        for op, nm in UOPS.items():
            for ir, out in [(a, b) for a in INTS + ['?'] for b in (None, 'u8', 'i64')]:
                for s, lv in SIGNS.items():
                    e = G.vv(N.EX, 'UnaryOp', _0=N.rec(N.UO, op=G.vv('BasicUnaryOp', op), out_rep=opt(N.mrep(out) if out else None)), _1=C.sym('L'))
                    for fl in combos if ir == 'u8' and out is None else combos[-1:]:
                        w = World(N.prog, {'x': (lv, None)}); es = [str(lv[0]) if lv[0] == lv[1] else 'x']
                        val = w.rd.arith(nm, es, [lv])[0] if nm in ('neg', 'abs') else w.rd.arith({'succ': 'add', 'pred': 'sub'}[nm], es + ['1'], [lv, (1, 1)])[0]
                        check('%s:%s:%s:%s:%s' % (nm, ir, s, out, fl), '%s of a %s %s%s' % (nm, s, ir, ' as ' + out if out else ''), (val, out or ir, int(fl[0] and fl[2]) if strict else None),
                              lambda: outcome(e, {'L': ir}, w, {'L': fl[0]}, fl[2]))
        for ir, out in itertools.product(INTS + ['?'], INTS):
            e = G.vv(N.EX, 'Cast', _0=N.rec(N.CO, cast_semantics=G.vv('CastSemantics', 'Arithmetic'), out_rep=N.mrep(out)), _1=C.sym('L'))
            for fl in combos if (ir, out) == ('u8', 'i16') else combos[-1:]:
                w = World(N.prog, {'x': (BIG, None)})
                check('cast:%s:%s:%s' % (ir, out, fl), 'a cast of %s to %s' % (ir, out), ('x', out, int(fl[0] and fl[2]) if strict else None), lambda: outcome(e, {'L': ir}, w, {'L': fl[0]}, fl[2]))
    rep.floor(n[0], 'evaluations', 500)

def bitwise(N, rep):
    """bitwise casts keep the low bits: as-casts between the two types"""
    G = N.G; f = G.find(lambda x: x.endswith('numeric::core::bitwise_cast'))
    if f is None: undecided(rep, 'bitwise', 'not found'); return
    for i, o in itertools.product(INTS, repeat=2):
        w = World(N.prog, {'x': (RANGES[i], i)}); key = 'bitwise:%s->%s' % (i, o)
        v = N.run(f, [C.sym('x'), N.nrep(i), N.mrep(o)], None, w)
        a = one(v); chain = []
        while a and a[0] == 'op' and (m := re.fullmatch(r'cast:(\w+)->(\w+)', a[1])): chain.append(m[2]); a = one(a[2][0])
        what = 'the bitwise cast of %s to %s' % (i, o)
        if w.notes: rep.ob(False, key, '%s panics for some values of %s: %s' % (what, i, ', '.join('%s as %s' % x for x in sorted(w.notes))), where(f)); continue
        if not a or a[0] != 'sym' or any(t not in RANGES for t in chain): undecided(rep, key, C.show(v)[:150]); continue
        chain = chain[::-1]; bits = lambda t: int(t[1:].replace('size', '64'))
        keeps = all(bits(t) >= bits(o) or within(RANGES[i], t) for t in chain)
        ends = within(RANGES[i], o) if not chain or all(within(RANGES[i], t) for t in chain) else chain[-1] == o
        rep.ob(keeps and ends, key, '%s yields %s' % (what, C.show(v)[:100]), where(f))

def tables(N, rep):
    G = N.G; n = [0]
    def call(key, name, args, want, read, what, world=None):
        f = G.find(name)
        if f is None: undecided(rep, key, 'not found'); return
        n[0] += 1
        v = N.run(f, args, None, world)
        got = read(v)
        if got is None: undecided(rep, key, '%s: %s' % (what, C.show(v)[:120])); return
        rep.ob(got == want, key, '%s is %s, it should be %s' % (what, got, want), where(f))
    def flag(v): a = one(v); return bool(a[1]) if a and a[0] == 'int' else None
    def ints(v):
        a = one(v); xs = [one(x) for x in a[3]] if a and a[0] == 'agg' else [None]
        return tuple(x[1] for x in xs) if all(x and x[0] == 'int' for x in xs) else None
    core = lambda x: lambda n: n.endswith('numeric::core::' + x)
    conv = lambda a, b: lambda n: re.search(r'\b%s as (?:\w+::)*From<(?:\w+::)*%s>>::from$|From<(?:\w+::)*%s> for (?:\w+::)*%s>::from$' % (b, a, a, b), n)
    for t in INTS:
        call('bounds:' + t, core('MachineRep::as_bounds'), [N.mrep(t)], RANGES[t], ints, 'the range of ' + t)
        call('signed:' + t, core('MachineRep::is_signed'), [N.mrep(t)], t[0] == 'i', flag, 'signedness of ' + t)
        mk = {'MachineRep': N.mrep, 'NumRep': N.nrep, 'PrimInt': N.prim, 'IntType': N.itype}
        for a, b in itertools.permutations(mk, 2):
            if G.find(conv(a, b)): call('convert:%s:%s->%s' % (t, a, b), conv(a, b), [mk[a](t)], t, N.name, '%s as %s' % (t, b))
        for k in ('MachineRep', 'PrimInt'):
            txt = lambda v: one(v)[1] if one(v) and one(v)[0] == 'str' else None
            call('name:%s:%s' % (k, t), lambda x: x.endswith('%s::to_static_str' % k), [mk[k](t)], t, txt, 'the name of %s' % t)
        for tn, u in itertools.product(INTS, [t]):
            call('superset:%s:%s' % (tn, u), core('MachineRep::is_superset'), [N.mrep(tn), N.mrep(u)], within(RANGES[u], tn), flag, 'whether %s holds every %s' % (tn, u))
            call('encompasses:%s:%s' % (tn, u), core('MachineRep::encompasses'), [N.mrep(tn), N.mrep(u)], within(RANGES[u], tn), flag, 'whether %s holds every %s' % (tn, u))
        lo, hi = RANGES[t]
        for p in (lo - 1, lo, -1, 0, 1, hi, hi + 1):
            call('representable:%s:%d' % (t, p), core('TypedConst::is_representable'), [N.const(num(p), t)], lo <= p <= hi, flag, 'whether %d has a place in %s' % (p, t))
    for p in (-10**30, 0, 10**30): call('representable:?:%d' % p, core('TypedConst::is_representable'), [N.const(num(p), '?')], True, flag, 'whether %d has a place in a number of any type' % p)
    REL = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'Gt': lambda a, b: a > b, 'Lte': lambda a, b: a <= b, 'Gte': lambda a, b: a >= b}
    for r, g in REL.items():
        for a, b in ((1, 2), (2, 2), (3, 2), (-1, 1)):
            for ta, tb in (('u8', 'u8'), ('i8', 'u64'), ('?', 'u8')):
                call('rel:%s:%d:%d:%s:%s' % (r, a, b, ta, tb), core('TypedConst::rel'), [G.vv('IntRel', r), N.const(num(a), ta), N.const(num(b), tb)], g(a, b), flag, '%d %s %d' % (a, r, b))
    for a, b in ((1, 1), (1, 2), (-1, 1)):
        call('eq_num:%d:%d' % (a, b), core('TypedConst::eq_num'), [N.const(num(a), 'u8'), num(b)], a == b, flag, '%d = %d' % (a, b))
        call('eq_val:%d:%d' % (a, b), core('TypedConst::eq_val'), [N.const(num(a), 'u8'), N.const(num(b), 'i32')], a == b, flag, '%d = %d' % (a, b))
    bd = lambda a, b: N.rec(N.BND, min=num(a), max=num(b))
    spans = [(a, b) for a in range(-1, 3) for b in range(a, 3)]
    for p, q in itertools.product(spans, repeat=2):
        k = '%d..%d:%d..%d' % (*p, *q)
        call('span:encompasses:' + k, core('Bounds::encompasses'), [bd(*p), bd(*q)], p[0] <= q[0] and q[1] <= p[1], flag, 'whether %s covers %s' % (p, q))
        call('span:is_encompassed_by:' + k, core('Bounds::is_encompassed_by'), [bd(*p), bd(*q)], q[0] <= p[0] and p[1] <= q[1], flag, 'whether %s is covered by %s' % (p, q))
        def cow(v): a = one(v); return ints(a[3][0]) if a and a[0] == 'agg' and a[2] in ('Borrowed', 'Owned') else ints(v)
        call('span:unify:' + k, core('Bounds::unify'), [bd(*p), bd(*q)], (min(p[0], q[0]), max(p[1], q[1])), cow, 'the span of %s and %s' % (p, q))
    for p in spans:
        for x in range(-2, 4): call('span:contains:%d..%d:%d' % (*p, x), core('Bounds::contains'), [bd(*p), num(x)], p[0] <= x <= p[1], flag, 'whether %s contains %d' % (p, x))
    rep.floor(n[0], 'entries of tables', 400)

def values(N, rep):
    """numbers made from values and read back as values"""
    G = N.G; n = [0]
    VL = G.ad('Value', lambda a: 'numeric' not in a['adt']); PV = G.ad('ParsedValue'); PA = G.ad('Parsed')
    def const(x):
        """(number, tag) of a TypedConst, a Value or a Strict one"""
        a = one(x)
        while a and a[0] == 'agg' and a[2] in ('Strict', 'Const'):
            if a[2] == 'Strict' and flat(a[3][1]) != ('int', 1): return None
            a = one(a[3][0])
        if not a or a[0] != 'agg' or a[2] != 'TypedConst': return None
        t = N.name(a[3][1]); return None if t is None else (C.show(a[3][0]), t)
    def res(x):
        a = one(x)
        if not a or a[0] != 'agg' or a[2] not in ('Ok', 'Err'): return None
        return 'error' if a[2] == 'Err' else const(a[3][0]) or number(a[3][0])
    def number(x):
        try: r = World(N.prog, {}).rd.read(x)[1]
        except (Odd, Wraps): return C.show(x)
        return r[0]
    def more(an, nn, last, sn, vals):
        if last == 'try_from' and vals and one(sn(0)) == ('sym', 'V', ()): return A.V(A.ok(C.sym('TAKEN')))
        if last in ('clone', 'clone_into_value') and len(vals) == 1: return sn(0)
        if last == 'magnitude' and len(vals) == 1:
            a = one(sn(0))
            if a and a[0] == 'int': return num(abs(a[1]))
        if last == 'inspect_err' and len(vals) == 2: return sn(0)
        if last in ('format', 'msg', 'new') and ('anyhow' in nn or 'fmt' in nn): return C.sym('message')
    def call(key, name, args, want, read, what):
        f = G.find(name)
        if f is None: undecided(rep, key, 'not found'); return
        n[0] += 1
        w = World(N.prog, {})
        v = N.run(f, args, more, w); got = read(v)
        if got is None: undecided(rep, key, '%s: %s' % (what, C.show(v)[:120])); return
        rep.ob(got == want, key, '%s is %s, it should be %s' % (what, got, want), where(f))
    core = lambda x: lambda n: n.endswith('numeric::core::' + x)
    for t in INTS:
        call('made:from_' + t, core('TypedConst::from_' + t), [C.sym('x')], ('x', t), const, 'the number made of the %s x' % t)
        fr = lambda n, t=t: re.search(r'TypedConst as (?:\w+::)*From<%s>>::from$' % t, n)
        if G.find(fr): call('made:From<%s>' % t, fr, [C.sym('x')], ('x', t), const, 'the number made of the %s x' % t)
    coerce = lambda k: lambda n: re.search(r"as (?:\w+::)*TryFrom<&(?:'\w+ )?(?:\w+::)*%s>>::try_from$" % k, n) and 'numeric' in n
    val = lambda vn, *xs: G.vv(VL, vn, **{'_%d' % i: x for i, x in enumerate(xs)})
    par = lambda vn, *xs: G.vv(PV, vn, **{'_%d' % i: x for i, x in enumerate(xs)})
    okv, errs, errn = A.V(A.ok(C.sym('V'))), A.V(A.err(A.V(A.some(C.sym('V'))))), A.V(A.err(A.V(A.NONE)))
    plain = [(vn, v, want) for vn, v, want in
             [(t.upper(), val(t.upper(), C.sym('x')), ('x', t)) for t in INTS[:4]] + [('Usize', val('Usize', C.sym('x')), ('x', '?')),
              ('Numeric', val('Numeric', N.const(num(5), 'i16')), ('5', 'i16')), ('Mapped', val('Mapped', C.sym('o'), C.sym('V')), 'TAKEN'), ('Branch', val('Branch', C.sym('o'), C.sym('V')), 'TAKEN'),
              ('Permit(Ok)', val('Permit', okv), 'TAKEN'), ('Permit(Err(Some))', val('Permit', errs), 'TAKEN'), ('Permit(Err(None))', val('Permit', errn), 'error')] +
             [(vn, val(vn, C.sym('a'), C.sym('b')), 'error') for vn in ('Bool', 'Char', 'Option', 'Tuple', 'Record', 'Variant', 'Seq')]]
    loc = [('Mapped', par('Mapped', C.sym('o'), C.sym('V')), 'TAKEN'), ('Branch', par('Branch', C.sym('o'), C.sym('V')), 'TAKEN'), ('Permit(Ok)', par('Permit', okv), 'TAKEN'), ('Permit(Err(Some))', par('Permit', errs), 'TAKEN'),
           ('Permit(Err(None))', par('Permit', errn), 'error'), ('Flat', par('Flat', N.rec(PA, inner=C.sym('V'))), 'TAKEN')] + [(vn, par(vn, C.sym('a'), C.sym('b')), 'error') for vn in ('Tuple', 'Record', 'Variant', 'Seq', 'Option')]
    for kind, cases in (('Value', plain), ('ParsedValue', loc)):
        for vn, v, want in cases: call('coerced:%s:%s' % (kind.split(':')[-1], vn), coerce(kind), [v], want, res, 'the number a %s stands for' % vn)
    def flag(v): a = one(v); return bool(a[1]) if a and a[0] == 'int' else None
    for t, u in itertools.product(INTS[:4], INTS):
        for a, b in ((7, 7), (7, 8)):
            call('matches:%s:%s:%d:%d' % (t, u, a, b), core('TypedConst::matches_' + t), [N.const(num(a), u), num(b)], a == b and t == u, flag, 'whether the %s number %d matches the %s %d' % (u, a, t, b))
    ub = lambda lo, hi: N.rec(G.ad('Bounds', lambda a: a['adt'].endswith('bounds::Bounds')), min=num(lo), max=opt(None if hi is None else num(hi)))
    for x, (lo, hi) in itertools.product((-3, 0, 1, 2, 3, 4, 5, 2**70), ((0, None), (2, 4), (2, None), (3, 3), (0, 2))):
        call('range:%d:%s..%s' % (x, lo, hi), core('TypedConst::matches_int_range'), [N.const(num(x), 'i32'), ub(lo, hi)], x >= lo and (hi is None or x <= hi), flag, 'whether %d lies in %s..=%s' % (x, lo, hi))
    for x, u in itertools.product((-1, 0, 255, 256, 2**64 - 1, 2**64), ('u8', 'u16', '?', 'i8')):
        call('usize:%d:%s' % (x, u), core('TypedConst::as_usize'), [N.const(num(x), u)], x if 0 <= x < 2**64 else 'error', res, '%d as usize' % x)
        call('as_u8:%d:%s' % (x, u), core('TypedConst::get_as_u8'), [N.const(num(x), u)], x if 0 <= x < 256 and u in ('u8', '?') else 'error', res, 'the %s number %d as u8' % (u, x))
    rep.floor(n[0], 'numbers made or read', 150)

def run(prog, rep, tier):
    found = helpers(prog, rep)
    N = Num(prog)
    fallbacks(N, rep)
    selection(N, rep, found)
    evaluator(N, rep)
    bitwise(N, rep)
    tables(N, rep)
    values(N, rep)
    rep.analysed_fns(N.G.fns)
