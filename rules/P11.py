"""Interval arithmetic on counts and sizes never excludes a possible result."""
import re, itertools
import absint as A, interp as I, common as C, fmt
CRATES = ['doodle']
RULE = ('The abstract result of every interval operation over its MIR must be derivable as a bound of the operation by monotonicity: the lower end from the ends of '
        'the operands at which the operator is least and the upper end from those at which it is greatest, absent where an operand end is absent or the arithmetic '
        'overflows; ends that depend on comparisons are derived under every ordering of the operand ends, bit prefixes by splitting words at the common-prefix position.')

ARITH = {'<Bounds as Add>::add': '+', '<Bounds as Sub>::sub': '-', '<Bounds as Mul>::mul': '*', '<Bounds as Div>::div': '/', '<Bounds as Shl>::shl': '<<', '<Bounds as Shr>::shr': '>>', 'Bounds::rem': '%',
         '<Bounds as CheckedAdd>::checked_add': '+', '<Bounds as CheckedMul>::checked_mul': '*', '<Bounds as CheckedDiv>::checked_div': '/', 'Bounds::checked_shl': '<<', 'Bounds::checked_shr': '>>'}
SYM = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'shl': '<<', 'shr': '>>', 'rem': '%'}

def op(a):
    """(operator, kind, operands) of an arithmetic term; kind: checked / saturating / wrapping / raw"""
    if a[0] != 'op': return None
    n = a[1].split('::')[-1]; kind = 'raw'
    for k in ('checked', 'saturating', 'wrapping', 'overflowing', 'unchecked'):
        if n.startswith(k + '_'): kind = k; n = n[len(k) + 1:]
    n = n.lower().replace('addwithoverflow', 'add').replace('mulwithoverflow', 'mul').replace('subwithoverflow', 'sub')
    if n.endswith('unchecked'): kind = 'unchecked'; n = n[:-len('unchecked')].rstrip('_')
    return (SYM.get(n, n), kind, a[2])

def strip(v):
    """look through lossless conversions"""
    out = set()
    for a in v:
        if a[0] == 'op' and (a[1].startswith('try_from:') or a[1] in ('from', 'into', 'try_into') or re.fullmatch(r'cast:u32->(usize|u64)', a[1])) and len(a[2]) == 1: out |= strip(a[2][0])
        else: out.add(a)
    return frozenset(out)

class Undecided(Exception): pass

class Bnd:
    """which terms bound an operand, or the result of an operator on both, from below and above"""
    def __init__(self, compared): self.compared = compared
    def all(self, v, f): return bool(v) and all(f(a) for a in strip(v))
    def raw(self, a):
        """unguarded machine arithmetic wraps; guarded by a comparison of the same operands it is not decided here"""
        if self.compared: raise Undecided()
        return False
    def low(self, v, x): return self.all(v, lambda a: self.low1(a, x))
    def up(self, v, x): return self.all(v, lambda a: self.up1(a, x))
    def low1(self, a, x):
        if a == ('int', 0) or a == ('sym', x + '0', ()) or a == ('sym', x, ()): return True
        o = op(a)
        if o is None: return False
        n, k, s = o
        if n == 'min': return any(self.low(t, x) for t in s)
        if n in ('/', '>>', 'div_ceil') or n == '-' and k in ('checked', 'saturating'): return self.low(s[0], x)
        if n == 'bitand': return any(self.low(t, x) for t in s)
        return False
    def up1(self, a, x):
        if a in (('sym', x + '1', ()), ('sym', x, ())): return True
        o = op(a)
        if o is None: return False
        n, k, s = o
        if n == 'max': return any(self.up(t, x) for t in s)
        if n == '+' and k in ('checked', 'saturating'): return any(self.up(t, x) for t in s)
        return False
    def one(self, v): return v == A.V(('int', 1))
    def pos(self, v):
        """a divisor lower bound made positive: max(b0, 1)"""
        return self.all(v, lambda a: (op(a) or ('',))[0] == 'max' and any(self.one(t) for t in op(a)[2]) and any(self.low(t, 'b') for t in op(a)[2]) or a == ('int', 1))
    def res_low(self, v, o): return self.all(v, lambda a: self.rl(a, o))
    def res_up(self, v, o): return self.all(v, lambda a: self.ru(a, o))
    def two(self, s, f, g): return len(s) == 2 and f(s[0]) and g(s[1])
    def rl(self, a, o):
        if a == ('int', 0): return True
        L = lambda x: (lambda v: self.low(v, x)); U = lambda x: (lambda v: self.up(v, x))
        if o == '+' and (self.low1(a, 'a') or self.low1(a, 'b')): return True
        p = op(a)
        if p is None: return o == '<<' and self.low1(a, 'a')
        n, k, s = p
        if n == 'min': return any(self.res_low(t, o) for t in s)
        if n == 'kept': return self.res_low(s[0], o)
        if n == 'max': return all(self.res_low(t, o) for t in s)
        if n == o:
            if o in '+*': m = self.two(s, L('a'), L('b')) or self.two(s, L('b'), L('a'))
            elif o in ('-', '/', '>>', '%'): m = self.two(s, L('a'), U('b')) and (o != '%')
            else: m = self.two(s, L('a'), L('b'))
            if o == '%': m = self.exact(s)
            if not m: return False
            if k in ('checked', 'saturating') or o in ('/', '>>', '%', '<<') and k == 'raw': return True
            return self.raw(a) if k == 'raw' else False
        return False
    def exact(self, s): return len(s) == 2 and strip(s[0]) == A.V(('sym', 'a', ())) and strip(s[1]) == A.V(('sym', 'b', ()))
    def ru(self, a, o):
        L = lambda x: (lambda v: self.low(v, x)); U = lambda x: (lambda v: self.up(v, x))
        if o in ('-', '/', '>>', '%') and self.up1(a, 'a'): return True
        p = op(a)
        if p is None: return False
        n, k, s = p
        if n == 'max': return any(self.res_up(t, o) for t in s)
        if n == 'min': return all(self.res_up(t, o) for t in s)
        if n == o:
            if o in '+*': m = self.two(s, U('a'), U('b')) or self.two(s, U('b'), U('a'))
            elif o in ('-', '>>'): m = self.two(s, U('a'), L('b'))
            elif o == '/': m = self.two(s, U('a'), L('b')) or self.two(s, U('a'), self.pos)
            elif o == '%': m = self.exact(s)
            else: m = self.two(s, U('a'), U('b'))
            if not m: return False
            if o == '<<': return k == 'checked' and self.raw(a)
            if k in ('checked', 'saturating') or o in ('/', '>>', '%') and k == 'raw': return True
            return self.raw(a) if k == 'raw' else False
        if n == 'kept' and o == '<<': return self.keptshl(a)
        return False
    def keptshl(self, a):
        """a shift kept only if shifting back restores the operand"""
        v, pred = a[2]
        if not self.all(v, lambda t: op(t) and op(t)[0] == '<<' and op(t)[1] == 'checked' and self.two(op(t)[2], lambda s: self.up(s, 'a'), lambda s: self.up(s, 'b'))): return False
        sh = op(next(iter(strip(v))))[2]
        for p in pred:
            if p[0] != 'op' or p[1] != 'Eq': raise Undecided()
            l, r = p[2]
            back = any(op(t) and op(t)[0] == '>>' and strip(op(t)[2][0]) == strip(v) and strip(op(t)[2][1]) == strip(sh[1]) for t in l | r)
            if not (back and (strip(l) == strip(sh[0]) or strip(r) == strip(sh[0]))): return False
        return True

class Runs:
    def __init__(self, prog): self.prog = prog; self.F = fmt.Fmt(prog)
    def operand(self, n, how):
        return self.F.bnd(C.sym(n), C.sym(n)) if how == 'exact' else self.F.bnd(C.sym(n + '0'), C.sym(n + '1') if how == 'range' else None)
    def oracle(self, rank, log):
        """comparison oracle for a total preorder of the symbolic ends; unordered symbols and computed terms stay open"""
        def val(v):
            if len(v) != 1: return None
            a = next(iter(strip(v)))
            if a[0] == 'sym' and not a[2]: return rank.get(a[1])
            if a[0] == 'op' and a[1] == 'usize::MAX': return None
            return None
        def cmp(o, a, b):
            log.append((o, a, b))
            if strip(a) == strip(b) and len(a) == 1 and next(iter(a))[0] == 'sym': x = 0
            else:
                x, y = val(a), val(b)
                if x is None or y is None: return None
                x = (x > y) - (x < y)
            if o == 'cmp': return x
            return {'Eq': x == 0, 'Ne': x != 0, 'Lt': x < 0, 'Le': x <= 0, 'Gt': x > 0, 'Ge': x >= 0}[o]
        return cmp
    def run(self, fn, args, rank, pure=None):
        log = []
        an, r = self.F.run(fn, args, pure or {}, cmp=self.oracle(rank, log))
        return an, r, log

ENDS = (0, 1, 3, 5, 64, 1 << 63, (1 << 64) - 1)
def ends(R, fn, nm, o, x, y, end):
    """'' where the end holds for every choice of representative ends, an offending choice, None where some choice is not understood"""
    def choices(how):
        for i, p in enumerate(ENDS):
            if how == 'exact': yield (p, p)
            elif how == 'open': yield (p, None)
            else:
                for q in ENDS[i + 1:]: yield (p, q)
    def at(iv):
        lo, hi = iv; out = {lo, lo + 1} | ({hi, hi - 1} if hi is not None else {lo + 7, 1 << 62, (1 << 64) - 1})
        return [v for v in out if lo <= v < 1 << 64 and (hi is None or v <= hi)]
    f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q if p >= q else None, '*': lambda p, q: p * q, '/': lambda p, q: p // q if q else None, '%': lambda p, q: p % q if q else None,
         '<<': lambda p, q: p << q if q < 64 else None, '>>': lambda p, q: p >> q if q < 64 else None}[o]
    unk = False
    for a in choices(x):
        for b in choices(y):
            if o == '%' and b == (0, 0): continue
            an, r = C.run(R.prog, fn, [R.F.bnd(*a), R.F.bnd(*b)], asserts=C.overflow(lambda v: next(iter(v))[1] if len(v) == 1 and next(iter(v))[0] == 'int' else None))
            if r is None: return 'with a = %s and b = %s it never returns' % (a, b)
            ps = parts(some(r) if nm.split('::')[-1].startswith('checked') else r)
            if ps is None: unk = True; continue
            for lo, hi, _ in ps:
                v = lo if end == ':min' else hi
                if v is None: continue
                if len(v) != 1 or next(iter(v))[0] != 'int': unk = True; continue
                v = next(iter(v))[1]
                for p in at(a):
                    for q in at(b):
                        z = f(p, q)
                        if z is not None and z < 1 << 64 and (z < v if end == ':min' else z > v): return '%d %s %d with a in %s, b in %s' % (p, o, q, a, b)
    return None if unk else ''

def orders(names, cons):
    """all total preorders of the names (as rank maps) satisfying the constraints"""
    for rk in itertools.product(range(len(names)), repeat=len(names)):
        used = sorted(set(rk))
        if used != list(range(len(used))): continue
        m = dict(zip(names, rk))
        if all(m[x] <= m[y] for x, y in cons): yield m

def parts(v):
    """[(min, max payload or None)] of a Bounds value; None where it is not built from its parts"""
    out = []
    for a in v or ():
        if a[0] != 'agg' or not a[1].endswith('Bounds') or len(a[3]) != 2: return None
        lo, hi = a[3]; h = frozenset(); ok = True
        for x in hi:
            if x[0] == 'agg' and x[1] == A.OPTION: h |= x[3][0] if x[2] == 'Some' else frozenset()
            else: return None
        out.append((lo, h or None, any(x[2] == 'None' for x in hi)))
    return out

def some(v):
    """payload of the Some alternatives"""
    out = frozenset()
    for a in v or ():
        if a[0] == 'agg' and a[1] == A.OPTION: out |= a[3][0] if a[2] == 'Some' else frozenset()
        else: out |= frozenset([a])
    return out

def run(prog, rep, tier):
    R = Runs(prog); F = R.F; n = 0
    for nm, o in ARITH.items():
        fn = prog.one(nm)
        if not rep.known(fn is not None, nm, 'operation not found'): continue
        rep.analysed_fns({fn.name}); where = '%s %s' % (fn.loc(), fn.name)
        for x in ('range', 'open', 'exact'):
            for y in ('range', 'open', 'exact'):
                key = '%s:%s,%s' % (nm, x, y)
                rank = {'a0': 0, 'a1': 1}; log = []
                cmp = R.oracle({}, log)
                def both(oo, a, b, _l=log, _o=cmp):
                    """ends of an inexact range differ"""
                    sa, sb = strip(a), strip(b)
                    for s in ('a', 'b'):
                        lo, hi = A.V(('sym', s + '0', ())), A.V(('sym', s + '1', ()))
                        if (sa, sb) in ((lo, hi), (hi, lo)):
                            z = -1 if sa == lo else 1
                            return z if oo == 'cmp' else {'Eq': False, 'Ne': True, 'Lt': z < 0, 'Le': z < 0, 'Gt': z > 0, 'Ge': z > 0}[oo]
                    return _o(oo, a, b)
                an, r = C.run(prog, fn, [R.operand('a', x), R.operand('b', y)], cmp=both, kept=lambda v, p: A.V(('op', 'kept', (v, p))))
                n += 1; rep.analysed_fns(an.inlined)
                v = some(r) if nm.split('::')[-1].startswith('checked') else r
                ps = parts(v)
                if not rep.known(ps is not None and ps, key, 'result is not built from its ends: %s' % C.show(r)[:160], where): continue
                B = Bnd([l for l in log if C.involves(l[1] | l[2], 'a0') or C.involves(l[1] | l[2], 'a1') or C.involves(l[1] | l[2], 'b1')])
                for lo, hi, _ in ps:
                    for end, v, derive in ((':min', lo, B.res_low), (':max', hi, B.res_up)):
                        if v is None: continue
                        try: good = derive(v, o)
                        except Undecided: good = None
                        if good: rep.ob(True, key + end, '', where); continue
                        # the end is not derived as it stands: under every choice of representative ends
                        bad = ends(R, fn, nm, o, x, y, end)
                        if bad == '': rep.ob(True, key + end, '', where)
                        elif bad is None: rep.known(False, key + end, C.show(v)[:160], where)
                        else: rep.ob(False, key + end, 'the %s end of a %s b is %s, which some result can %s: %s' % ('lower' if end == ':min' else 'upper', o, C.show(v)[:160], 'undercut' if end == ':min' else 'exceed', bad), where)
                if o in ('+', '-', '*', '%', '/', '<<', '>>') and (x, y) == ('exact', 'exact'):
                    rep.ob(any(lo and hi for lo, hi, _ in ps), key + ':exact', 'two exact operands never give a bounded result', where)
    rep.floor(n, 'interval arithmetic runs', 90)
    n += select(prog, rep, R)
    n += bits(prog, rep, R)
    n += conv(prog, rep, R)

S = lambda n, *p: A.V(('sym', n, p))
def val(rk, v):
    """ranks of the alternatives of a value that are plain ends"""
    out = set()
    for a in strip(v):
        if a[0] == 'sym' and a[1] in rk and not a[2]: out.add(rk[a[1]])
        elif a[0] == 'sym' and '.'.join((a[1],) + a[2]) in rk: out.add(rk['.'.join((a[1],) + a[2])])
        else: return None
    return out

def bools(v):
    return {bool(a[1]) for a in v} if v and all(a[0] == 'int' for a in v) else None

def select(prog, rep, R):
    """operations that select among the ends: under every ordering of the ends the result is the right one"""
    F = R.F; n = 0
    def fn_of(nm, file=None):
        f = prog.one(nm, file)
        if rep.known(f is not None, nm, 'operation not found'): rep.analysed_fns({f.name}); return f, '%s %s' % (f.loc(), f.name)
        return None, ''
    fn, w = fn_of('Bounds::union')
    for x in ('range', 'open'):
        for y in ('range', 'open'):
            names = ['a0', 'b0'] + ['a1'] * (x == 'range') + ['b1'] * (y == 'range')
            for rk in orders(names, [c for c in (('a0', 'a1'), ('b0', 'b1')) if c[1] in names]):
                if fn is None: continue
                an, r, _ = R.run(fn, [R.operand('a', x), R.operand('b', y)], rk); n += 1
                key = 'union:%s,%s' % (x, y); ps = parts(r)
                if not rep.known(ps, key, C.show(r)[:160], w): continue
                for lo, hi, none in ps:
                    v = val(rk, lo)
                    if rep.known(v is not None, key + ':min', C.show(lo)[:120], w): rep.ob(all(t <= min(rk['a0'], rk['b0']) for t in v), key + ':min', 'the union starts at %s although the ends are ordered %s' % (C.show(lo), rk), w)
                    if x == y == 'range':
                        if hi is not None:
                            v = val(rk, hi)
                            if rep.known(v is not None, key + ':max', C.show(hi)[:120], w): rep.ob(all(t >= max(rk['a1'], rk['b1']) for t in v), key + ':max', 'the union ends at %s although the ends are ordered %s' % (C.show(hi), rk), w)
                    else: rep.ob(hi is None, key + ':open', 'the union with an unbounded range is bounded by %s' % (hi and C.show(hi)), w)
    fn, w = fn_of('Bounds::contains', 'src/bounds.rs')
    for x in ('range', 'open'):
        for rk in orders(['a0', 'v'] + ['a1'] * (x == 'range'), [('a0', 'a1')] if x == 'range' else []):
            if fn is None: continue
            an, r, _ = R.run(fn, [R.operand('a', x), S('v')], rk); n += 1
            b = bools(r); exp = rk['a0'] <= rk['v'] and (x == 'open' or rk['v'] <= rk['a1'])
            if rep.known(b is not None, 'contains:' + x, C.show(r)[:120], w): rep.ob(b == {exp}, 'contains:' + x, 'containment of v answers %s when the ends are ordered %s' % (C.show(r), rk), w)
    fn, w = fn_of('Bounds::as_exact')
    for how, rk, exp in (('range', {'a0': 0, 'a1': 1}, 'Option::None()'), ('open', {'a0': 0}, 'Option::None()'), ('exact', {}, 'Option::Some(a)')):
        if fn is None: continue
        an, r, _ = R.run(fn, [R.operand('a', how)], rk); n += 1
        rep.ob(C.show(r) == exp, 'as_exact:' + how, 'the exact value of a %s is %s' % (how, C.show(r)), w)
    fn, w = fn_of('Bounds::clamp')
    for x in ('range', 'open'):
        for rk in orders(['a0', 'm', 'n'] + ['a1'] * (x == 'range'), [('m', 'n')] + ([('a0', 'a1')] if x == 'range' else [])):
            if fn is None: continue
            an, r, _ = R.run(fn, [R.operand('a', x), S('m'), S('n')], rk); n += 1
            lo = max(rk['m'], rk['a0']); hi = min(rk['n'], rk.get('a1', rk['n']))
            key = 'clamp:' + x; none = any(a[2] == 'None' for a in r or ()); ps = parts(some(r)) if some(r) else []
            if not rep.known(r is not None and ps is not None, key, C.show(r)[:160], w): continue
            if lo > hi: rep.ob(not ps, key + ':empty', 'an empty intersection is reported as %s (%s)' % (C.show(r), rk), w); continue
            ok = not none and len(ps) >= 1
            for l, h, _o in ps: ok = ok and val(rk, l) == {lo} and h is not None and val(rk, h) == {hi}
            rep.ob(ok, key, 'clamping gives %s when the ends are ordered %s' % (C.show(r), rk), w)
    # plain constructors and accessors
    for nm, args, exp in (('Bounds::new', ['x', 'y'], 'Bounds(x, Option::Some(y))'), ('Bounds::exact', ['x'], 'Bounds(x, Option::Some(x))'), ('Bounds::at_most', ['x'], 'Bounds(0, Option::Some(x))'),
                          ('Bounds::at_least', ['x'], 'Bounds(x, Option::None())'), ('Bounds::any', [], 'Bounds(0, Option::None())')):
        fn, w = fn_of(nm, 'src/bounds.rs')
        if fn is None: continue
        an, r, _ = R.run(fn, [S(a) for a in args], {}); n += 1
        rep.ob(C.show(r) == exp, nm, '%s builds %s' % (nm, C.show(r)), w)
    for nm, exp in (('Bounds::min', 'a0'), ('Bounds::max', 'Option::Some(a1)')):
        fn, w = fn_of(nm, 'src/bounds.rs')
        if fn is None: continue
        an, r, _ = R.run(fn, [R.operand('a', 'range')], {'a0': 0, 'a1': 1}); n += 1
        rep.ob(C.show(r) == exp, nm, '%s reports %s' % (nm, C.show(r)), w)
    # arbitrary-precision ranges
    names = ['p.min', 'p.max', 'q.min', 'q.max']; cons = [('p.min', 'p.max'), ('q.min', 'q.max')]
    zadt = C.adt(prog, 'Bounds', lambda a: 'numeric' in a['adt'])
    for nm, exp in (('Bounds::encompasses', lambda k: k['p.min'] <= k['q.min'] and k['q.max'] <= k['p.max']), ('Bounds::is_encompassed_by', lambda k: k['q.min'] <= k['p.min'] and k['p.max'] <= k['q.max']),
                    ('Bounds::contains', lambda k: k['p.min'] <= k['v'] <= k['p.max']), ('Bounds::unify', None)):
        fn, w = fn_of(nm, 'numeric/core.rs')
        if fn is None: continue
        for rk in orders(names if nm != 'Bounds::contains' else ['p.min', 'p.max', 'v'], cons if nm != 'Bounds::contains' else cons[:1]):
            flat = {k.replace('.', ''): v for k, v in rk.items()}
            Z = lambda p: C.variant_value(zadt, zadt['v'][0]['n'], p, {f[0]: S(p + f[0]) for f in zadt['v'][0]['f']})
            an, r, _ = R.run(fn, [Z('p'), Z('q') if nm != 'Bounds::contains' else S('v')], flat); n += 1
            key = 'numeric:' + nm
            if exp is not None:
                b = bools(r)
                if rep.known(b is not None, key, C.show(r)[:120], w): rep.ob(b == {exp(rk)}, key, '%s answers %s when the ends are ordered %s' % (nm, C.show(r), rk), w)
            else:
                good = True; seen = False
                for a in r or ():
                    inner = a[3][0] if a[0] == 'agg' and a[1].endswith('Cow') else A.V(a)
                    for z in inner:
                        if z[0] != 'agg' or not z[1].endswith('Bounds'): good = None; break
                        m = {f[0]: val(flat, z[3][j]) for j, f in enumerate(zadt['v'][0]['f'])}
                        if m['min'] is None or m['max'] is None: good = None; break
                        seen = True
                        if good: good = m['min'] == {min(rk['p.min'], rk['q.min'])} and m['max'] == {max(rk['p.max'], rk['q.max'])}
                if rep.known(good is not None and seen, key, C.show(r)[:160], w): rep.ob(good, key, 'the union of two number ranges is %s when the ends are ordered %s' % (C.show(r)[:160], rk), w)
    return n

class Words:
    """two-region bit abstraction: bits below the highest differing bit of a0 and a1, and the common prefix above it"""
    XOR = None
    def __init__(self): self.bad = False
    def pos(self, v):
        """is v the number of significant bits of a0 ^ a1"""
        for a in strip(v):
            if a == ('int', 0): continue
            if not self.sig(a, lambda t: all(op(x) and op(x)[0] == 'bitxor' and {C.show(y) for y in op(x)[2]} == {'a0', 'a1'} for x in t)): return False
        return True
    def sig(self, a, f):
        """ilog2(t) + 1 or BITS - leading_zeros(t), for a t accepted by f"""
        o = op(a)
        if not o: return False
        if o[0] == '+' and any(t == A.V(('int', 1)) for t in o[2]): return any(all(op(x) and op(x)[0] == 'ilog2' and f(op(x)[2][0]) for x in strip(t)) for t in o[2] if t != A.V(('int', 1)))
        if o[0] == '-' and o[2][0] in (A.V(('int', 64)),): return all(op(x) and op(x)[0] == 'leading_zeros' and f(op(x)[2][0]) for x in strip(o[2][1]))
        return False
    def width(self, v):
        """n - M for the significant bits n of a0 / a1"""
        for a in strip(v):
            o = op(a)
            if not o or o[0] != '-' or not self.pos(o[2][1]): return False
            for b in strip(o[2][0]):
                if b != ('int', 0) and not self.sig(b, lambda t: C.show(t) in ('a0', 'a1')): return False
        return True
    def ev(self, v):
        r = {self.ev1(a) for a in strip(v)}
        return r.pop() if len(r) == 1 else None
    def ev1(self, a):
        if a[0] == 'sym': return {'a0': ('x', 'P'), 'a1': ('y', 'P')}.get(a[1])
        if a == ('int', 0): return (0, 0)
        o = op(a)
        if not o: return None
        n, k, s = o
        if n == '<<' and len(s) == 2:
            if not self.pos(s[1]): self.bad = self.bad or self.shiftish(s[1]); return None
            if s[0] == A.V(('int', 1)): return ('bit', 'bit')
            if self.run1(s[0]): return (0, 1)
            if all(op(x) and op(x)[0] == '>>' and self.pos(op(x)[2][1]) for x in strip(s[0])):
                e = self.ev(op(next(iter(strip(s[0]))))[2][0])
                return e and (0, e[1])
            return None
        if n == '-' and s[1] == A.V(('int', 1)):
            e = self.ev(s[0])
            return (1, 0) if e == ('bit', 'bit') else None
        e = [self.ev(t) for t in s]
        if any(x is None or 'bit' in x for x in e): return None
        if n == 'not': return tuple({0: 1, 1: 0}.get(t, '~') for t in e[0])
        f = {'bitand': lambda p, q: 0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else '?',
             'bitor': lambda p, q: 1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else '?',
             'bitxor': lambda p, q: q if p == 0 else p if q == 0 else 0 if p == q else '?',
             '-': lambda p, q: p if q == 0 else 0 if p == q else '?'}.get(n)
        return tuple(f(p, q) for p, q in zip(*e)) if f and len(e) == 2 else None
    def run1(self, v):
        """(1 << (n - M)) - 1"""
        return all(op(x) and op(x)[0] == '-' and op(x)[2][1] == A.V(('int', 1)) and all(op(y) and op(y)[0] == '<<' and op(y)[2][0] == A.V(('int', 1)) and self.width(op(y)[2][1]) for y in strip(op(x)[2][0])) for x in strip(v))
    def shiftish(self, v):
        """a shift distance computed from the bit lengths of the ends, yet not that of their difference"""
        t = C.show(v)
        return not re.search(r'[A-Za-z_]{2,}', re.sub(r'\b(usize|u32|u64|cast|ilog2|leading_zeros|checked_sub|saturating_sub|Add|Sub|BitXor|BitAnd|BitOr|Shl|Shr|try_from|a0|a1)\b', '', t))

def term(t, env):
    """the value of a 64-bit term; 'panic' where it has none, None where it is not understood"""
    if t[0] == 'int': return t[1]
    if t[0] == 'sym': return env.get(t[1]) if not t[2] else None
    if t[0] != 'op': return None
    n = t[1].split('::')[-1]; xs = []
    if C.show(frozenset({t})).endswith('usize::MAX'): return 2**64 - 1
    for q in t[2]:
        if not isinstance(q, frozenset): continue
        q = strip(q)
        v = {term(z, env) for z in q}
        if len(v) != 1: return None
        v = v.pop()
        if v is None or v == 'panic': return v
        xs.append(v)
    M = 2**64; f = lambda v: v if 0 <= v < M else 'panic'
    try:
        return {'Add': lambda a, b: f(a + b), 'Sub': lambda a, b: f(a - b), 'Mul': lambda a, b: f(a * b), 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'Not': lambda a: ~a % M,
                'Shl': lambda a, b: a << b & M - 1 if b < 64 else 'panic', 'Shr': lambda a, b: a >> b if b < 64 else 'panic', 'checked_shl': lambda a, b: a << b & M - 1 if b < 64 else 'panic', 'checked_shr': lambda a, b: a >> b if b < 64 else 'panic',
                'wrapping_sub': lambda a, b: (a - b) % M, 'wrapping_add': lambda a, b: (a + b) % M, 'saturating_sub': lambda a, b: max(0, a - b), 'saturating_add': lambda a, b: min(M - 1, a + b),
                'ilog2': lambda a: a.bit_length() - 1 if a else 'panic', 'leading_zeros': lambda a: 64 - a.bit_length(), 'pow': lambda a, b: f(a ** b) if b < 99 else 'panic', 'cast': lambda a: a, 'next_power_of_two': lambda a: f(1 << (a - 1).bit_length() if a else 1)}[n](*xs)
    except (KeyError, TypeError): return None

def bits(prog, rep, R):
    """bitwise operators: common prefixes and masks"""
    F = R.F; n = 0; c = F.c
    fn = prog.one('Bounds::bitwise_bounds')
    if rep.known(fn is not None, 'bitwise_bounds', 'operation not found'):
        w = '%s %s' % (fn.loc(), fn.name); rep.analysed_fns({fn.name})
        for how, rk in (('open', {'a0': 0}), ('exact', {}), ('range', {'a0': 0, 'a1': 1})):
            an, r, _ = R.run(fn, [R.operand('a', how)], rk); n += 1; rep.analysed_fns(an.inlined)
            for a in r or ():
                key = 'bitwise_bounds:' + how
                ps = parts(a[3][1]) if a[0] == 'agg' and len(a[3]) == 2 else None
                if not rep.known(ps, key, C.show(A.V(a))[:160], w): continue
                k = a[3][0]
                for lo, hi, none in ps:
                    if k == A.V(('int', 0)):
                        same = C.show(lo) in ('a0', 'a') and (hi is None if how == 'open' else hi is not None and C.show(hi) in ('a1', 'a'))
                        rep.ob(same, key + ':none', 'without a common prefix the rest of the range is %s..%s' % (C.show(lo), hi and C.show(hi)), w)
                    elif how == 'exact': rep.ob(C.show(k) == 'a' and C.show(lo) == '0' and hi and C.show(hi) == '0', key, 'an exact value splits into %s' % C.show(A.V(a))[:160], w)
                    elif how == 'open': rep.ob(False, key, 'an unbounded range is given a common prefix: %s' % C.show(A.V(a))[:160], w)
                    else:
                        W = Words(); got = (W.ev(k), W.ev(lo), hi and W.ev(hi))
                        if any(x is None or '?' in x for x in got): (rep.ob if W.bad else rep.known)(False, key, 'prefix and rest are %s' % C.show(A.V(a))[:260], w)
                        else: rep.ob(got == ((0, 'P'), ('x', 0), ('y', 0)), key, 'a range splits into prefix and rest %s' % (got,), w)
    mk = prog.find('bounds::mask'); bw = fn
    pure = {'Bounds::bitwise_bounds': lambda an, s: A.V(('agg', 'tuple', '', tuple(tup(R, s)))), 'bounds::mask': 'MASK'}
    for nm, o in (('<Bounds as BitOr>::bitor', '|'), ('<Bounds as BitAnd>::bitand', '&')):
        fn = prog.one(nm)
        if not rep.known(fn is not None, nm, 'operation not found'): continue
        w = '%s %s' % (fn.loc(), fn.name)
        for x in ('range', 'open', 'exact'):
            for y in ('range', 'open', 'exact'):
                for m in ('in', 'out'):
                    rk = {'a0': 0, 'a1': 1, 'b0': 0, 'b1': 1}; log = []; base = R.oracle({}, log)
                    def cmp(oo, p, q):
                        sp, sq = C.show(strip(p)), C.show(strip(q))
                        for s in 'ab':
                            if {sp, sq} == {s + 'l', s + 'h'}:
                                z = -1 if sp == s + 'l' else 1
                                return z if oo == 'cmp' else {'Eq': False, 'Ne': True, 'Lt': z < 0, 'Le': z < 0, 'Gt': z > 0, 'Ge': z > 0}[oo]
                        return base(oo, p, q)
                    an, r = F.run(fn, [R.operand('a', x), R.operand('b', y)], pure, cmp=cmp); n += 1; rep.analysed_fns(an.inlined | {fn.name})
                    key = '%s:%s,%s' % (nm, x, y); ps = parts(r)
                    if not rep.known(ps, key, C.show(r)[:160], w): continue
                    for lo, hi, none in ps: bitop(rep, key, w, o, x, y, lo, hi, R)
                    break
    for f in prog.find('bounds::sig_bits')[:1]:
        w = '%s %s' % (f.loc(), f.name)
        for x in [0, 1, 2, 3, 4, 255, 256, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1]:
            an, r = C.run(prog, f, [A.V(('int', x))]); n += 1; rep.analysed_fns({f.name})
            a = next(iter(strip(r))) if r and len(strip(r)) == 1 else None
            v = 'panic' if r is None else term(a, {}) if a else None
            if rep.known(v is not None, 'sig_bits', C.show(r)[:160], w): rep.ob(v == x.bit_length(), 'sig_bits', 'the number of significant bits of %d is computed as %s' % (x, v), w)
    for f in mk[:1]:
        w = '%s %s' % (f.loc(), f.name)
        an, r = C.run(prog, f, [S('x')]); n += 1; rep.analysed_fns({f.name})
        ok = None; M = 2**64 - 1
        for x in sorted({y for i in range(64) for y in (1 << i, (2 << i) - 1, min((1 << i) + 1, M))}):
            for a in strip(r or A.EMPTY):
                if a == ('int', 0): continue                       # the answer for x = 0
                v = term(a, {'x': x})
                ok = None if v is None else (ok is not False) and v != 'panic' and v | (1 << x.bit_length()) - 1 == v
                if not ok: break
            if not ok: break
        if rep.known(ok is not None, 'mask', C.show(r)[:160], w): rep.ob(ok, 'mask', 'the bits values up to x can have are computed as %s, wrong for x = %s' % (C.show(r)[:160], x), w)
    return n

def tup(R, s):
    """an abstract (prefix, rest) of a range: ka / kb with rest al..ah / bl..bh"""
    (a,) = [z for z in s[0]]; lo, hi = a[3]
    n = C.show(lo)[0]
    if C.show(lo) in ('a', 'b'): return A.V(('sym', n, ())), R.F.bnd(0, 0)
    if any(z[2] == 'None' for z in hi): return A.V(('int', 0)), s[0]
    return S('k' + n), R.F.bnd(S(n + 'l'), S(n + 'h'))

def cover(v, s, exact):
    """does the value cover every bit the rest of operand s can have; 'kp' are bits of the prefix"""
    t = {C.show(A.V(a)) for a in v}
    return t <= ({'0'} if exact else {'MASK[%sh]' % s})

def bitop(rep, key, w, o, x, y, lo, hi, R):
    K = {'a': 'a' if x == 'exact' else '0' if x == 'open' else 'ka', 'b': 'b' if y == 'exact' else '0' if y == 'open' else 'kb'}
    def flat(v, n):
        if len(v) == 1:
            p = op(next(iter(v)))
            if p and p[0] == n: return set().union(*[flat(t, n) for t in p[2]])
        return {C.show(v)}
    if o == '|':
        ends = {'a0', 'b0', 'a', 'b', '0', K['a'], K['b']}
        rep.ob({C.show(A.V(z)) for z in lo} <= ends or op(next(iter(lo))) and op(next(iter(lo)))[0] in ('max', 'bitor') and all(flat(t, op(next(iter(lo)))[0]) <= ({'a0', 'b0', 'a', 'b', '0'} if op(next(iter(lo)))[0] == 'max' else {'a', 'b', '0', 'ka', 'kb'}) for t in op(next(iter(lo)))[2]), key + ':min', 'the lower end of a | b is %s' % C.show(lo)[:120], w)
        if hi is None: return
        if rep.known('open' not in (x, y), key + ':max', C.show(hi)[:120], w):
            need = {K['a'], K['b']} | {'MASK[%sh]' % s for s, z in (('a', x), ('b', y)) if z == 'range'}
            got = flat(hi, 'bitor'); alien = {g for g in got if g not in need and g not in ('0', 'MASK[0]') and 'MASK' not in g and g not in ('ka', 'kb', 'ah', 'bh', 'al', 'bl', 'a0', 'a1', 'b0', 'b1', 'a', 'b')}
            if need - got and alien: rep.known(False, key + ':max', C.show(hi)[:160], w)
            else: rep.ob(not need - got, key + ':max', 'the upper end of a | b is %s, which misses the bits %s' % (C.show(hi)[:160], sorted(need - got)), w)
        return
    # a & b: lower end keeps only bits both prefixes have
    t = {C.show(A.V(z)) for z in lo}
    okl = t <= {'0'} or len(lo) == 1 and op(next(iter(lo))) and op(next(iter(lo)))[0] == 'bitand' and (all(any(f <= {K[s]} for s in 'ab') for f in [flat(q, 'bitand') for q in op(next(iter(lo)))[2]]) and {K['a'], K['b']} <= flat(lo, 'bitand') | {'0'} or '0' in flat(lo, 'bitand'))
    rep.ob(okl, key + ':min', 'the lower end of a & b is %s' % C.show(lo)[:120], w)
    if hi is None: return
    if {C.show(A.V(z)) for z in hi} <= ({'a1', 'a'} | {'b1', 'b'}): return rep.ob(True, key + ':max')
    if not rep.known('open' not in (x, y), key + ':max', C.show(hi)[:120], w): return
    # every conjunction of one way to cover a with one way to cover b must be present (a conjunct of 0 contributes nothing)
    for z in hi:
        # alternatives of an operand are alternatives of the whole
        conj = flat(A.V(z), 'bitor')
        def has(p, q):
            if '0' in (p, q): return True
            for d in conj:
                m = re.fullmatch(r'BitAnd\[(.*), (.*)\]', d)
                if m and ({m[1], m[2]} == {p, q}): return True
            return False
        ca = {'range': {'MASK[ah]'}, 'exact': {'0'}}[x]; cb = {'range': {'MASK[bh]'}, 'exact': {'0'}}[y]
        miss = [(p, q) for p in {K['a']} | ca for q in {K['b']} | cb if not has(p, q)]
        known = all(re.fullmatch(r'BitAnd\[T(\|T)*, T(\|T)*\]|0'.replace('T', r'(ka|kb|a|b|0|ah|bh|al|bl|MASK\[\w+\])'), d) for d in conj)
        if miss and not known: rep.known(False, key + ':max', C.show(hi)[:200], w)
        else: rep.ob(not miss, key + ':max', 'the upper end of a & b is %s, which misses bits of %s' % (C.show(hi)[:200], miss), w)

WIDTHS = [(0, 'Bits8'), (255, 'Bits8'), (256, 'Bits16'), (65535, 'Bits16'), (65536, 'Bits32'), (2**32 - 1, 'Bits32'), (2**32, 'Bits64'), (2**64 - 1, 'Bits64')]
def conv(prog, rep, R):
    F = R.F; n = 0
    fn = prog.one('Bounds::bits_to_bytes')
    if rep.known(fn is not None, 'bits_to_bytes', 'operation not found'):
        w = '%s %s' % (fn.loc(), fn.name)
        for how in ('range', 'open'):
            an, r, _ = R.run(fn, [R.operand('a', how)], {'a0': 0, 'a1': 1}); n += 1; rep.analysed_fns({fn.name})
            key = 'bits_to_bytes:' + how
            ps = parts(r)
            if not rep.known(ps, key, C.show(r)[:120], w): continue
            for lo, hi, none in ps:
                good = lambda v, s: C.show(v) in ('usize::div_ceil[%s, 8]' % s, 'Shr[Add[%s, 7], 3]' % s, 'Div[Add[%s, 7], 8]' % s, 'Div[usize::saturating_add[%s, 7], 8]' % s)
                vocab = lambda v, s: re.fullmatch(r'%s|(usize::div_ceil|Div|Shr)\[(%s|Add\[%s, \d+\]), \d+\]|\d+' % (s, s, s), C.show(v))
                for v, s, ln in ((lo, 'a0', 'min'),) + (((hi, 'a1', 'max'),) if hi is not None else ()):
                    low = ln == 'min' and C.show(v) in ('0', 'Div[a0, 8]', 'Shr[a0, 3]')
                    if good(v, s) or low or vocab(v, s): rep.ob(good(v, s) or low, key + ':' + ln, 'a %s of %s bits becomes %s bytes' % (ln, s, C.show(v)), w)
                    else: rep.known(False, key + ':' + ln, C.show(v)[:120], w)
    # conversions from integers and ranges
    for f in prog.find('<Bounds as From>::from', 'src/bounds.rs'):
        t = f.name; w = '%s %s' % (f.loc(), f.name); rep.analysed_fns({f.name})
        if 'RangeInclusive' in t: exp = r'Bounds\((cast:\w+->usize\[)?RangeInclusive::(into_inner\.0|start)\]?, Option::Some\((cast:\w+->usize\[)?RangeInclusive::(into_inner\.1|end)\]?\)\)'
        elif 'RangeFrom' in t: exp = r'Bounds\((cast:\w+->usize\[)?x\.start\]?, Option::None\(\)\)'
        else: exp = r'Bounds\((?P<v>(cast:\w+->usize\[)?x\]?), Option::Some\((?P=v)\)\)'
        an, r, _ = R.run(f, [S('x')], {}); n += 1
        key = 'from:' + re.sub(r'.*From<(.*?)>+::from', r'\1', t)
        if re.fullmatch(exp, C.show(r)): rep.ob(True, key)
        else: (rep.ob if re.fullmatch(r'Bounds\([^()]*, Option::(None\(\)|Some\([^()]*\))\)', C.show(r)) else rep.known)(False, key, 'converts to %s' % C.show(r)[:120], w)
    fn = prog.one('Bounds::min_required_width')
    if rep.known(fn is not None, 'min_required_width', 'operation not found'):
        w = '%s %s' % (fn.loc(), fn.name)
        for m, exp in WIDTHS:
            an, r = C.run(prog, fn, [F.bnd(0, m)]); n += 1; rep.analysed_fns({fn.name})
            got = {a[2] for a in r or () if a[0] == 'agg'}
            if rep.known(len(got) == 1, 'min_required_width', C.show(r)[:100], w): rep.ob(got == {exp}, 'min_required_width:%d' % m, 'values up to %d are given %s' % (m, C.show(r)), w)
    return n
