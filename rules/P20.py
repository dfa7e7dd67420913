"""Reading from a byte buffer yields exactly the value encoded there, or fails, and never touches anything outside the buffer."""
import absint as A, common as C
CRATES = ['doodle', 'smallsorts']
RULE = ('Every public way of reading from a buffer (the interpreter\'s cursor, the views and the fixed-size readers and arrays used by generated code) is analysed abstractly with symbolic buffer, position and amount, '
        'once per ordering class of position, amount, item size and stride against the end of the buffer, including amounts whose product with the item size exceeds the word: the bytes its result is made of (as a term over the bytes of the buffer), '
        'the position it leaves and whether it fails must be those the operation stands for; every unchecked access and every unchecked item read on the way must lie inside the slice it is made on, no arithmetic may overflow, '
        'and every implementation of the unchecked-read trait must consume exactly the size it declares.')
S = C.sym; I = lambda n: A.V(('int', n))
BIG = (1 << 64) - 1
W = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}
EMPTY = ('empty', 0, 0)
def wrap(x, ty):
    if ty not in W: return x
    x %= 1 << W[ty]
    return x - (1 << W[ty]) if ty[0] == 'i' and x >> (W[ty] - 1) else x

class Unknown(Exception): pass

class Env:
    """a representative: numbers for the symbols, sizes for the item types, values for the bytes"""
    def __init__(self, prog, nums, sizes=None, fill=0):
        self.prog, self.n, self.sizes, self.fill = prog, nums, dict(sizes or {}), fill
    def byte(self, i):
        f = self.fill
        return f(i) if callable(f) else f
    def size(self, ty):
        ty = ty.strip('<>') if ty.count('<') == ty.count('>') and ty.startswith('<') and not ty.startswith('<<') else ty
        if ty in self.sizes: return self.sizes[ty]
        short = ty.split('::')[-1]
        for n, c in self.prog.consts.items():
            if n.endswith('::SIZE') and 'ReadUnchecked' in n and n.split(' as ')[0].split('::')[-1].strip('<>| ').split('|<')[-1] == short:
                v = c.get('val') or {}
                return v.get('v')
        return None
    def span(self, v):
        """(root, start, length) of a slice value"""
        if len(v) != 1: return None
        a = next(iter(v))
        if a[0] == 'sym':
            k = '.'.join((str(a[1]),) + a[2])
            return (k, 0, self.n['len:' + k]) if 'len:' + k in self.n else None
        if a[0] == 'agg' and a[1] == 'array': return EMPTY if not a[3] else None
        if a[0] == 'op' and a[1] == 'index':
            b = self.span(a[2][0]); r = self.rng(a[2][1], b[2]) if b else None
            if r is None or not r[0] <= r[1] <= b[2]: return None
            return (b[0], b[1] + r[0], r[1] - r[0])
        return None
    def rng(self, v, n):
        if len(v) != 1: return None
        a = next(iter(v))
        if a[0] == 'sym' and str(a[1]).endswith('RangeFull') or a[0] == 'agg' and a[1].split('::')[-1] == 'RangeFull': return 0, n
        if a[0] != 'agg': return None
        xs = [self.num(x) for x in a[3]][:2]
        if None in xs: return None
        k = a[1].split('::')[-1]
        try: return {'RangeTo': lambda: (0, xs[0]), 'RangeFrom': lambda: (xs[0], n), 'Range': lambda: (xs[0], xs[1]), 'RangeInclusive': lambda: (xs[0], xs[1] + 1), 'RangeToInclusive': lambda: (0, xs[0] + 1)}[k]()
        except (KeyError, IndexError): return None
    def num(self, v): return self.ev(next(iter(v))) if len(v) == 1 else None
    def ev(self, t):
        if t[0] == 'int': return t[1]
        if t[0] == 'sym':
            if isinstance(t[1], str) and t[1].startswith('const:') and t[1].endswith('::SIZE') and t[2]: return self.size(t[2][0][1:-1])
            k = '.'.join((str(t[1]),) + t[2])
            if k not in self.n and t[2] and t[2][-1].startswith('[') and t[2][-1][1:-1].isdigit():
                b = self.span(A.V(('sym', t[1], t[2][:-1]))); i = int(t[2][-1][1:-1])
                return self.byte(b[1] + i) if b and i < b[2] else None
            return self.n.get(k)
        if t[0] == 'agg' and t[1] == 'tuple' and len(t[3]) == 1: return self.num(t[3][0])
        if t[0] != 'op': return None
        n = t[1].split('::')[-1]
        if n.startswith('ovf:'): n = n[4:]
        if t[1].startswith('cast:'):
            x = self.num(t[2][0])
            return None if x is None else wrap(x, t[1].split('->')[-1])
        if n == 'len':
            s = self.span(t[2][0])
            return s[2] if s else None
        if n == 'byte': return self.byte(self.num(t[2][0]))
        if n == 'at':
            s = self.span(t[2][0]); i = self.num(t[2][1])
            return self.byte(s[1] + i) if s and i is not None and i < s[2] else None
        if n == 'be':
            bs = [self.num(x) for x in t[2][1:]]
            if None in bs: return None
            r = 0
            for b in bs: r = r << 8 | b
            return wrap(r, next(iter(t[2][0]))[1])
        if t[1].startswith('try_from:') or n in ('from', 'into', 'clone', 'copied', 'cloned'): return self.num(t[2][-1])
        xs = [self.num(v) for v in t[2]]
        if None in xs: return None
        if len(xs) == 1: return {'Not': 1 - xs[0]}.get(n)
        if len(xs) != 2: return None
        a, b = xs; n = n.lower()
        if n in ('add', 'checked_add', 'unchecked_add'): return a + b
        if n == 'saturating_add': return min(a + b, BIG)
        if n == 'wrapping_add': return (a + b) & BIG
        if n in ('sub', 'checked_sub', 'unchecked_sub'): return a - b
        if n == 'saturating_sub': return max(a - b, 0)
        if n == 'wrapping_sub': return (a - b) & BIG
        if n in ('mul', 'checked_mul', 'unchecked_mul'): return a * b
        if n == 'saturating_mul': return min(a * b, BIG)
        if n == 'wrapping_mul': return (a * b) & BIG
        if b and n in ('div', 'checked_div', 'div_euclid'): return a // b
        if b and n in ('rem', 'checked_rem', 'rem_euclid'): return a % b
        if b and n == 'div_ceil': return -(-a // b)
        if n == 'min': return min(a, b)
        if n == 'max': return max(a, b)
        if n == 'shl' and 0 <= b < 64: return a << b
        if n == 'shr' and 0 <= b: return a >> b
        if n == 'bitand': return a & b
        if n == 'bitor': return a | b
        if n == 'bitxor': return a ^ b
        if n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'): return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[n])
        return None
    def cmp(self, o, a, b):
        x, y = self.num(a), self.num(b)
        if x is None or y is None: return None
        d = (x > y) - (x < y)
        if o == 'cmp': return d
        return {'Eq': d == 0, 'Ne': d != 0, 'Lt': d < 0, 'Le': d <= 0, 'Gt': d > 0, 'Ge': d >= 0}[o]

class Z:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        small = lambda a: a['adt'].startswith('smallsorts'); dood = lambda a: not a['adt'].startswith('smallsorts')
        self.RC, self.RS, self.RA, self.RI, self.RD, self.RW, self.RWI, self.RB, self.RSO = [C.adt(prog, n, small) for n in ('ReadCtxt', 'ReadScope', 'ReadArray', 'ReadArrayIter', 'ReadArrayDepIter', 'ReadArrayCow', 'ReadArrayCowIter', 'ReadBuf', 'ReadScopeOwned')]
        self.DC = C.adt(prog, 'ReadCtxt', dood); self.V = C.adt(prog, 'View', dood)
    def fn(self, name, small=True):
        fs = [f for f in self.prog.find(name) if ('smallsorts' in f.file) == small]
        return fs[0] if len(fs) == 1 else None
    def struct(self, a, **f):
        names = [x[0] for x in a['v'][0]['f']]
        if set(names) - set(f): raise Unknown('fields of %s are %s' % (a['adt'], names))
        return A.V(('agg', a['adt'], a['v'][0]['n'], tuple(f[n] for n in names)))
    def scope(self, base=S('base'), data=S('buf')): return self.struct(self.RS, base=base, data=data)
    def ctxt(self): return self.struct(self.RC, scope=self.scope(), offset=S('o'))
    def array(self): return self.struct(self.RA, scope=self.scope(), length=S('n'), stride=S('st'), args=A.V(A.UNIT))
    def get(self, v, adt, name):
        a = next(iter(v)) if len(v) == 1 else ('?',); names = [x[0] for x in adt['v'][0]['f']]
        if a[0] != 'agg' or a[1] != adt['adt'] or name not in names: raise Unknown(C.show(v)[:100])
        return a[3][names.index(name)]
    # ---- what the library calls on the way mean
    def model(self, env, log):
        sl = env.span
        def item(an, v, ty, st, checked):
            """reading an item of an unknown fixed-size type from a cursor"""
            ad = [a for a in v]
            if len(ad) != 1 or ad[0][0] != 'addr': raise Unknown('cursor ' + C.show(v)[:80])
            c = an.load_addr(ad[0], st); o = self.get(c, self.RC, 'offset'); d = self.get(self.get(c, self.RC, 'scope'), self.RS, 'data')
            sp, off, sz = sl(d), env.num(o), env.size(ty)
            if sp is None or off is None or sz is None: raise Unknown('cursor ' + C.show(c)[:100] + ' ' + ty)
            if off + sz > sp[2]:
                if checked: return A.V(('agg', A.RESULT, 'Err', (S('eof'),)))
                log.append('reads %d bytes at %d of a slice of %d' % (sz, off, sp[2]))
            at = A.V(('op', 'item', (S(ty), I(sp[1] + off), S(sp[0]))))
            nc = self.struct(self.RC, scope=self.get(c, self.RC, 'scope'), offset=A.V(('op', 'Add', (o, S('const:ReadUnchecked::SIZE', '<%s>' % ty)))))
            an.store_addr(ad[0], [], nc, st, False)
            return A.V(('agg', A.RESULT, 'Ok', (at,))) if checked else at
        def m(an, name, nn, vals, targs, st, site, f, bb, line):
            last = nn.split('::')[-1]
            if nn == 'ReadUnchecked::read_unchecked' and targs: return item(an, vals[0], targs[0].s, st, False)
            if nn in ('ReadBinaryDep::read_dep', 'ReadBinary::read') and targs: return item(an, vals[0], targs[0].s, st, True)
            if nn == 'ReadFixedSizeDep::size' and targs: return S('const:ReadUnchecked::SIZE', '<%s>' % targs[0].s)
            if nn == 'ReadFrom::read_from': return A.V(('op', 'read_from', (an.snap(vals[0], st),)))
            if an.local(name): return None
            s = [an.snap(v, st) for v in vals]
            if last == 'from_residual' and targs:
                a = next(iter(s[0])) if len(s[0]) == 1 else ('?',)
                if a[0] == 'agg' and a[1] == A.RESULT and a[2] == 'Err' and len(a[3][0]) == 1:
                    e = next(iter(a[3][0])); to = targs[0].s
                    if e[0] == 'agg' and to.startswith('std::result::Result<'):
                        to = to[:-1].split(', ')[-1].split('::')[-1]; k = e[1].split('::')[-1]
                        if to != k:
                            cs = [x for x in self.prog.find('<%s as From>::from' % to) if x.name.endswith('%s>>::from' % k)]
                            if len(cs) == 1:
                                r, _ = an.call_value(A.V(('fn', cs[0].name)), [a[3][0]], dict(st), site + ('from',), f, bb, line)
                                return A.V(('agg', A.RESULT, 'Err', (r,)))
            if last in ('eq', 'ne') and len(s) == 2 and all(len(x) == 1 and next(iter(x))[0] == 'agg' and next(iter(x))[1].endswith('Ordering') for x in s):
                return I(int((next(iter(s[0]))[2] == next(iter(s[1]))[2]) == (last == 'eq')))
            if last in ('checked_sub', 'checked_add', 'checked_mul') and len(s) == 2:
                t = ('op', {'checked_sub': 'Sub', 'checked_add': 'Add', 'checked_mul': 'Mul'}[last], (s[0], s[1])); x = env.ev(t)
                return None if x is None else A.V(A.NONE) if x < 0 or x > BIG else A.V(A.some(A.V(t)))
            if last in ('saturating_add', 'saturating_sub', 'saturating_mul', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'min', 'max', 'div_ceil') and len(s) == 2 and env.num(s[0]) is not None and env.num(s[1]) is not None:
                return A.V(('op', last, (s[0], s[1])))
            if last == 'size_of' and targs and targs[0].s in W: return I(W[targs[0].s] // 8)
            if last == 'is_empty' and len(s) == 1 and sl(s[0]): return I(int(sl(s[0])[2] == 0))
            if last == 'len' and len(s) == 1 and sl(s[0]): return A.V(('op', 'len', (s[0],)))
            if last in ('get', 'index', 'get_unchecked') and len(s) == 2 and sl(s[0]):
                sp, x = sl(s[0]), env.num(s[1])
                if x is not None:
                    b = A.V(('op', 'byte', (I(sp[1] + x),))); ok = x < sp[2]; what = 'byte %d' % x
                else:
                    r = env.rng(s[1], sp[2])
                    if r is None: return None
                    b = A.V(('op', 'index', (s[0], s[1]))); ok = r[0] <= r[1] <= sp[2]; what = 'range %d..%d' % r
                if last == 'get': return A.V(A.some(b)) if ok else A.V(A.NONE)
                if not ok:
                    if last == 'index':
                        an.why.append('index %s of a slice of %d' % (what, sp[2])); raise A.Diverge()
                    log.append('unchecked access to %s of a slice of %d' % (what, sp[2]))
                return b
            if last in ('split_at', 'split_at_checked') and len(s) == 2 and sl(s[0]):
                sp, x = sl(s[0]), env.num(s[1])
                if x is None: return None
                r = lambda k, *a: A.V(('op', 'index', (s[0], A.V(('agg', k, k, a)))))
                p = A.V(A.tup(r('RangeTo', s[1]), r('RangeFrom', s[1])))
                if last == 'split_at':
                    if x > sp[2]: an.why.append('split at %d of %d' % (x, sp[2])); raise A.Diverge()
                    return p
                return A.V(A.some(p)) if x <= sp[2] else A.V(A.NONE)
            if last in ('first', 'split_first') and len(s) == 1 and sl(s[0]):
                sp = sl(s[0])
                if not sp[2]: return A.V(A.NONE)
                b = A.V(('op', 'byte', (I(sp[1]),)))
                rest = A.V(('op', 'index', (s[0], A.V(('agg', 'RangeFrom', 'RangeFrom', (I(1),))))))
                return A.V(A.some(b if last == 'first' else A.V(A.tup(b, rest))))
            if last in ('try_into', 'try_from') and len(s) == 1 and sl(s[0]): return A.V(('agg', A.RESULT, 'Ok', (s[0],)))
            if last == 'from_be_bytes' and len(s) == 1:
                ty = nn.split('::')[-2].strip('<>').split(' ')[-1]
                a = next(iter(s[0])) if len(s[0]) == 1 else ('?',)
                if a[0] == 'agg' and a[1] == 'array': bs = list(a[3])
                elif sl(s[0]): sp = sl(s[0]); bs = [A.V(('op', 'byte', (I(sp[1] + i),))) for i in range(sp[2])] if sp[2] <= 16 else []
                else: return None
                if ty not in W: return None
                if len(bs) * 8 != W[ty]: an.why.append('%d bytes for a %s' % (len(bs), ty)); raise A.Diverge()
                return A.V(('op', 'be', tuple([S(ty)] + bs)))
            if last in ('copied', 'cloned') and len(s) == 1 and all(a[0] == 'agg' and a[1] == A.OPTION for a in s[0]): return s[0]
            if last == 'position' and len(s) == 2:
                a = next(iter(s[0])) if len(s[0]) == 1 else ('?',)
                sp = sl(a[2][0]) if a[0] == 'op' and a[1].split('::')[-1] == 'iter' else None
                if sp is None: raise Unknown('position in ' + C.show(s[0])[:80])
                for i in range(sp[2]):
                    r, _ = an.call_value(vals[1], [A.V(('op', 'byte', (I(sp[1] + i),)))], dict(st), site + (i,), f, bb, line)
                    x = env.num(r)
                    if x is None: raise Unknown('position test ' + C.show(r)[:80])
                    if x: return A.V(A.some(I(i)))
                return A.V(A.NONE)
            return None
        return m
    def call(self, f, args, env, me=None, more=None, applied=None):
        """(outcome, state left, accesses outside) of a call; outcome 'panic' when it never returns"""
        log = []; st = dict(more or {})
        if me is not None:
            st[('S', 0)] = me; args = [A.V(('addr', 'S', 0, ()))] + list(args)
        an = A.Analysis(self.prog, model=self.model(env, log))
        an.why = []; an.cmp = env.cmp; an.kept = None; an.arrays = False; an.lists = True; an.recur = 4; an.number = env.ev; an.dyn = True; an.keep_index = True; an.applied = applied
        def split(s, fr):
            out = []
            def go(k, v, d):
                if len(v) != 1 or d > 2: return
                a = next(iter(v)); x = env.ev(a)
                if x is not None: out.append((k, x))
                elif a[0] == 'agg' and a[1] != 'array':
                    for i, y in enumerate(a[3]): go(k + (i,), y, d + 1)
            for k, v in s.items():
                if k != 'G' and (k[0] == fr or k[0] == 'S'): go((str(k),), v, 0)
            return tuple(sorted(out))
        an.split = split
        def chk(t, fr, fn, s, bb, key):
            c = t[3]
            if c[0] == 'overflow':
                x, y = [env.num(an.snap(an.operand(o, fr, fn, s), s)) for o in c[2:4]]
                if x is None or y is None: return
                r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}.get(c[1])
                ty = an.operand_ty(c[2], fn) or an.operand_ty(c[3], fn) or 'usize'
                hi = (1 << W.get(ty, 64)) - 1
                if r is not None and not (0 <= r <= hi) and ty[0] != 'i':
                    an.why.append('%s of %d and %d overflows (line %s)' % (c[1], x, y, t[5])); raise A.Diverge()
            elif c[0] == 'bounds':
                n, i = [env.num(an.snap(an.operand(o, fr, fn, s), s)) for o in c[1:3]]
                if n is not None and i is not None and i >= n: an.why.append('index %d of %d' % (i, n)); raise A.Diverge()
            elif c[0] in ('div0', 'rem0'):
                x = env.num(an.snap(an.operand(t[1], fr, fn, s), s))
                if x is not None and x != int(t[2]): an.why.append('division by zero'); raise A.Diverge()
        an.on_assert = chk
        try: r = an.run(f, args, st)
        except A.Diverge: r = None
        self.rep.analysed_fns(an.inlined | {f.name})
        why = '; '.join(an.why[:2])
        if r is None: return ('panic', why), None, log
        return r[0], (r[1].get(('S', 0)) if len(r) > 1 and r[1] else None), log
    # ---- reading results
    def canon(self, v, env):
        if isinstance(v, tuple): return v
        if len(v) != 1: raise Unknown(C.show(v)[:140])
        a = next(iter(v))
        if a[0] == 'agg':
            k = a[1]
            if k == A.RESULT: return ('Ok', self.canon(a[3][0], env)) if a[2] == 'Ok' else ('Err',)
            if k == A.OPTION: return ('Some', self.canon(a[3][0], env)) if a[2] == 'Some' else ('None',)
            if k == 'tuple': return tuple(['tuple'] + [self.canon(x, env) for x in a[3]])
            if k == 'array' and a[3]: return tuple(['list'] + [self.canon(x, env) for x in a[3]])
            if k == 'array': return ('slice',) + EMPTY
            g = lambda adt, n: self.get(v, adt, n)
            if k == self.RS['adt']: return ('scope', env.num(g(self.RS, 'base')), self.slice(g(self.RS, 'data'), env))
            if k == self.RC['adt']: return ('ctxt', self.canon(g(self.RC, 'scope'), env), env.num(g(self.RC, 'offset')))
            if k == self.RA['adt']: return ('array', self.canon(g(self.RA, 'scope'), env), env.num(g(self.RA, 'length')), env.num(g(self.RA, 'stride')))
            if k == self.DC['adt']: return ('cur', self.slice(g(self.DC, 'input'), env), env.num(g(self.DC, 'offset')))
            if k == self.V['adt']: return ('view', self.slice(g(self.V, 'buffer'), env), env.num(g(self.V, 'start_offset')))
        if a[0] == 'op' and a[1] == 'item': return ('item', next(iter(a[2][0]))[1], env.num(a[2][1]))
        if a[0] == 'op' and a[1] == 'read_from': return ('from', self.canon(a[2][0], env))
        if env.span(v): return ('slice',) + env.span(v)
        x = env.num(v)
        if x is None: raise Unknown(C.show(v)[:140])
        return x
    def slice(self, v, env):
        s = env.span(v)
        if s is None: raise Unknown('slice ' + C.show(v)[:120])
        return EMPTY if s[2] == 0 else s
    def check(self, key, f, args, env, want, me=None, left=None, more=None, what='', applied=None):
        """want: canonical outcome, or a function of the canonical outcome; left: canonical state afterwards"""
        if f is None: return
        try:
            r, s, log = self.call(f, args, env, me, more, applied)
            got = self.canon(r, env)
            now = self.canon(s, env) if left is not None and s is not None else None
        except (Unknown, RuntimeError) as e:
            self.rep.known(False, key, 'not understood: %s' % e, '%s %s' % (f.loc(), f.name)); return
        where = '%s %s' % (f.loc(), f.name)
        ok = want(got) if callable(want) else got == want
        msg = '%s: ' % what
        if log: self.rep.ob(False, key, msg + log[0], where); return
        if not ok: self.rep.ob(False, key, msg + 'yields %s, it should yield %s' % (got, '?' if callable(want) else want), where); return
        if left is not None and (got == ('panic',) or now != left): self.rep.ob(False, key, msg + 'leaves %s, it should leave %s' % (now, left), where); return
        self.rep.ob(True, key, msg, where)

    def search(self, key, f, args, env, want, applied, what):
        if f is None: return
        where = '%s %s' % (f.loc(), f.name)
        try:
            r, s, log = self.call(f, args, env, applied=applied)
            if isinstance(r, tuple): got = r
            else:
                a = next(iter(r)) if len(r) == 1 else ('?',)
                if a[0] != 'agg' or a[1] != A.RESULT: raise Unknown(C.show(r)[:120])
                x = env.num(a[3][0])
                if x is None: raise Unknown(C.show(r)[:120])
                got = ('Ok' if a[2] == 'Ok' else 'ErrAt', x)
        except (Unknown, RuntimeError) as e: self.rep.known(False, key, 'not understood: %s' % e, where); return
        self.rep.ob(got == want and not log, key, '%s yields %s, it should yield %s %s' % (what, got, want, log[:1]), where)
    def iterate(self, key, mk, nx, hint, me, env, items, what):
        if mk is None or nx is None: return
        where = '%s %s' % (nx.loc(), nx.name)
        try:
            it, _, _ = self.call(mk, [me], env)
            if isinstance(it, tuple): raise Unknown('no iterator: %s' % (it,))
            for i, want in enumerate([('Some', x) for x in items] + [('None',), ('None',)]):
                if hint:
                    h, _, _ = self.call(hint, [], env, it); k = max(len(items) - i, 0); h = self.canon(h, env)
                    self.rep.ob(h == ('tuple', k, ('Some', k)), key + ':hint', 'after %d steps over %s the size hint is %s, %d items remain' % (i, what, h, k), where)
                r, s, log = self.call(nx, [], env, it); got = self.canon(r, env)
                self.rep.ob(got == want and not log, key, 'step %d over %s yields %s, it should yield %s %s' % (i, what, got, want, log[:1]), where)
                if s is None: return
                it = s
        except (Unknown, RuntimeError) as e: self.rep.known(False, key, 'not understood: %s' % e, where)

FILLS = [lambda i: (i * 37 + 131) % 256, lambda i: 255 - (i * 37 + 131) % 256, lambda i: 0x80, lambda i: 0x7f, lambda i: 0xff, lambda i: 0]
STATES = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (4, 0), (4, 2), (4, 4), (9, 0), (9, 1), (9, 2), (9, 5), (9, 8), (9, 9), (20, 3)]
def sub(root, a, n): return EMPTY if n == 0 else (root, a, n)
def amounts(left): return sorted({x for x in (0, 1, 2, left - 1, left, left + 1, 1 << 32, 1 << 61, 1 << 63, BIG - left, BIG - 1, BIG) if x >= 0})

def numbers(z, prog, rep):
    """single numbers"""
    NUM = [('u8', 8, 0), ('i8', 8, 1), ('u16be', 16, 0), ('i16be', 16, 1), ('u32be', 32, 0), ('i32be', 32, 1), ('u64be', 64, 0), ('i64be', 64, 1)]
    n = 0
    for nm, w, sg in NUM:
        f = z.fn('ReadCtxt::read_' + nm); k = w // 8; ty = ('i' if sg else 'u') + str(w)
        for L, o in STATES:
            for fi, fill in enumerate(FILLS):
                env = Env(prog, {'o': o, 'base': 7, 'len:buf': L}, fill=fill)
                ok = o + k <= L; v = 0
                for i in range(k): v = v << 8 | fill(o + i)
                z.check('read:%s:%d/%d:%d' % (nm, o, L, fi), f, [], env, ('Ok', wrap(v, ty)) if ok else ('Err',), z.ctxt(), ('ctxt', ('scope', 7, sub('buf', 0, L)), o + k if ok else o), what='reading a %s at %d of %d' % (nm, o, L)); n += 1
                if not ok: break
    for nm, k in (('byte', 1), ('u16be', 2), ('u32be', 4), ('u64be', 8)):
        f = z.fn('ReadCtxt::read_' + nm, False)
        for L, o in STATES:
            for fi, fill in enumerate(FILLS):
                env = Env(prog, {'o': o, 'len:buf': L}, fill=fill); v = 0
                for i in range(k): v = v << 8 | fill(o + i)
                me = z.struct(z.DC, input=S('buf'), offset=S('o'))
                z.check('cursor:%s:%d/%d:%d' % (nm, o, L, fi), f, [me], env, ('Some', ('tuple', v, ('cur', sub('buf', 0, L), o + k))) if o + k <= L else ('None',), what='reading a %s at %d of %d' % (nm, o, L)); n += 1
                if o + k > L: break
    f = z.fn('View::read_u16be', False)
    for L, o in STATES:
        if o: continue
        for fi, fill in enumerate(FILLS):
            env = Env(prog, {'so': 5, 'len:buf': L}, fill=fill)
            z.check('view:u16be:%d:%d' % (L, fi), f, [z.struct(z.V, buffer=S('buf'), start_offset=S('so'))], env, ('Ok', fill(0) << 8 | fill(1)) if L >= 2 else ('Err',), what='reading a u16be from a view of %d' % L); n += 1
    # implementations of the unchecked read
    impls = [f for nme, f in prog.fns.items() if nme.endswith('>::read_unchecked') and ' as ' in nme]
    m = 0
    for f in impls:
        ty = f.name.split('|', 1)[-1][1:].rsplit(' as ', 1)[0]
        short = ty.split('::')[-1]
        if ty.startswith('('):
            ps = [p.strip() for p in ty.strip('()').split(',')]
            sizes = {p: s for p, s in zip(ps, (3, 1, 4, 2))}
            cf = prog.fns.get(f.name.replace('>::read_unchecked', '>::SIZE'))
            env = Env(prog, {'o': 2, 'base': 0, 'len:buf': 40}, sizes)
            if cf: z.check('size:%s' % short, cf, [], env, sum(sizes.values()), what='the size of %s' % ty)
            for slack in (0, 5):
                env = Env(prog, {'o': 2, 'base': 0, 'len:buf': 2 + sum(sizes.values()) + slack}, sizes)
                at, want = 2, ['tuple']
                for p in ps: want.append(('item', p, at)); at += sizes[p]
                z.check('item:%s:%d' % (ty, slack), f, [], env, tuple(want), z.ctxt(), ('ctxt', ('scope', 0, ('buf', 0, env.n['len:buf'])), at), what='reading a %s' % ty); m += 1
            continue
        if short == 'T':
            env = Env(prog, {'o': 2, 'base': 0, 'len:buf': 5}, {'<T as binary::read::ReadFrom>::ReadType': 3, 'T': 3})
            for t in ('T as binary::read::ReadFrom>::ReadType',): env.sizes[t] = 3
            cf = prog.fns.get(f.name.replace('>::read_unchecked', '>::SIZE'))
            if cf: z.check('size:from', cf, [], env, 3, what='the size of a derived type')
            z.check('item:from', f, [], env, lambda g: isinstance(g, tuple) and g[0] == 'from' and g[1][0] == 'item' and g[1][2] == 2, z.ctxt(), ('ctxt', ('scope', 0, ('buf', 0, 5)), 5), what='reading a derived type'); m += 1
            continue
        env0 = Env(prog, {}); k = env0.size(ty)
        spec = {'U8': 'u8', 'I8': 'i8', 'U16Be': 'u16', 'I16Be': 'i16', 'U24Be': 'u24', 'U32Be': 'u32', 'I32Be': 'i32', 'U64Be': 'u64', 'I64Be': 'i64'}.get(short)
        if k is None: rep.known(False, 'item:%s' % short, 'size not known', f.file); continue
        for slack in (0, 3):
            for fi, fill in enumerate(FILLS):
                env = Env(prog, {'o': 2, 'base': 0, 'len:buf': 2 + k + slack}, fill=fill); v = 0
                kk = int(spec[1:]) // 8 if spec else k
                for i in range(kk): v = v << 8 | fill(2 + i)
                z.check('item:%s:%d:%d' % (short, slack, fi), f, [], env, wrap(v, spec) if spec else (lambda g: True), z.ctxt(), ('ctxt', ('scope', 0, ('buf', 0, 2 + k + slack)), 2 + k), what='reading a %s (declared size %d)' % (short, k)); m += 1
    # the checked reads of any such type
    for nme in ('<T as ReadBinary>::read', '<T as ReadBinaryDep>::read_dep'):
        f = z.fn(nme)
        for L, o in STATES:
            for k in (1, 2, 8):
                env = Env(prog, {'o': o, 'base': 1, 'len:buf': L}, {'T': k}); ok = o + k <= L
                z.check('checked:%s:%d/%d:%d' % (nme.split('::')[-1], o, L, k), f, [A.V(A.UNIT)] if nme.endswith('dep') else [], env, ('Ok', ('item', 'T', o)) if ok else ('Err',), z.ctxt(), ('ctxt', ('scope', 1, sub('buf', 0, L)), o + k if ok else o), what='a checked read of %d bytes at %d of %d' % (k, o, L)); m += 1
    rep.floor(n, 'number reads', 400); rep.floor(m, 'fixed-size reads', 100)

def slices(z, prog, rep):
    """sub-slices and positions"""
    n = 0
    dc = z.struct(z.DC, input=S('buf'), offset=S('o')); vw = z.struct(z.V, buffer=S('buf'), start_offset=S('so'))
    for L, o in STATES:
        whole = sub('buf', 0, L); E = lambda **k: Env(prog, dict({'o': o, 'base': 7, 'so': 5, 'len:buf': L}, **k), fill=lambda i: i * 16 % 256)
        z.check('cursor:remaining:%d/%d' % (o, L), z.fn('ReadCtxt::remaining', False), [dc], E(), lambda g: g[0] == 'slice' and sub(*g[1:]) == sub('buf', o, L - o), what='the remainder at %d of %d' % (o, L))
        z.check('cursor:rest:%d/%d' % (o, L), z.fn('ReadCtxt::skip_remainder', False), [dc], E(), ('cur', whole, L), what='skipping the remainder at %d of %d' % (o, L))
        z.check('ctxt:avail:%d/%d' % (o, L), z.fn('ReadCtxt::bytes_available'), [z.ctxt()], E(), int(o < L), what='whether bytes are left at %d of %d' % (o, L))
        z.check('ctxt:scope:%d/%d' % (o, L), z.fn('ReadCtxt::scope'), [z.ctxt()], E(), ('scope', 7 + o, sub('buf', o, L - o)), what='the scope left at %d of %d' % (o, L)); n += 4
        for x in amounts(L - o):
            e = E(a=x); ok = o + x <= L
            z.check('cursor:split:%d/%d:%d' % (o, L, x), z.fn('ReadCtxt::split_at', False), [dc, S('a')], e, ('Some', ('tuple', ('cur', sub('buf', 0, o + x), o), ('cur', whole, o + x))) if ok else ('None',), what='splitting off %d at %d of %d' % (x, o, L))
            z.check('ctxt:read_scope:%d/%d:%d' % (o, L, x), z.fn('ReadCtxt::read_scope'), [S('a')], e, ('Ok', ('scope', 7 + o, sub('buf', o, x))) if ok else ('Err',), z.ctxt(), ('ctxt', ('scope', 7, whole), o + x if ok else o), what='taking a scope of %d at %d of %d' % (x, o, L))
            z.check('ctxt:read_slice:%d/%d:%d' % (o, L, x), z.fn('ReadCtxt::read_slice'), [S('a')], e, (lambda g: g[0] == 'Ok' and g[1][0] == 'slice' and sub(*g[1][1:]) == sub('buf', o, x)) if ok else ('Err',), z.ctxt(), ('ctxt', ('scope', 7, whole), o + x if ok else o), what='taking %d bytes at %d of %d' % (x, o, L)); n += 3
        for x in sorted(set(amounts(L)) | {o}):
            e = E(a=x)
            z.check('cursor:seek:%d/%d:%d' % (o, L, x), z.fn('ReadCtxt::seek_to', False), [dc, S('a')], e, ('Some', ('cur', whole, x)) if x <= L else ('None',), what='seeking to %d of %d' % (x, L)); n += 1
            if o: continue
            b = min(7 + x, BIG)
            z.check('scope:offset:%d:%d' % (L, x), z.fn('ReadScope::offset'), [z.scope(), S('a')], e, lambda g: g[0] == 'scope' and g[2] == sub('buf', x, max(L - x, 0)) and (x > L or g[1] == b), what='the scope at offset %d of %d' % (x, L))
            z.check('view:offset:%d:%d' % (L, x), z.fn('View::offset', False), [vw, S('a')], e, ('Ok', ('view', sub('buf', x, L - x), 5 + x)) if x <= L else ('Err',), what='the view at offset %d of %d' % (x, L))
            z.check('view:read_len:%d:%d' % (L, x), z.fn('View::read_len', False), [vw, S('a')], e, (lambda g: g[0] == 'Ok' and g[1][0] == 'slice' and sub(*g[1][1:]) == sub('buf', 0, x)) if x <= L else ('Err',), what='%d bytes of a view of %d' % (x, L)); n += 3
            for y in amounts(max(L - x, 0)):
                e2 = E(a=x, b=y)
                inside = x + y <= L
                want = (lambda g: g[0] == 'Ok' and g[1][0] == 'scope' and g[1][2] == sub('buf', x, y) and g[1][1] == 7 + x) if inside else (lambda g: g[0] == 'Err') if y else (lambda g: g[0] in ('Ok', 'Err') and (g[0] == 'Err' or g[1][2] == EMPTY))
                z.check('scope:offset_length:%d:%d:%d' % (L, x, y), z.fn('ReadScope::offset_length'), [z.scope(), S('a'), S('b')], e2, want, what='the scope of %d at offset %d of %d' % (y, x, L)); n += 1
        for nib in range(16):
            e = E(a=nib)
            at = next((i for i in range(o, L) if (i * 16 % 256) >> 4 == nib or (i * 16 % 256) & 15 == nib), None)
            if nib and nib not in (o, L, L - 1, L + 1, 15): continue
            z.check('ctxt:nibble:%d/%d:%d' % (o, L, nib), z.fn('ReadCtxt::read_until_nibble'), [S('a')], e, (lambda g: g[0] == 'Ok' and g[1][1:] == ('buf', o, at + 1 - o)) if at is not None else ('Err',), z.ctxt(), ('ctxt', ('scope', 7, whole), at + 1 if at is not None else o), what='reading up to nibble %d at %d of %d' % (nib, o, L)); n += 1
    e = Env(prog, {'len:buf': 9, 'b': 3})
    z.check('new:cursor', z.fn('ReadCtxt::new', False), [S('buf')], e, ('cur', ('buf', 0, 9), 0), what='a new cursor')
    z.check('new:view', z.fn('View::new', False), [S('buf')], e, ('view', ('buf', 0, 9), 0), what='a new view')
    z.check('new:scope', z.fn('ReadScope::new'), [S('buf')], e, ('scope', 0, ('buf', 0, 9)), what='a new scope')
    z.check('new:parts', z.fn('ReadScope::from_parts'), [S('buf'), S('b')], e, ('scope', 3, ('buf', 0, 9)), what='a scope with a base')
    z.check('new:ctxt', z.fn('ReadScope::ctxt'), [z.scope(S('b'))], e, ('ctxt', ('scope', 3, ('buf', 0, 9)), 0), what='a cursor over a scope')
    z.check('new:data', z.fn('ReadScope::data'), [z.scope(S('b'))], e, ('slice', 'buf', 0, 9), what='the data of a scope')
    for b in (0, 1):
        for nm in ('check', 'check_index', 'check_version'):
            z.check('%s:%d' % (nm, b), z.fn('ReadCtxt::' + nm), [z.struct(z.RC, scope=z.scope(), offset=I(0)), I(b)], Env(prog, {'len:buf': 1, 'base': 0}), (lambda g: g[0] == 'Ok') if b else ('Err',), what=nm)
    rep.floor(n, 'slice and position operations', 1200)

def arrays(z, prog, rep):
    """arrays of fixed-size items"""
    n = 0
    for L, o in STATES:
        whole = sub('buf', 0, L)
        for sz in (1, 2, 3, 8):
            k = (L - o) // sz
            for c in sorted({x for x in (0, 1, k - 1, k, k + 1, 1 << 32, (1 << 64) // sz, (1 << 64) // sz + 1, BIG // sz, BIG) if 0 <= x <= BIG}):
                e = Env(prog, {'o': o, 'base': 7, 'len:buf': L, 'a': c, 'so': 5}, {'T': sz}); ok = o + c * sz <= L
                want = ('Ok', ('array', ('scope', 7 + o, sub('buf', o, c * sz)), c, sz)) if ok else ('Err',)
                left = ('ctxt', ('scope', 7, whole), o + c * sz if ok else o); t = '%d items of %d at %d of %d' % (c, sz, o, L)
                z.check('array:read:%d/%d:%d*%d' % (o, L, c, sz), z.fn('ReadCtxt::read_array'), [S('a')], e, want, z.ctxt(), left, what='an array of ' + t)
                z.check('array:dep:%d/%d:%d*%d' % (o, L, c, sz), z.fn('ReadCtxt::read_array_dep'), [S('a'), A.V(A.UNIT)], e, want, z.ctxt(), left, what='an array of ' + t)
                m = min(c, k)
                z.check('array:upto:%d/%d:%d*%d' % (o, L, c, sz), z.fn('ReadCtxt::read_array_upto_hack'), [S('a')], e, ('Ok', ('array', ('scope', 7 + o, sub('buf', o, m * sz)), m, sz)), z.ctxt(), ('ctxt', ('scope', 7, whole), o + m * sz), what='an array of up to ' + t); n += 3
                if o == 0:
                    vw = z.struct(z.V, buffer=S('buf'), start_offset=S('so'))
                    z.check('array:view:%d:%d*%d' % (L, c, sz), z.fn('View::as_read_array', False), [vw, S('a')], e, ('Ok', ('array', ('scope', 5, sub('buf', 0, c * sz)), c, sz)) if c * sz <= L else ('Err',), what='from a view, an array of ' + t); n += 1
                for sd in sorted({1, sz - 1, sz, sz + 2, 1 << 62, BIG}):
                    e2 = Env(prog, {'o': o, 'base': 7, 'len:buf': L, 'a': c, 's': sd}, {'T': sz}); ok = sz <= sd and o + c * sd <= L
                    z.check('array:stride:%d/%d:%d*%d/%d' % (o, L, c, sz, sd), z.fn('ReadCtxt::read_array_stride'), [S('a'), S('s')], e2, ('Ok', ('array', ('scope', 7 + o, sub('buf', o, c * sd)), c, sd)) if ok else ('Err',), z.ctxt(), ('ctxt', ('scope', 7, whole), o + c * sd if ok else o), what='with stride %d, an array of ' % sd + t); n += 1
    for nm, sz in (('u8', 1), ('u16be', 2), ('u32be', 4), ('u64be', 8)):
        for L in (0, 7, 8, 16):
            for c in sorted({0, 1, L // sz, L // sz + 1, 1 << 61, 1 << 63, BIG}):
                e = Env(prog, {'len:buf': L, 'a': c, 'so': 5})
                z.check('array:view_%s:%d:%d' % (nm, L, c), z.fn('View::read_array_' + nm, False), [z.struct(z.V, buffer=S('buf'), start_offset=S('so')), S('a')], e, ('Ok', ('array', ('scope', 5, sub('buf', 0, c * sz)), c, sz)) if c * sz <= L else ('Err',), what='%d %s from a view of %d' % (c, nm, L)); n += 1
    def applied(target, st):
        def ap(an, a, args, s):
            x = next(iter(args[0])) if args and len(args[0]) == 1 else ('?',)
            if x[0] == 'agg' and x[1] == 'tuple' and len(x[3]) == 1: x = next(iter(x[3][0]))
            if x[0] != 'op' or x[1] != 'item': return None
            i = next(iter(x[2][1]))[1] // st * 2
            return A.V(('agg', 'std::cmp::Ordering', 'Less' if i < target else 'Greater' if i > target else 'Equal', ()))
        return ap
    for c in (0, 1, 2, 3, 5):
        for sz in (1, 3):
            for sd in (sz, sz + 2):
                e = Env(prog, {'n': c, 'st': sd, 'base': 7, 'len:buf': c * sd}, {'T': sz}); t = 'an array of %d items of %d with stride %d' % (c, sz, sd); kk = '%d*%d/%d' % (c, sz, sd)
                it = lambda i: ('item', 'T', i * sd); arr = z.array()
                z.check('len:' + kk, z.fn('ReadArray::len'), [arr], e, c, what='the length of ' + t)
                z.check('empty:' + kk, z.fn('ReadArray::is_empty'), [arr], e, int(c == 0), what='whether empty: ' + t)
                z.check('last:' + kk, z.fn('ReadArray::last'), [arr], e, ('Some', it(c - 1)) if c else ('None',), what='the last item of ' + t); n += 3
                cow = A.V(('agg', z.RW['adt'], 'Borrowed', (arr,)))
                for i in sorted({0, 1, c - 1, c, c + 1, 1 << 62, BIG} - {-1}):
                    e2 = Env(prog, dict(e.n, i=i), e.sizes); u = 'item %d of ' % i + t
                    z.check('item:%s[%d]' % (kk, i), z.fn('ReadArray::get_item'), [arr, S('i')], e2, ('Some', it(i)) if i < c else ('None',), what=u)
                    z.check('read_item:%s[%d]' % (kk, i), z.fn('ReadArray::read_item'), [arr, S('i')], e2, ('Ok', it(i)) if i < c else ('Err',), what='reading ' + u)
                    z.check('check:%s[%d]' % (kk, i), z.fn('<ReadArray as CheckIndex>::check_index'), [arr, S('i')], e2, (lambda g: g[0] == 'Ok') if i < c else ('Err',), what='checking ' + u)
                    z.check('cow:item:%s[%d]' % (kk, i), z.fn('ReadArrayCow::get_item'), [cow, S('i')], e2, ('Some', it(i)) if i < c else ('None',), what=u)
                    z.check('cow:read:%s[%d]' % (kk, i), z.fn('ReadArrayCow::read_item'), [cow, S('i')], e2, ('Ok', it(i)) if i < c else ('Err',), what='reading ' + u); n += 5
                z.check('cow:len:' + kk, z.fn('ReadArrayCow::len'), [cow], e, c, what='the length of ' + t)
                items = tuple(it(i) for i in range(c))
                z.check('vec:' + kk, z.fn('ReadArray::to_vec'), [arr], e, ('list',) + items if c else ('slice',) + EMPTY, what='the items of ' + t)
                z.check('read_vec:' + kk, z.fn('ReadArray::read_to_vec'), [arr], e, ('Ok', ('list',) + items if c else ('slice',) + EMPTY), what='reading the items of ' + t); n += 3
                for target in range(-1, 2 * c):
                    w = ('Ok', target // 2) if target >= 0 and target % 2 == 0 else ('ErrAt', (target + 1) // 2)
                    z.search('search:%s:%d' % (kk, target), z.fn('ReadArray::binary_search_by'), [z.struct(z.RA, scope=z.scope(), length=I(c), stride=S('st'), args=A.V(A.UNIT)), S('F')], e, w, applied(target, sd), 'searching ' + t); n += 1
                for nm, mk, nx, hint, wrapd in (('iter', 'ReadArray::iter', '<ReadArrayIter as Iterator>::next', '<ReadArrayIter as Iterator>::size_hint', 0), ('iter_res', 'ReadArray::iter_res', '<ReadArrayDepIter as Iterator>::next', '<ReadArrayDepIter as Iterator>::size_hint', 1), ('into', '<&ReadArray as IntoIterator>::into_iter', '<ReadArrayIter as Iterator>::next', '<ReadArrayIter as Iterator>::size_hint', 0), ('cow', 'ReadArrayCow::iter', '<ReadArrayCowIter as Iterator>::next', '<ReadArrayCowIter as Iterator>::size_hint', 0)):
                    z.iterate('%s:%s' % (nm, kk), z.fn(mk), z.fn(nx), z.fn(hint), cow if nm == 'cow' else arr, e, [('Ok', it(i)) if wrapd else it(i) for i in range(c)], t); n += c + 1
    # an array that owns its items
    own = A.V(('agg', z.RW['adt'], 'Owned', (A.V(('agg', 'array', None, tuple(S('x%d' % i) for i in range(3)))),)))
    for i in range(5):
        e = Env(prog, {'x0': 100, 'x1': 101, 'x2': 102})
        z.check('owned:item:%d' % i, z.fn('ReadArrayCow::get_item'), [own, I(i)], e, ('Some', 100 + i) if i < 3 else ('None',), what='item %d of an owned array of 3' % i)
        z.check('owned:read:%d' % i, z.fn('ReadArrayCow::read_item'), [own, I(i)], e, ('Ok', 100 + i) if i < 3 else ('Err',), what='reading item %d of an owned array of 3' % i)
    z.check('owned:len', z.fn('ReadArrayCow::len'), [own], e, 3, what='the length of an owned array of 3')
    rep.floor(n, 'array operations', 3000)

def run(prog, rep, tier):
    z = Z(prog, rep)
    if not all((z.RC, z.RS, z.RA, z.RI, z.RD, z.RW, z.RWI, z.DC, z.V)): raise RuntimeError('reader types not found')
    numbers(z, prog, rep)
    slices(z, prog, rep)
    arrays(z, prog, rep)
