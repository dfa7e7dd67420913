"""The parser behind generated code never reads outside its slice and returns to its checkpoints."""
import re
import absint as A, common as C
CRATES = ['doodle']
RULE = ('Each operation of the parser runtime is analysed abstractly on every kind of state (byte or bit position; a stack of open slices, peeks, alternatives and negative lookaheads; buffer start) and every ordering of '
        'position, amount, slice end and buffer end: its result, the position it leaves and the stack it leaves must be those the operation stands for, and it must fail exactly when it would pass the innermost limit.')
S = C.sym; I = lambda n: A.V(('int', n))
BIG = (1 << 64) - 1

def ev(t, env):
    """number a term stands for under an ordering representative"""
    if t[0] == 'int': return t[1]
    if t[0] == 'sym': return env.get('.'.join((t[1] if isinstance(t[1], str) else '?',) + t[2]))
    if t[0] != 'op': return None
    n = t[1].split('::')[-1]
    if n.startswith('ovf:'): n = n[4:]
    if n.startswith('cast:'): n = 'cast'
    if t[1].startswith('try_from:') or n == 'cast': return evv(t[2][0], env)
    if n == 'len':
        k = C.show(t[2][0]); return env.get('len:' + k)
    xs = [evv(v, env) for v in t[2]]
    if None in xs: return None
    if len(xs) == 1: return {'Not': 1 - xs[0]}.get(n)
    if len(xs) != 2: return None
    a, b = xs
    n = n.lower()
    if n in ('add', 'wrapping_add', 'unchecked_add', 'checked_add'): return a + b
    if n == 'saturating_add': return min(a + b, BIG)
    if n in ('sub', 'checked_sub', 'wrapping_sub', 'abs_diff'): return a - b if n != 'abs_diff' else abs(a - b)
    if n == 'saturating_sub': return max(a - b, 0)
    if n in ('mul', 'checked_mul', 'saturating_mul'): return a * b
    if b and n in ('div', 'div_floor', 'checked_div', 'div_euclid'): return a // b
    if b and n in ('rem', 'rem_euclid', 'checked_rem'): return a % b
    if b and n == 'div_ceil': return -(-a // b)
    if b and n == 'next_multiple_of': return -(-a // b) * b
    if n == 'is_multiple_of': return int(b != 0 and a % b == 0)
    if n == 'min': return min(a, b)
    if n == 'max': return max(a, b)
    if n == 'shl' and b < 64: return a << b
    if n == 'shr': return a >> b
    if n == 'bitand': return a & b
    if n == 'bitor': return a | b
    if n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'): return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[n])
    return None
def evv(v, env): return ev(next(iter(v)), env) if len(v) == 1 else None

def oracle(env):
    def cmp(o, a, b):
        x, y = evv(a, env), evv(b, env)
        if x is None or y is None: return None
        d = (x > y) - (x < y)
        if o == 'cmp': return d
        return {'Eq': d == 0, 'Ne': d != 0, 'Lt': d < 0, 'Le': d <= 0, 'Gt': d > 0, 'Ge': d >= 0}[o]
    return cmp

class Unknown(Exception): pass

class X:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.n = prog, rep, 0
        self.O, self.L, self.P, self.V, self.B, self.K = [C.adt(prog, n, lambda a: '::parser::' in a['adt']) for n in ('ByteOffset', 'Lens', 'Parser', 'View', 'BufferOffset', 'ViewStack')]
        self.pc = {}
    def ok(self): return all((self.O, self.L, self.P, self.V, self.B, self.K))
    def partial(self, ty):
        """the crate's own partial_cmp for a type"""
        k = ty.replace('&', '').split('<')[0].split('::')[-1]
        if k not in self.pc:
            fs = self.prog.find('<%s as PartialOrd>::partial_cmp' % k)
            self.pc[k] = fs[0].name if len(fs) == 1 else None
        return self.pc[k]
    # ---- values
    def off(self, o):
        """('B', term) or ('b', start, bits)"""
        return C.variant_value(self.O, 'Bytes', fields={'0': o[1]}) if o[0] == 'B' else C.variant_value(self.O, 'Bits', fields={'starting_byte': o[1], 'bits_advanced': o[2]})
    def lens(self, l):
        k = l[0]
        if k == 'Slice': return C.variant_value(self.L, k, fields={'endpoint': self.off(l[1])})
        if k == 'Seek': return C.variant_value(self.L, k, fields={'is_transparent': I(0), 'checkpoint': self.off(l[1])})
        return C.variant_value(self.L, k, fields={'checkpoint': self.off(l[1])})
    def struct(self, a, **f):
        names = [x[0] for x in a['v'][0]['f']]
        if set(names) != set(f): raise Unknown('fields of %s are %s' % (a['adt'], names))
        return A.V(('agg', a['adt'], a['v'][0]['n'], tuple(f[n] for n in names)))
    def parser(self, cur, stack):
        v = self.struct(self.V, buffer=S('buf'), start_offset=S('so'))
        b = self.struct(self.B, current_offset=self.off(cur), view_stack=self.struct(self.K, stack=A.V(('agg', 'array', None, tuple(self.lens(l) for l in stack)))), max_offset=self.off(('B', S('n'))))
        return self.struct(self.P, buffer=v, offset=b)
    # ---- reading back
    def one(self, v):
        if v is None or len(v) != 1: raise Unknown(C.show(v)[:120])
        return next(iter(v))
    def rd(self, v, env):
        """offset value under env"""
        a = self.one(v)
        if a[0] != 'agg' or a[1] != self.O['adt']: raise Unknown(C.show(v)[:120])
        xs = tuple(evv(x, env) for x in a[3])
        if None in xs: raise Unknown(C.show(v)[:120])
        if a[2] == 'Bytes': return ('B', xs[0])
        names = [x[0] for x in next(x for x in self.O['v'] if x['n'] == 'Bits')['f']]
        d = dict(zip(names, xs)); return ('b', d['starting_byte'], d['bits_advanced'])
    def field(self, v, adt, name):
        a = self.one(v); names = [x[0] for x in adt['v'][0]['f']]
        if a[0] != 'agg' or name not in names: raise Unknown(C.show(v)[:120])
        return a[3][names.index(name)]
    def state(self, v, env):
        b = self.field(v, self.P, 'offset')
        st = self.one(self.field(self.field(b, self.B, 'view_stack'), self.K, 'stack'))
        if st[0] != 'agg' or st[1] != 'array': raise Unknown('stack ' + C.show(A.V(st))[:120])
        out = []
        for l in st[3]:
            a = self.one(l)
            if a[0] != 'agg' or a[1] != self.L['adt']: raise Unknown('context ' + C.show(l)[:120])
            names = [x[0] for x in next(x for x in self.L['v'] if x['n'] == a[2])['f']]
            d = dict(zip(names, a[3])); out.append((a[2], self.rd(d.get('endpoint', d.get('checkpoint')), env)))
        mx = self.rd(self.field(b, self.B, 'max_offset'), env)
        vw = self.field(v, self.P, 'buffer')
        if C.show(vw) != C.show(self.struct(self.V, buffer=S('buf'), start_offset=S('so'))) or mx != ('B', env['n']): raise Unknown('buffer changed')
        return self.rd(self.field(b, self.B, 'current_offset'), env), out
    # ---- runs
    def model(self, env):
        def m(an, name, nn, vals, targs, st, site, f, bb, line):
            last = nn.split('::')[-1]
            if last in ('lt', 'le', 'gt', 'ge') and len(vals) == 2 and targs and self.partial(targs[0].s):
                r, s = an.call_value(A.V(('fn', self.partial(targs[0].s))), vals, dict(st), site + ('pc',), f, bb, line)
                ks = set()
                for a in r:
                    if a[0] != 'agg': return None
                    if a[2] == 'None': ks.add(None); continue
                    for x in a[3][0]:
                        if x[0] != 'agg': return None
                        ks.add(x[2])
                t = {'lt': {'Less'}, 'gt': {'Greater'}, 'le': {'Less', 'Equal'}, 'ge': {'Greater', 'Equal'}}[last]
                return frozenset(('int', int(k in t)) for k in ks)
            if last in ('checked_sub', 'checked_add', 'checked_mul') and len(vals) == 2:
                t = ('op', {'checked_sub': 'Sub', 'checked_add': 'Add', 'checked_mul': 'Mul'}[last], (an.snap(vals[0], st), an.snap(vals[1], st))); x = ev(t, env)
                if x is not None: return A.V(A.NONE) if x < 0 or x > BIG else A.V(A.some(A.V(t)))
            if last in ('saturating_add', 'saturating_sub', 'div_ceil', 'next_multiple_of', 'is_multiple_of') and len(vals) == 2 and not an.local(name):
                return A.V(('op', last, (an.snap(vals[0], st), an.snap(vals[1], st))))
            if last == 'get' and len(vals) == 2 and C.show(an.snap(vals[0], st)) == 'buf':
                v = an.snap(vals[1], st); x = evv(v, env)
                if x is not None: return A.V(A.some(A.V(('op', 'byte', (v,))))) if x < env['len:buf'] else A.V(A.NONE)
                if len(v) == 1 and next(iter(v))[0] == 'agg':
                    a = next(iter(v)); xs = [evv(y, env) for y in a[3]]
                    k = a[1].split('::')[-1]
                    if None not in xs:
                        lo, hi = {'RangeTo': lambda: (0, xs[0]), 'RangeFrom': lambda: (xs[0], env['len:buf']), 'Range': lambda: (xs[0], xs[1])}.get(k, lambda: (None, None))()
                        if lo is not None: return A.V(A.some(A.V(('op', 'index', (S('buf'), v))))) if lo <= hi <= env['len:buf'] else A.V(A.NONE)
            if last == 'index' and len(vals) == 2 and C.show(an.snap(vals[0], st)) == 'buf':
                v = an.snap(vals[1], st); x = evv(v, env)
                if x is not None:
                    if x >= env['len:buf']: raise A.Diverge()
                    return A.V(('op', 'byte', (v,)))
                if len(v) == 1 and next(iter(v))[0] == 'agg' and next(iter(v))[1].split('::')[-1] in ('RangeFrom', 'RangeTo'):
                    y = evv(next(iter(v))[3][0], env)
                    if y is not None and y > env['len:buf']: raise A.Diverge()
            return None
        return m
    def call(self, f, args, env, me=None):
        self.n += 1
        st = {('S', 0): me} if me is not None else None
        args = ([A.V(('addr', 'S', 0, ()))] if me is not None else []) + list(args)
        an, r = C.run(self.prog, f, args, model=self.model(env), cmp=oracle(env), lists=True, recur=6, st=st, number=lambda t: ev(t, env), asserts=C.overflow(lambda v: evv(v, env)))
        self.rep.analysed_fns(an.inlined | {f.name})
        return an, r, (an.final.get(('S', 0)) if r is not None and an.final else None)

# ---- reference semantics over numbers
def bits(o): return o[1] * 8 if o[0] == 'B' else o[1] * 8 + o[2]
def limit(stack, n):
    for k, o in reversed(stack):
        if k == 'Slice': return o
        if k == 'Seek': return ('B', n)
    return ('B', n)
def step(o, d): return ('B', o[1] + d) if o[0] == 'B' else ('b', o[1], o[2] + d)
def past(o, lim): return bits(o) > bits(lim)
def room(o, lim): return (bits(lim) - bits(o)) // (8 if o[0] == 'B' else 1)
def byteat(o): return (o[1], None) if o[0] == 'B' else (o[1] + o[2] // 8, o[2] % 8)

def ref(op, arg, cur, stack, env):
    """(ok?, value, position, stack); value None when irrelevant"""
    n, so = env['n'], env['so']; lim = limit(stack, n); bad = (False, None, None, None)
    if op in ('read_byte', 'advance_by'):
        d = 1 if op == 'read_byte' else arg
        to = step(cur, d)
        if past(to, lim): return bad
        return True, (('byte',) + byteat(cur) if op == 'read_byte' else None), to, stack
    if op == 'skip_align':
        if cur[0] == 'B': to = ('B', -(-(so + cur[1]) // arg) * arg - so)
        else: to = ('b', cur[1], -(-cur[2] // arg) * arg)
        return bad if past(to, lim) else (True, None, to, stack)
    if op == 'enter_bits_mode': return (True, None, ('b', cur[1], 0), stack) if cur[0] == 'B' else bad
    if op == 'escape_bits_mode': return (True, None, ('B', cur[1] + -(-cur[2] // 8)), stack) if cur[0] == 'b' else bad
    if op == 'start_slice':
        e = step(cur, arg)
        return bad if past(e, lim) else (True, None, cur, stack + [('Slice', e)])
    if op == 'end_slice':
        s = list(stack)
        while s and s[-1][0] == 'Alts': s.pop()
        if not s or s[-1][0] != 'Slice' or past(cur, s[-1][1]): return bad
        return True, None, s[-1][1], s[:-1]
    opens = {'open_peek_context': 'Peek', 'open_peek_not_context': 'PeekNot', 'start_alt': 'Alts'}
    if op in opens: return True, None, cur, stack + [(opens[op], cur)]
    closes = {'close_peek_context': ('Peek', 'Seek'), 'close_peek_not_context': ('PeekNot', 'Alts'), 'next_alt': ('PeekNot', 'Alts')}
    if op in closes:
        for i in reversed(range(len(stack))):
            if stack[i][0] in closes[op]:
                c = stack[i][1]
                return True, None, c, stack[:i] + ([('Alts', c)] if op == 'next_alt' and not arg else [])
        return bad
    if op == 'end_alt':
        for i in reversed(range(len(stack))):
            if stack[i][0] == 'Alts': return True, None, cur, stack[:i]
        return bad
    if op == 'skip_remainder': return True, None, step(cur, room(cur, lim)), stack
    if op == 'remaining': return True, room(cur, lim), cur, stack
    if op == 'finish': return (True, None, cur, stack) if room(cur, lim) == 0 else bad
    if op == 'get_offset_u64': return True, so + cur[1], cur, stack
    if op == 'advance_or_seek':
        if arg < so: return bad
        q = arg - so
        if q >= cur[1]: return bad if past(('B', q), lim) else (True, 1, ('B', q), stack + [('Peek', cur)])
        return True, 0, ('B', q), stack + [('Seek', cur)]
    raise KeyError(op)

def describe(op, arg, cur, stack, env):
    o = lambda x: 'byte %d' % x[1] if x[0] == 'B' else 'bit %d of byte %d' % (x[2], x[1])
    s = ', '.join('%s %s' % (k, o(x)) for k, x in stack)
    return '%s%s at %s of %d%s%s' % (op, '' if arg is None else '(%s)' % arg, o(cur), env['n'], ' in view at %d' % env['so'] if env['so'] else '', ' with [%s] open' % s if s else '')

def run(prog, rep, tier):
    x = X(prog, rep)
    if not rep.known(x.ok(), 'types', 'parser types not found'): return
    loc = lambda f: '%s %s' % (f.loc(), f.name)
    def check(op, arg, cur, stack, n, so=0):
        """cur and stack over numbers; run with one symbol per number"""
        fs = [f for f in prog.find('Parser::' + op) if 'src/parser' in (f.file or '')]
        if not rep.known(fs, op, 'operation not found'): return
        env = {'n': n, 'so': so, 'len:buf': n}
        def so_(o, p):
            if o[0] == 'B': env[p] = o[1]; return ('B', S(p))
            env[p + 's'] = o[1]; env[p + 'b'] = o[2]; return ('b', S(p + 's'), S(p + 'b'))
        cv = so_(cur, 'p'); sv = [(k, so_(o, 'k%d' % i)) for i, (k, o) in enumerate(stack)]
        args = []
        if arg is not None:
            if op == 'next_alt': args = [I(arg)]
            else: env['d'] = arg; args = [S('d')]
        want = ref(op, arg, cur, stack, env)
        f = fs[0]; key = op; what = describe(op, arg, cur, stack, env)
        try:
            an, r, fin = x.call(f, args, env, x.parser(cv, sv))
            if r is None: rep.ob(False, key, '%s never returns' % what, loc(f)); return
            a = x.one(r)
            val = None
            if a[0] == 'agg' and a[1] == A.RESULT:
                good = a[2] == 'Ok'; val = a[3][0]
            elif op in ('finish',): raise Unknown(C.show(r)[:120])
            else: good, val = True, r
            if good != want[0]:
                rep.ob(False, key, '%s %s' % (what, 'succeeds' if good else 'fails'), loc(f)); return
            rep.ob(True, key)
            if not good: return
            got = x.state(fin, env)
            rep.ob(got[0] == want[2], key + ':position', '%s leaves the position at %s instead of %s' % (what, got[0], want[2]), loc(f))
            rep.ob(got[1] == want[3], key + ':stack', '%s leaves %s open instead of %s' % (what, got[1], want[3]), loc(f))
            w = want[1]
            if w is None: return
            if isinstance(w, tuple):
                t = C.show(val).replace('ovf:', '')
                ix, bit = None, None
                va = x.one(val)
                bs = []
                def walk(v):
                    for z in v:
                        if z[0] == 'op' and z[1] == 'byte': bs.append(evv(z[2][0], env))
                        elif z[0] == 'op':
                            for y in z[2]: walk(y)
                walk(val)
                if len(set(bs)) != 1 or None in bs: raise Unknown(t[:120])
                rep.ob(bs[0] == w[1], key + ':index', '%s reads byte %s' % (what, bs[0]), loc(f))
                def val_at(byte):
                    def sub(z):
                        if z[0] == 'op' and z[1] == 'byte': return ('int', byte)
                        if z[0] == 'op': return ('op', z[1], tuple(frozenset(sub(y) for y in v) for v in z[2]))
                        return z
                    return ev(sub(va), env)
                for byte in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 0x5a):
                    g = val_at(byte)
                    if g is None: raise Unknown(t[:120])
                    wv = byte if w[2] is None else byte >> w[2] & 1
                    rep.ob(g == wv, key + ':value', '%s of a byte %d gives %d instead of %d' % (what, byte, g, wv), loc(f))
            else:
                g = evv(val, env)
                if g is None: raise Unknown(C.show(val)[:120])
                rep.ob(g == w, key + ':result', '%s gives %s instead of %s' % (what, g, w), loc(f))
        except Unknown as e: rep.known(False, key, '%s: %s' % (what, e), loc(f))
    B = lambda p: ('B', p)
    b = lambda s, k: ('b', s, k)
    Sl = lambda o: ('Slice', o)
    # limits: none, a slice, a slice under other contexts, nested slices
    stacks = [([], 20), ([Sl(B(12))], 12), ([Sl(B(15)), Sl(B(12))], 12), ([Sl(B(12)), ('Peek', B(3))], 12), ([Sl(B(12)), ('Alts', B(3))], 12), ([Sl(B(12)), ('PeekNot', B(3)), ('Peek', B(4))], 12)]
    for st, lim in stacks:
        for p in (0, 5, lim - 2, lim - 1, lim):
            check('read_byte', None, B(p), st, 20); check('remaining', None, B(p), st, 20); check('finish', None, B(p), st, 20)
            check('skip_remainder', None, B(p), st, 20)
            for d in sorted({0, 1, lim - p - 1, lim - p, lim - p + 1, BIG} - {-1}): check('advance_by', d, B(p), st, 20); check('start_slice', d, B(p), st, 20)
        for s, k in ((5, 0), (5, 3), (lim - 1, 6), (lim - 1, 7), (lim - 2, 15), (lim - 1, 8), (lim - 2, 7), (lim, 0)):
            cur = b(s, k)
            check('read_byte', None, cur, st, 20); check('remaining', None, cur, st, 20); check('finish', None, cur, st, 20); check('skip_remainder', None, cur, st, 20)
            r = lim * 8 - s * 8 - k
            for d in sorted({0, 1, r - 1, r, r + 1, BIG} - {-1}): check('advance_by', d, cur, st, 20)
            for d in sorted({0, r - 1, r, r + 1, BIG} - {-1}): check('start_slice', d, cur, st, 20)
    for k in range(18): check('read_byte', None, b(3, k), [], 20); check('escape_bits_mode', None, b(3, k), [], 20)
    for cur in (B(4), b(4, 9)):
        check('enter_bits_mode', None, cur, [Sl(B(12))], 20); check('escape_bits_mode', None, cur, [Sl(B(12))], 20)
    # alignment, also in a view that starts in the middle of the buffer
    for so in (0, 1, 3, 8):
        for p in (0, 1, 4, 5, 7):
            for n in (1, 2, 4, 8): check('skip_align', n, B(p), [], 20, so)
            check('skip_align', 8, B(p), [Sl(B(7))], 20, so)
            check('get_offset_u64', None, B(p), [], 20, so)
    for k in (0, 1, 7, 8, 9, 15, 16):
        for n in (1, 4, 8, 16): check('skip_align', n, b(3, k), [], 20, 5)
        check('skip_align', 8, b(3, k), [Sl(B(4))], 20)
    # contexts
    ctx = [[], [Sl(B(12))], [('Alts', B(2))], [('PeekNot', B(2))], [('Peek', B(2))], [('Seek', B(9))],
           [('Alts', B(1)), Sl(B(12))], [('Alts', B(1)), ('Peek', B(2))], [('Alts', B(1)), ('Alts', B(2))], [('PeekNot', B(1)), ('Alts', B(2))], [('Alts', B(1)), ('PeekNot', b(2, 3))],
           [('Peek', B(1)), ('Alts', B(2))], [('Peek', B(1)), Sl(B(12))], [('Peek', B(1)), ('Seek', B(9))], [('Seek', B(9)), ('Peek', b(1, 3))], [('Peek', B(1)), Sl(B(12)), ('PeekNot', B(2)), ('Alts', B(3))],
           [('PeekNot', B(1)), ('Peek', B(2)), Sl(B(12)), ('Peek', B(3))], [('Alts', B(0)), Sl(B(12)), ('Alts', B(2))], [Sl(B(15)), Sl(B(12))], [Sl(b(3, 40))]]
    for st in ctx:
        for cur in (B(5), b(4, 3)):
            for op in ('open_peek_context', 'open_peek_not_context', 'start_alt', 'close_peek_context', 'close_peek_not_context', 'end_alt'): check(op, None, cur, st, 20)
            for last in (0, 1): check('next_alt', last, cur, st, 20)
        if not st or st[-1][0] in ('Slice', 'Alts') and not any(k in ('Peek', 'PeekNot', 'Seek') for k, _ in st[[i for i, s in enumerate(st) if s[0] == 'Slice'][-1] if any(s[0] == 'Slice' for s in st) else 0:]):
            for cur in (B(5), B(11), B(12), B(13), b(4, 3), b(4, 64), b(4, 65)):
                if st and not any(s[0] == 'Slice' for s in st): continue
                check('end_slice', None, cur, st, 20)
    # moving to an offset of the whole buffer
    for so in (0, 7):
        for st, lim in (([], 20), ([Sl(B(12))], 12)):
            for p in (0, 5):
                for q in (-1, 0, p - 1, p, p + 1, lim - 1, lim, lim + 1, BIG - so):
                    if so + q < 0: continue
                    check('advance_or_seek', so + q, B(p), st, 20, so)
    # construction
    for nm, arg in (('Parser::new', S('buf')), ('<Parser as From>::from', x.struct(x.V, buffer=S('buf'), start_offset=S('so')))):
        for f in [f for f in prog.find(nm) if 'src/parser' in (f.file or '')]:
            for n in (0, 7):
                env = {'n': n, 'so': 0 if nm == 'Parser::new' else 3, 'len:buf': n}
                try:
                    an, r, _ = x.call(f, [arg], env)
                    bo = x.field(r, x.P, 'offset'); vw = x.field(r, x.P, 'buffer')
                    key = nm
                    rep.ob(x.rd(x.field(bo, x.B, 'current_offset'), env) == ('B', 0), key + ':position', 'a new parser does not start at 0', loc(f))
                    rep.ob(x.rd(x.field(bo, x.B, 'max_offset'), env) == ('B', n), key + ':end', 'a new parser ends at %s' % C.show(x.field(bo, x.B, 'max_offset')), loc(f))
                    sk = x.one(x.field(x.field(bo, x.B, 'view_stack'), x.K, 'stack'))
                    if sk[0] == 'agg' and sk[1] == 'array': rep.ob(not sk[3], key + ':stack', 'a new parser has contexts open', loc(f))
                    rep.ob(C.show(x.field(vw, x.V, 'buffer')) == 'buf' and evv(x.field(vw, x.V, 'start_offset'), env) == env['so'], key + ':buffer', 'a new parser reads %s' % C.show(vw), loc(f))
                except Unknown as e: rep.known(False, nm, str(e), loc(f))
    # views
    vw = x.struct(x.V, buffer=S('buf'), start_offset=S('so'))
    def view(v, env, lo):
        return C.show(x.field(v, x.V, 'buffer')), evv(x.field(v, x.V, 'start_offset'), env)
    for n in (0, 1, 2, 6):
        for d in sorted({0, 1, max(n - 1, 0), n, n + 1, BIG}):
            env = {'n': n, 'so': 3, 'len:buf': n, 'd': d}
            for f in prog.find('View::offset'):
                try:
                    an, r, _ = x.call(f, [vw, S('d')], env)
                    if r is None: rep.ob(False, 'View::offset', 'moving a view of %d by %d never returns' % (n, d), loc(f)); continue
                    a = x.one(r); good = a[2] == 'Ok'
                    rep.ob(good == (d <= n), 'View::offset', 'moving a view of %d bytes by %d %s' % (n, d, 'succeeds' if good else 'fails'), loc(f))
                    if good:
                        t, s = view(a[3][0], env, d)
                        if not re.fullmatch(r'index\[buf, RangeFrom\(.*\)\]', t): raise Unknown(t)
                        rep.ob(t == 'index[buf, RangeFrom(d)]' and s == 3 + d, 'View::offset:view', 'moving a view by %d gives %s at %s' % (d, t, s), loc(f))
                except Unknown as e: rep.known(False, 'View::offset', str(e), loc(f))
            for f in prog.find('View::read_len'):
                try:
                    an, r, _ = x.call(f, [vw, S('d')], env)
                    if r is None: rep.ob(False, 'View::read_len', 'capturing %d of %d bytes never returns' % (d, n), loc(f)); continue
                    a = x.one(r); good = a[2] == 'Ok'
                    rep.ob(good == (d <= n), 'View::read_len', 'capturing %d of %d bytes %s' % (d, n, 'succeeds' if good else 'fails'), loc(f))
                    if good:
                        t = C.show(a[3][0])
                        if not re.fullmatch(r'index\[buf, Range\w*\(.*\)\]', t): raise Unknown(t)
                        rep.ob(t in ('index[buf, RangeTo(d)]', 'index[buf, Range(0, d)]'), 'View::read_len:bytes', 'capturing bytes gives %s' % t, loc(f))
                except Unknown as e: rep.known(False, 'View::read_len', str(e), loc(f))
        for f in prog.find('View::read_u16be'):
            env = {'n': n, 'so': 3, 'len:buf': n}
            try:
                an, r, _ = x.call(f, [vw], env)
                if r is None: rep.ob(False, 'View::read_u16be', 'reading two of %d bytes never returns' % n, loc(f)); continue
                a = x.one(r); good = a[2] == 'Ok'
                rep.ob(good == (n >= 2), 'View::read_u16be', 'reading two of %d bytes %s' % (n, 'succeeds' if good else 'fails'), loc(f))
            except Unknown as e: rep.known(False, 'View::read_u16be', str(e), loc(f))
    for f in prog.find('Parser::view'):
        for p in (0, 4, 6):
            env = {'n': 6, 'so': 3, 'len:buf': 6, 'p': p}
            try:
                an, r, fin = x.call(f, [], env, x.parser(('B', S('p')), []))
                if r is None: rep.ob(False, 'Parser::view', 'a view at byte %d of 6 never returns' % p, loc(f)); continue
                t, s = view(r, env, p)
                if not re.fullmatch(r'index\[buf, RangeFrom\(.*\)\]', t): raise Unknown(t)
                rep.ob(t == 'index[buf, RangeFrom(p)]' and s == 3 + p, 'Parser::view', 'a view at byte %d is %s at %s' % (p, t, s), loc(f))
            except Unknown as e: rep.known(False, 'Parser::view', str(e), loc(f))
    for f in prog.find('View::as_read_array'):
        an, r = C.run(prog, f, [vw, S('d')]); rep.analysed_fns(an.inlined | {f.name})
        fp = [[C.show(a) for a in e.args] for e in an.events.values() if e.callee == 'ReadScope::from_parts']
        ra = [[C.show(a) for a in e.args] for e in an.events.values() if e.callee == 'ReadCtxt::read_array']
        if rep.known(fp and ra, 'View::read_array', C.show(r)[:120], loc(f)):
            rep.ob(all(a == ['buf', 'so'] for a in fp) and all(a[1] == 'd' for a in ra), 'View::read_array', 'reads %s from %s' % (ra, fp), loc(f))
    rep.floor(x.n, 'abstract runs', 400)
