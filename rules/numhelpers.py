"""Exactness of the machine-integer helpers of numeric::eval, decided over ranges of the operands.

Every helper is executed abstractly once per class of its operand (below zero / zero / above zero / the least value for the one-operand
ones, the full range for the two-operand ones).  The number a helper hands out is read as an exact integer expression of its operands: a
step that can leave the range of the type it is computed in ends the reading ("can wrap around")."""
import re
import absint as A, common as C

RANGES = {}
for w in (8, 16, 32, 64):
    RANGES['u%d' % w] = (0, 2**w - 1); RANGES['i%d' % w] = (-2**(w - 1), 2**(w - 1) - 1)
RANGES['usize'] = RANGES['u64']; RANGES['isize'] = RANGES['i64']
RANGES['u128'] = (0, 2**128 - 1); RANGES['i128'] = (-2**127, 2**127 - 1)

class Wraps(Exception): pass
class Odd(Exception): pass

def one(v): return next(iter(v)) if v is not None and len(v) == 1 else None
def within(r, t): return t is None or (RANGES[t][0] <= r[0] and r[1] <= RANGES[t][1])

class Reader:
    """reads values as exact integers: (text of the exact expression, interval, type)"""
    def __init__(self, syms): self.syms = syms     # name -> (interval, type)
    def read(self, v):
        a = one(v)
        if a is None: raise Odd('ambiguous ' + C.show(v)[:60])
        return self.atom(a)
    def lit(self, n, t=None): return (str(n), (n, n), t)
    def atom(self, a):
        if a[0] == 'int': return self.lit(a[1], None)
        if a[0] == 'sym' and not a[2] and a[1] in self.syms:
            r, t = self.syms[a[1]]
            return (a[1], r, t) if r[0] != r[1] else self.lit(r[0], t)
        if a[0] != 'op': raise Odd(C.show(A.V(a))[:60])
        op, args = a[1], a[2]
        m = re.fullmatch(r'cast:(\w+)->(\w+)', op)
        if m and m[2] in RANGES:
            e, r, t = self.read(args[0])
            if not within(r, m[2]): raise Wraps('the conversion %s as %s loses the value' % (e, m[2]))
            return (e, r, m[2])
        m = re.fullmatch(r'(exact|typed):(\w+)(?::(\w+))?', op)
        if m:   # a checked operation that succeeded, or an operation that panics rather than wrap
            xs = [self.read(x) for x in args]
            e, r = self.arith(m[2], [x[0] for x in xs], [x[1] for x in xs])
            t = m[3] or next((x[2] for x in xs if x[2]), None)
            if m[1] == 'typed':
                if not within(r, t): raise Wraps('%s can leave the range of %s' % (e, t))
            elif t in RANGES: r = (max(r[0], RANGES[t][0]), min(r[1], RANGES[t][1]))
            return (e, r, t)
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Neg'):
            xs = [self.read(x) for x in args]
            e, r = self.arith(op.lower(), [x[0] for x in xs], [x[1] for x in xs])
            t = next((x[2] for x in xs if x[2]), None)
            if not within(r, t): raise Wraps('%s can leave the range of %s' % (e, t))
            return (e, r, t)
        raise Odd(C.show(A.V(a))[:60])
    def arith(self, op, es, rs):
        lits = all(r[0] == r[1] for r in rs)
        if op == 'id': return es[0], rs[0]
        if op == 'neg':
            r = (-rs[0][1], -rs[0][0])
            return (str(r[0]) if lits else 'neg(%s)' % es[0] if not es[0].startswith('neg(') else es[0][4:-1], r)
        if op == 'abs':
            lo, hi = rs[0]
            if lo >= 0: return es[0], rs[0]
            if hi <= 0: return self.arith('neg', es, rs)
            return 'abs(%s)' % es[0], (0, max(-lo, hi))
        (a, b), (c, d) = rs
        if op == 'add': r = (a + c, b + d)
        elif op == 'sub': r = (a - d, b - c)
        elif op == 'mul': p = [a * c, a * d, b * c, b * d]; r = (min(p), max(p))
        elif op == 'div' and not c <= 0 <= d:
            q = [abs(p) // abs(k) * (1 if (p < 0) == (k < 0) else -1) for p in (a, b) for k in (c, d)]; r = (min(q), max(q))
        elif op == 'rem' and not c <= 0 <= d:
            k = max(abs(c), abs(d)) - 1; r = (max(a, -k) if a < 0 else 0, min(b, k) if b > 0 else 0)
        else: m = max(abs(a), abs(b)); r = (-m, m)
        if lits and op in ('add', 'sub', 'mul'): return str(r[0]), r
        return '%s(%s, %s)' % (op, *es), r

CMP = {'Eq': lambda a, b: (a[0] == a[1] == b[0] == b[1], a[1] < b[0] or b[1] < a[0]), 'Lt': lambda a, b: (a[1] < b[0], a[0] >= b[1]), 'Le': lambda a, b: (a[1] <= b[0], a[0] > b[1])}
def compare(op, a, b):
    """truth of a comparison of two intervals, None when it depends"""
    if op in ('Gt', 'Ge'): return compare({'Gt': 'Lt', 'Ge': 'Le'}[op], b, a)
    if op == 'Ne':
        r = compare('Eq', a, b); return None if r is None else not r
    yes, no = CMP[op](a, b)
    return True if yes else False if no else None

class World:
    """abstract execution with operands that range over intervals: syms = name -> (interval, type)"""
    def __init__(self, prog, syms):
        self.prog, self.syms, self.rd, self.notes = prog, syms, Reader(syms), set()
    def decide(self, a):
        rd = self.rd
        if a[0] == 'op' and a[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            try: r = compare(a[1], rd.read(a[2][0])[1], rd.read(a[2][1])[1])
            except (Odd, Wraps): return None
            return None if r is None else int(r)
        if a[0] == 'op' and a[1] == 'Not':
            x = one(a[2][0]); r = None if x is None else x[1] if x[0] == 'int' else self.decide(x)
            return None if r is None else 1 - r
        try:
            e, r, t = rd.atom(a)
            return r[0] if r[0] == r[1] else None
        except (Odd, Wraps): return None
    def model(self, an, name, nn, va, targs, s, site, fr, bb, line):
        rd = self.rd
        last = nn.split('::')[-1]
        sn = lambda i: an.snap(va[i], s)
        m = re.match(r'(?:<|.*::)?([iu](?:8|16|32|64|128|size))\b', nn.lstrip('<'))
        self_t = m[1] if m else None
        some, none = (lambda x: A.V(A.some(x))), A.V(A.NONE)
        if last in ('is_positive', 'is_negative', 'is_zero') and len(va) == 1:
            try: r = rd.read(sn(0))[1]
            except (Odd, Wraps): return None
            b = {'is_positive': compare('Gt', r, (0, 0)), 'is_negative': compare('Lt', r, (0, 0)), 'is_zero': compare('Eq', r, (0, 0))}[last]
            return None if b is None else A.V(('int', int(b)))
        if last == 'zero' and not va: return A.V(('int', 0))
        if last == 'one' and not va: return A.V(('int', 1))
        m = re.fullmatch(r'checked_(add|sub|mul|div|rem|neg|abs)', last)
        if m:
            xs = [sn(i) for i in range(len(va))]
            try: rs = [rd.read(x) for x in xs]
            except (Odd, Wraps): return None
            big = 'BigInt' in nn
            t = None if big else self_t if self_t in RANGES else next((x[2] for x in rs if x[2]), None)
            if t is None and not big: return None
            e, r = rd.arith(m[1], [x[0] for x in rs], [x[1] for x in rs])
            v = some(A.V(('op', 'exact:%s%s' % (m[1], '' if big else ':' + t), tuple(xs))))
            if m[1] in ('div', 'rem'):
                lo, hi = rs[1][1]
                if lo == hi == 0: return none
                if lo <= 0 <= hi: return v | none
                if big: return v
                if rs[0][1][0] == RANGES[t][0] < 0 and lo <= -1 <= hi:
                    self.notes.add((e, t)); return v | none if rs[0][1] != (RANGES[t][0],) * 2 or lo != hi else none
                return v
            if big: return v
            if within(r, t): return v
            self.notes.add((e, t))
            if r[1] < RANGES[t][0] or r[0] > RANGES[t][1]: return none
            return v | none
        if last in ('add', 'sub', 'mul', 'div', 'rem') and len(va) == 2 and 'BigInt' in nn: return A.V(('op', 'exact:' + last, (sn(0), sn(1))))
        if last in ('neg', 'abs') and len(va) == 1:
            if 'BigInt' in nn: return A.V(('op', 'exact:' + last, (sn(0),)))
            return A.V(('op', 'typed:%s%s' % (last, ':' + self_t if self_t in RANGES else ''), (sn(0),)))
        m = re.fullmatch(r'(?:wrapping|saturating)_(add|sub|mul|neg|abs)', last)
        if m and self_t in RANGES: return A.V(('op', 'typed:%s:%s' % (m[1], self_t), tuple(sn(i) for i in range(len(va)))))
        if last == 'unsigned_abs' and self_t: return A.V(('op', 'exact:abs:u' + self_t[1:], (sn(0),)))
        if last in ('from', 'into') and len(va) == 1 and ('From' in nn or 'BigInt' in nn or 'NumCast' in nn):
            if 'NumCast' in nn: return self.fits(sn(0), self_t, some, none)
            return sn(0)
        if last in ('try_from', 'try_into') and len(va) == 1:
            if len(targs) >= 2: self_t = targs[last == 'try_into'].s
            if self_t: return self.fits(sn(0), self_t, lambda x: A.V(('agg', A.RESULT, 'Ok', (x,))), A.V(('agg', A.RESULT, 'Err', (A.V(('op', 'failed', (sn(0),))),))))
        if last == 'into_original' and len(va) == 1:
            x = one(sn(0)); return x[2][0] if x and x[0] == 'op' and x[1] == 'failed' else None
        if last == 'new' and ('LazyCell' in nn or 'Rc::' in nn or nn.startswith('Box::')):
            if 'LazyCell' in nn: return A.V(('op', 'lazy', (sn(0),)))
            return sn(0)
        return None
    def fits(self, v, t, ok, bad):
        if t not in RANGES: return None
        try: e, r, src = self.rd.read(v)
        except (Odd, Wraps): return None
        x = A.V(('op', 'cast:%s->%s' % (src or 'i64', t), (v,)))
        if within(r, t): return ok(x)
        self.notes.add((e, t))
        if r[1] < RANGES[t][0] or r[0] > RANGES[t][1]: return bad
        return ok(A.V(('op', 'exact:id:%s' % t, (v,)))) | bad
    def run(self, fn, args=None): return C.run(self.prog, fn, [C.sym(n) for n in self.syms] if args is None else args, model=self.model, number=self.decide)
    def result(self, v):
        """the outcomes in a value of type Eval: ('value', text, interval) | ('error', text or None) | ('odd', why) | ('wraps', why)"""
        out = []
        if v is None or not v: return [('panic', '')]
        for a in v:
            if a[0] != 'agg' or a[2] not in ('NaN', 'Direct', 'Indirect'): out.append(('odd', C.show(A.V(a))[:80])); continue
            if a[2] == 'NaN': out.append(('error', None)); continue
            try:
                if a[2] == 'Direct':
                    e, r, t = self.rd.read(a[3][0]); out.append(('value', e, r)); continue
                x = one(a[3][0]); x = one(x[3][0]) if x and x[0] == 'agg' else None
                if not x or x[0] != 'op' or x[1] != 'lazy': out.append(('odd', C.show(A.V(a))[:80])); continue
                clo = one(x[2][0])
                f = self.prog.fns.get(clo[1]) if clo and clo[0] == 'clo' else None
                if f is None: out.append(('odd', C.show(A.V(a))[:80])); continue
                _, w = self.run(f, [A.V(clo)])
                if w is None or not w: out.append(('panic', 'computing the number reported in the error')); continue
                e, r, t = self.rd.read(w); out.append(('error', e))
            except Wraps as w: out.append(('wraps', str(w)))
            except Odd as w: out.append(('odd', str(w)))
        return out
