"""Byte sets behave as sets of bytes, in the library and in the code generated for them."""
import re, itertools
import absint as A, interp as I, common as C, fmt
CRATES = ['doodle']
RULE = ('Abstract runs over the MIR of the byte-set operations with four symbolic words: every byte value is propagated as a constant through membership, insertion, removal and '
        'singletons and must select its own bit (word b / 64, bit b % 64) and no other; set operators must be the same boolean function on every aligned pair of words; tests and '
        'extremes are derived for every pattern of empty, full and other words; constructors must insert every element of what they are built from; the code generated '
        'for a set must denote the same set for every size class.')
FULL = 2**64 - 1
W = lambda n, i: A.V(('sym', '%s%d' % (n, i), ()))
T = {}

class Bits:
    """64 bits per word, each a boolean function (variables, truth table) of single input bits"""
    def word(self, v):
        r = [self.word1(a) for a in v]
        return r[0] if r and all(x == r[0] for x in r) else None
    def word1(self, a):
        if a[0] == 'int': return [((), (a[1] >> i & 1,)) for i in range(64)]
        if a[0] == 'sym' and not a[2] and re.fullmatch('[ab][0-3]', a[1]): return [(((a[1], i),), (0, 1)) for i in range(64)]
        if a[0] != 'op': return None
        n = a[1]; s = a[2]
        if n == 'Not':
            w = self.word(s[0]); return w and [(v, tuple(1 - t for t in tt)) for v, tt in w]
        if n in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = self.word(s[0]), self.word(s[1])
            if x is None or y is None: return None
            f = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}[n]
            return [self.comb(p, q, f) for p, q in zip(x, y)]
        if n in ('Shl', 'Shr'):
            x = self.word(s[0])
            if x is None or len(s[1]) != 1 or next(iter(s[1]))[0] != 'int': return None
            k = next(iter(s[1]))[1]; z = ((), (0,))
            if not 0 <= k < 64: return None
            return [z] * k + x[:64 - k] if n == 'Shl' else x[k:] + [z] * k
        return None
    def comb(self, p, q, f):
        vs = tuple(sorted(set(p[0]) | set(q[0])))
        if len(vs) > 4: return None
        tt = []
        for m in itertools.product((0, 1), repeat=len(vs)):
            e = dict(zip(vs, m))
            ix = lambda b: b[1][int('0' + ''.join(str(e[v]) for v in b[0]), 2)]
            tt.append(f(ix(p), ix(q)))
        # drop variables that do not matter
        for v in list(vs):
            i = vs.index(v); h = {}
            for m, t in zip(itertools.product((0, 1), repeat=len(vs)), tt): h.setdefault(m[:i] + m[i + 1:], set()).add(t)
            if all(len(x) == 1 for x in h.values()):
                vs = vs[:i] + vs[i + 1:]; tt = [next(iter(h[m])) for m in itertools.product((0, 1), repeat=len(vs))]
        return vs, tuple(tt)
    def truth(self, v):
        """a boolean value as a function of input bits"""
        r = [self.truth1(a) for a in v]
        return r[0] if r and all(x == r[0] for x in r) else None
    def truth1(self, a):
        if a[0] == 'int': return ((), (1 if a[1] else 0,))
        if a[0] != 'op': return None
        if a[1] == 'Not': 
            t = self.truth(a[2][0]); return t and (t[0], tuple(1 - x for x in t[1]))
        if a[1] in ('Eq', 'Ne'):
            x, y = self.word(a[2][0]), self.word(a[2][1])
            if x is None or y is None: return None
            acc = ((), (1,))
            for p, q in zip(x, y):
                acc = self.comb(acc, self.comb(p, q, lambda i, j: 1 - (i ^ j)), lambda i, j: i & j)
                if acc is None: return None
            return acc if a[1] == 'Eq' else (acc[0], tuple(1 - t for t in acc[1]))
        if a[1] in ('BitAnd', 'BitOr'):
            x, y = self.truth(a[2][0]), self.truth(a[2][1])
            return x and y and self.comb(x, y, (lambda i, j: i & j) if a[1] == 'BitAnd' else (lambda i, j: i | j))
        return None

class Run:
    def __init__(self, prog, rep):
        self.prog = prog; self.rep = rep; self.B = Bits(); self.n = 0
        self.adt = C.adt(prog, 'ByteSet')
    def set(self, n): return A.V(('agg', self.adt['adt'], self.adt['v'][0]['n'], (A.V(('agg', 'array', None, tuple(W(n, i) for i in range(4)))),)))
    def fn(self, nm):
        f = nm if not isinstance(nm, str) else self.prog.one(nm)
        if self.rep.known(f is not None, str(nm), 'operation not found'): self.rep.analysed_fns({f.name}); return f
        return None
    def run(self, f, args, facts=None, st=None, cmp=None, pure=None):
        facts = facts or {}
        def model(an, name, nn, vals, targs, st, site, fnn, bb, line):
            sn = [an.snap(v, st) for v in vals]
            last = nn.split('::')[-1]
            ints = [next(iter(v))[1] if len(v) == 1 and next(iter(v))[0] == 'int' else None for v in sn]
            if last in ('overflowing_shl', 'checked_shl', 'wrapping_shl', 'overflowing_shr', 'checked_shr') and None not in ints and len(ints) == 2:
                r = (ints[0] << (ints[1] % 64)) & FULL if 'shl' in last else ints[0] >> (ints[1] % 64); o = ints[1] >= 64
                if last.startswith('over'): return A.V(('agg', 'tuple', '', (A.V(('int', r)), A.V(('int', int(o))))))
                if last.startswith('check'): return A.V(A.NONE) if o else A.V(A.some(A.V(('int', r))))
                return A.V(('int', r))
            if last in ('count_ones', 'trailing_zeros', 'leading_zeros', 'count_zeros') and len(sn[0]) == 1:
                a = next(iter(sn[0]))
                if a[0] == 'sym' and (last, a[1]) in facts: return A.V(('int', facts[last, a[1]]))
                if a[0] == 'int' and last == 'count_ones': return A.V(('int', bin(a[1]).count('1')))
                if a[0] == 'op' and a[1] == 'Not':
                    b = next(iter(a[2][0]))
                    if last == 'count_ones' and ('count_ones', b[1] if b[0] == 'sym' else 0) in facts: return A.V(('int', 64 - facts['count_ones', b[1]]))
            p = (pure or {}).get(nn) or (pure or {}).get(last if '::' not in nn else None)
            if p is not None: return p(an, sn) if callable(p) else A.V(('op', p, tuple(sn)))
            return None
        self.n += 1
        an, r = C.run(self.prog, f, args, model=model, arrays=True, st=st, cmp=cmp, asserts=C.overflow(lambda v: next(iter(v))[1] if len(v) == 1 and next(iter(v))[0] == 'int' else None))
        self.rep.analysed_fns(an.inlined)
        return an, r
    def words(self, v):
        """the four words of a set value (alternatives kept), None if it is not built from words"""
        out = [frozenset()] * 4
        for a in v or ():
            if a[0] != 'agg' or not a[1].endswith('ByteSet') or len(a[3]) != 1: return None
            for b in a[3][0]:
                if b[0] != 'agg' or b[1] != 'array' or len(b[3]) != 4: return None
                out = [o | x for o, x in zip(out, b[3])]
        return out if v else None

def zeros(assign):
    """comparison oracle: words (and conjunctions of words) known to be empty / full / other"""
    def cls(a):
        if a[0] == 'int': return 'zero' if a[1] == 0 else 'full' if a[1] == FULL else ('int', a[1])
        if a[0] == 'sym' and not a[2]: return assign.get(a[1])
        if a[0] == 'op' and a[1] in ('BitAnd', 'BitOr', 'Not'): return assign.get(C.show(A.V(a)))
        return None
    def eq(x, y):
        if len(x) != 1 or len(y) != 1: return None
        a, b = next(iter(x)), next(iter(y))
        if a[0] == 'agg' and b[0] == 'agg' and len(a[3]) == len(b[3]):
            r = [eq(p, q) for p, q in zip(a[3], b[3])]
            return False if False in r else None if None in r else True
        ca, cb = cls(a), cls(b)
        if ca is None or cb is None: return None
        if isinstance(ca, tuple) or isinstance(cb, tuple): return ca == cb if isinstance(ca, tuple) and isinstance(cb, tuple) else False if 'other' not in (ca, cb) else None
        if ca == cb: return None if ca == 'other' else True
        return False
    def cmp(o, a, b):
        if o == 'cmp': return None
        r = eq(a, b)
        z = lambda v: len(v) == 1 and cls(next(iter(v))) == 'zero'
        if r is None: return None
        if o == 'Eq': return r
        if o == 'Ne': return not r
        if z(b) and o == 'Gt': return not r
        if z(b) and o == 'Le': return r
        if z(a) and o == 'Lt': return not r
        return None
    return cmp

def run(prog, rep, tier):
    X = Run(prog, rep)
    if not rep.known(X.adt is not None, 'ByteSet', 'byte set type not found'): return
    algebra(X); bytes_(X); tests(X); members(X); extremes(X); build(X); code(X)
    rep.floor(X.n, 'abstract runs', 1000)

def loc(f): return '%s %s' % (f.loc(), f.name)

def algebra(X):
    rep = X.rep
    OPS = {'ByteSet::union': (2, lambda a, b: a | b), 'ByteSet::intersection': (2, lambda a, b: a & b), 'ByteSet::difference': (2, lambda a, b: a & ~b & 1), 'ByteSet::complement': (1, lambda a, b: 1 - a),
           '<ByteSet as Not>::not': (1, lambda a, b: 1 - a), 'ByteSet::empty': (0, lambda a, b: 0), 'ByteSet::new': (0, lambda a, b: 0), 'ByteSet::full': (0, lambda a, b: 1)}
    for nm, (k, f) in OPS.items():
        fns = X.prog.find(nm)
        if not rep.known(fns, nm, 'operation not found'): continue
        for fn in fns: operator(X, nm, fn, k, f)
    fn = X.fn('ByteSet::from_bits')
    if fn:
        an, r = X.run(fn, [A.V(('agg', 'array', None, tuple(W('a', i) for i in range(4))))]); w = X.words(r)
        if rep.known(w is not None, 'from_bits', C.show(r)[:100], loc(fn)): rep.ob([C.show(x) for x in w] == ['a0', 'a1', 'a2', 'a3'], 'from_bits', 'the words become %s' % [C.show(x) for x in w], loc(fn))
    fn = X.fn('ByteSet::to_bits')
    if fn:
        an, r = X.run(fn, [X.set('a')])
        rep.ob(C.show(r) == 'array(a0, a1, a2, a3)', 'to_bits', 'the words are %s' % C.show(r), loc(fn))

def operator(X, nm, fn, k, f):
        rep = X.rep; rep.analysed_fns({fn.name})
        an, r = X.run(fn, [X.set('a'), X.set('b')][:k]); w = X.words(r)
        if not rep.known(w is not None, nm, C.show(r)[:160], loc(fn)): return
        for q in range(4):
            b = X.B.word(w[q]); key = '%s:word%d' % (nm, q)
            if not rep.known(b is not None and None not in b, key, C.show(w[q])[:160], loc(fn)): continue
            a, bb = (('a%d' % q, 0),), (('b%d' % q, 0),)
            good = True
            for i in range(64):
                vs, tt = b[i]; want = None
                va, vb = ('a%d' % q, i), ('b%d' % q, i)
                if not set(vs) <= {va, vb}: good = False; break
                for m in itertools.product((0, 1), repeat=2):
                    e = {va: m[0], vb: m[1]}
                    t = tt[int('0' + ''.join(str(e[v]) for v in vs), 2)]
                    if t != f(m[0], m[1]): good = False
            rep.ob(good, key, 'word %d of the result is %s' % (q, C.show(w[q])[:120]), loc(fn))

def bytes_(X):
    rep = X.rep
    c, ins, rem, sing = X.fn('ByteSet::contains'), X.fn('ByteSet::insert'), X.fn('ByteSet::remove'), X.fn('ByteSet::singleton')
    for b in range(256):
        q, i = b >> 6, b & 63; B = A.V(('int', b))
        if c:
            an, r = X.run(c, [X.set('a'), B]); rep.ob(r is not None, 'contains', 'asking for %d never returns' % b, loc(c)); t = X.B.truth(r) if r else None
            if rep.known(t is not None, 'contains', C.show(r)[:120], loc(c)): rep.ob(t == ((('a%d' % q, i),), (0, 1)), 'contains', 'membership of %d is decided by %s' % (b, C.show(r)[:120]), loc(c))
        for f, nm, bit in ((ins, 'insert', 1), (rem, 'remove', 0)):
            if not f: continue
            an, r = X.run(f, [A.V(('addr', 'S', 0, ())), B], st={('S', 0): X.set('a')})
            if not rep.ob(r is not None, nm, '%s %d never returns' % (nm, b), loc(f)): continue
            w = X.words(an.final.get(('S', 0))) if an.final else None
            bs = [X.B.word(x) for x in w] if w else [None]
            if not rep.known(w is not None and None not in bs, nm, 'set after the operation not resolved', loc(f)): continue
            rep.ob(all(bs[p][j] == (((), (bit,)) if (p, j) == (q, i) else ((('a%d' % p, j),), (0, 1))) for p in range(4) for j in range(64)), nm, '%s %d turns the set into %s' % (nm, b, C.show(an.final.get(('S', 0)))[:160]), loc(f))
        if sing:
            an, r = X.run(sing, [B]); rep.ob(r is not None, 'singleton', 'the singleton of %d never returns' % b, loc(sing)); w = X.words(r); exp = [1 << i if p == q else 0 for p in range(4)]
            if rep.known(w is not None and all(len(x) == 1 and next(iter(x))[0] == 'int' for x in w), 'singleton', C.show(r)[:120], loc(sing)):
                rep.ob([next(iter(x))[1] for x in w] == exp, 'singleton', 'the singleton of %d is %s' % (b, C.show(r)), loc(sing))

def tests(X):
    rep = X.rep
    for nm, cl in (('ByteSet::is_empty', 'zero'), ('ByteSet::is_full', 'full')):
        f = X.fn(nm)
        if not f: continue
        for pat in itertools.product((cl, 'other'), repeat=4):
            assign = {'a%d' % i: p for i, p in enumerate(pat)}
            facts = {('count_ones', 'a%d' % i): (0 if cl == 'zero' else 64) if p == cl else 7 for i, p in enumerate(pat)}
            an, r = X.run(f, [X.set('a')], facts, cmp=zeros(assign))
            got = {bool(a[1]) for a in r} if r and all(a[0] == 'int' for a in r) else None
            if rep.known(got is not None, nm, C.show(r)[:120], loc(f)): rep.ob(got == {all(p == cl for p in pat)}, nm, 'answers %s for words that are %s' % (C.show(r), pat), loc(f))
    f = X.fn('ByteSet::is_disjoint')
    if f:
        for pat in itertools.product(('zero', 'other'), repeat=4):
            assign = {'BitAnd[a%d, b%d]' % (i, i): p for i, p in enumerate(pat)}; assign.update({'BitAnd[b%d, a%d]' % (i, i): p for i, p in enumerate(pat)})
            an, r = X.run(f, [X.set('a'), X.set('b')], cmp=zeros(assign))
            got = {bool(a[1]) for a in r} if r and all(a[0] == 'int' for a in r) else None
            if rep.known(got is not None, 'is_disjoint', C.show(r)[:120], loc(f)): rep.ob(got == {all(p == 'zero' for p in pat)}, 'is_disjoint', 'answers %s when the common words are %s' % (C.show(r), pat), loc(f))
    f = X.fn('ByteSet::len')
    if f:
        for cs in ((1, 2, 4, 8), (64, 64, 64, 64), (0, 0, 0, 0), (64, 0, 1, 33)):
            an, r = X.run(f, [X.set('a')], {('count_ones', 'a%d' % i): c for i, c in enumerate(cs)})
            got = {a[1] for a in r} if r and all(a[0] == 'int' for a in r) else None
            if rep.known(got is not None, 'len', C.show(r)[:120], loc(f)): rep.ob(got == {sum(cs)}, 'len', 'a set with %s members per word has length %s' % (cs, got), loc(f))

def members(X):
    rep = X.rep; f = X.fn('ByteSet::iter')
    if not f: return
    an, r = X.run(f, [C.sym('self')])
    rg = [[C.show(a) for a in e.args] for e in an.events.values() if e.callee == 'RangeInclusive::new']
    cs = [[C.show(a) for a in e.args] for e in an.events.values() if e.callee == 'ByteSet::contains']
    if rep.known(rg and cs, 'iter', 'enumeration of the members not resolved: %s' % C.show(r)[:120], loc(f)):
        rep.ob(all(x == ['0', '255'] for x in rg) and re.fullmatch(r'filter\[.*\]', C.show(r)), 'iter:range', 'members are looked for in %s' % rg, loc(f))
        rep.ob(all(x[0] == 'self' and not re.search(r'\d', re.sub(r'RangeInclusive::new', '', x[1])) for x in cs), 'iter:member', 'members are %s' % cs, loc(f))

def extremes(X):
    rep = X.rep
    for nm, fact, pos in (('ByteSet::min_elem', 'trailing_zeros', lambda t: t), ('ByteSet::max_elem', 'leading_zeros', lambda t: 63 - t)):
        f = X.fn(nm)
        if not f: continue
        order = range(4) if fact == 'trailing_zeros' else range(3, -1, -1)
        for pat in itertools.product((None, 0, 5, 63), repeat=4):
            facts = {}; assign = {}
            for i, t in enumerate(pat):
                # a word whose lowest (highest) member is at distance t; the other end is kept different where it can be
                facts[fact, 'a%d' % i] = 64 if t is None else t
                facts['leading_zeros' if fact == 'trailing_zeros' else 'trailing_zeros', 'a%d' % i] = 64 if t is None else (63 - t) // 2
                assign['a%d' % i] = 'zero' if t is None else 'other'
            an, r = X.run(f, [X.set('a')], facts, cmp=zeros(assign))
            q = next((i for i in order if pat[i] is not None), None)
            exp = 'Option::None()' if q is None else 'Option::Some(%d)' % (64 * q + pos(pat[q]))
            if rep.known(r is not None and re.fullmatch(r'Option::(None\(\)|Some\(\d+\))', C.show(r)), nm, C.show(r)[:160], loc(f)):
                rep.ob(C.show(r) == exp, nm, 'the %s of a set whose words have it at %s is %s' % (nm.split('::')[1], pat, C.show(r)), loc(f))

def build(X):
    rep = X.rep; prog = X.prog
    for f in prog.find('<ByteSet as From>::from') + prog.find('<ByteSet as FromIterator>::from_iter'):
        key = 'from:' + re.sub(r'^.*?(From\w*<.*>)>::from.*$', r'\1', f.name).replace('std::ops::', '')
        if 'RangeInclusive<' in f.name: inclusive(X, f, key); continue
        if 'Range<' in f.name: exclusive(X, f, key); continue
        an, r = X.run(f, [C.sym('src')]); 
        ev = [e for e in an.events.values() if e.callee == 'ByteSet::insert']
        if not rep.known(ev, key, 'elements are not inserted one by one', loc(f)): continue
        got = sorted({C.show(e.args[1]) for e in ev})
        rep.ob(all(re.fullmatch(r'(src\.\[\]|.*next.*Some.*|elem\[.*src.*\])', g) for g in got), key, 'inserts %s instead of every element' % got, loc(f))
        its = [e for e in an.events.values() if e.callee.split('::')[-1] in ('skip', 'take', 'step_by', 'filter', 'take_while', 'skip_while', 'rev', 'nth')]
        bad = [e.callee for e in its if e.callee.split('::')[-1] != 'rev']
        if bad: rep.known(False, key + ':all', 'iterates through %s' % bad, loc(f))

def rng(lo, hi): return A.V(('agg', 'RI', None, (A.V(('int', lo)), A.V(('int', hi)))))
def inclusive(X, f, key):
    rep = X.rep
    from mir import norm
    E = C.sym('E')
    pure = {}
    def start(an, sn): return next(iter(sn[0]))[3][0] if len(sn[0]) == 1 and next(iter(sn[0]))[0] == 'agg' else None
    def end(an, sn): return next(iter(sn[0]))[3][1] if len(sn[0]) == 1 and next(iter(sn[0]))[0] == 'agg' else None
    pure = {'RangeInclusive::start': start, 'RangeInclusive::end': end, 'RangeInclusive::into_inner': lambda an, sn: A.V(('agg', 'tuple', '', (start(an, sn), end(an, sn)))), '<RangeInclusive as Iterator>::next': lambda an, sn: A.V(A.some(E), A.NONE),
            'RangeInclusive::next': lambda an, sn: A.V(A.some(E), A.NONE), '<RangeInclusive as IntoIterator>::into_iter': lambda an, sn: sn[0], '<I as IntoIterator>::into_iter': lambda an, sn: sn[0],
            'RangeInclusive::is_empty': lambda an, sn: A.V(('int', int(next(iter(start(an, sn)))[1] > next(iter(end(an, sn)))[1]))),
            'Iterator::collect': lambda an, sn: A.V(('op', 'COLLECT', (sn[0],))), '<ByteSet as FromIterator>::from_iter': lambda an, sn: A.V(('op', 'COLLECT', (sn[0],)))}
    for lo, hi in [(3, 9), (0, 63), (64, 127), (70, 71), (128, 191), (140, 150), (192, 255), (254, 255), (5, 5), (0, 0), (255, 255), (9, 3), (255, 0), (63, 64), (0, 255), (100, 200), (127, 128), (191, 192), (60, 130)]:
        an, r = X.run(f, [rng(lo, hi)], pure=pure); k = '%s:%d..=%d' % (key, lo, hi)
        show = C.show(r)
        if lo > hi:
            w = X.words(r)
            if rep.known(w is not None, k, show[:160], loc(f)): rep.ob(all(C.show(x) == '0' for x in w), k, 'a reversed range becomes %s' % show[:160], loc(f))
            continue
        alls = [a for a in r or ()]
        if all(a[0] == 'op' and a[1] == 'COLLECT' for a in alls) and alls:
            rep.ob(all(C.show(a[2][0]) == C.show(rng(lo, hi)) for a in alls), k, 'collects %s' % show[:160], loc(f)); continue
        w = X.words(r)
        if not rep.known(w is not None, k, show[:160], loc(f)): continue
        if lo == hi:
            exp = [1 << (lo & 63) if q == lo >> 6 else 0 for q in range(4)]
            c = [sorted(set(map(int, re.findall(r'\d+', C.show(x))))) if re.fullmatch(r'(\d+|BitOr|phi|[\[\], |])+', C.show(x)) else None for x in w]
            if rep.known(None not in c, k, show[:160], loc(f)): rep.ob(all(e in x and set(x) <= {0, e} for e, x in zip(exp, c)), k, 'a single byte becomes %s' % show[:160], loc(f))
            continue
        # a loop over the members of one word, or over several
        q0, q1 = lo >> 6, hi >> 6
        for q in range(4):
            t = C.show(w[q]); kk = '%s:word%d' % (k, q)
            if q < q0 or q > q1:
                if all(a[0] == 'int' for a in w[q]): rep.ob(t == '0', kk, 'word %d is %s' % (q, t[:120]), loc(f))
                elif q0 == q1: rep.ob(False, kk, 'word %d is %s although no byte of it is in the range' % (q, t[:120]), loc(f))
                continue
            terms = set(re.findall(r'Shl\[[^\[\]]*(?:\[[^\[\]]*\])?[^\[\]]*\]', t))
            ok = terms and all(x in ('Shl[1, BitAnd[E, 63]]', 'Shl[1, Sub[E, %d]]' % (64 * q), 'Shl[1, Rem[E, 64]]') or q == 0 and x == 'Shl[1, E]' for x in terms)
            if q0 == q1 and terms and all('E' in x for x in terms): rep.ob(ok, kk, 'the members of the range set the bits %s' % sorted(terms), loc(f))
            elif q0 == q1 and t == '0': rep.ob(False, kk, 'no byte of the range is in the set', loc(f))
            elif q0 == q1 and all(a[0] == 'int' for a in w[q]) and len(w[q]) == 1:
                exp = sum(1 << j for j in range(lo & 63, (hi & 63) + 1)); rep.ob(next(iter(w[q]))[1] == exp, kk, 'word %d is %s' % (q, t), loc(f))
            else: rep.known(False, kk, t[:160], loc(f))

def exclusive(X, f, key):
    rep = X.rep
    for lo, hi in [(5, 5), (5, 4), (0, 0), (255, 0), (5, 6), (0, 255), (3, 200), (0, 1)]:
        rg = A.V(('agg', 'Range', None, (A.V(('int', lo)), A.V(('int', hi)))))
        pure = {'RangeInclusive::new': lambda an, sn: A.V(('agg', 'RI', None, (sn[0], sn[1]))), '<ByteSet as From>::from': 'FROM', 'Iterator::collect': 'FROM', 'Range::is_empty': lambda an, sn: A.V(('int', int(lo >= hi)))}
        an, r = X.run(f, [rg], pure=pure); k = '%s:%d..%d' % (key, lo, hi); t = C.show(r)
        m = re.fullmatch(r'FROM\[(RI|Range)\((\d+), (?:u8::(saturating|wrapping)_sub\[(\d+), 1\]|(\d+))\)\]', t)
        if m:
            a = int(m[2]); b = int(m[5]) if m[5] else max(int(m[4]) - 1, 0) if m[3] == 'saturating' else (int(m[4]) - 1) % 256
            got = (a, b + 1) if m[1] == 'RI' else (a, b)
            rep.ob(got == (lo, hi) or got[0] >= got[1] and lo >= hi, k, '%d..%d becomes %s' % (lo, hi, t), loc(f))
        elif lo >= hi:
            w = X.words(r)
            if rep.known(w is not None, k, t[:160], loc(f)): rep.ob(all(C.show(x) == '0' for x in w), k, 'an empty range becomes %s' % t[:120], loc(f))
        else: rep.known(False, k, t[:160], loc(f))

def code(X):
    """the code generated for a set"""
    rep = X.rep; prog = X.prog
    R = {'ByteSet::len': None}
    f = next((g for g in prog.find('<ByteCriterion as From>::from')), None)
    emb = prog.one('codegen::embed_byteset') or next((g for n, g in prog.fns.items() if n.endswith('::embed_byteset')), None)
    S = C.sym('set')
    for size in (0, 1, 2, 100, 254, 255, 256):
        pure = {'ByteSet::len': lambda an, sn: A.V(('int', size)) if C.show(sn[0]) == 'set' else A.V(('int', 256 - size)), 'ByteSet::is_full': lambda an, sn: A.V(('int', int(size == 256))), 'ByteSet::is_empty': lambda an, sn: A.V(('int', int(size == 0))),
                'ByteSet::min_elem': lambda an, sn: A.V(A.some(A.V(('op', 'MEMBER', (sn[0],))))), 'ByteSet::max_elem': lambda an, sn: A.V(A.some(A.V(('op', 'MEMBER', (sn[0],))))), 'ByteSet::complement': 'COMPL', '<ByteSet as Not>::not': 'COMPL', '<& as Not>::not': 'COMPL',
                'ByteSet::to_bits': lambda an, sn: A.V(('agg', 'array', None, tuple(W('a', i) for i in range(4))))}
        if rep.known(f is not None, 'criterion', 'byte criterion not found'):
            rep.analysed_fns({f.name})
            an, r = X.run(f, [S], pure=pure); t = C.show(r); key = 'criterion:%d' % size
            exp = {'ByteCriterion::WithinSet(set)'} | ({'ByteCriterion::Any()'} if size == 256 else {'ByteCriterion::MustBe(MEMBER[set])'} if size == 1 else {'ByteCriterion::OtherThan(MEMBER[COMPL[set]])'} if size == 255 else set())
            if size == 0 and r is None: rep.ob(True, key)
            elif rep.known(r is not None and len(r) == 1, key, t[:160], loc(f)): rep.ob(t in exp, key, 'a set of %d bytes is tested as %s' % (size, t[:160]), loc(f))
        if rep.known(emb is not None, 'embed', 'embedding of byte sets in generated code not found'):
            rep.analysed_fns({emb.name})
            pure2 = dict(pure); pure2.update({'RustExpr::scoped': lambda an, sn: A.V(('op', 'NAME', (sn[1],))), 'RustExpr::call': 'CALL', 'RustExpr::call_with': 'CALL', 'RustExpr::num_lit': 'LIT', 'RustExpr::u64lit': 'LIT'})
            an, r = X.run(emb, [S], pure=pure2); t = re.sub(r"'", '', C.show(r)); key = 'embed:%d' % size
            words = r'CALL\[NAME\[from_bits\], array\(RustExpr::ArrayLit\((array\()?LIT\[a0\], LIT\[a1\], LIT\[a2\], LIT\[a3\]\)?\)\)\]'
            m = re.fullmatch(r'CALL\[NAME\[full\]\]', t) and size == 256 or re.fullmatch(r'CALL\[NAME\[singleton\], array\(LIT\[MEMBER\[set\]\]\)\]', t) and size == 1 or re.fullmatch(words, t)
            if not m and not re.fullmatch(r'CALL\[NAME\[(full|empty|singleton|from_bits)\](, array\((LIT\[MEMBER\[.*\]\]|RustExpr::ArrayLit\(.*\))\))?\]', t): rep.known(False, key, t[:200], loc(emb))
            elif not m and '|' in t: rep.known(False, key, t[:200], loc(emb))
            else: rep.ob(m, key, 'a set of %d bytes is generated as %s' % (size, t[:200]), loc(emb))
    g = prog.one('ByteCriterion::as_predicate'); adt = C.adt(prog, 'ByteCriterion')
    if rep.known(g is not None and adt is not None, 'predicate', 'predicate of a byte criterion not found'):
        for v in adt['v']:
            pure = {'RustOp::op_eq': 'EQ', 'RustOp::op_neq': 'NE', 'RustExpr::num_lit': 'LIT', 'RustExpr::call_method_with': lambda an, sn: A.V(('op', 'METHOD', tuple(sn[:2]) + tuple(sn[2:])))}
            if emb is not None: pure['codegen::embed_byteset'] = 'SET'
            an, r = X.run(g, [C.variant_value(adt, v['n'], 'crit'), C.sym('arg')], pure=pure); t = C.show(r).replace("'", ''); rep.analysed_fns({g.name})
            exp = {'Any': r'.*(TRUE|true|const|PrimitiveLit.*1).*', 'MustBe': r'RustExpr::Operation\(EQ\[arg, LIT\[crit\.MustBe\.0\]\]\)', 'OtherThan': r'RustExpr::Operation\(NE\[arg, LIT\[crit\.OtherThan\.0\]\]\)', 'WithinSet': r'METHOD\[SET\[crit\.WithinSet\.0\], contains, array\(arg\)\]'}.get(v['n'])
            if exp is None: rep.known(False, 'predicate:' + v['n'], 'criterion without a rule', loc(g)); continue
            (rep.ob if v['n'] != 'Any' and re.search(r'EQ|NE|METHOD', t) else rep.known)(re.fullmatch(exp, t), 'predicate:' + v['n'], '%s is generated as %s' % (v['n'], t[:160]), loc(g))
