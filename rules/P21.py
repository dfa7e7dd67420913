"""P21: bits-mode input and canonical prefix codes, in the two interpreters and in the runtime of generated code."""
import itertools, re
import absint as A, common as C, lists as L
from mir import norm

CRATES = ['doodle']
RULE = ('Constant and bit-level value flow: the buffer handed to the content of a bits node is reduced to the input bits it is made of, element by element, over symbolic bytes; the code tables '
        'built from code lengths (and reordering values) are propagated for every table of the bounded set and compared with the canonical prefix code; the decoder closure of the runtime is applied to every bit string of the bounded length.')

def I_(n): return A.V(('int', n))
def num(v): return L.num(v) if v else None

def canon(tbl):
    """the canonical prefix code of a table of lengths: {symbol: bits}, first bit first"""
    out = {}; code = 0; prev = 0
    for ln, s in sorted((l, s) for s, l in enumerate(tbl) if l):
        code <<= ln - prev; prev = ln
        out[s] = tuple(code >> (ln - 1 - i) & 1 for i in range(ln)); code += 1
    return out
def kraft(tbl): return sum(2.0 ** -l for l in tbl if l) <= 1

def tables(tier, top=6):
    out = [[a, b] for a in range(top + 1) for b in range(top + 1) if max(a, b) > 3 and kraft((a, b))] + [[4, 1, 4], [1, 4, 4]]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for t in itertools.product(range(4), repeat=n):
            if any(t) and kraft(t): out.append(list(t))
    return out + [[3, 3, 3, 3, 3, 2, 4, 4], [2, 0, 0, 4, 1, 0, 4, 0, 3], [0, 0, 4, 4, 3, 2, 1]]

def term(t, env):
    """number of a bit-level term over bytes"""
    if t[0] == 'int': return t[1]
    if t[0] == 'sym': return env.get(t[1]) if not t[2] else None
    if t[0] != 'op': return None
    xs = []
    for q in t[2]:
        if not isinstance(q, frozenset) or len(q) != 1: return None
        v = term(next(iter(q)), env)
        if v is None: return None
        xs.append(v)
    n = t[1].split('::')[-1]
    if len(xs) == 1:
        if n == 'Not': return ~xs[0] & 255
        if re.match(r'(cast|try_from|from|into|usize|u8|u16|u32|u64)\b', n) or n.startswith('try_from:'): return xs[0]
        return None
    if len(xs) != 2: return None
    a, b = xs
    if n in ('Shl', 'Shr', 'wrapping_shl', 'wrapping_shr') and not 0 <= b < 64: return None
    f = {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b, 'wrapping_shr': lambda: a >> b, 'Div': lambda: a // b if b else None, 'Rem': lambda: a % b if b else None,
         'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Ne': lambda: int(a != b), 'Eq': lambda: int(a == b), 'Gt': lambda: int(a > b), 'Lt': lambda: int(a < b), 'Ge': lambda: int(a >= b), 'Le': lambda: int(a <= b)}.get(n)
    return f() if f else None

class X:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.n = prog, rep, 0
        self.value = C.adt(prog, 'Value', lambda a: any(v['n'] == 'Mapped' for v in a['v']))
        self.seq = C.adt(prog, 'SeqKind'); self.dec = next(a for a in prog.adt_by_short('Decoder') if any(v['n'] == 'Branch' for v in a['v']))
        self.dynf = C.adt(prog, 'DynFormat'); self.parsed = C.adt(prog, 'ParsedValue')
    def run(self, f, args, model=None, st=None, **kw):
        def m(an, name, nn, vals, targs, st, site, fn, bb, line):
            last = nn.split('::')[-1]
            if model:
                r = model(an, nn, last, [an.snap(v, st) for v in vals], vals, st)
                if r is not None: return r
            if last in ('format_err', 'new_debug', 'new_display', 'format', 'to_string', 'mk_trace', '_eprint', '_print') or nn.startswith('Arguments'): return A.V(('op', 'text', ()))
            if nn in ('SeqKind::iter', '<SeqKind as IntoIterator>::into_iter', 'SeqKind::into_iter') and len(vals) == 1:
                v = an.snap(vals[0], st); a = next(iter(v)) if len(v) == 1 else ('',)
                if a[0] == 'agg' and a[2] == 'Strict' and L.items(a[3][0]) is not None: return L.it(L.items(a[3][0]))
            if nn == '<ByteSet as From>::from' and len(vals) == 1: return A.V(('op', 'SET', (an.snap(vals[0], st),)))
            if nn in ('ByteSet::singleton',): return A.V(('op', 'SET', (L.arr([an.snap(vals[0], st)]),)))
            if nn.endswith('TryInto>::try_into') or nn.endswith('TryFrom>::try_from') or last in ('try_into', 'try_from'):
                v = an.snap(vals[0], st)
                if num(v) is not None: return A.V(A.ok(v))
            return None
        self.n += 1
        an, r = C.run(self.prog, f, args, model=m, st=st, lists=2, arrays=True, boxes=True, recur=14, asserts=C.overflow(num), **kw)
        self.rep.analysed_fns(an.inlined | {f.name})
        return an, r
    def seqv(self, xs):
        """the plain value of a sequence of bytes"""
        u8 = lambda n: C.variant_value(self.value, 'U8', fields={'0': I_(n)})
        # an element may be a mapped value: its image counts
        el = [u8(n) if i % 2 == 0 else C.variant_value(self.value, 'Mapped', fields={'0': C.sym('orig'), '1': u8(n)}) for i, n in enumerate(xs)]
        return C.variant_value(self.value, 'Seq', fields={'0': C.variant_value(self.seq, 'Strict', fields={'0': L.arr(el)})})

def codes(v):
    """{symbol: bits} of a union of mapped tuples of single-bit formats; text where it is something else"""
    us = list(v or ())
    if len(us) != 1: return None
    u = us[0]
    if u[0] != 'agg' or u[2] not in ('Union', 'UnionNondet'): return None
    xs = L.items(u[3][0])
    if xs is None: return None
    out = {}
    for x in xs:
        a = next(iter(x)) if len(x) == 1 else None
        if not a or a[0] != 'agg' or a[2] != 'Map': return None
        t, f = [next(iter(q)) if len(q) == 1 else ('?',) for q in a[3]]
        if t[0] != 'agg' or t[2] not in ('Tuple', 'Sequence') or f[0] != 'agg' or f[2] != 'Lambda': return None
        body = next(iter(f[3][1])) if len(f[3][1]) == 1 else ('?',)
        if body[0] != 'agg' or body[2] != 'U16': return None
        b = next(iter(body[3][0])) if len(body[3][0]) == 1 else ('?',)
        s = term(b, {}); bs = L.items(t[3][0])
        if s is None or bs is None: return None
        bits = []
        for q in bs:
            y = next(iter(q)) if len(q) == 1 else ('?',)
            if y[0] != 'agg' or y[2] != 'Byte': return None
            z = next(iter(y[3][0])) if len(y[3][0]) == 1 else ('?',)
            w = L.items(z[2][0]) if z[0] == 'op' and z[1] == 'SET' else None
            if not w or len(w) != 1 or num(w[0]) is None: return None
            bits.append(num(w[0]))
        if s in out: return {'twice': s}
        out[s] = tuple(bits)
    return out

def interps(x, tier):
    """the format a dynamic node binds for its table"""
    rep = x.rep
    for located in (False, True):
        nm = 'Decoder::parse_with_loc' if located else 'Decoder::parse'; tag = 'located' if located else 'plain'
        fn = x.prog.one(nm)
        if not rep.known(fn is not None, tag, 'interpreter not found'): continue
        w = '%s %s' % (fn.loc(), fn.name)
        cases = [(t, None) for t in tables(tier)]
        cases += [([1, 2, 2], [2, 0, 1]), ([2, 1, 2], [1, 2, 0]), ([1, 2], [3, 1, 2, 0]), ([2, 3, 1, 3], [3, 0, 2, 1]), ([3, 1], [1, 2, 0]), ([0, 1, 1], [2, 1, 0])]
        for tbl, vals in cases:
            real = tbl
            if vals:
                real = [0] * len(vals)
                for i, l in enumerate(tbl): real[vals[i]] = l
            cap = []
            def model(an, nn, last, sn, raw, st):
                if nn.startswith('Expr::eval') and len(sn) == 2:
                    s = C.show(sn[0])
                    v = x.seqv(tbl) if s == 'lens' else x.seqv(vals) if s == 'vals' else None
                    if v is None: return None
                    return A.V(('op', 'PV', (v,))) if located else v
                if last in ('clone_into_value', 'into_value') or nn in ('<Value as From>::from',):
                    for a in sn[0]:
                        if a[0] == 'op' and a[1] == 'PV': return a[2][0]
                if nn.startswith('Compiler::compile') and len(sn) >= 1:
                    cap.append(sn[0]); return A.V(A.ok(A.V(('op', 'DEC', ()))))
                if nn in ('Decoder::parse', 'Decoder::parse_with_loc'): return A.V(A.err(C.sym('PERR')))
                return None
            h = C.variant_value(x.dynf, 'Huffman', fields={'0': C.sym('lens'), '1': A.V(A.some(C.sym('vals'))) if vals else A.V(A.NONE)})
            v = next(q for q in x.dec['v'] if q['n'] == 'Dynamic')
            selfv = C.variant_value(x.dec, 'Dynamic', fields={v['f'][1][0]: h})
            an, r = x.run(fn, [selfv, C.sym('program'), C.sym('scope'), C.sym('input')], model)
            key = '%s:table%s' % (tag, ':reordered' if vals else '')
            if r is None and not cap: rep.ob(False, key, 'code lengths %s%s are never decoded' % (tbl, ' of the symbols %s' % vals if vals else ''), w); continue
            got = codes(frozenset(q for c in cap for q in c)) if cap else None
            if not rep.known(got is not None, key, 'format not resolved: %s' % [C.show(c)[:200] for c in cap[:1]], w): continue
            rep.ob(got == canon(real), key, 'code lengths %s%s give the codes %s' % (tbl, ' of the symbols %s' % vals if vals else '', text(got)), w)

def text(c): return ', '.join('%s:%s' % (k, ''.join(map(str, v)) if isinstance(v, tuple) else v) for k, v in sorted(c.items(), key=str))

def bits(x):
    """a bits node hands its content one byte per bit, least significant bit of the first byte first"""
    rep = x.rep
    for located in (False, True):
        nm = 'Decoder::parse_with_loc' if located else 'Decoder::parse'; tag = 'located' if located else 'plain'
        fn = x.prog.one(nm)
        if not rep.known(fn is not None, tag + ':bits', 'interpreter not found'): continue
        w = '%s %s' % (fn.loc(), fn.name)
        for k in (0, 1, 2):
            cap = []
            def model(an, nn, last, sn, raw, st):
                if nn == 'ReadCtxt::remaining': return L.arr([C.sym('b%d' % i) for i in range(k)])
                if nn.startswith('ReadCtxt::') and last in ('new', 'new_with_offset', 'from', 'new_at'): cap.append(sn[0]); return C.sym('BITS')
                if nn in ('Decoder::parse', 'Decoder::parse_with_loc'):
                    if C.show(sn[3]) != 'BITS': cap.append(frozenset())
                    return A.V(A.err(C.sym('PERR')))
                return None
            selfv = C.variant_value(x.dec, 'Bits')
            an, r = x.run(fn, [selfv, C.sym('program'), C.sym('scope'), C.sym('input')], model)
            xs = L.items(cap[0]) if len(set(cap)) == 1 else None
            if not rep.known(xs is not None, tag + ':bits', 'the buffer of bits is not resolved: %s' % [C.show(c)[:160] for c in cap[:2]], w): continue
            if not rep.ob(len(xs) == 8 * k, tag + ':bits', '%d bytes are presented as %d bits' % (k, len(xs)), w): continue
            for i, e in enumerate(xs):
                a = next(iter(e)) if len(e) == 1 else None
                ok = a is not None
                for b in (0, 255, 1, 2, 4, 8, 16, 32, 64, 128, 0x53, 0xac):
                    env = {'b%d' % j: (b if j == i // 8 else 0x5a ^ b) for j in range(k)}
                    t = term(a, env) if a else None
                    if t is None: ok = None; break
                    if t & 255 != b >> (i & 7) & 1: ok = False; break
                if rep.known(ok is not None, tag + ':bits', C.show(e)[:160], w):
                    rep.ob(ok, tag + ':bits', 'bit %d of the input is presented as %s' % (i, C.show(e)[:160]), w)

def runtime(x, tier):
    """parse_huffman: the closure built for a table, applied to bits"""
    rep = x.rep; fn = x.prog.one('prelude::parse_huffman')
    if not rep.known(fn is not None, 'runtime', 'parse_huffman not found'): return
    w = '%s %s' % (fn.loc(), fn.name)
    def model(an, nn, last, sn, raw, st):
        if nn == 'Parser::read_byte':
            xs = L.items(st[('S', 7)])
            st[('S', 8)] = I_(num(st[('S', 8)]) + 1) if num(st[('S', 8)]) is not None else A.VTOP
            if not xs: st[('S', 9)] = L.arr([I_(1)]); return A.V(A.err(C.sym('OVERRUN')))   # kept apart from the other states
            st[('S', 7)] = L.arr(xs[1:]); return A.V(A.ok(xs[0]))
        return None
    cases = [(t, None) for t in tables(tier, 4)] + [([1, 2, 2], [2, 0, 1]), ([2, 1, 2], [1, 2, 0]), ([1, 2], [3, 1, 2, 0]), ([2, 3, 1, 3], [3, 0, 2, 1]), ([3, 1], [1, 2, 0])]
    cases += [(list(t), None) for t in ((1, 1, 1), (1, 1, 2), (1, 2, 1, 2), (2, 2, 2, 2, 2), (3, 1, 1))]
    for tbl, vals in cases:
        real = tbl
        if vals:
            real = [0] * len(vals)
            for i, l in enumerate(tbl): real[vals[i]] = l
        v = A.V(A.some(L.arr([I_(q) for q in vals]))) if vals else A.V(A.NONE)
        an, clo = x.run(fn, [L.arr([I_(q) for q in tbl]), v], model)
        what = 'code lengths %s%s' % (tbl, ' of the symbols %s' % vals if vals else '')
        key = 'runtime:table%s' % (':reordered' if vals else '')
        if clo is None: rep.ob(False, key, '%s are never decoded' % what, w); continue
        cs = canon(real)
        if not kraft(real):
            # more codes than there is room for: every use is an error
            st = {('S', 7): L.arr([I_(0), I_(1), I_(0), I_(1)]), ('S', 8): I_(0)}
            v = apply(x, clo, model, st)
            if rep.known(v is not None, 'runtime:collision', 'closure not resolved: %s' % C.show(clo)[:160], w): rep.ob(all(a[0] == 'agg' and a[2] == 'Err' for a in v[0]), 'runtime:collision', '%s collide, but decode to %s' % (what, C.show(v[0])[:120]), w)
            continue
        m = max(len(c) for c in cs.values()); strs = set(cs.values()) | {c + (b,) for c in cs.values() for b in (0, 1)} | {c[:i] for c in cs.values() for i in range(len(c))}
        if m <= 3: strs |= {t for t in itertools.product((0, 1), repeat=m)}
        for t in sorted(strs):
            hit = next(((sy, len(c)) for sy, c in cs.items() if t[:len(c)] == c), None)
            v = apply(x, clo, model, {('S', 7): L.arr([I_(b) for b in t]), ('S', 8): I_(0)})
            if not rep.known(v is not None, key, 'closure not resolved: %s' % C.show(clo)[:160], w): x.short = True; break
            got, used = v
            bs = ''.join(map(str, t)) or 'no bits'
            if hit is None: rep.ob(all(a[0] == 'agg' and a[2] == 'Err' for a in got), key, '%s: %s is no code, but decodes to %s' % (what, bs, C.show(got)[:120]), w); continue
            a = next(iter(got)) if len(got) == 1 else ('?',)
            sv = term(next(iter(a[3][0])), {}) if a[0] == 'agg' and a[2] == 'Ok' and len(a[3][0]) == 1 else None
            if a[0] == 'agg' and a[2] == 'Err' or a[0] == '?' and not got: rep.ob(False, key, '%s: %s does not decode (%s)' % (what, bs, C.show(got)[:80]), w)
            elif rep.known(sv is not None and used is not None, key, '%s: %s decodes to %s' % (what, bs, C.show(got)[:120]), w):
                rep.ob((sv, used) == hit, key, '%s: %s decodes to symbol %s using %s bits instead of %s using %s' % ((what, bs, sv, used) + hit), w)

def apply(x, clo, model, st):
    """(result, bits used) of a decoder closure"""
    if len(clo) != 1: return None
    a = next(iter(clo)); lf = x.prog.fns.get(a[1]) if a[0] == 'clo' else None
    if lf is None: return None
    an, r = x.run(lf, [clo, C.sym('p')], model, st=st)
    if r is None: return A.EMPTY, None
    return r, num(an.final.get(('S', 8), A.EMPTY))

def run(prog, rep, tier):
    x = X(prog, rep)
    bits(x); interps(x, tier); runtime(x, tier)
    rep.floor(x.n, 'abstract_runs', 200 if getattr(x, 'short', 0) else 700)
