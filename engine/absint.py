"""Flow-sensitive, context-sensitive value-flow analysis over MIR.

A *value* is a frozenset of alternatives (atoms):
  ('sym', root, path)        unknown, named by where it came from (parameter or call result) + projections
  ('int', n) ('str', s) ('fn', path) ('unit',)
  ('agg', adt, variant, (value, ...))
  ('clo', closure def, (captured value, ...))
  ('addr', frame, local, path)   &mut to a stack cell
  ('op', name, (value, ...))     uninterpreted pure operation
  ('vec', value)                 growable sequence holding any of value
  ('phi', key)                   loop-carried value after widening
  ('top',)

Calls to functions of the analysed crates are inlined (context-sensitively, up to a depth) unless the
client declares them a *barrier*; every call is recorded as an event together with the branch facts that
hold on every path to it.  Nothing is executed: joins are taken at every merge point and loops are
iterated to a fixpoint with widening.
"""
import sys, re
from mir import norm, strip_generics, short_ty
sys.setrecursionlimit(20000)

TOP = ('top',)
UNIT = ('agg', 'tuple', None, ())
def V(*atoms): return frozenset(atoms)
EMPTY = frozenset()
VTOP = V(TOP)
def INT(n): return ('int', n)
TRUE = V(INT(1)); FALSE = V(INT(0))

OPTION = 'std::option::Option'; RESULT = 'std::result::Result'
CFLOW = 'std::ops::ControlFlow'
def some(v): return ('agg', OPTION, 'Some', (v,))
NONE = ('agg', OPTION, 'None', ())
def ok(v): return ('agg', RESULT, 'Ok', (v,))
def err(v): return ('agg', RESULT, 'Err', (v,))
def tup(*vs): return ('agg', 'tuple', None, tuple(vs))

MAXSET = 24
MAXDEPTH = 14
_depth_cache = {}

def adepth(a):
    d = _depth_cache.get(a)
    if d is not None: return d
    k = a[0]
    if k == 'agg': d = 1 + max([vdepth(v) for v in a[3]] or [0])
    elif k in ('op', 'clo'): d = 1 + max([vdepth(v) for v in a[2]] or [0])
    elif k == 'vec': d = 1 + vdepth(a[1])
    elif k == 'sym': d = len(a[2]) // 2
    elif k == 'dsc': d = 1 + adepth(a[1])
    else: d = 0
    if len(_depth_cache) > 400000: _depth_cache.clear()
    _depth_cache[a] = d
    return d
def vdepth(v): return max([adepth(a) for a in v] or [0])

def merge_aggs(v):
    """merge aggregates with equal constructor fieldwise"""
    groups = {}; out = []
    for a in v:
        if a[0] == 'agg' : groups.setdefault((a[1], a[2], len(a[3])), []).append(a)
        elif a[0] == 'vec': groups.setdefault(('vec',), []).append(a)
        else: out.append(a)
    for k, g in groups.items():
        if len(g) == 1: out.append(g[0]); continue
        if k == ('vec',):
            u = EMPTY
            for a in g: u = u | a[1]
            out.append(('vec', cap(u)))
        else:
            fs = []
            for i in range(k[2]):
                u = EMPTY
                for a in g: u = u | a[3][i]
                fs.append(cap(u))
            out.append(('agg', k[0], k[1], tuple(fs)))
    return frozenset(out)

def cap(v):
    if len(v) > MAXSET:
        v = merge_aggs(v)
        if len(v) > MAXSET:
            keep = [a for a in v if a[0] in ('sym', 'agg', 'addr', 'clo', 'fn', 'vec')]
            if len(keep) > 3 * MAXSET: return VTOP
            v = frozenset(keep + [TOP])
    if v and vdepth(v) > MAXDEPTH:
        v = frozenset(trunc(a, MAXDEPTH) for a in v)
    return v
def trunc(a, d):
    if adepth(a) <= d: return a
    if d <= 0: return TOP
    k = a[0]
    if k == 'agg': return ('agg', a[1], a[2], tuple(frozenset(trunc(x, d - 1) for x in f) for f in a[3]))
    if k in ('op', 'clo'): return (k, a[1], tuple(frozenset(trunc(x, d - 1) for x in f) for f in a[2]))
    if k == 'vec': return ('vec', frozenset(trunc(x, d - 1) for x in a[1]))
    return TOP
def join(a, b):
    if a is b or a == b: return a
    if not a: return b
    if not b: return a
    return cap(a | b)

def mkop(name, *vs):
    return V(('op', name, tuple(vs)))

class Event:
    __slots__ = ('site', 'callee', 'args', 'ret', 'guards', 'fn', 'bb', 'line', 'targs', 'order')
    def __repr__(self): return 'Event(%s %s)' % (self.callee, self.line)

class Diverge(Exception): pass

BIN_BOOL = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}

class Analysis:
    """Client hooks: barrier(name, norm) -> bool ; model(name, norm, self, call) -> value or None."""
    def __init__(self, prog, barrier=None, model=None, max_depth=12, record_all=True, fold_int=True):
        self.prog = prog
        self.barrier = barrier or (lambda name, nn: False)
        self.model = model
        self.max_depth = max_depth
        self.events = {}
        self.frames = {}
        self.frame_names = []
        self.steps = 0
        self.fold_int = fold_int
        self.inlined = set()
        self.opaque = set()
        self.depth = 0
        self._order = 0
        self.returns = []      # (value, guards) of the outermost function per return block
        self.panics = []       # events of diverging calls
        self.keep_index = False
        self.split = None      # further partition of the states of a frame
        self.tsub = {}         # types that the type parameters of a frame stand for
        self.applied = None    # value of applying a function that is not known
        self.lists = False     # sequences of known length are ordered (see lists.py)
        self.number = None     # optional oracle: the integer a term stands for
        self.recur = 0         # how often a function may be inlined into itself
        self.boxes = False     # keep the address of a Box that is dereferenced in place
        self.arrays = False    # resolve array indices that are constant at the access
        self.cmp = None        # optional oracle for comparisons: cmp(op, a, b) -> 0 / 1 / None

    # ---- frames
    def frame(self, key):
        i = self.frames.get(key)
        if i is None:
            i = len(self.frame_names); self.frames[key] = i; self.frame_names.append(key)
        return i

    # ---- projections
    def proj(self, v, p, st):
        """apply one projection element to a value"""
        out = []
        for a in v:
            k = a[0]
            if p == '*':
                if k == 'addr': out.extend(self.load_addr(a, st))
                elif k == 'sym':
                    h = st.get(('heap', a[1], a[2])) if st is not None else None
                    if h is not None: out.extend(h)
                    else: out.append(a)
                else: out.append(a)
                continue
            if k == 'top': out.append(TOP); continue
            if k == 'addr':
                # projecting through an auto-deref'd address
                out.extend(self.proj(self.load_addr(a, st), p, st)); continue
            if isinstance(p, tuple) or isinstance(p, list):
                tag = p[0]
                if tag == 'd':
                    if k == 'agg':
                        if a[2] is None or a[2] == p[2]: out.append(a)
                    elif k == 'sym': out.append(('sym', a[1], a[2] + ('#' + p[2],)))
                    elif k == 'vec' or (k == 'op' and a[1] in ('push', 'extend')):
                        # a Vec converted into its sequence wrapper (SeqKind::Strict)
                        if p[2] == 'Strict': out.append(a)
                    else: out.append(('op', '#' + p[2], (V(a),)))
                elif tag == 'f':
                    i, nm = p[1], p[2]
                    if k == 'agg':
                        if i < len(a[3]): out.extend(a[3][i])
                    elif k == 'clo':
                        if i < len(a[2]): out.extend(a[2][i])
                    elif k == 'sym':
                        out.extend(self.sym_field(a, nm, st))
                    elif (k == 'vec' or (k == 'op' and a[1] in ('push', 'extend'))) and i == 0: out.append(a)
                    elif k == 'op' and a[1].startswith('ovf:'):
                        if i == 0: out.append(('op', a[1][4:], a[2]))
                        else: out.append(('op', 'ovfflag', a[2]))
                    else: out.append(('op', '.' + nm, (V(a),)))
                elif tag == 'i' or tag == 'ci' or tag == 'ss':
                    if k == 'agg' and a[1] == 'array':
                        if tag == 'ci' and not p[3] and p[1] < len(a[3]): out.extend(a[3][p[1]])
                        elif tag == 'ci' and p[3] and p[1] <= len(a[3]): out.extend(a[3][len(a[3]) - p[1]])
                        elif tag == 'ss': out.append(('agg', 'array', None, a[3][p[1]:len(a[3]) - p[2]] if p[3] else a[3][p[1]:p[2]]))
                        else:
                            for f in a[3]: out.extend(f)
                    elif k == 'vec': out.extend(V(a) if tag == 'ss' else a[1])
                    elif k == 'sym':
                        if tag == 'i': out.append(('sym', a[1], a[2] + ('[]',)))
                        elif tag == 'ci': out.append(('sym', a[1], a[2] + ('[%s%d]' % ('-' if p[3] else '', p[1]),)))
                        else: out.append(('sym', a[1], a[2] + ('[%d..]' % p[1],)))
                    else: out.append(('op', '[%s%d]' % ('-' if p[3] else '', p[1]) if tag == 'ci' else '[]', (V(a),)))
                else: out.append(TOP)
            else: out.append(TOP)
        return frozenset(out) if len(out) != 1 else V(out[0])

    def sym_field(self, a, nm, st):
        path = a[2] + (nm,)
        if path and len(path) > 1 and path[-2].startswith('#'):
            path = path[:-2] + (path[-2][1:] + '.' + nm,)
        if len(path) > 12: return [TOP]
        na = ('sym', a[1], path)
        if st is not None:
            h = st.get(('heap', a[1], path))
            if h is not None: return list(h)
        return [na]

    def load_addr(self, a, st):
        _, fr, loc, path = a
        v = st.get((fr, loc), EMPTY) if st is not None else VTOP
        for p in path: v = self.proj(v, p, st)
        return v

    def operand_ty(self, o, fn):
        try: return fn.local_ty(o['p'][0]).s if 'p' in o and len(o['p']) == 1 else None
        except (KeyError, IndexError, AttributeError): return None

    def cidx(self, p, fr, st):
        if isinstance(p, list): p = tuple(p)
        if self.arrays and isinstance(p, tuple) and p[0] == 'i':
            v = st.get((fr, p[1]), EMPTY)
            if len(v) == 1 and next(iter(v))[0] == 'int': return ('ci', next(iter(v))[1], 0, False)
        return p

    def read_place(self, fr, pl, st):
        v = st.get((fr, pl[0]), EMPTY)
        for p in pl[1:]:
            p = self.cidx(p, fr, st)
            if self.keep_index and isinstance(p, (list, tuple)) and p[0] == 'i':
                v = self.at(v, st.get((fr, p[1]), EMPTY), st); continue
            v = self.proj(v, tuple(p) if isinstance(p, list) else p, st)
        return v

    def at(self, v, idx, st):
        """element of v at an index, the index kept"""
        i = next(iter(idx))[1] if len(idx) == 1 and next(iter(idx))[0] == 'int' else None
        out = []
        for a in v:
            if a[0] == 'addr': out.extend(self.at(self.load_addr(a, st), idx, st))
            elif a[0] == 'agg' and a[1] == 'array' and i is not None:
                if i < len(a[3]): out.extend(a[3][i])
            elif a[0] == 'top': out.append(a)
            elif self.keep_index == 'acc' and (a[0] == 'vec' or a[0] == 'op' and a[1] in ('push', 'extend')): out.append(('op', 'at', (V(('sym', 'ACC', ())), idx)))
            elif a[0] == 'sym' and i is not None: out.append(('sym', a[1], a[2] + ('[%d]' % i,)))
            else: out.append(('op', 'at', (V(a), idx)))
        return frozenset(out)

    # ---- stores
    def update(self, old, path, new, st):
        """functional update of a value at a field path"""
        if not path: return new
        p = path[0]
        if p == '*': return self.update(old, path[1:], new, st)
        if isinstance(p, tuple) and p[0] == 'd':
            return self.update(old, path[1:], new, st)
        if isinstance(p, tuple) and p[0] == 'f':
            out = []
            hit = False
            for a in old:
                if a[0] == 'agg' and p[1] < len(a[3]):
                    fs = list(a[3]); fs[p[1]] = self.update(fs[p[1]], path[1:], new, st)
                    out.append(('agg', a[1], a[2], tuple(fs))); hit = True
                elif a[0] == 'clo' and p[1] < len(a[2]):
                    fs = list(a[2]); fs[p[1]] = self.update(fs[p[1]], path[1:], new, st)
                    out.append(('clo', a[1], tuple(fs))); hit = True
                else:
                    base = V(a)
                    inner = self.proj(base, p, st)
                    out.append(('op', 'with.' + p[2], (base, self.update(inner, path[1:], new, st))))
            if not old:
                # partially initialised aggregate
                fs = [EMPTY] * (p[1] + 1); fs[p[1]] = self.update(EMPTY, path[1:], new, st)
                return V(('agg', 'partial', None, tuple(fs)))
            return frozenset(out)
        if isinstance(p, tuple) and p[0] in ('i', 'ci'):
            out = []
            for a in old:
                if a[0] == 'agg' and a[1] == 'array':
                    fs = list(a[3])
                    if p[0] == 'ci' and not p[3] and p[1] < len(fs): fs[p[1]] = self.update(fs[p[1]], path[1:], new, st)
                    else: fs = [join(f, new) for f in fs]
                    out.append(('agg', a[1], a[2], tuple(fs)))
                elif a[0] == 'vec': out.append(('vec', join(a[1], new)))
                else: out.append(('op', 'store[]', (V(a), new)))
            return frozenset(out)
        return VTOP

    def store_addr(self, a, path, new, st, weak):
        _, fr, loc, p0 = a
        full = tuple(p0) + tuple(path)
        old = st.get((fr, loc), EMPTY)
        nv = self.update(old, full, new, st)
        st[(fr, loc)] = join(old, nv) if weak else cap(nv)

    def write_place(self, fr, pl, new, st):
        projs = [self.cidx(p, fr, st) for p in pl[1:]]
        if not projs:
            st[(fr, pl[0])] = cap(new); return
        if '*' not in projs:
            old = st.get((fr, pl[0]), EMPTY)
            # resolve index local
            st[(fr, pl[0])] = cap(self.update(old, projs, new, st)); return
        k = len(projs) - 1 - projs[::-1].index('*')
        base = st.get((fr, pl[0]), EMPTY)
        for p in projs[:k]: base = self.proj(base, p, st)
        self.store_through(base, projs[k+1:], new, st)

    def store_through(self, base, path, new, st):
        base = list(base)
        weak = len(base) > 1
        for a in base:
            if a[0] == 'addr': self.store_addr(a, path, new, st, weak)
            elif a[0] == 'sym':
                key_path = a[2]; rest = []
                for i, p in enumerate(path):
                    if isinstance(p, tuple) and p[0] == 'f' and not rest:
                        key_path = self.sym_key(key_path, p[2])
                    elif p == '*' and not rest: pass
                    elif isinstance(p, tuple) and p[0] == 'd' and not rest: key_path = key_path + ('#' + p[2],)
                    else: rest.append(p)
                key = ('heap', a[1], key_path)
                old = st.get(key)
                if rest:
                    o = old if old is not None else V(('sym', a[1], key_path))
                    nv = self.update(o, rest, new, st)
                    st[key] = cap(nv) if not weak else join(o, nv)
                elif weak:
                    st[key] = join(old if old is not None else V(('sym', a[1], key_path)), new)
                else: st[key] = cap(new)
                self.on_store(a, key, st)

    def on_store(self, a, key, st): pass

    def sym_key(self, path, nm):
        if path and path[-1].startswith('#'):
            return path[:-1] + (path[-1][1:] + '.' + nm,)
        return path + (nm,)

    # ---- operands / rvalues
    def const_tree(self, v):
        if v is None: return VTOP
        if 'v' in v: return V(INT(v['v']))
        if 'str' in v: return V(('str', v['str']))
        if 'bytes' in v: return V(('agg', 'array', None, tuple(V(INT(b)) for b in v['bytes'])))
        if 'fields' in v:
            return V(('agg', 'const', v.get('variant'), tuple(self.const_tree(f) for f in v['fields'])))
        return VTOP

    def operand(self, o, fr, fn, st):
        if 'p' in o: return self.read_place(fr, o['p'], st)
        if 'fn' in o:
            return V(('fn', o.get('res') or o['fn']))
        if 'c' in o:
            if 'prom' in o:
                return self.promoted(fn, o['prom'], o.get('def'))
            if 'val' in o and o['val'] is not None:
                t = self.prog.ty(fn.crate, o['c'])
                v = self.const_tree(o['val'])
                if t.k == 'adt':
                    return frozenset(('agg', t.adt, a[2], a[3]) if a[0] == 'agg' else a for a in v)
                if t.k == 'array':
                    return frozenset(('agg', 'array', a[2], a[3]) if a[0] == 'agg' else a for a in v)
                if t.k == 'tuple':
                    return frozenset(('agg', 'tuple', a[2], a[3]) if a[0] == 'agg' else a for a in v)
                return v
            t = self.prog.ty(fn.crate, o['c'])
            if t.k == 'tuple' and not t.a: return V(UNIT)
            if t.k == 'fndef': return V(('fn', t.d['def']))
            if t.k == 'closure': return V(('clo', t.d['def'], ()))
            if t.k == 'adt':
                a = self.prog.adt(t.adt)
                if a and not a['enum'] and not a['v'][0]['f']:
                    return V(('agg', t.adt, a['v'][0]['n'], ()))
            if 'def' in o: return V(('sym', 'const:' + o['def'], tuple('<%s>' % self.tparam(self.prog.ty(fn.crate, x), fr).s for x in o.get('args', ()))))
            return V(('sym', 'const:' + t.s, ()))
        return VTOP

    def promoted(self, fn, n, defname):
        cache = fn.__dict__.setdefault('_promcache', {})
        if n in cache: return cache[n]
        try:
            body = fn.d['proms'][n]
        except Exception:
            return VTOP
        sub = _PromFn(fn, body)
        a = Analysis(self.prog)
        try:
            r = a.run(sub, [])
            v = r[0] if r else VTOP
        except Exception:
            v = VTOP
        v = frozenset(x if x[0] != 'addr' else TOP for x in v)
        cache[n] = v
        return v

    def binop(self, op, a, b):
        if self.cmp is not None and op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = self.cmp(op, a, b)
            if r is not None: return V(INT(int(r)))
        if len(a) == 1 and len(b) == 1:
            x = next(iter(a)); y = next(iter(b))
            if x[0] == 'int' and y[0] == 'int' and self.fold_int:
                p, q = x[1], y[1]
                r = None
                base = op.replace('WithOverflow', '').replace('Unchecked', '')
                try:
                    if base == 'Add': r = p + q
                    elif base == 'Sub': r = p - q
                    elif base == 'Mul': r = p * q
                    elif base == 'Div' and q: r = p // q
                    elif base == 'Rem' and q: r = p % q
                    elif base == 'BitAnd': r = p & q
                    elif base == 'BitOr': r = p | q
                    elif base == 'BitXor': r = p ^ q
                    elif base == 'Shl' and 0 <= q < 128: r = p << q
                    elif base == 'Shr' and 0 <= q < 128: r = p >> q
                    elif base == 'Eq': r = int(p == q)
                    elif base == 'Ne': r = int(p != q)
                    elif base == 'Lt': r = int(p < q)
                    elif base == 'Le': r = int(p <= q)
                    elif base == 'Gt': r = int(p > q)
                    elif base == 'Ge': r = int(p >= q)
                except Exception: r = None
                if r is not None and (r >= 0 or base == 'Sub'):
                    if op.endswith('WithOverflow'):
                        return V(tup(V(INT(r)), V(INT(0))))
                    return V(INT(r))
        if op.endswith('WithOverflow'):
            return V(('op', 'ovf:' + op[:-len('WithOverflow')], (a, b)))
        return mkop(op.replace('Unchecked', ''), a, b)

    def box_ty(self, dest, fn):
        if not dest or len(dest) != 1: return False
        try: return fn.local_ty(dest[0]).s.startswith('std::boxed::Box<')
        except (KeyError, IndexError, AttributeError): return False

    def rvalue(self, r, fr, fn, st, dest=None):
        k = r[0]
        if k == 'use':
            # the address of what a Box holds: only an elaborated `*box` copies a Box
            if self.boxes and 'p' in r[1] and not r[1].get('m') and len(r[1]['p']) > 1 and self.box_ty(dest, fn): return self.rvalue(['ref', r[1]['p'], True], fr, fn, st)
            return self.operand(r[1], fr, fn, st)
        if k == 'cast' and self.boxes and r[1] == 'BoxDerefTransmute' and r[2]['p'][-1] == '*': return self.operand(dict(r[2], p=r[2]['p'][:-1]), fr, fn, st)
        if k == 'ref':
            pl = r[1]
            if r[2]:  # &mut
                projs = [self.cidx(p, fr, st) for p in pl[1:]]
                if '*' in projs:
                    i = len(projs) - 1 - projs[::-1].index('*')
                    base = st.get((fr, pl[0]), EMPTY)
                    for p in projs[:i]: base = self.proj(base, p, st)
                    out = []
                    for a in base:
                        if a[0] == 'addr': out.append(('addr', a[1], a[2], tuple(a[3]) + tuple(projs[i+1:])))
                        elif a[0] == 'sym':
                            path = a[2]
                            bad = False
                            for p in projs[i+1:]:
                                if isinstance(p, tuple) and p[0] == 'f': path = self.sym_key(path, p[2])
                                elif isinstance(p, tuple) and p[0] == 'd': path = path + ('#' + p[2],)
                                elif isinstance(p, tuple) and p[0] in ('i', 'ci'): path = path + ('[]',)
                                else: bad = True
                            out.append(('sym', a[1], path) if not bad else TOP)
                        else:
                            out.extend(self.proj_path(V(a), projs[i+1:], st))
                    return frozenset(out)
                return V(('addr', fr, pl[0], tuple(projs)))
            return self.read_ref(fr, pl, st)
        if k == 'ptr': return self.read_ref(fr, r[1], st)
        if k == 'repeat':
            v = self.operand(r[1], fr, fn, st)
            if r[2] is not None and r[2] <= 64: return V(('agg', 'array', None, (v,) * r[2]))
            return V(('vec', v))
        if k == 'cast':
            v = self.operand(r[2], fr, fn, st)
            kind = r[1]
            if kind.startswith(('PtrToPtr', 'PointerCoercion', 'Transmute', 'PointerExpose', 'Subtype', 'FnPtrToPtr')):
                return v
            ty = self.prog.ty(fn.crate, r[3]).s; fty = self.prog.ty(fn.crate, r[4]).s
            if ty.startswith(('*const', '*mut', '&')) or fty.startswith(('*const', '*mut', '&')): return v
            if all(a[0] == 'int' for a in v) and v:
                return frozenset(('int', wrap_int(a[1], ty)) for a in v)
            return mkop('cast:%s->%s' % (fty, ty), v)
        if k == 'bin':
            a = self.operand(r[2], fr, fn, st); b = self.operand(r[3], fr, fn, st)
            return self.binop(r[1], a, b)
        if k == 'un':
            a = self.operand(r[2], fr, fn, st)
            if r[1] == 'Not':
                ty = self.operand_ty(r[2], fn)
                m = re.fullmatch(r'[ui](8|16|32|64|128|size)', ty or '')
                if m:
                    if all(x[0] == 'int' for x in a) and a: return frozenset(INT(wrap_int(~x[1], ty)) for x in a)
                    return mkop('Not', a)
            if r[1] == 'Not' and len(a) == 1:
                x = next(iter(a))
                if x[0] == 'int' and x[1] in (0, 1): return V(INT(1 - x[1]))
                if x[0] == 'op' and x[1] == 'Not': return x[2][0]
            if r[1] == 'Not' and len(a) > 1 and all(x[0] == 'int' and x[1] in (0, 1) for x in a): return frozenset(INT(1 - x[1]) for x in a)
            if r[1] == 'PtrMetadata':
                return self.length(a, st)
            return mkop(r[1], a)
        if k == 'discr':
            v = self.read_place(fr, r[1], st)
            adt = self.prog.ty(fn.crate, r[2]).adt
            return frozenset(('dsc', a, adt) for a in v) or V(('dsc', TOP, adt))
        if k == 'agg':
            fs = tuple(self.operand(o, fr, fn, st) for o in r[4])
            if r[1] == 'adt': return V(('agg', r[2], r[3], fs))
            if r[1] == 'closure': return V(('clo', r[2], fs))
            if r[1] == 'array': return V(('agg', 'array', None, fs))
            return V(('agg', 'tuple', None, fs))
        return VTOP

    def proj_path(self, v, projs, st):
        for p in projs: v = self.proj(v, p, st)
        return v

    def length(self, a, st):
        out = []
        for x in a:
            if x[0] == 'agg' and x[1] == 'array': out.append(INT(len(x[3])))
            else: out.append(('op', 'len', (V(x),)))
        return frozenset(out)

    def read_ref(self, fr, pl, st):
        return self.read_place(fr, pl, st)

    # ---- branch refinement
    def variant_of(self, adt, val):
        a = self.prog.adt(adt) if adt else None
        if not a: return None
        for v in a['v']:
            if v['d'] == val or v['d'] < 0 and val in (v['d'] & 0xff, v['d'] & 0xffff, v['d'] & 0xffffffff, v['d'] & (2**64-1)): return v['n']
        return None

    def switch(self, t, fr, fn, st, bb):
        """yield (target, state)"""
        _, o, cases, other, dti = t
        v = self.operand(o, fr, fn, st)
        dplace = None
        # find discriminant source place in same block
        if 'p' in o and len(o['p']) == 1:
            for s in reversed(fn.blocks[bb]['s']):
                if s[0] == 'a' and s[1] == o['p']:
                    if s[2][0] == 'discr': dplace = s[2][1]
                    break
        outs = {}
        casevals = [c[0] for c in cases]
        def add(target, atom, label, src):
            e = outs.setdefault(target, [set(), set(), False])
            e[0].add((atom, label)); e[1].add(src)
        for a in v:
            if self.number is not None and a[0] in ('op', 'sym'):
                n = self.number(a)
                if n is not None: a = ('int', n)
            if a[0] == 'int':
                tgt = None
                for cv, tb in cases:
                    if cv == a[1]: tgt = tb
                if tgt is None: tgt = other
                add(tgt, None, None, a)
            elif a[0] == 'dsc':
                base = a[1]; adt = a[2]
                if adt and adt.split('::')[-1] == 'SeqKind' and (base[0] == 'vec' or base[0] == 'op' and base[1] in ('push', 'extend')
                                                                  or base[0] == 'sym' and isinstance(base[1], str) and base[1].startswith('E:')):
                    # a Vec converted into its sequence wrapper is always the strict form
                    tgt = None
                    for cv, tb in cases:
                        if self.variant_of(adt, cv) == 'Strict': tgt = tb
                    add(other if tgt is None else tgt, None, None, base)
                elif base[0] == 'agg' and base[2] is not None:
                    tgt = None
                    for cv, tb in cases:
                        if self.variant_of(adt, cv) == base[2]: tgt = tb
                    if tgt is None: tgt = other
                    add(tgt, None, None, base)
                else:
                    allv = self.prog.adt(adt)
                    names = [x['n'] for x in allv['v']] if allv else None
                    seen = []
                    prev = None
                    gs = st.get('G', frozenset())
                    known = [lab for (ga, lab) in gs if ga == base and isinstance(lab, str) and lab.startswith('is:')]
                    neg = set()
                    for (ga, lab) in gs:
                        if ga == base and isinstance(lab, str) and lab.startswith('not:'):
                            neg |= set(lab[4:].split('|'))
                    for cv, tb in cases:
                        n = self.variant_of(adt, cv) or str(cv)
                        seen.append(n)
                        if known and ('is:' + n) not in known: continue
                        if n in neg: continue
                        add(tb, base, 'is:' + n, base)
                    rest = [n for n in (names or []) if n not in seen]
                    if names is None or rest:
                        if known and not any(k[3:] in rest for k in known): continue
                        if names is not None and all(r in neg for r in rest): continue
                        lab = 'is:' + rest[0] if len(rest) == 1 else 'not:' + '|'.join(seen)
                        add(other, base, lab, base)
            else:
                gs = st.get('G', frozenset())
                known = [lab for (ga, lab) in gs if ga == a and isinstance(lab, int)]
                for cv, tb in cases:
                    if known and cv not in known: continue
                    add(tb, a, cv, a)
                if known and any(k in casevals for k in known): continue
                ty = self.prog.ty(fn.crate, dti).s
                if ty == 'bool' and set(casevals) == {0}:
                    if not known or 1 in known: add(other, a, 1, a)
                elif ty == 'bool' and set(casevals) == {0, 1}: pass
                else: add(other, a, ('not', tuple(casevals)), a)
        if not v:
            for cv, tb in cases: yield tb, dict(st)
            yield other, dict(st); return
        for tgt, (gl, srcs, _) in outs.items():
            ns = dict(st)
            labs = set(gl)
            if len(labs) == 1:
                atom, lab = next(iter(labs))
                if atom is not None: ns['G'] = ns.get('G', frozenset()) | {(atom, lab)}
            if dplace is not None:
                # refine the scrutinised place
                cur = self.read_place(fr, dplace, ns)
                keep = frozenset(a for a in cur if a in srcs)
                if keep and keep != cur:
                    self.refine(fr, dplace, keep, ns)
            yield tgt, ns

    def refine(self, fr, pl, keep, st):
        projs = [tuple(p) if isinstance(p, list) else p for p in pl[1:]]
        if '*' in projs:
            # reference snapshot: only handle `*local`
            if projs == ['*']:
                cur = st.get((fr, pl[0]), EMPTY)
                if all(a[0] != 'addr' for a in cur): st[(fr, pl[0])] = keep
            return
        old = st.get((fr, pl[0]), EMPTY)
        st[(fr, pl[0])] = self.update(old, projs, keep, st)

    # ---- function execution
    def run(self, fn, args, st=None, key=()):
        st = dict(st or {})
        st.setdefault('G', frozenset())
        return self.exec_fn(fn, args, st, key or ('root:' + fn.name,), outer=True)

    def exec_fn(self, fn, args, st, key, outer=False):
        fr = self.frame(key)
        for k in [k for k in st if k[0] == fr and isinstance(k[0], int)]: del st[k]
        for i, a in enumerate(args): st[(fr, i + 1)] = a
        blocks = fn.blocks
        # reverse postorder
        rpo = fn.__dict__.get('_rpo')
        if rpo is None:
            rpo = rpo_of(fn); fn.__dict__['_rpo'] = rpo
        order, heads = rpo
        # a node is a block, or with ordered sequences a block and the lengths of the sequences the frame holds
        nodes = {}
        def node(bb, s):
            if not self.lists: return bb
            sig = signature(s, fr, self.lists == 2); seen = nodes.setdefault(bb, set())
            if self.split is not None: sig = (sig, self.split(s, fr))
            if sig not in seen and len(seen) >= (24 if self.split is None else 400): return (bb, None)
            seen.add(sig)
            return (bb, sig)
        n0 = node(0, st)
        entry = {n0: st}; visits = {}; seq = 0
        import heapq
        work = [(order[0], 0, n0)]; inw = {n0}
        retv = EMPTY; rets = {}
        while work:
            _, _, nd = heapq.heappop(work); inw.discard(nd)
            bb = nd[0] if self.lists else nd
            self.steps += 1
            s = dict(entry[nd])
            visits[nd] = visits.get(nd, 0) + 1
            outs = []
            b = blocks[bb]
            for stt in b['s']:
                if stt[0] == 'a':
                    v = self.rvalue(stt[2], fr, fn, s, stt[1])
                    self.write_place(fr, stt[1], v, s)
                elif stt[0] == 'sd':
                    old = self.read_place(fr, stt[1], s)
                    nv = frozenset(('agg', a[1], stt[2], a[3]) if a[0] == 'agg' else TOP for a in old)
                    self.write_place(fr, stt[1], nv, s)
            t = b['t']; k = t[0]
            if k == 'goto': outs.append((t[1], s))
            elif k == 'switch': outs.extend(self.switch(t, fr, fn, s, bb))
            elif k == 'return':
                rets[nd] = (s.get((fr, 0), EMPTY), s)
            elif k == 'drop': outs.append((t[2], s))
            elif k == 'assert':
                try:
                    self.on_assert(t, fr, fn, s, bb, key)
                    outs.append((t[4], s))
                except Diverge:
                    pass
            elif k == 'call':
                try:
                    v, s2 = self.call(t, fr, fn, s, bb, key)
                    if t[4] is not None:
                        self.write_place(fr, t[3], v, s2)
                        outs.append((t[4], s2))
                except Diverge:
                    pass
            for tgt, ns in outs:
                if blocks[tgt].get('cl'): continue
                tn = node(tgt, ns)
                old = entry.get(tn)
                if old is None:
                    entry[tn] = ns; changed = True
                else:
                    nv = visits.get(tn, 0)
                    changed = self.join_state(old, ns, tgt, fr, widen=(tgt in heads and nv >= 3), hard=(nv >= 12), frk=key)
                if changed and tn not in inw:
                    seq += 1; heapq.heappush(work, (order.get(tgt, 10**6), seq, tn)); inw.add(tn)
            if visits[nd] > 60: raise RuntimeError('no fixpoint in %s bb%d' % (fn.name, bb))
        if not rets: raise Diverge()
        out = None
        for bb, (v, s) in rets.items():
            if outer: self.returns.append((v, s.get('G', frozenset()), bb[0] if self.lists else bb))
            retv = join(retv, v)
            if out is None: out = s
            else: self.join_state(out, s, -1, fr, False, False, key)
        for k2 in [k2 for k2 in out if isinstance(k2[0], int) and k2[0] == fr]:
            if not outer: del out[k2]
        self.final_state = out
        return retv, out

    def join_state(self, old, new, bb, fr, widen, hard, frk):
        """join `new` into `old` in place; True when old changed"""
        changed = False
        for k, v in new.items():
            if k == 'G':
                g = old.get('G', frozenset()) & v
                if g != old.get('G'): old['G'] = g; changed = True
                continue
            o = old.get(k)
            if o is None:
                if k[0] == 'heap': o = V(('sym', k[1], k[2]))
                else:
                    old[k] = v; changed = True; continue
            if v is o or v == o or v <= o: 
                if k not in old: old[k] = o
                continue
            j = join(o, v)
            if widen: j = self.widen(o, j, (frk, bb, k), hard)
            if j != o: old[k] = j; changed = True
            elif k not in old: old[k] = o
        for k in [k for k in old if k not in new]:
            if k != 'G' and k[0] == 'heap':
                j = join(old[k], V(('sym', k[1], k[2])))
                if j != old[k]: old[k] = j; changed = True
        return changed

    def widen(self, o, j, key, hard):
        j = merge_aggs(j)
        out = []
        for a in j:
            if a in o: out.append(a); continue
            if a[0] in ('op', 'int', 'dsc', 'str'): out.append(('phi', key))
            elif a[0] == 'agg':
                # compare with same constructor in o
                mate = [x for x in o if x[0] == 'agg' and x[1:3] == a[1:3] and len(x[3]) == len(a[3])]
                if mate:
                    m = mate[0]
                    fs = tuple(self.widen(m[3][i], a[3][i], (key, i), hard) for i in range(len(a[3])))
                    out.append(('agg', a[1], a[2], fs))
                elif hard: out.append(TOP)
                else: out.append(a)
            elif a[0] == 'vec':
                mate = [x for x in o if x[0] == 'vec']
                if mate: out.append(('vec', self.widen(mate[0][1], a[1], (key, 'e'), hard)))
                else: out.append(a)
            else: out.append(a)
        r = frozenset(out)
        if ('phi', key) in r:
            # drop the op/int alternatives subsumed by the loop-carried value
            r = frozenset(a for a in r if a[0] not in ('op', 'int', 'dsc') or a in o)
            r = frozenset(a for a in r if a[0] not in ('op', 'dsc'))| {('phi', key)}
        if hard and len(r) > 8: r = frozenset(a for a in r if a[0] != 'agg') | {TOP} if len(r) > 40 else r
        return merge_aggs(r)

    def on_assert(self, t, fr, fn, st, bb, key): pass

    # ---- calls
    def call(self, t, fr, fn, st, bb, key):
        _, f, args, dest, target, line = t
        vals = [self.operand(a, fr, fn, st) for a in args]
        site = key + ((fn.name, bb),)
        targs = []
        names = []
        if 'fn' in f:
            names = [f.get('res') or f['fn']]
            targs = [self.tparam(self.prog.ty(fn.crate, x), fr) for x in f.get('a', [])]
            base = f['fn']
        else:
            fv = self.operand(f, fr, fn, st)
            for a in fv:
                if a[0] == 'fn': names.append(a[1])
                elif a[0] == 'clo': names.append(a[1])
            base = names[0] if names else '?'
            if not names: names = ['?indirect']
        if len(names) == 1:
            return self.dispatch(names[0], base, vals, targs, st, site, fn, bb, line, target, f)
        rv = EMPTY; rs = None
        for n in names:
            try:
                v, s = self.dispatch(n, base, vals, targs, dict(st), site + (n,), fn, bb, line, target, f)
            except Diverge: continue
            rv = join(rv, v)
            if rs is None: rs = s
            else: self.join_state(rs, s, -1, fr, False, False, key)
        if rs is None: raise Diverge()
        return rv, rs

    def record(self, site, name, vals, ret, st, fn, bb, line, targs):
        e = self.events.get(site)
        self._order += 1
        if e is None:
            e = Event(); e.site = site; e.callee = name; e.args = list(vals); e.ret = ret
            e.guards = st.get('G', frozenset()); e.fn = fn; e.bb = bb; e.line = line; e.targs = targs
            e.order = self._order
            self.events[site] = e
        else:
            e.args = [join(a, b) for a, b in zip(e.args, vals)]
            if ret is not None: e.ret = join(e.ret or EMPTY, ret)
            e.guards = e.guards & st.get('G', frozenset())
        return e

    def snap(self, v, st):
        """resolve &mut addresses to the current contents (for recording)"""
        out = []
        for a in v:
            if a[0] == 'addr': out.extend(self.load_addr(a, st))
            else: out.append(a)
        return frozenset(out)

    def dispatch(self, name, base, vals, targs, st, site, fn, bb, line, target, f):
        nn = norm(name)
        # calling a closure / function value
        bn = norm(base)
        if bn in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call') and vals:
            callee = vals[0]
            if any(a[0] == 'addr' for a in callee): callee = self.snap(callee, st)
            cargs = vals[1] if len(vals) > 1 else V(UNIT)
            alist = self.untuple(cargs)
            return self.call_value(callee, alist, st, site, fn, bb, line, self_ref=vals[0])
        if self.barrier(name, nn):
            ret = V(('sym', ('ret', site, nn), ()))
            self.record(site, nn, [self.snap(v, st) for v in vals], ret, st, fn, bb, line, targs)
            if target is None: raise Diverge()
            return ret, st
        if self.model is not None:
            r = self.model(self, name, nn, vals, targs, st, site, fn, bb, line)
            if r is not None:
                self.record(site, nn, [self.snap(v, st) for v in vals], r, st, fn, bb, line, targs)
                return r, st
        if target is None and not self.local(name):
            e = self.record(site, nn, [self.snap(v, st) for v in vals], None, st, fn, bb, line, targs)
            self.panics.append(e)
            raise Diverge()
        r = std_model(self, name, nn, bn, vals, targs, st, site, fn, bb, line)
        if r is not None:
            self.record(site, nn, [self.snap(v, st) for v in vals], r[0], st, fn, bb, line, targs)
            return r
        lf = self.local(name)
        if lf is None and self.dyn and vals: lf = self.by_receiver(nn, vals[0], st)
        if lf is not None and self.depth < self.max_depth and not self.recursive(site, lf, vals, st):
            self.record(site, nn, [self.snap(v, st) for v in vals], None, st, fn, bb, line, targs)
            self.inlined.add(lf.name)
            if name == base and targs and len(targs) == len(lf.d.get('gen', ())): self.tsub[self.frame(site)] = dict(zip(lf.d['gen'], targs))
            self.depth += 1
            try:
                v, s = self.exec_fn(lf, vals, st, site)
            finally:
                self.depth -= 1
            ev = self.events[site]; ev.ret = join(ev.ret or EMPTY, v)
            return v, s
        return self.opaque_call(name, nn, vals, targs, st, site, fn, bb, line)

    def tparam(self, t, fr):
        """the type a type parameter stands for in a frame, when known"""
        return self.tsub.get(fr, {}).get(t.s, t) if t.k == 'param' else t

    def local(self, name):
        f = self.prog.fns.get(name)
        return f

    dyn = False
    def by_receiver(self, nn, v, st):
        """implementation of a trait method chosen by the known type of the receiver"""
        if nn.startswith('<') or nn.count('::') != 1: return None
        tr, m = nn.split('::'); fs = set()
        for a in self.snap(v, st):
            if a[0] != 'agg': return None
            t = {'array': 'Vec', 'tuple': '()'}.get(a[1], a[1].split('::')[-1])
            c = self.prog.by_norm.get('<%s as %s>::%s' % (t, tr, m), [])
            if t == '()': c = [f for f in c if _tuple_fits(f.name, a[3])]
            if len(c) != 1: return None
            fs.add(c[0])
        return next(iter(fs)) if len(fs) == 1 else None

    def recursive(self, site, lf, vals=None, st=None):
        n = 0
        for s in site:
            if isinstance(s, tuple) and len(s) == 2 and s[0] == lf.name: n += 1
        # a recursion over a known term ends; one over an unknown term is cut at once
        if n and self.dyn and vals and not all(a[0] == 'agg' for a in self.snap(vals[0], st)): return True
        return n > self.recur

    def opaque_call(self, name, nn, vals, targs, st, site, fn, bb, line):
        self.opaque.add(nn)
        ret = V(('sym', ('ret', site, nn), ()))
        self.record(site, nn, [self.snap(v, st) for v in vals], ret, st, fn, bb, line, targs)
        for i, v in enumerate(vals):
            for a in v:
                if a[0] == 'addr':
                    old = self.load_addr(a, st)
                    self.store_addr(a, (), V(('op', 'mut:' + nn, (old,) + tuple(self.snap(x, st) for j, x in enumerate(vals) if j != i))), st, len(v) > 1)
                elif a[0] == 'clo':
                    try:
                        _, st2 = self.call_value(V(a), None, dict(st), site + ('clo%d' % i,), fn, bb, line)
                        self.join_state(st, st2, -1, -1, False, False, site)
                    except Diverge: pass
        return ret, st

    def untuple(self, v):
        n = None
        for a in v:
            if a[0] == 'agg' and a[1] in ('tuple', 'partial'):
                n = max(n or 0, len(a[3]))
        if n is None:
            return None if v else []
        cols = [EMPTY] * n
        for a in v:
            if a[0] == 'agg':
                for i, f in enumerate(a[3]): cols[i] = join(cols[i], f)
        return cols

    def call_value(self, callee, args, st, site, fn, bb, line, self_ref=None):
        """invoke closures / fn items held in a value"""
        rv = EMPTY; rs = None
        for idx, a in enumerate(sorted(callee, key=lambda x: repr(x[:2]))):
            s = dict(st); r = None
            k = site if len(callee) == 1 else site + (idx,)
            try:
                if a[0] == 'clo':
                    lf = self.local(a[1])
                    if lf is None: r = (V(('sym', ('ret', k, 'closure'), ())), s)
                    elif self.recursive(k, lf): r = (V(('sym', ('ret', k, norm(a[1])), ())), s)
                    else:
                        n = lf.argc
                        al = args if args is not None else [V(('sym', ('arg', k, i), ())) for i in range(n - 1)]
                        # closures receive their arguments either spread or as one tuple
                        if n - 1 != len(al):
                            if n == 2: al = [V(tup(*al))]
                            else: al = (al + [VTOP] * n)[:n - 1]
                        me = V(a)
                        if self_ref is not None and any(x[0] == 'addr' for x in self_ref): me = self_ref
                        self.inlined.add(lf.name)
                        self.depth += 1
                        try: r = self.exec_fn(lf, [me] + list(al), s, k + ((lf.name, -1),))
                        finally: self.depth -= 1
                elif a[0] == 'fn':
                    al = args if args is not None else []
                    nm = a[1]
                    r = self.dispatch_named(nm, al, s, k, fn, bb, line)
                else:
                    v = self.applied(self, a, args, s) if self.applied else None
                    r = (v if v is not None else V(('sym', ('ret', k, 'indirect'), ())), s)
            except Diverge:
                continue
            rv = join(rv, r[0])
            if rs is None: rs = r[1]
            else: self.join_state(rs, r[1], -1, -1, False, False, site)
        if rs is None: raise Diverge()
        return rv, rs

    def dispatch_named(self, nm, al, st, site, fn, bb, line):
        # tuple-struct / enum constructors used as functions
        parts = strip_generics(nm).split('::')
        for k in (nm, strip_generics(nm)):
            p = '::'.join(strip_generics(k).split('::')[:-1])
            a = self.prog.adts.get(p)
            if a:
                for v in a['v']:
                    if v['n'] == parts[-1] and (a['enum']):
                        return V(('agg', p, v['n'], tuple(al))), st
            a = self.prog.adts.get(strip_generics(k))
            if a and not a['enum']:
                return V(('agg', strip_generics(k), a['v'][0]['n'], tuple(al))), st
        return self.dispatch(nm, nm, list(al), [], st, site, fn, bb, line, 0, {})

def _tuple_fits(name, fields):
    """is the first type named in `<(A, B) as Trait>` the type of the first field"""
    i = name.find('<('); t = re.split(r'[,<]', name[i + 2:])[0].split('::')[-1]
    for a in fields[0]:
        if a[0] == 'agg': return a[1].split('::')[-1] == t
        if a[0] == 'str': return t in ('Cow', 'String')
    return False

class _PromFn:
    def __init__(self, fn, body):
        self.prog = fn.prog; self.crate = fn.crate; self._b = body; self._f = fn
        self.name = fn.name + '::promoted'
        self.d = body
    @property
    def blocks(self): return self._b['blocks']
    @property
    def argc(self): return 0
    @property
    def file(self): return self._f.file

def wrap_int(n, ty):
    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64,
            'isize': 64, 'u128': 128, 'i128': 128}.get(ty)
    if bits is None: return n
    n &= (1 << bits) - 1
    if ty[0] == 'i' and n >> (bits - 1): n -= 1 << bits
    return n

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [c[1] for c in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    return []

def rpo_of(fn):
    blocks = fn.blocks
    seen = set(); post = []; heads = set(); onstack = set()
    stack = [(0, iter(succs(blocks[0]['t'])))]; seen.add(0); onstack.add(0)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if blocks[s].get('cl'): continue
            if s not in seen:
                seen.add(s); onstack.add(s); stack.append((s, iter(succs(blocks[s]['t'])))); adv = True; break
            elif s in onstack: heads.add(s)
        if not adv:
            stack.pop(); onstack.discard(b); post.append(b)
    order = {b: i for i, b in enumerate(reversed(post))}
    return order, heads

from stdmodel import std_model  # noqa: E402
from lists import signature  # noqa: E402
