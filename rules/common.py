"""Helpers shared by the rules: abstract runs of a function, optionally split by the variant of an enum argument."""
import absint as A
import interp as I
from mir import norm

def adt(prog, short, pred=None):
    for p, a in prog.adts.items():
        if p.split('::')[-1] == short and (pred is None or pred(a)): return a
    return None

def variant_value(a, name, root='self', fields=None):
    """an enum value with a known variant and symbolic operands"""
    v = next(x for x in a['v'] if x['n'] == name)
    fields = fields or {}
    pre = (lambda f: '%s.%s' % (name, f)) if a.get('enum') else (lambda f: f)
    return A.V(('agg', a['adt'], name, tuple(fields[f[0]] if f[0] in fields else A.V(('sym', root, (pre(f[0]),))) for f in v['f'])))

def sym(n, *path): return A.V(('sym', n, tuple(path)))

def run(prog, fn, args, barrier=None, model=None, st=None, **kw):
    """abstract run; (analysis, value or None when it never returns)"""
    b = barrier
    if isinstance(b, (set, list, tuple, frozenset)):
        bs = set(b); b = lambda n, nn: nn in bs
    pure = kw.pop('pure', None)
    if pure:
        m0 = model; ps = pure if callable(pure) else (lambda name, nn, _p=set(pure): nn in _p)
        def model(an, name, nn, vals, targs, st, site, f, bb, line):
            if ps(name, nn): return A.V(('op', nn, tuple(an.snap(v, st) for v in vals)))
            return m0(an, name, nn, vals, targs, st, site, f, bb, line) if m0 else None
    cmp = kw.pop('cmp', None); kept = kw.pop('kept', None); arrays = kw.pop('arrays', False); lists = kw.pop('lists', False); recur = kw.pop('recur', 0); number = kw.pop('number', None); dyn = kw.pop('dyn', False); applied = kw.pop('applied', None)
    asserts = kw.pop('asserts', None); boxes = kw.pop('boxes', False)
    an = A.Analysis(prog, barrier=b, model=model, **kw)
    if asserts: an.on_assert = lambda t, fr, f, s, bb, key: asserts(an, t, fr, f, s)
    an.boxes = boxes; an.cmp = cmp; an.kept = kept; an.arrays = arrays; an.lists = lists; an.recur = recur; an.number = number; an.dyn = dyn; an.applied = applied
    try: r = an.run(fn, args, st)
    except A.Diverge: return an, None
    an.final = r[1] if len(r) > 1 else None
    return an, r[0]

W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}
def overflow(num):
    """hook for checked arithmetic: a step that certainly overflows under the representative ends the path"""
    def chk(an, t, fr, f, s):
        c = t[3]
        if c[0] == 'bounds':
            n, i = [num(an.snap(an.operand(o, fr, f, s), s)) for o in c[1:3]]
            if n is not None and i is not None and not 0 <= i < n: raise A.Diverge()
            return
        if c[0] != 'overflow' or c[1] not in ('Add', 'Sub', 'Mul', 'Shl', 'Shr'): return
        x, y = [num(an.snap(an.operand(o, fr, f, s), s)) for o in c[2:4]]
        if c[1] in ('Shl', 'Shr'):
            if y is not None and not 0 <= y < W.get(an.operand_ty(c[2], f), 128): raise A.Diverge()
            return
        if x is None or y is None: return
        w = W.get(an.operand_ty(c[2], f) or an.operand_ty(c[3], f)); r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[c[1]]
        if w and not 0 <= r < 1 << w: raise A.Diverge()
    return chk

def show(v): return '!' if v is None else I.show(v)

def calls_to(an, *names):
    return [e for e in an.events.values() if e.callee in names]

def involves(v, root):
    """does the value depend on the symbolic input `root`"""
    for a in v:
        if a[0] == 'sym' and a[1] == root: return True
        if a[0] == 'op' and any(involves(x, root) for x in a[2]): return True
        if a[0] in ('agg',) and any(involves(x, root) for x in a[3]): return True
        if a[0] == 'vec' and involves(a[1], root): return True
    return False

def ordering(l, r, o):
    """comparison oracle under the assumption l <o> r (o: -1, 0, 1) for values derived from the inputs l and r"""
    def cmp(op, a, b):
        x = o
        if involves(a, l) and involves(b, r): pass
        elif involves(a, r) and involves(b, l): x = -o
        else: return None
        if op == 'cmp': return x
        return {'Eq': x == 0, 'Ne': x != 0, 'Lt': x < 0, 'Le': x <= 0, 'Gt': x > 0, 'Ge': x >= 0}[op]
    return cmp
