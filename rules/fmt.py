"""Abstract runs of functions over formats, typed formats and lookahead states, one per variant and forced answer."""
import re
import absint as A, interp as I, common as C
from P02 import Erase, clean

class Fmt:
    def __init__(self, prog):
        self.prog = prog; self.c = Erase(prog)
        self.format = C.adt(prog, 'Format', lambda a: any(v['n'] == 'RepeatUntilLast' for v in a['v']))
        self.typed = C.adt(prog, 'TypedFormat')
        self.next = C.adt(prog, 'Next', lambda a: any(v['n'] == 'PeekNot' for v in a['v']))
        self.bounds = C.adt(prog, 'Bounds'); self.expr = C.adt(prog, 'Expr', lambda a: any(v['n'] == 'FlatMap' for v in a['v']))
    def variants(self, typed): return (self.typed if typed else self.format)['v']
    def off(self, typed, vn):
        """number of leading type operands of a typed node"""
        if not typed: return 0
        b = next((v for v in self.format['v'] if v['n'] == {'FormatCall': 'ItemVar'}.get(vn, vn)), None)
        t = next((v for v in self.typed['v'] if v['n'] == vn), None)
        return 1 if b and t and len(t['f']) > len(b['f']) else 0
    def bnd(self, lo, hi):
        """a Bounds value; lo / hi: int or value, hi None for unbounded"""
        v = lambda x: A.V(('int', x)) if isinstance(x, int) else x
        m = {'min': v(lo), 'max': A.V(A.NONE) if hi is None else A.V(A.some(v(hi)))}
        return A.V(('agg', self.bounds['adt'], self.bounds['v'][0]['n'], tuple(m[f[0]] for f in self.bounds['v'][0]['f'])))
    def run(self, fn, args, pure, **kw):
        """pure: {normalised name: token or callable(an, args) -> value}"""
        def model(an, name, nn, vals, targs, st, site, f, bb, line):
            p = pure.get(nn)
            if p is None:
                if nn.split('::')[-1] in ('format_err', 'new_debug', 'new_display', 'format') or nn in ('Error::msg',) or nn.startswith('Arguments'): return A.V(('op', 'text', ()))
                return None
            sn = tuple(an.snap(v, st) for v in vals)
            return p(an, sn) if callable(p) else A.V(('op', p, sn))
        return C.run(self.prog, fn, args, model=model, **kw)

def split(v):
    """(ok payload, err payload) of a Result value, None where that outcome is not reachable"""
    if v is None: return None, None
    o = e = None
    for a in v:
        if a[0] == 'agg' and a[2] == 'Ok': o = (o or frozenset()) | a[3][0]
        elif a[0] == 'agg' and a[2] == 'Err': e = (e or frozenset()) | a[3][0]
        else: o = (o or frozenset()) | frozenset([('op', 'unresolved', (A.V(a),))])
    return o, e

def leaves(c, v, ops):
    """(leaf strings, operators) of an accumulation through the given binary operators, reduce and fold"""
    out = set(); used = set()
    def go(v):
        for a in v:
            if a[0] == 'op' and a[1] in ops: used.add(a[1]); [go(x) for x in a[2]]
            elif a[0] == 'op' and a[1] in ('reduce', 'fold', 'try_fold', 'sum', 'product'): [go(x) for x in a[2]]
            elif a[0] == 'phi': pass
            elif a[0] == 'agg' and a[1] in (A.OPTION, A.RESULT) and a[2] in ('Some', 'Ok'): go(a[3][0])
            else: out.add(c.v(A.V(a)))
    go(v)
    return out, used
