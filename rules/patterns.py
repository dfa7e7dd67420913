"""Abstract runs of the two pattern matchers, split by pattern kind, value kind and the answers of the primitive comparisons."""
import absint as A, interp as I, common as C
import exprs

ANSWER = ('contains', 'eq_num')
class Patterns:
    def __init__(self, prog):
        self.prog = prog; self.x = exprs.Exprs(prog); self.c = self.x.c
        self.adt = C.adt(prog, 'Pattern', lambda a: any(v['n'] == 'ZRange' for v in a['v']))
        self.fns = {False: prog.one('Value::matches_inner'), True: prog.one('ParsedValue::matches_inner')}
        self.top = {False: prog.one('Value::matches'), True: prog.one('ParsedValue::matches')}
    def kinds(self): return self.x.kinds() + ['Mapped', 'Branch']
    def cases(self):
        for v in self.adt['v']:
            if v['n'] == 'Option': yield 'Option:Some', v; yield 'Option:None', v
            else: yield v['n'], v
    def pattern(self, case):
        k, _, sub = case.partition(':')
        f = {}
        if k == 'Option': f['0'] = A.V(A.some(C.sym('pat', 'Some.0'))) if sub == 'Some' else A.V(A.NONE)
        return C.variant_value(self.adt, k, 'pat', f)
    def run(self, located, case, kind, yes, rec):
        """yes: answer of every comparison of pattern data with value data; rec: answer of nested matches"""
        asked = []; self.asked = asked; self.nested = []; self.bound = []
        fn = self.fns[located]
        def involves(v, root, d=0):
            for a in v:
                if a[0] == 'sym' and a[1] == root: return True
                if a[0] in ('op',) and any(involves(x, root, d + 1) for x in a[2]): return True
                if a[0] == 'agg' and any(involves(x, root, d + 1) for x in a[3]): return True
                if a[0] == 'vec' and involves(a[1], root, d + 1): return True
            return False
        def both(vs): return any(involves(v, 'pat') for v in vs) and any(involves(v, 'val') for v in vs)
        def cmp(op, a, b):
            if op in ('Eq', 'Ne') and both((a, b)):
                asked.append((a, b))
                return yes if op == 'Eq' else 1 - yes
        def model(an, name, nn, vals, targs, st, site, f, bb, line):
            last = nn.split('::')[-1]; lf = an.local(name)
            if lf is not None and lf is fn or nn.endswith('::matches_inner'):
                sn = [an.snap(v, st) for v in vals]
                self.nested.append((sn[0], sn[2] if len(sn) > 2 else A.EMPTY))
                return A.V(('int', rec))
            if last in ('coerce_nominal_value', 'coerce_mapped_value', 'extract_mapped_value') and len(vals) == 1:
                sn = an.snap(vals[0], st)
                if all(a[0] == 'agg' and a[2] not in ('Mapped', 'Branch', 'Permit') for a in sn): return None
                return A.V(('op', 'COERCE', (sn,)))
            if last == 'push' and len(vals) == 3:
                self.bound.append((an.snap(vals[1], st), an.snap(vals[2], st))); return A.V(A.UNIT)
            if lf is not None and lf.local_ty(0).s == 'bool' and lf is not fn and last != 'matches_inner':
                sn = [an.snap(v, st) for v in vals]
                if both(sn):
                    asked.append(tuple(sn)); return A.V(('int', yes))
            if last == 'contains':
                sn = [an.snap(v, st) for v in vals]
                if both(sn): asked.append(tuple(sn)); return A.V(('int', yes))
        v = self.x.pval(kind, 'val') if located else self.x.kval(kind, 'val')
        an, r = C.run(self.prog, fn, [v, C.sym('scope'), self.pattern(case)], model=model, cmp=cmp)
        return an, r
