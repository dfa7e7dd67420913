"""The plain and the located interpreter are the same function, locations aside."""
import re
import absint as A, interp as I, common as C, exprs, patterns
CRATES = ['doodle']
RULE = ('Sibling comparison over MIR: for every node kind, expression kind x operand kind x lambda-result kind, pattern kind x value kind, and '
        'value conversion, the abstract result of the located implementation with locations erased (value built, nested parses with their scope and '
        'cursor, expressions evaluated with their arguments, whether it panics) must equal that of the plain implementation.')

class Erase(I.Canon):
    def erase1(self, a):
        if a[0] == 'op' and a[1] == 'COERCE': return self.erase(a[2][0])
        return super().erase1(a)

    def atom(self, a, d):
        if a[0] == 'op' and a[1] == 'in' and len(a[2][0]) == 1:
            # counting from s to s + n is counting from 0 to n, plus s
            rg = next(iter(a[2][0]))
            if rg[0] == 'agg' and rg[1].split('::')[-1] == 'Range' and len(rg[3]) == 2 and len(rg[3][1]) == 1:
                e = next(iter(rg[3][1]))
                if e[0] == 'op' and e[1] == 'Add' and rg[3][0] in e[2] and rg[3][0] != A.V(('int', 0)):
                    n = e[2][1] if e[2][0] == rg[3][0] else e[2][0]
                    i = 'in[Range(0, %s)]' % self.v(n, d + 1)
                    return {'Add[%s]' % ', '.join(sorted((i, self.v(rg[3][0], d + 1))))}
        if a[0] == 'op' and a[1] in ('BitOr', 'Add', 'BitXor'):
            b = self.shifted(a)
            if b:
                w = len(b) * 8
                if set(b) == set(range(0, w, 8)) and w in (16, 32, 64): return {'u%d::from_be_bytes[ARR(%s)]' % (w, ', '.join(b[k] for k in range(w - 8, -1, -8)))}
        if a[0] == 'op' and a[1] in COMM and len(a[2]) == 2:
            return {'%s[%s]' % (a[1], ', '.join(sorted(self.v(f, d + 1) for f in a[2])))}
        if a[0] == 'op' and len(a[2]) == 1 and I.lossless(a[1]): return set([self.v(a[2][0], d)])
        if a[0] == 'op' and a[1].startswith('try_from:') and len(a[2]) == 1:
            t = self.v(a[2][0], d); m = re.search(r'\.(U8|U16|U32|U64|Usize)\.0$', t)
            if m and '[' not in t.rsplit('.', 2)[0].split('|')[-1] and '|' not in t and BITS[m.group(1)] <= BITS.get(a[1][9:].capitalize(), 0): return {t}
        return super().atom(a, d)
    def shifted(self, a):
        """{shift: byte} when the value is assembled from single bytes shifted to distinct places"""
        out = {}
        def go(v, sh):
            if len(v) != 1: return False
            x = next(iter(v))
            if x[0] == 'op' and len(x[2]) == 1 and I.lossless(x[1]): return go(x[2][0], sh)
            if x[0] == 'op' and x[1] in ('BitOr', 'Add', 'BitXor') and len(x[2]) == 2: return go(x[2][0], sh) and go(x[2][1], sh)
            if x[0] == 'op' and x[1] == 'Shl' and len(x[2]) == 2:
                k = next(iter(x[2][1])) if len(x[2][1]) == 1 else ('?',)
                return k[0] == 'int' and go(x[2][0], sh + k[1])
            t = self.v(v, 1)
            if not (t.endswith('.U8.0') or t.startswith('.0[#U8[')) or sh in out: return False
            out[sh] = t
            return True
        return out if go(frozenset([a]), 0) and len(out) > 1 else None
BITS = {'U8': 8, 'U16': 16, 'U32': 32, 'U64': 64, 'Usize': 64}
COMM = {'Add', 'Mul', 'BitOr', 'BitAnd', 'BitXor', 'Eq', 'Ne'}
ITER = re.compile(r'\b(index|take|skip|rev|at|elem|in|iter|chain|zip|Range\w*|prefix|suffix|step_by|filter|last|collect|map)[\[(]')
def rewritten(a, b):
    """both sides use sequence vocabulary the other one lacks: the same thing may be written in two ways, and the rule does not tell"""
    x, y = set(ITER.findall(a)), set(ITER.findall(b))
    return bool(x - y) and bool(y - x)

SAME = (('ENTRY', 'CUR0'), ('OVIEW', 'VIEW'))  # the same position, before and after a nested parse started there
def clean(s): return 'top' not in re.split(r'\W+', s)

def run(prog, rep, tier):
    c = Erase(prog); c0 = I.Canon(prog); n = 0
    # -- format nodes
    fns = {l: I.Interp(prog, l).fn for l in (False, True)}
    where = '%s / %s' % (fns[False].loc(), fns[True].loc())
    for v in I.variants(prog):
        o = []
        for l in (False, True):
            an, r, s = I.summary(prog, l, v); n += 1
            rep.analysed_fns(an.inlined | {fns[l].name})
            o.append({'value': c0.v(s.values()) if s.ok else '!',
                      'nested parses': sorted(set((c0.v(w), c0.v(I.subst(sc, SAME)), c0.v(I.subst(cur, SAME))) for w, _, sc, cur, _ in s.parses)),
                      'evaluations': sorted(set((c0.v(e.args[0]), tuple(c0.v(a) for a in e.args[2:])) for e in s.evals))})
        for k in o[0]:
            key = 'node:%s:%s' % (v['n'], k); a, b = o[0][k], o[1][k]
            if a != b and (not (clean(str(a)) and clean(str(b))) or rewritten(str(a), str(b))): rep.known(False, key, 'not understood', where); continue
            d = (a, b) if isinstance(a, str) else ([x for x in a if x not in b][:2], [x for x in b if x not in a][:2])
            rep.ob(a == b, key, 'the %s of %s differ: plain %s, located %s' % (k, v['n'], str(d[0])[:200], str(d[1])[:200]), where)
    # -- expressions
    x = exprs.Exprs(prog); kinds = x.kinds()
    if None in x.fns.values(): rep.floor(0, 'evaluators', 2); return
    where = '%s / %s' % (x.fns[False].loc(), x.fns[True].loc())
    def same(key, what, vn, **kw):
        nonlocal n
        o = []
        for l in (False, True):
            an, r = x.run(l, vn, **kw); n += 1
            rep.analysed_fns(an.inlined | {x.fns[l].name})
            lam = sorted(set(c.v(e.args[2]) for e in an.events.values() if e.callee.split('::')[-1] in I.EVALS and I.EVALS[e.callee.split('::')[-1]] == 'LAMBDA' and len(e.args) > 2))
            o.append(('!' if r is None else c.v(r), lam))
        rep.count('expression_cases')
        for i, nm in ((0, 'result'), (1, 'lambda arguments')):
            a, b = o[0][i], o[1][i]
            if a != b and (a == '!' or b == '!') and i == 0: pass
            elif a != b and (not (clean(str(a)) and clean(str(b))) or rewritten(str(a), str(b))): rep.known(False, key + ':' + nm, 'not understood', where); continue
            rep.ob(a == b, key + ':' + nm, 'the %s of %s differ: plain %s, located %s' % (nm, what, str(a)[:200], str(b)[:200]), where)
    for v in x.adt['v']:
        vn = v['n']; fs = x.expr_fields(vn)
        same('expr:%s' % vn, vn, vn)
        for f in fs:
            for k in kinds: same('expr:%s:%s=%s' % (vn, f, k), '%s with operand %s a %s' % (vn, f, k), vn, force={f: k})
        if vn in ('FlatMap', 'FlatMapAccum', 'LeftFold', 'FlatMapList', 'FindByKey', 'Match', 'Destructure'):
            for k in kinds: same('expr:%s:lambda=%s' % (vn, k), '%s whose function yields a %s' % (vn, k), vn, lam=k)
    # -- patterns
    p = patterns.Patterns(prog)
    if None in p.fns.values(): rep.floor(0, 'matchers', 2); return
    where = '%s / %s' % (p.fns[False].loc(), p.fns[True].loc())
    for case, _ in p.cases():
        for kind in p.kinds():
            for yes, rec in ((1, 1), (1, 0), (0, 1)):
                o = []
                for l in (False, True):
                    an, r = p.run(l, case, kind, yes, rec); n += 1
                    rep.analysed_fns(an.inlined | {p.fns[l].name})
                    o.append(('!' if r is None else c.v(r), sorted(set((c.v(q[0]), c.v(q[1])) for q in p.nested)), sorted(set((c.v(a), c.v(b)) for a, b in p.bound))))
                key = 'pattern:%s/%s:%d%d' % (case, kind, yes, rec)
                if o[0] != o[1] and (not (clean(str(o[0])) and clean(str(o[1]))) or rewritten(str(o[0]), str(o[1]))): rep.known(False, key, 'not understood', where); continue
                rep.ob(o[0] == o[1], key, 'matching %s against a %s value differs: plain %s, located %s' % (case, kind, str(o[0])[:150], str(o[1])[:150]), where)
                rep.count('pattern_cases')
    # -- conversions between the two value types keep kind and contents
    it = x.it
    for name in sorted(prog.fns):
        fn = prog.fns[name]
        if '{closure' in name or not name.endswith(('::from', '::from_evaluated', '::clone_into_value', '::into_cow_value', '::into_value')): continue
        if fn.argc != 1: continue
        kin, kout = it.vkind(fn.local_ty(1).s), it.vkind(fn.local_ty(0).s)
        if not kin or not kout or kin == kout: continue
        for k in kinds + ['Mapped', 'Branch']:
            for tag in ('val',):
                v = x.pval(k, tag) if kin == 'ParsedValue' else x.kval(k, tag)
                def model(an, nm, nn, vals, targs, st, site, f, bb, line):
                    lf = an.local(nm)
                    if lf is not None and len(vals) == 1 and f is not None:
                        a, b = it.vkind(lf.local_ty(1).s), it.vkind(lf.local_ty(0).s)
                        if a and b and a != b: return A.V(('op', 'VALOF', (an.snap(vals[0], st),)))
                an, r = C.run(prog, fn, [v], model=model); n += 1
                rep.analysed_fns({fn.name})
                got = '!' if r is None else c.v(r); exp = c.v(v)
                key = 'conversion:%s:%s' % (name.split('|')[-1], k)
                rep.count('conversion_cases')
                gl, el = norm_lists(got), norm_lists(exp)
                if gl != el and got != '!' and (not clean(got) or re.search(r'map|collect|elem|iter', got)): rep.known(False, key, got[:160], fn.loc()); continue
                rep.ob(gl == el, key, 'converting a %s value yields %s' % (k, got[:160]), fn.loc())
    rep.floor(n, 'abstract_runs', 3000)
    rep.floor(rep.counts.get('conversion_cases', 0), 'conversion_cases', 30)

def norm_lists(s):
    """element-wise identities rebuild what they came from"""
    w = r'([\w.]+)'
    s = re.sub(r'LIST\{' + w + r'\.\[\]\}', r'\1', s)
    s = re.sub(r'LIST\{tuple\(' + w + r'\.\[\]\.0, \1\.\[\]\.1\)\}', r'\1', s)
    s = re.sub(r'LIST\{elem\[(?:Into)?Iter::Strict\(iter\[' + w + r'\]\)\]\}', r'\1', s)
    s = re.sub(r'LIST\{' + w + r'\.Dup\.1\}', r'SeqKind::Dup(\1.Dup.0, \1.Dup.1)', s)  # the copies spelled out
    s = re.sub(r'Option::None\(\)\|Option::Some\(' + w + r'\.Some\.0\)', r'\1', s)
    return s
