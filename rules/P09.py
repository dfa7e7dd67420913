"""A pattern matches exactly the values it describes, and binds its names to exactly the parts they stand for."""
import re
import absint as A, common as C, patterns
CRATES = ['doodle']
RULE = ('For both matchers, every pattern kind x value kind x answer of the primitive comparisons (equality, range membership, equal length, '
        'nested match) is run abstractly over the MIR: the verdict must be the one the pattern kind defines, the compared data must be the '
        "pattern's and the value's own, nested patterns must be paired with the nested value, unwrapped, and names bound to the value matched.")
NUM = ('U8', 'U16', 'U32', 'U64', 'Usize', 'Numeric')
COMPAT = {'Bool': ('Bool',), 'U8': ('U8', 'Numeric'), 'U16': ('U16', 'Numeric'), 'U32': ('U32', 'Numeric'), 'U64': ('U64', 'Numeric'),
          'Int': NUM, 'ZConst': NUM, 'ZRange': NUM, 'Char': ('Char',), 'Tuple': ('Tuple',), 'Seq': ('Seq:Strict', 'Seq:Dup'), 'Variant': ('Variant',),
          'Option:Some': ('Option:Some',), 'Option:None': ('Option:None',)}
NEST = {'Tuple': ('val.Tuple.0', 'pat.Tuple.0'), 'Seq': ('val.(Strict.0|Dup)', 'pat.Seq.0'), 'Variant': ('val.Variant.1', 'pat.Variant.1'), 'Option:Some': ('val.Some.0', 'pat.Some.0')}

def verdict(r):
    if r is None: return None
    if all(a[0] == 'int' for a in r): return frozenset(a[1] for a in r)
    return None

def run(prog, rep, tier):
    p = patterns.Patterns(prog); c = p.c; n = 0
    if None in p.fns.values() or p.adt is None:
        rep.floor(0, 'matchers', 2); return
    for located in (False, True):
        tag = 'located' if located else 'plain'; where = '%s %s' % (p.fns[located].loc(), p.fns[located].name)
        for case, _ in p.cases():
            for kind in p.kinds():
                key = '%s:%s/%s' % (tag, case, kind); ok = kind in COMPAT.get(case, ()); every = case in ('Binding', 'Wildcard')
                if kind in ('Mapped', 'Branch') and not every: continue       # unwrapped before they get here
                got = {}; nested = []; asked = []; bound = []
                for yes, rec in ((1, 1), (1, 0), (0, 1)):
                    an, r = p.run(located, case, kind, yes, rec); n += 1
                    rep.analysed_fns(an.inlined | {p.fns[located].name})
                    got[yes, rec] = verdict(r)
                    if r is None: got[yes, rec] = frozenset(['panic'])
                    nested += p.nested; asked += p.asked; bound += p.bound
                rep.count('cases')
                if not rep.known(None not in got.values(), key, 'verdict not understood', where): continue
                if every: exp = {(1, 1): {1}, (1, 0): {1}, (0, 1): {1}}
                elif not ok: exp = {(1, 1): {0}, (1, 0): {0}, (0, 1): {0}}
                elif case in ('Tuple', 'Seq'): exp = {(1, 1): {1}, (1, 0): {0, 1}, (0, 1): {0}}
                elif case == 'Variant': exp = {(1, 1): {1}, (1, 0): {0}, (0, 1): {0}}
                elif case == 'Option:Some': exp = {(1, 1): {1}, (1, 0): {0}, (0, 1): {1}}
                elif case == 'Option:None': exp = {(1, 1): {1}, (1, 0): {1}, (0, 1): {1}}
                else: exp = {(1, 1): {1}, (1, 0): {1}, (0, 1): {0}}
                bad = [k for k in exp if got[k] != frozenset(exp[k])]
                rep.ob(not bad, key + ':verdict', 'pattern %s against a %s value: with comparison=%s nested=%s the verdict is %s, defined %s' % (
                    (case, kind) + ((bad[0] + (sorted(map(str, got[bad[0]])), sorted(exp[bad[0]]))) if bad else (0, 0, 0, 0))), where)
                if case == 'Binding':
                    bs = set((c.v(a), c.v(b)) for a, b in bound)
                    v = p.x.pval(kind, 'val') if located else p.x.kval(kind, 'val')
                    rep.ob(bs == {('pat.Binding.0', c.v(v))}, key + ':binds', 'a binding pattern binds %s' % sorted(bs), where)
                else:
                    rep.ob(not bound, key + ':binds', 'pattern %s binds %s itself' % (case, [(c.v(a), c.v(b)) for a, b in bound][:2]), where)
                if ok and case in NEST:
                    rv, rp = NEST[case]
                    ns = set((c.v(a), c.v(b)) for a, b in nested)
                    if not rep.known(ns, key + ':nested', 'nested match not found', where): continue
                    for a, b in sorted(ns):
                        m = re.match(r'(COERCE\[)?(.*?)(\])?$', a)
                        fits = lambda s, root: re.search(root.replace('.', r'\.').replace(r'(Strict\.0|Dup)', r'(Strict\.0|Dup)'), s) or 'repeat_n' in s
                        odd = re.search(r'\b(rev|skip|take|step_by|chain|filter)\[', a + b)
                        rep.ob(not odd and (fits(a, rv)) and rp in b, key + ':paired', 'nested pattern %s is matched against %s' % (b, a), where)
                        rep.ob('COERCE[' in a, key + ':unwrapped', 'nested value %s is matched without unwrapping mapped/branch/permitted values' % a, where)
    # entry points: unwrap, match, and answer with the extended scope exactly when matched
    for located in (False, True):
        fn = p.top[located]; tag = 'located' if located else 'plain'
        if not rep.known(fn is not None, tag + ':matches', 'entry not found'): continue
        for rec in (1, 0):
            seen = []
            def model(an, name, nn, vals, targs, st, site, f, bb, line):
                last = nn.split('::')[-1]
                if last == 'coerce_nominal_value': return A.V(('op', 'COERCE', (an.snap(vals[0], st),)))
                if last == 'matches_inner':
                    seen.append([an.snap(v, st) for v in vals]); return A.V(('int', rec))
            an, r = C.run(prog, fn, [C.sym('val'), C.sym('scope'), C.sym('pat')], model=model)
            n += 1
            vs = set(a[2] if a[0] == 'agg' else '?' for a in (r or ()))
            if not rep.known('?' not in vs, tag + ':matches', 'entry result not understood', fn.loc()): continue
            rep.ob(vs == {'Some' if rec else 'None'}, '%s:matches:%d' % (tag, rec), 'a %s pattern yields %s' % ('matching' if rec else 'failing', sorted(vs)), fn.loc())
            rep.ob(seen and all(c.v(s[0]) == 'COERCE[val]' and c.v(s[2]) == 'pat' for s in seen), '%s:matches:operands:%d' % (tag, rec), 'the entry matches %s' % [(c.v(s[0]), c.v(s[2])) for s in seen][:2], fn.loc())
    # unwrapping keeps the mapped (not the original) value and the branch's value
    for located in (False, True):
        owner = 'ParsedValue' if located else 'Value'
        for name, permits in (('coerce_nominal_value', ('Ok', 'ErrSome')), ('coerce_mapped_value', ('Ok',)), ('extract_mapped_value', ('Ok',))):
            fn = prog.one('%s::%s' % (owner, name))
            if fn is None: continue
            adt = p.x.pvalue if located else p.x.value
            for v in adt['v']:
                subs = [None]
                if v['n'] == 'Permit': subs = ['Ok', 'ErrSome', 'ErrNone']
                for sub in subs:
                    f = {}
                    if sub == 'Ok': f['0'] = A.V(A.ok(C.sym('self', 'Ok.0')))
                    if sub == 'ErrSome': f['0'] = A.V(A.err(A.V(A.some(C.sym('self', 'ErrSome.0')))))
                    if sub == 'ErrNone': f['0'] = A.V(A.err(A.V(A.NONE)))
                    val = C.variant_value(adt, v['n'], 'self', f)
                    def model(an, nm, nn, vals, targs, st, site, fn2, bb, line):
                        if nn.split('::')[-1] == name: return A.V(('op', 'COERCE', (an.snap(vals[0], st),)))
                    an, r = C.run(prog, fn, [val], model=model); n += 1
                    rep.analysed_fns({fn.name})
                    got = '!' if r is None else c.v(r)
                    if v['n'] in ('Mapped', 'Branch'): exp = 'COERCE[self.%s.1]' % v['n']
                    elif sub in permits: exp = 'COERCE[self.%s.0]' % sub
                    else: exp = c.v(val)
                    key = '%s:%s:%s%s' % (owner, name, v['n'], ':' + sub if sub else '')
                    if not rep.known('top' not in re.split(r'\W+', got), key, got, fn.loc()): continue
                    rep.ob(got == exp or got == exp.replace('COERCE[', '').replace(']', ''), key, '%s of a %s%s value is %s' % (name, v['n'], ' (%s)' % sub if sub else '', got[:120]), fn.loc())
    rep.floor(n, 'abstract_runs', 1800)
