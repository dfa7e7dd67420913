"""Expressions evaluate to what their operator means."""
import re
import absint as A, interp as I, common as C, exprs
from P02 import Erase, clean, rewritten
CRATES = ['doodle']
RULE = ('For every operator x operand kind x (for comparisons) order of the operands, the abstract result over the MIR of Value::int_rel / arith / '
        'unary and of every Expr arm of both evaluators must be the value the operator defines: checked arithmetic, checked narrowing, byte order, '
        'positions and lengths, which operand goes where, which scope a nested expression sees, and fold state threaded from step to step.')
INTS = ('U8', 'U16', 'U32', 'U64', 'Usize')
BITS = {'U8': 8, 'U16': 16, 'U32': 32, 'U64': 64, 'Usize': 64}
REL = {'Eq': {0}, 'Ne': {-1, 1}, 'Lt': {-1}, 'Gt': {1}, 'Lte': {-1, 0}, 'Gte': {0, 1}}
ARITH = {'Add': r'checked_add\[L, R\]', 'Sub': r'checked_sub\[L, R\]', 'Mul': r'checked_mul\[L, R\]', 'Div': r'checked_div\[L, R\]', 'Rem': r'checked_rem\[L, R\]',
         'BitAnd': r'BitAnd\[L, R\]', 'BitOr': r'BitOr\[L, R\]', 'Shl': r'(checked_shl|Shl)\[L, .*(R|AsPrimitive::as_|to_u32).*\]', 'Shr': r'(checked_shr|Shr)\[L, .*(R|AsPrimitive::as_|to_u32).*\]'}
COMMUT = ('Add', 'Mul', 'BitAnd', 'BitOr')

def judge(rep, c, got, pats, key, msg, where):
    """got must match one of the defined forms; a form with vocabulary the rule does not know is undecided"""
    if got != '!' and not clean(got): rep.known(False, key, got[:160], where); return
    rep.ob(any(re.fullmatch(p, got) for p in pats), key, msg % got[:240], where)

def operators(prog, rep, x, c):
    n = 0
    fr, fa, fu = prog.one('Value::int_rel'), prog.one('Value::arith'), prog.one('Value::unary')
    er, ea, eu = C.adt(prog, 'IntRel'), C.adt(prog, 'Arith'), C.adt(prog, 'UnaryOp')
    for f, nm in ((fr, 'int_rel'), (fa, 'arith'), (fu, 'unary')):
        if f is None: rep.known(False, nm, 'operator function not found')
    if fr is not None:
        for v in er['v']:
            if v['n'] not in REL: rep.known(False, 'rel:' + v['n'], 'relation without a rule'); continue
            for k in INTS + ('Numeric',):
                for k2 in (k, 'Numeric') if k != 'Numeric' else INTS + ('Numeric',):
                    for o in (-1, 0, 1):
                        an, r = C.run(prog, fr, [C.variant_value(er, v['n'], 'op'), x.kval(k, 'L'), x.kval(k2, 'R')], cmp=C.ordering('L', 'R', o)); n += 1
                        rep.analysed_fns(an.inlined | {fr.name})
                        got = '!' if r is None else c.v(r); key = 'rel:%s:%s,%s:%+d' % (v['n'], k, k2, o)
                        if got in ('Value::Bool(0|1)', 'Value::Bool(1|0)') or 'Value::Bool(' in got and not re.fullmatch(r'Value::Bool\([01]\)', got): rep.known(False, key, got, fr.loc()); continue
                        if got == '!' and k != k2: continue
                        rep.ob(got == 'Value::Bool(%d)' % (o in REL[v['n']]), key, '%s of a %s %s a %s is %s' % (v['n'], k, {-1: 'below', 0: 'equal to', 1: 'above'}[o], k2, got), fr.loc())
    if fa is not None:
        for v in ea['v']:
            op = v['n']
            if op in ('BoolOr', 'BoolAnd'):
                for b in (0, 1):
                    an, r = C.run(prog, fa, [C.variant_value(ea, op, 'op'), A.V(('agg', x.value['adt'], 'Bool', (A.V(('int', b)),))), x.kval('Bool', 'R')]); n += 1
                    rep.analysed_fns(an.inlined | {fa.name})
                    short = (op == 'BoolOr') == bool(b)
                    exp = ['Value::Bool(%d)' % b] if short else ['Value::Bool(R.Bool.0)', 'Value::Bool(BitOr[%d, R.Bool.0])' % b, 'Value::Bool(BitAnd[%d, R.Bool.0])' % b]
                    if short: exp += ['Value::Bool(%s[%d, R.Bool.0])' % ('BitOr' if op == 'BoolOr' else 'BitAnd', b)]
                    got = '!' if r is None else c.v(r)
                    judge(rep, c, got, [re.escape(e) for e in exp], 'arith:%s:%d' % (op, b), '%s with left operand %d is %%s' % (op, b), fa.loc())
                continue
            pat = ARITH.get(op)
            if pat is None: rep.known(False, 'arith:' + op, 'operator without a rule'); continue
            for k in INTS:
                an, r = C.run(prog, fa, [C.variant_value(ea, op, 'op'), x.kval(k, 'L'), x.kval(k, 'R')]); n += 1
                rep.analysed_fns(an.inlined | {fa.name})
                got = '!' if r is None else c.v(r)
                g = got.replace('L.%s.0' % k, 'L').replace('R.%s.0' % k, 'R')
                pats = [r'Value::%s\(%s\)' % (k, pat)]
                if op in COMMUT: pats.append(r'Value::%s\(%s\)' % (k, pat.replace('L, R', 'R, L')))
                judge(rep, c, g, pats, 'arith:%s:%s' % (op, k), '%s of two %s values is %%s' % (op, k), fa.loc())
    if fu is not None:
        for v in eu['v']:
            op = v['n']
            for k in (('Bool',) if op == 'BoolNot' else INTS):
                an, r = C.run(prog, fu, [C.variant_value(eu, op, 'op'), x.kval(k, 'L')]); n += 1
                rep.analysed_fns(an.inlined | {fu.name})
                got = '!' if r is None else c.v(r)
                pats = {'BoolNot': [r'Value::Bool\((Not\[L\.Bool\.0\]|Eq\[0, L\.Bool\.0\])\)'], 'IntSucc': [r'Value::%s\(checked_add\[L\.%s\.0, (1|.*one.*)\]\)' % (k, k)],
                        'IntPred': [r'Value::%s\(checked_sub\[L\.%s\.0, (1|.*one.*)\]\)' % (k, k)]}.get(op)
                if pats is None: rep.known(False, 'unary:' + op, 'operator without a rule'); continue
                judge(rep, c, got, pats, 'unary:%s:%s' % (op, k), '%s of a %s is %%s' % (op, k), fu.loc())
    rep.count('operator_runs', n)
    return n

def spec(vn, f, k):
    """defined results of expression vn when operand f is of kind k; None: no rule"""
    E = r'E%s\.%s\.0' % (f, k); S = r'self\.%s\.' % vn
    ev = lambda i: r'EVAL\[%s%s, scope\]' % (S, i)
    us = lambda i: r'USIZE\[%s\]' % ev(i)
    m = re.fullmatch(r'AsU(8|16|32|64)', vn)
    if m:
        to = 'U' + m.group(1)
        if k not in INTS: return None
        if BITS[k] <= BITS[to]: return [r'Value::%s\((try_from:\w+\[)?%s\]?\)' % (to, E)]
        return [r'Value::%s\(try_from:u%s\[%s\]\)' % (to, m.group(1), E)]
    if vn == 'AsChar':
        if k == 'U8': return [r'Value::Char\(%s\)' % E, r'Value::Char\(65533\|char::from_u32\[%s\]\)' % E]
        if k in ('U16', 'U32'): return [r'Value::Char\(65533\|char::from_u32\[%s\]\)' % E]
        if k in ('U64', 'Usize'): return [r'Value::Char\(65533\|char::from_u32\[try_from:u32\[%s\]\]\)' % E]
        return None
    m = re.fullmatch(r'U(16|32|64)(Be|Le)', vn)
    if m:
        if k != 'Tuple': return None
        w = int(m.group(1)) // 8; idx = range(w); o = m.group(2).lower()
        arr = lambda ix: r', '.join(r'E0\.Tuple\.0\.\[%d\]\.U8\.0' % i for i in ix)
        return [r'Value::U%s\(u%s::from_%s_bytes\[ARR\(%s\)\]\)' % (m.group(1), m.group(1), o, arr(idx)),
                r'Value::U%s\(u%s::from_%s_bytes\[ARR\(%s\)\]\)' % (m.group(1), m.group(1), 'be' if o == 'le' else 'le', arr(reversed(idx)))]
    if vn == 'SeqLength':
        n = {'EnumFromTo': r'len\[E0\.EnumFromTo\.0\]', 'Seq:Strict': r'len\[E0\.Strict\.0\]', 'Seq:Dup': r'E0\.Dup\.0'}.get(k)
        return n and [r'Value::U32\(try_from:u32\[%s\]\)' % n]
    if vn == 'SeqIx' and f == '0':
        return {'EnumFromTo': [r'Value::Usize\(at\[E0\.EnumFromTo\.0, %s\]\)' % us(1), r'Value::Usize\(Add\[E0\.EnumFromTo\.0\.start, %s\]\)' % us(1)], 'Seq:Strict': [r'at\[E0\.Strict\.0, %s\]' % us(1)], 'Seq:Dup': [r'E0\.Dup\.1']}.get(k)
    if vn == 'SubSeq' and f == '0':
        a = r'Add\[E0\.EnumFromTo\.0\.start, %s\]' % us(1)
        return {'EnumFromTo': [r'Value::EnumFromTo\(Range\(%s, Add\[%s, %s\]\)\)' % (a, a, us(2))],
                'Seq:Strict': [r'Value::Seq\(index\[index\[E0\.Strict\.0, RangeFrom\(%s\)\], RangeTo\(%s\)\]\)' % (us(1), us(2)), r'Value::Seq\(index\[E0\.Strict\.0, Range\(%s, Add\[%s, %s\]\)\]\)' % (us(1), us(1), us(2))],
                'Seq:Dup': [r'Value::Seq\(SeqKind::Dup\(%s, E0\.Dup\.1\)\)' % us(2)]}.get(k)
    if vn == 'SubSeqInflate' and f == '0':
        i = r'in\[Range\(0, %s\)\]' % us(2); pos = r'Add\[(%s, %s|%s, %s)\]' % (i, us(1), us(1), i)
        back = lambda n: r'at\[ACC, Sub\[%s, %s\]\]' % (pos, n)
        return {'Seq:Strict': [r'Value::Seq\(LIST\{%s\|at\[E0\.Strict\.0, %s\]\}\)' % (back(r'len\[E0\.Strict\.0\]'), pos)],
                'Seq:Dup': [r'Value::Seq\(LIST\{E0\.Dup\.1\|%s\}\)' % back(r'E0\.Dup\.0')],
                'EnumFromTo': [r'Value::Seq\(LIST\{Value::Usize\(skip\[E0\.EnumFromTo\.0\.\[\], %s\]\)\|%s\}\)' % (us(1), back(r'len\[E0\.EnumFromTo\.0\]'))]}.get(k)
    if vn == 'TupleProj' and k == 'Tuple': return [r'at\[E0\.Tuple\.0, self\.TupleProj\.1\]']
    if vn == 'RecordProj' and k == 'Record': return [r'E0\.Record\.0\.\[\]\.1']
    if vn == 'EnumFromTo' and k in INTS:
        e = r'(try_from:usize\[)?%s\]?' % E
        return [r'Value::EnumFromTo\(Range\(%s, %s\)\)' % ((e, us(1)) if f == '0' else (us(0), e))]
    if vn == 'Dup' and f == '0' and k in INTS:
        return [r'Value::Seq\(SeqKind::Dup\((try_from:usize\[)?%s\]?, %s\)\)' % (E, ev(1))]
    return None

PLAIN = {   # results with unconstrained operands
    'Var': r'LOOKUP\[scope, self\.Var\.0\]', 'Bool': r'Value::Bool\(self\.Bool\.0\)', 'U8': r'Value::U8\(self\.U8\.0\)', 'U16': r'Value::U16\(self\.U16\.0\)',
    'U32': r'Value::U32\(self\.U32\.0\)', 'U64': r'Value::U64\(self\.U64\.0\)', 'Tuple': r'Value::Tuple\(LIST\{EVAL\[self\.Tuple\.0\.\[\], scope\]\}\)',
    'Record': r'Value::Record\(LIST\{tuple\(self\.Record\.0\.\[\]\.0, EVAL\[self\.Record\.0\.\[\]\.1, scope\]\)\}\)',
    'Variant': r'Value::Variant\(self\.Variant\.0, EVAL\[self\.Variant\.1, scope\]\)', 'Seq': r'Value::Seq\(LIST\{EVAL\[self\.Seq\.0\.\[\], scope\]\}\)',
    'IntRel': r'Value::int_rel\[self\.IntRel\.0, EVAL\[self\.IntRel\.1, scope\], EVAL\[self\.IntRel\.2, scope\]\]',
    'Arith': r'Value::arith\[self\.Arith\.0, EVAL\[self\.Arith\.1, scope\], EVAL\[self\.Arith\.2, scope\]\]',
    'Unary': r'Value::unary\[self\.Unary\.0, EVAL\[self\.Unary\.1, scope\]\]',
    'Match': r'EVAL\[self\.Match\.1\.\[\]\.1, Scope::Multi\(Value::matches\.Some\.0\)\]',
    'Destructure': r'EVAL\[self\.Destructure\.2, Scope::Multi\(Value::matches\.Some\.0\)\]',
    'LiftOption': r'Value::Option\(Option::None\(\)\|Option::Some\(EVAL\[self\.LiftOption\.0\.Some\.0, scope\]\)\)',
}
# argument each lambda sees, per kind of the sequence operand
def lambda_args(vn, k):
    el = {'Seq:Strict': r'E\d\.Strict\.0\.\[\]|elem\[.*E\d\.Strict\.0.*\]', 'Seq:Dup': r'E\d\.Dup\.1|.*repeat_n.*', 'EnumFromTo': r'(?:Value::Usize\()?(E\d\.EnumFromTo\.0\.\[\]|.*E\d\.EnumFromTo\.0.*)\)?'}.get(k)
    if el is None: return None
    st = {'FlatMapAccum': (r'EVAL\[self\.FlatMapAccum\.1, scope\]',), 'LeftFold': (r'EVAL\[self\.LeftFold\.1, scope\]',)}.get(vn)
    if vn == 'FlatMap': return r'(?:%s)' % el
    if st: return r'Value::Tuple\(ARR\((?P<acc>.*), (?:%s)\)\)' % el
    return None

def run(prog, rep, tier):
    x = exprs.Exprs(prog); c = Erase(prog)
    if None in x.fns.values(): rep.floor(0, 'evaluators', 2); return
    n = operators(prog, rep, x, c)
    for located in (False, True):
        tag = 'located' if located else 'plain'; where = '%s %s' % (x.fns[located].loc(), x.fns[located].name)
        for v in x.adt['v']:
            vn = v['n']
            if vn in PLAIN:
                an, r = x.run(located, vn); n += 1
                rep.analysed_fns(an.inlined | {x.fns[located].name})
                judge(rep, c, '!' if r is None else c.v(r), [PLAIN[vn]], '%s:%s' % (tag, vn), vn + ' evaluates to %s', where)
            for f in x.expr_fields(vn):
                for k in x.kinds():
                    sp = spec(vn, f, k)
                    la = lambda_args(vn, k) if vn in ('FlatMap', 'FlatMapAccum', 'LeftFold') and f == x.expr_fields(vn)[-1] else None
                    if sp is None and la is None: continue
                    an, r = x.run(located, vn, {f: k}); n += 1
                    rep.analysed_fns(an.inlined | {x.fns[located].name})
                    key = '%s:%s:%s=%s' % (tag, vn, f, k)
                    if sp:
                        got = '!' if r is None else c.v(r)
                        known = re.compile(r'\b(index|take|skip|rev|elem|iter|chain|zip|prefix|suffix|step_by|filter|last|collect|map|slice::\w+|Vec::\w+)[\[(.]')
                        new = set(known.findall(got)) - set(w for p in sp for w in known.findall(p.replace('\\', '')))
                        if new and not any(re.fullmatch(p, got) for p in sp): rep.known(False, key, 'written with %s: %s' % (sorted(new), got[:120]), where); continue
                        judge(rep, c, got, sp, key, '%s of a %s operand is %%s' % (vn, k), where)
                    if la:
                        args = set(c.v(e.args[2]) for e in an.events.values() if I.EVALS.get(e.callee.split('::')[-1]) == 'LAMBDA' and len(e.args) > 2)
                        if not rep.known(args and all(clean(a) for a in args), key + ':lambda', 'lambda argument not traced: %s' % sorted(args)[:1], where): continue
                        for a in sorted(args):
                            m = re.fullmatch(la, a)
                            rep.ob(m, key + ':lambda', 'the function of %s over a %s is applied to %s' % (vn, k, a[:200]), where)
                            if m and 'acc' in m.groupdict():
                                acc = m.group('acc')
                                rep.ob('EVAL[self.%s.1, scope]' % vn in acc and 'LAMBDA[' in acc, key + ':state', 'the state passed to the function of %s is %s: the initial state and every later one must reach it' % (vn, acc[:200]), where)
    n += projections(prog, rep)
    rep.floor(n, 'abstract_runs', 500)

def projections(prog, rep):
    """field access finds the field of that name, tuple access the element at that index"""
    import lists as L
    n = 0
    for ty in ('Value', 'ParsedValue'):
        a = C.adt(prog, ty, lambda a: any(v['n'] == 'Mapped' for v in a['v']))
        def wrap(v):
            if ty == 'Value': return v
            p = C.adt(prog, 'Parsed'); return C.variant_value(p, p['v'][0]['n'], fields={'inner': v})
        for m in ('record_proj', 'tuple_proj'):
            fn = next((f for f in prog.fns.values() if f.name.endswith('::%s::%s' % (ty, m))), None); key = '%s::%s' % (ty, m)
            if not rep.known(fn is not None and a is not None, key, 'not found'): continue
            where = '%s %s' % (fn.loc(), fn.name)
            for hit in (0, 1, 2, None):
                def model(an, name, nn, vals, targs, st, site, f, bb, line):
                    if nn.split('::')[-1] in ('eq', 'ne') and len(vals) == 2:
                        t = sorted(C.show(an.snap(v, st)) for v in vals)
                        if t[1] == 'label' and re.fullmatch(r'l\d', t[0]) or t[0] == 'label': return A.V(('int', int((('l%s' % hit) in t) == (nn.split('::')[-1] == 'eq'))))
                    if nn.split('::')[-1] in ('new_debug', 'new_display', 'format') or nn.startswith('Arguments'): return A.V(('op', 'text', ()))
                    return None
                if m == 'record_proj':
                    v = C.variant_value(a, 'Record', fields={'0': wrap(L.arr([A.V(A.tup(C.sym('l%d' % i), C.sym('v%d' % i))) for i in range(3)]))}); arg = C.sym('label')
                else:
                    v = C.variant_value(a, 'Tuple', fields={'0': wrap(L.arr([C.sym('v%d' % i) for i in range(3)]))}); arg = A.V(('int', 3 if hit is None else hit))
                an, r = C.run(prog, fn, [v, arg], model=model, lists=True, arrays=True); n += 1
                rep.analysed_fns(an.inlined | {fn.name}); got = C.show(r)
                if r is not None and not rep.known(re.fullmatch(r'(v\d\|?)+', got) and len(r) == 1, key, got[:120], where): continue
                rep.ob(got == ('!' if hit is None else 'v%d' % hit), key, '%s of %s gives %s' % ('the field', 'a label that is not there' if hit is None else 'label %d' % hit, got) if m == 'record_proj' else 'element %s of three is %s' % (3 if hit is None else hit, got), where)
    return n
