"""Runs the code generator abstractly on one node of a typed decoder and reads the behaviour of the code it builds."""
import absint as A, common as C, rustsem

def opt(v): return A.V(('agg', A.OPTION, 'None', ())) if v is None else A.V(('agg', A.OPTION, 'Some', (v,)))
def arr(*xs): return A.V(('agg', 'array', None, tuple(xs)))
def tup(*xs): return A.V(('agg', 'tuple', None, tuple(xs)))
def st(n): return A.V(('str', n))
def num(n): return A.V(('int', n))
class Missing(Exception): pass

def one(v): return next(iter(v)) if v is not None and len(v) == 1 else None
def fmttext(v):
    """text of a format!() whose arguments are known"""
    a = one(v)
    if a is None or a[0] != 'op' or a[1] != 'fmtargs': return None
    t = one(a[2][0]); xs = one(a[2][1]) if len(a[2]) > 1 else ('agg', 'array', None, ())
    if t and t[0] == 'str': return t[1]
    if not t or t[0] != 'agg' or not xs or xs[0] != 'agg': return None
    bs = [one(x) for x in t[3]]; args = [one(x) for x in xs[3]]
    if any(b is None or b[0] != 'int' for b in bs) or any(x is None or x[0] not in ('int', 'str') for x in args): return None
    bs = [b[1] for b in bs]; out = ''; i = n = 0
    while i < len(bs) and bs[i]:
        if bs[i] < 128: out += bytes(bs[i + 1:i + 1 + bs[i]]).decode('utf8', 'replace'); i += 1 + bs[i]
        elif bs[i] == 0xC0:
            if n >= len(args): return None
            out += str(args[n][1]); n += 1; i += 1
        else: return None
    return out

class Gen:
    def __init__(self, prog, rep=None):
        self.prog = prog; self.rep = rep; self.sem = rustsem.Sem(); self.fns = set(); self.cplx = None; self.keep_lambda = False
        self.RE, self.RS, self.GB, self.GE, self.GS, self.EN = (self.ad(n) for n in ('RustExpr', 'RustStmt', 'GenBlock', 'GenExpr', 'GenStmt', 'RustEntity'))
    def ad(self, n, pred=None):
        a = C.adt(self.prog, n, pred)
        if a is None: raise Missing('no type ' + n)
        return a
    def vv(self, a, v, root='self', **f):
        if isinstance(a, str): a = self.ad(a)
        if not any(x['n'] == v for x in a['v']): raise Missing('%s has no variant %s' % (a['adt'].split('::')[-1], v))
        return C.variant_value(a, v, root, {k.lstrip('_'): x for k, x in f.items()})
    def rec(self, name, vals):
        """a struct with the given fields"""
        a = self.ad(name); v = a['v'][0]
        return A.V(('agg', a['adt'], v['n'], tuple(vals.get(f[0], C.sym('?' + f[0])) for f in v['f'])))
    def local(self, n): return self.vv(self.RE, 'Entity', _0=self.vv(self.EN, 'Local', _0=st(n)))
    def call(self, fn, *args): return self.vv(self.RE, 'FunctionCall', _0=self.local(fn), _1=arr(*args))
    def block(self, stmts, ret): return A.V(('agg', self.GB['adt'], self.GB['v'][0]['n'], (arr(*stmts), ret)))
    def inner(self, tag, kind):
        """code for an inner node: 'stm' fails in a statement, 'try' in its value, 'obs' looks at the input but never fails, 'val' neither"""
        if isinstance(kind, dict): kind = kind[tag.split('@')[0]]
        ge = lambda e: opt(self.vv(self.GE, 'Embed', _0=e))
        emb = lambda e: self.vv(self.GS, 'Embed', _0=self.vv(self.RS, 'Expr', _0=e))
        if kind == 'stm': return self.block([emb(self.vv(self.RE, 'Tuple', _0=arr())), emb(C.sym('RUN:' + tag))], ge(self.local('VAL:' + tag)))
        if kind == 'try': return self.block([], ge(self.vv(self.RE, 'Try', _0=self.call('CALL:' + tag))))
        if kind == 'obs': return self.block([], ge(self.call('CALL:' + tag)))
        return self.block([], ge(self.local('VAL:' + tag)))
    def model(self, kind, extra=None, root=None):
        def m(an, name, nn, vals, targs, s, site, fr, bb, line):
            last = nn.split('::')[-1]
            sn = lambda i: an.snap(vals[i], s)
            if extra:
                r = extra(an, nn, last, sn, vals)
                if r is not None: return r
            def atom(i):
                v = sn(i)
                return next(iter(v)) if len(v) == 1 and next(iter(v))[0] == 'sym' else None
            if last == 'to_ast' and vals and atom(0): return self.inner(C.show(sn(0)) + '@' + C.show(sn(1)), kind)
            if last == 'translate' and len(vals) == 2 and atom(1): return sn(1)
            if last == 'get_dec' and atom(0): return sn(0)
            if last == 'as_ref' and atom(0) and 'TypedDecoderExt' in nn: return sn(0)
            if last in ('embed_expr_nat', 'embed_expr_owned', 'embed_view_expr', 'embed_expr') and atom(0): return self.local(C.show(sn(0)))
            if last == 'embed_pattern' and atom(0): return sn(0)
            if last == 'from_expr' and 'Lambda' in nn: return sn(0)
            if last == 'get_head_var' and atom(0): return st('hv')
            if last == 'invoke_matchtree': return self.vv(self.RE, 'Try', _0=self.call('TREE:%s@%s' % (C.show(sn(0)), C.show(sn(1)))))
            if last in ('apply', 'beta_reduce', 'apply_pair') and 'Lambda' in nn and not self.keep_lambda: return self.call('APPLY:%s' % C.show(sn(0)), *[sn(i) for i in range(1, len(vals) - 1)])
            if last == 'is_short_circuiting' and atom(0):
                t = str(atom(0)[1])
                if t.startswith('RUN:'): return num(1)
                if t[:4] == 'VAL:': return num(0)
            if last in ('eq', 'ne') and len(vals) == 2:
                x, y = one(sn(0)), one(sn(1))
                if x and y and x[0] == y[0] == 'str': return num(int((x[1] == y[1]) == (last == 'eq')))
            if last == 'is_complex' and (self.cplx is not None or atom(0)): return num(self.cplx or 0)
            if last == 'get_trace': return C.sym('trace')
            if nn.endswith('Arguments::new'): return A.V(('op', 'fmtargs', tuple(sn(i) for i in range(len(vals)))))
            if nn.endswith('Arguments::from_str') or nn.endswith('Arguments::new_const'): return A.V(('op', 'fmtargs', (sn(0),)))
            if 'Argument::new_' in nn: return sn(0)
            if last == 'format' and nn.startswith('fmt::'):
                t = fmttext(sn(0)); return st(t if t is not None else 'fmt(%s)' % C.show(sn(0)))
            return None
        return m
    def run(self, fn, args, model, **kw):
        d = A.MAXDEPTH; A.MAXDEPTH = 60
        try: an, r = C.run(self.prog, fn, args, model=model, lists=kw.pop('lists', True), recur=12, dyn=True, max_depth=60, **kw)
        finally: A.MAXDEPTH = d
        self.fns |= an.inlined | {fn.name}
        return r
    def find(self, pred):
        for n, f in self.prog.fns.items():
            if pred(n): return f
        return None
    def logic(self, decoder, extra=None, self_value=None):
        f = self.find(lambda n: n.endswith('::translate') and 'codegen' in n and 'CodeGen' in n)
        if f is None: raise Missing('no translate')
        return self.run(f, [self_value or C.sym('CG'), decoder], self.model('stm', extra))
    def ast(self, logic, kind, extra=None):
        f = self.find(lambda n: '<codegen::CaseLogic' in n and n.endswith('::to_ast'))
        if f is None: raise Missing('no to_ast')
        ctxt = self.rec('ProdCtxt', {'input_varname': C.sym('IN')})
        return self.run(f, [logic, ctxt], self.model(kind, extra))
    def behaviour(self, decoder, kind, extra=None, self_value=None):
        l = self.logic(decoder, extra, self_value)
        if l is None: return 'no code'
        b = self.ast(l, kind, extra)
        if b is None: return 'no code'
        return self.sem.top(b)
