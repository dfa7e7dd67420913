"""Meaning of the Rust syntax trees the code generator builds, as text: the order of parser actions on every path, the
conditions between them, and the outcome of each path.

A behaviour reads   action?; action; if cond {..} else {..}   and ends in  => value,  => err,  => panic,  break  or  next.
`action?` fails the whole behaviour when the action fails; `try action {ok..|err..}` goes on either way."""
import re

class Unknown(Exception): pass

def text(a):
    import interp as I
    return I.show(frozenset([a]))[:100]

def symtext(a):
    if isinstance(a[1], str): return '.'.join((a[1],) + tuple(map(str, a[2])))
    return text(a)

def compare(sy, a, b):
    """one form for comparisons that say the same; numbers here are never negative"""
    sy = {'Lte': 'Le', 'Gte': 'Ge', 'Neq': 'Ne'}.get(sy, sy)
    if sy in ('Gt', 'Le'): a, b, sy = b, a, {'Gt': 'Lt', 'Le': 'Ge'}[sy]
    if sy == 'Lt' and a == '0': return ('cmp', 'Eq', b, '0', False)
    if sy == 'Ge' and a == '0': return ('cmp', 'Eq', b, '0', True)
    if sy == 'Lt' and b == '1': return ('cmp', 'Eq', a, '0', True)
    if sy == 'Ge' and b == '1': return ('cmp', 'Eq', a, '0', False)
    if sy in ('Eq', 'Ne'):
        if re.fullmatch(r'\d+', a): a, b = b, a
        return ('cmp', 'Eq', a, b, sy == 'Eq')
    if sy in ('Lt', 'Ge'): return ('cmp', 'Lt', a, b, sy == 'Lt')
    return None

def result(k):
    """marks a continuation that takes the Result of a function or closure"""
    def f(v, s): return k(v, s)
    f.result = True
    return f

class H:
    """where return, failure and break go"""
    def __init__(self, ret, err, brk=None): self.ret, self.err, self.brk = ret, err, brk

class Sem:
    def __init__(self): self.n = 0; self.steps = 0
    def one(self, v):
        if v is None or len(v) != 1: raise Unknown('ambiguous ' + ' | '.join(sorted(text(a) for a in (v or ()))[:3]))
        return next(iter(v))
    def agg(self, v, *names):
        a = self.one(v)
        if a[0] != 'agg': raise Unknown(text(a))
        return a[1].split('::')[-1], a[2], a[3]
    def lst(self, v):
        a = self.one(v)
        if a[0] == 'agg' and a[1] == 'array': return list(a[3])
        if a[0] == 'vec' and not a[1]: return []
        if a[0] == 'agg' and a[1] == 'const' and a[2] == 'Vec' and a[3][-1] == frozenset([('int', 0)]): return []
        raise Unknown('list ' + text(a))
    def fnname(self, v):
        """name of the function a FnEntity stands for"""
        n, var, g = self.agg(v)
        e, ev, eg = self.agg(g[0])
        nm = self.lab(eg[0]) if ev == 'Local' else '::'.join([self.lab(x) for x in self.lst(eg[0])] + [self.lab(eg[1])]) if ev == 'Scoped' else None
        if nm is None: raise Unknown('function ' + text(self.one(v)))
        if var == 'Specific': return nm
        if var == 'Synthetic': return '%s<%s>' % (nm, ', '.join(self.agg(self.agg(t)[2][0])[1].lower() for t in self.lst(g[1])))
        raise Unknown('function ' + text(self.one(v)))
    def lab(self, v):
        a = self.one(v)
        if a[0] == 'str': return a[1]
        if a[0] == 'sym': return symtext(a)
        if a[0] == 'agg' and (a[1].split('::')[-1] == 'Cow' or a[1] == 'const' and a[2] in ('Borrowed', 'Owned')): return self.lab(a[3][0])
        if a[0] == 'op' and a[1].startswith('fmt'): return text(a)
        if a[0] == 'op' and len(a[2]) == 1: return self.lab(a[2][0])
        return text(a)
    def opt(self, v):
        a = self.one(v)
        if a[0] == 'agg' and a[2] in ('Some', 'None'): return a[3][0] if a[2] == 'Some' else None
        raise Unknown('option ' + text(a))
    # ---- values: ('t', text) ('ok', v) ('err',) ('b', bool) ('vec', id) ('cell', id) ('parser', name) ('res', action, value)
    def tx(self, v, s):
        k = v[0]
        if k == 't': return v[1]
        if k == 'b': return 'true' if v[1] else 'false'
        if k == 'ok': return 'Ok(%s)' % self.tx(v[1], s)
        if k == 'err': return 'Err'
        if k in ('vec', 'cell'): return v[1] + s.get(v[1], '')
        if k in ('parser', 'clo'): return v[1]
        if k == 'tup':
            ts = [self.tx(x, s) for x in v[1]]
            m = [re.fullmatch(r'(.*)\.%d' % i, t) for i, t in enumerate(ts)]
            if len(ts) > 1 and all(m) and len({x[1] for x in m}) == 1: return m[0][1]
            return '(%s)' % ', '.join(ts)
        if k == 'cmp': return ('(%s %s %s)' if v[4] else 'not (%s %s %s)') % (v[2], v[1], v[3])
        raise Unknown('value %s' % (v,))
    def top(self, block):
        """behaviour of a block that stands for the value of a format"""
        self.n = self.steps = 0
        h = H(lambda v, s: '=> err' if v[0] == 'err' else '=> return ' + self.tx(v, s), lambda s: '=> err')
        return self.block(block, {}, {}, lambda v, s: '=> ' + self.tx(v, s), h)
    def expr_top(self, e, env=None):
        self.n = self.steps = 0
        h = H(lambda v, s: '=> err' if v[0] == 'err' else '=> return ' + self.tx(v, s), lambda s: '=> err')
        return self.ev(e, env or {}, {}, lambda v, s: '=> ' + self.tx(v, s), h)
    def fn_top(self, body, env):
        """behaviour of a function that returns a Result"""
        self.n = self.steps = 0
        out = lambda v, s: '=> err' if v[0] == 'err' else '=> ' + self.tx(v[1], s) if v[0] == 'ok' else '%s?; => %s' % (v[1], self.tx(v[2], s)) if v[0] == 'res' else '=> return ' + self.tx(v, s)
        out = result(out)
        return self.block(body, env, {}, out, H(out, lambda s: '=> err'))
    def block(self, b, env, s, k, h):
        a = self.one(b)
        if a[0] == 'agg' and a[1].split('::')[-1] == 'GenBlock':
            stmts, ret = self.lst(a[3][0]), self.opt(a[3][1])
            return self.stmts(stmts, ret, env, s, k, h)
        if a[0] == 'sym' and a[1].startswith('BLOCK:'): return self.ev(b, env, s, k, h)
        return self.stmts(self.lst(b), None, env, s, k, h)
    def stmts(self, xs, ret, env, s, k, h):
        self.steps += 1
        if self.steps > 20000: raise Unknown('too many paths')
        if not xs: return self.ev(ret, env, s, k, h) if ret is not None else k(('t', '()'), s)
        x, rest = xs[0], xs[1:]
        nm, var, f = self.agg(x)
        go = lambda e, s2: self.stmts(rest, ret, e, s2, k, h)
        if nm == 'GenStmt':
            if var == 'Embed': return self.stmts([f[0]] + rest, ret, env, s, k, h)
            if var == 'Expr': return self.tail_or(f[0], rest, ret, env, s, k, h)
            if var == 'BindOnce': return self.block(f[1], env, s, lambda v, s2: self.named(self.lab(f[0]), v, s2, env, go), h)
        if nm == 'RustStmt':
            if var == 'Let':
                mut = self.agg(f[0])[1] == 'Mutable'; name = self.lab(f[1])
                def bind(v, s2):
                    if v[0] == 'newvec' or mut and v[0] != 'parser':
                        i = ('v' if v[0] == 'newvec' else 'c') + str(len([z for z in s2 if not z.endswith("'")]))
                        init = '[]' if v[0] == 'newvec' else self.tx(v, s2)
                        return '%s := %s; ' % (i, init) + go({**env, name: ('vec' if v[0] == 'newvec' else 'cell', i)}, {**s2, i: ''})
                    return self.named(name, v, s2, env, go)
                return self.ev(f[3], env, s, bind, h)
            if var == 'LetPattern':
                return self.ev(f[1], env, s, lambda v, s2: self.pat(f[0], v, s2, env, lambda e: go(e, s2), None), h)
            if var == 'Reassign':
                def put(v, s2):
                    t = env.get(self.lab(f[0]))
                    if not t or t[0] != 'cell': raise Unknown('assignment to %s' % self.lab(f[0]))
                    n = s2.get(t[1], '')
                    return '%s := %s; ' % (t[1], self.tx(v, s2)) + go(env, {**s2, t[1]: n + "'"})
                return self.ev(f[1], env, s, put, h)
            if var == 'Expr': return self.tail_or(f[0], rest, ret, env, s, k, h)
            if var == 'Return':
                if self.agg(f[0])[1] == 'Keyword': return self.ev(f[1], env, s, h.ret, h)
                if rest or ret is not None: raise Unknown('value before the end of a block')
                return self.ev(f[1], env, s, k, h)
        raise Unknown('statement ' + text(self.one(x)))
    def named(self, name, v, s, env, go):
        # names chosen by the user of the generator stay visible: later code refers to them
        if name.startswith('$'): return 'let %s = %s; ' % (name, self.tx(v, s)) + go({**env, name: ('t', name)}, s)
        return go({**env, name: v}, s)
    def tail_or(self, e, rest, ret, env, s, k, h):
        # a control expression in last position is the value of the block
        if not rest and ret is None and self.is_control(e): return self.ev(e, env, s, k, h)
        return self.ev(e, env, s, lambda v, s2: self.stmts(rest, ret, env, s2, k, h), h)
    def is_control(self, e):
        a = self.one(e)
        return a[0] == 'agg' and (a[2] in ('Control', 'BlockScope') or a[2] == 'Embed' and self.is_control(a[3][0]))
    def seq(self, es, env, s, k, h):
        def go(i, acc, s2):
            if i == len(es): return k(acc, s2)
            return self.ev(es[i], env, s2, lambda v, s3: go(i + 1, acc + [v], s3), h)
        return go(0, [], s)
    def attempt(self, act, ok, err):
        o, e = ok(), err()
        if e == '=> err': return '%s?; %s' % (act, o)
        if o == e: return '%s; %s' % (act, o)
        return 'try %s {%s | %s}' % (act, o, e)
    def ev(self, e, env, s, k, h):
        """evaluate; a pending call result is performed, its failure ignored"""
        def done(v, s2):
            if v[0] == 'res' and getattr(k, 'result', False): return self.attempt(v[1], lambda: k(('ok', v[2]), s2), lambda: k(('err',), s2))
            if v[0] == 'res': return '%s; ' % v[1] + k(v[2], s2)
            return k(v, s2)
        return self.raw(e, env, s, done, h)
    def inner(self, name, env):
        m = re.fullmatch(r'(\w+):(.*)@ProdCtxt\((.*)\)', name)
        if not m: raise Unknown(name)
        p = re.sub(r"Cow::Borrowed\((.*)\)", r'\1', m[3]).strip("'")
        v = env.get(p, ('parser', p) if p == 'IN' else None)
        if not v or v[0] != 'parser': raise Unknown('no parser named %s' % p)
        return m[1], m[2], v[1]
    def placed(self, nm, env, s, k, h):
        kind, tag, p = self.inner(nm, env)
        if kind == 'VAL': return k(('t', '<%s>' % tag), s)
        if kind == 'TREE': return k(('res', 'descend %s on %s' % (tag, p), ('t', '<%s>' % tag)), s)
        act = 'run %s on %s' % (tag, p)
        if kind == 'CALL': return k(('res', act, ('t', '<%s>' % tag)), s)
        return self.attempt(act, lambda: k(('t', '<%s>' % tag), s), lambda: h.err(s))
    def raw(self, e, env, s, k, h):
        a = self.one(e)
        if a[0] == 'sym':
            nm = symtext(a)
            if re.match(r'(RUN|CALL|VAL|TREE|BLOCK):', nm): return self.placed(nm, env, s, k, h)
            return k(('t', nm), s)
        nm, var, f = self.agg(e)
        T = lambda fmt: (lambda vs, s2: k(('t', fmt % tuple(self.tx(v, s2) for v in vs)), s2))
        if nm == 'GenExpr':
            if var in ('Embed', 'TyValCon'): return self.raw(f[0], env, s, k, h)
            if var == 'BlockScope': return self.block(f[0], env, s, k, h)
            if var == 'Control': return self.control(f[0], env, s, k, h)
            if var == 'ResultOk': return self.ev(f[1], env, s, lambda v, s2: k(('ok', v), s2), h)
            if var == 'ResultErr': return self.ev(f[0], env, s, lambda v, s2: k(('err',), s2), h)
            if var == 'WrapSome': return self.ev(f[0], env, s, lambda v, s2: k(('t', 'Some(%s)' % self.tx(v, s2)), s2), h)
            if var == 'Try': return self.tried(f[0], env, s, k, h)
            if var == 'CallThunk':
                nm2, _, g = self.agg(f[0])
                k = result(k); return self.block(g[0], env, s, k, H(k, lambda s2: k(('err',), s2)))
        if nm == 'RustExpr':
            if var == 'Void': return k(('t', '()'), s)
            if var == 'Entity':
                n2, v2, g = self.agg(f[0])
                if v2 == 'Local':
                    l = self.lab(g[0])
                    if re.match(r'VAL:.*@', l): return self.placed(l, env, s, k, h)
                    if l in env: return k(env[l], s)
                    return k(('parser', l) if l == 'IN' else ('t', l), s)
                return k(('t', '::'.join([self.lab(x) for x in self.lst(g[0])] + [self.lab(g[1])])), s)
            if var == 'PrimitiveLit':
                n2, v2, g = self.agg(f[0])
                if v2 == 'Boolean':
                    b = self.one(g[0])
                    if b[0] == 'int': return k(('b', bool(b[1])), s)
                return k(('t', self.lit(f[0])), s)
            if var == 'ConstNum': return k(('t', text(self.one(f[0]))), s)
            if var in ('ArrayLit', 'Tuple'):
                xs = self.lst(f[0]); l, r = '[]' if var == 'ArrayLit' else '()'
                if var == 'Tuple': return self.seq(xs, env, s, lambda vs, s2: k(('tup', tuple(vs)), s2), h)
                return self.seq(xs, env, s, T(l + ', '.join(['%s'] * len(xs)) + r), h)
            if var == 'Struct':
                c = self.con(f[0]); n2, v2, g = self.agg(f[1])
                if v2 == 'Empty': return k(('t', c), s)
                if v2 == 'Tuple':
                    xs = self.lst(g[0]); return self.seq(xs, env, s, T(c + '(' + ', '.join(['%s'] * len(xs)) + ')'), h)
                if v2 == 'Record':
                    fs = [self.agg(x)[2] for x in self.lst(g[0])]; es = []
                    for l, o in fs:
                        x = self.opt(o)
                        es.append(x)
                    vals = [x for x in es if x is not None]
                    def rec(vs, s2):
                        vs = list(vs); out = []
                        for (l, o), x in zip(fs, es):
                            n = self.lab(l); out.append('%s: %s' % (n, self.tx(vs.pop(0), s2) if x is not None else self.tx(env.get(n, ('t', n)), s2)))
                        return k(('t', '%s {%s}' % (c, ', '.join(out))), s2)
                    return self.seq(vals, env, s, rec, h)
            if var == 'Owned':
                es = {x[3][0] if x[0] == 'agg' else None for x in f[0]}
                if len(es) != 1 or None in es: raise Unknown('owned ' + text(a))
                return self.raw(next(iter(es)), env, s, k, h)
            if var == 'OwnedOption': return self.raw(f[0], env, s, k, h)
            if var in ('Borrow', 'BorrowMut'): return self.raw(f[0], env, s, k, h)
            if var == 'Try': return self.tried(f[0], env, s, k, h)
            if var == 'Operation': return self.op(f[0], env, s, k, h)
            if var == 'BlockScope': return self.stmts(self.lst(f[0]), f[1], env, s, k, h)
            if var == 'Control': return self.control(f[0], env, s, k, h)
            if var == 'Index': return self.seq([f[0], f[1]], env, s, T('%s[%s]'), h)
            if var == 'Slice': return self.seq(list(f), env, s, T('%s[%s..%s]'), h)
            if var == 'RangeExclusive': return self.seq(list(f), env, s, T('%s..%s'), h)
            if var == 'ResultOk': return self.ev(f[1], env, s, lambda v, s2: k(('ok', v), s2), h)
            if var == 'ResultErr': return self.ev(f[0], env, s, lambda v, s2: k(('err',), s2), h)
            if var == 'FieldAccess':
                sub = self.sub(f[1]); return self.ev(f[0], env, s, lambda v, s2: k(('t', '%s.%s' % (self.tx(v, s2), sub)), s2), h)
            if var == 'Macro': return self.macro(f[0], env, s, k, h)
            if var == 'MethodCall': return self.method(f, env, s, k, h)
            if var == 'FunctionCall': return self.call(f[0], self.lst(f[1]), env, s, k, h)
            if var == 'Invoke':
                nm2 = self.fnname(f[0])
                return self.seq(self.lst(f[1]), env, s, lambda vs, s2: k(('res', '%s(%s)' % (nm2, ', '.join(self.tx(v, s2) for v in vs)), ('t', '%s(%s)' % (nm2, ', '.join(self.tx(v, s2) for v in vs)))), s2), h)
            if var == 'Closure':
                n2, v2, g = self.agg(f[0]); hd = self.agg(g[0]); bd = self.agg(g[1])
                if hd[1] == 'Thunk': return k(('thunk', g[1], env), s)
                if hd[1] == 'SimpleVar': ps = [self.lab(hd[2][0])]
                elif hd[1] == 'VarList': ps = [self.lab(self.agg(x)[2][0]) for x in self.lst(hd[2][0])]
                else: raise Unknown('closure')
                e2 = {**env, **{p: ('t', p) for p in ps}}
                h2 = H(lambda v, s2: '=> ' + self.tx(v, s2), lambda s2: '=> err')
                last = lambda v, s2: '=> ' + self.tx(v, s2)
                body = self.ev(bd[2][0], e2, s, last, h2) if bd[1] == 'Expression' else self.stmts(self.lst(bd[2][0]), None, e2, s, last, h2)
                return k(('clo', '|%s| {%s}' % (', '.join(ps), body), ps, bd, env), s)
        if nm == 'GenBlock': return self.block(e, env, s, k, h)
        if nm == 'RustControl': return self.control(e, env, s, k, h)
        raise Unknown('expression ' + text(a))
    def sub(self, v):
        n, var, g = self.agg(v)
        return text(self.one(g[0])) if var == 'ByPosition' else self.lab(g[0])
    def con(self, v):
        a = self.one(v)
        if a[0] == 'sym': return symtext(a)
        n, var, g = self.agg(v); return '::'.join(self.lab(x) for x in g)
    def lit(self, v):
        n, var, g = self.agg(v)
        if n == 'RustPrimLit' and var == 'Numeric': return self.lit(g[0])
        a = self.one(g[0]); return str(a[1]) if a[0] in ('int', 'str') else text(a)
    def tried(self, e, env, s, k, h):
        def done(v, s2):
            if v[0] == 'res': return self.attempt(v[1], lambda: k(v[2], s2), lambda: h.err(s2))
            if v[0] == 'ok': return k(v[1], s2)
            if v[0] == 'err': return h.err(s2)
            if v[0] == 't': return self.attempt('check %s' % v[1], lambda: k(('t', '%s!' % v[1]), s2), lambda: h.err(s2))
            raise Unknown('? on %s' % (v,))
        a = self.one(e)
        if a[0] == 'sym' and a[1].startswith('RUN:'): raise Unknown('statement as a value')
        return self.raw(e, env, s, done, h)
    def op(self, o, env, s, k, h):
        n, var, g = self.agg(o)
        if var == 'AsCast':
            ty = text(self.one(g[1])); short = re.search(r'(Usize|U8|U16|U32|U64|I8|I16|I32|I64)', ty)
            def cast(v, s2):
                t = self.tx(v, s2)
                if short and short[1] == 'Usize': return k(('t', t), s2)
                return k(('t', '(%s as %s)' % (t, short[1] if short else ty)), s2)
            return self.ev(g[0], env, s, cast, h)
        if var == 'InfixOp':
            sy = self.agg(g[0])[1]
            if sy in ('BoolOr', 'BoolAnd'):
                def left(v, s2):
                    r = self.ev(g[2], env, s2, lambda w, s3: '=> ' + self.tx(w, s3), h)
                    if r.count('=>') == 1 and r.startswith('=> '): return k(('t', '(%s %s %s)' % (self.tx(v, s2), sy, r[3:])), s2)
                    raise Unknown('effect in ' + sy)
                return self.ev(g[1], env, s, left, h)
            def both(vs, s2):
                a, b = self.tx(vs[0], s2), self.tx(vs[1], s2)
                c = compare(sy, a, b)
                return k(c if c else ('t', '(%s %s %s)' % (a, sy, b)), s2)
            return self.seq([g[1], g[2]], env, s, both, h)
        if var == 'PrefixOp':
            sy = self.agg(g[0])[1]
            return self.ev(g[1], env, s, lambda v, s2: k(('b', not v[1]) if v[0] == 'b' and sy == 'BoolNot' else v[:4] + (not v[4],) if v[0] == 'cmp' and sy == 'BoolNot' else ('t', '%s(%s)' % (sy, self.tx(v, s2))), s2), h)
        raise Unknown('operation ' + text(self.one(o)))
    def macro(self, m, env, s, k, h):
        n, var, g = self.agg(m)
        if var == 'Log': return 'log; ' + k(('t', '()'), s)
        if var == 'Vec':
            n2, v2, f = self.agg(g[0])
            if v2 == 'Nil': return k(('t', '[]'), s)
            if v2 == 'List':
                xs = self.lst(f[0]); return self.seq(xs, env, s, lambda vs, s2: k(('t', '[%s]' % ', '.join(self.tx(v, s2) for v in vs)), s2), h)
            if v2 == 'Single': return self.ev(f[0], env, s, lambda v, s2: k(('t', '[%s]' % self.tx(v, s2)), s2), h)
            if v2 == 'Repeat': return self.seq([f[0], f[1]], env, s, lambda vs, s2: k(('t', '[%s; %s]' % tuple(self.tx(v, s2) for v in vs)), s2), h)
        if var == 'Matches':
            ps = ' | '.join(self.ptext(p) for p in self.lst(g[1]))
            return self.ev(g[0], env, s, lambda v, s2: k(('t', 'matches(%s, %s)' % (self.tx(v, s2), ps)), s2), h)
        raise Unknown('macro ' + text(self.one(m)))
    PURE = {'len', 'is_empty', 'as_slice', 'clone', 'contains', 'is_err', 'is_ok', 'remaining', 'get_offset_u64', 'to_vec', 'as_ref', 'iter', 'into_iter', 'view', 'as_deref', 'copied', 'cloned', 'into', 'to_owned'}
    def method(self, f, env, s, k, h):
        n, var, g = self.agg(f[1])
        m = self.sub(g[0]) if var == 'Arbitrary' else {'Len': 'len', 'IsEmpty': 'is_empty'}[self.agg(g[0])[1]]
        def done(vs, s2):
            o, args = vs[0], ', '.join(self.tx(v, s2) for v in vs[1:])
            if o[0] in ('ok', 'err') and m in ('is_err', 'is_ok'): return k(('b', (o[0] == 'err') == (m == 'is_err')), s2)
            if o[0] == 'vec' and m == 'push':
                return '%s += %s; ' % (o[1], args) + k(('t', '()'), {**s2, o[1]: s2.get(o[1], '') + '+1'})
            if m in ('as_slice', 'clone', 'to_vec', 'as_ref', 'as_deref', 'to_owned') and not args: return k(o, s2)
            if m == 'is_empty' and not args: return k(('cmp', 'Eq', '%s.len()' % self.tx(o, s2), '0', True), s2)
            t = '%s.%s(%s)' % (self.tx(o, s2), m, args)
            if m in self.PURE: return k(('t', t), s2)
            return k(('res', t, ('t', '<%s>' % t)), s2)
        return self.seq([f[0]] + self.lst(f[2]), env, s, done, h)
    def call(self, fn, args, env, s, k, h):
        a = self.one(fn)
        def app(fv, s0):
            if fv[0] == 'thunk':
                kr = result(k)
                n, var, g = self.agg(fv[1]); h2 = H(kr, lambda s2: kr(('err',), s2))
                if var == 'Expression': return self.ev(g[0], fv[2], s0, kr, h2)
                return self.stmts(self.lst(g[0]), None, fv[2], s0, kr, h2)
            if fv[0] == 'clo' and len(fv[2]) == len(args):
                kr = result(k); h2 = H(kr, lambda s2: kr(('err',), s2))
                def bound(i, e2, vs, s2):
                    if i < len(vs): return self.named(fv[2][i], vs[i], s2, e2, lambda e3, s3: bound(i + 1, e3, vs, s3))
                    n, var, g = fv[3]
                    return self.ev(g[0], e2, s2, kr, h2) if var == 'Expression' else self.stmts(self.lst(g[0]), None, e2, s2, kr, h2)
                return self.seq(args, env, s0, lambda vs, s2: bound(0, fv[4], vs, s2), h)
            name = self.tx(fv, s0)
            if re.match(r'(CALL|TREE):', name) and not args: return self.placed(name, env, s0, k, h)
            if name == 'slice_all' and len(args) == 1: return self.raw(args[0], env, s0, k, h)
            def done(vs, s2):
                t = ', '.join(self.tx(v, s2) for v in vs)
                if name == 'Vec::new': return k(('newvec',), s2)
                if name in ('Parser::new', 'Parser::from'): return k(('parser', '%s(%s)' % (name, t)), s2)
                if name == 'Some': return k(('t', 'Some(%s)' % t), s2)
                if name in ('Ok', 'PResult::Ok'): return k(('ok', vs[0]), s2)
                if name == 'Err': return k(('err',), s2)
                if name == 'unreachable!': return '=> panic'
                if name.startswith('APPLY:') or name.startswith('ParseError::') or name[:1].isupper() and name.startswith('ByteSet::'): return k(('t', '%s(%s)' % (name, t)), s2)
                return k(('res', '%s(%s)' % (name, t), ('t', '<%s(%s)>' % (name, t))), s2)
            return self.seq(args, env, s0, done, h)
        return self.ev(fn, env, s, app, h)
    def loopvars(self, s): return {i: '~' if not i.endswith("'") else v for i, v in s.items()}
    def control(self, c, env, s, k, h):
        n, var, f = self.agg(c)
        if var == 'Break':
            if not h.brk: raise Unknown('break outside a loop')
            return h.brk()
        if var in ('Loop', 'While', 'ForIter', 'ForRange0'):
            s1 = self.loopvars(s)
            h2 = H(lambda v, s2: h.ret(v, s2), lambda s2: h.err(s2), lambda: 'break')
            rest = lambda s0=s: k(('t', '()'), {i: '*' for i in s0})
            if var == 'Loop': return 'loop {%s} ' % self.block(f[0], env, s1, lambda v, s2: 'next', h2) + rest()
            if var == 'While':
                body = self.ev(f[0], env, s1, lambda v, s2: self.branch(v, s2, lambda: self.block(f[1], env, s2, lambda w, s3: 'next', h2), lambda: 'break'), h2)
                return 'loop {%s} ' % body + rest()
            name = self.lab(f[0])
            def go(v, s2):
                head = 'each %s in %s' % (name, self.tx(v, s2)) if var == 'ForIter' else '%s times' % self.tx(v, s2)
                e2 = dict(env); e2[name] = ('t', name)
                return 'for %s {%s} ' % (head, self.block(f[2], e2, self.loopvars(s2), lambda w, s3: 'next', h2)) + rest(s2)
            return self.ev(f[1], env, s, go, h)
        if var == 'If':
            els = self.opt(f[2])
            def go(v, s2):
                return self.branch(v, s2, lambda: self.block(f[1], env, s2, k, h), lambda: self.block(els, env, s2, k, h) if els is not None else k(('t', '()'), s2))
            return self.ev(f[0], env, s, go, h)
        if var == 'Match':
            n2, v2, g = self.agg(f[1]); cases = [self.agg(x)[2] for x in self.lst(g[0])]
            def go(v, s2):
                default = None
                if v2 == 'Refutable':
                    n3, v3, q = self.agg(g[1])
                    default = (lambda: '=> panic') if v3 == 'PanicUnreachable' else (lambda: self.ev(q[0], env, s2, h.ret, h))
                return self.cases(cases, v, s2, env, k, h, default)
            return self.ev(f[0], env, s, go, h)
        raise Unknown('control ' + text(self.one(c)))
    def branch(self, v, s, t, e):
        if v[0] == 'b': return t() if v[1] else e()
        a, b = t(), e()
        if a == b: return a
        if v[0] == 'cmp' and not v[4]: a, b, v = b, a, v[:4] + (True,)
        return 'if %s {%s} else {%s}' % (self.tx(v, s), a, b)
    def cases(self, cases, v, s, env, k, h, default):
        if v[0] in ('ok', 'err'):
            for lhs, body in cases:
                n, var, g = self.agg(lhs)
                if var != 'Pattern': raise Unknown('guard on a result')
                n2, pv, p = self.agg(g[0])
                if pv == 'CatchAll': return self.block(body, self.bindp(p, env, v), s, k, h)
                if pv == 'Variant' and self.con(p[0]) == ('Ok' if v[0] == 'ok' else 'Err'):
                    n3, pv3, q = self.agg(p[1])
                    if pv3 != 'CatchAll': raise Unknown('pattern inside a result')
                    return self.block(body, self.bindp(q, env, v[1] if v[0] == 'ok' else ('t', 'E')), s, k, h)
                if pv != 'Variant': raise Unknown('pattern on a result')
            if default: return default()
            raise Unknown('result not matched')
        # tests of a number one after the other: the same as a chain of conditions
        forms = []
        for lhs, body in cases:
            n, var, g = self.agg(lhs); pa = self.one(g[0])
            if pa[0] == 'agg' and pa[2] == 'PrimLiteral' and var == 'Pattern' and re.fullmatch(r'\d+', self.lit(pa[3][0])): forms.append(('lit', self.lit(pa[3][0]), body, env))
            elif pa[0] == 'agg' and pa[2] == 'CatchAll':
                e2 = self.bindp(pa[3], env, v)
                forms.append(('if', g[1], body, e2) if var == 'WithGuard' else ('all', None, body, e2))
            else: forms = None; break
        if forms and (default or forms[-1][0] == 'all'):
            def chain(i):
                if i == len(forms): return default()
                k2, x, body, e2 = forms[i]
                run = lambda: self.block(body, e2, s, k, h)
                if k2 == 'all': return run()
                if k2 == 'lit': return self.branch(('cmp', 'Eq', self.tx(v, s), x, True), s, run, lambda: chain(i + 1))
                return self.ev(x, e2, s, lambda w, s2: self.branch(w, s2, run, lambda: chain(i + 1)), h)
            return chain(0)
        out = []
        for lhs, body in cases:
            n, var, g = self.agg(lhs); p = self.ptext(g[0]); e2 = dict(env)
            for b in self.binds(g[0]): e2[b] = v if p == b or p == 'ref ' + b else ('t', b)
            guard = ''
            if var == 'WithGuard':
                r = self.ev(g[1], e2, s, lambda w, s2: '=> ' + self.tx(w, s2), h)
                if not r.startswith('=> '): raise Unknown('effect in a guard')
                guard = ' if ' + r[3:]
            if p in self.binds(g[0]): p = '_'
            out.append('%s%s: %s' % (p, guard, self.block(body, e2, s, k, h)))
        if default: out.append('_: ' + default())
        return 'match %s {%s}' % (self.tx(v, s), ' | '.join(out))
    def bindp(self, p, env, v):
        l = self.opt(p[0]); return {**env, self.lab(l): v} if l is not None else env
    def pat(self, p, v, s, env, k, other):
        n, var, g = self.agg(p)
        if var == 'CatchAll': return k(self.bindp(g, env, v))
        e2 = dict(env)
        if var == 'TupleLiteral':
            parts = [self.agg(x) for x in self.lst(g[0])]
            if all(x[1] in ('CatchAll', 'BindRef') for x in parts) and not any(b.startswith('$') for b in self.binds(p)):
                whole = v[1] if v[0] == 'tup' and len(v[1]) == len(parts) else None
                for i, x in enumerate(parts):
                    l = x[2][0] if x[1] == 'BindRef' else self.opt(x[2][0])
                    if l is not None: e2[self.lab(l)] = whole[i] if whole else ('t', '%s.%d' % (self.tx(v, s), i))
                return k(e2)
        t = 'let %s = %s; ' % (self.ptext(p), self.tx(v, s))
        for b in self.binds(p): e2[b] = ('t', b)
        return t + k(e2)
    def binds(self, p):
        if self.one(p)[0] == 'sym': return []
        n, var, g = self.agg(p)
        if var == 'CatchAll':
            l = self.opt(g[0]); return [self.lab(l)] if l is not None else []
        if var == 'BindRef': return [self.lab(g[0])]
        if var in ('TupleLiteral', 'ArrayLiteral'): return [b for x in self.lst(g[0]) for b in self.binds(x)]
        if var == 'Option':
            o = self.opt(g[0]); return self.binds(o) if o is not None else []
        if var == 'Variant': return self.binds(g[1])
        return []
    def ptext(self, p):
        a = self.one(p)
        if a[0] == 'sym': return symtext(a)
        n, var, g = self.agg(p)
        if var == 'PrimLiteral': return self.lit(g[0])
        if var == 'PrimRange':
            o = self.opt(g[1]); return '%s..=%s' % (self.lit(g[0]), self.lit(o)) if o is not None else '%s..' % self.lit(g[0])
        if var == 'TupleLiteral': return '(%s)' % ', '.join(self.ptext(x) for x in self.lst(g[0]))
        if var == 'ArrayLiteral': return '[%s]' % ', '.join(self.ptext(x) for x in self.lst(g[0]))
        if var == 'Option':
            o = self.opt(g[0]); return 'Some(%s)' % self.ptext(o) if o is not None else 'None'
        if var == 'Fill': return '..'
        if var == 'CatchAll':
            l = self.opt(g[0]); return self.lab(l) if l is not None else '_'
        if var == 'BindRef': return 'ref ' + self.lab(g[0])
        if var == 'Variant': return '%s(%s)' % (self.con(g[0]), self.ptext(g[1]))
        raise Unknown('pattern ' + text(a))
