"""Value-flow models of the standard-library functions the analysed code uses."""
import absint as A
import lists

IDENT = {
    'Box::new', 'Rc::new', 'Arc::new', 'Clone::clone', 'ToOwned::to_owned', 'Deref::deref', 'AsRef::as_ref',
    'Borrow::borrow', 'Into::into', 'From::from', 'Vec::as_slice', 'Vec::into_boxed_slice', 'Rc::as_ref',
    'Option::as_ref', 'Option::as_deref', 'Option::cloned', 'Option::copied', 'Result::as_ref', 'Option::as_mut',
    'Box::as_ref', 'slice::to_vec', 'slice::into_vec', 'Cow::into_owned', 'DerefMut::deref_mut', 'AsMut::as_mut',
    'BorrowMut::borrow_mut', 'Vec::as_mut_slice', 'hint::must_use', 'convert::identity', 'mem::take_', 'Vec::into_iter_',
    'Box::leak', 'Box::into_inner', 'ptr::read', 'Option::take_', 'hint::black_box', 'Cell::get', '__private::must_use',
}
TRAIT_IDENT = ('Clone>::clone', 'ToOwned>::to_owned', 'Deref>::deref', 'AsRef>::as_ref', 'Borrow>::borrow',
               'DerefMut>::deref_mut', 'Into>::into', 'AsMut>::as_mut', 'BorrowMut>::borrow_mut')
ITER_IDENT = {'iter', 'into_iter', 'iter_mut', 'by_ref', 'copied', 'cloned', 'fuse', 'peekable', 'drain'}

def fold_checked(op, i, j, ty):
    """value of a checked operation on known numbers: a number, None where it has none, 0.5 where it is not read here"""
    w = UBITS.get(ty)
    if w is None: return 0.5
    f = {'checked_add': lambda: i + j, 'checked_sub': lambda: i - j, 'checked_mul': lambda: i * j, 'checked_div': lambda: i // j if j else None, 'checked_rem': lambda: i % j if j else None,
         'checked_shl': lambda: (i << j) % (1 << w) if j < w else None, 'checked_shr': lambda: i >> j if j < w else None}.get(op)
    if f is None: return 0.5
    r = f()
    return None if r is None or not 0 <= r < 1 << w else r
FOLD = {'saturating_sub': lambda a, b: max(a - b, 0), 'div_ceil': lambda a, b: -(-a // b) if b else 0}
def one_int(v):
    if len(v) != 1: return None
    a = next(iter(v))
    return a[1] if a[0] == 'int' else None

def optlike(v):
    """split an Option/Result value into [(variant, payload value or None)]; unknown atoms give both"""
    out = {}
    for a in v:
        if a[0] == 'agg' and a[2] in ('Some', 'Ok', 'Err', 'None', 'Continue', 'Break'):
            p = a[3][0] if a[3] else None
            out.setdefault(a[2], A.EMPTY)
            if p is not None: out[a[2]] = A.join(out[a[2]], p)
        else:
            out.setdefault('?', A.EMPTY)
            out['?'] = out['?'] | {a}
    return out

def pay(an, v, variant, st):
    return an.proj(an.proj(v, ('d', 0, variant), st), ('f', 0, '0'), st)

def elem(an, it, st, site, ctx):
    """abstract element of an iterator value"""
    out = A.EMPTY
    for a in it:
        if a[0] == 'op' and a[1] == 'iter': out = A.join(out, elem_of(an, a[2][0], st))
        elif a[0] == 'op' and a[1] == 'enumerate':
            out = A.join(out, A.V(A.tup(A.V(('op', 'index', (a[2][0],))), elem(an, a[2][0], st, site, ctx))))
        elif an.keep_index and a[0] == 'op' and a[1] in ('rev', 'skip', 'take', 'step_by'):
            out = A.join(out, A.mkop(a[1], elem(an, a[2][0], st, site, ctx), *a[2][1:]))
        elif a[0] == 'op' and a[1] in ('rev', 'skip', 'take', 'step_by', 'filter', 'skip_while', 'take_while', 'chainpart', 'zipself'):
            out = A.join(out, elem(an, a[2][0], st, site, ctx))
        elif a[0] == 'op' and a[1] == 'chain':
            out = A.join(out, A.join(elem(an, a[2][0], st, site, ctx), elem(an, a[2][1], st, site, ctx)))
        elif a[0] == 'op' and a[1] == 'zip':
            out = A.join(out, A.V(A.tup(elem(an, a[2][0], st, site, ctx), elem(an, a[2][1], st, site, ctx))))
        elif a[0] == 'op' and a[1] == 'map':
            e = elem(an, a[2][0], st, site, ctx)
            try:
                v, s = an.call_value(a[2][1], [e], dict(st), site + ('map',), *ctx)
                st.update(s)
                out = A.join(out, v)
            except A.Diverge: pass
        elif a[0] == 'agg' and a[1].split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'):
            out = A.join(out, A.V(('op', 'in', (A.V(a),))))
        elif a[0] == 'op' and a[1] == 'repeat_n': out = A.join(out, a[2][0])
        elif a[0] == 'agg' and local_next(an, a):
            try:
                o, s = an.call_value(A.V(('fn', local_next(an, a))), [A.V(a)], dict(st), site + ('next',), *ctx)
                st.update(s)
                ol = optlike(o)
                out = A.join(out, ol.get('Some', A.EMPTY))
                if '?' in ol: out = A.join(out, pay(an, ol['?'], 'Some', st))
            except A.Diverge: pass
        elif a[0] == 'op' and a[1].startswith('mut:') : out = A.join(out, elem(an, a[2][0], st, site, ctx))
        else: out = A.join(out, elem_of(an, A.V(a), st))
    return out

def local_next(an, a):
    """the analysed crate's own Iterator::next for the type of this value"""
    t = a[1].split('::')[-1]
    m = getattr(an.prog, '_nexts', None)
    if m is None:
        m = {}
        for n, f in an.prog.fns.items():
            if n.endswith('::next') and 'Iterator>' in n and f.argc == 1:
                m[f.local_ty(1).s.replace('&mut ', '').split('<')[0].split('::')[-1].replace("'{erased} ", '')] = n
        an.prog._nexts = m
    return m.get(t)

def itered(an, v, targs, st, site, ctx):
    """pass an IntoIterator argument of a local type through the crate's own into_iter"""
    if not targs: return v
    m = getattr(an.prog, '_intos', None)
    if m is None:
        m = {}
        for n, f in an.prog.fns.items():
            if n.endswith('::into_iter') and 'IntoIterator>' in n and f.argc == 1:
                m[tykey(f.local_ty(1).s)] = n
        an.prog._intos = m
    n = m.get(tykey(targs[-1].s))
    if n is None: return v
    try:
        r, s = an.call_value(A.V(('fn', n)), [v], dict(st), site + ('into_iter',), *ctx)
    except A.Diverge: return v
    st.update(s)
    return r
def tykey(t):
    r = t.startswith('&')
    return ('&' if r else '') + t.replace("'{erased} ", '').lstrip('&').split('<')[0].split('::')[-1]

def elem_of(an, v, st):
    out = A.EMPTY
    for a in v:
        if a[0] == 'vec': out = A.join(out, a[1])
        elif a[0] == 'agg' and a[1] == 'array':
            for f in a[3]: out = A.join(out, f)
        elif a[0] == 'agg' and a[1].split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'):
            out = A.join(out, A.V(('op', 'in', (A.V(a),))))
        elif a[0] == 'sym': out = A.join(out, A.V(('sym', a[1], a[2] + ('[]',))))
        elif a[0] == 'addr': out = A.join(out, elem_of(an, an.load_addr(a, st), st))
        elif a[0] == 'agg' and a[2] in ('Some', 'None') :
            if a[3]: out = A.join(out, a[3][0])
        else: out = A.join(out, A.V(('op', 'elem', (A.V(a),))))
    return out

UBITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
_from = {}
def from_impl(prog, src, dst):
    k = (id(prog), src, dst)
    if k not in _from:
        strip = lambda t: t.replace("'{erased} ", '').replace("'{erased}", '').replace('doodle::', '')
        r = [n for n, f in prog.fns.items() if n.endswith('::from') and 'From<' in n and f.argc == 1
             and strip(f.local_ty(1).s) == strip(src) and strip(f.local_ty(0).s) == strip(dst)]
        _from[k] = r[0] if len(r) == 1 else None
    return _from[k]

def std_model(an, name, nn, bn, vals, targs, st, site, fn, bb, line):
    ctx = (fn, bb, line)
    last = nn.split('::')[-1]
    def R(v): return (v, st)
    n0 = len(vals)
    is_local = an.local(name) is not None
    if (nn.endswith(' as Clone>::clone') or nn.endswith(' as ToOwned>::to_owned')) and n0 == 1:
        return R(an.snap(vals[0], st))
    if is_local: return None
    if an.lists:
        r = lists.model(an, nn, bn, last, vals, targs, st, site, ctx)
        if r is not None: return r
    v0 = vals[0] if n0 else A.EMPTY
    if last == 'into' and n0 == 1 and len(targs) >= 2:
        # the blanket Into goes through the local From impl of the target type
        f = from_impl(an.prog, targs[0].s, targs[1].s)
        if f is not None:
            v, s = an.call_value(A.V(('fn', f)), [v0], st, site + ('into',), *ctx)
            return (v, s)
    if nn in ('<Cow as Deref>::deref', '<Cow as AsRef>::as_ref', 'Cow::into_owned', '<Cow as Borrow>::borrow'):
        v = an.snap(v0, st)
        return R(frozenset(x for a in v for x in (a[3][0] if a[0] == 'agg' and a[1].split('::')[-1] == 'Cow' and a[3] else (a,))))
    if nn in IDENT or bn in IDENT or nn.endswith(TRAIT_IDENT):
        if bn in ('DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut'): return R(v0)
        return R(an.snap(v0, st)) if any(a[0] == 'addr' for a in v0) else R(v0)
    if last in ('from', 'into') and ('From' in nn or 'Into' in nn) and n0 == 1: return R(v0)
    if last in ('unwrap_or_default',): pass
    if nn == 'Box::new_uninit': return R(A.V(('sym', ('box', site), ())))
    if nn == 'boxed::box_assume_init_into_vec_unsafe':
        out = A.EMPTY
        for a in v0:
            if a[0] == 'sym':
                hs = [v for k, v in st.items() if k[0] == 'heap' and k[1] == a[1]]
                for h in hs: out = A.join(out, h)
                if not hs: out = out | {a}
            else: out = out | {a}
        res = A.EMPTY
        for a in out:
            while a[0] == 'agg' and a[1].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling', 'partial') and a[3]:
                inner = [x for f in a[3] for x in f]
                if len(inner) != 1: break
                a = inner[0]
            res = res | {a}
        return R(res)
    # ---- ? operator
    if bn == 'Try::branch':
        out = A.EMPTY
        o = optlike(v0)
        for k, p in o.items():
            if k in ('Ok', 'Some'): out = A.join(out, A.V(('agg', A.CFLOW, 'Continue', (p,))))
            elif k == 'Err': out = A.join(out, A.V(('agg', A.CFLOW, 'Break', (A.V(A.err(p)),))))
            elif k == 'None': out = A.join(out, A.V(('agg', A.CFLOW, 'Break', (A.V(A.NONE),))))
            elif k == 'Continue' : out = A.join(out, A.V(('agg', A.CFLOW, 'Continue', (p,))))
            elif k == 'Break': out = A.join(out, A.V(('agg', A.CFLOW, 'Break', (A.V(('agg', A.CFLOW, 'Break', (p,))),))))
            else:
                isopt = 'Option' in nn or (targs and 'Option<' in targs[0].s.split('(')[0][:24])
                good, bad = ('Some', 'None') if isopt else ('Ok', 'Err')
                out = A.join(out, A.V(('agg', A.CFLOW, 'Continue', (pay(an, p, good, st),))))
                b = A.V(A.NONE) if isopt else A.V(A.err(pay(an, p, 'Err', st)))
                out = A.join(out, A.V(('agg', A.CFLOW, 'Break', (b,))))
        return R(out)
    if bn == 'FromResidual::from_residual': return R(v0)
    if bn == 'Try::from_output':
        return R(A.V(A.ok(v0)))
    # ---- Option / Result combinators
    recv = nn.split('::')[0]
    if recv in ('Option', 'Result') and n0:
        vv = an.snap(v0, st)
        o = optlike(vv)
        isopt = recv == 'Option'
        good, bad = ('Some', 'None') if isopt else ('Ok', 'Err')
        g = o.get(good); b = o.get(bad); u = o.get('?')
        gp = A.EMPTY if g is None else g
        if u is not None: gp = A.join(gp, pay(an, u, good, st))
        has_g = g is not None or u is not None
        has_b = b is not None or u is not None
        bp = A.EMPTY if b is None else b
        if u is not None and not isopt: bp = A.join(bp, pay(an, u, bad, st))
        mkg = (lambda v: A.V(A.some(v))) if isopt else (lambda v: A.V(A.ok(v)))
        mkb = A.V(A.NONE) if isopt else A.V(A.err(bp))
        def callv(f, args):
            v, s = an.call_value(an.snap(f, st), args, dict(st), site, *ctx)
            return v, s
        def branchy(g_fn, b_fn):
            """evaluate both feasible sides on copies of the state and join"""
            outv = A.EMPTY; outs = None
            for cond, f in ((has_g, g_fn), (has_b, b_fn)):
                if not cond or f is None: continue
                try: v, s = f(dict(st))
                except A.Diverge: continue
                outv = A.join(outv, v)
                if outs is None: outs = s
                else: an.join_state(outs, s, -1, -1, False, False, site)
            if outs is None: raise A.Diverge()
            return outv, outs
        def inv(f, args, wrap=None):
            def go(s):
                v, s2 = an.call_value(an.snap(f, s), args, s, site, *ctx)
                return (wrap(v) if wrap else v), s2
            return go
        def const(v): return lambda s: (v, s)
        if last in ('ok_or',): return branchy(const(A.V(A.ok(gp))), const(A.V(A.err(vals[1]))))
        if last == 'ok_or_else': return branchy(const(A.V(A.ok(gp))), inv(vals[1], [], lambda v: A.V(A.err(v))))
        if last == 'ok': return branchy(const(A.V(A.some(gp))), const(A.V(A.NONE)))
        if last == 'err': return branchy(const(A.V(A.NONE)), const(A.V(A.some(bp))))
        if last in ('unwrap', 'expect', 'unwrap_unchecked', 'unwrap_or_else_', 'unwrap_or_default'):
            if not has_g and last != 'unwrap_or_default': raise A.Diverge()
            return R(gp)
        if last in ('unwrap_err', 'expect_err'): return R(bp)
        if last == 'unwrap_or': return branchy(const(gp), const(vals[1]))
        if last == 'unwrap_or_else': return branchy(const(gp), inv(vals[1], [] if isopt else [bp]))
        if last == 'map': return branchy(inv(vals[1], [gp], mkg), const(mkb))
        if last == 'map_err': return branchy(const(mkg(gp)), inv(vals[1], [bp], lambda v: A.V(A.err(v))))
        if last == 'and_then': return branchy(inv(vals[1], [gp]), const(mkb))
        if last == 'or_else': return branchy(const(mkg(gp)), inv(vals[1], [] if isopt else [bp]))
        if last == 'map_or': return branchy(inv(vals[2], [gp]), const(vals[1]))
        if last == 'map_or_else': return branchy(inv(vals[2], [gp]), inv(vals[1], [] if isopt else [bp]))
        if last in ('is_some', 'is_ok', 'is_none', 'is_err'):
            pos = last in ('is_some', 'is_ok')
            outv = A.EMPTY
            if g is not None: outv = A.join(outv, A.TRUE if pos else A.FALSE)
            if b is not None: outv = A.join(outv, A.FALSE if pos else A.TRUE)
            if u is not None: outv = A.join(outv, A.mkop(last, u))
            return R(outv)
        if last in ('is_some_and', 'is_ok_and'): return branchy(inv(vals[1], [gp]), const(A.FALSE))
        if last in ('is_none_or',): return branchy(inv(vals[1], [gp]), const(A.TRUE))
        if last == 'filter':
            def kept(p):
                k = p == A.TRUE; d = p == A.FALSE
                return A.V(A.NONE) if d else A.V(A.some(gp)) if k else A.V(A.some(an.kept(gp, p) if getattr(an, 'kept', None) else gp), A.NONE)
            return branchy(inv(vals[1], [gp], kept), const(A.V(A.NONE)))
        if last == 'or': return branchy(const(mkg(gp)), const(vals[1]))
        if last == 'and': return branchy(const(vals[1]), const(mkb))
        if last == 'zip':
            o2 = optlike(an.snap(vals[1], st)); p2 = o2.get('Some', A.EMPTY)
            if '?' in o2: p2 = A.join(p2, pay(an, o2['?'], 'Some', st))
            out = []
            if has_g and ('Some' in o2 or '?' in o2): out.append(A.some(A.V(A.tup(gp, p2))))
            if b is not None or u is not None or 'None' in o2 or '?' in o2: out.append(A.NONE)
            return R(frozenset(out))
        if last in ('get_or_insert', 'get_or_insert_with', 'insert') and isopt and len(v0) == 1 and next(iter(v0))[0] in ('addr', 'sym') and u is None:
            a = next(iter(v0))
            def put(v, s): an.store_addr(a, (), v, s, False) if a[0] == 'addr' else an.store_through(v0, [], v, s)
            if last == 'insert': put(A.V(A.some(vals[1])), st); return R(vals[1])
            if b is None: return R(gp)
            if last == 'get_or_insert_with':
                nv, s2 = an.call_value(an.snap(vals[1], st), [], st, site, *ctx)
            else: nv, s2 = vals[1], st
            new = A.join(gp, nv) if g is not None else nv
            put(A.V(A.some(new)), s2)
            return (new, s2)
        if last in ('take',) and v0:
            for a in v0:
                if a[0] == 'addr': an.store_addr(a, (), A.V(A.NONE), st, len(v0) > 1)
            return R(vv)
        if last == 'replace' and n0 == 2 and v0 and all(a[0] == 'addr' for a in v0):
            for a in v0: an.store_addr(a, (), A.V(A.some(vals[1])), st, len(v0) > 1)
            return R(vv)
        if last in ('iter', 'into_iter'): return R(A.mkop('iter', vv))
        if last == 'transpose':
            if len(vv) == 1:
                a = next(iter(vv)); p = next(iter(a[3][0])) if a[0] == 'agg' and a[3] and len(a[3][0]) == 1 else None
                if a[0] == 'agg' and a[2] == 'None': return R(A.V(A.ok(A.V(A.NONE))))
                if a[0] == 'agg' and a[2] == 'Some' and p and p[0] == 'agg' and p[2] in ('Ok', 'Err'): return R(A.V(A.ok(A.V(A.some(p[3][0])))) if p[2] == 'Ok' else A.V(p))
                if a[0] == 'agg' and a[2] == 'Ok' and p and p[0] == 'agg' and p[2] in ('Some', 'None'): return R(A.V(A.some(A.V(A.ok(p[3][0])))) if p[2] == 'Some' else A.V(A.NONE))
                if a[0] == 'agg' and a[2] == 'Err': return R(A.V(A.some(A.V(a))))
            return R(A.mkop('transpose', vv))
    # ---- bool
    if nn in ('bool::then_some',):
        ints = all(a[0] == 'int' for a in v0) and v0
        return R(frozenset(([A.some(vals[1])] if not ints or any(a[1] for a in v0) else []) + ([A.NONE] if not ints or any(not a[1] for a in v0) else [])))
    if nn in ('bool::then',):
        ints = all(a[0] == 'int' for a in v0) and v0
        if ints and not any(a[1] for a in v0): return R(A.V(A.NONE))
        if ints and all(a[1] for a in v0):
            v, s = an.call_value(vals[1], [], st, site, *ctx)
            return (A.V(A.some(v)), s)
        try:
            v, s = an.call_value(vals[1], [], dict(st), site, *ctx)
            an.join_state(st, s, -1, -1, False, False, site)
            return R(A.V(A.some(v), A.NONE))
        except A.Diverge: return R(A.V(A.NONE))
    # ---- Vec
    if nn == 'vec::from_elem' and n0 == 2: return R(A.V(('vec', v0)))
    if nn in ('Vec::new', 'Vec::with_capacity', 'VecDeque::new', '<Vec as Default>::default', 'Vec::default'): return R(A.V(('vec', A.EMPTY)))
    if nn in ('Vec::push', 'VecDeque::push_back') and n0 == 2:
        for a in v0:
            if a[0] == 'addr':
                old = an.load_addr(a, st)
                nv = frozenset(('vec', A.join(x[1], vals[1])) if x[0] == 'vec' else ('op', 'push', (A.V(x), vals[1])) for x in old)
                an.store_addr(a, (), nv, st, len(v0) > 1)
            elif a[0] == 'sym':
                an.store_through(A.V(a), [], A.V(('op', 'push', (an.proj(A.V(a), '*', st), vals[1]))), st)
        return R(A.V(A.UNIT))
    if last == 'extend' and n0 == 2 or nn in ('Vec::append', 'Vec::extend_from_slice'):
        src = an.snap(vals[1], st)
        if last == 'extend': src = itered(an, src, targs, st, site, ctx)
        e = elem(an, src, st, site, ctx)
        for a in v0:
            if a[0] == 'addr':
                old = an.load_addr(a, st)
                nv = frozenset(('vec', A.join(x[1], e)) if x[0] == 'vec' else ('op', 'extend', (A.V(x), an.snap(vals[1], st))) for x in old)
                an.store_addr(a, (), nv, st, len(v0) > 1)
            elif a[0] == 'sym':
                an.store_through(A.V(a), [], A.V(('op', 'extend', (an.proj(A.V(a), '*', st), an.snap(vals[1], st)))), st)
        return R(A.V(A.UNIT))
    if last == 'len' and n0 == 1: return R(an.length(an.snap(v0, st), st))
    if bn in ('Index::index', 'IndexMut::index_mut') and n0 == 2:
        out = []
        if an.keep_index and bn == 'Index::index' and not any(x[0] == 'agg' and 'Range' in x[1] for x in vals[1]):
            return R(an.at(an.snap(v0, st), an.snap(vals[1], st), st))
        if len(vals[1]) == 1 and all(x[0] == 'agg' and x[1].endswith('RangeFull') for x in vals[1]): return R(an.snap(v0, st) if bn == 'Index::index' else v0)
        for a in an.snap(v0, st):
            rng = any(x[0] == 'agg' and 'Range' in x[1] for x in vals[1])
            if a[0] == 'vec' and not rng: out.extend(a[1])
            elif a[0] == 'agg' and a[1] == 'array' and not rng:
                for f in a[3]: out.extend(f)
            elif a[0] == 'sym' and not rng: out.append(('sym', a[1], a[2] + ('[]',)))
            else: out.append(('op', 'index', (A.V(a), vals[1])))
        return R(frozenset(out))
    if nn in ('iter::repeat_n', 'iter::repeat') and n0: return R(A.V(('op', 'repeat_n', tuple(an.snap(v, st) for v in vals))))
    if nn in ('slice::get', 'slice::first', 'slice::last', 'Vec::get', 'slice::get_mut', '[]::get', '[]::first', '[]::last', '[]::get_mut') :
        e = elem_of(an, an.snap(v0, st), st)
        if an.keep_index and last == 'get' and not any(x[0] == 'agg' and 'Range' in x[1] for x in vals[1]): e = an.at(an.snap(v0, st), an.snap(vals[1], st), st)
        elif last == 'get' and any(x[0] == 'agg' and 'Range' in x[1] for x in vals[1]): e = A.mkop('index', an.snap(v0, st), vals[1])
        return R(A.V(A.some(e), A.NONE))
    if nn in ('Vec::pop',):
        return R(A.V(A.some(elem_of(an, an.snap(v0, st), st)), A.NONE))
    if nn in ('Vec::remove', 'Vec::swap_remove'):
        return R(elem_of(an, an.snap(v0, st), st))
    # ---- iterators
    if bn in ('IntoIterator::into_iter',) or (last in ITER_IDENT and n0 == 1 and recv not in ('Option', 'Result')):
        vv = an.snap(v0, st)
        return R(frozenset(a if (a[0] == 'op' and a[1] in ('iter', 'enumerate', 'rev', 'map', 'zip', 'chain', 'skip', 'take', 'filter'))
                           or (a[0] == 'op' and a[1] == 'repeat_n') or (a[0] == 'agg' and ('Range' in a[1] or local_next(an, a))) else ('op', 'iter', (A.V(a),)) for a in vv))
    if bn.startswith('Iterator::') or bn.startswith('DoubleEndedIterator::') or bn.startswith('ExactSizeIterator::'):
        it = an.snap(v0, st)
        if last in ('next', 'next_back'):
            e = elem(an, it, st, site, ctx)
            return R(A.V(A.some(e), A.NONE) if e else A.V(A.NONE))
        if last == 'enumerate': return R(A.mkop('enumerate', it))
        if last in ('rev', 'skip', 'take', 'step_by'): return R(A.mkop(last, it, *vals[1:]))
        if last == 'zip': 
            v1 = an.snap(vals[1], st)
            v1 = frozenset(a if a[0] == 'op' and a[1] in ('iter', 'enumerate', 'rev', 'map', 'zip', 'chain', 'repeat_n') or a[0] == 'agg' and local_next(an, a) else ('op', 'iter', (A.V(a),)) for a in v1)
            return R(A.mkop('zip', it, v1))
        if last == 'chain': return R(A.mkop('chain', it, an.snap(vals[1], st)))
        if last == 'map': return R(A.mkop('map', it, vals[1]))
        if last in ('filter', 'skip_while', 'take_while'):
            e = elem(an, it, st, site, ctx)
            t = A.EMPTY
            try:
                t, s = an.call_value(vals[1], [e], dict(st), site, *ctx); st.update(s)
            except A.Diverge: pass
            if last != 'skip_while' and t == A.V(('int', 0)): return R(A.mkop('iter', A.V(('vec', A.EMPTY))))
            if last != 'skip_while' and t == A.V(('int', 1)): return R(it)
            return R(A.mkop('filter', it))
        if last in ('for_each', 'any', 'all', 'position', 'find', 'find_map', 'filter_map', 'flat_map', 'max_by_key', 'min_by_key', 'partition', 'inspect'):
            e = elem(an, it, st, site, ctx)
            r = A.EMPTY
            try:
                r, s = an.call_value(vals[1], [e], dict(st), site, *ctx)
                an.join_state(st, s, -1, -1, False, False, site)
                r2, s = an.call_value(vals[1], [e], dict(st), site, *ctx)
                an.join_state(st, s, -1, -1, False, False, site)
                r = A.join(r, r2)
            except A.Diverge: pass
            if last == 'for_each': return R(A.V(A.UNIT))
            if last in ('any', 'all'):
                if r and all(a in (('int', 0), ('int', 1)) for a in r):
                    stop = ('int', 1 if last == 'any' else 0); dflt = ('int', 0 if last == 'any' else 1)
                    return R(A.V(stop, dflt) if stop in r else A.V(dflt))
                return R(A.mkop(last, r))
            if last == 'find': return R(A.V(A.NONE) if not e or r == A.V(('int', 0)) else A.V(A.some(e), A.NONE))
            if last == 'find_map':
                o = optlike(r); p = o.get('Some', A.EMPTY)
                if '?' in o: p = A.join(p, pay(an, o['?'], 'Some', st))
                return R(A.V(A.some(p), A.NONE) if p else A.V(A.NONE))
            return R(A.mkop(last, it, r))
        if last in ('fold', 'try_fold', 'rfold'):
            acc = vals[1]
            res = A.EMPTY
            for rnd in range(6):
                e = elem(an, it, st, site, ctx)
                try: v, s = an.call_value(vals[2], [acc, e], dict(st), site, *ctx)
                except A.Diverge: break
                an.join_state(st, s, -1, -1, False, False, site)
                if last == 'try_fold':
                    o = optlike(v); nxt = A.EMPTY
                    for k in ('Ok', 'Some', 'Continue'): nxt = A.join(nxt, o.get(k, A.EMPTY))
                    if '?' in o: nxt = A.join(nxt, A.join(pay(an, o['?'], 'Ok', st), A.EMPTY))
                    for k in ('Err', 'None', 'Break'):
                        if k in o: res = A.join(res, A.V(('agg', A.RESULT if k == 'Err' else A.OPTION, k, (o[k],) if k != 'None' else ())))
                else: nxt = v
                j = A.join(acc, nxt)
                if rnd >= 2: j = an.widen(acc, j, (site, 'fold'), rnd >= 4)
                if j == acc: break
                acc = j
            if last == 'try_fold': return R(A.join(res, A.V(A.ok(acc))))
            return R(acc)
        if last == 'reduce':
            e = elem(an, it, st, site, ctx)
            acc = e
            for rnd in range(3):
                try: v, s = an.call_value(vals[1], [acc, e], dict(st), site, *ctx)
                except A.Diverge: break
                st.update(s); acc = A.join(e, v)
                if rnd == 0: acc = A.join(e, A.V(('op', 'reduced', (v,))))
                break
            return R(A.V(A.some(A.V(('op', 'reduce', (e, v)))), A.NONE))
        if last == 'collect':
            e = elem(an, it, st, site, ctx)
            o = optlike(e)
            ty = targs[-1].s if targs else ''
            if ty.startswith('std::result::Result<'):
                p = o.get('Ok', A.EMPTY)
                if '?' in o: p = A.join(p, pay(an, o['?'], 'Ok', st))
                b = o.get('Err', A.EMPTY)
                if '?' in o: b = A.join(b, pay(an, o['?'], 'Err', st))
                return R(A.V(A.ok(A.V(('vec', p))), A.err(b)))
            if ty.startswith('std::option::Option<'):
                p = o.get('Some', A.EMPTY)
                return R(A.V(A.some(A.V(('vec', p))), A.NONE))
            return R(A.V(('vec', e)))
        if last in ('cloned', 'copied', 'by_ref', 'peekable', 'fuse'): return R(it)
        if last in ('count', 'sum', 'max', 'min', 'last', 'nth', 'unzip', 'product'):
            e = elem(an, it, st, site, ctx)
            if an.keep_index and last in ('nth', 'last'):
                base = frozenset(x for a in it for x in (a[2][0] if a[0] == 'op' and a[1] == 'iter' else (a,)))
                e = an.at(base, an.snap(vals[1], st), st) if last == 'nth' else A.mkop('last', base)
            if last in ('max', 'min', 'last', 'nth'): return R(A.V(A.some(e), A.NONE))
            return R(A.mkop(last, it))
    if nn in ('Vec::from_iter', '<Vec as FromIterator>::from_iter') or bn == 'FromIterator::from_iter':
        return R(A.V(('vec', elem(an, itered(an, an.snap(v0, st), targs, st, site, ctx), st, site, ctx))))
    if nn == 'iter::zip':
        def mk(v): return frozenset(a if a[0] == 'op' and a[1] in ('iter', 'enumerate', 'rev', 'map', 'zip', 'chain') else ('op', 'iter', (A.V(a),)) for a in an.snap(v, st))
        return R(A.mkop('zip', mk(v0), mk(vals[1])))
    # ---- mem
    if nn in ('mem::replace', 'mem::take', 'mem::swap') and n0:
        old = an.snap(v0, st)
        if last != 'swap':
            new = vals[1] if last == 'replace' else A.mkop('default')
            an.store_through(v0, [], new, st)
            return R(old)
        elif n0 == 2:
            b = an.snap(vals[1], st)
            an.store_through(v0, [], b, st); an.store_through(vals[1], [], old, st)
            return R(A.V(A.UNIT))
    # ---- comparisons and arithmetic through traits
    if bn in ('PartialEq::eq', 'PartialEq::ne', 'PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge') and n0 == 2:
        m = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[last]
        return R(an.binop(m, an.snap(v0, st), an.snap(vals[1], st)))
    if bn in ('Add::add', 'Sub::sub', 'Mul::mul', 'BitAnd::bitand', 'BitOr::bitor', 'Shl::shl', 'Shr::shr', 'Not::not', 'BitXor::bitxor',
              'Div::div', 'Rem::rem', 'Neg::neg'):
        if n0 == 2 and one_int(an.snap(v0, st)) is not None and one_int(an.snap(vals[1], st)) is not None: return R(an.binop(bn.split('::')[0], an.snap(v0, st), an.snap(vals[1], st)))
        return R(A.mkop(bn.split('::')[0], *[an.snap(v, st) for v in vals]))
    if last in ('cmp', 'partial_cmp') and bn in ('Ord::cmp', 'PartialOrd::partial_cmp') and n0 == 2:
        i, j = one_int(an.snap(v0, st)), one_int(an.snap(vals[1], st))
        if i is not None and j is not None: o = (i > j) - (i < j)
        else: o = an.cmp('cmp', an.snap(v0, st), an.snap(vals[1], st)) if an.cmp is not None else None
        if o is not None:
            r = A.V(('agg', 'std::cmp::Ordering', {-1: 'Less', 0: 'Equal', 1: 'Greater'}[o], ()))
            return R(r if last == 'cmp' else A.V(A.some(r)))
    if bn.startswith('Checked') and last.startswith('checked_') and n0 == 2:
        return R(A.V(A.some(A.mkop(last, *[an.snap(v, st) for v in vals])), A.NONE))
    if (bn in ('Ord::min', 'Ord::max') or nn in ('cmp::min', 'cmp::max')) and n0 == 2:
        x, y = an.snap(v0, st), an.snap(vals[1], st)
        i, j = one_int(x), one_int(y)
        if i is not None and j is not None: return R(A.V(('int', (min if last == 'min' else max)(i, j))))
        o = an.cmp('cmp', x, y) if an.cmp is not None else None
        if o is not None: return R(x if (o <= 0) == (last == 'min') else y)
    if recv == 'usize' and last in FOLD and n0 == 2:
        i, j = one_int(an.snap(v0, st)), one_int(an.snap(vals[1], st))
        if i is not None and j is not None: return R(A.V(('int', FOLD[last](i, j))))
    if bn in ('Ord::min', 'Ord::max', 'Ord::cmp', 'PartialOrd::partial_cmp') or nn in ('cmp::min', 'cmp::max'):
        return R(A.mkop(last, *[an.snap(v, st) for v in vals]))
    if recv in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128', 'char', 'num') and n0:
        if last.startswith('checked_') and n0 == 2:
            x, y = an.snap(v0, st), an.snap(vals[1], st); i, j = one_int(x), one_int(y)
            if i is not None and j is not None:
                r = fold_checked(last, i, j, recv)
                if r != 0.5: return R(A.V(A.NONE) if r is None else A.V(A.some(A.V(('int', r)))))
            elif last == 'checked_sub' and recv in UBITS and an.cmp is not None:
                o = an.cmp('cmp', x, y)
                if o is not None: return R(A.V(A.NONE) if o < 0 else A.V(A.some(A.mkop(nn, *vals))))
        if recv in UBITS and n0 == 2 and last.split('_')[0] in ('wrapping', 'saturating', 'overflowing'):
            i, j = one_int(an.snap(v0, st)), one_int(an.snap(vals[1], st)); w = UBITS[recv]
            f = {'add': lambda: i + j, 'sub': lambda: i - j, 'mul': lambda: i * j}.get(last.split('_')[1])
            if i is not None and j is not None and f is not None:
                r = f(); kind = last.split('_')[0]; n = A.V(('int', min(max(r, 0), (1 << w) - 1) if kind == 'saturating' else r % (1 << w)))
                return R(n if kind != 'overflowing' else A.V(A.tup(n, A.V(('int', int(not 0 <= r < 1 << w))))))
        if last.startswith('checked_') or last in ('from_u32', 'from_digit'):
            return R(A.V(A.some(A.mkop(nn, *vals)), A.NONE))
        return R(A.mkop(nn, *[an.snap(v, st) for v in vals]))
    if bn in ('TryFrom::try_from', 'TryInto::try_into'):
        if len(targs) >= 2:
            dst, src = (targs[0].s, targs[1].s) if bn == 'TryFrom::try_from' else (targs[1].s, targs[0].s)
            if dst in UBITS and src in UBITS:
                out = []; fails = False
                for a in v0:
                    k = src
                    if a[0] == 'op' and a[1].startswith('cast:'):
                        m = a[1][5:].split('->')
                        if m[0] in UBITS and m[1] in UBITS and UBITS[m[0]] <= UBITS[m[1]]: k = m[0]
                    if UBITS[k] <= UBITS[dst] and k != src: out.append(('op', 'cast:%s->%s' % (k, dst), a[2])); continue
                    x = a[2] if k != src else (A.V(a),)
                    fails = fails or UBITS[k] > UBITS[dst] or k == src
                    out.append(('op', 'try_from:' + dst, x))
                r = A.V(A.ok(frozenset(out)))
                return R(r | A.V(A.err(A.V(('sym', ('ret', site, 'TryFromIntError'), ()))))) if fails else R(r)
            return R(A.V(A.ok(A.mkop('try_from:' + dst, v0)), A.err(A.V(('sym', ('ret', site, 'TryFromIntError'), ())))))
        return R(A.V(A.ok(A.mkop('try_from:' + (targs[0].s if targs else ''), v0)), A.err(A.V(('sym', ('ret', site, 'TryFromIntError'), ())))))
    if nn in ('slice::split_at', 'str::split_at'):
        x = an.snap(v0, st)
        return R(A.V(A.tup(A.mkop('prefix', x, vals[1]), A.mkop('suffix', x, vals[1]))))
    if nn == 'slice::into_vec': return R(v0)
    return None
