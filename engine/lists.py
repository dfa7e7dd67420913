"""Ordered sequences: with Analysis.lists set, a Vec or slice of known length is an 'array' aggregate and a loop over
it is analysed element by element (the analysis partitions its states by how many elements are left)."""
import absint as A

def arr(items): return A.V(('agg', 'array', None, tuple(items)))
def items(v):
    """elements of a value that is exactly one array (or one iterator over one)"""
    if len(v) != 1: return None
    a = next(iter(v))
    if a[0] == 'agg' and a[1] == 'array': return list(a[3])
    if a[0] == 'op' and a[1] == 'iter': return items(a[2][0])
    if a[0] == 'agg' and a[1].split('::')[-1] == 'Range' and len(a[3]) == 2:
        lo, hi = num(a[3][0]), num(a[3][1])
        if lo is not None and hi is not None and hi - lo <= 40: return [A.V(('int', i)) for i in range(lo, hi)]
    return None
def num(v):
    a = next(iter(v)) if len(v) == 1 else ('', None)
    return a[1] if a[0] == 'int' else None
def it(xs): return A.mkop('iter', arr(xs))
def isiter(v): return len(v) == 1 and next(iter(v))[0] == 'op' and next(iter(v))[1] == 'iter'

def signature(st, fr, options=False):
    """lengths of the sequences a frame holds: the partition of its states"""
    out = []
    def go(k, v, d):
        if len(v) != 1 or d > 3: return
        a = next(iter(v))
        if a[0] == 'agg' and a[1] == 'array': out.append((k, len(a[3])))
        elif a[0] == 'op' and a[1] == 'iter': go(k + ('i',), a[2][0], d)
        elif a[0] == 'agg' and a[1] != 'tuple':
            if options and d == 0 and a[1] == A.OPTION: out.append((k + ('?',), a[2]))
            for i, f in enumerate(a[3]): go(k + (i,), f, d + 1)
    for k, v in st.items():
        if k != 'G' and (k[0] == fr or k[0] == 'S'): go((str(k),), v, 0)
    return tuple(sorted(out, key=repr))

NEWS = {'Vec::new', 'Vec::with_capacity', 'VecDeque::new', '<Vec as Default>::default', 'Vec::default', 'VecDeque::with_capacity'}
def model(an, nn, bn, last, vals, targs, st, site, ctx):
    import stdmodel as S
    R = lambda v: (v, st)
    n0 = len(vals)
    if nn in NEWS: return R(arr([]))
    if nn == 'iter::empty': return R(it([]))
    if nn == 'iter::once' and n0 == 1: return R(it([vals[0]]))
    if nn == 'iter::repeat_n' and n0 == 2 and num(an.snap(vals[1], st)) is not None and num(an.snap(vals[1], st)) <= 40: return R(it([vals[0]] * num(an.snap(vals[1], st))))
    if nn == 'RangeInclusive::new' and n0 == 2:
        lo, hi = [num(an.snap(v, st)) for v in vals]
        if lo is not None and hi is not None and hi - lo <= 40: return R(A.V(('agg', 'std::ops::Range', 'Range', (A.V(('int', lo)), A.V(('int', max(lo, hi + 1)))))))
    if not n0: return None
    v0 = vals[0]
    if nn == 'vec::from_elem' and n0 == 2 and num(an.snap(vals[1], st)) is not None and num(an.snap(vals[1], st)) <= 600: return R(arr([v0] * num(an.snap(vals[1], st))))
    cur = an.snap(v0, st); xs = items(cur)
    recv = nn.split('::')[0].strip('<').split(' ')[0]
    if recv in ('Option', 'Result', 'Box', 'Rc', 'Cow'): return None
    def put(new): an.store_through(v0, [], new, st) if not any(a[0] == 'addr' for a in v0) else [an.store_addr(a, (), new, st, False) for a in v0 if a[0] == 'addr']
    addr = len(v0) == 1 and next(iter(v0))[0] in ('addr', 'sym')
    if xs is None:
        if last in ('push', 'extend', 'append') or bn.startswith('Iterator::'): return None
        return None
    itr = isiter(cur)
    if nn == 'vec::from_elem': return None
    if last == 'repeat' and n0 == 2 and not itr and num(an.snap(vals[1], st)) is not None and num(an.snap(vals[1], st)) * len(xs) <= 40: return R(arr(xs * num(an.snap(vals[1], st))))
    if (bn == 'IndexMut::index_mut' or last == 'get_mut') and n0 == 2 and not itr and len(v0) == 1 and next(iter(v0))[0] == 'addr' and num(an.snap(vals[1], st)) is not None:
        i = num(an.snap(vals[1], st)); a = next(iter(v0))
        if i >= len(xs):
            if last == 'get_mut': return R(A.V(A.NONE))
            raise A.Diverge()
        e = A.V(('addr', a[1], a[2], tuple(a[3]) + (('ci', i, 0, False),)))
        return R(A.V(A.some(e)) if last == 'get_mut' else e)
    if addr and not itr:
        if nn in ('Vec::push', 'VecDeque::push_back') and n0 == 2: put(arr(xs + [vals[1]])); return R(A.V(A.UNIT))
        if nn in ('VecDeque::push_front',): put(arr([vals[1]] + xs)); return R(A.V(A.UNIT))
        if nn == 'Vec::insert' and num(vals[1]) is not None: i = num(vals[1]); put(arr(xs[:i] + [vals[2]] + xs[i:])); return R(A.V(A.UNIT))
        if last == 'extend' or nn in ('Vec::append', 'Vec::extend_from_slice', 'Vec::extend'):
            src = an.snap(vals[1], st)
            if last == 'extend': src = S.itered(an, src, targs, st, site, ctx)
            ys = items(src)
            if ys is None:
                o = S.optlike(src)
                if set(o) == {'Some'}: ys = [o['Some']]
                elif set(o) == {'None'}: ys = []
                else: return None
            put(arr(xs + ys))
            if nn == 'Vec::append': an.store_through(vals[1], [], arr([]), st)
            return R(A.V(A.UNIT))
        if nn in ('Vec::pop', 'VecDeque::pop_back'):
            if not xs: return R(A.V(A.NONE))
            put(arr(xs[:-1])); return R(A.V(A.some(xs[-1])))
        if nn == 'VecDeque::pop_front':
            if not xs: return R(A.V(A.NONE))
            put(arr(xs[1:])); return R(A.V(A.some(xs[0])))
        if nn in ('Vec::truncate', 'Vec::split_off', 'Vec::remove', 'Vec::drain') and n0 == 2:
            if last == 'drain' and len(vals[1]) == 1 and all(x[0] == 'agg' and x[1].endswith('RangeFull') or x[0] in ('sym', 'const') and 'RangeFull' in str(x[1]) for x in vals[1]): put(arr([])); return R(it(xs))
            i = num(an.snap(vals[1], st))
            if i is None: return None
            if last == 'truncate': put(arr(xs[:i])); return R(A.V(A.UNIT))
            if last == 'split_off':
                if i > len(xs): raise A.Diverge()
                put(arr(xs[:i])); return R(arr(xs[i:]))
            if last == 'remove':
                if i >= len(xs): raise A.Diverge()
                put(arr(xs[:i] + xs[i + 1:])); return R(xs[i])
        if nn == 'Vec::clear': put(arr([])); return R(A.V(A.UNIT))
    if last == 'is_empty': return R(A.V(('int', int(not xs))))
    if last in ('as_slice', 'as_mut_slice') and n0 == 1: return R(arr(xs))
    if last == 'len' and n0 == 1: return R(A.V(('int', len(xs))))
    if last in ('first', 'last') and n0 == 1 and not itr: return R(A.V(A.some(xs[0 if last == 'first' else -1])) if xs else A.V(A.NONE))
    if last == 'split_last' and n0 == 1: return R(A.V(A.some(A.V(A.tup(xs[-1], arr(xs[:-1]))))) if xs else A.V(A.NONE))
    if last == 'split_first' and n0 == 1: return R(A.V(A.some(A.V(A.tup(xs[0], arr(xs[1:]))))) if xs else A.V(A.NONE))
    if last == 'get' and n0 == 2 and num(vals[1]) is not None: i = num(vals[1]); return R(A.V(A.some(xs[i])) if i < len(xs) else A.V(A.NONE))
    if bn == 'Index::index' and n0 == 2 and num(vals[1]) is not None:
        i = num(vals[1])
        if i >= len(xs): raise A.Diverge()
        return R(xs[i])
    if bn == 'Index::index' and n0 == 2 and not itr:
        r = next(iter(vals[1])) if len(vals[1]) == 1 else ('', '')
        if r[0] == 'agg' and r[1].split('::')[-1] in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
            ns = [num(an.snap(x, st)) for x in r[3]]; k = r[1].split('::')[-1]
            if None not in ns:
                lo, hi = {'Range': lambda: ns, 'RangeFrom': lambda: (ns[0], len(xs)), 'RangeTo': lambda: (0, ns[0]), 'RangeFull': lambda: (0, len(xs))}[k]()
                if lo > hi or hi > len(xs): raise A.Diverge()
                return R(arr(xs[lo:hi]))
    if last == 'binary_search_by_key' and n0 == 3 and not itr:
        q = num(an.snap(vals[1], st)); ks = []
        for i, x in enumerate(xs):
            v, s2 = an.call_value(vals[2], [x], dict(st), site + ('el', i), *ctx); st.clear(); st.update(s2); ks.append(num(an.snap(v, st)))
        if q is None or None in ks or ks != sorted(ks) or ks.count(q) > 1: return None
        return R(A.V(A.ok(A.V(('int', ks.index(q))))) if q in ks else A.V(A.err(A.V(('int', len([k for k in ks if k < q]))))))
    if last == 'concat' and n0 == 1:
        ys = [items(x) for x in xs]
        return R(arr([y for z in ys for y in z])) if None not in ys else None
    if bn == 'IntoIterator::into_iter' or last in ('iter', 'into_iter', 'copied', 'cloned', 'by_ref', 'fuse') and n0 == 1:
        if last == 'by_ref': return R(v0)
        return R(cur if itr else it(xs))
    if not (bn.startswith('Iterator::') or bn.startswith('DoubleEndedIterator::') or bn.startswith('ExactSizeIterator::') or ' as Iterator>' in nn or ' as DoubleEndedIterator>' in nn):
        if bn == 'FromIterator::from_iter' or nn == 'Vec::from_iter': return R(arr(xs))
        if nn in ('slice::map', 'array::map') and n0 == 2:
            out = []
            for k, x in enumerate(xs):
                v, s2 = an.call_value(vals[1], [x], dict(st), site + ('el', k), *ctx)
                st.clear(); st.update(s2); out.append(v)
            return R(arr(out))
        return None
    if last in ('next', 'next_back'):
        if not addr: return None
        if not xs: return R(A.V(A.NONE))
        x, rest = (xs[0], xs[1:]) if last == 'next' else (xs[-1], xs[:-1])
        put(it(rest)); return R(A.V(A.some(x)))
    def call(f, args, k):
        v, s = an.call_value(f, args, dict(st), site + ('el', k), *ctx)
        st.clear(); st.update(s)
        return v
    if last == 'enumerate': return R(it([A.V(A.tup(A.V(('int', i)), x)) for i, x in enumerate(xs)]))
    if last == 'rev': return R(it(xs[::-1]))
    if last in ('skip', 'take') and num(vals[1]) is not None: n = num(vals[1]); return R(it(xs[n:] if last == 'skip' else xs[:n]))
    if last in ('zip', 'chain'):
        ys = items(an.snap(vals[1], st))
        if ys is None: return None
        return R(it([A.V(A.tup(x, y)) for x, y in zip(xs, ys)] if last == 'zip' else xs + ys))
    if last == 'map': return R(it([call(vals[1], [x], i) for i, x in enumerate(xs)]))
    if last in ('filter_map', 'find_map'):
        out = []
        for i, x in enumerate(xs):
            o = S.optlike(call(vals[1], [x], i))
            if set(o) == {'Some'}:
                out.append(o['Some'])
                if last == 'find_map': return R(A.V(A.some(o['Some'])))
            elif set(o) != {'None'}: return None
        return R(it(out) if last == 'filter_map' else A.V(A.NONE))
    if last in ('filter', 'any', 'all', 'position', 'rposition', 'find', 'take_while', 'skip_while'):
        out = []
        ix = list(range(len(xs)))
        if last == 'rposition': ix = ix[::-1]
        skipping = True
        for i in ix:
            t = num(call(vals[1], [xs[i]], i))
            if t is None: return None
            if last == 'filter' and t: out.append(xs[i])
            if last == 'take_while':
                if not t: break
                out.append(xs[i])
            if last == 'skip_while':
                skipping = skipping and bool(t)
                if not skipping: out.append(xs[i])
            if last == 'any' and t: return R(A.TRUE)
            if last == 'all' and not t: return R(A.FALSE)
            if last in ('position', 'rposition') and t: return R(A.V(A.some(A.V(('int', i)))))
            if last == 'find' and t: return R(A.V(A.some(xs[i])))
        if last in ('filter', 'take_while', 'skip_while'): return R(it(out))
        return R({'any': A.FALSE, 'all': A.TRUE}.get(last, A.V(A.NONE)))
    if last == 'for_each':
        for i, x in enumerate(xs): call(vals[1], [x], i)
        return R(A.V(A.UNIT))
    if last in ('fold', 'rfold'):
        acc = vals[1]
        for i, x in enumerate(xs if last == 'fold' else xs[::-1]): acc = call(vals[2], [acc, x], i)
        return R(acc)
    if last == 'flat_map' or last == 'flatten':
        out = []
        for i, x in enumerate(xs):
            y = call(vals[1], [x], i) if last == 'flat_map' else x
            ys = items(an.snap(y, st))
            if ys is None:
                o = S.optlike(y)
                if set(o) == {'Some'}: ys = [o['Some']]
                elif set(o) == {'None'}: ys = []
                else: return None
            out += ys
        return R(it(out))
    if last in ('max', 'min', 'sum') and n0 == 1 and all(num(an.snap(x, st)) is not None for x in xs):
        ns = [num(an.snap(x, st)) for x in xs]
        if last == 'sum': return R(A.V(('int', sum(ns))))
        return R(A.V(A.some(A.V(('int', (max if last == 'max' else min)(ns))))) if ns else A.V(A.NONE))
    if last == 'count': return R(A.V(('int', len(xs))))
    if last == 'last': return R(A.V(A.some(xs[-1])) if xs else A.V(A.NONE))
    if last == 'nth' and num(vals[1]) is not None:
        n = num(vals[1]); 
        if addr: put(it(xs[n + 1:]))
        return R(A.V(A.some(xs[n])) if n < len(xs) else A.V(A.NONE))
    if last == 'collect':
        ty = targs[-1].s if targs else ''
        for w, good, bad in (('std::result::Result<', 'Ok', 'Err'), ('std::option::Option<', 'Some', 'None')):
            if ty.startswith(w):
                out = []
                for x in xs:
                    o = S.optlike(x)
                    if set(o) == {good}: out.append(o[good])
                    elif set(o) == {bad}: return R(x)
                    else: return None
                return R(A.V(A.ok(arr(out)) if good == 'Ok' else A.some(arr(out))))
        if ty.startswith(('std::vec::Vec<', 'alloc::vec::Vec<', 'std::boxed::Box<[')): return R(arr(xs))
    return None
