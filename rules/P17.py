"""P17: the code generated for every kind of decoder node does what the interpreter does for that node.

For each node of a typed decoder the code generator (CodeGen::translate, then CaseLogic::to_ast) is interpreted abstractly on
the node with its inner decoders, expressions and patterns left symbolic.  The Rust syntax tree it builds is then read by
engine/rustsem.py, which reduces it to the sequence of parser operations, decisions and accumulations it performs, whatever
form they are written in, and that is compared with the meaning of the node.  Every node is tried with inner code that may
fail in a statement, that may fail in its value, and that cannot fail."""
import itertools, re
import absint as A, common as C, gen, rustsem
from gen import opt, arr, tup, st, num, one

CRATES = ['doodle']
RULE = ('The code generator is interpreted abstractly on every node of a typed decoder, on match trees, byte sets and repetition states; the Rust syntax tree it builds is reduced to the parser operations, decisions and accumulations '
        'it performs, and must be exactly those of the node, whatever the inner code is (failing in a statement, failing in its value, not failing).')
def where(f): return '' if f is None else '%s %s' % (f.loc(), f.name)
def undecided(rep, key, msg): rep.known(False, key, msg)

KINDS = ('stm', 'try', 'obs', 'val')
S = C.sym
def rn(t, p='IN', k='stm'): return '' if k == 'val' else 'run %s on %s; ' % (t, p) if k == 'obs' else 'run %s on %s?; ' % (t, p)
LAB = {'ForEach': ['2'], 'Let': ['1'], 'LetView': ['1'], 'LetFormat': ['2'], 'Apply': ['1']}

def loop(body, pre='', ret='v0*'): return 'v0 := []; ' + pre + 'loop {' + body + '} => ' + ret
PN = 'IN.close_peek_not_context()'
RB = 'repeat_between_finished((<o1> Eq 0), v0~.len(), o2, o3)'
# %1 %2 ..: run inner decoder 1, 2 (nothing for one that cannot fail)
NODES = {
    'Fail': '=> err',
    'EndOfInput': 'IN.finish()?; => <IN.finish()>',
    'Align': 'IN.skip_align(o0)?; => <IN.skip_align(o0)>',
    'SkipRemainder': 'IN.skip_remainder(); => <IN.skip_remainder()>',
    'Phantom': '=> std::marker::PhantomData',
    'Peek': 'IN.open_peek_context(); %1IN.close_peek_context()?; => <o1>',
    'PeekNot': ('IN.open_peek_not_context(); try run o1 on IN {' + PN + '?; => err | ' + PN + '?; => <' + PN + '>}', 'IN.open_peek_not_context(); %1' + PN + '?; => err'),
    'Bits': 'IN.enter_bits_mode()?; %1IN.escape_bits_mode()?; => <o1>',
    'Slice': 'IN.start_slice(o1)?; %2IN.end_slice()?; => <o2>',
    'WithRelativeOffset': 'IN.advance_or_seek((o1 Add o2))?; %3IN.close_peek_context()?; => <o3>',
    'Repeat0While': loop('if (IN.remaining() Eq 0) {break} else {descend o1 on IN?; if (<o1> Eq 0) {%2v0 += <o2>; next} else {break}}'),
    'Repeat1Until': loop('descend o1 on IN?; if (<o1> Eq 0) {if (v0~.len() Eq 0) {=> err} else {break}} else {%2v0 += <o2>; next}'),
    'RepeatCount': 'v0 := []; for o1 times {%2v0 += <o2>; next} => v0*',
    'RepeatBetween': loop('descend o1 on IN?; ' + RB + '?; if <' + RB + '> {break} else {%4v0 += <o4>; next}'),
    'RepeatUntilLast': loop('%2if APPLY:o1(<o2>) {v0 += <o2>; break} else {v0 += <o2>; next}'),
    'RepeatUntilSeq': loop('%2v0 += <o2>; if APPLY:o1(v0~+1) {break} else {next}'),
    'AccumUntil': loop('if APPLY:o1(c1~, v0~) {break} else {%4c1 := APPLY:o2(c1~, <o4>); v0 += <o4>; next}', 'c1 := o3; ', '(c1*, v0*)'),
    'ForEach': 'v0 := []; for each $l in o1 {%3v0 += <o3>; next} => v0*',
    'Let': 'let $l = o2; %3=> <o3>',
    'LetView': 'let $l = IN.view(); %2=> <o2>',
    'LetFormat': '%1let $l = <o1>; %3=> <o3>',
    'MonadSeq': '%1%2=> <o2>',
    'Hint': '%2=> <o2>',
    'Map': '%1=> APPLY:o2(<o1>)',
    'Compute': '=> o1',
    'Maybe': 'if o1 {%2=> Some(<o2>)} else {=> None}',
    'DecodeBytes': '%2@Parser::new(o1)@=> <o2>',
    'ParseFromView': '%2@Parser::from(o1)@=> <o2>',
    'CaptureBytes': 'o1.read_len(o2)?; => <o1.read_len(o2)>',
    'ReifyView': '=> o1',
    'Permit': ('IN.start_alt(); try run o1 on IN {IN.end_alt()?; => <o1> | IN.next_alt(true)?; log; => o2}', 'IN.start_alt(); %1IN.end_alt()?; => <o1>'),
    'Apply': '$l(IN)?; => <$l(IN)>',
}
OTHER = ('Tuple', 'Sequence', 'Parallel', 'Branch', 'Where', 'LiftedOption', 'Pos', 'ReadArray', 'Byte', 'Call', 'Dynamic', 'Match', 'Variant')
WORDS = ('Add Sub Mul Div Rem Eq Ne Lt Lte Gt Gte Neq BitAnd BitOr BoolAnd BoolOr Shl Shr Not U8 U16 U32 U64 Usize log panic err run on try descend if else '
         'loop break next for each times in let match Some None Ok Err true false not as return usize as_ref').split()

def branchy(text, k):
    if isinstance(text, tuple): text = text[0 if k in ('stm', 'try') else 1]
    return re.sub(r'%(\d)(@(.*?)@)?', lambda m: rn('o' + m[1], m[3] or 'IN', k), text)

def cases(G):
    """(name, decoder, kind, expected, extra model, self value)"""
    d = lambda v, **f: G.vv('TypedDecoder', v, **f)
    td = G.ad('TypedDecoder')
    for v in td['v']:
        if v['n'] not in NODES: continue
        lab = LAB.get(v['n'], [])
        dec = d(v['n'], **{'_' + f[0]: (st('$l') if f[0] in lab else S('o' + f[0])) for f in v['f']})
        for k in KINDS: yield v['n'], dec, k, branchy(NODES[v['n']], k), None, None
    RT = lambda v, **f: G.vv('RustType', v, **f)
    inl = lambda rt: G.vv('GenType', 'Inline', _0=rt)
    vec = inl(RT('Atom', _0=G.vv('AtomType', 'Comp', _0=G.vv('CompType', 'Vec'))))
    def forced(**by): return lambda an, nn, last, sn, vals: by.get(last)
    for n in (0, 1, 2, 3):
        xs = arr(*[S('x%d' % i) for i in range(n)])
        for k in KINDS:
            r = ''.join(rn('x%d' % i, k=k) for i in range(n))
            vs = ', '.join('<x%d>' % i for i in range(n))
            yield 'Tuple of %d' % n, d('Tuple', _0=inl(RT('AnonTuple')), _1=xs), k, r + '=> (%s)' % vs, None, None
            for pa in (0, 1): yield 'Sequence of %d' % n, d('Sequence', _0=vec, _1=xs), k, r + '=> [%s]' % vs, forced(prefer_array=num(pa)), None
            if not n: continue
            body = '=> err'
            for i in reversed(range(n)): body = 'if (<tree> Eq %d) {%s=> <x%d>} else {%s}' % (i, rn('x%d' % i, k=k), i, body)
            yield 'Branch of %d' % n, d('Branch', _1=S('tree'), _2=xs), k, 'descend tree on IN?; ' + body, None, None
        if not n: continue
        if n == 2:
            for ks in itertools.product(KINDS, repeat=2):
                kd = {'x0': ks[0], 'x1': ks[1]}; r = rn('x0', k=ks[0]) + rn('x1', k=ks[1])
                yield 'Tuple of ' + ','.join(ks), d('Tuple', _0=inl(RT('AnonTuple')), _1=xs), kd, r + '=> (<x0>, <x1>)', None, None
                yield 'Sequence of ' + ','.join(ks), d('Sequence', _0=vec, _1=xs), kd, r + '=> [<x0>, <x1>]', forced(prefer_array=num(0)), None
        for ks in itertools.product(KINDS if n < 3 else ('stm', 'try', 'val'), repeat=n):
            fails = [k in ('stm', 'try') for k in ks]
            last = n - 1
            body = rn('x%d' % last, k=ks[last]) + '=> <x%d>' % last
            for i in reversed(range(last)):
                ok = 'IN.end_alt()?; => <x%d>' % i
                body = 'try run x%d on IN {%s | IN.next_alt(%s)?; %s}' % (i, ok, 'true' if i == last - 1 else 'false', body) if fails[i] else rn('x%d' % i, k=ks[i]) + ok
            yield 'Parallel of ' + ','.join(ks), d('Parallel', _1=xs), {'x%d' % i: k for i, k in enumerate(ks)}, ('IN.start_alt(); ' if n > 1 else '') + body, None, None
    for s in ('Require', 'Expect'):
        dec = d('Where', _1=S('o1'), _2=G.rec('Condition', {'expr': S('cond'), 'severity': G.vv('Severity', s)}))
        for k in KINDS: yield 'Where ' + s, dec, k, rn('o1', k=k) + 'if APPLY:cond(<o1>) {=> <o1>} else {%s}' % ('=> err' if s == 'Require' else 'log; => <o1>'), None, None
    for k in KINDS:
        yield 'LiftedOption None', d('LiftedOption', _1=opt(None)), k, '=> None', None, None
        yield 'LiftedOption Some', d('LiftedOption', _1=opt(S('x'))), k, rn('x', k=k) + '=> Some(<x>)', None, None
    for w in ('U8', 'U16', 'U32', 'U64'):
        yield 'Pos ' + w, d('Pos', _0=G.vv('NumType', 'U', _0=G.vv('MachineUint', w))), 'stm', '=> IN.get_offset_u64()' if w == 'U64' else '=> (IN.get_offset_u64() as %s)' % w, None, None
    for kd, m in (('U8', 'u8'), ('U16Ext', 'u16be'), ('U32Ext', 'u32be'), ('U64Ext', 'u64be')):
        c = 'view.read_array_%s(len)' % m
        yield 'ReadArray ' + kd, d('ReadArray', _1=S('view'), _2=S('len'), _3=G.vv('BaseKind', kd, **({} if kd == 'U8' else {'_0': G.vv('Endian', 'Be')}))), 'stm', '%s?; => <%s>' % (c, c), None, None
    rb = 'IN.read_byte()?; '; V = '<IN.read_byte()>'
    for c, f, want in (('Any', {}, rb + '=> ' + V), ('MustBe', {'_0': num(7)}, rb + 'if (%s Eq 7) {=> %s} else {=> err}' % (V, V)), ('OtherThan', {'_0': num(7)}, rb + 'if (%s Eq 7) {=> err} else {=> %s}' % (V, V)),
                       ('WithinSet', {'_0': S('BS')}, rb + 'SET:BS(); if <SET:BS()>.contains(%s) {=> %s} else {=> err}' % (V, V))):
        val = G.vv('ByteCriterion', c, **f)
        yield 'Byte ' + c, d('Byte', _0=S('BS')), 'stm', want, (lambda an, nn, last, sn, vals, val=val: val if last == 'from' and 'ByteCriterion' in nn else G.call('SET:' + C.show(sn(0))) if last == 'embed_byteset' else None), None
    for bor in (0, 1):
        ex = forced(should_borrow_for_arg=num(bor), get_type=opt(S('ty')), to_rust_type=S('rt'))
        for na in (0, 1, 2):
            for nv in (0, 1):
                dec = d('Call', _1=num(5), _2=tup(arr(*[tup(st('l%d' % i), S('a%d' % i)) for i in range(na)]), arr(*[tup(st('m%d' % i), S('w%d' % i)) for i in range(nv)])))
                c = 'Decoder5(%s)' % ', '.join(['IN'] + ['a%d' % i for i in range(na)] + ['w%d' % i for i in range(nv)])
                yield 'Call with %d arguments and %d views' % (na, nv), dec, 'stm', '%s?; => <%s>' % (c, c), ex, None
    for ov, t in ((opt(None), 'None'), (opt(S('vals')), 'Some(vals)')):
        c = 'parse_huffman(lens, %s)' % t
        for k in KINDS: yield 'Dynamic ' + t, d('Dynamic', _1=st('$l'), _2=G.vv('TypedDynFormat', 'Huffman', _0=S('lens'), _1=ov), _3=S('x')), k, '%s; let $l = <%s>; ' % (c, c) + rn('x', k=k) + '=> <x>', None, None
    prim = RT('Atom', _0=G.vv('AtomType', 'Prim'))
    for rf in [v['n'] for v in G.ad('Refutability')['v']]:
        ex = forced(refutability_check=G.vv('Refutability', rf), get_type=opt(inl(prim)))
        for k in KINDS:
            r = lambda t: rn(t, k=k)
            want = 'match head {p0: %s=> <x0> | p1: %s=> <x1>' % (r('x0'), r('x1')) + ('}' if rf == 'Irrefutable' else ' | _: => panic}')
            yield 'Match ' + rf, d('Match', _1=S('head'), _2=arr(tup(S('p0'), S('x0')), tup(S('p1'), S('x1')))), k, want, ex, None
    decl = lambda *vs: G.rec('RustTypeDecl', {'def': G.vv('RustTypeDef', 'Enum', _0=arr(*vs))})
    U = lambda n: G.vv('RustVariant', 'Unit', _0=st(n))
    T = lambda n, *ts: G.vv('RustVariant', 'Tuple', _0=st(n), _1=arr(*ts))
    dc = decl(U('A'), T('B', prim), T('C', RT('AnonTuple', _0=S('tys'))), T('D', prim, prim))
    sv = G.rec('CodeGen', {'defined_types': arr(decl(T('B', prim, prim), U('D')), dc)})
    gt = G.vv('GenType', 'Def', _0=tup(num(1), st('Ty')), _1=dc)
    ext = lambda dec: G.rec('TypedDecoderExt', {'dec': dec})
    tp = ext(d('Tuple', _0=inl(RT('AnonTuple')), _1=arr(S('x0'), S('x1'))))
    def ex(an, nn, last, sn, vals):
        if last == 'translate' and len(vals) == 2:
            a = one(sn(1))
            if a and a[0] == 'agg' and a[2] == 'Tuple': return S('whole')
            if a and a[0] == 'agg' and a[2] == 'Fail': return S('x')
    for k in KINDS:
        r = lambda t: rn(t, k=k)
        if k != 'val': yield 'Variant without content', d('Variant', _0=gt, _1=st('A'), _2=S('x')), k, r('x') + '=> Ty::A', ex, sv
        yield 'Variant of one value', d('Variant', _0=gt, _1=st('B'), _2=ext(d('Fail'))), k, r('x') + '=> Ty::B(<x>)', ex, sv
        yield 'Variant of a tuple', d('Variant', _0=gt, _1=st('C'), _2=tp), k, r('whole') + '=> Ty::C(<whole>)', ex, sv
        yield 'Variant of two values', d('Variant', _0=gt, _1=st('D'), _2=tp), k, r('x0') + r('x1') + '=> Ty::D(<x0>, <x1>)', ex, sv

# lookahead -----------------------------------------------------------------------------------
def trees(depth):
    """small match trees: (accept, [(criterion, subtree)])"""
    leaf = [(None, []), (1, [])]
    crit = [[], ['Any'], ['Be7'], ['Not9'], ['Set0'], ['Be5', 'Set1'], ['Set1', 'Be5'], ['Be1', 'Not2'], ['Set0', 'Be3', 'Set1']]
    if depth == 0: return leaf
    out = []
    subs = leaf if depth == 1 else [(None, [('Be7', (2, []))]), (0, [('Set0', (1, []))]), (3, [('Any', (1, []))]), (None, [('Any', (0, []))]), (0, [('Be4', (1, [])), ('Set1', (2, []))])]
    for acc in (None, 4):
        for cs in crit:
            if depth == 1: combos = [[subs[(i + j) % 2] if len(cs) > 1 else subs[j] for i in range(len(cs))] for j in (0, 1)] if cs else [[]]
            else:
                if not cs: continue
                combos = [[subs[(i + j) % len(subs)] for i in range(len(cs))] for j in range(len(subs))]
            for cb in combos: out.append((acc, [(c, (i, t[1]) if depth == 1 and t[0] is not None else t) for i, (c, t) in enumerate(zip(cs, cb))]))
    return out

def cond(c, a, b): return a if a == b else 'if %s {%s} else {%s}' % (c, a, b)
def ref(t):
    """what descending a match tree does: the branch that holds the next byte, else the accepted alternative, at the end of input too"""
    acc, brs = t
    stop = '=> err' if acc is None else 'IN.close_peek_context()?; => %d' % acc
    if not brs: return stop
    body = stop
    for c, b in reversed(brs):
        sub = ref(b); k, n = re.match(r'([A-Z][a-z]+)(\d*)', c).groups(); v = '<IN.read_byte()>'
        if k == 'Any': body = sub
        elif k == 'Be': body = cond('(%s Eq %s)' % (v, n), sub, body)
        elif k == 'Not': body = cond('(%s Eq %s)' % (v, n), body, sub)
        else: body = 'SET:%s(); ' % c + cond('<SET:%s()>.contains(%s)' % (c, v), sub, body)
    body = 'IN.read_byte()?; ' + body
    return body if acc is None else 'if (IN.remaining() Eq 0) {%s} else {%s}' % (stop, body)

def lookahead(G, rep, vocab):
    f = G.find(lambda n: n.endswith('::embed_matchtree') and 'codegen' in n)
    if f is None: undecided(rep, 'lookahead', 'no embed_matchtree'); return
    def ex(an, nn, last, sn, vals):
        if last == 'from' and 'ByteCriterion' in nn:
            c = C.show(sn(0)); k, n = re.match(r'([A-Z][a-z]+)(\d*)', c).groups()
            return G.vv('ByteCriterion', {'Any': 'Any', 'Be': 'MustBe', 'Not': 'OtherThan', 'Set': 'WithinSet'}[k], **({} if k == 'Any' else {'_0': S(c) if k == 'Set' else num(int(n))}))
        if last == 'embed_byteset': return G.call('SET:' + C.show(sn(0)))
    def build(t): return G.rec('MatchTree', {'accept': opt(None if t[0] is None else num(t[0])), 'branches': arr(*[tup(S(c), build(b)) for c, b in t[1]])})
    n = 0
    for depth in (0, 1, 2):
        for t in trees(depth):
            n += 1
            want = 'IN.open_peek_context(); ' + ref(t)
            key = 'lookahead:%s' % (t,)
            compare(rep, vocab, key, 'lookahead code for the match tree %s' % (t,), want, lambda: G.sem.top(G.run(f, [build(t), G.rec('ProdCtxt', {'input_varname': S('IN')})], G.model('stm', ex))), f)
    rep.floor(n, 'match trees', 40)

# functions -----------------------------------------------------------------------------------
def signature(G, rep, f):
    """a decoder function has the name its callers use, the input first, then its arguments in the order callers pass them"""
    if f is None: undecided(rep, 'function', 'no DecoderFn::to_ast'); return
    fs = [x[0] for x in G.ad('RustFn')['v'][0]['f']]; ss = [x[0] for x in G.ad('FnSig')['v'][0]['f']]
    for k in (0, 1, 2, 3):
        ea = opt(arr(*[tup(st('l%d' % i), S('t%d' % i)) for i in range(k)]) if k else None)
        dfn = G.rec('DecoderFn', {'ixlabel': A.V(('agg', G.ad('IxLabel')['adt'], None, (num(40 + k),))), 'logic': S('logic'), 'extra_args': ea, 'ret_type': S('rt')})
        key = 'function:%d arguments' % k
        try:
            a = one(G.run(f, [dfn, G.rec('ProdCtxt', {})], G.model('stm', lambda an, nn, last, sn, vals: opt(None) if last == 'lt_param' else None)))
            if not a or a[0] != 'agg': raise rustsem.Unknown('function')
            name = G.sem.lab(a[3][fs.index('name')])
            args = [G.sem.lab(one(x)[3][0]) for x in G.sem.lst(one(a[3][fs.index('sig')])[3][ss.index('args')])]
            body = G.sem.fn_top(a[3][fs.index('body')], {args[0]: ('parser', 'IN')} if args else {})
        except (rustsem.Unknown, gen.Missing, TypeError, ValueError) as e: undecided(rep, key, str(e)[:150]); continue
        rep.ob(name == 'Decoder%d' % (40 + k), key + ':name', 'decoder %d becomes the function %s, its callers use Decoder%d' % (40 + k, name, 40 + k), where(f))
        rep.ob(args[1:] == ['l%d' % i for i in range(k)], key, 'a decoder with arguments %s becomes a function of %s' % (['l%d' % i for i in range(k)], args), where(f))
        rep.ob(body == 'run logic on IN?; => <logic>', key + ':body', 'the function of a decoder does: %s' % body[:200], where(f))

# byte sets -----------------------------------------------------------------------------------
def bytesets(G, rep, vocab):
    f = G.find(lambda n: 'codegen' in n and n.endswith('::from') and 'ByteCriterion' in n)
    g = G.find(lambda n: 'codegen' in n and n.endswith('::embed_byteset'))
    def forced(size):
        def ex(an, nn, last, sn, vals):
            if last == 'is_full' and 'ByteSet' in nn: return num(int(size == 256))
            if last == 'is_empty' and 'ByteSet' in nn: return num(int(size == 0))
            if last == 'len' and 'ByteSet' in nn: return num(size if C.show(sn(0)) == 'BS' else 256 - size)
            if last == 'min_elem': return opt(S('min(%s)' % C.show(sn(0))))
            if last == 'not': return S('not ' + C.show(sn(0)))
            if last == 'to_bits': return arr(*[S('q%d' % i) for i in range(4)])
        return ex
    bc = G.ad('ByteCriterion')['adt']
    n = 0
    for size in range(1, 257):
        m = G.model('stm', forced(size))
        if f is not None:
            v = G.run(f, [S('BS')], m); n += 1
            a = one(v)
            got = None
            if a and a[0] == 'agg' and a[1] == bc: got = (a[2],) + tuple(C.show(x) for x in a[3])
            want = [('WithinSet', 'BS')]
            if size == 256: want.append(('Any',))
            if size == 1: want.append(('MustBe', 'min(BS)'))
            if size == 255: want.append(('OtherThan', 'min(not BS)'))
            if got is None or any('(' in x and not re.fullmatch(r'min\((not )?BS\)', x) for x in got[1:]): undecided(rep, 'criterion:%d' % size, 'no single criterion: ' + C.show(v)[:100])
            else: rep.ob(got in want, 'criterion:%d' % size, 'a set of %d bytes becomes the criterion %s' % (size, got), where(f))
        if g is not None:
            if size not in (1, 2, 3, 128, 254, 255, 256): continue
            wants = ['ByteSet::from_bits([q0, q1, q2, q3])'] + (['ByteSet::full()'] if size == 256 else []) + (['ByteSet::singleton(min(BS))'] if size == 1 else [])
            try: t = G.sem.expr_top(G.run(g, [S('BS')], m))
            except (rustsem.Unknown, gen.Missing) as e: undecided(rep, 'byteset:%d' % size, str(e)[:100]); continue
            got = t[3:] if t.startswith('=> ') else t
            if not re.fullmatch(r'ByteSet::\w+\(.*\)', got): undecided(rep, 'byteset:%d' % size, t[:100]); continue
            rep.ob(got in wants, 'byteset:%d' % size, 'the code for a set of %d bytes is %s' % (size, got), where(g))
    rep.floor(n, 'byte set sizes', 200)

def finished(prog, G, rep):
    """prelude::repeat_between_finished against the interpreter's rule, on every ordering of length, minimum and maximum"""
    f = G.find(lambda n: n.endswith('prelude::repeat_between_finished'))
    if f is None: undecided(rep, 'finished', 'no repeat_between_finished'); return
    n = 0
    for out in (0, 1):
        for mn in range(4):
            for mx in range(mn, 4):
                for ln in range(mx + 1):
                    v = G.run(f, [num(out), num(ln), num(mn), num(mx)], G.model('stm')); n += 1
                    a = one(v)
                    got = '?'
                    if a and a[0] == 'agg' and a[2] == 'Err': got = 'error'
                    elif a and a[0] == 'agg' and a[2] == 'Ok':
                        b = one(a[3][0]); got = {0: 'goes on', 1: 'stops'}.get(b[1], '?') if b and b[0] == 'int' else '?'
                    want = 'error' if out and ln < mn else 'stops' if out or ln == mx else 'goes on'
                    key = 'finished:%d,%d,%d,%d' % (out, ln, mn, mx)
                    if got == '?': undecided(rep, key, C.show(v)[:100])
                    else: rep.ob(got == want, key, 'a repetition of %d to %d elements with %d read and %s %s; it should be: %s' % (mn, mx, ln, 'none left' if out else 'more to come', got, want), where(f))
    rep.floor(n, 'repetition states', 30)

def compare(rep, vocab, key, what, want, get, f=None):
    try: got = get()
    except (rustsem.Unknown, gen.Missing, RecursionError) as e: undecided(rep, key, ('%s: %s' % (what, e))[:200]); return None
    if got != want:
        odd = set(re.findall(r'[A-Za-z_$][\w]*', got)) - vocab
        if odd: undecided(rep, key, '%s: uses %s' % (what, ', '.join(sorted(odd))[:100])); return None
    rep.ob(got == want, key, '%s does: %s -- it should do: %s' % (what, got[:400], want[:400]), where(f))
    return got

def run(prog, rep, tier):
    G = gen.Gen(prog)
    td = G.ad('TypedDecoder')
    handled = set(NODES) | set(OTHER)
    for v in td['v']:
        if v['n'] not in handled: undecided(rep, 'node:' + v['n'], 'no meaning recorded for the node ' + v['n'])
    vocab = set(WORDS)
    alls = list(cases(G))
    for c in alls: vocab |= set(re.findall(r'[A-Za-z_$][\w]*', c[3]))
    vocab |= {'SET', 'APPLY', 'contains'} | {'Set%d' % i for i in range(9)}
    tr = G.find(lambda n: n.endswith('::translate') and 'codegen' in n and 'CodeGen' in n)
    flat = G.find(lambda n: n.endswith('GenBlock::flatten'))
    toexpr = G.find(lambda n: n.endswith('::from') and 'From<codegen::GenBlock> for codegen::rust_ast::RustExpr' in n)
    tofn = G.find(lambda n: 'DecoderFn' in n and n.endswith('::to_ast'))
    n = 0
    for i, (name, dec, kind, want, ex, sv) in enumerate(alls):
        kn = kind if isinstance(kind, str) else 'mixed'
        key = 'node:%s:%s:%d' % (name, kn, i)
        box = {}
        def get():
            l = box['l'] = G.logic(dec, ex, sv)
            if l is None: return 'no code'
            b = box['b'] = G.ast(l, kind, ex)
            return 'no code' if b is None else G.sem.top(b)
        if name.split()[0] in ('Tuple', 'Sequence', 'Where', 'Map', 'Variant') or 'Until' in name:
            for G.cplx in (0, 1): compare(rep, vocab, key + ':%s' % ('simple', 'complex')[G.cplx], 'the code generated for %s with %s expressions' % (name, ('simple', 'complex')[G.cplx]), want, get, tr)
            G.cplx = None
        got = compare(rep, vocab, key, 'the code generated for %s (inner code: %s)' % (name, {'stm': 'may fail', 'try': 'may fail in its value', 'obs': 'reads but cannot fail', 'val': 'cannot fail'}.get(kn, kn)), want, get, tr)
        if got is None: continue
        n += 1
        if flat is not None: compare(rep, vocab, key + ':flatten', 'the statements of the block for ' + name, want, lambda: G.sem.top(G.run(flat, [box['b']], G.model(kind, ex))), flat)
        if toexpr is not None: compare(rep, vocab, key + ':expr', 'the expression of the block for ' + name, want, lambda: G.sem.expr_top(G.run(toexpr, [box['b']], G.model(kind, ex))), toexpr)
        if tofn is not None and (tier == 'thorough' or kn == 'stm'):
            def fn():
                dfn = G.rec('DecoderFn', {'ixlabel': A.V(('agg', G.ad('IxLabel')['adt'], None, (num(4),))), 'logic': box['l'], 'extra_args': opt(None), 'ret_type': S('rt')})
                def ex2(an, nn, last, sn, vals):
                    if last == 'lt_param': return opt(None)
                    return ex(an, nn, last, sn, vals) if ex else None
                a = one(G.run(tofn, [dfn, G.rec('ProdCtxt', {})], G.model(kind, ex2)))
                if not a or a[0] != 'agg': raise rustsem.Unknown('function')
                fs = [x[0] for x in G.ad('RustFn')['v'][0]['f']]
                return G.sem.fn_top(a[3][fs.index('body')], {'_input': ('parser', 'IN')})
            compare(rep, vocab, key + ':function', 'the function generated for ' + name, want, fn, tofn)
    rep.floor(n, 'nodes with inner code of each kind', 60)
    signature(G, rep, tofn)
    lookahead(G, rep, vocab)
    bytesets(G, rep, vocab)
    finished(prog, G, rep)
    rep.analysed_fns(G.fns)
