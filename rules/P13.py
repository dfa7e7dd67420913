"""Compiling a format keeps its meaning: every node becomes its own decoder, with every operand and the right continuation."""
import itertools, re
import absint as A, interp as I, common as C, fmt, lists as LL
from P02 import clean
CRATES = ['doodle']
RULE = ('Per format node and forced answer (nested compilation succeeds or fails, lookahead tree exists or not, nullable or not, lookahead bound), '
        'the abstract result over the MIR of Compiler::compile_format and GTCompiler::compile_gt_format must be the decoder of that node with each '
        'operand in its place, each nested format compiled against the continuation that really follows it, lookahead trees built over the '
        'alternatives in decoder order, and definitions compiled once per continuation and stored at the index the call names.')
E_, N_ = r'Next::Empty\(\)', 'next'

def spec(vn, o, typed, bb=None):
    """regex of the decoder a node compiles to"""
    S = lambda i: r'self\.%s\.%d' % (vn, i + o)
    mt = lambda x: r'MaybeTyped::%s\(%s\)' % ('Typed' if typed else 'Untyped', x)
    K = lambda f, nx: r'COMPILE\[%s%s, %s\]' % (f, r', Option::None\(\)' if typed else '', nx)
    g = (r'self\.%s\.0, ' % vn) if o else ''
    D = lambda n, *xs: r'%s::%s\(%s%s\)' % ('TypedDecoder' if typed else 'Decoder', n, g if n not in ('Align', 'Byte', 'Phantom', 'Fail') else '', ', '.join(xs))
    rep = lambda i: r'Next::Repeat\(%s, next\)' % mt(S(i))
    cat = lambda i: r'Next::Cat\(%s, next\)' % mt(S(i))
    rest = r'Next::Sequence\(%s, next\)' % mt(r'(Iter::as_slice|.*split_first\.Some\.0\.1|(index|at)\[%s, RangeFrom\(Add\[.*1.*\]\)\]|.*\[1\.\.\])' % S(0))
    F = 'TypedFormat' if typed else 'Format'
    ty = r'.*?, ' if typed else ''
    one = r'%s::Tuple\(%sARR\(%s, %s::Repeat\((self\.%s\.0, )?%s\)\)\)' % (F, ty, S(0), F, vn, S(0))
    none = r'%s::Tuple\(%sLIST\{\}\)' % (F, ty)
    build = lambda *br: r'BUILD\[(LIST\{)?ARR\(%s\)\}?, next\]' % ', '.join(br)
    cnt = r'(cast:usize->u32|try_from:u32)\[.*?(\.\[\]|in\[.*?\])\]'
    ex = lambda i: str(max((2, 5)[i] - 1, 0)) if bb is None else str(max(bb[i] - 1, 0))
    T = {
        'Fail': lambda: D('Fail') if not typed else r'TypedDecoder::Fail\(\)', 'EndOfInput': lambda: D('EndOfInput'), 'SkipRemainder': lambda: D('SkipRemainder'),
        'Align': lambda: D('Align', S(0)), 'Byte': lambda: D('Byte', S(0)), 'Apply': lambda: D('Apply', S(0)), 'Compute': lambda: D('Compute', S(0)),
        'Pos': lambda: r'Decoder::Pos\(\)' if not typed else r'TypedDecoder::Pos\(.*self\.Pos\.0.*\)', 'Phantom': lambda: D('Phantom'),
        'DecodeBytes': lambda: D('DecodeBytes', S(0), K(S(1), E_)), 'ParseFromView': lambda: D('ParseFromView', S(0), K(S(1), E_)),
        'Peek': lambda: D('Peek', K(S(0), E_)), 'PeekNot': lambda: D('PeekNot', K(S(0), E_)), 'Slice': lambda: D('Slice', S(0), K(S(1), E_)),
        'Bits': lambda: D('Bits', K(S(0), E_)), 'WithRelativeOffset': lambda: D('WithRelativeOffset', S(0), S(1), K(S(2), E_)),
        'LetView': lambda: D('LetView', S(0), K(S(1), N_)), 'Variant': lambda: (r'(TypedDecoder::Fail\(\)\|)?' if typed else '') + D('Variant', S(0), K(S(1), N_)),
        'Maybe': lambda: D('Maybe', S(0), K(S(1), N_)), 'Map': lambda: D('Map', K(S(0), N_), S(1)), 'Where': lambda: D('Where', K(S(0), N_), S(1)),
        'Permit': lambda: D('Permit', K(S(0), N_), S(1)), 'Let': lambda: D('Let', S(0), S(1), K(S(2), N_)), 'Dynamic': lambda: D('Dynamic', S(0), S(1), K(S(2), N_)),
        'Hint': lambda: D('Hint', S(0), K(S(1), N_)) if typed else K(S(1), N_),
        'Match': lambda: D('Match', S(0), r'LIST\{tuple\(%s\.\[\]\.0, %s\)\}' % (S(1), K(S(1) + r'\.\[\]\.1', N_))),
        'LiftedOption': lambda: D('LiftedOption', r'Option::None\(\)\|Option::Some\(%s\)' % K(S(0) + r'\.Some\.0', N_)),
        'Union': lambda: D('Branch', r'BUILD\[(LIST\{%s\.\[\]\}|%s), next\]' % (S(0), S(0)), r'LIST\{%s\}' % K(S(0) + r'\.\[\]', N_)),
        'UnionNondet': lambda: D('Parallel', r'LIST\{%s\}' % K(S(0) + r'\.\[\]', N_)),
        'Tuple': lambda: D('Tuple', r'LIST\{%s\}' % K(S(0) + r'\.\[\]', rest)), 'Sequence': lambda: D('Sequence', r'LIST\{%s\}' % K(S(0) + r'\.\[\]', rest)),
        'Repeat': lambda: D('Repeat0While' if typed else 'While', build(one, none), K(S(0), rep(0))),
        'Repeat1': lambda: D('Repeat1Until' if typed else 'Until', build(none, one), K(S(0), rep(0))),
        'RepeatCount': lambda: D('RepeatCount', S(0), K(S(1), rep(1))), 'RepeatUntilLast': lambda: D('RepeatUntilLast', S(0), K(S(1), rep(1))),
        'RepeatUntilSeq': lambda: D('RepeatUntilSeq', S(0), K(S(1), rep(1))), 'ForEach': lambda: D('ForEach', S(0), S(1), K(S(2), rep(2))),
        'AccumUntil': lambda: D('AccumUntil', S(0), S(1), S(2), *([S(3), K(S(4), rep(4))] if not typed else [K(S(4), rep(4))])),
        'RepeatBetween': lambda: D('RepeatBetween', r'BUILD\[.*?LIST\{%s::RepeatCount\((self\.RepeatBetween\.0, )?%s::U32\(%s\), %s\)\}.*?, next\]' % (F, 'TypedExpr' if typed else 'Expr', cnt, S(2)), S(0), S(1),
                                   K(S(2), r'Next::RepeatBetween\(%s, %s, %s, next\)' % (ex(0), ex(1), mt(S(2))))),
        'LetFormat': lambda: D('LetFormat', K(S(0), cat(2)), S(1), K(S(2), N_)), 'MonadSeq': lambda: D('MonadSeq', K(S(0), cat(1)), K(S(1), N_)),
    }
    return T[vn]() if vn in T else None

VIEWS = {'CaptureBytes': '{0}, self.WithView.{1}.CaptureBytes.0', 'ReadArray': '{0}, self.WithView.{1}.ReadArray.0, self.WithView.{1}.ReadArray.1', 'ReifyView': '{0}'}
TREES = ('Union', 'Repeat', 'Repeat1', 'RepeatBetween')
NULL = ('Repeat', 'Repeat1')

class Comp:
    def __init__(self, prog, typed):
        self.F = fmt.Fmt(prog); self.typed = typed
        self.fn = prog.one('GTCompiler::compile_gt_format' if typed else 'Compiler::compile_format')
    def run(self, vn, comp=None, build=None, nullable=None, look=None, depends=None, fields=None, bb=(2, 5), **kw):
        ok = A.V(A.ok(A.EMPTY)); F = self.F
        def compile_(an, s):
            o = A.ok(A.V(('op', 'COMPILE', s[1:]))); e = A.err(A.V(('op', 'CERR', ())))
            return A.V(o) if comp == 'ok' else A.V(e) if comp == 'err' else A.V(o, e)
        def build_(an, s):
            o = A.some(A.V(('op', 'BUILD', s[1:])))
            return A.V(o) if build == 'ok' else A.V(A.NONE) if build == 'none' else A.V(o, A.NONE)
        def bounds_(an, s):
            t = F.c.v(s[0]); i = {'self.%s.%d' % (vn, 0 + F.off(self.typed, vn)): 0, 'self.%s.%d' % (vn, 1 + F.off(self.typed, vn)): 1}.get(t)
            if bb is None or i is None: return A.V(('op', 'BOUNDS', s))
            return F.bnd(bb[i], bb[i]) if bb[i] is not None else F.bnd(1, 3)
        yes = lambda x, t: (lambda an, s: A.V(('int', x))) if x is not None else t
        P = {'Compiler::compile_format': compile_, 'GTCompiler::compile_gt_format': compile_, 'MatchTree::build': build_, 'FormatModule::get_format': 'DEF', 'FormatModule::get_args': 'ARGS',
             'FormatModule::get_view_args': 'VARGS', 'FormatModule::get_format_type': 'DEFTY', 'Expr::bounds': bounds_, 'TypedExpr::bounds': bounds_}
        for t in ('Format', 'TypedFormat'):
            P[t + '::is_nullable'] = yes(nullable, 'NULLABLE'); P[t + '::depends_on_next'] = yes(depends, 'DEPENDS')
            P[t + '::match_bounds'] = 'MB'
            P[t + '::lookahead_bounds'] = (lambda an, s: look) if look is not None else 'LOOKAHEAD'
        a = (F.typed if self.typed else F.format)
        args = [C.sym('comp'), C.variant_value(a, vn, fields=fields)] + ([C.sym('args')] if self.typed else []) + [C.sym('next')]
        return F.run(self.fn, args, P, **kw)
    def dec(self, v):
        """the decoder inside the compiled result"""
        if v is None: return None
        if not self.typed: return v
        out = frozenset()
        for a in v:
            if a[0] == 'agg' and a[1].endswith('TypedDecoderExt'): out |= a[3][0]
            else: out |= frozenset([a])
        return out

def run(prog, rep, tier):
    n = 0
    for typed in (False, True):
        k = Comp(prog, typed); tag = 'typed' if typed else 'plain'; c = k.F.c
        if k.fn is None: rep.floor(0, 'compilers', 2); return
        where = '%s %s' % (k.fn.loc(), k.fn.name)
        for v in k.F.variants(typed):
            vn = v['n']; key = '%s:%s' % (tag, vn); o = k.F.off(typed, vn)
            if vn in ('ItemVar', 'FormatCall'): n += call(prog, rep, k, vn, tag, where); continue
            if vn == 'WithView': n += view(prog, rep, k, o, tag, where); continue
            sp = spec(vn, o, typed)
            if sp is None: rep.known(False, key, 'node without a rule', where); continue
            an, r = k.run(vn, comp='ok', build='ok', nullable=0, look=k.F.bnd(0, 1)); n += 1
            rep.analysed_fns(an.inlined | {k.fn.name})
            okv, er = fmt.split(r); d = k.dec(okv)
            got = '!' if d is None else c.v(d)
            if d is None: rep.ob(False, key, '%s does not compile even when every part of it does' % vn, where)
            elif not re.fullmatch(sp, got) and (foreign(got) or treeonly(sp, got)): rep.known(False, key, got[:200], where)
            else: rep.ob(re.fullmatch(sp, got), key, '%s compiles to %s' % (vn, got[:300]), where)
            if 'COMPILE' in sp or typed and vn == 'Phantom':
                an, r = k.run(vn, comp='err', build='ok', nullable=0, look=k.F.bnd(0, 1)); n += 1
                d = k.dec(fmt.split(r)[0]); got = '' if d is None else c.v(d)
                rep.ob(d is None or vn in ('Union', 'UnionNondet', 'Tuple', 'Sequence', 'Match') and 'LIST{}' in got and 'CERR' not in got or vn == 'LiftedOption' and 'Option::None()' in got and 'Some' not in got, key + ':nested error',
                       '%s compiles to %s although a nested format does not compile' % (vn, got[:160]), where)
            if vn in TREES:
                an, r = k.run(vn, comp='ok', build='none', nullable=0); n += 1
                rep.ob(fmt.split(r)[0] is None, key + ':no tree', '%s compiles although no lookahead distinguishes its alternatives' % vn, where)
            if vn in NULL:
                an, r = k.run(vn, comp='ok', build='ok', nullable=1); n += 1
                rep.ob(fmt.split(r)[0] is None, key + ':nullable', '%s of a format that can match nothing compiles: it would repeat forever' % vn, where)
                at = [e for e in an.events.values() if e.callee.split('::')[-1] in ('is_nullable', 'match_bounds')]
                if rep.known(at, key + ':nullable of', 'no nullability question found', where):
                    a = sorted(set(c.v(e.args[0]) for e in at))
                    rep.ob(a == ['self.%s.%d' % (vn, o)], key + ':nullable of', 'nullability of %s asked of %s' % (vn, a), where)
            if vn == 'PeekNot':
                for nm, b, good in (('unbounded', k.F.bnd(0, None), False), ('far', k.F.bnd(0, 1 << 40), False), ('near', k.F.bnd(0, 1), True)):
                    an, r = k.run(vn, comp='ok', build='ok', look=b); n += 1
                    rep.ob((fmt.split(r)[0] is not None) == good, key + ':' + nm, 'PeekNot with %s lookahead is %s' % (nm, 'accepted' if not good else 'rejected'), where)
            if vn == 'RepeatBetween':
                # every count 0..=max is an alternative, in order; one repetition less remains after the first
                for bb in ((2, 5), (0, 1), (1, 1)):
                    an, r = k.run(vn, comp='ok', build='ok', bb=bb); n += 1
                    d = k.dec(fmt.split(r)[0]); got = '!' if d is None else c.v(d); kk = '%s:%d..%d' % ((key,) + bb)
                    if not re.fullmatch(spec(vn, o, typed, bb), got) and d is not None and (foreign(re.sub(r'index\[|RangeFull\(\)', '', got)) or treeonly(spec(vn, o, typed, bb), got)): rep.known(False, kk, got[:200], where)
                    else: rep.ob(re.fullmatch(spec(vn, o, typed, bb), got), kk, 'RepeatBetween %d..=%d compiles to %s' % (bb + (got[:300],)), where)
                    an, r = k.run(vn, comp='ok', build='ok', bb=bb, lists=2, arrays=True); n += 1
                    d = k.dec(fmt.split(r)[0]); got = '!' if d is None else c.v(d)
                    m = re.search(r'BUILD\[ARR\((.*?)\), next\]', got)
                    item = r'(?:Typed)?Format::RepeatCount\((?:self\.RepeatBetween\.0, )?(?:Typed)?Expr::U32\((\d+)\), self\.RepeatBetween\.%d\)(?:, |$)' % (2 + o)
                    cs = re.findall(item, m[1]) if m and not re.sub(item, '', m[1]) else None
                    if rep.known(cs is not None, kk + ':counts', 'the alternatives are not understood: %s' % got[:200], where):
                        cs = [int(x) for x in cs]
                        rep.ob(cs == list(range(bb[1] + 1)), kk + ':counts', 'the alternatives of RepeatBetween up to %d are the counts %s' % (bb[1], cs), where)
            if vn in ('Tuple', 'Sequence', 'Union', 'UnionNondet', 'Match'):
              for cnt in (1, 2, 3):
                el = [C.sym('e%d' % i) if vn != 'Match' else A.V(A.tup(C.sym('p%d' % i), C.sym('e%d' % i))) for i in range(cnt)]
                fi = {str(o + (vn == 'Match')): LL.arr(el)}
                an, r = k.run(vn, comp='ok', build='ok', nullable=0, lists=2, arrays=True, fields=fi, recur=4); n += 1
                d = k.dec(fmt.split(r)[0]); got = '!' if d is None else c.v(d)
                L = lambda xs: ('ARR(%s)' if len(xs) > 1 else 'LIST{%s}') % ', '.join(xs)
                t = 'Option::None(), ' if typed else ''; M = 'MaybeTyped::' + ('Typed' if typed else 'Untyped'); ids = ['e%d' % i for i in range(cnt)]
                rest = lambda i: {'Next::Sequence(%s(%s), next)' % (M, L(ids[i + 1:]) if i + 1 < cnt else x) for x in ('LIST{}', 'ARR()')} | ({'next'} if i + 1 == cnt else set()) if vn in ('Tuple', 'Sequence') else {'next'}
                opts = [['COMPILE[e%d, %s%s]' % (i, t, x) for x in sorted(rest(i))] for i in range(cnt)]
                wants = set()
                for xs in itertools.product(*opts):
                    if vn == 'Match': xs = ['tuple(p%d, %s)' % (i, x) for i, x in enumerate(xs)]
                    wants.add('%s::%s(%s%s%s)' % ('TypedDecoder' if typed else 'Decoder', {'Union': 'Branch', 'UnionNondet': 'Parallel'}.get(vn, vn), 'self.%s.0, ' % vn if typed else '',
                                                 {'Union': 'BUILD[%s, next], ' % L(ids), 'Match': 'self.Match.%d, ' % o}.get(vn, ''), L(xs)))
                kk = '%s:of %d' % (key, cnt)
                if got not in wants and ('|' in got or foreign(re.sub(r'e\d|p\d', 'next', got))): rep.known(False, kk, got[:200], where)
                else: rep.ob(got in wants, kk, '%s of %d parts compiles to %s instead of %s' % (vn, cnt, got[:300], sorted(wants)[0][:300]), where)
        n += program(prog, rep, k, tag)
    n += entry(prog, rep)
    rep.floor(n, 'abstract_runs', 150)

def treeonly(sp, got):
    """only the counted alternatives, which the run over known lists decides, are not in the expected form"""
    w = re.sub(r'BUILD\\\[\.\*\?LIST.*?, next\\\]', lambda m: r'BUILD\[.*, next\]', sp, count=1)
    return w != sp and '|' in got and re.fullmatch(w, got)

def foreign(got):
    """the result is put together by operations the rule has no reading for"""
    return not clean(got) or re.search(r'\b(index|take|skip|rev|elem|chain|zip|step_by|filter|unresolved|collect|top)\b[\[(]?', got)

def view(prog, rep, k, o, tag, where):
    n = 0; c = k.F.c
    vf = C.adt(prog, 'TypedViewFormat' if k.typed else 'ViewFormat')
    if not rep.known(vf is not None, tag + ':WithView', 'view format type not found', where): return 0
    for v in vf['v']:
        f = VIEWS.get(v['n']); key = '%s:WithView:%s' % (tag, v['n'])
        if f is None: rep.known(False, key, 'view format without a rule', where); continue
        an, r = k.run('WithView', fields={str(1 + o): C.variant_value(vf, v['n'], 'self', {x[0]: C.sym('self', 'WithView.%d' % (1 + o), '%s.%s' % (v['n'], x[0])) for x in v['f']})}); n += 1
        d = k.dec(fmt.split(r)[0]); got = '!' if d is None else c.v(d)
        exp = '%s::%s(%s%s)' % ('TypedDecoder' if k.typed else 'Decoder', v['n'], 'self.WithView.0, ' if o else '', f.format('self.WithView.%d' % o, 1 + o))
        rep.ob(got == exp, key, 'WithView %s compiles to %s' % (v['n'], got[:200]), where)
    return n

def call(prog, rep, k, vn, tag, where):
    """a reference to a definition: compiled once per continuation, called by the index it is stored at"""
    c = k.F.c; n = 0; o = 1 if k.typed else 0
    lvl = 'self.%s.%d' % (vn, o)
    for dep in (0, 1):
        key = '%s:%s:%s' % (tag, vn, 'depends' if dep else 'independent'); nx = 'next' if dep else 'Next::Empty()'
        an, r = k.run(vn, depends=dep); n += 1
        rep.analysed_fns(an.inlined | {k.fn.name})
        asked = sorted(set(c.v(e.args[0]) for e in an.events.values() if e.callee.split('::')[-1] == 'depends_on_next'))
        rep.ob(asked and all(a == 'DEF[comp.module, %s]' % lvl or k.typed and a == 'self.FormatCall.4' for a in asked), key + ':asked', 'dependence on what follows is asked of %s' % asked, where)
        d = k.dec(fmt.split(r)[0]); got = '!' if d is None else c.v(d)
        if k.typed: exp = r'TypedDecoder::Call\(self\.FormatCall\.0, (?P<i>.*), tuple\(self\.FormatCall\.2, self\.FormatCall\.3\)\)'
        else:
            nm = lambda t, s: r'(?:\.0\[)?elem\[%s\[comp\.module, %s\]\]\]?%s' % (t, re.escape(lvl), s)
            exp = r'Decoder::Call\((?P<i>.*?), LIST\{tuple\(%s, self\.ItemVar\.1\.\[\]\)\}, LIST\{tuple\(%s, self\.ItemVar\.2\.\[\]\)\}\)' % (r'\.0\[elem\[ARGS\[comp\.module, self\.ItemVar\.0\]\]\]', r'elem\[VARGS\[comp\.module, self\.ItemVar\.0\]\]')
        m = re.fullmatch(exp, got)
        if not m and d is not None and foreign(got.replace('elem[', '')): rep.known(False, key, got[:200], where)
        else: rep.ob(m, key, 'a reference compiles to %s' % got[:300], where)
        keys = set(); gets = [e for e in an.events.values() if e.callee in ('HashMap::get', 'HashMap::insert', 'HashMap::entry', 'HashMap::contains_key', 'HashMap::get_mut', 'HashMap::get_or_insert_with')]
        if rep.known(gets, key + ':key', 'no lookup of compiled definitions found', where):
            for e in gets: keys.add(c.v(e.args[1]))
            rep.ob(keys == {'tuple(%s, %s)' % (lvl, nx)}, key + ':key', 'compiled definitions are looked up and stored under %s' % sorted(keys), where)
        scan = sorted(set(e.callee for e in an.events.values() if re.fullmatch(r'(HashMap|BTreeMap)::(iter|keys|values|iter_mut|into_iter|values_mut|drain|range|first_key_value|last_key_value)', e.callee) and 'comp.decoder_map' in c.v(e.args[0])))
        if scan:
            cmp_ = [[c.v(a) for a in e.args] for e in an.events.values() if e.callee.endswith(('PartialEq>::eq', 'PartialEq>::ne', '::ptr_eq'))]
            both = any(any(x in ('comp.decoder_map.[].0.1', 'comp.decoder_map.[].0') for x in a) for a in cmp_)
            if both: rep.known(False, key + ':scan', 'compiled definitions are searched by a walk', where)
            else: rep.ob(False, key + ':scan', 'the decoder called is found by walking over the compiled definitions (%s) without comparing their continuation' % ', '.join(scan), where)
        ins = [c.v(e.args[2]) for e in gets if e.callee == 'HashMap::insert']
        if rep.known(ins, key + ':stored', 'no store of a compiled definition found', where):
            rep.ob(all(i == 'len[comp.program.decoders]' for i in ins), key + ':stored', 'the definition is registered under decoder %s, but stored as the next decoder' % ins, where)
        q = [e for e in an.events.values() if e.callee == 'Vec::push']
        qs = sorted(set(c.v(e.args[1]) for e in q))
        qd = [x for x in qs if 'len[comp.program.decoders]' in x]
        if rep.known(qd, key + ':queued', 'no queueing of the definition found', where):
            body = r'DEF\[comp\.module, %s\]' % re.escape(lvl) if not k.typed else r'self\.FormatCall\.4'
            rep.ob(all(re.fullmatch(r'tuple\(%s, .*%s, len\[comp\.program\.decoders\]\)' % (body, re.escape(nx)), x) for x in qd), key + ':queued', 'the definition is queued for compilation as %s' % qd, where)
    return n

def program(prog, rep, k, tag):
    """the work list: every queued format is compiled with its own continuation and stored at its own index"""
    n = 0; c = k.F.c
    fn = prog.one('GTCompiler::compile_local_root' if k.typed else 'Compiler::compile_program')
    if not rep.known(fn is not None, tag + ':program', 'entry point not found'): return 0
    P = {('GTCompiler::compile_gt_format' if k.typed else 'Compiler::compile_format'): (lambda an, s: A.V(A.ok(A.V(('op', 'COMPILE', s[1:]))), A.err(A.V(('op', 'CERR', ()))))),
         'Vec::pop': (lambda an, s: A.V(A.some(C.sym('Q')), A.NONE)), 'FormatModule::infer_format_type': (lambda an, s: A.V(A.ok(A.V(('op', 'TYPE', s[2:]))), A.err(A.V(('op', 'TERR', ())))))}
    args = [C.sym('comp'), C.sym('format'), A.V(('int', 0))] if k.typed else [C.sym('module'), C.sym('format')]
    an, r = k.F.run(fn, args, P); n += 1
    rep.analysed_fns(an.inlined | {fn.name}); where = '%s %s' % (fn.loc(), fn.name)
    comp = [e for e in an.events.values() if e.callee.endswith(('::compile_format', '::compile_gt_format'))]
    if rep.known(comp, tag + ':program:compile', 'no compilation of queued formats found', where):
        for e in comp:
            got = [c.v(x) for x in e.args[1:]]
            rep.ob(got == ['Q.0', 'Q.1', 'Q.2'][:2 + k.typed], tag + ':program:compile', 'a queued format is compiled as %s' % got, where)
    q = sorted(set(c.v(e.args[1]) for e in an.events.values() if e.callee == 'Vec::push'))
    first = [x for x in q if x.startswith('tuple(format, ')]
    if rep.known(first, tag + ':program:root', 'the root format is not queued: %s' % q[:2], where):
        rep.ob(all(re.fullmatch(r'tuple\(format, (Option::None\(\), )?Next::Empty\(\), (len\[.*\]|0)\)', x) for x in first), tag + ':program:root', 'the root format is queued as %s' % first, where)
    ix = [e for e in an.events.values() if e.callee.endswith('index_mut') or e.callee.endswith('::get_mut')]
    if rep.known(ix, tag + ':program:store', 'no store of a compiled decoder found', where):
        for e in ix: rep.ob(c.v(e.args[1]) == 'Q.%d' % (2 + k.typed), tag + ':program:store', 'a compiled format is stored at %s' % c.v(e.args[1]), where)
    return n

def entry(prog, rep):
    """running a program runs the decoder of the root format on the given input"""
    n = 0
    for nm, p in (('Program::run', 'Decoder::parse'), ('Program::run_with_loc', 'Decoder::parse_with_loc')):
        fn = prog.one(nm)
        if not rep.known(fn is not None, 'entry:' + nm, 'entry point not found'): continue
        where = '%s %s' % (fn.loc(), fn.name)
        an, r = C.run(prog, fn, [C.sym('self'), C.sym('input')], barrier={'Decoder::parse', 'Decoder::parse_with_loc'}); n += 1
        rep.analysed_fns(an.inlined | {fn.name})
        ps = [e for e in an.events.values() if e.callee == p]
        if not rep.known(ps, 'entry:' + nm, 'no parse found', where): continue
        for e in ps:
            got = [C.show(a) for a in e.args]
            rep.ob(got[1] == 'self' and got[2].endswith('Scope::Empty()') and got[3] == 'input', 'entry:%s:args' % nm, 'the root decoder is run with %s' % got[1:], where)
            ix = [(e2.callee, C.show(e2.args[1]) if len(e2.args) > 1 else '') for e2 in an.events.values() if e2.args and C.show(e2.args[0]) == 'self.decoders' and e2.callee.split('::')[-1] in ('index', 'get', 'first', 'last', 'get_unchecked', 'iter', 'nth', 'split_first', 'split_last')]
            if rep.known(got[0] == 'self.decoders.[].0' and len(ix) == 1 and ix[0][0].split('::')[-1] in ('index', 'get', 'first', 'last', 'split_first', 'split_last'), 'entry:' + nm, 'the decoder that is run is %s' % got[0], where):
                m = ix[0][0].split('::')[-1]
                rep.ob(m in ('first', 'split_first') or m in ('index', 'get') and ix[0][1] == '0', 'entry:' + nm, 'the decoder that is run is number %s, the root format is compiled to number 0' % (ix[0][1] or m), where)
    return n
