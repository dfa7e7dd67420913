"""Position threading in both interpreters."""
import re
import absint as A, interp as I, common as C
CRATES = ['doodle']
RULE = ('Linear-cursor value flow over the MIR of both interpreters, one abstract run per decoder node kind: every nested parse must start '
        'at the position the combinator prescribes, and the position handed back must be the prescribed one; a position that was already '
        'consumed is marked stale at the consuming call and may not be used except where the combinator restores its entry position.')

E0 = {'fresh', 'entry'}
def usize(op): return r'usize\[EVAL\[self\.%s, scope\]\]' % re.escape(op)
ANYSUB = '*'
SKIP_ALIGN = [r'Rem\[Sub\[self\.Align\.0, Rem\[(CUR0|ENTRY)\.offset, self\.Align\.0\]\], self\.Align\.0\]',
              r'Sub\[usize::next_multiple_of\[(CUR0|ENTRY)\.offset, self\.Align\.0\], (CUR0|ENTRY)\.offset\]',
              r'0\|Sub\[self\.Align\.0, Rem\[(CUR0|ENTRY)\.offset, self\.Align\.0\]\]']
BITS_READ = [r'Sub\[len\[REST\[(CUR0|ENTRY)\]\], (Shr\[len\[REST\[NCUR\]\], 3\]|Div\[len\[REST\[NCUR\]\], 8\])\]']

# kind: (allowed start positions of nested parses, allowed result positions, result positions that must be possible)
PASS = (E0, {'cur'}, {'cur'})
LOOP = ({'fresh', 'cur'}, {'fresh', 'cur'}, {'cur'})
LOOP1 = ({'fresh', 'cur'}, {'cur'}, {'cur'})
LEAF = (set(), E0, set())
def R(*pats): return [re.compile(p + r'\Z') for p in pats]
SPEC = {
    'Call': PASS, 'Variant': PASS, 'Branch': PASS, 'Map': PASS, 'Where': PASS, 'Let': PASS, 'LetView': PASS, 'Match': PASS,
    'Dynamic': PASS, 'Apply': PASS, 'Parallel': PASS, 'Enforce': PASS,
    'Tuple': LOOP, 'Sequence': LOOP, 'While': LOOP, 'RepeatCount': LOOP, 'RepeatBetween': LOOP, 'ForEach': LOOP, 'AccumUntil': LOOP,
    'Until': LOOP1, 'RepeatUntilLast': LOOP1, 'RepeatUntilSeq': LOOP1,
    'Pos': LEAF, 'EndOfInput': LEAF, 'Compute': LEAF, 'Phantom': LEAF, 'ReifyView': LEAF, 'CaptureBytes': LEAF, 'ReadArray': LEAF,
    'Fail': (set(), set(), set()),
    'Byte': (set(), {'cur'}, {'cur'}),
    'SkipRemainder': (set(), R(r'end\((fresh|entry)\)'), None),
    'Align': (set(), R(*[r'after\((fresh|entry),(%s)\)' % p for p in SKIP_ALIGN]), None),
    'Peek': (E0, E0, None), 'PeekNot': (E0, E0, None),
    'Slice': (R(r'prefix\((fresh|entry),%s\)' % usize('Slice.0')), R(r'after\((fresh|entry),%s\)' % usize('Slice.0')), None),
    'Bits': ({'new'}, R(*[r'after\((fresh|entry),(%s)\)' % p for p in BITS_READ]), None),
    'DecodeBytes': ({'new'}, E0, None),
    'ParseFromView': ({'view'}, E0, None),
    'WithRelativeOffset': (R(r'seek\((fresh|entry),(Add|usize::checked_add|usize::saturating_add)\[%s, %s\]\)' % (usize('WithRelativeOffset.0'), usize('WithRelativeOffset.1')),
                             r'seek\((fresh|entry),(Add|usize::checked_add|usize::saturating_add)\[%s, %s\]\)' % (usize('WithRelativeOffset.1'), usize('WithRelativeOffset.0'))), E0, None),
    'LiftedOption': (E0, {'fresh', 'entry', 'cur'}, {'cur'}),
    'Maybe': (E0, {'fresh', 'cur'}, {'cur'}),
    'Permit': (E0, {'entry', 'cur', 'fresh'}, {'cur'}),
    'LetFormat': None, 'MonadSeq': None,
}
def allowed(x, spec):
    if isinstance(spec, (set, frozenset)): return x in spec
    return any(p.match(x) for p in spec)

def run(prog, rep, tier):
    n = 0
    for located in (False, True):
        it = I.Interp(prog, located)
        tag = 'located' if located else 'plain'
        if not rep.ob(it.fn is not None and it.dec is not None, tag + ':anchor', 'interpreter entry %s not found' % it.fnname): continue
        for v in it.variants():
            name = v['n']; key = '%s:%s' % (tag, name); where = '%s %s' % (it.fn.loc(), it.fnname)
            an, r = it.run(v); s = I.Summary(an, r); n += 1
            rep.analysed_fns(an.inlined | {it.fn.name})
            rep.count('nested_parse_sites', len(s.parses)); rep.count('lookahead_sites', len(s.trees))
            rep.known(not s.unk, key + ':result-shape', 'the result of %s is not understood: %s' % (name, I.show(frozenset(s.unk))[:200]), where)
            spec = SPEC.get(name, 'unknown')
            if spec == 'unknown':
                # a node kind this rule does not know: it must at least never use a stale position
                bad = [c for st in s.starts().values() for c in st if 'stale' in c] + [c for c in s.results() if 'stale' in c]
                rep.ob(not bad, key + ':stale', 'stale position used: %s' % bad, where); continue
            starts = s.starts(); results = s.results()
            if spec is None:
                first, second = (('LetFormat.0', 'LetFormat.2') if name == 'LetFormat' else ('MonadSeq.0', 'MonadSeq.1'))
                rep.ob(starts.get('self.' + first, set()) <= E0 and starts.get('self.' + first), key + ':first', 'first part starts at %s' % starts.get('self.' + first), where)
                rep.ob(starts.get('self.' + second) == {'cur'}, key + ':second', 'second part must start where the first ended, starts at %s' % starts.get('self.' + second), where)
                rep.ob(results == {'cur'}, key + ':result', 'result position must be the end of the second part, is %s' % sorted(results), where)
                continue
            a_start, a_res, must = spec
            for who, st in sorted(starts.items()):
                for c in sorted(st):
                    rep.ob(allowed(c, a_start), '%s:start:%s' % (key, 'ok' if allowed(c, a_start) else who + '@' + c[:120]),
                           '%s parses %s from position `%s`' % (name, who, c), where)
            for c in sorted(results):
                rep.ob(allowed(c, a_res), '%s:result:%s' % (key, 'ok' if allowed(c, a_res) else c[:120]), '%s hands back position `%s`' % (name, c), where)
            if must: rep.ob(must <= results, key + ':advances', '%s never hands back the advanced position (only %s)' % (name, sorted(results)), where)
            if name not in ('Fail',): rep.ob(bool(s.ok), key + ':succeeds', '%s can no longer succeed' % name, where)
            subs = [f for f in v['f'] if re.search(r'\bDecoder\b', prog.ty('doodle-lib', f[1]).s)]
            for f in subs:
                p = 'self.%s.%s' % (name, f[0])
                rep.ob(any(w == p or w.startswith(p + '.') for w in starts) , '%s:runs:%s' % (key, f[0]), 'operand %s of %s is never parsed' % (f[0], name), where)
            if name in ('ReadArray', 'CaptureBytes'):
                at = {c for e in an.events.values() if e.callee.startswith('ReadCtxt::read_') for a in e.args[0] for c in [I.show(A.V(a))]}
                if rep.known(at and (at <= {'VIEW', 'VCUR', 'OVIEW', 'VOLD'} or at & {'CUR0', 'ENTRY'}), key + ':elements', 'elements are read at %s' % sorted(at), where):
                    rep.ob(at <= {'VIEW', 'VCUR'}, key + ':elements', 'an element of %s is read at a position that was already read, or outside the view (%s)' % (name, sorted(at)), where)
            for pos in sorted(s.tree_pos()):
                good = {'While': {'fresh', 'cur'}, 'Until': {'cur'}, 'RepeatBetween': {'fresh', 'cur'}, 'Branch': E0}.get(name, E0)
                rep.ob(pos in good, '%s:lookahead:%s' % (key, 'ok' if pos in good else pos), 'lookahead of %s is taken at `%s`' % (name, pos), where)
    rep.floor(n, 'node_kinds_analysed', 60)
    rep.floor(rep.counts.get('nested_parse_sites', 0), 'nested_parse_sites', 60)
    views(prog, rep)

def views(prog, rep):
    """a view expression names the view bound in scope, or what is left of one after skipping"""
    ve = C.adt(prog, 'ViewExpr')
    for nm in ('Decoder::eval_view_expr', 'Decoder::eval_view_expr_with_loc'):
        fn = prog.one(nm); tag = 'located' if nm.endswith('loc') else 'plain'
        if not rep.known(fn is not None and ve is not None, tag + ':views', 'evaluation of view expressions not found'): continue
        where = '%s %s' % (fn.loc(), fn.name)
        def model(an, name, nn, vals, targs, st, site, f, bb, line):
            last = nn.split('::')[-1]; sn = [an.snap(v, st) for v in vals]
            if nn == nm: return A.V(A.ok(A.V(('op', 'EVALVIEW', tuple(sn)))), A.err(C.sym('VERR')))
            if nn.startswith('Expr::eval') and len(sn) == 2: return A.V(('op', 'EVAL', tuple(sn)))
            if last == 'unwrap_usize': return A.V(('op', 'usize', tuple(sn)))
            if last == 'get_view_by_name': return A.V(('op', 'GETVIEW', tuple(sn)))
            if nn == 'ReadCtxt::split_at': return A.V(A.some(A.V(A.tup(A.mkop('PREFIX', sn[0], sn[1]), A.mkop('AFTER', sn[0], sn[1])))), A.NONE)
            if nn.startswith(('DecodeErrorKind::', 'DecodeError::')): return A.V(('op', 'ERR', ()))
            if last in ('format_err', 'new_debug', 'new_display', 'format', 'to_string') or nn.startswith('Arguments'): return A.V(('op', 'text', ()))
            return None
        for v in ve['v']:
            an, r = C.run(prog, fn, [C.sym('scope'), C.variant_value(ve, v['n'], 've')], model=model); key = '%s:views:%s' % (tag, v['n'])
            rep.analysed_fns(an.inlined | {fn.name})
            ok = sorted(I.show(a[3][0]) for a in r or () if a[0] == 'agg' and a[2] == 'Ok'); err = [a for a in r or () if a[0] == 'agg' and a[2] == 'Err']
            if v['n'] == 'Var': rep.ob(ok == ['GETVIEW[scope, ve.Var.0]'] and not err, key, 'a named view is %s' % (ok + [I.show(A.V(e)) for e in err]), where)
            elif v['n'] == 'Offset':
                if rep.known(len(ok) == 1 and re.match(r'(AFTER|PREFIX)\[', ok[0]), key, 'a view at an offset is %s' % ok, where):
                    rep.ob(ok == ['AFTER[EVALVIEW[scope, ve.Offset.0], usize[EVAL[ve.Offset.1, scope]]]'] and {I.show(e[3][0]) for e in err} == {'VERR', 'ERR[]'}, key, 'a view at an offset is %s, errors %s' % (ok, sorted(I.show(e[3][0]) for e in err)), where)
            else: rep.known(False, key, 'view expression without a rule', where)
