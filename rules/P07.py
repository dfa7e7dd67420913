"""Name binding: which names a nested format or expression can see, and what they denote."""
import re
import absint as A, interp as I, common as C
CRATES = ['doodle']
RULE = ('Value flow over the MIR of both interpreters: the environment handed to every nested parse and expression evaluation must be the '
        'one the binding node prescribes (same environment, or exactly one more binding with the right name, value and parent; definitions '
        'called with arguments see only their arguments); name lookup is decided case by case (per kind of binding, name equal or not): newest binding '
        'first, otherwise the parent, otherwise unbound.')
def name_(p): return r'(?:from_label\[)?' + re.escape(p) + r'\]?'
EV = r'EVAL\[self\.%s, scope\]'
SPEC = {
    ('Call', None): r'Scope::Multi\(MultiScope\(Scope::Empty\(\), LIST\{.*\}\)\)',
    ('Let', '2'): r'Scope::Single\(SingleScope\(scope, self\.Let\.0, %s\)\)' % (EV % r'Let\.1'),
    ('LetFormat', '2'): r'Scope::Single\(SingleScope\(scope, self\.LetFormat\.1, VAL\[self\.LetFormat\.0\]\)\)',
    ('ForEach', '2'): r'Scope::Single\(SingleScope\(scope, self\.ForEach\.1, .*%s.*\)\)' % (EV % r'ForEach\.0'),
    ('LetView', '1'): r'Scope::View\(ViewScope\(scope, self\.LetView\.0, (CUR0|ENTRY)\)\)',
    ('Dynamic', '2'): r'Scope::Decoder\(DecoderScope\(scope, self\.Dynamic\.0, compile_one\[.*%s.*\]\)\)' % (EV % r'Dynamic\.1\.Huffman\.0'),
    ('Match', '1'): r'Scope::Multi\((Value::matches\.Some\.0|.*matches.*)\)',
}
METH = {'value': 'get_value_by_name', 'decoder': 'get_decoder_by_name', 'view': 'get_view_by_name'}
HIT = {'value': {'Multi': r'Result::Ok\(self\.Multi\.0\.entries\.\[\]\.1\.(Parsed)?Value\.0\)', 'Single': r'Result::Ok\(self\.Single\.0\.value\)'},
       'decoder': {'Decoder': r'self\.Decoder\.0\.decoder'},
       'view': {'Multi': r'self\.Multi\.0\.entries\.\[\]\.1\.View\.0', 'View': r'self\.View\.0\.view'}}

def run(prog, rep, tier):
    c = I.Canon(prog); n = 0
    for located in (False, True):
        tag = 'located' if located else 'plain'; pre = 'Loc' if located else ''
        it = I.Interp(prog, located)
        for v in it.variants():
            an, r, s = I.summary(prog, located, v); rep.analysed_fns(an.inlined | {it.fn.name})
            for who, p, sc, cur, e in s.parses:
                w = c.v(who); m = re.match(r'self\.%s\.(\w+)' % v['n'], w); f = m.group(1) if m else None
                want = SPEC.get((v['n'], f)) or SPEC.get((v['n'], None))
                got = c.v(sc); n += 1
                where = '%s:%s %s' % (it.fn.file, getattr(e, 'line', 0), it.fnname)
                if 'top' in got.split('|'): rep.known(False, '%s:%s:scope' % (tag, v['n']), 'environment not understood', where); continue
                rep.ob(re.fullmatch(want or 'scope', got), '%s:%s:scope' % (tag, v['n']), 'nested parse of %s sees the environment %s' % (w[:60], got[:200]), where)
                rep.ob(c.v(p) == 'program', '%s:%s:program' % (tag, v['n']), 'nested parse of %s runs against %s' % (w[:60], c.v(p)[:100]), where)
                if v['n'] == 'Call':
                    for need, what in ((r'self\.Call\.1\.\[\]\.0', 'argument name'), (r'EVAL\[self\.Call\.1\.\[\]\.1, scope\]', 'argument value (evaluated by the caller)'),
                                       (r'self\.Call\.2\.\[\]\.0', 'view name'), (r'ViewOrValue::View\(VIEW\)', 'view')):
                        rep.ob(re.search(need, got), '%s:Call:%s' % (tag, what.split(' (')[0]), 'a called definition does not receive its %s' % what, where); n += 1
                    rep.ob(not re.search(r'tuple\(self\.Call\.1\.\[\]\.0, ViewOrValue::View|tuple\(self\.Call\.2\.\[\]\.0, ViewOrValue::Value', got), tag + ':Call:kinds', 'arguments and views are swapped', where)
            for e in s.evals:
                got = c.v(e.args[1]); n += 1
                if 'top' in got.split('|'): continue
                rep.ob(got == 'scope', '%s:%s:eval' % (tag, v['n']), 'expression %s is evaluated in the environment %s' % (c.v(e.args[0])[:60], got[:160]),
                       '%s:%s %s' % (it.fn.file, getattr(e, 'line', 0), it.fnname))
        # match arms: the environment comes from matching the scrutinee against that arm's own pattern
        vm = next(v for v in it.variants() if v['n'] == 'Match')
        an, r, s = I.summary(prog, located, vm)
        ms = [e for e in an.events.values() if e.callee.split('::')[-1] == 'matches' and e.callee.split('::')[0] in ('Value', 'ParsedValue')]
        rep.known(bool(ms), tag + ':Match:site', 'no pattern-match call found in the match node')
        for e in ms:
            n += 1; got = [c.v(a) for a in e.args]
            rep.ob(got[1] == 'scope' and got[2] == 'self.Match.1.[].0' and re.fullmatch(EV % r'Match\.0', got[0]), tag + ':Match:arm',
                   'match arm matches %s against %s in %s' % (got[0], got[2], got[1]), it.fn.loc())
        # lookup
        ad = C.adt(prog, pre + 'Scope')
        if ad is None: rep.known(False, tag + ':scope-type', 'environment type not found'); continue
        for kind, m in METH.items():
            full = pre + 'Scope::' + m; fn = prog.one(full)
            if fn is None: rep.known(False, tag + ':' + m, 'lookup function not found'); continue
            for v in ad['v']:
                for eq in (0, 1):
                    eqs = []
                    def model(an, name, nn, vals, targs, st, site, f, bb, line):
                        l = nn.split('::')[-1]
                        if l in ('eq', 'ne') and len(vals) == 2:
                            eqs.append((I.show(an.snap(vals[0], st)), I.show(an.snap(vals[1], st))))
                            return A.V(('int', eq if l == 'eq' else 1 - eq))
                        if nn == full: return A.V(('op', 'REC', (an.snap(vals[0], st), an.snap(vals[1], st))))
                    an, r = C.run(prog, fn, [C.variant_value(ad, v['n']), C.sym('name')], model=model)
                    rep.analysed_fns(an.inlined); n += 1
                    got = set() if r is None else set(C.show(A.V(a)) for a in r)
                    key = '%s:lookup-%s:%s:%s' % (tag, kind, v['n'], 'equal' if eq else 'different')
                    if any(x in ('top', 'phi') for x in got): rep.known(False, key, 'lookup result not understood: %s' % got); continue
                    up = 'REC[self.%s.0.parent, name]' % v['n']
                    if v['n'] == 'Empty': good = all(x.startswith('Result::Err(') for x in got); want = 'unbound'
                    elif eq and v['n'] in HIT[kind]:
                        h = HIT[kind][v['n']]; want = 'the binding itself'
                        good = any(re.fullmatch(h, x) for x in got) and all(re.fullmatch(h, x) or (v['n'] == 'Multi' and x == up) for x in got)
                    else: good = got == {up}; want = 'the enclosing environment'
                    rep.ob(good, key, 'looking up a %s in a %s binding whose name is %s yields %s instead of %s' % (kind, v['n'], 'equal' if eq else 'different', sorted(got), want), fn.loc())
                    for x, y in eqs:
                        rep.ob('name' in (x, y) and ('.name' in x + y or '.entries.[]' in x + y), key + ':compare', 'lookup compares %s with %s' % (x, y), fn.loc())
                    if v['n'] == 'Multi' and v['n'] in HIT[kind]:
                        lasts = [e.callee.split('::')[-1] for e in an.events.values()]
                        back = any(l in ('rev', 'rfind', 'next_back', 'rposition', 'rfold') for l in lasts)
                        fwd = any(l in ('iter', 'find', 'position', 'next', 'into_iter', 'find_map') for l in lasts)
                        if back or fwd: rep.ob(back, '%s:lookup-%s:newest-first' % (tag, kind), 'bindings are searched oldest first', fn.loc())
                        else: rep.known(False, '%s:lookup-%s:newest-first' % (tag, kind), 'search direction not understood')
    rep.floor(n, 'environment_uses', 150)
