"""Recoverable errors are never dropped on the way to the result."""
import re
import absint as A, interp as I, common as C
CRATES = ['doodle']
RULE = ('Coverage-token value flow over the MIR of both interpreters: each nested parse hands back a list of recoverable errors; the list '
        'attached to every successful result must cover the lists of all nested parses on that path, a permitted failure must be in the '
        'list, and the entry points must report every element of the final list.')
# node kinds whose nested errors are deliberately not reported: the nested parse was speculative and failed, or its success is the failure
EXPECT = {'Parallel': [{'cur'}, {'cur', 'old'}], 'PeekNot': [{'old'}, {'old', 'cur'}]}

def every(e, *toks):
    # every alternative of the list carries the token; alternatives of an operand are alternatives of the list
    return bool(e) and all(any(t in I.show({a}) for t in toks) for a in e)

def run(prog, rep, tier):
    c = I.Canon(prog); n = 0
    vs = I.variants(prog); byname = {v['n']: v for v in vs}
    for located in (False, True):
        tag = 'located' if located else 'plain'
        it = I.Interp(prog, located); where = '%s %s' % (it.fn.loc(), it.fnname)
        for v in vs:
            an, r, s = I.summary(prog, located, v); rep.analysed_fns(an.inlined | {it.fn.name})
            key = '%s:%s' % (tag, v['n'])
            ok = EXPECT.get(v['n'], [{'old', 'cur'}])
            for val, cur, e in s.ok:
                if any(a[0] in ('top',) for a in e): rep.known(False, key, 'error list not understood', where); continue
                for cov in I.cov_v(e):
                    n += 1
                    rep.ob(set(cov) in ok, key + ':' + ('+'.join(sorted(cov)) or 'none'),
                           '%s can succeed while its error list covers only the errors of: %s nested parse(s)' % (v['n'], {'old': 'earlier', 'cur': 'the last'}.get('+'.join(sorted(cov)), 'no')), where)
        # a permitted failure is reported
        an, r, s = I.summary(prog, located, byname['Permit'], dict(parse='err'))
        for val, cur, e in s.ok:
            n += 1
            rep.ob(every(e, 'PERR[self.Permit.0'), tag + ':Permit:failure', 'a permitted failure is not in the error list: %s' % I.show(e)[:120], where)
        # trailing bytes of an embedded parse
        an, r, s = I.summary(prog, located, byname['DecodeBytes'], dict(parse='ok', read=True))
        for val, cur, e in s.ok:
            n += 1
            rep.ob(every(e, 'railing'), tag + ':DecodeBytes:trailing', 'bytes left over after an embedded parse are not reported', where)
        # soft conditions
        import P05
        f = P05.cond(prog, 'Expect')
        if f is not None:
            an, r, s = I.summary(prog, located, byname['Where'], dict(bool=0, parse='ok'), {'1': f}, tag='Expect')
            for val, cur, e in s.ok:
                n += 1
                rep.ob(every(e, 'bad_where', 'BadWhere', 'Where'), tag + ':Where:soft', 'a failed soft condition is not in the error list: %s' % I.show(e)[:120], where)
        # entry point
        top = prog.one('Program::run_with_loc' if located else 'Program::run')
        if rep.ob(top is not None, tag + ':entry', 'entry point not found'):
            an, r = C.run(prog, top, [C.sym('program'), C.sym('input')], barrier={'Decoder::parse', 'Decoder::parse_with_loc'})
            n += 1
            ev = [e for e in an.events.values() if any('errs' in I.show(x) for x in e.args) and re.search(r'log|print|fmt|Argument::new|to_string|push', e.callee)]
            iters = [e for e in an.events.values() if e.callee.split('::')[-1] in ('for_each', 'next') and 'errs' in I.show(e.args[0])]
            rep.ob(bool(ev) and bool(iters), tag + ':entry:reports', 'the entry point does not report each remaining recoverable error', '%s' % top.loc())
            trunc = [e.callee for e in an.events.values() if e.callee.split('::')[-1] in ('take', 'skip', 'filter', 'last', 'first', 'step_by', 'truncate', 'pop') and 'errs' in ''.join(I.show(x) for x in e.args[:1])]
            rep.ob(not trunc, tag + ':entry:all', 'only part of the recoverable errors is reported (%s)' % trunc, top.loc())
    # the error-carrying wrapper itself
    for name, args, want in (
            ('WithErr::map', [C.sym('self'), C.sym('f')], r'self\.errs'),
            ('WithErr::from_parts', [C.sym('value'), C.sym('errs')], r'errs'),
            ('WithErr::with_err', [C.sym('value'), C.sym('err')], r'(array\(err\)|vec\[err\])')):
        fn = prog.one(name)
        if fn is None: continue
        an, r = C.run(prog, fn, args); n += 1
        got = {I.show(a[3][1]) for a in (r or []) if a[0] == 'agg' and len(a[3]) == 2}
        rep.ob(got and all(re.fullmatch(want, g) for g in got), name, '%s carries %s' % (name, sorted(got)), fn.loc())
    fn = prog.one('WithErr::into_strict')
    if fn is not None:
        an, r = C.run(prog, fn, [C.sym('self')]); t = C.show(r); n += 1
        rep.ob('Result::Err(self.errs)' in t and 'Result::Ok(self.value)' in t, 'WithErr::into_strict', t[:150], fn.loc())
        for rv, g, bb in an.returns: pass
    fn = prog.one('WithErr::lift')
    if fn is not None:
        an, r = C.run(prog, fn, [C.sym('self'), C.sym('outer')]); n += 1
        st = ''.join(I.show(v) for k, v in an.final_state.items() if k[0] == 'heap' and k[1] == 'outer')
        rep.ob('self.errs' in st and 'outer' in st, 'WithErr::lift', 'lift leaves the outer list as %s' % st[:120], fn.loc())
    rep.floor(n, 'error_lists_checked', 80)
