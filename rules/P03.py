"""Locations reported by the located interpreter span exactly what was consumed."""
import re
import absint as A, interp as I, common as C
CRATES = ['doodle']
RULE = ('Value flow of the location attached to every value the located interpreter constructs: start must be the entry offset of the node, '
        'length the distance from it to the position the node hands back (or the width it consumed); location readers and writers are checked '
        'variant by variant.')

START = {'CUR0.offset', 'ENTRY.offset'}
def span(lo, ln): return (lo, ln)
SPAN = (START, r'Sub\[((CUR|CUR0)\.offset\|?)+, ((CUR0|ENTRY)\.offset\|?)+\]')
ZERO = (START, r'0')
EXP = {
    'EndOfInput': ZERO, 'PeekNot': ZERO, 'Byte': (START, r'1|Sub\[CUR\.offset, ENTRY\.offset\]'),
    'Align': (START, r'Rem\[Sub\[self\.Align\.0, Rem\[\w+\.offset, self\.Align\.0\]\], self\.Align\.0\]|Sub\[\.offset\[AFTER.*\], \w+\.offset\]'),
    'SkipRemainder': (START, r'Sub\[\.offset\[END\[\w+\]\], \w+\.offset\]|len\[REST\[\w+\]\]|Sub\[len\[\w+\.input\], \w+\.offset\]'),
    'CaptureBytes': ({'VIEW.offset', 'OVIEW.offset'}, r'usize\[EVAL\[self\.CaptureBytes\.1, scope\]\]|Sub\[.*offset, .*\]|len\[.*\]'),
    'ReadArray': ({'VIEW.offset', 'OVIEW.offset'}, r'Mul\[usize\[EVAL\[self\.ReadArray\.1, scope\]\], [\w:]*size[\w:]*(\[.*\])?\]|Mul\[[\w:]*size[\w:]*(\[.*\])?, usize\[EVAL\[self\.ReadArray\.1, scope\]\]\]|Sub\[.*offset.*, .*\]'),
}
for _n in ('Tuple', 'Sequence', 'While', 'Until', 'RepeatCount', 'RepeatUntilLast', 'RepeatUntilSeq', 'RepeatBetween', 'ForEach', 'AccumUntil'): EXP[_n] = SPAN
SYNTH_ONLY = {'Pos', 'ReifyView', 'Phantom'}

def outer_locs(v, out, prog, inner_idx):
    """(constructor, location value) of the outermost value, and of nested element values separately"""
    for a in v:
        if a[0] == 'agg' and a[1].split('::')[-1] == 'ParsedValue' and a[3]:
            for p in a[3][0]:
                if p[0] == 'agg' and p[1].split('::')[-1] == 'Parsed':
                    out.append((a[2], p[3][1 - inner_idx], p[3][inner_idx]))

def run(prog, rep, tier):
    c = I.Canon(prog); idx = c.inner
    it = I.Interp(prog, True); where = '%s %s' % (it.fn.loc(), it.fnname)
    n = 0
    for v in I.variants(prog):
        name = v['n']
        an, r, s = I.summary(prog, True, v); rep.analysed_fns(an.inlined | {it.fn.name})
        locs = []
        for val, _, _ in s.ok: outer_locs(val, locs, prog, idx)
        if name in EXP:
            rep.known(bool(locs), name + ':found', 'no located value constructed by %s' % name, where)
            starts, ln = EXP[name]
            for cons, loc, inner in locs:
                for l in loc:
                    n += 1
                    if l[0] == 'agg' and l[2] == 'InBuffer' and len(l[3]) == 2:
                        so = {I.show(A.V(x)) for x in l[3][0]}; sl = I.show(l[3][1])
                        if any('top' in x or 'phi' in x for x in so): rep.known(False, name + ':start', 'start not understood', where)
                        else: rep.ob(so <= starts, name + ':start:' + ('ok' if so <= starts else '|'.join(sorted(so))[:80]), '%s reports start %s' % (name, sorted(so)), where)
                        if re.search(r'\b(top|phi)\b', sl): rep.known(False, name + ':length', 'length not understood: %s' % sl, where); continue
                        okl = all(re.fullmatch(ln, x) for x in split(sl))
                        rep.ob(okl, name + ':length:' + ('ok' if okl else sl[:100]), '%s reports length %s' % (name, sl), where)
                    elif l[0] == 'agg' and l[2] == 'Synthesized':
                        rep.ob(False, name + ':synthesized', '%s consumes input but reports no location' % name, where)
                    else: rep.known(False, name + ':loc', 'location not understood: %s' % I.show(A.V(l)), where)
        elif name in SYNTH_ONLY:
            for cons, loc, inner in locs:
                n += 1
                rep.ob(I.show(loc) == 'ParseLoc::Synthesized()', name + ':synthesized', '%s is computed, not read, but reports %s' % (name, I.show(loc)), where)
        elif name == 'Map':
            for val, _, _ in s.ok:
                for a in val:
                    if a[0] == 'agg' and a[2] == 'Mapped':
                        n += 1; t = I.show(a[3][1])
                        rep.ob(t == 'LOC[SYN[LAMBDA[self.Map.1, scope, VAL[self.Map.0]]], LOCOF[VAL[self.Map.0]]]', 'Map:image', 'a mapped value is located at %s' % t[:200], where)
    # elements of captured bytes / arrays
    for name, width in (('CaptureBytes', r'1'), ('ReadArray', r'[\w:]*size[\w:]*(\[.*\])?|[1248]')):
        v = next((x for x in I.variants(prog) if x['n'] == name), None)
        if v is None: continue
        an, r, s = I.summary(prog, True, v); locs = []; el = []
        for val, _, _ in s.ok: outer_locs(val, locs, prog, idx)
        for cons, loc, inner in locs:
            todo = list(inner)
            while todo:
                a = todo.pop()
                if a[0] == 'agg' and a[2] == 'Strict': todo.extend(a[3][0])
                elif a[0] == 'vec': outer_locs(a[1], el, prog, idx)
                elif a[0] == 'op' and a[1] in ('push', 'extend'): todo.extend(a[2][0]); outer_locs(a[2][1], el, prog, idx)
        rep.known(bool(el), name + ':elements', 'element locations not traced', where)
        starts = set(); widths = set()
        for cons, loc, inner in el:
            for l in loc:
                if l[0] == 'agg' and l[2] == 'InBuffer':
                    starts |= {I.show(A.V(x)) for x in l[3][0]}; widths |= set(split(I.show(l[3][1])))
        for w in widths:
            n += 1
            if 'top' not in w: rep.ob(re.fullmatch(width, w), '%s:element-width:%s' % (name, 'ok' if re.fullmatch(width, w) else w[:60]), 'element of %s has width %s' % (name, w), where)
        adv = {x for x in starts if 'VCUR' in x or 'VOLD' in x or x.startswith('Add[')}
        if el: rep.ob(bool(adv), name + ':element-start', 'every element of %s is located at the start of the array (%s)' % (name, sorted(starts)[:4]), where)
        for x in adv:
            if x.startswith('Add['):
                m = re.match(r'Add\[(O?VIEW\.offset), (in\[Range\(0, .*\)\]|Mul\[.*\])\]$', x)
                rep.ob(bool(m), '%s:element-offset:%s' % (name, 'ok' if m else x[:60]), 'element of %s located at %s' % (name, x), where)
    # readers / writers of locations, variant by variant
    pv = C.adt(prog, 'ParsedValue'); gl = prog.one('ParsedValue::get_loc'); tr = prog.one('ParsedValue::translate')
    if rep.ob(pv and gl and tr, 'anchor:get_loc', 'ParsedValue location accessors not found'):
        own = {'Flat', 'Tuple', 'Record', 'Seq'}
        deleg = {'Variant': ('self.Variant.1', 'self.Variant.1'), 'Branch': ('self.Branch.1', 'self.Branch.1'), 'Mapped': ('self.Mapped.0', 'self.Mapped.1'),
                 'Option': ('self.Option.0.Some.0',) * 2, 'Permit': (('self.Permit.0.Ok.0', 'self.Permit.0.Err.0.Some.0'),) * 2}
        for v in pv['v']:
            nm = v['n']; w = gl.loc() + ' ParsedValue::get_loc'
            an, r = C.run(prog, gl, [C.variant_value(pv, nm)], pure={'ParsedValue::get_loc'}); n += 1
            got = set(split(C.show(r)))
            if nm in own: want = {'self.%s.0.loc' % nm}
            elif nm in deleg:
                d = deleg[nm][0]; d = d if isinstance(d, tuple) else (d,)
                want = {'ParsedValue::get_loc[%s]' % x for x in d}
                if nm in ('Option', 'Permit'): want.add('ParseLoc::Synthesized()')
            else: continue
            rep.ob(got == want, 'get_loc:' + nm, 'location of a %s value is read from %s' % (nm, sorted(got)), w)
            an, r = C.run(prog, tr, [C.sym('self'), C.sym('new')], st={('heap', 'self', ()): C.variant_value(pv, nm)}, pure={'ParsedValue::translate'}); n += 1
            if nm in own:
                fs = an.final_state.get(('heap', 'self', ()), A.EMPTY) if r is not None else A.EMPTY
                t = I.show(fs) + ''.join(I.show(x) for k, x in (an.final_state.items() if r is not None else []) if k[0] == 'heap' and 'loc' in k[2])
                rep.known('new' in t, 'translate:' + nm, 'update of the location of %s not traced' % nm, tr.loc())
            else:
                d = deleg[nm][1]; d = d if isinstance(d, tuple) else (d,)
                es = set(I.show(e.args[0]) for e in C.calls_to(an, 'ParsedValue::translate')); ar = set(I.show(e.args[1]) for e in C.calls_to(an, 'ParsedValue::translate'))
                if not es: rep.known(False, 'translate:' + nm, 'delegation not traced', tr.loc())
                else: rep.ob(es == set(d) and ar == {'new'}, 'translate:' + nm, 'the new location of a %s value is written to %s' % (nm, sorted(es)), tr.loc())
    pl = C.adt(prog, 'ParseLoc'); jn = prog.one('ParseLoc::join')
    if rep.ob(pl and jn, 'anchor:join', 'ParseLoc::join not found'):
        W = {('InBuffer', 'InBuffer'): {'ParseLoc::InBuffer(min[%s], Add[%s])' % (a, b) for a in ('a.InBuffer.offset, b.InBuffer.offset', 'b.InBuffer.offset, a.InBuffer.offset')
                                        for b in ('a.InBuffer.length, b.InBuffer.length', 'b.InBuffer.length, a.InBuffer.length')},
             ('InBuffer', 'Synthesized'): {'ParseLoc::InBuffer(a.InBuffer.offset, a.InBuffer.length)'},
             ('Synthesized', 'InBuffer'): {'ParseLoc::InBuffer(b.InBuffer.offset, b.InBuffer.length)'},
             ('Synthesized', 'Synthesized'): {'ParseLoc::Synthesized()'}}
        for (x, y), want in W.items():
            an, r = C.run(prog, jn, [C.variant_value(pl, x, 'a'), C.variant_value(pl, y, 'b')]); n += 1
            rep.ob(C.show(r) in want, 'join:%s+%s' % (x, y), 'joining %s with %s gives %s' % (x, y, C.show(r)), jn.loc() + ' ParseLoc::join')
        for f, want in (('get_length', {'InBuffer': 'self.InBuffer.length', 'Synthesized': '0'}), ('get_offset', {'InBuffer': 'Option::Some(self.InBuffer.offset)', 'Synthesized': 'Option::None()'})):
            fn = prog.one('ParseLoc::' + f)
            if fn is None: continue
            for x in want:
                an, r = C.run(prog, fn, [C.variant_value(pl, x)]); n += 1
                rep.ob(C.show(r) == want[x], f + ':' + x, '%s of %s is %s' % (f, x, C.show(r)), fn.loc())
        cf = prog.one('ParsedValue::collect_fields')
        if cf is not None:
            an, r = C.run(prog, cf, [C.sym('fields')], pure={'ParsedValue::get_loc', 'ParseLoc::join'}); n += 1
            t = C.show(r)
            rep.ob('get_loc[fields.[].1]' in t, 'record:fields', 'the location of a record does not come from its fields: %s' % t[:200], cf.loc())
    rep.floor(n, 'locations_checked', 40)

def split(s):
    """split alternatives at top level only"""
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '([': d += 1
        if ch in ')]': d -= 1
        if ch == '|' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    return out + [cur]
