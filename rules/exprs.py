"""Value-flow summaries of the two expression evaluators, split by expression kind and by the kind of an operand's value."""
import absint as A, interp as I, common as C
EXPR_FILE = {False: 'src/decoder.rs', True: 'src/loc_decoder.rs'}
BAR = ('Value::int_rel', 'Value::arith', 'Value::unary')

class Exprs:
    def __init__(self, prog):
        self.prog = prog; self.c = I.Canon(prog)
        self.adt = C.adt(prog, 'Expr', lambda a: any(v['n'] == 'FlatMap' for v in a['v']))
        self.value = C.adt(prog, 'Value', lambda a: any(v['n'] == 'EnumFromTo' for v in a['v']))
        self.pvalue = C.adt(prog, 'ParsedValue'); self.parsed = C.adt(prog, 'Parsed'); self.seqkind = C.adt(prog, 'SeqKind')
        self.it = I.Interp(prog, True)
        self.fns = {False: prog.one('Expr::eval', EXPR_FILE[False]), True: prog.one('Expr::eval_with_loc')}
        self.fields = {v['n']: v['f'] for v in self.adt['v']}
    def kinds(self):
        out = []
        for v in self.value['v']:
            if v['n'] in ('Mapped', 'Branch'): continue       # removed by coercion before any operator sees them
            if v['n'] == 'Seq': out += ['Seq:Strict', 'Seq:Dup']
            elif v['n'] == 'Option': out += ['Option:Some', 'Option:None']
            elif v['n'] == 'Permit': out += ['Permit:Err']
            else: out.append(v['n'])
        return out
    def kval(self, kind, tag):
        """a plain Value of the given kind"""
        k, _, sub = kind.partition(':')
        f = {}
        if k == 'Seq': f['0'] = A.V(('agg', self.seqkind['adt'], sub, (C.sym(tag, sub + '.0'),) if sub == 'Strict' else (C.sym(tag, 'Dup.0'), C.sym(tag, 'Dup.1'))))
        if k == 'Option': f['0'] = A.V(A.some(C.sym(tag, 'Some.0'))) if sub == 'Some' else A.V(A.NONE)
        if k == 'Permit': f['0'] = A.V(A.err(C.sym(tag, 'Err.0')))
        return C.variant_value(self.value, k, tag, f)
    def pval(self, kind, tag):
        k, _, sub = kind.partition(':')
        v = self.kval(kind, tag)
        if not any(x['n'] == k for x in self.pvalue['v']):
            fs = tuple(v if f[0] == 'inner' else C.sym(tag, 'loc') for f in self.parsed['v'][0]['f'])
            return A.V(('agg', self.pvalue['adt'], 'Flat', (A.V(('agg', self.parsed['adt'], self.parsed['v'][0]['n'], fs)),)))
        a = next(iter(v))
        if k in ('Tuple', 'Record', 'Seq'):
            fs = tuple(a[3][0] if f[0] == 'inner' else C.sym(tag, 'loc') for f in self.parsed['v'][0]['f'])
            return A.V(('agg', self.pvalue['adt'], k, (A.V(('agg', self.parsed['adt'], self.parsed['v'][0]['n'], fs)),)))
        return A.V(('agg', self.pvalue['adt'], k, a[3]))
    def run(self, located, vn, force=None, fields=None, lam=None, extra=None):
        """force: {field index: kind}; lam: kind of a lambda result"""
        force = force or {}
        def model(an, name, nn, vals, targs, st, site, f, bb, line):
            last = nn.split('::')[-1]
            if nn.split('::')[0] == 'Expr' and last in I.EVALS and an.local(name) is not None and an.local(name).file.endswith(('src/decoder.rs', 'src/loc_decoder.rs')):
                sn = [an.snap(v, st) for v in vals]
                ret = an.local(name).local_ty(0).s
                if I.EVALS[last] == 'LAMBDA':
                    if lam:
                        return self.kval(lam, 'LAM')
                    return A.V(('op', 'LAMBDA', tuple(sn[:2])))
                for a in sn[0]:
                    if a[0] == 'sym' and a[1] == 'self' and len(a[2]) == 1:
                        i = a[2][0].split('.')[-1]
                        if i in force:
                            v = self.pval(force[i], 'E' + i) if self.it.vkind(ret) == 'ParsedValue' else self.kval(force[i], 'E' + i)
                            return A.V(('agg', 'std::borrow::Cow', 'Owned', (v,))) if 'Cow<' in ret else v
                return A.V(('op', 'EVAL', tuple(sn[:2])))
            lf = an.local(name)
            if lf is not None and len(vals) == 1 and not nn.startswith('<Cow') and last not in ('clone', 'to_owned'):
                kin = self.it.vkind(lf.local_ty(1).s); kout = self.it.vkind(lf.local_ty(0).s)
                if kin and kout and kin != kout:
                    r = []
                    for a in an.snap(vals[0], st): r.append(('op', 'SYN' if kout == 'ParsedValue' else 'VALOF', (A.V(a),)))
                    return frozenset(r)
            if last in ('coerce_mapped_value', 'extract_mapped_value', 'coerce_nominal_value') and len(vals) == 1:
                sn = an.snap(vals[0], st)
                if all(a[0] == 'agg' for a in sn): return None
                return A.V(('op', 'COERCE', (sn,)))
            if nn.split('::')[-1] in ('find_index_by_key_sorted', 'find_index_by_key_unsorted'):
                e = ('op', last, tuple(an.snap(v, st) for v in vals[:3]))
                return A.V(A.some(A.V(e)), A.NONE)
            if last == 'get_value_by_name':
                return A.V(A.ok(A.V(('op', 'LOOKUP', tuple(an.snap(v, st) for v in vals)))), A.err(A.V(('op', 'unbound', ()))))
            if last in ('new_debug', 'new_display', 'format', 'to_string') or nn.startswith('Arguments'): return A.V(('op', 'text', ()))
            if last == 'unwrap_usize' and lf is not None and len(vals) == 1:
                sn = an.snap(vals[0], st)
                if any(a[0] != 'agg' for a in sn): return A.V(('op', 'USIZE', (sn,)))
            if nn in BAR: return A.V(('op', nn, tuple(an.snap(v, st) for v in vals)))
            if nn.endswith('::eval') and lf is not None and 'numeric' in lf.file: return A.V(A.ok(A.V(('agg', 'numeric::NumValue', 'Const', (A.V(('op', 'NUM', tuple(an.snap(v, st) for v in vals))),)))), A.err(A.V(('op', 'NUMERR', ()))))
            if extra: return extra(an, name, nn, vals, targs, st, site, f, bb, line)
        an = A.Analysis(self.prog, model=model, barrier=lambda n, nn: nn in I.BARRIER)
        an.keep_index = 'acc'
        try: r = an.run(self.fns[located], [C.variant_value(self.adt, vn, fields=fields), C.sym('scope')])
        except A.Diverge: r = None
        return an, (r[0] if r else None)
    def expr_fields(self, vn):
        """indices of the fields holding one nested expression"""
        out = []
        for f in self.fields[vn]:
            t = self.prog.ty(self.adt.get('crate', 'doodle-lib'), f[1]).s if isinstance(f[1], int) else str(f[1])
            if t.startswith(('std::boxed::Box<', 'alloc::boxed::Box<', 'Box<')) and t.split('<')[1].split('>')[0].split(',')[0].split('::')[-1] == 'Expr': out.append(f[0])
        return out
