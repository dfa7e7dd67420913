"""Shared value-flow summaries of the two format interpreters (`Decoder::parse`, `Decoder::parse_with_loc`).

One abstract run per Decoder variant.  Cursors are linear tokens: the entry cursor is CUR0; a consuming call
(recursive parse or a ReadCtxt read) turns the token it was given into its stale counterpart everywhere in the
abstract state and yields a fresh token, so a cursor that was not threaded is visible at its next use.
"""
import absint as A
from mir import norm

STALE = {'CUR0': 'ENTRY', 'CUR': 'OLD', 'VIEW': 'OVIEW', 'VCUR': 'VOLD', 'NCUR': 'NOLD', 'PCUR': 'POLD', 'SCUR': 'SOLD',
         'NEW': 'ONEW'}
READS = {'read_byte': 1, 'read_u16be': 2, 'read_u32be': 4, 'read_u64be': 8, 'read_u16le': 2, 'read_u32le': 4, 'read_u64le': 8}

_memo = {}
def subst(v, mp):
    return frozenset(subst_atom(a, mp) for a in v)
def subst_atom(a, mp):
    key = (a, mp)
    r = _memo.get(key)
    if r is not None: return r
    k = a[0]
    if k == 'sym':
        r = a
        for f, t in mp:
            if a[1] == f: r = ('sym', t, a[2]); break
    elif k == 'agg': r = ('agg', a[1], a[2], tuple(subst(x, mp) for x in a[3]))
    elif k in ('op', 'clo'): r = (k, a[1], tuple(subst(x, mp) for x in a[2]))
    elif k == 'vec': r = ('vec', subst(a[1], mp))
    elif k == 'dsc': r = ('dsc', subst_atom(a[1], mp), a[2])
    else: r = a
    if len(_memo) > 300000: _memo.clear()
    _memo[key] = r
    return r

def subst_state(st, mp):
    for k, v in list(st.items()):
        if k == 'G': st[k] = frozenset((subst_atom(a, mp), l) for a, l in v)
        elif isinstance(v, frozenset): st[k] = subst(v, mp)

def cut(v):
    """bound the nesting of accumulated lambda applications"""
    return frozenset(cut_atom(a) for a in v)
def cut_atom(a):
    if a[0] == 'op' and a[1] == 'LAMBDA': return ('op', 'LAMBDA*', (a[2][0],))
    if a[0] == 'agg': return ('agg', a[1], a[2], tuple(cut(f) for f in a[3]))
    if a[0] == 'op': return ('op', a[1], tuple(cut(f) for f in a[2]))
    if a[0] == 'vec': return ('vec', cut(a[1]))
    return a

def chain(a):
    """which cursor chain an atom belongs to"""
    if a[0] == 'sym':
        n = a[1]
        if n in ('VIEW', 'OVIEW', 'VCUR', 'VOLD'): return 'V'
        if n in ('NEW', 'ONEW', 'NCUR', 'NOLD'): return 'N'
        if n in ('PCUR', 'POLD'): return 'P'
        if n in ('SCUR', 'SOLD'): return 'S'
        return ''
    if a[0] == 'op':
        if a[1] == 'PREFIX': return 'P'
        if a[1] == 'SEEK': return 'S'
        if a[1] in ('AFTER', 'END') and a[2][0]: return chain(sorted(a[2][0], key=repr)[0])
    return ''

def S(n, *path): return ('sym', n, tuple(path))

class TokenAnalysis(A.Analysis):
    def widen(self, o, j, key, hard):
        return A.Analysis.widen(self, collapse_v(o), collapse_v(j), key, hard)

class Interp:
    def __init__(self, prog, located):
        self.prog = prog; self.located = located
        self.fnname = 'Decoder::parse_with_loc' if located else 'Decoder::parse'
        self.fn = prog.one(self.fnname)
        ds = [a for a in prog.adt_by_short('Decoder')]
        self.dec = next((a for a in ds if any(v['n'] == 'Branch' for v in a['v'])), None)
        self.witherr = next((p for p in prog.adts if p.split('::')[-1] == 'WithErr'), 'WithErr')
        self.readctxt = next((p for p in prog.adts if p.split('::')[-1] == 'ReadCtxt'), 'ReadCtxt')

    def variants(self): return self.dec['v']

    def model(self, an, name, nn, vals, targs, st, site, fn, bb, line):
        last = nn.split('::')[-1]; ty = nn.split('::')[0]
        sn = [an.snap(v, st) for v in vals]
        if nn in ('Decoder::parse', 'Decoder::parse_with_loc') and len(vals) == 4:
            arg = sn[3]
            who = sn[0]
            mp = tuple(sorted(set((a[1], STALE[a[1]]) for a in arg if a[0] == 'sym' and not a[2] and a[1] in STALE)))
            mp = mp + ERR_RENAME
            isfirst = st.get('EMPTY')
            # warnings already collected become incomplete until this call's warnings are merged in
            collapse_state(st)
            subst_state(st, mp)
            who = subst(who, mp)
            ch = set(chain(a) for a in arg) or {''}
            cur = A.V(*[S((c + 'CUR') if c else 'CUR') for c in ch])
            errs = frozenset(S('E:all') if a[1] == 'E:all' else S('E:cur') for a in isfirst)
            if self.mode == 'values':
                val = A.V(('op', 'VAL', (who, errs))); errs = A.V(('op', 'warn', ()))
            else: val = A.V(('op', 'VAL', (who,)))
            e = A.V(('op', 'PERR', (who, errs)))
            good = A.ok(A.V(('agg', self.witherr, 'WithErr', (A.V(A.tup(val, cur)), errs))))
            f = self.force.get('parse')
            if f == 'ok': return A.V(good)
            if f == 'err': return A.V(A.err(e))
            return A.V(good, A.err(e))
        if nn in ('Vec::new', 'Vec::with_capacity') and (norm(fn.name).startswith('WithErr::') or (targs and targs[0].s.split('<')[0].split('::')[-1] in ('DecodeErrorKind', 'DecodeError'))):
            return A.V(('vec', st.get('EMPTY', A.EMPTY) if self.mode != 'values' else A.EMPTY))
        if self.mode == 'values' and nn in ('Vec::new', 'Vec::with_capacity') and targs and targs[0].s.split('<')[0].split('::')[-1] in ('Value', 'ParsedValue'):
            return A.V(('vec', st.get('EMPTY', A.EMPTY)))
        # value conversions between the located and the plain representation
        if an.local(name) is not None and len(vals) == 1 and not nn.startswith('<Cow') and last not in ('clone', 'to_owned'):
            kin = self.vkind(an.local(name).local_ty(1).s); kout = self.vkind(an.local(name).local_ty(0).s)
            if kin and kout and kin != kout: return A.V(('op', 'SYN' if kout == 'ParsedValue' else 'VALOF', (sn[0],)))
            if kin == 'ParsedValue' and an.local(name).local_ty(0).s.split('::')[-1] == 'ParseLoc': return A.V(('op', 'LOCOF', (sn[0],)))
        if nn == 'ParsedValue::translate' and len(vals) == 2:
            an.store_through(vals[0], [], A.V(('op', 'LOC', (sn[0], sn[1]))), st)
            return A.V(A.UNIT)
        if ty == 'ReadCtxt':
            if last == 'split_at': return A.V(A.some(A.V(A.tup(A.mkop('PREFIX', sn[0], sn[1]), A.mkop('AFTER', sn[0], sn[1])))), A.NONE)
            if last == 'seek_to': return A.V(A.some(A.mkop('SEEK', sn[0], sn[1])), A.NONE)
            if last == 'skip_remainder': return A.mkop('END', sn[0])
            if last == 'remaining': return A.mkop('REST', sn[0])
            if last == 'new': return A.V(S('NEW'))
            if last in READS:
                arg = sn[0]
                mp = tuple(sorted(set((a[1], STALE[a[1]]) for a in arg if a[0] == 'sym' and not a[2] and a[1] in STALE)))
                if mp: subst_state(st, mp)
                ch = set(chain(a) for a in arg) or {''}
                cur = A.V(*[S((c + 'CUR') if c else 'CUR') for c in ch])
                got = A.some(A.V(A.tup(A.V(('op', 'READ:' + last, ())), cur)))
                if self.mode == 'values':
                    mp2 = ERR_RENAME; isfirst = st.get('EMPTY', A.EMPTY)
                    collapse_state(st); subst_state(st, mp2)
                    tok = frozenset(S('E:all') if a[1] == 'E:all' else S('E:cur') for a in isfirst)
                    got = A.some(A.V(A.tup(A.V(('op', 'READ:' + last, (tok,))), cur)))
                f = self.force.get('read')
                if f is not None: return A.V(got) if f else A.V(A.NONE)
                return A.V(got, A.NONE)
        if ty == 'Expr' and last.startswith('eval') and last in EVALS:
            return A.V(('op', EVALS[last], tuple([sn[0], sn[1]] + [cut(x) for x in sn[2:]])))
        if nn in ('Decoder::eval_view_expr', 'Decoder::eval_view_expr_with_loc'):
            return A.V(A.ok(A.V(S('VIEW'))), A.err(A.V(('op', 'VERR', (sn[1],)))))
        if self.force.get('len') is not None and last == 'len' and len(vals) == 1 and self.is_accum(sn[0]):
            return A.V(('int', self.force['len']))
        if nn == 'MatchTree::matches':
            f = self.force.get('tree')
            if f == 'none': return A.V(A.NONE)
            if f is not None: return A.V(A.some(A.V(('int', f))))
            return A.V(A.some(A.V(('op', 'TREE', (sn[0],)))), A.NONE)
        if nn == 'ByteSet::contains':
            f = self.force.get('contains')
            return A.V(('int', f)) if f is not None else A.V(('op', 'contains', (sn[0], sn[1])))
        if ty in ('DecodeErrorKind', 'DecodeError') and last != 'with_trace':
            return A.V(('op', 'ERR:' + last, tuple(sn)))
        if last == 'with_trace' and sn: return sn[0]
        if ty in ('Value', 'ParsedValue') and len(vals) == 1 and an.local(name) is not None:
            rt = an.local(name).local_ty(0).s
            if rt == 'bool' and self.force.get('bool') is not None and any(a[0] == 'op' and a[1] in ('EVAL', 'LAMBDA') for a in sn[0]):
                return A.V(('int', self.force['bool']))
            if rt == 'usize' and self.force.get('usize'):
                for a in sn[0]:
                    if a[0] == 'op' and a[1] == 'EVAL' and len(a[2][0]) == 1:
                        x = next(iter(a[2][0]))
                        if x[0] == 'sym' and x[2] and x[2][0] in self.force['usize']: return A.V(('int', self.force['usize'][x[2][0]]))
            if rt in ('usize', 'bool', 'u8', 'u32', 'u64', 'char'): return A.V(('op', rt, (sn[0],)))
        if last in ('make_huffman_codes', 'value_to_vec_usize') or nn == 'Compiler::compile_one':
            return A.V(('op', last, tuple(sn))) if last != 'compile_one' else A.V(A.ok(A.V(('op', 'compile_one', tuple(sn)))))
        if nn in ('fmt::format', 'ToString::to_string') or last in ('to_string', 'new_debug', 'new_display', 'format_err'):
            return A.V(('op', 'text', ()))
        if nn.startswith('Arguments::'): return A.V(('op', 'text', ()))
        if last in ('loc', 'max_level', 'log') and ('private_api' in nn or 'log::' in nn): return A.V(('op', 'log', ()))
        return None

    def is_accum(self, v):
        return any(a[0] in ('vec', 'phi') or (a[0] == 'op' and a[1] in ('push', 'extend')) or (a[0] == 'sym' and a[1] in COV) for a in v)

    def vkind(self, ty):
        t = ty.replace("&'{erased} ", '&').lstrip('&').strip()
        if t.startswith('std::borrow::Cow<'): t = t[len('std::borrow::Cow<'):].split(',')[-1].strip(' >')
        t = t.split('::')[-1]
        return t if t in ('Value', 'ParsedValue') else None

    def run(self, variant, force=None, fields=None, mode=None):
        self.force = force or {}; self.mode = mode
        an = TokenAnalysis(self.prog, model=self.model, barrier=lambda n, nn: nn in BARRIER)
        fields = fields or {}
        selfv = A.V(('agg', self.dec['adt'], variant['n'], tuple(fields.get(f[0]) or A.V(S('self', variant['n'] + '.' + f[0])) for f in variant['f'])))
        st = {'G': frozenset(), 'EMPTY': A.V(S('E:all'))}
        try:
            r = an.run(self.fn, [selfv, A.V(S('program')), A.V(S('scope')), A.V(S('CUR0'))], st)
        except A.Diverge: r = None
        return an, r

ERR_RENAME = (('E:all', 'E:old'), ('E:cur', 'E:none'), ('E:old', 'E:none'))
COV = {'E:all': frozenset(('old', 'cur')), 'E:old': frozenset(('old',)), 'E:cur': frozenset(('cur',)), 'E:none': frozenset()}
TOK = {v: k for k, v in COV.items()}

def has_tok(a):
    if a[0] == 'sym': return a[1] in COV
    if a[0] == 'agg': return a[1] == 'array' and any(has_tok(x) for f in a[3] for x in f)
    if a[0] == 'op': return a[1] in LISTOPS and any(has_tok(x) or elem_tok(x) for f in a[2] for x in f)
    if a[0] == 'vec': return any(has_tok(x) or elem_tok(x) for x in a[1])
    return False
def elem_tok(a):
    if a[0] == 'sym': return a[1] in COV
    if a[0] == 'agg': return any(elem_tok(x) for f in a[3] for x in f)
    if a[0] == 'op' and (a[1] == 'VAL' or a[1].startswith('READ:')): return any(elem_tok(x) for f in a[2] for x in f)
    return False
LISTOPS = ('extend', 'push', 'PERR', 'iter', 'elem', 'chain', 'map', 'rev', 'SYN', 'VALOF')
def cov_v(v):
    '''set of possible coverages of a warning list value (one per alternative)'''
    out = set()
    for a in v: out |= cov_a(a)
    return out or {frozenset()}
def cross(sets):
    out = {frozenset()}
    for s in sets: out = {x | y for x in out for y in s}
    return out
def cov_a(a):
    if a[0] == 'sym': return {COV.get(a[1], frozenset())}
    if a[0] == 'vec':
        # a vector holds every element ever stored: union over stored alternatives
        u = frozenset()
        opts = [cov_a(x) for x in a[1]]
        return cross(opts) if opts else {frozenset()}
    if a[0] == 'agg' and a[1] == 'array': return cross([cov_v(f) for f in a[3]])
    if a[0] == 'op' and a[1] == 'PERR': return cov_v(a[2][1])
    if a[0] == 'op' and a[1] == 'VAL' and len(a[2]) == 2: return cov_v(a[2][1])
    if a[0] == 'op' and a[1].startswith('READ:') and a[2]: return cov_v(a[2][0])
    if a[0] == 'agg' and elem_tok(a): return cross([cov_v(frozenset(x for x in f if elem_tok(x))) for f in a[3] if any(elem_tok(x) for x in f)])
    if a[0] == 'op' and a[1] in LISTOPS: return cross([cov_v(f) for f in a[2]])
    return {frozenset()}

def collapse_v(v):
    out = []
    for a in v:
        if a[0] in ('vec', 'op') and (a[0] == 'vec' or a[1] in ('extend', 'push')) and has_tok(a):
            out.extend(S(TOK[c]) for c in cov_a(a))
        elif a[0] == 'agg':
            if a[1] == 'array' and has_tok(a): out.extend(S(TOK[c]) for c in cov_a(a))
            else: out.append(('agg', a[1], a[2], tuple(collapse_v(f) for f in a[3])))
        elif a[0] == 'clo': out.append(('clo', a[1], tuple(collapse_v(f) for f in a[2])))
        else: out.append(a)
    return frozenset(out)
def collapse_state(st):
    for k, v in list(st.items()):
        if k != 'G' and isinstance(v, frozenset): st[k] = collapse_v(v)

EVALS = {'eval': 'EVAL', 'eval_value': 'EVAL', 'eval_with_loc': 'EVAL', 'eval_value_with_loc': 'EVAL',
         'eval_lambda': 'LAMBDA', 'eval_lambda_with_loc': 'LAMBDA'}
BARRIER = {'Value::matches', 'ParsedValue::matches', 'Value::matches_inner', 'ParsedValue::matches_inner'}

def cursor_nf(a):
    """normal form of a cursor atom as a string"""
    if a[0] == 'sym' and not a[2]:
        n = a[1]
        return {'CUR0': 'fresh', 'ENTRY': 'entry', 'CUR': 'cur', 'VIEW': 'view', 'VCUR': 'vcur', 'NEW': 'new', 'NCUR': 'ncur',
                'PCUR': 'pcur', 'SCUR': 'scur'}.get(n, 'stale:%s' % (n,))
    if a[0] == 'op' and a[1] in ('PREFIX', 'AFTER', 'SEEK', 'END'):
        return '%s(%s)' % (a[1].lower(), ','.join('|'.join(sorted(cursor_nf(x) for x in a[2][0])) if i == 0 else show(a[2][i]) for i in range(len(a[2]))))
    if a[0] == 'agg' and a[1].split('::')[-1] == 'ReadCtxt' and len(a[3]) == 2:
        return struct_cursor(a)
    return show(A.V(a))

def struct_cursor(a):
    inp, off = a[3]
    if len(inp) == 1 and len(off) == 1:
        i = next(iter(inp)); o = next(iter(off))
        if i[0] == 'sym' and i[2][-1:] == ('input',):
            base = ('sym', i[1], i[2][:-1])
            if o == ('sym', i[1], base[2] + ('offset',)): return cursor_nf(base)
            if o[0] == 'op' and o[1] == 'Add' and A.V(('sym', i[1], base[2] + ('offset',))) == o[2][0]:
                return 'after(%s,%s)' % (cursor_nf(base), show(o[2][1]))
            if o[0] == 'op' and o[1] == 'len' and o[2][0] == inp: return 'end(%s)' % cursor_nf(base)
    return show(A.V(a))

def show(v, d=0):
    def at(a):
        k = a[0]
        if k == 'sym':
            r = a[1]
            if isinstance(r, tuple):
                r = r[2] if r[0] == 'ret' else str(r[0])
            return str(r) + ''.join('.' + x for x in a[2])
        if k == 'agg':
            nm = a[1].split('::')[-1]
            return '%s(%s)' % ((nm + '::' + a[2]) if a[2] and a[2] != nm else nm, ', '.join(show(x, d + 1) for x in a[3]))
        if k == 'op': return '%s[%s]' % (a[1], ', '.join(show(x, d + 1) for x in a[2]))
        if k == 'vec': return 'vec[%s]' % show(a[1], d + 1)
        if k == 'int': return str(a[1])
        if k == 'str': return repr(a[1])
        if k == 'clo': return 'clo'
        if k == 'phi': return 'phi'
        if k == 'dsc': return 'dsc[%s]' % show(A.V(a[1]), d + 1)
        if k == 'fn': return 'fn:' + norm(a[1])
        return str(k)
    if d > 12: return '..'
    return '|'.join(sorted(set(at(a) for a in v)))

def ok_results(r):
    """[(value, cursor set, errs set)] of the successful results; everything else in (errors, unknown)"""
    oks = []; errs = []; unk = []
    for a in r:
        if a[0] == 'agg' and a[2] == 'Ok':
            for w in a[3][0]:
                if w[0] == 'agg' and w[1].split('::')[-1] == 'WithErr':
                    for t in w[3][0]:
                        if t[0] == 'agg' and t[1] == 'tuple' and len(t[3]) == 2: oks.append((t[3][0], t[3][1], w[3][1]))
                        else: unk.append(t)
                else: unk.append(w)
        elif a[0] == 'agg' and a[2] == 'Err': errs.append(a[3][0])
        else: unk.append(a)
    return oks, errs, unk

PARSE = ('Decoder::parse', 'Decoder::parse_with_loc')
class Summary:
    """what one abstract run says about a Decoder variant"""
    def __init__(self, an, r):
        self.an = an
        self.parses = []; self.trees = []; self.views = []; self.evals = []; self.news = []; self.index = []
        for e in an.events.values():
            if e.callee in PARSE: self.parses.append((e.args[0], e.args[1], e.args[2], e.args[3], e))
            elif e.callee == 'MatchTree::matches': self.trees.append((e.args[0], e.args[1], e))
            elif e.callee == 'ReadCtxt::new': self.news.append(e)
            elif e.callee.startswith('Expr::eval'): self.evals.append(e)
            elif 'Index' in e.callee and e.callee.endswith('::index'): self.index.append(e)
        self.ok, self.err, self.unk = ok_results(r[0]) if r else ([], [], [])
    def starts(self):
        d = {}
        for who, _, _, cur, _ in self.parses:
            d.setdefault(show(who), set()).update(cursor_nf(a) for a in cur)
        return d
    def results(self):
        out = set()
        for _, c, _ in self.ok: out |= set(cursor_nf(a) for a in c)
        return out
    def tree_pos(self):
        out = set()
        for t, c, _ in self.trees: out |= set(cursor_nf(a) for a in c)
        return out
    def values(self):
        out = set()
        for v, _, _ in self.ok: out |= v
        return frozenset(out)
    def cov(self):
        out = set()
        for _, _, e in self.ok: out |= cov_v(e)
        return out

# ---------------------------------------------------------------- canonical (location-erased) form
NAMES = {'ParsedValue': 'Value', 'ViewOrParsedValue': 'ViewOrValue'}
def base_name(n):
    n = n.split('::')[-1]
    if n.startswith('Loc') and n[3:4].isupper(): n = n[3:]
    return NAMES.get(n, n)

_BITS = {'bool': 1, 'u8': 8, 'u16': 16, 'u32': 32, 'char': 32, 'usize': 64, 'u64': 64, 'u128': 128}
def lossless(op):
    """a conversion that never changes the number"""
    import re
    m = re.fullmatch(r'cast:(\w+)->(\w+)', op)
    if m: return m.group(1) in _BITS and m.group(2) in _BITS and _BITS[m.group(1)] <= _BITS[m.group(2)]
    m = re.fullmatch(r'(?:.*::)?(u8|u16|u32|u64|usize|u128)::from', op)
    return bool(m)

class Canon:
    def __init__(self, prog):
        self.parsed = next((a for p, a in prog.adts.items() if p.split('::')[-1] == 'Parsed'), None)
        self.inner = 1
        if self.parsed:
            for i, f in enumerate(self.parsed['v'][0]['f']):
                if f[0] == 'inner': self.inner = i
        self.memo = {}
    def erase(self, v):
        out = set()
        for a in v: out |= self.erase1(a)
        return frozenset(out)
    def erase1(self, a):
        r = self.memo.get(a)
        if r is not None: return r
        k = a[0]
        if k == 'agg':
            nm = base_name(a[1]); var = a[2]
            if nm == 'Parsed' and len(a[3]) == 2: r = self.erase(a[3][self.inner])
            elif nm == 'Value' and var == 'Flat' or nm == 'Cow' and a[3] or nm == 'SeqKind' and var == 'Strict' and a[3]: r = self.erase(a[3][0])
            else:
                if nm == 'ViewOrValue': var = {'ParsedValue': 'Value'}.get(var, var)
                r = frozenset([('agg', nm, var, tuple(self.erase(f) for f in a[3]))])
        elif k == 'op':
            if a[1] in ('SYN', 'VALOF', 'LOC', '.inner'): r = self.erase(a[2][0])
            else:
                r = None
                if a[1] == '.0' and len(a[2][0]) == 1:
                    x = next(iter(a[2][0]))
                    if x[0] == 'op' and x[1] == '#Flat': r = self.erase(x[2][0])
                if r is None: r = frozenset([('op', a[1], tuple(self.erase(f) for f in a[2]))])
        elif k == 'vec': r = frozenset([('vec', self.erase(a[1]))])
        else: r = frozenset([a])
        self.memo[a] = r
        return r
    def v(self, v, d=0):
        """canonical string of a value"""
        if d == 0: v = self.erase(v)
        if len(v) > 1: v = frozenset(a for a in v if a[0] != 'phi') or v
        if d > 14: return '..'
        v = self.merge(v)
        lists = [a for a in v if self.is_list(a)]
        out = set()
        if lists:
            e = set()
            arr = set()
            for a in lists:
                if a[0] == 'agg' and a[1] == 'array' and len(a[3]) > 1: arr.add('ARR(%s)' % ', '.join(self.v(f, d + 1) for f in a[3]))
                else: e |= self.elems(a, d + 1)
            if arr: out |= arr
            if e or not arr: out.add('LIST{%s}' % '|'.join(sorted(e)))
        for a in v:
            if not self.is_list(a): out |= self.atom(a, d)
        return '|'.join(sorted(out))
    def merge(self, v):
        g = {}; out = []
        for a in v:
            if a[0] == 'agg': k = a[:3] + (len(a[3]),)
            elif a[0] == 'op' and a[1] in ('LAMBDA', 'SYN', 'VALOF'): k = (a[0], a[1], len(a[2]), a[2][0] if a[1] == 'LAMBDA' else 0)
            else: out.append(a); continue
            g.setdefault(k, []).append(a)
        for k, xs in g.items():
            if len(xs) == 1: out.append(xs[0]); continue
            i = 3 if k[0] == 'agg' else 2
            fs = tuple(frozenset().union(*[x[i][j] for x in xs]) for j in range(len(xs[0][i])))
            out.append(xs[0][:i] + (fs,))
        return frozenset(out)
    def is_list(self, a):
        if a[0] == 'vec': return True
        if a[0] == 'agg' and (a[1] == 'array' or base_name(a[1]) == 'SeqKind' and a[2] == 'Strict'): return True
        if a[0] == 'agg' and a[2] == 'Vec': return True
        if a[0] == 'op' and a[1] in ('push', 'extend'): return True
        return False
    def elems(self, a, d):
        if a[0] == 'vec': return {x for x in self.v(a[1], d).split('|') if x and x != 'phi'} if not any(self.is_list(y) for y in a[1]) else {self.v(a[1], d)}
        if a[0] == 'agg' and a[1] == 'array':
            return {self.v(f, d) for f in a[3]}
        if a[0] == 'agg' and a[2] == 'Vec': return set()
        if a[0] == 'agg':
            r = set()
            for x in a[3][0]: r |= self.elems(x, d) if self.is_list(x) or x[0] == 'phi' else self.atom(x, d)
            return r
        if a[0] == 'op':
            r = set()
            for x in a[2][0]: r |= self.elems(x, d) if self.is_list(x) else (set() if x[0] in ('phi', 'top') or is_fromelem(x) else self.atom(x, d))
            r.add(self.v(a[2][1], d))
            return r
        return set()
    def atom(self, a, d):
        k = a[0]
        if k == 'agg':
            nm = base_name(a[1]); var = a[2]
            if nm == 'Parsed' and len(a[3]) == 2: return set([self.v(a[3][self.inner], d)])
            if nm == 'Value' and var == 'Flat' or nm == 'Cow' and a[3]: return set([self.v(a[3][0], d)])
            if nm == 'ViewOrValue': var = {'ParsedValue': 'Value'}.get(var, var)
            if nm == 'SeqKind' and var == 'Strict': return set([self.v(a[3][0], d)])
            return {'%s(%s)' % (nm + '::' + var if var and base_name(var) != nm else nm, ', '.join(self.v(f, d + 1) for f in a[3]))}
        if k == 'op':
            if a[1] in ('SYN', 'VALOF', 'LOC'): return set([self.v(a[2][0], d)])
            if a[1] == '.inner' : return set([self.v(a[2][0], d)])
            if a[1] == '.0' and len(a[2][0]) == 1:
                x = next(iter(a[2][0]))
                if x[0] == 'op' and x[1] == '#Flat': return set([self.v(x[2][0], d)])
            return {'%s[%s]' % (a[1], ', '.join(self.v(f, d + 1) for f in a[2]))}
        if k == 'sym':
            r = a[1]
            if isinstance(r, tuple):
                r = r[2] if r[0] == 'ret' else str(r[0])
            r = str(r)
            if '::' in r and not r.startswith('const:'): r = base_name(r.split('::')[0]) + '::' + '::'.join(r.split('::')[1:])
            return {r + ''.join('.' + x for x in a[2])}
        return {show(A.V(a))}
def is_fromelem(x): return x[0] == 'sym' and isinstance(x[1], tuple) and x[1][0] == 'ret' and x[1][2] == 'vec::from_elem'

_cache = {}
def summary(prog, located, variant, force=None, fields=None, mode=None, tag=None):
    key = (id(prog), located, variant['n'], repr(sorted((force or {}).items())), tag, mode)
    if key not in _cache:
        it = _cache.setdefault((id(prog), located), None) or Interp(prog, located)
        _cache[(id(prog), located)] = it
        an, r = it.run(variant, force, fields, mode)
        _cache[key] = (an, r, Summary(an, r))
    return _cache[key]
def variants(prog): return Interp(prog, False).variants()
