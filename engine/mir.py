"""Loading of the MIR facts written by /verif/driver (one JSON object per line)."""
import json, os, re, sys

class Ty:
    __slots__ = ('id', 'k', 's', 'adt', 'a', 'd')
    def __init__(self, d):
        self.id = d['t']; self.k = d['k']; self.s = d['s']
        self.adt = d.get('adt'); self.a = d.get('a', []); self.d = d

class Fn:
    """One function body; the JSON is decoded on first use."""
    def __init__(self, prog, crate, line):
        self.prog = prog; self.crate = crate; self._line = line; self._d = None
    @property
    def d(self):
        if self._d is None:
            self._d = json.loads(self._line); self._line = None
        return self._d
    @property
    def name(self): return self.d['fn']
    @property
    def file(self): return self.d['file']
    @property
    def blocks(self): return self.d['blocks']
    @property
    def argc(self): return self.d['argc']
    def local_ty(self, i): return self.prog.ty(self.crate, self.d['locals'][i])
    def var_names(self):
        out = {}
        for n, p in self.d['names']:
            if len(p) == 1: out.setdefault(p[0], n)
        return out
    def loc(self, line=None): return '%s:%s' % (self.file, line if line else self.d['line'])
    def __repr__(self): return 'Fn(%s)' % self.name

_GEN = re.compile(r'<[^<>]*>')

def strip_generics(p):
    """Remove generic argument lists (::<..>) but keep `<impl X>` / `<A as B>` qualifiers."""
    out = []; i = 0; n = len(p); depth = 0
    while i < n:
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            # skip balanced
            j = i + 2; dep = 0
            while j < n:
                if p[j] == '<': dep += 1
                elif p[j] == '>' and p[j-1] != '-':
                    dep -= 1
                    if dep == 0: break
                j += 1
            i = j + 1; continue
        out.append(p[i]); i += 1
    return ''.join(out)

def _split_top(p):
    parts = []; cur = ''; dep = 0; i = 0
    while i < len(p):
        c = p[i]
        if c in '<({[': dep += 1
        if c in '>)}]' and not (c == '>' and i and p[i-1] == '-'): dep -= 1
        if dep == 0 and p.startswith('::', i):
            parts.append(cur); cur = ''; i += 2; continue
        cur += c; i += 1
    parts.append(cur)
    return parts

def short_ty(t):
    """Last path component of a type string without generics, references and lifetimes."""
    t = t.strip()
    t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    t = re.sub(r'^dyn ', '', t)
    if t.startswith('['): return '[]'
    if t.startswith('('): return '()'
    t = t.split('<')[0]
    return t.split('::')[-1]

def norm(p):
    """Crate-independent short name: `Type::method`, `<Type as Trait>::method`, `module::fn`,
    closures keep their suffix."""
    if '|' in p.split('<')[0] + '|' and '|' in p:
        p = p.split('|', 1)[1] if p.index('|') < (p.index('<') if '<' in p else 10**9) else p
    p = strip_generics(p)
    parts = _split_top(p)
    suffix = []
    while parts and parts[-1].startswith('{closure'):
        suffix.insert(0, parts.pop())
    if not parts: return p
    last = parts[-1]
    prev = parts[-2] if len(parts) > 1 else ''
    if prev.startswith('<impl '):
        inner = prev[6:-1]
        if ' for ' in inner:
            tr, ty = inner.split(' for ', 1)
            prev = '<%s as %s>' % (short_ty(ty), short_ty(tr))
        else:
            prev = short_ty(inner)
    elif prev.startswith('<') and ' as ' in prev:
        inner = prev[1:-1]
        dep = 0; k = None
        for i in range(len(inner)):
            c = inner[i]
            if c in '<([': dep += 1
            elif c in '>)]' and inner[i-1] != '-': dep -= 1
            elif dep == 0 and inner.startswith(' as ', i): k = i; break
        if k is not None:
            prev = '<%s as %s>' % (short_ty(inner[:k]), short_ty(inner[k+4:]))
    elif prev.startswith('<'):
        prev = short_ty(prev[1:-1])
    if prev == '[]': prev = 'slice'
    base = (prev + '::' if prev else '') + last
    return '::'.join([base] + suffix)

class Program:
    def __init__(self, facts_dir, crates):
        self.fns = {}; self.by_norm = {}; self.adts = {}; self._tys = {}; self.consts = {}
        self.counts = {}
        for c in crates:
            self._load(facts_dir, c)
    def _load(self, d, crate):
        path = os.path.join(d, crate + '.jsonl')
        if not os.path.exists(path):
            raise RuntimeError('facts for crate %s are missing (build failed?)' % crate)
        tys = {}; self._tys[crate] = tys; n = 0; ended = False
        with open(path) as f:
            for line in f:
                if line.startswith('{"fn":'):
                    m = json.JSONDecoder().raw_decode(line, 6)
                    name = m[0]
                    fn = Fn(self, crate, line)
                    k = name; i = 1
                    while k in self.fns:
                        i += 1; k = '%s#%d' % (name, i)
                    self.fns[k] = fn
                    self.by_norm.setdefault(norm(name), []).append(fn)
                    n += 1
                elif line.startswith('{"t":'):
                    t = Ty(json.loads(line)); tys[t.id] = t
                elif line.startswith('{"adt":'):
                    a = json.loads(line)
                    if a['adt'] not in self.adts or a['local']:
                        a['crate'] = crate; self.adts[a['adt']] = a
                elif line.startswith('{"const":'):
                    c = json.loads(line); c['crate'] = crate; self.consts[c['const']] = c
                elif line.startswith('{"end":'):
                    ended = True
        if not ended: raise RuntimeError('truncated facts for ' + crate)
        self.counts[crate] = n
    def ty(self, crate, i): return self._tys[crate][i]
    def adt(self, path): return self.adts.get(path)
    def adt_by_short(self, short):
        r = [a for p, a in self.adts.items() if p.split('::')[-1] == short and a['local']]
        return r
    def variants(self, short):
        r = self.adt_by_short(short)
        return [v['n'] for v in r[0]['v']] if r else []
    def find(self, n, file=None):
        """all functions with the given normalised name"""
        r = self.by_norm.get(n, [])
        if file: r = [f for f in r if f.file.endswith(file)]
        return r
    def one(self, n, file=None):
        r = self.find(n, file)
        return r[0] if len(r) == 1 else None
