"""A reader for the expression and statement part of Rust's grammar: precedence, associativity and delimiters as the language reference gives them.
Trees: ('id', name) ('lit', text) ('bin', op, a, b) ('un', op, x) ('cast', x, type) ('try', x) ('field', x, name) ('method', x, name, args) ('call', f, args)
('index', x, i) ('range', a, b) ('tuple', xs) ('array', xs) ('repeat', x, n) ('struct', name, fields) ('macro', name, body) ('block', stmts, tail)
('if', c, a, b) ('match', x, arms) ('while', c, b) ('loop', b) ('for', name, x, b) ('closure', params, body) ('return', x) ('break',)"""
import re
TOK = re.compile(r'\s+|(?P<s>r#".*?"#|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.[^\']*)\'(?!\w))|(?P<n>\d[\w]*)|(?P<i>[A-Za-z_]\w*|\$\w+)|(?P<p>\.\.=|\.\.|::|=>|->|==|!=|<=|>=|<<|>>|&&|\|\||[-+*/%&|!<>=?.,;:(){}\[\]#])', re.S)
BIN = [('||',), ('&&',), ('==', '!=', '<', '>', '<=', '>='), ('|',), ('&',), ('<<', '>>'), ('+', '-'), ('*', '/', '%')]
class Bad(Exception): pass

def tokens(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise Bad('no token at %r' % s[i:i + 20])
        i = m.end(); k = m.lastgroup
        if k: out.append((k, m.group(k)))
    return out

class Parser:
    def __init__(self, s): self.t = tokens(s); self.i = 0
    def pk(self, d=0): return self.t[self.i + d][1] if self.i + d < len(self.t) else None
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def nx(self): self.i += 1; return self.t[self.i - 1][1] if self.i <= len(self.t) else None
    def ex(self, x):
        if self.nx() != x: raise Bad('%s expected, %s found' % (x, self.t[self.i - 1][1] if self.i <= len(self.t) else 'the end'))
    def end(self):
        if self.i != len(self.t): raise Bad('left over: %s' % ' '.join(x for _, x in self.t[self.i:self.i + 6]))
    def expr(self, ns=False):
        if self.pk() in ('return', 'break'):
            k = self.nx()
            if k == 'break': return ('break',)
            return ('return', self.expr(ns) if self.pk() not in (';', '}', ')', None) else None)
        if self.pk() in ('|', '||') : return self.closure()
        if self.pk() == '..': self.nx(); return ('range', None, self.bin(0, ns))
        a = self.bin(0, ns)
        if self.pk() == '..':
            self.nx()
            if self.pk() in (']', ')', ',', None) or (ns and self.pk() == '{'): return ('range', a, None)
            return ('range', a, self.bin(0, ns))
        return a
    def bin(self, lv, ns):
        if lv == len(BIN): return self.cast(ns)
        a = self.bin(lv + 1, ns); n = 0
        while self.pk() in BIN[lv] and self.kind() == 'p':
            op = self.nx(); n += 1
            if lv == 2 and n > 1: raise Bad('comparison operators cannot be chained')
            a = ('bin', op, a, self.bin(lv + 1, ns))
        return a
    def cast(self, ns):
        a = self.unary(ns)
        while self.pk() == 'as':
            self.nx(); a = ('cast', a, self.type())
            if self.pk() in ('<', '<<'): raise Bad('a cast followed by %s reads as a generic type' % self.pk())
        return a
    def type(self):
        out = []
        while self.pk() == '&': out.append(self.nx())
        out.append(self.nx())
        while self.pk() == '::': out += [self.nx(), self.nx()]
        return ''.join(out)
    def unary(self, ns):
        if self.kind() == 'p' and self.pk() in ('!', '*', '&', '-', '&&'):
            op = self.nx()
            if op == '&' and self.pk() == 'mut': self.nx(); op = '&mut'
            if op == '&&':
                m = '&'
                if self.pk() == 'mut': self.nx(); m = '&mut'
                return ('un', '&', ('un', m, self.unary(ns)))
            return ('un', op, self.unary(ns))
        if self.pk() in ('|', '||'): return self.closure()
        return self.post(self.atom(ns), ns)
    def post(self, a, ns):
        while True:
            t = self.pk()
            if t == '?': self.nx(); a = ('try', a)
            elif t == '.':
                self.nx(); n = self.nx()
                if self.pk() == '(': a = ('method', a, n, self.args(')'))
                else: a = ('field', a, n)
            elif t == '(': a = ('call', a, self.args(')'))
            elif t == '[':
                self.nx(); i = self.expr(); self.ex(']'); a = ('index', a, i)
            else: return a
    def args(self, close):
        self.nx(); out = []
        while self.pk() != close:
            out.append(self.expr())
            if self.pk() != close: self.ex(',')
        self.nx(); return tuple(out)
    def atom(self, ns):
        t, k = self.pk(), self.kind()
        if k == 'n' or k == 's': return ('lit', self.nx())
        if t == '(':
            self.nx()
            if self.pk() == ')': self.nx(); return ('tuple', ())
            a = self.expr()
            if self.pk() == ')': self.nx(); return a
            xs = [a]
            while self.pk() == ',':
                self.nx()
                if self.pk() == ')': break
                xs.append(self.expr())
            self.ex(')'); return ('tuple', tuple(xs))
        if t == '[':
            return ('array', self.args(']'))
        if t == '{': return self.block()
        if t == 'if':
            self.nx(); c = self.expr(True); a = self.block(); b = None
            if self.pk() == 'else': self.nx(); b = self.block() if self.pk() == '{' else self.atom(ns)
            return ('if', c, a, b)
        if t == 'while': self.nx(); c = self.expr(True); return ('while', c, self.block())
        if t == 'loop': self.nx(); return ('loop', self.block())
        if t == 'for':
            self.nx(); p = self.upto(('in',)); self.ex('in'); x = self.expr(True); return ('for', p, x, self.block())
        if t == 'match':
            self.nx(); x = self.expr(True); self.ex('{'); arms = []
            while self.pk() != '}':
                p = self.upto(('=>', 'if')); g = None
                if self.pk() == 'if': self.nx(); g = self.expr()
                self.ex('=>'); b = self.block() if self.pk() == '{' else self.expr()
                arms.append((p, g, b))
                if self.pk() == ',': self.nx()
            self.nx(); return ('match', x, tuple(arms))
        if k == 'i':
            n = self.nx()
            while self.pk() == '::': self.nx(); n += '::' + self.nx()
            if self.pk() == '!' and self.pk(1) in ('(', '['):
                self.nx(); o = self.nx(); c = {'(': ')', '[': ']'}[o]; self.i -= 1
                if n == 'matches':
                    self.nx(); x = self.expr(); self.ex(','); p = self.upto((')',)); self.ex(')'); return ('macro', n, (x, p))
                if n == 'vec':
                    self.nx()
                    if self.pk() == ']': self.nx(); return ('macro', n, ())
                    x = self.expr()
                    if self.pk() == ';': self.nx(); y = self.expr(); self.ex(']'); return ('macro', n, ('repeat', x, y))
                    xs = [x]
                    while self.pk() == ',':
                        self.nx()
                        if self.pk() == ']': break
                        xs.append(self.expr())
                    self.ex(']'); return ('macro', n, tuple(xs))
                return ('macro', n, self.args(c))
            if self.pk() == '{' and not ns and (self.pk(2) in (':', ',', '}') or self.pk(1) == '}') :
                self.nx(); fs = []
                while self.pk() != '}':
                    f = self.nx(); v = None
                    if self.pk() == ':': self.nx(); v = self.expr()
                    fs.append((f, v))
                    if self.pk() == ',': self.nx()
                self.nx(); return ('struct', n, tuple(fs))
            return ('id', n)
        raise Bad('no expression starts with %s' % t)
    def upto(self, ends):
        out = []; d = 0
        while self.pk() is not None and (d or self.pk() not in ends):
            t = self.nx(); d += (t in '([{') - (t in ')]}') if len(t) == 1 else 0; out.append(t)
        return ' '.join(out)
    def closure(self):
        if self.pk() == '||': self.nx(); ps = ''
        else: self.nx(); ps = self.upto(('|',)); self.ex('|')
        return ('closure', ps, self.expr())
    def block(self):
        self.ex('{'); r = self.stmts(('}',)); self.nx(); return r
    def stmts(self, ends):
        out = []; tail = None
        while self.pk() not in ends:
            if self.pk() == ';': self.nx(); continue
            if self.pk() == 'let':
                self.nx(); p = self.upto(('=',)); self.ex('='); x = self.expr(); self.ex(';'); out.append(('let', p, x)); continue
            # an expression that ends with a block is a statement of its own
            if self.pk() in ('if', 'match', 'while', 'loop', 'for', '{'):
                x = self.atom(False)
                if self.pk() in ends: tail = x; break
                if self.pk() in ('.', '?'): x = self.post(x, False)
                if self.pk() == ';': self.nx(); out.append(('do', x)); continue
                if self.pk() in ends: tail = x; break
                out.append(('do', x)); continue
            x = self.expr()
            if self.pk() == '=': self.nx(); y = self.expr(); self.ex(';'); out.append(('set', x, y)); continue
            if self.pk() in ends: tail = x; break
            self.ex(';'); out.append(('do', x))
        return ('block', tuple(out), tail)

def parse_expr(s):
    p = Parser(s); x = p.expr(); p.end(); return x
def parse_stmts(s):
    p = Parser(s); x = p.stmts((None,)); p.end(); return x
