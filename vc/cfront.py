"""Front end: a C subset (the one used by panels/core/src/*.cpp) -> IR."""
import re
import subprocess
from fractions import Fraction
from .ir import N, FuncDef, Module, Unsupported

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<num>(?:0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[fFlLuU]*)
 |(?P<id>[A-Za-z_]\w*(?:::[A-Za-z_]\w*)*)
 |(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')
 |(?P<op><<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|::|[-+*/%&|^~!<>=?:;,.(){}\[\]#])
''', re.X)

TYPES = {'void', 'int', 'double', 'float', 'long', 'char', 'unsigned', 'signed', 'short', 'size_t', 'bool', 'auto'}
QUAL = {'const', 'static', 'inline', 'extern', 'constexpr', 'register', 'volatile', '__restrict', 'restrict', 'constexpr'}


def load(path, name):
    src = open(path, encoding='utf-8', errors='replace').read()
    src = '\n'.join('' if re.match(r'\s*#\s*include', l) else l for l in src.split('\n'))
    r = subprocess.run(['cpp', '-undef', '-x', 'c++', '-'], input=src, capture_output=True, text=True)
    if r.returncode != 0:
        raise Unsupported('cpp failed: ' + r.stderr[:200])
    toks = []
    line = 1
    for l in r.stdout.split('\n'):
        m = re.match(r'#\s+(\d+)\s+"', l)
        if m:
            line = int(m.group(1))
            continue
        if re.match(r'\s*#', l):
            line += 1
            continue
        pos = 0
        while pos < len(l):
            m = TOK.match(l, pos)
            if not m:
                raise Unsupported('C token %r' % l[pos:pos + 20], line)
            pos = m.end()
            if m.lastgroup != 'ws':
                toks.append((m.lastgroup, m.group(), line))
        line += 1
    mod = Module(name, path, 'c')
    Parser(toks, mod).unit()
    return mod


class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.p = 0
        self.mod = mod

    def peek(self, o=0):
        i = self.p + o
        return self.t[i][1] if i < len(self.t) else None

    def kind(self, o=0):
        i = self.p + o
        return self.t[i][0] if i < len(self.t) else None

    def line(self):
        return self.t[min(self.p, len(self.t) - 1)][2] if self.t else 0

    def next(self):
        x = self.t[self.p][1]
        self.p += 1
        return x

    def expect(self, s):
        if self.peek() != s:
            raise Unsupported('C syntax: expected %r, found %r' % (s, self.peek()), self.line())
        self.p += 1

    def accept(self, s):
        if self.peek() == s:
            self.p += 1
            return True
        return False

    def is_type(self, o=0):
        return self.kind(o) == 'id' and (self.peek(o) in TYPES or self.peek(o) in QUAL)

    def base_type(self):
        names = []
        while self.is_type():
            x = self.next()
            if x not in QUAL:
                names.append(x)
        if not names:
            raise Unsupported('C type', self.line())
        if 'double' in names or 'float' in names:
            return 'double'
        if names == ['void']:
            return 'void'
        if names == ['bool']:
            return 'bint'
        return 'int'

    def unit(self):
        while self.p < len(self.t):
            if self.accept(';'):
                continue
            if self.peek() == 'extern' and self.kind(1) == 'str':
                self.next()
                self.next()
                if self.accept('{'):
                    while not self.accept('}'):
                        self.external()
                continue
            if self.peek() == 'namespace':
                self.next()
                if self.kind() == 'id':
                    self.next()
                self.expect('{')
                while not self.accept('}'):
                    self.external()
                continue
            self.external()

    def external(self):
        ln = self.line()
        ty = self.base_type()
        save = ty
        while self.accept('*'):
            ty += '*'
        while self.peek() in QUAL:
            self.next()
        name = self.next()
        if self.peek() == '(':
            self.next()
            params = []
            while not self.accept(')'):
                if self.peek() == 'void' and self.peek(1) == ')':
                    self.next()
                    continue
                pt = self.base_type()
                while self.accept('*') or self.peek() in QUAL or self.peek() == '&':
                    if self.t[self.p - 1][1] == '*':
                        pt += '*'
                    elif self.peek() == '&':
                        raise Unsupported('C++ reference parameter', self.line())
                    else:
                        self.next()
                pn = self.next() if self.kind() == 'id' else '_'
                while self.accept('['):
                    while not self.accept(']'):
                        self.next()
                    pt += '*'
                params.append((pn, pt, None))
                self.accept(',')
            if self.accept(';'):
                return
            if self.peek() == 'noexcept':
                self.next()
            body = self.block()
            fd = FuncDef(name, params, body, ln, self.mod, {}, ty)
            fd.lang = 'c'
            self.mod.funcs[name] = fd
            return
        # global variable (constant tables)
        self.p -= 1
        self.mod.toplevel.extend(self.decl_tail(save, ty, ln))

    def decl_tail(self, base, ty, ln):
        out = []
        while True:
            while self.accept('*'):
                ty += '*'
            while self.peek() in QUAL:
                self.next()
            name = self.next()
            dims = []
            while self.accept('['):
                dims.append(None if self.peek() == ']' else self.expr())
                self.expect(']')
            init = None
            if self.accept('='):
                init = self.initializer()
            elif self.peek() == '{':
                init = self.initializer()
            out.append(N('decl', ln, name=name, type=ty, dims=dims))
            if init is not None:
                if dims:
                    out.append(N('arrinit', ln, name=name, value=init))
                else:
                    out.append(N('assign', ln, targets=[N('name', ln, id=name)], value=init))
            if self.accept(','):
                ty = base
                continue
            self.expect(';')
            return out

    def initializer(self):
        ln = self.line()
        if self.accept('{'):
            xs = []
            while not self.accept('}'):
                xs.append(self.initializer())
                self.accept(',')
            return N('list', ln, xs=xs)
        return self.assign_expr()

    def block(self):
        self.expect('{')
        out = []
        while not self.accept('}'):
            out.extend(self.stmt())
        return out

    def body(self):
        if self.peek() == '{':
            return self.block()
        return self.stmt()

    def stmt(self):
        ln = self.line()
        p = self.peek()
        if p == '{':
            return self.block()
        if p == ';':
            self.next()
            return []
        if p == 'return':
            self.next()
            v = None if self.peek() == ';' else self.expr()
            self.expect(';')
            return [N('return', ln, value=v)]
        if p == 'break':
            self.next()
            self.expect(';')
            return [N('break', ln)]
        if p == 'continue':
            self.next()
            self.expect(';')
            return [N('continue', ln)]
        if p == 'if':
            self.next()
            self.expect('(')
            c = self.expr()
            self.expect(')')
            b = self.body()
            e = []
            if self.accept('else'):
                e = self.body()
            return [N('if', ln, test=c, body=b, orelse=e)]
        if p == 'while':
            self.next()
            self.expect('(')
            c = self.expr()
            self.expect(')')
            return [N('while', ln, test=c, body=self.body(), orelse=[])]
        if p == 'for':
            self.next()
            self.expect('(')
            init = []
            if self.is_type():
                b = self.base_type()
                init = self.decl_tail(b, b, ln)
            elif not self.accept(';'):
                init = self.expr_stmt()
                self.expect(';')
            c = N('const', ln, value=True) if self.peek() == ';' else self.expr()
            self.expect(';')
            step = [] if self.peek() == ')' else self.expr_stmt()
            self.expect(')')
            return [N('cfor', ln, init=init, test=c, step=step, body=self.body())]
        if p == 'switch':
            self.next()
            self.expect('(')
            c = self.expr()
            self.expect(')')
            self.expect('{')
            cases = []      # list of (list of labels / 'default', stmts)
            while not self.accept('}'):
                if self.accept('case'):
                    v = self.cond_expr()
                    self.expect(':')
                    cases.append((v, []))
                elif self.peek() == 'default':
                    self.next()
                    self.expect(':')
                    cases.append((None, []))
                else:
                    if not cases:
                        raise Unsupported('statement before case', ln)
                    cases[-1][1].extend(self.stmt())
            return [N('switch', ln, value=c, cases=cases)]
        if p in ('do', 'goto', 'try', 'struct', 'class'):
            raise Unsupported('C statement ' + p, ln)
        if self.is_type():
            b = self.base_type()
            return self.decl_tail(b, b, ln)
        out = self.expr_stmt()
        self.expect(';')
        return out

    def expr_stmt(self):
        out = []
        while True:
            ln = self.line()
            out.append(self.as_stmt(self.assign_expr(), ln))
            if not self.accept(','):
                return out

    def as_stmt(self, e, ln):
        if e.k in ('cassign',):
            if e.op == '=':
                tg = [e.l]
                v = e.r
                while v.k == 'cassign' and v.op == '=':
                    tg.append(v.l)
                    v = v.r
                return N('assign', ln, targets=tg, value=v)
            return N('aug', ln, op=e.op[:-1], target=e.l, value=e.r)
        if e.k == 'incdec':
            return N('aug', ln, op=e.op[0], target=e.x, value=N('num', ln, value=Fraction(1), isint=True))
        return N('expr', ln, value=e)

    # --- expressions
    def expr(self):
        return self.assign_expr()

    def assign_expr(self):
        ln = self.line()
        l = self.cond_expr()
        if self.peek() in ('=', '+=', '-=', '*=', '/=', '%='):
            op = self.next()
            r = self.assign_expr()
            return N('cassign', ln, op=op, l=l, r=r)
        return l

    def cond_expr(self):
        ln = self.line()
        c = self.binary(0)
        if self.accept('?'):
            a = self.assign_expr()
            self.expect(':')
            b = self.cond_expr()
            return N('ifexp', ln, test=c, a=a, b=b)
        return c

    LEVELS = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]

    def binary(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        l = self.binary(lv + 1)
        while self.peek() in self.LEVELS[lv] and self.kind() == 'op':
            ln = self.line()
            op = self.next()
            r = self.binary(lv + 1)
            if op in ('||', '&&'):
                l = N('bool', ln, op='or' if op == '||' else 'and', xs=[l, r])
            elif op in ('==', '!=', '<', '<=', '>', '>='):
                l = N('cmp', ln, ops=[op], xs=[l, r])
            else:
                l = N('bin', ln, op=op, l=l, r=r)
        return l

    def unary(self):
        ln = self.line()
        p = self.peek()
        if p == '-' or p == '+':
            self.next()
            return N('un', ln, op=p, x=self.unary())
        if p == '!':
            self.next()
            return N('un', ln, op='not', x=self.unary())
        if p == '*':
            self.next()
            return N('index', ln, obj=self.unary(), idx=[N('num', ln, value=Fraction(0), isint=True)])
        if p == '&':
            self.next()
            return N('addr', ln, x=self.unary())
        if p in ('++', '--'):
            self.next()
            return N('incdec', ln, op=p, x=self.unary(), pre=True)
        if p == '(' and self.is_type(1):
            self.next()
            ty = self.base_type()
            while self.accept('*'):
                ty += '*'
            self.expect(')')
            return N('cast', ln, type=ty, x=self.unary())
        if p == 'static_cast':
            self.next()
            self.expect('<')
            ty = self.base_type()
            self.expect('>')
            self.expect('(')
            e = self.expr()
            self.expect(')')
            return N('cast', ln, type=ty, x=e)
        return self.postfix()

    def postfix(self):
        ln = self.line()
        k = self.kind()
        if k == 'num':
            s = self.next().rstrip('fFlLuU') if not self.peek().startswith('0x') else self.next()
            isint = re.fullmatch(r'\d+|0[xX][0-9a-fA-F]+', s) is not None
            e = N('num', ln, value=Fraction(int(s, 0)) if isint else Fraction(s), isint=isint, text=s)
        elif k == 'id':
            nm = self.next()
            if nm in ('true', 'false'):
                e = N('const', ln, value=nm == 'true')
            else:
                e = N('name', ln, id=nm.replace('std::', ''))
        elif self.accept('('):
            e = self.expr()
            self.expect(')')
        else:
            raise Unsupported('C expression at %r' % self.peek(), ln)
        while True:
            if self.accept('('):
                args = []
                while not self.accept(')'):
                    args.append(self.assign_expr())
                    self.accept(',')
                e = N('call', ln, func=e, args=args, kwargs=[])
            elif self.accept('['):
                ix = self.expr()
                self.expect(']')
                e = N('index', ln, obj=e, idx=[ix])
            elif self.peek() in ('++', '--'):
                op = self.next()
                e = N('incdec', ln, op=op, x=e, pre=False)
            elif self.peek() in ('.', '->'):
                self.next()
                e = N('attr', ln, obj=e, attr=self.next())
            else:
                return e
