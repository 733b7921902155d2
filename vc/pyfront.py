"""Front end: CPython's ast -> IR.  Used for .py files."""
import ast
from fractions import Fraction
from .ir import N, FuncDef, ClassDef, Module, Unsupported


def load(path, name):
    src = open(path, encoding='utf-8', errors='replace').read()
    tree = ast.parse(src)
    mod = Module(name, path, 'py')
    c = Conv(mod)
    for s in c.stmts(tree.body):
        if s.k == 'funcdef':
            mod.funcs[s.d['func'].name] = s.d['func']
        elif s.k == 'classdef':
            mod.classes[s.d['cls'].name] = s.d['cls']
        else:
            mod.toplevel.append(s)
    return mod


BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in',
       ast.NotIn: 'not_in', ast.Is: 'is', ast.IsNot: 'is_not'}


class Conv:
    def __init__(self, mod):
        self.mod = mod

    def stmts(self, body):
        r = []
        for s in body:
            x = self.stmt(s)
            r.extend(x if isinstance(x, list) else [x])
        return r

    def stmt(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return N('unsupported', n.lineno, what=type(n).__name__)
        return m(n)

    def s_Pass(self, n):
        return []

    def s_Import(self, n):
        return [N('import', n.lineno, module=a.name, name=None, asname=a.asname or a.name.split('.')[0], level=0) for a in n.names]

    def s_ImportFrom(self, n):
        return [N('import', n.lineno, module=n.module or '', name=a.name, asname=a.asname or a.name, level=n.level) for a in n.names]

    def s_Assign(self, n):
        return N('assign', n.lineno, targets=[self.expr(t) for t in n.targets], value=self.expr(n.value))

    def s_AnnAssign(self, n):
        if n.value is None:
            return []
        return N('assign', n.lineno, targets=[self.expr(n.target)], value=self.expr(n.value))

    def s_AugAssign(self, n):
        return N('aug', n.lineno, op=BIN[type(n.op)], target=self.expr(n.target), value=self.expr(n.value))

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return []
        return N('expr', n.lineno, value=self.expr(n.value))

    def s_Return(self, n):
        return N('return', n.lineno, value=self.expr(n.value) if n.value is not None else None)

    def s_Continue(self, n):
        return N('continue', n.lineno)

    def s_Break(self, n):
        return N('break', n.lineno)

    def s_If(self, n):
        return N('if', n.lineno, test=self.expr(n.test), body=self.stmts(n.body), orelse=self.stmts(n.orelse))

    def s_For(self, n):
        return N('for', n.lineno, target=self.expr(n.target), iter=self.expr(n.iter), body=self.stmts(n.body), orelse=self.stmts(n.orelse))

    def s_While(self, n):
        return N('while', n.lineno, test=self.expr(n.test), body=self.stmts(n.body), orelse=self.stmts(n.orelse))

    def s_Raise(self, n):
        return N('raise', n.lineno, exc=self.expr(n.exc) if n.exc is not None else None)

    def s_Assert(self, n):
        return N('assert', n.lineno, test=self.expr(n.test))

    def s_Global(self, n):
        return N('global', n.lineno, names=list(n.names))

    def s_Delete(self, n):
        return N('del', n.lineno, targets=[self.expr(t) for t in n.targets])

    def s_With(self, n):
        return N('with', n.lineno, items=[(self.expr(i.context_expr), self.expr(i.optional_vars)) for i in n.items], body=self.stmts(n.body))

    def s_Try(self, n):
        hs = []
        for h in n.handlers:
            hs.append((self.expr(h.type), h.name, self.stmts(h.body)))
        return N('try', n.lineno, body=self.stmts(n.body), handlers=hs, orelse=self.stmts(n.orelse), final=self.stmts(n.finalbody))

    def s_FunctionDef(self, n):
        fd = self.func(n.name, n.args, self.stmts(n.body), n.lineno)
        fd.decorators = [self.expr(d) for d in n.decorator_list]
        return N('funcdef', n.lineno, func=fd)

    def func(self, name, a, body, line):
        params = []
        pos = list(a.posonlyargs) + list(a.args)
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for p, d in zip(pos, defaults):
            params.append((p.arg, None, self.expr(d)))
        fd = FuncDef(name, params, body, line, self.mod)
        fd.lang = 'py'
        fd.star = a.vararg.arg if a.vararg else None
        fd.starstar = a.kwarg.arg if a.kwarg else None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            params.append((p.arg, None, self.expr(d)))
        return fd

    def s_ClassDef(self, n):
        funcs = {}
        assigns = []
        for s in self.stmts(n.body):
            if s.k == 'funcdef':
                funcs[s.d['func'].name] = s.d['func']
            else:
                assigns.append(s)
        return N('classdef', n.lineno, cls=ClassDef(n.name, [self.expr(b) for b in n.bases], funcs, assigns, n.lineno, self.mod))

    # ------------------------------------------------------------------
    def expr(self, n):
        if n is None:
            return None
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return N('unsupported', n.lineno, what=type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return N('const', n.lineno, value=v)
        if isinstance(v, int):
            return N('num', n.lineno, value=Fraction(v), isint=True)
        if isinstance(v, float):
            return N('num', n.lineno, value=Fraction(repr(v)), isint=False, text=repr(v))
        if isinstance(v, complex) and v.real == 0:
            return N('bin', n.lineno, op='*', l=N('num', n.lineno, value=Fraction(repr(v.imag)), isint=False, text=repr(v.imag)),
                     r=N('imagunit', n.lineno))
        return N('unsupported', n.lineno, what='constant %r' % (v,))

    def e_Name(self, n):
        return N('name', n.lineno, id=n.id)

    def e_Attribute(self, n):
        return N('attr', n.lineno, obj=self.expr(n.value), attr=n.attr)

    def e_Subscript(self, n):
        ix = n.slice
        if isinstance(ix, ast.Tuple):
            idx = [self.expr(x) for x in ix.elts]
        else:
            idx = [self.expr(ix)]
        return N('index', n.lineno, obj=self.expr(n.value), idx=idx)

    def e_Slice(self, n):
        return N('slice', getattr(n, 'lineno', 0), lo=self.expr(n.lower), hi=self.expr(n.upper), step=self.expr(n.step))

    def e_Call(self, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(N('star', n.lineno, x=self.expr(a.value)))
            else:
                args.append(self.expr(a))
        kw = []
        for k in n.keywords:
            kw.append((k.arg, self.expr(k.value)))
        return N('call', n.lineno, func=self.expr(n.func), args=args, kwargs=kw)

    def e_BinOp(self, n):
        return N('bin', n.lineno, op=BIN[type(n.op)], l=self.expr(n.left), r=self.expr(n.right))

    def e_UnaryOp(self, n):
        op = {ast.USub: '-', ast.UAdd: '+', ast.Not: 'not', ast.Invert: '~'}[type(n.op)]
        return N('un', n.lineno, op=op, x=self.expr(n.operand))

    def e_Compare(self, n):
        return N('cmp', n.lineno, ops=[CMP[type(o)] for o in n.ops], xs=[self.expr(n.left)] + [self.expr(c) for c in n.comparators])

    def e_BoolOp(self, n):
        return N('bool', n.lineno, op='and' if isinstance(n.op, ast.And) else 'or', xs=[self.expr(v) for v in n.values])

    def e_IfExp(self, n):
        return N('ifexp', n.lineno, test=self.expr(n.test), a=self.expr(n.body), b=self.expr(n.orelse))

    def e_Tuple(self, n):
        return N('tuple', n.lineno, xs=[self.expr(x) for x in n.elts])

    def e_List(self, n):
        return N('list', n.lineno, xs=[self.expr(x) for x in n.elts])

    def e_Dict(self, n):
        return N('dict', n.lineno, items=[(self.expr(k), self.expr(v)) for k, v in zip(n.keys, n.values)])

    def e_Lambda(self, n):
        body = [N('return', n.lineno, value=self.expr(n.body))]
        return N('lambda', n.lineno, func=self.func('<lambda>', n.args, body, n.lineno))

    def e_JoinedStr(self, n):
        def spec(v):
            if not isinstance(v, ast.FormattedValue):
                return ''
            if v.conversion != -1:
                return None
            if v.format_spec is None:
                return ''
            xs = v.format_spec.values
            return ''.join(x.value for x in xs) if all(isinstance(x, ast.Constant) for x in xs) else None
        return N('fstr', n.lineno, specs=[spec(v) for v in n.values], xs=[self.expr(v.value) if isinstance(v, ast.FormattedValue) else self.expr(v) for v in n.values])

    def _comp(self, kind, elt, gens, line):
        return N('comp', line, kind=kind, elt=elt, gens=[(self.expr(g.target), self.expr(g.iter), [self.expr(i) for i in g.ifs]) for g in gens])

    def e_ListComp(self, n):
        return self._comp('list', self.expr(n.elt), n.generators, n.lineno)

    def e_GeneratorExp(self, n):
        return self._comp('list', self.expr(n.elt), n.generators, n.lineno)

    def e_SetComp(self, n):
        return self._comp('list', self.expr(n.elt), n.generators, n.lineno)

    def e_DictComp(self, n):
        return self._comp('dict', N('tuple', n.lineno, xs=[self.expr(n.key), self.expr(n.value)]), n.generators, n.lineno)

    def e_Set(self, n):
        return N('list', n.lineno, xs=[self.expr(x) for x in n.elts])
