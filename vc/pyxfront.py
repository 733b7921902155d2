"""Front end: Cython's own parser (untyped AST) -> IR.  Used for .pyx files."""
import sys
import os
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
from fractions import Fraction
from .ir import N, FuncDef, ClassDef, Module, Unsupported


def load(path, name):
    from Cython.Compiler.TreeFragment import parse_from_strings
    from Cython.Compiler import Errors
    src = open(path, encoding='utf-8', errors='replace').read()
    tree = parse_from_strings(name.replace('.', '_') + '_v', src)
    mod = Module(name, path, 'pyx')
    c = Conv(mod)
    for s in c.stmtlist(tree.body):
        if s.k == 'funcdef':
            mod.funcs[s.d['func'].name] = s.d['func']
        elif s.k == 'extern':
            mod.externs[s.d['name']] = s.d['header']
        elif s.k == 'decl':
            mod.toplevel.append(s)
            mod.decls[s.d['name']] = s.d['type']
        else:
            mod.toplevel.append(s)
    return mod


CMP = {'==': '==', '!=': '!=', '<': '<', '<=': '<=', '>': '>', '>=': '>=', 'in': 'in', 'not_in': 'not_in',
       'is': 'is', 'is_not': 'is_not'}


class Conv:
    def __init__(self, mod):
        self.mod = mod
        self.decls = [{}]

    def ln(self, n):
        return n.pos[1] if getattr(n, 'pos', None) else 0

    # ---------------------------------------------------------------- statements
    def stmtlist(self, n):
        if n is None:
            return []
        t = type(n).__name__
        if t == 'StatListNode':
            r = []
            for s in n.stats:
                r.extend(self.stmtlist(s))
            return r
        r = self.stmt(n)
        return r if isinstance(r, list) else [r]

    def ctype(self, base, decl):
        """type string and innermost name, array dims"""
        tn = type(base).__name__
        if tn == 'CSimpleBaseTypeNode':
            s = base.name or 'object'
            if getattr(base, 'longness', 0) and s == 'int':
                s = 'long'
        elif tn == 'MemoryViewSliceTypeNode':
            inner = base.base_type_node
            s = 'mv%d:%s' % (len(base.axes), getattr(inner, 'name', '?'))
        elif tn == 'CConstTypeNode':
            return self.ctype(base.base_type, decl)
        else:
            s = tn
        dims = []
        while True:
            dn = type(decl).__name__
            if dn == 'CNameDeclaratorNode':
                if decl.name == '' and tn == 'CSimpleBaseTypeNode':
                    return 'object', base.name, dims, decl.default
                return s, decl.name, dims, decl.default
            if dn == 'CPtrDeclaratorNode':
                s += '*'
                decl = decl.base
            elif dn == 'CArrayDeclaratorNode':
                dims.append(self.expr(decl.dimension) if decl.dimension is not None else None)
                decl = decl.base
            elif dn == 'CFuncDeclaratorNode':
                return s + '()', decl.base.name, dims, None
            else:
                raise Unsupported('declarator ' + dn)

    def stmt(self, n):
        t = type(n).__name__
        m = getattr(self, 's_' + t, None)
        if m is None:
            return N('unsupported', self.ln(n), what=t)
        return m(n)

    def s_PassStatNode(self, n):
        return []

    def s_CDefExternNode(self, n):
        out = []
        for s in self.stmtlist(n.body):
            if s.k == 'decl':
                out.append(N('extern', s.line, name=s.d['name'], header=n.include_file))
        return out

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            ty, name, dims, default = self.ctype(n.base_type, d)
            self.decls[-1][name] = ty
            out.append(N('decl', self.ln(n), name=name, type=ty, dims=dims))
            if default is not None:
                out.append(N('assign', self.ln(n), targets=[N('name', self.ln(n), id=name)], value=self.expr(default)))
        return out

    def s_CImportStatNode(self, n):
        return []

    def s_FromCImportStatNode(self, n):
        mn = str(n.module_name)
        out = []
        for x in n.imported_names:
            out.append(N('cimport', self.ln(n), module=mn, name=str(x[1]), asname=str(x[2] or x[1])))
        return out

    def s_FromImportStatNode(self, n):
        out = []
        mod = n.module.module_name.value if hasattr(n.module.module_name, 'value') else str(n.module.module_name)
        for nm, target in n.items:
            out.append(N('import', self.ln(n), module=str(mod), name=str(nm), asname=str(target.name), level=getattr(n.module, 'level', 0) or 0))
        return out

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            return N('import', self.ln(n), module=str(n.rhs.module_name.value), name=None, asname=str(n.lhs.name), level=0)
        return N('assign', self.ln(n), targets=[self.expr(n.lhs)], value=self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return N('assign', self.ln(n), targets=[self.expr(x) for x in n.lhs_list], value=self.expr(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return N('aug', self.ln(n), op=n.operator, target=self.expr(n.lhs), value=self.expr(n.rhs))

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ in ('UnicodeNode', 'StringNode', 'BytesNode', 'UnicodeNode', 'IdentifierStringNode'):
            return []
        if type(n.expr).__name__ == 'NameNode':
            return []
        return N('expr', self.ln(n), value=self.expr(n.expr))

    def s_ReturnStatNode(self, n):
        return N('return', self.ln(n), value=self.expr(n.value) if n.value is not None else None)

    def s_ContinueStatNode(self, n):
        return N('continue', self.ln(n))

    def s_BreakStatNode(self, n):
        return N('break', self.ln(n))

    def s_IfStatNode(self, n):
        els = self.stmtlist(n.else_clause)
        for c in reversed(n.if_clauses):
            els = [N('if', self.ln(c), test=self.expr(c.condition), body=self.stmtlist(c.body), orelse=els)]
        return els

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, 'sequence') else it
        return N('for', self.ln(n), target=self.expr(n.target), iter=self.expr(seq), body=self.stmtlist(n.body),
                 orelse=self.stmtlist(n.else_clause))

    def s_ForFromStatNode(self, n):
        return N('unsupported', self.ln(n), what='for-from')

    def s_WhileStatNode(self, n):
        return N('while', self.ln(n), test=self.expr(n.condition), body=self.stmtlist(n.body), orelse=self.stmtlist(n.else_clause))

    def s_GILStatNode(self, n):
        return self.stmtlist(n.body)

    def s_GILExitNode(self, n):
        return []

    def s_RaiseStatNode(self, n):
        return N('raise', self.ln(n), exc=self.expr(n.exc_type) if n.exc_type is not None else None)

    def s_AssertStatNode(self, n):
        return N('assert', self.ln(n), test=self.expr(getattr(n, 'condition', None) or n.cond))

    def s_GlobalNode(self, n):
        return N('global', self.ln(n), names=[str(x) for x in n.names])

    def s_DelStatNode(self, n):
        return []

    def s_ParallelWithBlockNode(self, n):
        return self.stmtlist(n.body)

    def s_WithStatNode(self, n):
        return N('with', self.ln(n), items=[(self.expr(n.manager), None)], body=self.stmtlist(n.body))

    def s_TryFinallyStatNode(self, n):
        return N('try', self.ln(n), body=self.stmtlist(n.body), handlers=[], orelse=[], final=self.stmtlist(n.finally_clause))

    def s_DefNode(self, n):
        params = []
        for a in n.args:
            ty, name, dims, _ = self.ctype(a.base_type, a.declarator)
            if name == '' or name is None:
                name = a.base_type.name
                ty = 'object'
            params.append((str(name), ty, self.expr(a.default) if a.default is not None else None))
        return self._func(n, str(n.name), params, None)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        rt = getattr(n.base_type, 'name', None)
        while type(d).__name__ == 'CPtrDeclaratorNode':
            d = d.base
            rt = str(rt) + '*'
        params = []
        for a in d.args:
            ty, name, dims, _ = self.ctype(a.base_type, a.declarator)
            if name == '' or name is None:
                name = a.base_type.name
                ty = 'object'
            params.append((str(name), ty, self.expr(a.default) if a.default is not None else None))
        return self._func(n, str(d.base.name), params, rt)

    def _func(self, n, name, params, rt):
        self.decls.append({})
        body = self.stmtlist(n.body)
        dec = self.decls.pop()
        fd = FuncDef(name, params, body, self.ln(n), self.mod, dec, rt)
        fd.lang = 'pyx'
        return N('funcdef', self.ln(n), func=fd)

    # ---------------------------------------------------------------- expressions
    def expr(self, n):
        if n is None:
            return None
        t = type(n).__name__
        m = getattr(self, 'e_' + t, None)
        if m is None:
            return N('unsupported', self.ln(n), what=t)
        try:
            return m(n)
        except AttributeError as e:
            return N('unsupported', self.ln(n), what='%s (%s)' % (t, e))

    def e_IntNode(self, n):
        v = str(n.value)
        return N('num', self.ln(n), value=Fraction(int(v, 0)), isint=True)

    def e_FloatNode(self, n):
        return N('num', self.ln(n), value=Fraction(str(n.value)), isint=False, text=str(n.value))

    def e_BoolNode(self, n):
        return N('const', self.ln(n), value=bool(n.value))

    def e_NoneNode(self, n):
        return N('const', self.ln(n), value=None)

    def e_UnicodeNode(self, n):
        return N('const', self.ln(n), value=str(n.value))
    e_StringNode = e_UnicodeNode
    e_BytesNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode
    e_CharNode = e_UnicodeNode

    def e_NameNode(self, n):
        return N('name', self.ln(n), id=str(n.name))

    def e_AttributeNode(self, n):
        return N('attr', self.ln(n), obj=self.expr(n.obj), attr=str(n.attribute))

    def e_IndexNode(self, n):
        ix = n.index
        if type(ix).__name__ == 'TupleNode':
            idx = [self.expr(x) for x in ix.args]
        else:
            idx = [self.expr(ix)]
        return N('index', self.ln(n), obj=self.expr(n.base), idx=idx)

    def e_SliceIndexNode(self, n):
        return N('index', self.ln(n), obj=self.expr(n.base), idx=[
            N('slice', self.ln(n), lo=self.expr(n.start), hi=self.expr(n.stop), step=None)])

    def e_SliceNode(self, n):
        def z(x):
            return None if type(x).__name__ == 'NoneNode' else self.expr(x)
        return N('slice', self.ln(n), lo=z(n.start), hi=z(n.stop), step=z(n.step))

    def e_SimpleCallNode(self, n):
        return N('call', self.ln(n), func=self.expr(n.function), args=[self.expr(x) for x in n.args], kwargs=[])

    def e_GeneralCallNode(self, n):
        pa = n.positional_args
        args = [self.expr(x) for x in getattr(pa, 'args', [])]
        kw = []
        ka = n.keyword_args
        if ka is not None:
            if type(ka).__name__ != 'DictNode':
                return N('unsupported', self.ln(n), what='**kwargs')
            for it in ka.key_value_pairs:
                kw.append((str(it.key.value), self.expr(it.value)))
        return N('call', self.ln(n), func=self.expr(n.function), args=args, kwargs=kw)

    def _bin(self, op):
        def f(n):
            return N('bin', self.ln(n), op=op, l=self.expr(n.operand1), r=self.expr(n.operand2))
        return f

    def e_AddNode(self, n):
        return self._bin('+')(n)

    def e_SubNode(self, n):
        return self._bin('-')(n)

    def e_MulNode(self, n):
        return self._bin('*')(n)

    def e_DivNode(self, n):
        return self._bin(n.operator)(n)

    def e_ModNode(self, n):
        return self._bin('%')(n)

    def e_PowNode(self, n):
        return self._bin('**')(n)

    def e_MatMultNode(self, n):
        return self._bin('@')(n)

    def e_IntBinopNode(self, n):
        return self._bin(n.operator)(n)

    def e_UnaryMinusNode(self, n):
        return N('un', self.ln(n), op='-', x=self.expr(n.operand))

    def e_UnaryPlusNode(self, n):
        return N('un', self.ln(n), op='+', x=self.expr(n.operand))

    def e_NotNode(self, n):
        return N('un', self.ln(n), op='not', x=self.expr(n.operand))

    def e_AmpersandNode(self, n):
        return N('addr', self.ln(n), x=self.expr(n.operand))

    def e_TypecastNode(self, n):
        ty, name, dims, _ = self.ctype(n.base_type, n.declarator)
        if type(n.base_type).__name__ == 'CSimpleBaseTypeNode' and ty == 'object':
            ty = n.base_type.name
        return N('cast', self.ln(n), type=ty, x=self.expr(n.operand))

    SIZES = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'char': 1, 'size_t': 8}

    def e_SizeofTypeNode(self, n):
        d, nm = n.declarator, getattr(n.base_type, 'name', None)
        if type(d).__name__ == 'CPtrDeclaratorNode':
            size = 8
        elif type(d).__name__ == 'CNameDeclaratorNode' and nm in self.SIZES:
            size = 8 if nm == 'int' and getattr(n.base_type, 'longness', 0) else self.SIZES[nm]
        else:
            return N('unsupported', self.ln(n), what='sizeof')
        return N('num', self.ln(n), value=Fraction(size), isint=True, sizeof=True)

    def e_SizeofVarNode(self, n):
        # sizeof(double) is parsed as a variable
        nm = getattr(n.operand, 'name', None)
        if nm in self.SIZES:
            return N('num', self.ln(n), value=Fraction(self.SIZES[nm]), isint=True, sizeof=True)
        return N('unsupported', self.ln(n), what='sizeof')

    def e_PrimaryCmpNode(self, n):
        ops = [CMP[n.operator]]
        xs = [self.expr(n.operand1), self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator])
            xs.append(self.expr(c.operand2))
            c = c.cascade
        return N('cmp', self.ln(n), ops=ops, xs=xs)

    def e_BoolBinopNode(self, n):
        return N('bool', self.ln(n), op=n.operator, xs=[self.expr(n.operand1), self.expr(n.operand2)])

    def e_CondExprNode(self, n):
        return N('ifexp', self.ln(n), test=self.expr(n.condition), a=self.expr(n.true_val), b=self.expr(n.false_val))

    def e_TupleNode(self, n):
        return N('tuple', self.ln(n), xs=[self.expr(x) for x in n.args])

    def e_ListNode(self, n):
        return N('list', self.ln(n), xs=[self.expr(x) for x in n.args])

    def e_DictNode(self, n):
        return N('dict', self.ln(n), items=[(self.expr(i.key), self.expr(i.value)) for i in n.key_value_pairs])
