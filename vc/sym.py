"""Symbolic executor / verification-condition generator.

Executes the IR of real repository functions on symbolic inputs.  Loops with a
symbolic number of iterations are executed once for an arbitrary iteration:
assigned variables are havocked, the body is run, and the loop rule classifies
every variable as temporary or as accumulator (v' = v + delta), for which the
exact inductive closed form v0 + sum(delta) is substituted.  Anything outside
the supported language raises Unsupported: nothing is then decided.
"""
import re
import string
import os
from fractions import Fraction
from .expr import (P, Fm, Atom, ZERO, ONE, TRUE, FALSE, const, lift, sym, symatom, fresh, app, ind, mk_sum, subst,
                   subst_fm, f_and, f_or, f_not, f_eq, f_ge0, f_le, f_lt, f_pred, INT_FUNCS)
from .ir import N, FuncDef, ClassDef, Module, Unsupported, walk
from . import smt

INT_TYPES = {'int', 'long', 'size_t', 'Py_ssize_t', 'short', 'unsigned', 'bint', 'char', 'np.int64_t', 'unsigned int'}
INT_FUNCS.update({'exactdiv', 'mod', 'floordiv', 'trunc', 'cdiv', 'int', 'len'})


# ------------------------------------------------------------------ values
class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class Opaque:
    """a value the verifier does not look into (strings built by formatting, figures ...)"""
    def __init__(self, why='opaque'):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


class Obj:
    seq = 0

    def __init__(self, cls, attrs=None, lazy=None, label=None):
        self.cls = cls              # ClassDef or string
        self.attrs = dict(attrs or {})
        self.lazy = lazy            # callable(name) -> value or None
        self.label = label
        Obj.seq += 1
        self.seq = Obj.seq

    @property
    def clsname(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return '<%s %s>' % (self.clsname, self.label or self.seq)


class Event:
    __slots__ = ('arr', 'idx', 'val', 'op', 'guard', 'binders', 'line', 'loops', 'src')

    def __repr__(self):
        return '%s[%s] %s %s if %s for %s (line %s)' % (self.arr.name, ', '.join(map(str, self.idx)),
                                                       {'set': '=', 'add': '+='}[self.op], self.val, self.guard,
                                                       [b[0] for b in self.binders], self.line)


class Arr:
    def __init__(self, name, shape=None, init=None, dtype='double', cells=False):
        self.name = name
        self.shape = shape          # tuple of P, or None when unknown (raw pointer)
        self.init = init            # None: undefined; P: constant fill; callable(idx tuple) -> value
        self.dtype = dtype
        self.log = []
        self.cells = {} if cells else None
        Obj.seq += 1
        self.seq = Obj.seq
        self.meta = {}

    def __repr__(self):
        return '<Arr %s>' % self.name


class View:
    """array with the same storage (row-major flattening) and another shape"""
    def __init__(self, arr, shape):
        self.arr = arr
        self.shape = shape


class Ptr:
    def __init__(self, arr, off):
        self.arr = arr
        self.off = off              # flat offset P

    def __repr__(self):
        return '<Ptr %s+%s>' % (self.arr.name, self.off)


class Func:
    def __init__(self, fd, env=None, selfobj=None, cls=None):
        self.fd = fd
        self.env = env
        self.selfobj = selfobj
        self.cls = cls
        self.defaults = None        # of a function defined inside of another: evaluated at its definition

    def __repr__(self):
        return '<Func %s>' % self.fd.name


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


PI = sym('pi')
EXTCONST = {'numpy.pi': PI, 'math.pi': PI}


class Extern:
    """dotted name outside the repository"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<Extern %s>' % self.name


class ModRef:
    def __init__(self, mod):
        self.mod = mod

    def __repr__(self):
        return '<ModRef %s>' % self.mod.name


class ClassRef:
    def __init__(self, cls):
        self.cls = cls


class Range:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SymSeq:
    """sequence of symbolic length: element(i) for 0 <= i < n"""
    def __init__(self, n, getter, label='seq'):
        self.n = n
        self.getter = getter
        self.label = label


class SymList:
    """python list appended to inside symbolic loops"""
    def __init__(self):
        self.items = []             # (value, guard, binders)


class SList(list):
    """python list; once appended to inside a symbolic loop it is a sequence of segments"""
    segs = None

    def lifted(self):
        return self.segs is not None

    def _no(self, *a):
        if self.segs is not None:
            raise Unsupported('list built in a symbolic loop')

    def __iter__(self):
        self._no()
        return list.__iter__(self)

    def __len__(self):
        self._no()
        return list.__len__(self)

    def __getitem__(self, i):
        self._no()
        return list.__getitem__(self, i)

    def __eq__(self, o):
        self._no()
        return list.__eq__(self, o)

    def __add__(self, o):
        self._no()
        return SList(list.__add__(self, list(o)))

    __hash__ = None


class SegList:
    """concatenation of segments: ('conc', [values]) or ('sym', n, getter)"""
    def __init__(self, segs, label=None):
        self.segs = segs
        self.label = label


def segments(v):
    """segments of a sequence of values, None when it is not one"""
    if isinstance(v, SegList) or (isinstance(v, SList) and v.segs is not None):
        return [g[:3] if g[0] == 'sym' else g for g in v.segs]
    if isinstance(v, SymSeq):
        return [('sym', v.n, v.getter)]
    if isinstance(v, (list, tuple)):
        return [('conc', list(v))] if len(v) else []
    return None


def seg_len(v):
    r = ZERO
    for g in v.segs:
        r = r + (const(len(g[1])) if g[0] == 'conc' else g[1])
    return r


class PathRaise(Exception):
    def __init__(self, exc, line=None):
        Exception.__init__(self, '%s (line %s)' % (exc, line))
        self.exc = exc
        self.line = line


class Restart(Exception):
    def __init__(self, ctx, loc):
        self.ctx = ctx
        self.loc = loc


class LoopCtx:
    def __init__(self, binder, lo, hi, seq):
        self.binder = binder
        self.lo = lo
        self.hi = hi
        self.seq = seq
        self.heap = {}              # ('attr', obj, name) / ('cell', arr, idx) -> (H atom, initial value)
        self.skips = []
        self.guard_base = 0
        self.hset = set()
        self.env = None


class Frame:
    def __init__(self, fd, env):
        self.fd = fd
        self.env = env
        self.rets = []
        self.guard_base = 0
        self.loop_base = 0
        self.globals = set()


MAXUNROLL = 80


class Loader:
    def __init__(self, root):
        self.root = root
        self.mods = {}

    def find(self, dotted):
        """module for a dotted repository path, or None"""
        if dotted in self.mods:
            return self.mods[dotted]
        base = os.path.join(self.root, *dotted.split('.'))
        m = None
        from . import pyfront, pyxfront, cfront
        if os.path.isfile(base + '.py'):
            m = pyfront.load(base + '.py', dotted)
        elif os.path.isfile(base + '.pyx'):
            m = pyxfront.load(base + '.pyx', dotted)
        elif os.path.isfile(os.path.join(base, '__init__.py')):
            m = pyfront.load(os.path.join(base, '__init__.py'), dotted)
            m.is_pkg = True
        elif os.path.isfile(base + '.cpp'):
            m = cfront.load(base + '.cpp', dotted)
        self.mods[dotted] = m
        return m


class Executor:
    def __init__(self, loader, contracts=None, facts=(), decisions=()):
        self.loader = loader
        self.contracts = contracts if contracts is not None else {}
        self.facts = list(facts)
        self.prefix = list(decisions)
        self.trace = []
        self.pc = []
        self.guards = []
        self.loops = []
        self.frames = []
        self.events = []
        self.journal = []
        self.pending_reads = []
        self.calls = []
        self.raises = []
        self.modenv = {}
        self.obligs = []            # (name, hypotheses, goal formula)
        self.default_values = {}    # of module functions, evaluated once
        self.class_values = {}      # attributes of classes, evaluated once
        self.externs = {}           # dotted name -> callable(ex, args, kwargs)
        self.extern_prefix = {}
        self.max_unroll = MAXUNROLL
        self.functions_executed = set()
        self.statements = 0
        self.hatoms = set()
        self.attr_hook = None
        from . import builtins as B
        B.install(self)

    # ------------------------------------------------------------ decisions
    def active_syms(self):
        s = set(self.hatoms)
        for c in self.loops:
            s.add(c.binder)
        return s

    def decide(self, f, line=None):
        """concrete truth of f on this path (forks), or None if it depends on a loop"""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        known = self.pc + self.facts
        if f in known:
            return True
        if f_not(f) in known:
            return False
        dep = not f.free.isdisjoint(self.active_syms())
        if dep:
            if f in self.guards:
                return True
            if f_not(f) in self.guards:
                return False
            hy = known + self.loop_facts() + self.guards
            if smt.check(hy + [f], 400)[0] == 'unsat':
                return False
            if smt.check(hy + [f_not(f)], 400)[0] == 'unsat':
                return True
            return None
        i = len(self.trace)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        else:
            t = smt.check(known + [f], 1500)[0]
            e = smt.check(known + [f_not(f)], 1500)[0]
            if t == 'unsat' and e == 'unsat':
                raise Unsupported('inconsistent path condition', line)
            forced = t == 'unsat' or e == 'unsat'
            v = t != 'unsat'
        self.trace.append((v, forced))
        if not forced:
            self.pc.append(f if v else f_not(f))
        return v

    def loop_facts(self):
        r = []
        for c in self.loops:
            b = lift(c.binder)
            r.append(f_le(c.lo, b))
            r.append(f_lt(b, c.hi))
        return r

    # ------------------------------------------------------------ environments
    def modglobals(self, mod):
        if mod.name in self.modenv:
            return self.modenv[mod.name]
        env = {}
        self.modenv[mod.name] = env
        for nm, fd in mod.funcs.items():
            env[nm] = Func(fd)
        for nm, cd in mod.classes.items():
            env[nm] = ClassRef(cd)
        for nm in mod.externs:
            env[nm] = Extern('c.' + nm)
        env['__name__'] = mod.name
        env['__file__'] = mod.path
        fr = Frame(FuncDef('<module>', [], [], 0, mod, dict(mod.decls)), env)
        fr.fd.lang = mod.lang
        self.frames.append(fr)
        sg, self.guards = self.guards, []
        sl, self.loops = self.loops, []
        try:
            for s in mod.toplevel:
                try:
                    if s.k in ('assign', 'import', 'cimport', 'aug', 'decl', 'arrinit', 'if', 'expr', 'for'):
                        self.exec_stmt(s)
                except (Unsupported, PathRaise) as e:
                    if s.k == 'assign':
                        for t in s.targets:
                            if t.k == 'name':
                                env[t.id] = Poison('module initialiser: %s' % e)
        finally:
            self.frames.pop()
            self.guards = sg
            self.loops = sl
        # definitions win over same-named externs
        return env

    def lookup(self, name, line=None):
        fr = self.frames[-1]
        env = fr.env
        if name in env and name not in fr.globals:
            v = env[name]
            if isinstance(v, Poison):
                raise Unsupported('use of %s: %s' % (name, v.why), line)
            return v
        p = env.get('__parent__')
        while p is not None:
            if name in p:
                return p[name]
            p = p.get('__parent__')
        g = self.modglobals(fr.fd.module) if fr.fd.module else {}
        if name in g:
            v = g[name]
            if isinstance(v, Poison):
                raise Unsupported('use of %s: %s' % (name, v.why), line)
            if isinstance(v, Extern) and v.name in EXTCONST:
                return EXTCONST[v.name]
            return v
        b = self.builtins.get(name)
        if b is not None:
            return b
        if fr.fd.decls and name in fr.fd.decls:
            raise Unsupported('read of uninitialised %s' % name, line)
        raise PathRaise('NameError: %s' % name, line)

    # ------------------------------------------------------------ calls
    def member(self, f, o, clsref, line):
        """what looking up the method f (definition, class) gives; o is the instance, if any"""
        fd, cls = f
        kinds = [d.id if d.k == 'name' else '?' for d in (fd.decorators or [])]
        if not kinds:
            return Func(fd, None, o, cls)
        if kinds == ['staticmethod']:
            r = Func(fd, None, None, cls)
        elif kinds == ['classmethod']:
            r = Func(fd, None, clsref, cls)
        elif kinds == ['property'] and o is not None:
            r = Func(fd, None, o, cls)
            r.plain = True
            return self.call_function(r, [], {}, line)
        else:
            raise Unsupported('decorated function %s' % fd.name, line)
        r.plain = True
        return r

    def class_attr(self, cls, name, line):
        """value assigned to the name in the body of the class, as a 1-tuple"""
        for a in cls.assigns:
            if a.k == 'assign' and any(t.k == 'name' and t.id == name for t in a.targets):
                key = (id(cls), name)
                if key not in self.class_values:
                    self.frames.append(Frame(FuncDef('<class>', [], [], 0, cls.module), {}))
                    try:
                        self.class_values[key] = self.ev(a.value)
                    finally:
                        self.frames.pop()
                return (self.class_values[key],)
        for b in cls.bases:
            c = self.modglobals(cls.module).get(b.id) if b.k == 'name' else None
            if isinstance(c, ClassRef):
                r = self.class_attr(c.cls, name, line)
                if r:
                    return r
        return None

    def call_function(self, fn, args, kwargs, line=None):
        fd = fn.fd
        if fd.decorators and not getattr(fn, 'plain', False):
            raise Unsupported('decorated function %s' % fd.name, line)
        mn = fd.module.name if fd.module else ''
        qn = mn + '.' + (fn.cls.name + '.' if fn.cls else '') + fd.name
        if fn.selfobj is not None:
            args = [fn.selfobj] + list(args)
        if qn in self.contracts:
            bound = self.bind(fd, args, kwargs, line, fn.defaults)
            return self.contracts[qn](self, bound)
        return self.inline(fd, args, kwargs, line, fn.env, fn.defaults)

    def closure(self, fd, env):
        """a function defined here"""
        f = Func(fd, env)
        if env is not None:
            f.defaults = {n: self.ev(d) for n, ty, d in fd.params if d is not None}
        return f

    def bind(self, fd, args, kwargs, line=None, defaults=None):
        env = {}
        names = [p[0] for p in fd.params]
        if len(args) > len(names):
            if fd.star is None:
                raise PathRaise('TypeError: too many arguments for %s' % fd.name, line)
            env[fd.star] = list(args[len(names):])
            args = args[:len(names)]
        elif fd.star is not None:
            env[fd.star] = []
        for n, a in zip(names, args):
            env[n] = a
        extra = {}
        for k, v in kwargs.items():
            if k not in names:
                if fd.starstar is None:
                    raise PathRaise('TypeError: unexpected argument %s for %s' % (k, fd.name), line)
                extra[k] = v
                continue
            if k in env:
                raise PathRaise('TypeError: duplicate argument %s' % k, line)
            env[k] = v
        if fd.starstar is not None:
            env[fd.starstar] = extra
        for (n, ty, d) in fd.params:
            if n not in env:
                if d is None:
                    raise PathRaise('TypeError: missing argument %s of %s' % (n, fd.name), line)
                if defaults is not None and n in defaults:
                    env[n] = defaults[n]
                elif (id(fd), n) in self.default_values:
                    env[n] = self.default_values[id(fd), n]
                else:
                    self.frames.append(Frame(FuncDef('<default>', [], [], 0, fd.module), {}))
                    try:
                        env[n] = self.default_values[id(fd), n] = self.ev(d)
                    finally:
                        self.frames.pop()
            if ty:
                env[n] = self.coerce(env[n], ty, line)
        return env

    def inline(self, fd, args, kwargs, line=None, parent=None, defaults=None):
        if len(self.frames) > 60:
            raise Unsupported('recursion', line)
        env = self.bind(fd, args, kwargs, line, defaults)
        if parent is not None:
            env['__parent__'] = parent
        self.functions_executed.add((fd.module.name if fd.module else '') + '.' + fd.name)
        fr = Frame(fd, env)
        fr.guard_base = len(self.guards)
        fr.loop_base = len(self.loops)
        self.frames.append(fr)
        try:
            sig = self.exec_block(fd.body)
            val = sig[1] if sig and sig[0] == 'return' else None
            for g, v in reversed(fr.rets):
                val = self.ite(g, v, val)
            del self.guards[fr.guard_base:]
            return val
        finally:
            self.frames.pop()

    def ite(self, g, a, b, line=None):
        if a is b:
            return a
        if isinstance(a, P) and isinstance(b, P):
            if a == b:
                return a
            i = ind(g)
            return i * a + (ONE - i) * b
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(g, x, y) for x, y in zip(a, b))
        if isinstance(a, (bool, Fm)) and isinstance(b, (bool, Fm)):
            fa = a if isinstance(a, Fm) else (TRUE if a else FALSE)
            fb = b if isinstance(b, Fm) else (TRUE if b else FALSE)
            return f_or(f_and(g, fa), f_and(f_not(g), fb))
        try:
            if a == b and type(a) == type(b):
                return a
        except Exception:
            pass
        return Poison('values differ between branches')

    # ------------------------------------------------------------ types
    def coerce(self, v, ty, line=None):
        if ty in INT_TYPES:
            if isinstance(v, bool):
                return const(int(v))
            if isinstance(v, Fm):
                return ind(v)
            if v is None or isinstance(v, (str, list, tuple, dict)):
                raise PathRaise('TypeError: an integer is required (got %r)' % (v,), line)
            if isinstance(v, P):
                if v.is_const():
                    c = v.const()
                    if c.denominator != 1:
                        import math
                        return const(math.trunc(c))
                    return v
                if not v.is_int():
                    return app('trunc', v)
            return v
        if ty in ('double', 'float'):
            if isinstance(v, bool):
                return const(int(v))
            if isinstance(v, Fm):
                return ind(v)
            if v is None or isinstance(v, (str, list, tuple, dict)):
                raise PathRaise('TypeError: must be real number (got %r)' % (v,), line)
            return v
        if ty.startswith('mv'):
            if v is None:
                return v
            if isinstance(v, (P,)) and v.is_const():
                raise PathRaise('TypeError: a buffer is required', line)
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            sig = self.exec_stmt(s)
            if sig is not None:
                return sig
        return None

    def exec_stmt(self, s):
        self.statements += 1
        m = getattr(self, 'x_' + s.k, None)
        if m is None:
            raise Unsupported('statement ' + (s.d.get('what') or s.k), s.line)
        return m(s)

    def x_unsupported(self, s):
        raise Unsupported('statement ' + s.what, s.line)

    def x_pass(self, s):
        return None

    def x_decl(self, s):
        fr = self.frames[-1]
        if fr.fd.decls is None:
            fr.fd.decls = {}
        fr.fd.decls[s.name] = s.type
        if s.dims:
            shape = tuple(self.ev(d) if d is not None else None for d in s.dims)
            fr.env[s.name] = Arr(s.name, shape, None, s.type, cells=True)
        elif s.type in INT_TYPES or s.type in ('double', 'float', 'long') or s.type.endswith('*') or s.type.startswith('mv'):
            if self.loops and fr.fd.lang == 'c':
                fr.env.pop(s.name, None)
            elif s.name not in fr.env:
                pass
        return None

    def x_arrinit(self, s):
        a = self.frames[-1].env[s.name]

        def fill(v, ix):
            if v.k == 'list':
                for i, x in enumerate(v.xs):
                    fill(x, ix + (i,))
            else:
                self.arr_set(a, tuple(const(i) for i in ix), self.ev(v), s.line)
        n = len(s.value.xs)
        if a.shape and a.shape[0] is None:
            a.shape = (const(n),) + a.shape[1:]
        a.init = ZERO
        fill(s.value, ())
        return None

    def x_funcdef(self, s):
        fd = s.d['func']
        self.frames[-1].env[fd.name] = self.closure(fd, self.frames[-1].env if self.frames[-1].fd.name != '<module>' else None)

    def x_classdef(self, s):
        self.frames[-1].env[s.d['cls'].name] = ClassRef(s.d['cls'])

    def x_import(self, s):
        fr = self.frames[-1]
        modname = s.module
        if s.level:
            base = fr.fd.module.name.split('.')
            if not getattr(fr.fd.module, 'is_pkg', False):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)] if s.level > 1 else base
            modname = '.'.join(base + ([s.module] if s.module else []))
        if s.name is None:
            m = self.loader.find(modname) if modname.split('.')[0] == 'panels' else None
            if m is not None:
                fr.env[s.asname] = ModRef(m) if s.asname != modname.split('.')[0] or '.' not in modname else ModRef(self.loader.find(modname.split('.')[0]))
            else:
                fr.env[s.asname] = Extern(modname)
            return
        if modname.split('.')[0] == 'panels':
            sub = self.loader.find(modname + '.' + s.name)
            m = self.loader.find(modname)
            if s.name == '*':
                if m is not None:
                    for k, v in self.modglobals(m).items():
                        if not k.startswith('_'):
                            fr.env[k] = v
                return
            if m is not None:
                g = self.modglobals(m)
                if s.name in g:
                    fr.env[s.asname] = g[s.name]
                    return
            if sub is not None:
                fr.env[s.asname] = ModRef(sub)
                return
            raise PathRaise('ImportError: %s.%s' % (modname, s.name), s.line)
        fr.env[s.asname] = Extern(modname + '.' + s.name)

    def x_cimport(self, s):
        self.frames[-1].env[s.asname] = Extern(s.module + '.' + s.name)

    def x_global(self, s):
        for n in s.names:
            self.frames[-1].globals.add(n)

    def x_expr(self, s):
        self.ev(s.value)
        return None

    def x_del(self, s):
        return None

    def x_assign(self, s):
        if len(s.targets) == 1 and s.targets[0].k == 'index' and s.value.k == 'bin' and s.value.op == '+':
            # a[i] = a[i] + e
            t = s.targets[0]
            for me, other in ((s.value.l, s.value.r), (s.value.r, s.value.l)):
                if same_ir(t, me):
                    return self.x_aug(N('aug', s.line, op='+', target=t, value=other))
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s.line)
        return None

    def x_aug(self, s):
        t = s.target
        if t.k == 'index' and s.op in ('+', '-'):
            o = self.ev(t.obj)
            if isinstance(o, (Arr, Ptr, View)):
                idx = self.index_values(t.idx)
                if idx is not None:
                    v = self.num(self.ev(s.value), s.line)
                    arr, ix = self.resolve_index(o, idx, s.line)
                    if arr.cells is not None and all(i.is_const() for i in ix):
                        self.arr_set(arr, ix, self.binop(s.op, self.arr_get(arr, ix, s.line), v, s.line), s.line)
                    else:
                        if arr.dtype in INT_TYPES:
                            v = self.coerce(v, 'int')
                        self.log_event(arr, ix, v if s.op == '+' else -v, 'add', s.line)
                    return None
        cur = self.ev(t)
        v = self.ev(s.value)
        if isinstance(cur, list) and s.op == '+':
            if self.loops or self.guards:
                raise Unsupported('list += in symbolic loop', s.line)
            from . import builtins as B
            B.method(self, cur, 'extend', [v], {}, s.line)
            return None
        self.assign(t, self.binop(s.op, cur, v, s.line), s.line)
        return None

    def assign(self, t, v, line):
        k = t.k
        if k == 'name':
            fr = self.frames[-1]
            ty = fr.fd.decls.get(t.id) if fr.fd.decls else None
            if ty is None:
                for p in fr.fd.params:
                    if p[0] == t.id:
                        ty = p[1]
            if ty:
                v = self.coerce(v, ty, line)
            if t.id in fr.globals:
                self.modglobals(fr.fd.module)[t.id] = v
                return
            fr.env[t.id] = v
        elif k in ('tuple', 'list'):
            if isinstance(v, Poison):
                raise Unsupported(v.why, line)
            if isinstance(v, (Arr, View)) and v.shape and v.shape[0] is not None and v.shape[0].is_const():
                v = [self.getitem(v, [const(i)], line) for i in range(int(v.shape[0].const()))]
            if isinstance(v, Opaque):
                v = [Opaque(v.why)] * len(t.xs)
            if isinstance(v, P) and not v.is_const():
                at = v.as_atom()
                n = getattr(self, 'arity', {}).get(at.data[0]) if at is not None and at.kind == 'app' else None
                if n is not None and n != len(t.xs):
                    raise PathRaise('ValueError: unpack %d values into %d' % (n, len(t.xs)), line)
                v = [app('item', v, const(i)) for i in range(len(t.xs))]
            if not isinstance(v, (tuple, list)):
                raise Unsupported('unpacking %r' % (v,), line)
            if len(v) != len(t.xs):
                raise PathRaise('ValueError: unpack %d values into %d' % (len(v), len(t.xs)), line)
            for tt, vv in zip(t.xs, v):
                self.assign(tt, vv, line)
        elif k == 'attr':
            o = self.ev(t.obj)
            self.set_attr(o, t.attr, v, line)
        elif k == 'index':
            o = self.ev(t.obj)
            self.set_item(o, t.idx, v, line)
        else:
            raise Unsupported('assignment target ' + k, line)

    # -- heap locations
    def touch(self, loc, seq, line):
        """a heap location that exists before active symbolic loops is modified inside them"""
        for c in self.loops:
            if seq < c.seq and loc not in c.heap:
                raise Restart(c, loc)

    def set_attr(self, o, name, v, line):
        if isinstance(o, Obj):
            hook = getattr(o, 'set_hook', None)
            if hook is not None and hook(self, name, v, line):
                return
            if isinstance(o.cls, ClassDef):
                f = self.find_method(o.cls, name)
                if f is not None and f[0].decorators:
                    raise Unsupported('assignment to a property', line)
            if self.loops:
                self.touch(('attr', o, name), o.seq, line)
            if self.guards:
                old = o.attrs.get(name)
                if old is None and name not in o.attrs and o.lazy:
                    old = o.lazy(name)
                v = self.ite(self.guard(), v, old)
            had = name in o.attrs
            old = o.attrs.get(name)
            self.journal.append(lambda: o.attrs.__setitem__(name, old) if had else o.attrs.pop(name, None))
            o.attrs[name] = v
            return
        if isinstance(o, (Opaque, Func, ClassRef)):
            if isinstance(o, Opaque):
                return
        raise Unsupported('attribute assignment on %r' % (o,), line)

    def guard(self):
        return f_and(*self.guards)

    def set_item(self, o, idx, v, line):
        if isinstance(o, list):
            i = self.ev(idx[0]) if len(idx) == 1 else None
            if i is None or not isinstance(i, P) or not i.is_const():
                raise Unsupported('list store', line)
            if self.loops or self.guards:
                raise Unsupported('list store in symbolic loop', line)
            o[int(i.const())] = v
            return
        if isinstance(o, dict):
            i = self.ev(idx[0]) if len(idx) == 1 else tuple(self.ev(x) for x in idx)
            if self.loops or self.guards:
                if self.loops and not self.guards and getattr(o, '__len__', None) is not None:
                    pass
                raise Unsupported('dict store in symbolic loop', line)
            o[i] = v
            return
        if isinstance(o, Obj):
            h = getattr(o, 'setitem', None)
            if h:
                return h(self, [self.ev_index(x) for x in idx], v, line)
        if isinstance(o, (Arr, Ptr, View)):
            ix = self.index_values(idx)
            if ix is None:
                hook = getattr(self, 'slice_store', None)
                if hook and hook(o, [self.ev_index(x) for x in idx], v, line):
                    return
                raise Unsupported('slice store', line)
            v = self.num(v, line)
            arr, ix = self.resolve_index(o, ix, line)
            self.arr_set(arr, ix, v, line)
            return
        raise Unsupported('item store on %r' % (o,), line)

    # -- arrays
    def index_values(self, idx):
        if any(i.k == 'slice' for i in idx):
            return None
        r = []
        for i in idx:
            v = self.ev(i)
            if isinstance(v, tuple):
                r.extend(v)
            else:
                r.append(v)
        out = []
        for v in r:
            if isinstance(v, bool):
                v = const(int(v))
            if isinstance(v, Fm):
                v = ind(v)
            if not isinstance(v, P):
                return None
            out.append(v)
        return tuple(out)

    def flat(self, shape, idx):
        if len(idx) == 1:
            return idx[0]
        r = idx[0]
        for s, i in zip(shape[1:], idx[1:]):
            r = r * s + i
        return r

    BOUNDS = False              # obligation for every access of an element

    def alive(self, arr, line):
        f = arr.meta.get('freed', FALSE)
        if f is not FALSE:
            self.obligs.append(('%s is not freed yet at line %s' % (arr.name, line), self.hyps(), f_not(f)))

    def bound_check(self, o, idx, line):
        a = o.arr if isinstance(o, Ptr) else o
        self.alive(o.arr if isinstance(o, (Ptr, View)) else o, line)
        sh = a.shape if a.shape is not None else getattr(a, 'shape', None)
        if sh is None or any(x is None for x in sh):
            raise Unsupported('access to an array of unknown size', line)
        if isinstance(o, Ptr) or len(idx) != len(sh):
            n = ONE
            for x in sh:
                n = n * x
            idx, sh = ((o.off + idx[0]) if isinstance(o, Ptr) else idx[0],), (n,)
        nm = o.arr.name if isinstance(o, (Ptr, View)) else o.name
        hy = None
        for i, n in zip(idx, sh):
            if isinstance(i, P) and i.is_const() and n.is_const() and 0 <= i.const() < n.const():
                continue
            hy = hy or self.hyps()
            self.obligs.append(('index into %s of line %s is at least 0' % (nm, line), hy, f_le(ZERO, i)))
            self.obligs.append(('index into %s of line %s is below its size' % (nm, line), hy, f_lt(i, n)))

    def resolve_index(self, o, idx, line):
        """(Arr, index tuple)"""
        if self.BOUNDS:
            self.bound_check(o, idx, line)
        if isinstance(o, Ptr):
            if len(idx) != 1:
                raise Unsupported('pointer index', line)
            a = o.arr
            return a, (o.off + idx[0],)
        if isinstance(o, View):
            return o.arr, (self.flat(o.shape, idx),)
        if o.shape is not None and len(idx) != len(o.shape) and not (len(idx) == 1):
            raise Unsupported('index rank', line)
        # python negative indices
        if len(idx) == 1 and idx[0].is_const() and idx[0].const() < 0 and o.shape is not None and len(o.shape) == 1 and o.shape[0] is not None:
            idx = (o.shape[0] + idx[0],)
        return o, idx

    def log_event(self, arr, idx, val, op, line):
        e = Event()
        e.arr = arr
        e.idx = idx
        e.val = val
        e.op = op
        e.guard = self.guard()
        e.binders = tuple((c.binder, c.lo, c.hi) for c in self.loops)
        e.loops = len(self.loops)
        e.line = line
        arr.log.append(e)
        self.events.append(e)

        def undo():
            self.events.remove(e)
            arr.log.remove(e)
        self.journal.append(undo)

    def push_event(self, e):
        e.arr.log.append(e)
        self.events.append(e)

        def undo():
            self.events.remove(e)
            e.arr.log.remove(e)
        self.journal.append(undo)

    def hyps(self):
        return self.facts + self.pc + self.loop_facts() + self.guards

    def arr_set(self, arr, idx, v, line):
        if arr.dtype in INT_TYPES:
            v = self.coerce(v, 'int')
        if arr.cells is not None and all(i.is_const() for i in idx) and not arr.log:
            if len(idx) == 1 and arr.shape and len(arr.shape) > 1:
                raise Unsupported('flat access', line)
            if self.loops:
                self.touch(('cell', arr, idx), arr.seq, line)
            if self.guards:
                old = arr.cells.get(idx, arr.init if isinstance(arr.init, P) else None)
                v = self.ite(self.guard(), v, old) if old is not None else Poison('conditionally initialised cell')
            had = idx in arr.cells
            old2 = arr.cells.get(idx)
            self.journal.append(lambda: arr.cells.__setitem__(idx, old2) if had else arr.cells.pop(idx, None))
            arr.cells[idx] = v
            return
        if arr.cells:
            raise Unsupported('mixed constant and symbolic index stores into %s' % arr.name, line)
        self.log_event(arr, idx, v, 'set', line)

    def arr_get(self, arr, idx, line):
        if arr.cells is not None and not arr.log:
            if all(i.is_const() for i in idx):
                if idx in arr.cells:
                    v = arr.cells[idx]
                    if isinstance(v, Poison):
                        raise Unsupported('%s%s: %s' % (arr.name, idx, v.why), line)
                    return v
                if isinstance(arr.init, P):
                    return arr.init
                if callable(arr.init):
                    return arr.init(idx)
                raise Unsupported('read of uninitialised %s%s' % (arr.name, idx), line)
            if arr.cells:
                # symbolic index into a constant table with small known size: case split by indicators
                if len(idx) == 1 and all(len(k) == 1 for k in arr.cells):
                    r = ZERO
                    for k, v in arr.cells.items():
                        if isinstance(v, Poison):
                            raise Unsupported(v.why, line)
                        r = r + ind(f_eq(idx[0], k[0])) * v
                    self.obligs.append(('index within initialised cells of %s' % arr.name,
                                        self.facts + self.pc + self.loop_facts() + self.guards,
                                        f_or(*[f_eq(idx[0], k[0]) for k in arr.cells])))
                    return r
                raise Unsupported('symbolic index into local table %s' % arr.name, line)
        return self.read(arr, idx, line)

    def match_index(self, eidx, bset, idx):
        """substitution of the binders in bset making eidx == idx, or None"""
        sub = {}
        for e, t in zip(eidx, idx):
            if e == t:
                continue
            bs = [b for b in bset if b in e.free and b not in sub]
            cur = subst(e, sub)
            if not bs:
                if cur != t:
                    return None
                continue
            # each binder occurs linearly: coefficient monomial * binder
            coef = {}
            rest = ZERO
            for m, c in cur.t.items():
                hit = [b for b in bs if any(b in a.free for a, _ in m)]
                if not hit:
                    rest = rest + P({m: c})
                    continue
                if len(hit) > 1:
                    return None
                b = hit[0]
                if not any(a is b and x == 1 for a, x in m) or b in coef:
                    return None
                mm = tuple((a, x) for a, x in m if a is not b)
                if any(b in a.free for a, _ in mm):
                    return None
                coef[b] = P({mm: c})
            left = t - rest
            order = sorted(coef.items(), key=lambda x: -len(list(x[1].t)[0]))
            for n_, (b, c) in enumerate(order):
                if c.is_const():
                    val = left * (1 / c.const())
                    left = ZERO
                else:
                    (cm, cc), = c.t.items()
                    q = ZERO
                    for m, k in left.t.items():
                        d = dict(m)
                        if all(d.get(a, 0) >= x for a, x in cm):
                            q = q + P({m: k}) / c
                    val = q
                    left = left - q * c
                sub[b] = val
            if not left.is_zero():
                return None
        if any(subst(e, sub) != t for e, t in zip(eidx, idx)):
            return None
        return sub

    def read(self, arr, idx, line):
        active = set(c.binder for c in self.loops)
        acc = ZERO
        for n in range(len(arr.log) - 1, -1, -1):
            e = arr.log[n]
            eidx, tidx = e.idx, idx
            if len(eidx) != len(tidx):
                if arr.shape is None:
                    raise Unsupported('mixed index rank on %s' % arr.name, line)
                eidx = (self.flat(arr.shape, eidx),)
                tidx = (self.flat(arr.shape, tidx),)
            bs = [b for b, lo, hi in e.binders if b not in active]
            extra = getattr(e.arr, 'fillbinders', None)
            sub = self.match_index(eidx, bs, tidx)
            if sub is None:
                # provably different?
                if all(x.is_const() for x in eidx + tidx):
                    continue
                if len(eidx) == len(tidx) and any((x - y).is_const() and not (x - y).is_zero() for x, y in zip(eidx, tidx)) and not any(b in x.free for b in bs for x in eidx):
                    continue
                if len(eidx) == len(tidx) and any((x - y).is_const() and not (x - y).is_zero() and not any(b in x.free for b in bs) for x, y in zip(eidx, tidx)):
                    continue
                raise Unsupported('cannot resolve read %s[%s] against write [%s] of line %s' % (arr.name, tidx, eidx, e.line), line)
            free_b = [b for b in bs if b not in sub]
            if e.op == 'add':
                v = subst(e.val, sub) * ind(subst_fm(e.guard, sub))
                for (b, lo, hi) in reversed(e.binders):
                    if b in free_b:
                        v = mk_sum(b, subst(lo, sub), subst(hi, sub), v)
                # range side conditions
                self.range_cond(e, sub, line)
                acc = acc + v
                continue
            if free_b and any(b in e.val.free or b in e.guard.free for b in free_b if isinstance(e.val, P)):
                raise Unsupported('read of %s: value of the last iteration' % arr.name, line)
            g = subst_fm(e.guard, sub)
            self.range_cond(e, sub, line)
            if g is TRUE or all(x in self.guards for x in (g.data if g.kind == 'and' else (g,))):
                v = subst(e.val, sub)
                if self.loops:
                    self.pending_reads.append((arr, idx, e))
                return acc + v if isinstance(v, P) else v
            raise Unsupported('read of conditionally written %s' % arr.name, line)
        if self.loops and arr.seq < (self.loops[-1].seq):
            self.pending_reads.append((arr, idx, None))
        if arr.init is None:
            raise Unsupported('read of uninitialised %s' % arr.name, line)
        if isinstance(arr.init, P):
            return acc + arr.init
        v = arr.init(idx)
        return acc + v if isinstance(v, P) else v

    def range_cond(self, e, sub, line):
        for (b, lo, hi) in e.binders:
            if b in sub:
                t = sub[b]
                lo2, hi2 = subst(lo, sub), subst(hi, sub)
                goal = f_and(f_le(lo2, t), f_lt(t, hi2))
                if goal is TRUE:
                    continue
                # binder of an active loop with the same range
                a = t.as_atom()
                ok = False
                for c in self.loops:
                    if c.binder is a and c.lo == lo2 and c.hi == hi2:
                        ok = True
                if ok:
                    continue
                self.obligs.append(('read of %s within the written range' % e.arr.name,
                                    self.facts + self.pc + self.loop_facts() + self.guards, goal))

    # ------------------------------------------------------------ control
    def cond(self, v, line=None):
        """truth value: bool or Fm"""
        if isinstance(v, (bool, Fm)):
            return v
        if v is None:
            return False
        if isinstance(v, P):
            if v.is_const():
                return v.const() != 0
            return f_not(f_eq(v, ZERO))
        if isinstance(v, (str, list, tuple, dict)):
            return len(v) > 0
        if isinstance(v, (Obj, Func, Arr)):
            return True
        if isinstance(v, SymSeq):
            return f_ge0(v.n - 1)
        raise Unsupported('truth value of %r' % (v,), line)

    def x_if(self, s):
        c = self.cond(self.ev(s.test), s.line)
        return self.branch(c, s.body, s.orelse, s.line)

    def branch(self, c, body, orelse, line):
        if isinstance(c, Fm):
            d = self.decide(c, line)
        else:
            d = c
        if d is True:
            return self.exec_block(body)
        if d is False:
            return self.exec_block(orelse)
        # depends on a loop: predicated execution of both branches
        fr = self.frames[-1]
        base = len(self.guards)
        env0 = dict(fr.env)
        self.guards.append(c)
        s1 = self.exec_block(body)
        x1 = f_and(*self.guards[base + 1:])
        s1, x1 = self.settle(s1, x1, c, base, line)
        env1 = dict(fr.env)
        del self.guards[base:]
        fr.env.clear()
        fr.env.update(env0)
        self.guards.append(f_not(c))
        s2 = self.exec_block(orelse)
        x2 = f_and(*self.guards[base + 1:])
        s2, x2 = self.settle(s2, x2, f_not(c), base, line)
        env2 = dict(fr.env)
        del self.guards[base:]
        if x1 is FALSE and x2 is FALSE:
            # both branches left the iteration
            if s1 is not None and s1 == s2:
                pass
            self.guards.append(FALSE)
            return ('dead',)
        if x1 is FALSE:
            fr.env.clear()
            fr.env.update(env2)
        elif x2 is FALSE:
            fr.env.clear()
            fr.env.update(env1)
        else:
            merged = {}
            for k in set(env1) | set(env2):
                if k == '__parent__':
                    merged[k] = env1.get(k)
                elif k in env1 and k in env2:
                    merged[k] = self.ite(c, env1[k], env2[k])
                else:
                    merged[k] = Poison('assigned in one branch only')
                    v = env1.get(k, env2.get(k))
                    if k in env1 and f_not(c) in self.guards:
                        merged[k] = v
            fr.env.clear()
            fr.env.update(merged)
        rem = f_or(f_and(c, x1), f_and(f_not(c), x2))
        for g in (rem.data if rem.kind == 'and' else (rem,)):
            if g is not TRUE:
                self.guards.append(g)
        return None

    def settle(self, sig, extra, c, base, line):
        """turn a control transfer inside a predicated branch into records; returns (None, extra guard)"""
        if sig is None:
            return None, extra
        if sig[0] == 'dead':
            return None, FALSE
        fr = self.frames[-1]
        if sig[0] == 'continue':
            if len(self.loops) <= fr.loop_base:
                raise Unsupported('continue of an unrolled loop under a symbolic condition', line)
            ctx = self.loops[-1]
            if getattr(fr, 'unroll', 0):
                raise Unsupported('continue of an unrolled loop under a symbolic condition', line)
            ctx.skips.append((f_and(*self.guards[ctx.guard_base:]), dict(fr.env)))
            return None, FALSE
        if sig[0] == 'return':
            if len(self.loops) > fr.loop_base:
                raise Unsupported('return from a symbolic loop', line)
            fr.rets.append((f_and(*self.guards[fr.guard_base:]), sig[1]))
            return None, FALSE
        raise Unsupported('%s under a loop dependent condition' % sig[0], line)

    def x_switch(self, s):
        v = self.ev(s.value)
        if not isinstance(v, P):
            raise Unsupported('switch value', s.line)
        # resolve concretely
        start = None
        for n, (lab, body) in enumerate(s.cases):
            if lab is None:
                continue
            f = f_eq(v, self.ev(lab))
            d = self.decide(f, s.line)
            if d is None:
                raise Unsupported('switch on a loop variable', s.line)
            if d:
                start = n
                break
        if start is None:
            for n, (lab, body) in enumerate(s.cases):
                if lab is None:
                    start = n
        if start is None:
            return None
        for n in range(start, len(s.cases)):
            sig = self.exec_block(s.cases[n][1])
            if sig is not None:
                if sig[0] == 'break':
                    return None
                return sig
        return None

    def x_return(self, s):
        if len(self.loops) > self.frames[-1].loop_base:
            raise Unsupported('return from a symbolic loop', s.line)
        return ('return', self.ev(s.value) if s.value is not None else None)

    def x_continue(self, s):
        return ('continue',)

    def x_break(self, s):
        return ('break',)

    def x_raise(self, s):
        e = s.exc
        name = 'Exception'
        if e is not None:
            if e.k == 'call':
                e = e.func
            if e.k == 'name':
                name = e.id
        if self.guards:
            self.raises.append((name, self.guard(), s.line))
            self.guards.append(FALSE)
            return ('dead',)
        if self.loops:
            # unconditional raise inside a symbolic loop: reached when the loop iterates
            self.raises.append((name, TRUE, s.line))
            raise PathRaise(name, s.line)
        raise PathRaise(name, s.line)

    def x_assert(self, s):
        c = self.cond(self.ev(s.test), s.line)
        if isinstance(c, Fm):
            d = self.decide(c, s.line)
            if d is None:
                self.raises.append(('AssertionError', f_and(self.guard(), f_not(c)), s.line))
                return None
            c = d
        if not c:
            raise PathRaise('AssertionError', s.line)

    def x_with(self, s):
        for e, v in s.items if 'items' in s.d else []:
            pass
        for e, v in s.d['items']:
            r = self.ev(e)
            if v is not None:
                self.assign(v, r, s.line)
        return self.exec_block(s.body)

    def x_try(self, s):
        if self.loops:
            # only safe when nothing raises
            try:
                sig = self.exec_block(s.body)
            except PathRaise:
                raise Unsupported('exception handled inside a symbolic loop', s.line)
            if s.final:
                self.exec_block(s.final)
            return sig
        try:
            sig = self.exec_block(s.body)
            if sig is None and s.orelse:
                sig = self.exec_block(s.orelse)
        except PathRaise as e:
            nm = e.exc.split(':')[0]
            for ty, name, body in s.handlers:
                tn = []
                if ty is None:
                    tn = None
                elif ty.k == 'name':
                    tn = [ty.id]
                elif ty.k == 'tuple':
                    tn = [x.id for x in ty.xs if x.k == 'name']
                if tn is None or nm in tn or 'Exception' in tn or 'BaseException' in tn:
                    if name:
                        self.frames[-1].env[name] = Opaque('exception')
                    sig = self.exec_block(body)
                    break
            else:
                raise
        if s.final:
            s2 = self.exec_block(s.final)
            if s2 is not None:
                return s2
        return sig

    # ------------------------------------------------------------ loops
    def assigned_names(self, stmts):
        r = set()
        for s in stmts:
            for n in walk([s]):
                if n.k == 'assign':
                    for t in n.targets:
                        self._tn(t, r)
                elif n.k == 'aug':
                    self._tn(n.target, r)
                elif n.k == 'for':
                    self._tn(n.target, r)
        return r

    def _tn(self, t, r):
        if t.k == 'name':
            r.add(t.id)
        elif t.k in ('tuple', 'list'):
            for x in t.xs:
                self._tn(x, r)

    def iterate(self, v, line):
        """('conc', [values]) or ('sym', lo, hi, getter)"""
        if isinstance(v, SegList) or (isinstance(v, SList) and v.lifted()):
            if len(v.segs) == 1:
                g = v.segs[0]
                return ('conc', list(g[1])) if g[0] == 'conc' else ('sym', ZERO, g[1], g[2])
            return ('segs', list(v.segs))
        if isinstance(v, Range):
            lo, hi, st = v.lo, v.hi, v.step
            if lo.is_const() and hi.is_const() and st.is_const():
                l = [const(x) for x in range(int(lo.const()), int(hi.const()), int(st.const()))]
                if len(l) > self.max_unroll:
                    return ('sym', lo, hi, lambda b: b) if st == ONE else ('conc', l)
                return ('conc', l)
            if st != ONE:
                if st.is_const() and st.const() == -1:
                    # i = lo, lo-1, ..., hi+1
                    return ('sym', ZERO, lo - hi, lambda b, lo=lo: lo - b)
                if st.is_const() and st.const() > 1:
                    raise Unsupported('range step', line)
                raise Unsupported('range step', line)
            d = hi - lo
            if d.is_const() and d.const() <= 16:
                return ('conc', [lo + k for k in range(int(max(0, d.const())))])
            return ('sym', lo, hi, lambda b: b)
        if isinstance(v, (list, tuple)):
            return ('conc', list(v))
        if isinstance(v, dict):
            return ('conc', list(v.keys()))
        if isinstance(v, SymSeq):
            return ('sym', ZERO, v.n, v.getter)
        if isinstance(v, str):
            return ('conc', list(v))
        if isinstance(v, (Arr, View)) and v.shape and v.shape[0] is not None:
            n = v.shape[0]
            if n.is_const():
                return ('conc', [self.getitem(v, [const(i)], line) for i in range(int(n.const()))])
            return ('sym', ZERO, n, lambda b: self.getitem(v, [b], line))
        if isinstance(v, Obj) and getattr(v, 'iter_hook', None):
            return v.iter_hook(self)
        raise Unsupported('iteration over %r' % (v,), line)

    def x_for(self, s):
        it = self.iterate(self.ev(s.iter), s.line)
        fr = self.frames[-1]
        if it[0] == 'conc':
            fr.unroll = getattr(fr, 'unroll', 0) + 1
            try:
                for v in it[1]:
                    self.assign(s.target, v, s.line)
                    sig = self.exec_block(s.body)
                    if sig is not None:
                        if sig[0] == 'continue':
                            continue
                        if sig[0] == 'break':
                            return None
                        return sig
            finally:
                fr.unroll -= 1
            if s.orelse:
                return self.exec_block(s.orelse)
            return None
        if it[0] == 'segs':
            for g in it[1]:
                if g[0] == 'conc':
                    fr.unroll = getattr(fr, 'unroll', 0) + 1
                    try:
                        for v in g[1]:
                            self.assign(s.target, v, s.line)
                            sig = self.exec_block(s.body)
                            if sig is not None and sig[0] != 'continue':
                                raise Unsupported('%s in a loop over segments' % sig[0], s.line)
                    finally:
                        fr.unroll -= 1
                else:
                    self.sym_loop(s.target.id if s.target.k == 'name' else 'it', ZERO, g[1],
                                  lambda b, g=g: self.assign(s.target, g[2](b), s.line), s.body,
                                  self.assigned_names([s]), s.line, s.target if s.target.k == 'name' else None)
            return None
        _, lo, hi, getter = it[:4]
        nm = s.target.id if s.target.k == 'name' else 'it'
        self.sym_loop(nm, lo, hi, lambda b: self.assign(s.target, getter(b), s.line), s.body,
                      self.assigned_names([s]), s.line, s.target if s.target.k == 'name' else None)
        return None

    def sym_loop(self, nm, lo, hi, bind, body, names, line, target=None):
        fr = self.frames[-1]
        if not isinstance(lo, P) or not isinstance(hi, P):
            raise Unsupported('loop bounds', line)
        heap = {}
        env0 = dict(fr.env)
        saved_unroll = getattr(fr, 'unroll', 0)
        while True:
            mark = len(self.journal)
            pmark = len(self.pending_reads)
            omark = len(self.obligs)
            rmark = len(self.raises)
            cmark = len(self.calls)
            b = fresh(nm, True).as_atom()
            Obj.seq += 1
            ctx = LoopCtx(b, lo, hi, Obj.seq)
            ctx.guard_base = len(self.guards)
            # havoc
            hmap = {}
            for v in names:
                if v in fr.env and isinstance(fr.env[v], P) and not (target is not None and v == target.id):
                    h = fresh('H_' + v, fr.env[v].is_int()).as_atom()
                    hmap[v] = (h, fr.env[v])
                    fr.env[v] = lift(h)
                elif v in fr.env and isinstance(fr.env[v], Fm):
                    fr.env[v] = Poison('boolean carried over loop iterations')
            for loc in heap:
                cur = self.loc_get(loc)
                if isinstance(cur, P):
                    h = fresh('H_heap', cur.is_int()).as_atom()
                    heap[loc] = (h, cur)
                    self.loc_set(loc, lift(h))
                else:
                    heap[loc] = (None, cur)
            ctx.heap = heap
            ctx.hset = set(h for h, _ in hmap.values()) | set(h for h, _ in heap.values() if h is not None)
            evmark = len(self.events)
            self.hatoms |= ctx.hset
            self.loops.append(ctx)
            fr.unroll = 0
            nframes = len(self.frames)
            nloops = len(self.loops)
            nguards = len(self.guards)
            try:
                bind(lift(b))
                sig = self.exec_block(body)
                if sig is not None:
                    if sig[0] in ('break', 'return'):
                        raise Unsupported('%s in a symbolic loop' % sig[0], line)
            except Restart as r:
                if r.ctx is not ctx:
                    raise
                del self.frames[nframes:]
                del self.loops[nloops - 1:]
                del self.guards[nguards:]
                while len(self.journal) > mark:
                    self.journal.pop()()
                del self.pending_reads[pmark:]
                del self.obligs[omark:]
                del self.raises[rmark:]
                del self.calls[cmark:]
                self.hatoms -= ctx.hset
                for loc in heap:
                    self.loc_set(loc, heap[loc][1])
                fr.env.clear()
                fr.env.update(env0)
                heap[r.loc] = (None, None)
                if len(heap) > 400:
                    raise Unsupported('too many heap locations modified in a loop', line)
                continue
            break
        fr.unroll = saved_unroll
        # merge skipped continuations
        final = dict(fr.env)
        if self.guards[ctx.guard_base:] and FALSE in self.guards[ctx.guard_base:]:
            # every path left by continue
            pass
        for g, env in reversed(ctx.skips):
            for v in names:
                if v in env and v in final:
                    final[v] = self.ite(g, env[v], final[v])
                elif v in env:
                    final[v] = Poison('assigned on one path only')
        if heap and ctx.skips:
            # heap locations: values written after the skip are guarded already (set_attr merges under guards)
            pass
        del self.guards[ctx.guard_base:]
        self.loops.pop()
        bP = lift(b)
        # closed forms
        todo = {}
        for v, (h, v0) in hmap.items():
            todo[('name', v)] = (h, v0, final.get(v))
        for loc, (h, v0) in heap.items():
            if h is not None:
                todo[loc] = (h, v0, self.loc_get(loc))
        solved = {}
        finals = {}
        progress = True
        while progress and todo:
            progress = False
            for k in list(todo):
                h, v0, v1 = todo[k]
                if not isinstance(v1, P):
                    continue
                d = subst(v1 - lift(h), {x: solved[x] for x in solved})
                if h in d.free or any(x in d.free for x in ctx.hset if x not in solved):
                    continue
                i2 = fresh('q', True).as_atom()
                solved[h] = v0 + mk_sum(i2, lo, bP, subst(d, {b: lift(i2)}))
                finals[k] = v0 + mk_sum(i2, lo, hi, subst(d, {b: lift(i2)}))
                if k[0] == 'name':
                    ctx.env = ctx.env or {}
                del todo[k]
                progress = True
        unsolved = set(h for (h, _, _) in todo.values())
        self.hatoms -= ctx.hset
        # substitute in everything produced by the body
        if solved or unsolved:
            evs = self.events[evmark:]
            for e in evs:
                self._subst_event(e, solved, unsolved, line)
            for n in range(omark, len(self.obligs)):
                nm_, hy, g = self.obligs[n]
                self.obligs[n] = (nm_, [subst_fm(x, solved) for x in hy], subst_fm(g, solved))
            for n in range(rmark, len(self.raises)):
                a_, g, l_ = self.raises[n]
                self.raises[n] = (a_, subst_fm(g, solved), l_)
            for n in range(cmark, len(self.calls)):
                self.calls[n] = self.calls[n].substituted(solved)
        # pending reads: loop carried dependencies through arrays
        newp = []
        inloop = self.events[evmark:]
        inset = set(id(e) for e in inloop)
        for (arr, idx, src) in self.pending_reads[pmark:]:
            idx = subst(idx, solved)
            if src is None or id(src) not in inset:
                for e in inloop:
                    if e.arr is not arr:
                        continue
                    ei, ri = e.idx, idx
                    if len(ei) != len(ri) and arr.shape is not None:
                        ei, ri = (self.flat(arr.shape, ei),), (self.flat(arr.shape, ri),)
                    if ei == ri and any(b in x.free for x in ri):
                        continue
                    raise Unsupported('loop-carried dependency through %s' % arr.name, line)
            newp.append((arr, idx, src))
        self.pending_reads[pmark:] = newp
        # environment after the loop
        for v in names:
            k = ('name', v)
            if target is not None and v == target.id:
                fr.env[v] = Poison('loop variable after the loop')
            elif k in finals:
                fr.env[v] = finals[k]
            elif v in final:
                x = final[v]
                if isinstance(x, P) and b not in x.free and not (x.free & ctx.hset) and v not in hmap:
                    fr.env[v] = x if not ctx.skips else Poison('value of the last iteration')
                    if not self.known_nonempty(lo, hi):
                        fr.env[v] = Poison('assigned in a loop that may not execute')
                elif isinstance(x, P):
                    if v in hmap and x == lift(hmap[v][0]):
                        fr.env[v] = hmap[v][1]
                    else:
                        fr.env[v] = Poison('value of the last iteration of a loop')
                elif v in env0 and env0[v] is x:
                    fr.env[v] = x
                elif isinstance(x, (Obj, Arr, Ptr, list, dict, tuple, str, Func, View)):
                    fr.env[v] = Poison('object of the last iteration of a loop')
                else:
                    fr.env[v] = x if isinstance(x, Poison) else Poison('value of the last iteration of a loop')
        for loc in heap:
            if loc in finals:
                self.loc_set(loc, finals[loc])
            else:
                h, v0 = heap[loc]
                cur = self.loc_get(loc)
                if h is not None and isinstance(cur, P) and cur == lift(h):
                    self.loc_set(loc, v0)
                elif cur is v0:
                    pass
                else:
                    self.loc_set(loc, Poison('value of the last iteration of a loop'))
        for v in hmap:
            pass

    def known_nonempty(self, lo, hi):
        f = f_lt(lo, hi)
        if f is TRUE:
            return True
        return smt.valid(self.facts + self.pc, f, 500) == 'valid'

    def _subst_event(self, e, solved, unsolved, line):
        def s(x):
            return subst(x, solved)
        e.idx = tuple(s(i) for i in e.idx)
        if isinstance(e.val, P):
            e.val = s(e.val)
        e.guard = subst_fm(e.guard, solved)
        e.binders = tuple((b, s(lo), s(hi)) for b, lo, hi in e.binders)
        if unsolved:
            fr = set(e.guard.free)
            for i in e.idx:
                fr |= i.free
            if isinstance(e.val, P):
                fr |= e.val.free
            for _, lo, hi in e.binders:
                fr |= lo.free | hi.free
            if fr & unsolved:
                raise Unsupported('value carried from the previous iteration (%s)' % ', '.join(sorted(a.key for a in fr & unsolved)), line)

    def loc_get(self, loc):
        if loc[0] == 'attr':
            o, nm = loc[1], loc[2]
            if nm in o.attrs:
                return o.attrs[nm]
            if o.lazy:
                return o.lazy(nm)
            return None
        _, arr, idx = loc
        if idx in arr.cells:
            return arr.cells[idx]
        if isinstance(arr.init, P):
            return arr.init
        return None

    def loc_set(self, loc, v):
        if loc[0] == 'attr':
            loc[1].attrs[loc[2]] = v
        else:
            if v is None:
                loc[1].cells.pop(loc[2], None)
            else:
                loc[1].cells[loc[2]] = v

    def x_while(self, s):
        r = self.counted_loop(s.test, s.body, [], s.line)
        if r is not NotImplemented:
            return r
        n = 0
        while True:
            c = self.cond(self.ev(s.test), s.line)
            if isinstance(c, Fm):
                d = self.decide(c, s.line)
                if d is None:
                    raise Unsupported('while on a loop dependent condition', s.line)
                c = d
            if not c:
                break
            n += 1
            if n > 600:
                raise Unsupported('while loop without a bound', s.line)
            sig = self.exec_block(s.body)
            if sig is not None:
                if sig[0] == 'continue':
                    continue
                if sig[0] == 'break':
                    break
                return sig
        return None

    def x_cfor(self, s):
        for x in s.init:
            self.exec_stmt(x)
        r = self.counted_loop(s.test, s.body, s.step, s.line)
        if r is not NotImplemented:
            return r
        n = 0
        while True:
            c = self.cond(self.ev(s.test), s.line)
            if isinstance(c, Fm):
                d = self.decide(c, s.line)
                if d is None:
                    raise Unsupported('loop condition', s.line)
                c = d
            if not c:
                break
            n += 1
            if n > 3000:
                raise Unsupported('loop without a bound', s.line)
            sig = self.exec_block(s.body)
            if sig is not None and sig[0] == 'break':
                break
            if sig is not None and sig[0] == 'return':
                return sig
            for x in s.step:
                self.exec_stmt(x)
        return None

    def counted_loop(self, test, body, step, line):
        """i < E (or i <= E, E > i) with one i += 1 among the top-level statements: an iteration over [i0, E)"""
        if test.k != 'cmp' or len(test.ops) != 1:
            return NotImplemented
        op, (left, right) = test.ops[0], test.xs
        if op in ('>', '>='):
            op, left, right = {'>': '<', '>=': '<='}[op], right, left
        if op not in ('<', '<=') or left.k != 'name':
            return NotImplemented
        var = left.id

        def is_inc(x):
            def isv(e):
                return e.k == 'name' and e.id == var

            def one(e):
                return e.k == 'num' and e.value == 1
            if x.k == 'aug':
                return x.op == '+' and isv(x.target) and one(x.value)
            if x.k == 'assign':
                t = x.d.get('targets') or [x.d.get('target')]
                v = x.value
                return (len(t) == 1 and t[0] is not None and isv(t[0]) and v.k == 'bin' and v.op == '+'
                        and (isv(v.l) and one(v.r) or isv(v.r) and one(v.l)))
            return False
        if step:
            if len(step) != 1 or not is_inc(step[0]):
                return NotImplemented
            rest = others = body
        else:
            at = [k for k, x in enumerate(body) if is_inc(x)]
            if len(at) != 1:
                return NotImplemented
            if any(x.k == 'continue' for x in walk_noloops(body[:at[0]])):
                return NotImplemented
            others = body[:at[0]] + body[at[0] + 1:]
            rest = body
        names = self.assigned_names(others)
        if var in names:
            return NotImplemented
        if any(x.k == 'name' and x.id in names | {var} for x in walk(right)):
            return NotImplemented
        lo = self.ev(left)
        hi = self.ev(right)
        if not isinstance(lo, P) or not isinstance(hi, P):
            return NotImplemented
        if op == '<=':
            hi = hi + 1
        if lo.is_const() and hi.is_const():
            return NotImplemented
        if not (lo.is_int() and hi.is_int()):
            return NotImplemented
        fr = self.frames[-1]

        def bind(bp):
            fr.env[var] = bp
        self.sym_loop(var, lo, hi, bind, rest, names | {var}, line, N('name', line, id=var))
        again = self.ev(right)
        if not isinstance(again, P) or (again + 1 if op == '<=' else again) != hi:
            raise Unsupported('bound of a while loop changed by its body', line)
        f = f_le(lo, hi)
        if f is TRUE or smt.valid(self.facts + self.pc, f, 500) == 'valid':
            fr.env[var] = hi
        else:
            fr.env[var] = Poison('counter of a loop that may not execute')
        return None

    # ------------------------------------------------------------ expressions
    def num(self, v, line=None):
        if isinstance(v, P):
            return v
        if isinstance(v, bool):
            return const(int(v))
        if isinstance(v, Fm):
            return ind(v)
        if isinstance(v, Poison):
            raise Unsupported(v.why, line)
        raise Unsupported('number expected, got %r' % (v,), line)

    def ev(self, n):
        m = getattr(self, 'v_' + n.k, None)
        if m is None:
            raise Unsupported('expression ' + (n.d.get('what') or n.k), n.line)
        r = m(n)
        if isinstance(r, Poison):
            raise Unsupported(r.why, n.line)
        return r

    def v_unsupported(self, n):
        raise Unsupported('expression ' + n.what, n.line)

    def v_num(self, n):
        return const(n.value)

    def v_imagunit(self, n):
        return sym('J!')

    def v_const(self, n):
        return n.value

    def v_fstr(self, n):
        if 'specs' in n.d and None not in n.specs:
            return formatted([(self.ev(x), sp) for x, sp in zip(n.xs, n.specs)])
        return Opaque('formatted string')

    def v_name(self, n):
        return self.lookup(n.id, n.line)

    def v_tuple(self, n):
        r = []
        for x in n.xs:
            r.append(self.ev(x))
        return tuple(r)

    def v_list(self, n):
        return SList([self.ev(x) for x in n.xs])

    def v_dict(self, n):
        d = {}
        for k, v in n.d['items']:
            if k is None:
                d.update(self.ev(v))
            else:
                d[self.hashable(self.ev(k))] = self.ev(v)
        return d

    def hashable(self, k):
        return k

    def v_lambda(self, n):
        return self.closure(n.func, self.frames[-1].env)

    def v_addr(self, n):
        x = n.x
        if x.k == 'index':
            o = self.ev(x.obj)
            idx = self.index_values(x.idx)
            if isinstance(o, Ptr):
                return Ptr(o.arr, o.off + idx[0])
            if isinstance(o, View):
                return Ptr(o.arr, self.flat(o.shape, idx))
            if isinstance(o, Arr):
                if len(idx) > 1:
                    return Ptr(o, self.flat(o.shape, idx))
                return Ptr(o, idx[0])
        if x.k == 'name':
            o = self.ev(x)
            if isinstance(o, Arr):
                return Ptr(o, ZERO)
        raise Unsupported('address of', n.line)

    def v_cast(self, n):
        v = self.ev(n.x)
        if n.type.endswith('*'):
            return v
        return self.coerce(v, n.type, n.line)

    def v_ifexp(self, n):
        c = self.cond(self.ev(n.test), n.line)
        if isinstance(c, Fm):
            d = self.decide(c, n.line)
            if d is None:
                self.guards.append(c)
                a = self.ev(n.a)
                self.guards.pop()
                self.guards.append(f_not(c))
                b = self.ev(n.b)
                self.guards.pop()
                return self.ite(c, a, b)
            c = d
        return self.ev(n.a) if c else self.ev(n.b)

    def v_bool(self, n):
        acc = []
        for i, x in enumerate(n.xs):
            v = self.ev(x)
            c = self.cond(v, n.line)
            if isinstance(c, Fm):
                d = None
                if c.free.isdisjoint(self.active_syms()):
                    d = self.decide(c, n.line)
                if d is None:
                    acc.append(c)
                    continue
                c = d
            if n.op == 'and':
                if not c:
                    return v if not acc and not isinstance(v, Fm) else False
            else:
                if c:
                    return v if not acc and not isinstance(v, Fm) else True
            last = v
        if not acc:
            return last if not isinstance(last, Fm) else (n.op == 'and')
        return f_and(*acc) if n.op == 'and' else f_or(*acc)

    def v_un(self, n):
        v = self.ev(n.x)
        if n.op == 'not':
            c = self.cond(v, n.line)
            return f_not(c) if isinstance(c, Fm) else (not c)
        if n.op == '-':
            if isinstance(v, (P, bool, Fm)):
                return -self.num(v, n.line)
            return self.ext_binop('neg', v, None, n.line)
        if n.op == '+':
            return v
        raise Unsupported('unary ' + n.op, n.line)

    def v_cmp(self, n):
        vals = [self.ev(x) for x in n.xs]
        out = None
        for op, a, b in zip(n.ops, vals, vals[1:]):
            r = self.compare(op, a, b, n.line)
            if out is None:
                out = r
            elif isinstance(out, Fm) or isinstance(r, Fm):
                fo = out if isinstance(out, Fm) else (TRUE if out else FALSE)
                fr = r if isinstance(r, Fm) else (TRUE if r else FALSE)
                out = f_and(fo, fr)
            else:
                out = out and r
        if out is TRUE:
            return True
        if out is FALSE:
            return False
        return out

    def compare(self, op, a, b, line):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparison with undefined value', line)
        if op in ('is', 'is_not'):
            if a is None or b is None:
                r = a is b
            elif isinstance(a, P) and isinstance(b, P):
                r = a == b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            else:
                r = a is b
            return r if op == 'is' else not r
        if op in ('in', 'not_in'):
            r = self.contains(a, b, line)
            if isinstance(r, Fm):
                return r if op == 'in' else f_not(r)
            return r if op == 'in' else not r
        if isinstance(a, (bool, Fm)) and not isinstance(b, (str, type(None))):
            a = self.num(a)
        if isinstance(b, (bool, Fm)) and not isinstance(a, (str, type(None))):
            b = self.num(b)
        if isinstance(a, P) and isinstance(b, P):
            if op == '==':
                return f_eq(a, b)
            if op == '!=':
                return f_not(f_eq(a, b))
            return {'<': f_lt, '<=': f_le, '>': lambda x, y: f_lt(y, x), '>=': lambda x, y: f_le(y, x)}[op](a, b)
        if op in ('==', '!='):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if len(a) != len(b) or type(a) != type(b):
                    return op == '!='
                fs = []
                for x, y in zip(a, b):
                    c = self.compare('==', x, y, line)
                    if c is False or c is FALSE:
                        return op == '!='
                    if isinstance(c, Fm) and c is not TRUE:
                        fs.append(c)
                r = f_and(*fs) if fs else True
                if r is TRUE:
                    r = True
                if op == '!=':
                    return f_not(r) if isinstance(r, Fm) else not r
                return r
            if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
                raise Unsupported('comparison of opaque values', line)
            if isinstance(a, (Arr, View)) or isinstance(b, (Arr, View)):
                raise Unsupported('array comparison', line)
            try:
                r = (a is b) or (type(a) == type(b) and not isinstance(a, (Obj,)) and a == b)
            except Exception:
                raise Unsupported('comparison', line)
            return r if op == '==' else not r
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if a is None or b is None:
            raise PathRaise('TypeError: comparison with None', line)
        raise Unsupported('comparison %s of %r and %r' % (op, a, b), line)

    def contains(self, a, b, line):
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, (list, tuple)) or isinstance(b, dict):
            fs = []
            for x in b:
                c = self.compare('==', a, x, line)
                if c is True or c is TRUE:
                    return True
                if isinstance(c, Fm) and c is not FALSE:
                    fs.append(c)
            return f_or(*fs) if fs else False
        raise Unsupported('in %r' % (b,), line)

    def cint_typed(self, n):
        """static C typing: is the expression of integer type?"""
        k = n.k
        if k == 'num':
            return n.isint
        if k == 'name':
            fr = self.frames[-1]
            ty = (fr.fd.decls or {}).get(n.id)
            if ty is None:
                for p in fr.fd.params:
                    if p[0] == n.id:
                        ty = p[1]
            if ty is None and fr.fd.module:
                ty = fr.fd.module.decls.get(n.id)
            return ty in INT_TYPES
        if k == 'bin':
            return self.cint_typed(n.l) and self.cint_typed(n.r)
        if k == 'un':
            return True if n.op == 'not' else self.cint_typed(n.x)
        if k == 'cast':
            return n.type in INT_TYPES
        if k in ('cmp', 'bool'):
            return True
        if k == 'ifexp':
            return self.cint_typed(n.a) and self.cint_typed(n.b)
        if k == 'index':
            o = n.obj
            if o.k == 'name':
                ty = (self.frames[-1].fd.decls or {}).get(o.id, '')
                if not ty:
                    for p in self.frames[-1].fd.params:
                        if p[0] == o.id:
                            ty = p[1] or ''
                if not ty:
                    v = None
                    try:
                        v = self.lookup(o.id)
                    except Exception:
                        pass
                    if isinstance(v, Arr):
                        ty = v.dtype
                return ty.rstrip('*') in INT_TYPES
            return False
        if k == 'call':
            if n.func.k == 'name':
                v = self.lookup(n.func.id)
                if isinstance(v, Func):
                    return v.fd.rettype in INT_TYPES
                return n.func.id in ('abs',)
            return False
        return False

    def v_bin(self, n):
        a = self.ev(n.l)
        b = self.ev(n.r)
        lang = self.frames[-1].fd.lang
        if n.op in ('/', '%') and lang == 'c' and self.cint_typed(n.l) and self.cint_typed(n.r):
            return self.cdiv(n.op, a, b, n.line)
        return self.binop(n.op, a, b, n.line)

    def cdiv(self, op, a, b, line):
        a, b = self.num(a), self.num(b)
        if a.is_const() and b.is_const():
            x, y = int(a.const()), int(b.const())
            if y == 0:
                raise Unsupported('division by zero', line)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return const(q if op == '/' else x - q * y)
        return app('cdiv' if op == '/' else 'mod', a, b)

    def binop(self, op, a, b, line):
        if isinstance(a, (bool, Fm)) and not isinstance(b, (str, list)):
            a = self.num(a)
        if isinstance(b, (bool, Fm)) and not isinstance(a, (str, list)):
            b = self.num(b)
        if isinstance(a, P) and isinstance(b, P):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if b.is_zero():
                    raise PathRaise('ZeroDivisionError', line)
                return a / b
            if op == '**':
                return a ** b
            if op == '%':
                if a.is_const() and b.is_const() and b.const() != 0:
                    return const(a.const() - b.const() * (a.const() // b.const()))
                r = self.reduce_mod(a, b)
                return r if r is not None else app('mod', a, b)
            if op == '//':
                if a.is_const() and b.is_const() and b.const() != 0:
                    return const(a.const() // b.const())
                return app('floordiv', a, b)
            if op == '@':
                return app('matmul', a, b)
            raise Unsupported('operator ' + op, line)
        if isinstance(a, str) and op == '%':
            return percent(a, list(b) if isinstance(b, tuple) else [b])
        if isinstance(a, str) and isinstance(b, str) and op == '+':
            return a + b
        if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)):
            return Opaque('string')
        if op == '+' and (isinstance(a, (SymSeq, SegList)) or isinstance(b, (SymSeq, SegList)) or
                          any(isinstance(x, SList) and x.lifted() for x in (a, b))):
            x, y = segments(a), segments(b)
            if x is not None and y is not None:
                return SegList(x + y)
        if isinstance(a, list) and isinstance(b, list) and op == '+':
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, (list, tuple)) and isinstance(b, P) and b.is_const() and op == '*':
            return a * int(b.const())
        if isinstance(a, Ptr) and isinstance(b, P) and op in '+-':
            return Ptr(a.arr, a.off + b if op == '+' else a.off - b)
        if (a is None) != (b is None) and (isinstance(a, P) or isinstance(b, P)):
            raise PathRaise('TypeError: operand None', line)
        return self.ext_binop(op, a, b, line)

    def reduce_mod(self, a, b):
        """a % b for integers with b a symbol: multiples of b dropped, when the rest is known to lie in the right range"""
        d = b.as_atom()
        if d is None or d.kind != 'sym' or not a.is_int() or not b.is_int():
            return None
        rest = ZERO
        for m, c in a.t.items():
            hit = [x for at, x in m if at is d]
            if hit and hit[0] >= 1 and P({m: c}).is_int() and all(x > 0 for at, x in m):
                continue
            rest = rest + P({m: c})
        from . import smt
        hy = self.hyps()
        for k in (0, 1, -1):
            r = rest + const(k) * b
            if smt.valid(hy, f_and(f_le(ZERO, r), f_lt(r, b)), 2000) == 'valid':
                return r
        return None

    def ext_binop(self, op, a, b, line):
        raise Unsupported('operator %s on %r, %r' % (op, a, b), line)

    def v_attr(self, n):
        o = self.ev(n.obj)
        return self.getattr(o, n.attr, n.line)

    def getattr(self, o, name, line=None):
        if isinstance(o, Obj):
            if name == '__class__':
                return Obj('type', {'__name__': o.clsname})
            if name == '__dict__':
                return o.attrs
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported('attribute %s: %s' % (name, v.why), line)
                return v
            if isinstance(o.cls, ClassDef):
                f = self.find_method(o.cls, name)
                if f is not None:
                    return self.member(f, o, ClassRef(o.cls), line)
                a = self.class_attr(o.cls, name, line)
                if a is not None and name != '__slots__':
                    return a[0]
            if o.lazy is not None:
                v = o.lazy(name)
                if v is not None or getattr(o, 'lazy_none', False):
                    return v
            raise PathRaise('AttributeError: %s.%s' % (o.clsname, name), line)
        if isinstance(o, ModRef):
            g = self.modglobals(o.mod)
            if name in g:
                return g[name]
            sub = self.loader.find(o.mod.name + '.' + name)
            if sub is not None:
                return ModRef(sub)
            raise PathRaise('AttributeError: module %s has no %s' % (o.mod.name, name), line)
        if isinstance(o, ClassRef):
            if name == '__name__':
                return o.cls.name
            f = self.find_method(o.cls, name)
            if f is not None:
                return self.member(f, None, o, line)
            a = self.class_attr(o.cls, name, line)
            if a is not None:
                return a[0]
            raise Unsupported('attribute %s of a class' % name, line)
        if isinstance(o, Extern):
            return EXTCONST.get(o.name + '.' + name) or Extern(o.name + '.' + name)
        if isinstance(o, (Arr, View)):
            if name == 'shape':
                return tuple(o.shape)
            if name == 'size':
                r = ONE
                for x in o.shape:
                    r = r * x
                return r
            if name == 'ndim':
                return const(len(o.shape))
        r = self.ext_attr(o, name, line)
        if r is not None:
            return r
        raise Unsupported('attribute %s of %r' % (name, o), line)

    def ext_attr(self, o, name, line):
        from . import builtins as B
        return B.attribute(self, o, name, line)

    def find_method(self, cls, name):
        if name in cls.funcs:
            return cls.funcs[name], cls
        for b in cls.bases:
            if b.k == 'name':
                g = self.modglobals(cls.module)
                c = g.get(b.id)
                if isinstance(c, ClassRef):
                    r = self.find_method(c.cls, name)
                    if r:
                        return r
        return None

    def ev_index(self, i):
        if i.k == 'slice':
            return slice(self.ev(i.lo) if i.lo is not None else None, self.ev(i.hi) if i.hi is not None else None,
                         self.ev(i.step) if i.step is not None else None)
        return self.ev(i)

    def v_index(self, n):
        o = self.ev(n.obj)
        idx = [self.ev_index(i) for i in n.idx]
        return self.getitem(o, idx, n.line)

    def getitem(self, o, idx, line=None):
        if isinstance(o, (Arr, Ptr, View)):
            if len(idx) == 1 and isinstance(idx[0], tuple):
                idx = list(idx[0])
            if all(isinstance(i, (P, bool)) for i in idx):
                ix = tuple(self.num(i) for i in idx)
                nd = len(o.shape) if not isinstance(o, Ptr) and o.shape is not None else 1
                if len(ix) < nd:
                    from . import builtins as B
                    return B.row_view(self, o, ix, line)
                arr, ix = self.resolve_index(o, ix, line)
                return self.arr_get(arr, ix, line)
            from . import builtins as B
            return B.slice_array(self, o, idx, line)
        if isinstance(o, (list, tuple, str)) and len(idx) == 1:
            i = idx[0]
            if isinstance(i, slice):
                def g(x):
                    if x is None:
                        return None
                    if not x.is_const():
                        raise Unsupported('symbolic slice of a list', line)
                    return int(x.const())
                return o[slice(g(i.start), g(i.stop), g(i.step))]
            if isinstance(i, P) and i.is_const():
                try:
                    return o[int(i.const())]
                except IndexError:
                    raise PathRaise('IndexError', line)
            raise Unsupported('symbolic index of a list', line)
        if isinstance(o, dict):
            k = idx[0] if len(idx) == 1 else tuple(idx)
            try:
                if k in o:
                    return o[k]
            except TypeError:
                pass
            if isinstance(k, Opaque) or (isinstance(k, P) and not k.is_const()):
                raise Unsupported('symbolic dictionary key', line)
            raise PathRaise('KeyError: %r' % (k,), line)
        if isinstance(o, SymSeq) and len(idx) == 1 and isinstance(idx[0], P):
            i = idx[0]
            if i.is_const() and i.const() < 0:
                i = o.n + i
            return o.getter(i)
        if isinstance(o, Obj):
            h = getattr(o, 'getitem', None)
            if h:
                return h(self, idx, line)
            f = self.find_method(o.cls, '__getitem__') if isinstance(o.cls, ClassDef) else None
            if f:
                return self.call_function(Func(f[0], None, o, f[1]), [idx[0]], {}, line)
        from . import builtins as B
        return B.opaque_index(self, o, idx, line)

    def v_comp(self, n):
        saved = dict(self.frames[-1].env)
        out = []

        def rec(gi):
            if gi == len(n.gens):
                out.append(self.ev(n.elt))
                return
            tgt, it, ifs = n.gens[gi]
            k = self.iterate(self.ev(it), n.line)
            if k[0] != 'conc':
                raise SymComp(k)
            for v in k[1]:
                self.assign(tgt, v, n.line)
                ok = True
                for c in ifs:
                    cv = self.cond(self.ev(c), n.line)
                    if isinstance(cv, Fm):
                        cv = self.decide(cv, n.line)
                        if cv is None:
                            raise Unsupported('comprehension condition', n.line)
                    if not cv:
                        ok = False
                        break
                if ok:
                    rec(gi + 1)
        try:
            try:
                rec(0)
            except SymComp as sc:
                if len(n.gens) != 1 or n.gens[0][2] or n.kind == 'dict':
                    raise Unsupported('comprehension over a symbolic sequence', n.line)
                tgt = n.gens[0][0]
                env = dict(self.frames[-1].env)
                fr0 = self.frames[-1]

                def elem(i, getter=None, lo=ZERO):
                    f2 = Frame(fr0.fd, dict(env))
                    f2.loop_base = len(self.loops)
                    f2.guard_base = len(self.guards)
                    self.frames.append(f2)
                    try:
                        self.assign(tgt, getter(lo + i if i is not None else None), n.line)
                        return self.ev(n.elt)
                    finally:
                        self.frames.pop()
                if sc.k[0] == 'segs':
                    r = []
                    for g in sc.k[1]:
                        if g[0] == 'conc':
                            r.append(('conc', [elem(None, lambda _, x=x: x) for x in g[1]]))
                        else:
                            r.append(('sym', g[1], lambda i, h=g[2]: elem(i, h)))
                    return SegList(r)
                _, lo, hi, getter = sc.k
                return SymSeq(hi - lo, lambda i: elem(i, getter, lo))
        finally:
            self.frames[-1].env.clear()
            self.frames[-1].env.update(saved)
        if n.kind == 'dict':
            return {k: v for k, v in out}
        return SList(out)

    def v_cassign(self, n):
        raise Unsupported('assignment inside an expression', n.line)

    def v_incdec(self, n):
        if n.x.k != 'name':
            raise Unsupported('++ on a non-variable', n.line)
        old = self.ev(n.x)
        new = old + 1 if n.op == '++' else old - 1
        self.assign(n.x, new, n.line)
        return new if n.pre else old

    def v_call(self, n):
        f = n.func
        # method calls on special values are resolved in builtins
        if f.k == 'attr':
            o = self.ev(f.obj)
            args, kw = self.ev_args(n)
            return self.call_method(o, f.attr, args, kw, n.line)
        fn = self.ev(f)
        args, kw = self.ev_args(n)
        return self.call(fn, args, kw, n.line)

    def ev_args(self, n):
        args = []
        for a in n.args:
            if a.k == 'star':
                v = self.ev(a.x)
                if not isinstance(v, (list, tuple)):
                    raise Unsupported('star argument', n.line)
                args.extend(v)
            else:
                args.append(self.ev(a))
        kw = {}
        for k, v in n.kwargs:
            if k is None:
                v = self.ev(v)
                if not isinstance(v, dict):
                    raise Unsupported('** argument', n.line)
                kw.update(v)
            else:
                kw[k] = self.ev(v)
        return args, kw

    def call(self, fn, args, kw, line=None):
        if isinstance(fn, Func):
            return self.call_function(fn, args, kw, line)
        if isinstance(fn, Builtin):
            return fn.fn(self, args, kw, line)
        if isinstance(fn, Extern):
            return self.call_extern(fn.name, args, kw, line)
        if isinstance(fn, ClassRef):
            return self.instantiate(fn.cls, args, kw, line)
        if isinstance(fn, Opaque):
            return Opaque('call of opaque')
        raise Unsupported('call of %r' % (fn,), line)

    def instantiate(self, cls, args, kw, line):
        qn = cls.module.name + '.' + cls.name
        if qn in self.contracts:
            return self.contracts[qn](self, args, kw)
        o = Obj(cls)
        f = self.find_method(cls, '__init__')
        if f:
            self.call_function(Func(f[0], None, o, f[1]), args, kw, line)
        return o

    def call_method(self, o, name, args, kw, line):
        if isinstance(o, (Obj, ModRef, Extern, ClassRef)):
            if isinstance(o, Obj) and name in getattr(o, 'methods', {}):
                return o.methods[name](self, args, kw, line)
            if isinstance(o, ClassRef):
                f = self.find_method(o.cls, name)
                if f:
                    return self.call_function(self.member(f, None, o, line), args, kw, line)
            return self.call(self.getattr(o, name, line), args, kw, line)
        if type(o).__name__ == 'File':
            return self.file_method(self, o, name, args, line)
        from . import builtins as B
        return B.method(self, o, name, args, kw, line)

    def call_extern(self, name, args, kw, line):
        f = self.externs.get(name)
        if f is None:
            for p, g in self.extern_prefix.items():
                if name.startswith(p):
                    f = g
        if f is None:
            raise Unsupported('call of external %s' % name, line)
        return f(self, args, kw, line)


def formatted(parts):
    """text made of concrete strings, and integers printed as such: (value, conversion) each"""
    out = ''
    for v, spec in parts:
        if isinstance(v, P) and v.is_const() and v.const().denominator == 1 and re.fullmatch(r'0?[0-9]*d', spec):
            out += format(int(v.const()), spec)
        elif isinstance(v, str) and spec in ('', 's'):
            out += v
        else:
            return Opaque('formatted string')
    return out


def percent(text, args):
    parts, k = [], 0
    for lit, pc, spec in re.findall(r'([^%]*)(?:(%)([-+ #0-9.]*[a-zA-Z%]))?', text):
        parts.append((lit, ''))
        if not pc:
            continue
        if spec == '%':
            parts.append(('%', ''))
            continue
        if k >= len(args):
            return Opaque('formatted string')
        parts.append((args[k], spec))
        k += 1
    return formatted(parts) if k == len(args) else Opaque('formatted string')


def braces(text, args):
    parts, k = [], 0
    try:
        fields = list(string.Formatter().parse(text))
    except ValueError:
        return Opaque('formatted string')
    for lit, name, spec, conv in fields:
        parts.append((lit, ''))
        if name is None:
            continue
        if conv or name not in ('', str(k)) or k >= len(args):
            return Opaque('formatted string')
        parts.append((args[k], spec))
        k += 1
    return formatted(parts)


class SymComp(Exception):
    def __init__(self, k):
        self.k = k


def walk_noloops(x):
    if isinstance(x, N):
        yield x
        if x.k in ('for', 'while', 'cfor'):
            return
        for v in x.d.values():
            for y in walk_noloops(v):
                yield y
    elif isinstance(x, (list, tuple)):
        for v in x:
            for y in walk_noloops(v):
                yield y


def same_ir(a, b):
    if isinstance(a, N) and isinstance(b, N):
        if a.k != b.k or set(a.d) != set(b.d):
            return False
        return all(same_ir(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_ir(x, y) for x, y in zip(a, b))
    return a == b


class Call:
    """record of a contracted call with side effects"""
    def __init__(self, name, args, guard, binders, line=None):
        self.name = name
        self.args = args
        self.guard = guard
        self.binders = binders
        self.line = line

    def substituted(self, s):
        return Call(self.name, {k: (subst(v, s) if isinstance(v, (P, Fm)) else v) for k, v in self.args.items()},
                    subst_fm(self.guard, s), tuple((b, subst(lo, s), subst(hi, s)) for b, lo, hi in self.binders), self.line)


def explore(make, limit=400):
    """run make(decisions) -> executor for every feasible path"""
    stack = [()]
    out = []
    while stack:
        pre = stack.pop()
        ex = make(pre)
        out.append(ex)
        if len(out) > limit:
            raise Unsupported('more than %d paths' % limit)
        for i in range(len(pre), len(ex.trace)):
            v, forced = ex.trace[i]
            if not forced:
                stack.append(tuple(ex.trace[:i]) + ((not v, False),))
    if all(smt.check(ex.pc + ex.facts, 1000)[0] == 'unsat' for ex in out):
        raise Unsupported('no path satisfies the assumptions')
    return out
