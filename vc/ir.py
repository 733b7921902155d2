"""Common intermediate representation for .pyx / .py / .cpp sources."""


class N:
    __slots__ = ('k', 'line', 'd')

    def __init__(self, k, line=0, **d):
        self.k = k
        self.line = line
        self.d = d

    def __getattr__(self, name):
        try:
            return self.d[name]
        except KeyError:
            raise AttributeError(name)

    def __repr__(self):
        return '%s(%s)' % (self.k, ', '.join('%s=%r' % x for x in self.d.items()))


class FuncDef:
    def __init__(self, name, params, body, line, module, decls=None, rettype=None, nested=None):
        self.name = name
        self.params = params        # list of (name, ctype or None, default N or None)
        self.star = None            # *args name
        self.starstar = None
        self.body = body
        self.line = line
        self.module = module
        self.decls = decls or {}    # name -> ctype string
        self.rettype = rettype
        self.lang = None
        self.decorators = []
        self.nline = 0              # number of statements

    def __repr__(self):
        return '<FuncDef %s.%s>' % (self.module.name if self.module else '?', self.name)


class ClassDef:
    def __init__(self, name, bases, body_funcs, assigns, line, module):
        self.name = name
        self.bases = bases
        self.funcs = body_funcs
        self.assigns = assigns
        self.line = line
        self.module = module


class Module:
    def __init__(self, name, path, lang):
        self.name = name
        self.path = path
        self.lang = lang            # 'pyx' | 'py' | 'c'
        self.funcs = {}
        self.classes = {}
        self.toplevel = []          # module level statements (IR)
        self.externs = {}           # name -> header
        self.globals = {}           # evaluated lazily
        self.decls = {}


class Unsupported(Exception):
    """A construct outside the verifier's language: nothing is decided."""
    def __init__(self, msg, line=None):
        Exception.__init__(self, msg + ('' if line is None else ' (line %s)' % line))
        self.msg = msg
        self.line = line


def walk(n):
    """all N nodes below n (lists and tuples included)"""
    if isinstance(n, N):
        yield n
        for v in n.d.values():
            for x in walk(v):
                yield x
    elif isinstance(n, (list, tuple)):
        for v in n:
            for x in walk(v):
                yield x
