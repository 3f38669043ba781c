"""Abstract values, heap and program model."""
import ast
import os
from .algebra import *      # noqa


class Val(object):
    __slots__ = ()


class Con(Val):
    """a Python constant: None, bool, str, Ellipsis, ..."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


NONE = Con(None)
TRUE = Con(True)
FALSE = Con(False)


class Num(Val):
    """a Python number"""
    __slots__ = ('p', 'isint')

    def __init__(self, p, isint=False):
        self.p = poly(p)
        self.isint = isint

    def __repr__(self):
        return 'Num(%r)' % self.p


class Cond(Val):
    """a truth value given by a 0/1 expression"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'Cond(%r)' % self.p


class Arr(Val):
    __slots__ = ('loc', 'view')

    def __init__(self, loc, view=()):
        self.loc = loc
        self.view = tuple(view)

    def __repr__(self):
        return 'Arr@%d%s' % (self.loc, list(self.view) if self.view else '')


class Lst(Val):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Lst@%d' % self.loc


class Dct(Val):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Tup(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Obj(Val):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Obj@%d' % self.loc


class Cls(Val):
    __slots__ = ('info',)

    def __init__(self, info):
        self.info = info


class Fn(Val):
    """repository function or bound method; closure env for lambdas/nested"""
    __slots__ = ('info', 'self', 'env')

    def __init__(self, info, self_=None, env=None):
        self.info = info
        self.self = self_
        self.env = env

    def __repr__(self):
        return 'Fn(%s)' % self.info.qual


class Ext(Val):
    """external (library) name, canonical dotted path"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class BM(Val):
    """method of a builtin value: (receiver, name)"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class UFn(Val):
    """caller-supplied callable; spec(interp, st, args, kw) -> value"""
    __slots__ = ('name', 'spec')

    def __init__(self, name, spec):
        self.name = name
        self.spec = spec

    def __repr__(self):
        return 'UFn(%s)' % self.name


class Opq(Val):
    """opaque non-None value"""
    __slots__ = ('name', 'args')

    def __init__(self, name, args=()):
        self.name = name
        self.args = args

    def __repr__(self):
        return 'Opq(%s)' % self.name


class It(Val):
    """iterable of symbolic or concrete length: get(lin) -> value"""
    __slots__ = ('count', 'get')

    def __init__(self, count, get):
        self.count = count
        self.get = get


class Phi(Val):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Phi(%r, %r, %r)' % (self.c, self.a, self.b)


class Slice(Val):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Top(Val):
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


# heap contents ------------------------------------------------------------
class ArrC(object):
    __slots__ = ('ten', 'prov', 'int')

    def __init__(self, ten, prov=None, isint=False):
        self.ten = ten          # Ten, or Top
        self.prov = prov
        self.int = isint

    def same(self, o):
        return isinstance(o, ArrC) and (self.ten is o.ten or (isinstance(self.ten, Ten) and isinstance(o.ten, Ten) and self.ten == o.ten))


class ListC(object):
    """segments: ('v',value) | ('k',count,value) | ('r',count,var,template) | ('c',id,lenpoly)"""
    __slots__ = ('segs', 'prov')

    def __init__(self, segs, prov=None):
        self.segs = list(segs)
        self.prov = prov

    def same(self, o):
        if not isinstance(o, ListC) or len(self.segs) != len(o.segs):
            return False
        for a, b in zip(self.segs, o.segs):
            if a[0] != b[0]:
                return False
            if a[0] == 'v' and not same_val(a[1], b[1]):
                return False
            if a[0] == 'k' and not (a[1] == b[1] and same_val(a[2], b[2])):
                return False
            if a[0] in 'rc' and a is not b:
                return False
        return True


class DictC(object):
    """mapping with constant keys; kind None | 'set' | factory value of a defaultdict"""
    __slots__ = ('d', 'prov', 'open', 'kind')

    def __init__(self, d, prov=None, open_=None, kind=None):
        self.d = dict(d)
        self.prov = prov
        self.open = open_
        self.kind = kind

    def put(self, d):
        return DictC(d, self.prov, self.open, self.kind)

    def same(self, o):
        return isinstance(o, DictC) and self.d.keys() == o.d.keys() and all(same_val(self.d[k], o.d[k]) for k in self.d)


class ObjC(object):
    __slots__ = ('cls', 'attrs', 'prov')
    open = None
    kind = None

    def __init__(self, cls, attrs=None, prov=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.prov = prov

    # the object's __dict__ (a Dct with the location of the object)
    @property
    def d(self):
        return self.attrs

    def put(self, d):
        return ObjC(self.cls, d, self.prov)

    def same(self, o):
        return isinstance(o, ObjC) and self.attrs.keys() == o.attrs.keys() and all(same_val(self.attrs[k], o.attrs[k]) for k in self.attrs)


class SymObjC(object):
    """symbolic family of objects (a list of filters): fields are arrays with a
    leading member index.  fields: name -> (loc of ArrC with leading axis)"""
    __slots__ = ('count', 'fields', 'methods', 'prov', 'name', 'scalars')

    def __init__(self, name, count, fields, scalars, methods, prov=None):
        self.name = name
        self.count = count
        self.fields = dict(fields)
        self.scalars = set(scalars)
        self.methods = methods
        self.prov = prov

    def same(self, o):
        return isinstance(o, SymObjC) and self.fields == o.fields


class SObj(Val):
    """one member of a SymObjC family"""
    __slots__ = ('loc', 'idx')

    def __init__(self, loc, idx):
        self.loc = loc
        self.idx = idx


def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Con):
        return a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v)
    if isinstance(a, Num):
        return a.p == b.p
    if isinstance(a, Cond):
        return a.p == b.p
    if isinstance(a, Arr):
        return a.loc == b.loc and repr(a.view) == repr(b.view)
    if isinstance(a, (Lst, Dct, Obj)):
        return a.loc == b.loc
    if isinstance(a, SObj):
        return a.loc == b.loc and a.idx == b.idx
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Cls):
        return a.info is b.info
    if isinstance(a, Fn):
        return a.info is b.info and (a.self is b.self or (a.self is not None and b.self is not None and same_val(a.self, b.self)))
    if isinstance(a, Ext):
        return a.name == b.name
    if isinstance(a, UFn):
        return a.name == b.name
    if isinstance(a, Opq):
        return a.name == b.name and len(a.args) == len(b.args) and all(same_val(x, y) if isinstance(x, Val) else x == y for x, y in zip(a.args, b.args))
    if isinstance(a, Phi):
        return a.c == b.c and same_val(a.a, b.a) and same_val(a.b, b.b)
    if isinstance(a, BM):
        return a.name == b.name and same_val(a.recv, b.recv)
    return False


_loc = itertools.count(1)


class State(object):
    __slots__ = ('heap', 'env', 'assume', 'path')

    def __init__(self):
        self.heap = {}
        self.env = {}
        self.assume = {}
        self.path = ()       # conditions (Poly, bool) taken since analysis start

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.env = dict(self.env)
        s.assume = dict(self.assume)
        s.path = self.path
        return s

    def new(self, content):
        l = next(_loc)
        self.heap[l] = content
        return l

    def arr(self, ten, prov=None):
        return Arr(self.new(ArrC(ten, prov)))

    def lst(self, items, prov=None):
        return Lst(self.new(ListC([('v', i) for i in items], prov)))


# program model -------------------------------------------------------------
class AnchorMissing(Exception):
    pass


class FuncInfo(object):
    def __init__(self, node, mod, cls=None, outer=None):
        self.node = node
        self.mod = mod
        self.cls = cls
        self.outer = outer       # frame of the enclosing function
        self.dvals = None        # default values evaluated at definition (nested functions)
        self.decos = []          # decorators with an effect of their own
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = (cls.name + '.' if cls else '') + self.name
        self.kind = 'func'
        for d in getattr(node, 'decorator_list', []):
            t = ast.unparse(d)
            if t == 'property':
                self.kind = 'property'
            elif t.endswith('.setter'):
                self.kind = 'setter'
            elif t == 'staticmethod':
                self.kind = 'static'
            elif t == 'classmethod':
                self.kind = 'class'
            else:
                self.decos.append(d)

    def inner(self):
        '''names local to the function'''
        if not hasattr(self, '_inner'):
            from . import flow
            b = [self.node.body] if isinstance(self.node, ast.Lambda) else self.node.body
            l, g = flow.bound_names(b)
            self._inner = (l | set(flow.params(self.node))) - g
        return self._inner

    def nonlocal_names(self):
        if not hasattr(self, '_nonlocal'):
            self._nonlocal = set()
            if not isinstance(self.node, ast.Lambda) and self.outer is not None:
                for n in ast.walk(self.node):
                    if isinstance(n, ast.Nonlocal):
                        self._nonlocal |= set(n.names)
        return self._nonlocal

    @property
    def where(self):
        return '%s:%d' % (self.mod.rel, self.node.lineno)


class ClassInfo(object):
    def __init__(self, node, mod):
        self.node = node
        self.mod = mod
        self.name = node.name
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.consts = {}
        self.basenames = [ast.unparse(b) for b in node.bases]
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = FuncInfo(s, mod, self)
                if f.kind == 'property':
                    self.props[s.name] = f
                elif f.kind == 'setter':
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
                        if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == 'property':
                            a = s.value.args
                            if a and isinstance(a[0], ast.Name) and a[0].id in self.methods:
                                self.props[t.id] = self.methods[a[0].id]
                            if len(a) > 1 and isinstance(a[1], ast.Name) and a[1].id in self.methods:
                                self.setters[t.id] = self.methods[a[1].id]

    def bases(self):
        for b in self.basenames:
            r = self.mod.resolve_class(b)
            if r is not None:
                yield r

    def find(self, kind, name):
        d = getattr(self, kind)
        if name in d:
            return d[name]
        for b in self.bases():
            r = b.find(kind, name)
            if r is not None:
                return r
        return None


class Module(object):
    def __init__(self, prog, name, path, rel):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = rel
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs = {}
        self.classes = {}
        self.imports = {}      # local name -> ('mod', dotted) | ('from', dotted, name)
        self.stars = []
        self.globals = {}      # name -> value expr (module level assignment)
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = FuncInfo(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pk = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (s.level - 1)]
                    base = '.'.join(pk + ([base] if base else []))
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                # a guarded import or feature test is taken to succeed
                known = [(d, dict(d)) for d in (self.funcs, self.classes, self.imports, self.globals)]
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body)
                for d, old in known:
                    d.update(old)
                self._scan(s.body)
                self._scan(s.orelse)

    def resolve_class(self, name):
        v = self.resolve(name)
        return v.info if isinstance(v, Cls) else None

    def resolve(self, name, seen=()):
        """module-level name -> Val or None"""
        if '.' in name:
            head, rest = name.split('.', 1)
            v = self.resolve(head)
            for part in rest.split('.'):
                if isinstance(v, Ext):
                    v = self.prog.dotted(v.name + '.' + part)
                else:
                    return None
            return v
        if name in self.funcs:
            return Fn(self.funcs[name])
        if name in self.classes:
            return Cls(self.classes[name])
        if name in self.imports:
            i = self.imports[name]
            if i[0] == 'mod':
                return self.prog.dotted(i[1])
            return self.prog.dotted(i[1] + '.' + i[2], seen + (self.name,))
        for base in self.stars:
            m = self.prog.module(base)
            if m is not None and m.name not in seen:
                v = m.resolve(name, seen + (self.name,))
                if v is not None:
                    return v
        return None


class Program(object):
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.parsed = []

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, *name.split('.'))
        m = None
        for path in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(path):
                m = Module(self, name, path, os.path.relpath(path, self.root))
                break
        self.mods[name] = m
        if m is not None:
            self.parsed.append(m)
        return m

    def dotted(self, name, seen=()):
        """resolve a dotted path to a repository entity or an Ext"""
        if name.split('.')[0] != 'filterpy':
            return Ext(name)
        base, _, last = name.rpartition('.')
        m = self.module(name)
        if m is not None:
            # a package may rebind a submodule's name to the function it imports from it
            b = self.module(base) if base else None
            v = b.resolve(last, seen) if b is not None and b.name not in seen else None
            return v if isinstance(v, (Fn, Cls)) else Ext(name)
        m = self.module(base)
        if m is not None:
            v = m.resolve(last, seen)
            if v is not None:
                return v
            if last in m.globals:
                return Ext(name)
        return Ext('?' + name)

    def cls(self, mod, name):
        m = self.module(mod)
        if m is None:
            raise AnchorMissing('module %s' % mod)
        v = m.resolve(name)
        if not isinstance(v, Cls):
            raise AnchorMissing('class %s.%s' % (mod, name))
        return v.info

    def func(self, mod, name):
        m = self.module(mod)
        if m is None:
            raise AnchorMissing('module %s' % mod)
        v = m.resolve(name)
        if not isinstance(v, Fn):
            raise AnchorMissing('function %s.%s' % (mod, name))
        return v.info

    def extra(self, name, path):
        """add a module of reference programs"""
        m = self.mods.get(name)
        if m is None:
            m = self.mods[name] = Module(self, name, path, os.path.basename(path))
        return m

    def all_modules(self):
        out = []
        for d, ds, fs in os.walk(os.path.join(self.root, 'filterpy')):
            ds.sort()
            if os.path.basename(d) in ('tests', '__pycache__', 'examples'):
                ds[:] = []
                continue
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    m = self.module(rel)
                    if m is not None:
                        out.append(m)
        return out
