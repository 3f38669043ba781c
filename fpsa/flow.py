"""Whole-program syntactic dataflow: scopes, definite assignment, strong
liveness, attribute and call resolution.  Nothing is imported or executed from
the analysed tree; names exported by installed libraries are read from their
source or stub files."""
import ast
import builtins
import glob
import importlib.util
import os
import sys

from .values import Fn, Cls, Ext

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__class__', '__package__', '__path__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


# ------------------------------------------------------------------- binding
def params(node):
    a = node.args
    out = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def walk_scope(nodes):
    """nodes of one scope: does not enter nested functions, classes or comprehensions"""
    work = list(nodes)
    while work:
        n = work.pop(0)
        yield n
        if isinstance(n, FUNCS):
            a = n.args
            work = [x for x in a.defaults + a.kw_defaults if x is not None] + list(getattr(n, 'decorator_list', [])) + work
        elif isinstance(n, ast.ClassDef):
            work = list(n.bases) + list(n.decorator_list) + work
        elif isinstance(n, COMPS):
            work = [n.generators[0].iter] + work
        else:
            work = list(ast.iter_child_nodes(n)) + work


def bound_names(nodes):
    """names bound by the statements of one scope"""
    out, glob_ = set(), set()
    for n in walk_scope(nodes):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob_ |= set(n.names)
        elif isinstance(n, COMPS):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
    return out - glob_, glob_


def prune(body):
    """statements of a block that can be reached (after an unconditional exit nothing is)"""
    out = []
    for s in body:
        out.append(s)
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            break
    return out


class Prune(ast.NodeTransformer):
    """drops statements after an unconditional exit of their block"""

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, prune(b))
        return ast.NodeTransformer.generic_visit(self, n)


class Scope(object):
    def __init__(self, node, outer, names, kind):
        self.node, self.outer, self.names, self.kind = node, outer, names, kind

    def lookup(self, name):
        s, first = self, True
        while s is not None:
            if name in s.names and (first or s.kind != 'class'):
                return s
            first = False
            s = s.outer
        return None


def scopes(mod):
    """(scope, nodes) of every scope of a module"""
    out = []

    def visit(body, scope):
        out.append((scope, body))
        for n in walk_scope(body):
            if isinstance(n, FUNCS):
                b = [n.body] if isinstance(n, ast.Lambda) else n.body
                loc, gl = bound_names(b)
                visit(b, Scope(n, scope, (loc | set(params(n))) - gl, 'func'))
            elif isinstance(n, ast.ClassDef):
                loc, gl = bound_names(n.body)
                visit(n.body, Scope(n, scope, loc - gl, 'class'))
            elif isinstance(n, COMPS):
                names = set()
                for g in n.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            names.add(x.id)
                body2 = []
                for i, g in enumerate(n.generators):
                    body2 += [g.target] + g.ifs + ([g.iter] if i else [])
                body2 += [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
                visit(body2, Scope(n, scope, names, 'comp'))
    loc, gl = bound_names(mod.tree.body)
    allg = set(loc)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Global):
            allg |= set(n.names)
    visit(mod.tree.body, Scope(mod.tree, None, allg, 'module'))
    return out


# ------------------------------------------------- names of installed modules
class Libs(object):
    """public names of installed libraries, read from stubs or source"""

    def __init__(self, roots=None):
        self.cache = {}
        self.open = set()
        self.compiled = {}
        self.blobs = {}
        if roots is None:
            roots = sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + [p for p in sys.path if p.endswith('-packages')]
        self.roots = roots

    def names(self, mod):
        """set of names, or None when unknown"""
        if mod in self.cache:
            return self.cache[mod]
        self.cache[mod] = None
        self.cache[mod] = r = self._names(mod)
        return r

    def _std(self, mod):
        top = mod.split('.')[0]
        if top in getattr(sys, 'stdlib_module_names', ()) and top not in ('antigravity', 'this', 'idlelib', 'tkinter'):
            try:
                m = __import__(mod, fromlist=['x'])
            except Exception:
                return None
            return set(dir(m))
        return None

    def path(self, mod):
        for r in self.roots:
            p = os.path.join(r, *mod.split('.'))
            for c in (os.path.join(p, '__init__.pyi'), p + '.pyi', os.path.join(p, '__init__.py'), p + '.py'):
                if os.path.isfile(c):
                    return c
        return None

    def submodule(self, mod, name):
        for r in self.roots:
            p = os.path.join(r, *(mod.split('.') + [name]))
            if os.path.isdir(p) or os.path.isfile(p + '.py') or os.path.isfile(p + '.pyi') or glob.glob(p + '.*.so'):
                return True
        return False

    def _names(self, mod):
        s = self._std(mod)
        if s is not None:
            return s
        if mod.split('.')[0] not in ('numpy', 'scipy', 'matplotlib', 'mpl_toolkits'):
            return None
        p = self.path(mod)
        if p is None:
            return None
        try:
            tree = ast.parse(open(p, encoding='utf-8').read())
        except (SyntaxError, OSError, UnicodeDecodeError):
            return None
        out, stars, complete = set(), [], True
        pkg = mod if os.path.basename(p).startswith('__init__') else mod.rpartition('.')[0]

        def scan(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    out.add(s.name)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        out.add(a.asname or a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ''
                    if s.level:
                        pk = pkg.split('.')
                        pk = pk[:len(pk) - (s.level - 1)]
                        base = '.'.join(pk + ([base] if base else []))
                    for a in s.names:
                        if a.name == '*':
                            stars.append(base)
                        else:
                            out.add(a.asname or a.name)
                else:
                    for n in walk_scope([s]):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            out.add(n.id)
                    if isinstance(s, (ast.If, ast.Try, ast.With)):
                        for f in ('body', 'orelse', 'finalbody'):
                            scan(getattr(s, f, []))
                        for h in getattr(s, 'handlers', []):
                            scan(h.body)
        scan(tree.body)
        al = self.dunder_all(tree)
        if al:
            out |= set(al)
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == '__getattr__' and n in tree.body:
                self.open.add(mod)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('globals', 'locals', 'vars', 'setattr', 'exec'):
                complete = False
            if isinstance(n, ast.Name) and n.id == '__all__' and isinstance(n.ctx, ast.Store):
                pass
        if not self.literal_all(tree):
            complete = False
        for b in stars:
            n = self.names(b)
            if n is None:
                so = [x for r in self.roots for x in glob.glob(os.path.join(r, *b.split('.')) + '.*.so')]
                if so:      # compiled: an exported name occurs in the file as text
                    self.compiled.setdefault(mod, []).extend(so)
                else:
                    complete = False
                continue
            bp = self.path(b)
            bt = ast.parse(open(bp, encoding='utf-8').read()) if bp else None
            a = self.dunder_all(bt) if bt else None
            if (b in self.open or b in self.compiled) and not (a and self.literal_all(bt)):
                complete = False
            out |= set(a) if a and self.literal_all(bt) else {x for x in n if not x.startswith('_')} | set(a or ())
        if not complete:
            self.open.add(mod)
        return out

    @staticmethod
    def dunder_all(tree):
        out, found = [], False
        for s in tree.body:
            t = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
            if any(isinstance(x, ast.Name) and x.id == '__all__' for x in t) and s.value is not None:
                if not isinstance(s.value, (ast.List, ast.Tuple)):
                    continue
                found = True
                out += [e.value for e in s.value.elts if isinstance(e, ast.Constant)]
        return out if found else None

    @staticmethod
    def literal_all(tree):
        for s in tree.body:
            tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AugAssign) else []
            if any(isinstance(x, ast.Name) and x.id == '__all__' for x in tg):
                v = s.value
                lit = isinstance(v, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in v.elts)
                flt = isinstance(v, ast.ListComp)      # filtered from the names present
                if not lit and not flt:
                    return False
        return True

    def has(self, mod, name):
        """True, False or None (unknown)"""
        n = self.names(mod)
        if n is None:
            return None
        if name in n or self.submodule(mod, name):
            return True
        for so in self.compiled.get(mod, ()):
            if so not in self.blobs:
                with open(so, 'rb') as f:
                    self.blobs[so] = f.read()
            if name.encode() in self.blobs[so]:
                return None
        return None if mod in self.open else False

    def ismodule(self, dotted):
        base, _, last = dotted.rpartition('.')
        if not base:
            return True
        top = dotted.split('.')[0]
        if top in getattr(sys, 'stdlib_module_names', ()):
            try:
                return importlib.util.find_spec(dotted) is not None
            except (ImportError, AttributeError, ValueError):
                return False
        return self.submodule(base, last)


# -------------------------------------------------------- definite assignment
def negate(t):
    return t[4:] if t.startswith('not ') else 'not ' + t


class Unbound(object):
    """forward analysis: use of a local name that is unassigned on some or all
    paths.  reports: (node, name, 'always' | 'sometimes')"""

    def __init__(self, fnode, names):
        self.names = names
        self.rep = []
        self.loops = []
        st = {n: 'U' for n in names}
        self.params = set(params(fnode))
        self.assigned = {}
        for n in ast.walk(fnode):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.assigned[n.id] = self.assigned.get(n.id, 0) + 1
        for p in params(fnode):
            st[p] = 'A'
        self.nested = set()
        self.block(fnode.body, st)

    @staticmethod
    def join(a, b, test=None):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a:
            x, y = a[k], b[k]
            if x == y:
                out[k] = x
            elif test and x == 'A' and y == 'U':
                out[k] = ('if', test)
            elif test and x == 'U' and y == 'A':
                out[k] = ('if', negate(test))
            elif x == 'A' and isinstance(y, tuple):
                out[k] = y
            elif y == 'A' and isinstance(x, tuple):
                out[k] = x
            else:
                out[k] = 'M'
        return out

    def under(self, test, st, neg):
        '''state inside a branch: names assigned under the same condition are bound'''
        t = self.text(test)
        if t is None:
            return dict(st)
        hit = ('if', negate(t) if neg else t)
        return {k: 'A' if v == hit else v for k, v in st.items()}

    def text(self, test):
        '''text of a condition over names whose value cannot change meanwhile'''
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        for n in ast.walk(test):
            if isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)):
                return None
            if isinstance(n, ast.Name) and self.assigned.get(n.id, 0) > (1 if n.id not in self.params else 0):
                return None
        t = '(%s)' % ast.unparse(test)
        return negate(t) if neg else t

    def expr(self, e, st):
        if e is None or st is None:
            return st
        for n in self.order(e):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id in st and st[n.id] != 'A':
                    self.rep.append((n, n.id, 'always' if st[n.id] == 'U' else 'sometimes'))
                elif isinstance(n.ctx, ast.Store) and n.id in st:
                    st = dict(st)
                    st[n.id] = 'A'
                elif isinstance(n.ctx, ast.Del) and n.id in st:
                    st = dict(st)
                    st[n.id] = 'U'
        return st

    def order(self, e):
        """names of an expression; nested functions and comprehension targets left out"""
        own = set()
        for n in walk_scope([e]):
            if isinstance(n, COMPS):
                t = set()
                for g in n.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            t.add(x.id)
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id not in t and not any(isinstance(y, ast.Lambda) for y in ast.walk(n)):
                        own.add(x)
        for n in walk_scope([e]):
            if isinstance(n, ast.Name) and n not in own:
                yield n
        for n in own:
            yield n

    def target(self, t, st):
        return self.expr(t, st)

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        E = self.expr
        if isinstance(s, ast.Assign):
            st = E(s.value, st)
            for t in s.targets:
                st = self.target(t, st)
        elif isinstance(s, ast.AugAssign):
            t = s.target
            if isinstance(t, ast.Name) and t.id in st and st[t.id] != 'A':
                self.rep.append((t, t.id, 'always' if st[t.id] == 'U' else 'sometimes'))
            st = E(s.value, st)
            st = self.target(t, st)
        elif isinstance(s, ast.AnnAssign):
            st = E(s.value, st)
            if s.value is not None:
                st = self.target(s.target, st)
        elif isinstance(s, (ast.Return, ast.Expr)):
            st = E(s.value, st)
            if isinstance(s, ast.Return):
                return None
        elif isinstance(s, ast.Raise):
            st = E(s.exc, st)
            return None
        elif isinstance(s, ast.Assert):
            st = E(s.test, st)
            E(s.msg, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                st = E(t, st)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if s.name in st:
                st = dict(st)
                st[s.name] = 'A'
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            st = dict(st)
            for a in s.names:
                k = a.asname or a.name.split('.')[0]
                if k in st:
                    st[k] = 'A'
        elif isinstance(s, ast.If):
            st = E(s.test, st)
            c = s.test.value if isinstance(s.test, ast.Constant) else None
            a = self.block(s.body, self.under(s.test, st, False)) if c is None or c else None
            b = self.block(s.orelse, self.under(s.test, st, True)) if c is None or not c else None
            if c is not None:
                return a if c else b
            return self.join(a, b, self.text(s.test))
        elif isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            if isinstance(s, ast.While):
                st = E(s.test, st)
                forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            else:
                st = E(s.iter, st)
                forever = False
            self.loops.append([None, None])
            inner = dict(st)
            if not isinstance(s, ast.While):
                inner = self.target(s.target, inner)
            out = self.block(s.body, inner)
            brk, cont = self.loops.pop()
            end = self.join(out, cont)
            done = None if forever else self.join(st, end)
            done = self.block(s.orelse, done) if done is not None else None
            return self.join(done, brk)
        elif isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0] = self.join(self.loops[-1][0], st)
            return None
        elif isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1] = self.join(self.loops[-1][1], st)
            return None
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = E(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.target(i.optional_vars, st)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try):
            at = dict(st)
            cur = dict(st)
            for x in s.body:
                if cur is None:
                    break
                nxt = self.stmt(x, cur)
                at = self.join(at, nxt)
                cur = nxt
            outs = self.block(s.orelse, cur) if cur is not None else None
            for h in s.handlers:
                hs = dict(at)
                if h.name and h.name in hs:
                    hs[h.name] = 'A'
                outs = self.join(outs, self.block(h.body, hs))
            if s.finalbody:
                if outs is None:
                    self.block(s.finalbody, at)
                    return None
                return self.block(s.finalbody, outs)
            return outs
        elif isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    st = E(n, st)
        return st


# -------------------------------------------------------------- strong liveness
PURE_CALLS = {'len', 'abs', 'float', 'int', 'str', 'isinstance', 'range', 'max', 'min', 'sum', 'bool', 'tuple', 'list', 'dict', 'set', 'zip', 'enumerate', 'round', 'type', 'repr', 'callable', 'hasattr', 'getattr', 'sorted'}


class Live(object):
    """backward analysis: names whose value can influence a result, an
    attribute, an argument of a call or a raise ('strongly live')"""

    def __init__(self, fnode, pure=lambda call: False):
        self.pure = pure
        self.loops = []
        body = [ast.Return(value=fnode.body)] if isinstance(fnode, ast.Lambda) else fnode.body
        self.entry = self.block(body, set())

    def reads(self, e):
        out = set()
        if e is None:
            return out
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                out.add(n.id)
        return out

    def effect(self, e):
        """names read by calls in e that may have effects"""
        out = set()
        if e is None:
            return out
        for n in walk_scope([e]):
            if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await)) and not (isinstance(n, ast.Call) and self.pure(n)):
                out |= self.reads(n)
        return out

    def block(self, body, live):
        for s in reversed(body):
            live = self.stmt(s, live)
        return live

    def has_effect(self, body, live):
        """can the statements change anything that matters?"""
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Assert, ast.Global, ast.Nonlocal, ast.Delete, ast.Yield, ast.Try, ast.With)):
                    return True
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.Call) and not self.pure(n):
                    return True
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in live:
                    return True
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in live:
                    return True
        return False

    def assign(self, targets, value, live):
        names, other = [], []
        for t in targets:
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else list(ast.walk(t))):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.append(x.id)
                elif isinstance(x, ast.Starred):
                    pass
                elif isinstance(x, (ast.Attribute, ast.Subscript)):
                    other.append(x)
        used = bool(other) or any(n in live for n in names)
        live = live - set(names)
        if used:
            live = live | self.reads(value)
            for x in other:
                live |= self.reads(x)
        else:
            live = live | self.effect(value)
        return live

    def stmt(self, s, live):
        if isinstance(s, ast.Assign):
            return self.assign(s.targets, s.value, live)
        if isinstance(s, ast.AnnAssign):
            return self.assign([s.target], s.value, live) if s.value is not None else live
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                # the object may be shared with the caller: an in-place change is an effect
                return live | {s.target.id} | self.reads(s.value) if s.target.id in live else live | self.effect(s.value)
            return live | self.reads(s.target) | self.reads(s.value)
        if isinstance(s, ast.Return):
            return self.reads(s.value)
        if isinstance(s, ast.Raise):
            return self.reads(s.exc) | self.reads(s.cause)
        if isinstance(s, ast.Expr):
            return live | self.effect(s.value)
        if isinstance(s, ast.Assert):
            return live | self.reads(s.test) | self.reads(s.msg)
        if isinstance(s, ast.Delete):
            return live | self.reads(s)
        if isinstance(s, ast.If):
            a, b = self.block(s.body, live), self.block(s.orelse, live)
            out = a | b
            if self.has_effect(s.body, live) or self.has_effect(s.orelse, live):
                out = out | self.reads(s.test)
            return out | self.effect(s.test)
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            after = self.block(s.orelse, live)
            head = set(after)
            while True:
                self.loops.append((set(live), set(head)))
                b = self.block(s.body, head)
                self.loops.pop()
                if isinstance(s, ast.While):
                    new = head | b
                    if self.has_effect(s.body, new | live):
                        new |= self.reads(s.test)
                else:
                    tn = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                    new = head | (b - tn)
                    if self.has_effect(s.body, new | live) or tn & live:
                        new |= self.reads(s.iter)
                    new |= self.effect(s.iter)
                if new == head:
                    return head
                head = new
        if isinstance(s, ast.Break):
            return set(self.loops[-1][0]) if self.loops else live
        if isinstance(s, ast.Continue):
            return set(self.loops[-1][1]) if self.loops else live
        if isinstance(s, ast.With):
            live = self.block(s.body, live)
            for i in reversed(s.items):
                live = live | self.reads(i.context_expr)
            return live
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, live)
            hs = set()
            for h in s.handlers:
                hs |= self.block(h.body, fin) | self.reads(h.type)
            out = self.block(s.orelse, fin)
            for x in reversed(s.body):
                out = self.stmt(x, out) | hs
            return out | hs
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            if s.name in live:
                own = set()
                if not isinstance(s, ast.ClassDef):
                    own = bound_names(s.body)[0] | set(params(s))
                return (live - {s.name}) | (self.reads(s) - own)
            return live
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return live
        return live | self.reads(s)
