"""Rules over the whole program: resolution of names, attributes and calls,
liveness of parameters and stored configuration, shared state."""
import ast
import string
from ..lab import *      # noqa
from .. import flow
from ..values import Fn, Cls, Ext, FuncInfo, ClassInfo

SELF_DOC = ('self', 'cls')


def references(mods):
    """every name the program mentions"""
    out = set()
    for m in mods:
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, ast.Attribute):
                out.add(x.attr)
            elif isinstance(x, ast.alias):
                out.add(x.name.split('.')[-1])
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                out.add(x.value)
    return out


class Prog(object):
    """indexes of the program"""

    def __init__(self, L):
        self.L = L
        self.prog = L.prog
        self.mods = self.prog.all_modules()
        if not all(getattr(m, 'pruned', False) for m in self.mods):
            before = references(self.mods)
            for m in self.mods:
                flow.Prune().visit(m.tree)
                m.pruned = True
            while self.drop_unreachable(before):
                pass
        self.libs = flow.Libs()
        self.owner = {}        # ast function node -> (qualified name, ClassInfo or None)
        for m in self.mods:
            for s in m.tree.body:
                self._own(m, s, '', None)

    def drop_unreachable(self, before):
        """private functions that only unreachable statements use are unreachable too"""
        now = references(self.mods)
        gone = {n for n in before if n.startswith('_') and not n.endswith('__') and n not in now}
        hit = 0
        for m in self.mods:
            for s in [m.tree] + [x for x in m.tree.body if isinstance(x, ast.ClassDef)]:
                keep = [x for x in s.body if not (isinstance(x, ast.FunctionDef) and x.name in gone)]
                if len(keep) < len(s.body):
                    hit += len(s.body) - len(keep)
                    s.body = keep or [ast.Pass(lineno=s.lineno, col_offset=0)]
        return hit

    def _own(self, m, n, pre, cls):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = pre + n.name
            self.owner[n] = (q, cls)
            for x in ast.walk(n):
                if isinstance(x, flow.FUNCS) and x is not n and x not in self.owner:
                    self.owner[x] = (q + '.' + getattr(x, 'name', '<lambda>'), cls)
        elif isinstance(n, ast.ClassDef):
            ci = m.classes.get(n.name)
            for x in n.body:
                self._own(m, x, pre + n.name + '.', ci)
        else:
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.stmt, ast.ExceptHandler)):
                    self._own(m, x, pre, cls)

    def functions(self):
        """(module, node, qualified name, class)"""
        for m in self.mods:
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n in self.owner:
                    q, c = self.owner[n]
                    yield m, n, q, c

    # ------------------------------------------------------------ module names
    def module_names(self, m, seen=()):
        """names bound at module level; None when a star import is unknown"""
        out, _ = flow.bound_names(m.tree.body)
        out = set(out)
        for b in m.stars:
            if b.split('.')[0] == 'filterpy':
                sm = self.prog.module(b)
                if sm is None:
                    return None
                if sm.name in seen:
                    continue
                n = self.module_names(sm, seen + (m.name,))
                if n is None:
                    return None
                al = flow.Libs.dunder_all(sm.tree)
                out |= set(al) if al is not None else {x for x in n if not x.startswith('_')}
            else:
                n = self.libs.names(b)
                if n is None:
                    return None
                out |= n
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out |= set(n.names)
        return out

    def origin(self, m, name, seen=()):
        """dotted library origin of a module-level name ('numpy', 'scipy.linalg.inv') or None"""
        v = m.resolve(name)
        if isinstance(v, Ext) and not v.name.startswith('?') and v.name.split('.')[0] != 'filterpy':
            return v.name
        return None

    # --------------------------------------------------------------- class data
    def class_bases(self, c):
        """all known bases; None when one is not a repository class (other than object)"""
        out = []
        for b in c.basenames:
            if b == 'object':
                continue
            i = c.mod.resolve_class(b)
            if i is None:
                return None
            out.append(i)
            more = self.class_bases(i)
            if more is None:
                return None
            out += more
        return out

    def class_functions(self, c):
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef):
                yield n

    @staticmethod
    def selfname(n):
        for d in n.decorator_list:
            if ast.unparse(d) in ('staticmethod', 'classmethod'):
                return None
        a = n.args.args
        return a[0].arg if a else None

    def stores(self, n, who, outer=True):
        """attribute names of `who` assigned in function n"""
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == who:
                out.add(x.attr)
        return out

    def is_open(self, c):
        """attributes may come from elsewhere: __getattr__, setattr, __dict__ manipulation"""
        for k in [c] + (self.class_bases(c) or []):
            for n in self.class_functions(k):
                if n.name in ('__getattr__', '__getattribute__'):
                    return True
        return False

    def dyn(self, n, who):
        """dynamic attribute creation on `who`"""
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'vars') and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == who:
                return True
            if isinstance(x, ast.Attribute) and x.attr == '__dict__' and isinstance(x.value, ast.Name) and x.value.id == who:
                return True
        return False

    def class_attrs(self, c):
        """(class-level names, instance attribute names)"""
        cl, inst = set(), set()
        for k in [c] + (self.class_bases(c) or []):
            loc, _ = flow.bound_names(k.node.body)
            cl |= loc
            for n in self.class_functions(k):
                s = self.selfname(n)
                if s:
                    inst |= self.stores(n, s)
        return cl, inst

    def find_method(self, c, name):
        for k in [c] + (self.class_bases(c) or []):
            for n in self.class_functions(k):
                if n.name == name:
                    yield k, n


OBJECT = set(dir(object)) | {'__dict__', '__module__', '__weakref__', '__name__', '__qualname__'}


def where(m, node, q):
    return '%s:%d %s' % (m.rel, getattr(node, 'lineno', 1), q)


# ------------------------------------------------------------------------ C34
def suite_names(L):
    tags = ('C34',)
    if not L.want(*tags):
        return
    P = Prog(L)
    for m in P.mods:
        mn = P.module_names(m)
        for scope, body in flow.scopes(m):
            q = P.owner.get(scope.node, (None,))[0] or {'module': '<module>', 'class': getattr(scope.node, 'name', '')}.get(scope.kind, scope.kind)
            bad = []
            for n in flow.walk_scope(body):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if scope.lookup(n.id) is None and n.id not in flow.BUILTINS:
                        if mn is None:
                            continue
                        if n.id not in mn:
                            bad.append(n)
            if scope.kind in ('func', 'module', 'class') or bad:
                L.funcs.add('%s:%s' % (m.rel, q))
                L.true(tags, 'every name used is defined', None, not bad, '; '.join('name %s at line %d is not defined' % (b.id, b.lineno) for b in bad[:4]),
                       where=where(m, bad[0] if bad else scope.node, q), rule='scope resolution')
            if scope.kind == 'func' and isinstance(scope.node, ast.FunctionDef):
                loc, _ = flow.bound_names(scope.node.body)
                u = flow.Unbound(scope.node, loc | set(flow.params(scope.node)))
                alw = [r for r in u.rep if r[2] == 'always']
                some = [r for r in u.rep if r[2] == 'sometimes']
                L.true(tags, 'no local variable is read before it is assigned', None, False if alw else (None if some else True),
                       '; '.join('%s at line %d' % (r[1], r[0].lineno) for r in alw or some), where=where(m, (alw or some or [(scope.node,)])[0][0], q), rule='definite assignment')


def suite_imports(L):
    tags = ('C34',)
    if not L.want(*tags):
        return
    P = Prog(L)
    for m in P.mods:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    ok = module_exists(P, a.name)
                    L.true(tags, 'imported module exists', None, ok, 'no module %s' % a.name, where=where(m, n, '<module>'), rule='import resolution')
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pk = m.name.split('.')
                    if not m.path.endswith('__init__.py'):
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (n.level - 1)]
                    base = '.'.join(pk + ([base] if base else []))
                if base == '__future__':
                    continue
                for a in n.names:
                    if a.name == '*':
                        L.true(tags, 'imported module exists', None, module_exists(P, base), 'no module %s' % base, where=where(m, n, '<module>'), rule='import resolution')
                        continue
                    L.true(tags, 'imported symbol exists', None, symbol_exists(P, base, a.name), '%s has no %s' % (base, a.name), where=where(m, n, '<module>'), rule='import resolution')


def module_exists(P, name):
    if name.split('.')[0] == 'filterpy':
        return P.prog.module(name) is not None
    try:
        r = P.libs.ismodule(name)
    except Exception:
        return None
    return r if r or P.libs.roots and P.libs.path(name.split('.')[0]) else None


def symbol_exists(P, base, name):
    if base.split('.')[0] == 'filterpy':
        sm = P.prog.module(base)
        if sm is None:
            return False
        mn = P.module_names(sm)
        if mn is None or name in mn:
            return True if mn else None
        return P.prog.module(base + '.' + name) is not None
    return P.libs.has(base, name)


def suite_attributes(L):
    tags = ('C34',)
    if not L.want(*tags):
        return
    P = Prog(L)
    # library members: np.xxx, scipy.linalg.xxx ...
    for m in P.mods:
        for scope, body in flow.scopes(m):
            q = P.owner.get(scope.node, (None,))[0] or ('<module>' if scope.kind == 'module' else getattr(scope.node, 'name', scope.kind))
            n_ok, bad = 0, []
            for n in flow.walk_scope(body):
                if not isinstance(n, ast.Attribute):
                    continue
                chain, x = [n.attr], n.value
                while isinstance(x, ast.Attribute):
                    chain.append(x.attr)
                    x = x.value
                if not isinstance(x, ast.Name):
                    continue
                sc = scope.lookup(x.id)
                if sc is not None and sc.kind != 'module':
                    continue
                o = P.origin(m, x.id)
                if o is None or not lib_module(P, o):
                    continue
                for a in reversed(chain):
                    r = P.libs.has(o, a)
                    if r is None:
                        break
                    if r is False:
                        bad.append((n, o, a))
                        break
                    n_ok += 1
                    o = o + '.' + a
                    if not lib_module(P, o):
                        break
            if n_ok or bad:
                L.true(tags, 'every library function used exists', None, not bad, '; '.join('%s has no %s (line %d)' % (o, a, n.lineno) for n, o, a in bad[:4]),
                       where=where(m, bad[0][0] if bad else scope.node, q), rule='library exports')
    # attributes of the object itself
    for m in P.mods:
        for c in m.classes.values():
            bases = P.class_bases(c)
            if bases is None or P.is_open(c):
                continue
            cl, inst = P.class_attrs(c)
            known = cl | inst | OBJECT
            props = set(c.props)
            setters = set(c.setters)
            for b in bases:
                props |= set(b.props) - cl_own(c)
                setters |= set(b.setters)
            for n in P.class_functions(c):
                s = P.selfname(n)
                if not s:
                    continue
                q = '%s.%s' % (c.name, n.name)
                bad, ro = [], []
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == s:
                        if isinstance(x.ctx, ast.Load) and x.attr not in known:
                            bad.append(x)
                        if isinstance(x.ctx, ast.Store) and x.attr in props and x.attr not in setters:
                            ro.append(x)
                L.true(tags, 'every attribute of the object that is read is set somewhere', None, not bad, '; '.join('%s.%s (line %d) is never set' % (s, x.attr, x.lineno) for x in bad[:4]),
                       where=where(m, bad[0] if bad else n, q), rule='attribute resolution')
                L.true(tags, 'no read-only property is assigned', None, not ro, '; '.join('%s.%s (line %d) has no setter' % (s, x.attr, x.lineno) for x in ro[:4]),
                       where=where(m, ro[0] if ro else n, q), rule='attribute resolution')
                L.funcs.add('%s:%s' % (m.rel, q))
            init_order(L, P, m, c, known)


def cl_own(c):
    return set(flow.bound_names(c.node.body)[0])


def lib_module(P, dotted):
    if dotted.split('.')[0] not in ('numpy', 'scipy', 'math', 'sys', 'copy', 'random', 'warnings', 'inspect', 'collections', 'matplotlib', 'mpl_toolkits'):
        return False
    return '.' not in dotted or bool(P.libs.ismodule(dotted))


def init_order(L, P, m, c, known):
    """attributes that exist only after some other method ran"""
    tags = ('C34',)
    done = P_init_set(P, c)
    if done is None:
        return
    cl = P.class_attrs(c)[0]
    for n in P.class_functions(c):
        s = P.selfname(n)
        if not s or n.name == '__init__':
            continue
        q = '%s.%s' % (c.name, n.name)
        own = P.stores(n, s)
        bad = [x for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == s
               and x.attr in known and x.attr not in done and x.attr not in cl and x.attr not in OBJECT and x.attr not in own]
        # a guard such as hasattr / try decides otherwise
        guarded = any(isinstance(x, ast.Try) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr')) for x in ast.walk(n))
        L.true(tags, 'every attribute read exists from construction on', None, (None if guarded else False) if bad else True,
               '; '.join('%s.%s (line %d) is not set by the constructor' % (s, x.attr, x.lineno) for x in bad[:4]), where=where(m, bad[0] if bad else n, q), rule='attribute resolution')


def P_init_set(P, c, seen=None):
    """attributes set by constructing an object (methods called from __init__ included)"""
    ini = next(P.find_method(c, '__init__'), None)
    if ini is None:
        return set()
    out, work, seen = set(), [ini], set()
    while work:
        k, n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        s = P.selfname(n)
        if not s:
            continue
        if P.dyn(n, s):
            return None
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == s:
                if isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
                for kk, f in P.find_method(c, x.attr):
                    work.append((kk, f))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '__init__':
                for b in P.class_bases(c) or []:
                    for kk, f in P.find_method(b, '__init__'):
                        work.append((kk, f))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and any(isinstance(a, ast.Name) and a.id == s for a in x.args):
                return None if x.func.id not in ('isinstance', 'type', 'id', 'repr', 'str') and x.func.id != 'super' else out
    return out


# -------------------------------------------------------------- signatures
def sig_problem(node, call, bound):
    """reason why a call cannot bind to the function, or None"""
    a = node.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd]
    if bound:
        if not pos and not a.vararg:
            return 'takes no arguments'
        req = req[1:] if req else req
        pos = pos[1:]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments, %d given' % (len(pos), npos)
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            return 'has no parameter %s' % k.arg
        if not star and k.arg in pos[:npos]:
            return 'parameter %s given twice' % k.arg
    if not star and not dstar:
        given = set(pos[:npos]) | {k.arg for k in call.keywords}
        miss = [r for r in req if r not in given]
        miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        if miss:
            return 'missing %s' % ', '.join(miss)
    return None


def local_classes(P, m, fnode, scope):
    """locals that only ever hold objects of one repository class"""
    vals = {}
    for n in flow.walk_scope(fnode.body):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        vals.setdefault(x.id, []).append(n.value if t is x else None)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            vals.setdefault(n.id, [])
    stores = {}
    for n in flow.walk_scope(fnode.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
    out = {}
    for k, vs in vals.items():
        if k in flow.params(fnode) or not vs or len(vs) != stores.get(k, 0):
            continue
        cs = set()
        for v in vs:
            r = resolve_call(P, m, v.func, scope, None, {}) if isinstance(v, ast.Call) else None
            cs.add(r[1] if r and r[0] == 'class' else None)
        if len(cs) == 1 and None not in cs:
            out[k] = cs.pop()
    return out


def resolve_call(P, m, f, scope, cls, locs):
    """('func', FuncInfo/node, bound) | ('class', ClassInfo) | ('missing', text) | None"""
    if isinstance(f, ast.Name):
        sc = scope.lookup(f.id)
        if sc is not None and sc.kind == 'func':
            d = [x for x in flow.walk_scope(sc.node.body if not isinstance(sc.node, ast.Lambda) else []) if isinstance(x, ast.FunctionDef) and x.name == f.id]
            st = [x for x in flow.walk_scope(sc.node.body if not isinstance(sc.node, ast.Lambda) else []) if isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Store)]
            if len(d) == 1 and not st and f.id not in flow.params(sc.node):
                return ('func', d[0], False)
            return None
        if sc is not None and sc.kind != 'module':
            return None
        v = m.resolve(f.id)
    elif isinstance(f, ast.Attribute):
        x = f.value
        if isinstance(x, ast.Name):
            if cls is not None and x.id == cls[1]:
                c = cls[0]
                if P.class_bases(c) is None:
                    return None
                inst = P.class_attrs(c)[1]
                if f.attr in inst:
                    return None
                for k, n in P.find_method(c, f.attr):
                    deco = [ast.unparse(d) for d in n.decorator_list]
                    if any(d == 'property' or d.endswith('.setter') for d in deco):
                        return None
                    return ('func', n, 'staticmethod' not in deco)
                return None
            if x.id in locs:
                c = locs[x.id]
                if P.class_bases(c) is None or f.attr in P.class_attrs(c)[1]:
                    return None
                for k, n in P.find_method(c, f.attr):
                    deco = [ast.unparse(d) for d in n.decorator_list]
                    if any(d == 'property' or d.endswith('.setter') for d in deco):
                        return None
                    return ('func', n, 'staticmethod' not in deco)
                return None
            sc = scope.lookup(x.id)
            if sc is not None and sc.kind != 'module':
                return None
        t = ast.unparse(f)
        if not all(p.isidentifier() for p in t.split('.')):
            return None
        if scope.lookup(t.split('.')[0]) is not None and scope.lookup(t.split('.')[0]).kind != 'module':
            return None
        v = m.resolve(t)
    else:
        return None
    if isinstance(v, Fn):
        return ('func', v.info.node, False)
    if isinstance(v, Cls):
        return ('class', v.info)
    if isinstance(v, Ext) and v.name.startswith('?'):
        return ('missing', v.name[1:])
    return None


def suite_calls(L):
    tags = ('C34',)
    if not L.want(*tags):
        return
    P = Prog(L)
    for m in P.mods:
        for scope, body in flow.scopes(m):
            q, c = P.owner.get(scope.node, (None, None))
            q = q or ('<module>' if scope.kind == 'module' else getattr(scope.node, 'name', scope.kind))
            cls, locs, fn = None, {}, scope
            while fn is not None and not (fn.kind == 'func' and isinstance(fn.node, ast.FunctionDef)):
                fn = fn.outer
            if fn is not None:
                top = fn
                while top.outer is not None and top.outer.kind in ('func', 'comp'):
                    top = top.outer
                c = P.owner.get(top.node, (None, None))[1]
                if c is not None and isinstance(top.node, ast.FunctionDef) and top.node in c.node.body and P.selfname(top.node):
                    cls = (c, P.selfname(top.node))
                locs = local_classes(P, m, fn.node, fn)
            for n in flow.walk_scope(body):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in locs and scope.lookup(n.value.id) is fn:
                    c1 = locs[n.value.id]
                    if P.class_bases(c1) is not None and not P.is_open(c1) and not any(P.dyn(f, P.selfname(f)) for k in [c1] + P.class_bases(c1) for f in P.class_functions(k) if P.selfname(f)):
                        cl, inst = P.class_attrs(c1)
                        mine = P.stores(fn.node, n.value.id)
                        L.true(tags, 'attribute of a constructed object exists', None, n.attr in cl | inst | OBJECT | mine, '%s has no attribute %s' % (c1.name, n.attr), where=where(m, n, q), rule='attribute resolution')
                if not isinstance(n, ast.Call):
                    continue
                r = resolve_call(P, m, n.func, scope, cls, locs)
                if r is not None:
                    if r[0] == 'class':
                        if P.class_bases(r[1]) is None:
                            continue
                        ini = next(P.find_method(r[1], '__init__'), None)
                        pr = sig_problem(ini[1], n, True) if ini else None
                        nm = r[1].name
                    elif r[0] == 'missing':
                        pr, nm = 'does not exist', r[1]
                    else:
                        pr = sig_problem(r[1], n, r[2])
                        nm = r[1].name
                    L.true(tags, 'call matches the signature of the called function', None, pr is None, '%s: %s %s' % (ast.unparse(n.func), nm, pr), where=where(m, n, q), rule='call signature')
                fmt = format_problem(n)
                if fmt is not None:
                    L.true(tags, 'format string matches its arguments', None, not fmt, fmt, where=where(m, n, q), rule='format string')


def format_problem(n):
    """'' when a constant format string matches, text when not, None when not applicable"""
    f = n.func
    if not (isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)):
        return None
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    try:
        fields = [x[1] for x in string.Formatter().parse(f.value.value) if x[1] is not None]
    except ValueError as e:
        return 'malformed format string: %s' % e
    auto, kws = 0, {k.arg for k in n.keywords}
    for x in fields:
        h = x.split('.')[0].split('[')[0]
        if h == '':
            auto += 1
        elif h.isdigit():
            if int(h) >= len(n.args):
                return 'field {%s} has no argument' % h
        elif h not in kws:
            return 'field {%s} has no argument' % h
    if auto > len(n.args):
        return '%d fields, %d arguments' % (auto, len(n.args))
    return ''


# ------------------------------------------------------------------------ C32
def pure_call(P, m):
    def f(call):
        g = call.func
        if any(k.arg == 'out' for k in call.keywords):
            return False
        if isinstance(g, ast.Name):
            if g.id in flow.PURE_CALLS:
                return True
            o = P.origin(m, g.id)
        else:
            t = ast.unparse(g)
            if not all(x.isidentifier() for x in t.split('.')):
                return False
            o = None
            v = m.resolve(t)
            if isinstance(v, Ext):
                o = v.name
        if o is None:
            return False
        return o.split('.')[0] in ('numpy', 'math', 'scipy') and '.random' not in o and o.split('.')[-1] not in ('copyto', 'put', 'fill_diagonal', 'place', 'putmask', 'shuffle', 'seterr')
    return f


def stub_body(n):
    """no implementation: only a docstring, pass or a raise"""
    b = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in b)


def public(q):
    return all(not p.startswith('_') or p in ('__init__', '__call__', '__getitem__', '__setitem__') for p in q.split('.'))


def suite_parameters(L):
    tags = ('C32',)
    if not L.want(*tags):
        return
    P = Prog(L)
    reads = attr_reads(P)
    for m, n, q, c in P.functions():
        if '.<' in q or n not in m.tree.body and (c is None or n not in c.node.body):
            continue
        if stub_body(n):
            continue
        live = flow.Live(n, pure_call(P, m))
        ps = flow.params(n)
        s = P.selfname(n) if c is not None else None
        L.funcs.add('%s:%s' % (m.rel, q))
        if public(q):
            for p in ps:
                if p == s or (c is not None and p == ps[0] and p in SELF_DOC):
                    continue
                L.true(tags, 'parameter %s influences the result, the object or a check' % p, None, p in live.entry, 'parameter %s has no effect on any path' % p,
                       where=where(m, n, q), rule='strong liveness')
        if c is not None and n.name == '__init__' and s:
            for p in ps[1:]:
                at = stored_only(P, m, n, s, p)
                if at is None:
                    continue
                if p.startswith('dim_') and at == [p]:
                    continue        # a size kept under its own name describes the object
                dead = [a for a in at if not effective(P, c, a, reads)]
                L.true(tags, 'stored option %s is used' % p, None, len(dead) < len(at) or not at, 'parameter %s is only stored in %s, which nothing reads' % (p, ', '.join('self.' + a for a in dead)),
                       where=where(m, n, q), rule='attribute liveness')


def attr_reads(P):
    """attribute name -> classes (None: some other object) through whose objects it is read, representations left out"""
    out = {}
    for m in P.mods:
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x in P.owner:
                c = P.owner[x][1]
                if x.name == '__repr__':
                    continue
                s = P.selfname(x) if c is not None and x in c.node.body else None
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load):
                        mine = s is not None and isinstance(y.value, ast.Name) and y.value.id == s
                        out.setdefault(y.attr, set()).add(c if mine else None)
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('getattr', 'hasattr') and len(y.args) > 1 and isinstance(y.args[1], ast.Constant):
                        out.setdefault(y.args[1].value, set()).add(None)
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'getattr' and len(y.args) > 1 and not isinstance(y.args[1], ast.Constant) \
                            and s is not None and isinstance(y.args[0], ast.Name) and y.args[0].id == s:
                        out.setdefault('*', set()).add(c)
    return out


def effective(P, c, attr, reads):
    """is the attribute read by a method of the class or a relative, or on an object of unknown class"""
    fam = {c} | set(P.class_bases(c) or [])
    for m in P.mods:
        for k in m.classes.values():
            if c in (P.class_bases(k) or []):
                fam.add(k)
    if P.class_bases(c) is None:
        return True
    got = reads.get(attr, set()) | {k for k in reads.get('*', set()) if k in fam}
    return None in got or bool(fam & got)


def stored_only(P, m, n, s, p):
    """attributes the parameter is stored in, when storing is all that happens to it; None otherwise"""
    at = []
    rebound = any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store) for x in ast.walk(n))
    if rebound:
        return None
    stores = {}
    for x in ast.walk(n):
        if isinstance(x, ast.Assign):
            if isinstance(x.value, ast.Name) and x.value.id == p and all(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s for t in x.targets):
                at += [t.attr for t in x.targets]
                stores[id(x.value)] = True
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load) and id(x) not in stores:
            # a default chosen when the parameter is None is still only storing
            return None if not only_default(n, x, s, at) else at
    return at or None


def only_default(n, x, s, at):
    """x occurs in the test of an if whose branches only store the attribute(s)"""
    for y in ast.walk(n):
        if isinstance(y, ast.If) and any(z is x for z in ast.walk(y.test)):
            for b in y.body + y.orelse:
                if not (isinstance(b, ast.Assign) and all(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s and t.attr in at for t in b.targets)):
                    return False
            return True
    return False


# ------------------------------------------------------------------------ C35
MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'put', 'itemset', 'resize', 'partition', 'appendleft', 'extendleft', 'popleft', 'setflags', '__setitem__', '__delitem__'}
INPLACE = {'numpy.copyto', 'numpy.fill_diagonal', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.random.shuffle', 'random.shuffle'}


def makes_mutable(P, m, e):
    """does the expression build a list, dictionary, set or array?"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set) + flow.COMPS):
        return not isinstance(e, ast.GeneratorExp)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'set', 'bytearray'):
            return True
        v = m.resolve(ast.unparse(e.func)) if all(x.isidentifier() for x in ast.unparse(e.func).split('.')) else None
        if isinstance(v, Ext):
            return v.name.split('.')[0] in ('numpy', 'collections', 'scipy')
        return isinstance(v, (Cls, Fn))
    return False


def writes_to(P, m, nodes, name, rebind=False):
    """statements that change the object bound to `name` in place (dotted name)"""
    out = []

    def base(x):
        while isinstance(x, ast.Subscript):
            x = x.value
        return ast.unparse(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
    for x in flow.walk_scope(nodes):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and base(x) == name:
            out.append(x)
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.unparse(x.value) == name:
            out.append(x)
        elif isinstance(x, ast.AugAssign) and ast.unparse(x.target) == name:
            out.append(x)
        elif isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in MUT and base(x.func.value) == name:
                out.append(x)
            elif any(k.arg == 'out' and ast.unparse(k.value) == name for k in x.keywords):
                out.append(x)
            elif x.args and ast.unparse(x.args[0]) == name:
                t = ast.unparse(x.func)
                v = m.resolve(t) if all(y.isidentifier() for y in t.split('.')) else None
                if isinstance(v, Ext) and v.name in INPLACE:
                    out.append(x)
    return out


DOC_RANDOM = {'EnsembleKalmanFilter.__init__', 'EnsembleKalmanFilter.initialize', 'EnsembleKalmanFilter.predict', 'EnsembleKalmanFilter.update', 'residual_resample', 'stratified_resample', 'systematic_resample',
              'multinomial_resample', 'rand_student_t'}


def suite_state(L):
    tags = ('C35',)
    if not L.want(*tags):
        return
    P = Prog(L)
    sc = {m: flow.scopes(m) for m in P.mods}
    for m in P.mods:
        for n in ast.walk(m.tree):
            if not isinstance(n, flow.FUNCS):
                continue
            q = P.owner.get(n, ('<lambda>', None))[0]
            a = n.args
            pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
            defs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            body = [n.body] if isinstance(n, ast.Lambda) else n.body
            for p, d in defs:
                if not makes_mutable(P, m, d):
                    L.true(tags, 'default values are immutable', None, True, '', where=where(m, n, q), rule='default values')
                    continue
                w = writes_to(P, m, body, p)
                esc = [x for x in flow.walk_scope(body) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == p and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in x.targets)]
                esc += [x for x in flow.walk_scope(body) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == p]
                L.true(tags, 'default values are immutable', None, not (w or esc), 'the default of %s is one object for all calls and is %s' % (p, 'modified' if w else 'handed out'),
                       where=where(m, (w or esc or [n])[0], q), rule='default values')
        # module level state
        top = {t.id for s in m.tree.body for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign))}
        names = top | set(m.funcs) | set(m.classes) | set(m.imports)
        for scope, body in sc[m]:
            if scope.kind != 'func':
                continue
            q = P.owner.get(scope.node, ('<lambda>', None))[0]
            bad = []
            for x in flow.walk_scope(body):
                if isinstance(x, ast.Global):
                    bad.append((x, 'global variable %s' % ', '.join(x.names)))
            for g in names:
                s = scope.lookup(g)
                if s is None or s.kind == 'module':
                    for w in writes_to(P, m, body, g):
                        bad.append((w, 'module level object %s' % g))
            L.true(tags, 'no state is kept at module level', None, not bad, '; '.join('modifies %s (line %d)' % (t, x.lineno) for x, t in bad[:3]), where=where(m, bad[0][0] if bad else scope.node, q), rule='global writes')
        # class level state
        for c in m.classes.values():
            shared = {}
            for k in [c] + (P.class_bases(c) or []):
                for s in k.node.body:
                    if isinstance(s, ast.Assign) and makes_mutable(P, m, s.value):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                shared[t.id] = s
            own = set()
            ini = P_init_set(P, c) or set()
            for n in P.class_functions(c):
                q = '%s.%s' % (c.name, n.name)
                s = P.selfname(n)
                bad = []
                if s:
                    for a in shared:
                        if a not in ini:
                            bad += [(w, 'self.%s of the class' % a) for w in writes_to(P, m, n.body, '%s.%s' % (s, a))]
                cl = [c.name, '%s.__class__' % s, 'type(%s)' % s]
                if any(ast.unparse(d) == 'classmethod' for d in n.decorator_list):
                    cl.append(n.args.args[0].arg)
                for x in flow.walk_scope(n.body):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.unparse(x.value) in cl:
                        bad.append((x, 'the class itself'))
                for b in cl:
                    for a in set(shared) | {t for k in [c] for t in k.consts}:
                        bad += [(w, 'a class level object') for w in writes_to(P, m, n.body, '%s.%s' % (b, a)) if (w, 'the class itself') not in bad]
                L.true(tags, 'no state is kept at class level', None, not bad, '; '.join('modifies %s (line %d)' % (t, x.lineno) for x, t in bad[:3]), where=where(m, bad[0][0] if bad else n, q), rule='global writes')
        # memoised functions must not hand out a mutable result
        for mm, n, q, c in P.functions():
            if mm is not m:
                continue
            for d in n.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                v = m.resolve(ast.unparse(f)) if all(y.isidentifier() for y in ast.unparse(f).split('.')) else None
                if isinstance(v, Ext) and v.name in ('functools.lru_cache', 'functools.cache'):
                    kind = memo_result(P, m, n)
                    L.true(tags, 'memoised results are immutable', None, kind, 'the same object is returned by every call with these arguments', where=where(m, n, q), rule='memoisation')
    randomness(L, P, sc)


def memo_result(P, m, n):
    """True: returns numbers or strings only, False: returns an array, list or object, None: unknown"""
    out = True
    for x in flow.walk_scope(n.body):
        if isinstance(x, ast.Return) and x.value is not None:
            v = x.value
            if isinstance(v, ast.Name):
                a = [y.value for y in flow.walk_scope(n.body) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in y.targets)]
                if any(makes_mutable(P, m, y) for y in a):
                    return False
                out = None
            elif makes_mutable(P, m, v):
                return False
            elif not isinstance(v, ast.Constant):
                out = None
    return out


def randomness(L, P, sc):
    tags = ('C35',)
    direct, callers, node = {}, {}, {}
    for m in P.mods:
        for scope, body in sc[m]:
            fn = scope
            while fn is not None and not (fn.kind == 'func' and isinstance(fn.node, ast.FunctionDef) and '.' not in P.owner.get(fn.node, ('.', 0))[0].replace(getattr(P.owner.get(fn.node, ('', None))[1], 'name', '') + '.', '', 1)):
                fn = fn.outer
            q, c = P.owner.get(fn.node, ('<module>', None)) if fn is not None else ('<module>', None)
            key = (m.name, q)
            node.setdefault(key, (m, fn.node if fn is not None else m.tree))
            for x in flow.walk_scope(body):
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                    t = ast.unparse(x)
                    if not all(y.isidentifier() for y in t.split('.')):
                        continue
                    s = scope.lookup(t.split('.')[0])
                    if s is not None and s.kind != 'module':
                        if c is not None and t.startswith('self.') and t.count('.') == 1:
                            for k, f in P.find_method(c, t[5:]):
                                callers.setdefault((k.mod.name, '%s.%s' % (k.name, f.name)), set()).add(key)
                        continue
                    v = m.resolve(t)
                    if isinstance(v, Fn):
                        callers.setdefault((v.info.mod.name, v.info.qual), set()).add(key)
                    elif isinstance(v, Ext) and nondet(v.name):
                        direct.setdefault(key, []).append((x, v.name))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('rvs', 'seed', 'set_state') and not isinstance(x.func.value, ast.Constant):
                    direct.setdefault(key, []).append((x, x.func.attr))
    for key in sorted(node):
        m, n = node[key]
        if m.name.startswith('filterpy.examples'):
            continue
        us = direct.get(key, [])
        seeds = [u for u in us if u[1].split('.')[-1] in ('seed', 'set_state', 'setstate')]
        bad = list(seeds)
        if us and not seeds:
            bad = [] if documented(key, callers, set()) else us
        L.true(tags, 'only the documented random functions draw random numbers', None, not bad, '; '.join('uses %s (line %d)' % (u[1], getattr(u[0], 'lineno', 0)) for u in bad[:3]),
               where=where(m, bad[0][0] if bad else n, key[1]), rule='effect analysis')


def nondet(o):
    p = o.split('.')
    if p[0] == 'numpy' and len(p) > 2 and p[1] == 'random':
        return True
    if p[0] == 'random' and len(p) > 1:
        return True
    if p[0] == 'scipy' and p[-1] == 'rvs':
        return True
    return o in ('time.time', 'time.perf_counter', 'time.monotonic', 'os.urandom', 'os.getpid', 'os.environ', 'uuid.uuid4', 'uuid.uuid1', 'datetime.datetime.now') or p[0] == 'secrets'


def documented(key, callers, seen):
    """a documented random function, or a private helper only such functions use"""
    if key[1] in DOC_RANDOM:
        return True
    if key in seen:
        return True
    last = key[1].split('.')[-1]
    if not last.startswith('_') or last.startswith('__'):
        return False
    # a private helper nothing calls can draw nothing
    return all(documented(k, callers, seen | {key}) for k in callers.get(key, ()))


SUITES = [suite_names, suite_imports, suite_attributes, suite_calls, suite_parameters, suite_state]
for _f in SUITES:
    _f.tags = ('C34',)
suite_parameters.tags = ('C32',)
suite_state.tags = ('C35',)
