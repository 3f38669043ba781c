"""Dataflow analysis of repository functions over the term domain.

Forward abstract interpretation over the syntax tree: one abstract state per
program point, phi-terms at joins, one-pass loop summaries (see loops.py),
repository callees analysed in the caller's state, library calls through the
transfer functions of npmodel.py, everything else opaque (Top).
"""
import ast
from .values import *      # noqa
from . import algebra as A
from . import dtypes
from . import text as TX


class AbsRaise(Exception):
    """the statement raises on every execution of the current path"""

    def __init__(self, kind, msg=''):
        Exception.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class Event(object):
    def __init__(self, kind, func, line, detail, path=(), extra=None):
        self.kind = kind
        self.func = func
        self.line = line
        self.detail = detail
        self.path = path
        self.extra = extra

    @property
    def where(self):
        return '%s:%d' % (self.func.mod.rel if self.func else '?', self.line)

    def __repr__(self):
        return '%s %s %s %s' % (self.kind, self.where, self.func.qual if self.func else '', self.detail)


class Frame(object):
    def __init__(self, info, base):
        self.info = info
        self.base = base         # length of path at entry
        self.pending = []        # (cond, ret value, State)
        self.conts = None        # list while inside a loop body
        self.line = info.node.lineno if info is not None else 0
        self.ret = None
        self.top = []
        self.globals = set()
        self.nonlocals = set()
        self.loc = None

    def locals(self):
        '''names local to the function'''
        if self.loc is None:
            from . import flow
            n = self.info.node
            b = [n.body] if isinstance(n, ast.Lambda) else n.body
            l, g = flow.bound_names(b)
            self.loc = (l | set(flow.params(n))) - g
        return self.loc


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
          ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}

UNDEF = Top('undefined')


class Interp(object):
    def __init__(self, prog):
        self.prog = prog
        self.events = []
        self.frames = []
        self.funcs_seen = set()
        self.statics = {}         # id(ast node) -> value evaluated once
        self.static_heap = {}
        self.static_init = {}     # location -> initial content
        self.keep = []
        self.plain = set()
        self.stmts_seen = set()
        self.tops = []
        self.loopvars = []
        self.quiet = 0
        self.gcache = {}
        self.stubs = {}
        self.reclog = []
        self.oracle = None
        self.intlocs = {}          # location -> storage type (dtypes.py)
        self.sumnoise = False      # the total of a cumulative sum carries a rounding error
        self.unroll = 10
        self.rngserial = 0
        self.rngcount = {}
        self.rngloop = {}
        self.fuel = 400000
        self.lastset = {}
        self.lastwrite = {}
        self.let_limit = None
        self.let_local = None

    # ------------------------------------------------------------ reporting
    @property
    def fr(self):
        return self.frames[-1]

    def event(self, kind, detail, st=None, extra=None):
        if self.quiet:
            return
        f = self.frames[-1] if self.frames else None
        e = Event(kind, f.info if f else None, f.line if f else 0, detail, st.path if st else (), extra)
        self.events.append(e)

    def top(self, why):
        f = self.frames[-1] if self.frames else None
        w = '%s (%s:%s)' % (why, f.info.mod.rel if f and f.info else '?', f.line if f else 0)
        self.tops.append(w)
        return Top(w)

    # ------------------------------------------------------------- arrays
    def mk(self, st, ten, prov=None):
        """value for a computed tensor: Python number for rank 0"""
        if ten.rank == 0:
            return Num(ten.cells[()])
        return st.arr(ten, prov)

    def read(self, st, v):
        """content of an array value as Ten"""
        c = st.heap[v.loc]
        if not isinstance(c, ArrC):
            raise Imprecise('not an array')
        t = c.ten
        if isinstance(t, Top):
            raise Imprecise(t.why)
        for op in v.view:
            t = view_apply(t, op)
        return t

    def to_ten(self, st, v):
        if isinstance(v, Num):
            return scalar(v.p)
        if isinstance(v, Arr):
            return self.read(st, v)
        if isinstance(v, Cond):
            return scalar(v.p)
        if isinstance(v, Con):
            if v.v is True or v.v is False:
                return scalar(int(v.v))
            if v.v is None:
                raise AbsRaise('TypeError', 'None used as a number')
            raise Imprecise('constant %r used as number' % (v.v,))
        if isinstance(v, Phi):
            a = self.to_ten(st, v.a)
            b = self.to_ten(st, v.b)
            if a.shape != b.shape:
                raise Imprecise('merge of different shapes')
            return A.elementwise(lambda x, y: phi_poly(v.c, x, y), a, b)
        if isinstance(v, (Tup, Lst, It)):
            return self.stack(st, v)
        if isinstance(v, Top):
            raise Imprecise(v.why)
        raise Imprecise('%s used as a number' % type(v).__name__)

    def stack(self, st, v):
        """np.array(list)"""
        parts = []

        def to_ten(x):
            if isinstance(x, Con) and x.v is None:
                return scalar(A.sym('NONE'))
            return self.to_ten(st, x)
        it = self.iter_of(st, v)
        if isinstance(v, Lst):
            segs = st.heap[v.loc].segs
        else:
            segs = None
        if segs is not None and any(s[0] in 'rkc' for s in segs):
            for s in segs:
                if s[0] == 'v':
                    t = to_ten(s[1])
                    parts.append(A.insert_axis(t, 0))
                elif s[0] == 'k':
                    t = to_ten(s[2])
                    t = A.insert_axis(t, 0)
                    parts.append(A.elementwise(lambda x, y: y, A.const_ten((s[1],) + t.shape[1:]), t))
                elif s[0] == 'r':
                    t = tmpl_ten(s[3])
                    parts.append(stack_over(t, s[2], s[1]))
                else:
                    raise Imprecise('list of unknown prefix')
            return A.concat(parts, 0)
        if not it.count.is_const():
            var = ('l', 'st%d' % next(A._tmpc), it.count)
            t = to_ten(it.get(A.lvar(var)))
            return stack_over(t, var, it.count)
        n = int(it.count.c)
        if n == 0:
            return A.const_ten((0,))
        for i in range(n):
            parts.append(A.insert_axis(to_ten(it.get(Lin(i))), 0))
        sh = set(tuple(x.key for x in p.shape) for p in parts)
        if len(sh) > 1:
            raise A.ShapeError('ragged array')
        return A.concat(parts, 0)

    def scal(self, st, v):
        """value as scalar Poly"""
        t = self.to_ten(st, v)
        return t.entry()

    def lin_of(self, st, v):
        if isinstance(v, Con) and isinstance(v.v, bool):
            return Lin(int(v.v))
        p = self.scal(st, v)
        l = A.to_lin(p)
        if l is None:
            raise Imprecise('non-affine size or index')
        return l

    # store through a view
    def write_ten(self, st, arr, ten, partial=True):
        c = st.heap[arr.loc]
        if not isinstance(c, ArrC):
            raise Imprecise('store into non-array')
        self.mutated(st, c.prov, arr.loc)
        if self.intlocs:
            dtypes.stored(self, st, arr, ten)
        if isinstance(c.ten, Top):
            return
        try:
            new = view_write(c.ten, list(arr.view), ten)
        except Imprecise as e:
            st.heap[arr.loc] = ArrC(self.top(str(e)), c.prov)
            return
        st.heap[arr.loc] = ArrC(new, c.prov)

    def mutated(self, st, prov, loc):
        if prov and prov.startswith('param'):
            self.event('mutate', prov, st, loc)
        elif prov and prov.startswith('frozen'):
            self.event('mutate', prov, st, loc)

    # -------------------------------------------------------------- calls
    def call_function(self, st, info, args, kw, self_=None, env=None):
        if len(self.frames) > 40:
            raise Imprecise('call depth')
        if sum(1 for f in self.frames if f.info is info) > 3:
            raise Imprecise('recursion')
        self.funcs_seen.add((info.mod.rel, info.qual))
        if info.qual in self.stubs:
            return self.stubs[info.qual](self, st, args, kw)
        if info.decos and info.outer is None and info not in self.plain:
            return self.decorated(st, info, args, kw, self_)
        s2 = st.fork()
        s2.env = dict(env) if env else {}
        here = self.frames and info.outer is self.frames[-1]
        if here:
            # called by the function that defines it: sees its current variables
            s2.env.update(st.env)
            for n in info.inner():
                s2.env.pop(n, None)
        if info.nonlocal_names() and not here:
            raise Imprecise('nonlocal variables of a function that left its definition')
        fr = Frame(info, len(st.path))
        if isinstance(info.node, ast.Lambda):
            self.bind(st, s2, info, args, kw, self_)
            self.frames.append(fr)
            try:
                v = self.ev(info.node.body, s2)
            finally:
                self.frames.pop()
            st.heap = s2.heap
            return v
        self.bind(st, s2, info, args, kw, self_)
        self.frames.append(fr)
        try:
            try:
                status = self.block(info.node.body, s2, fr)
            except Imprecise as e:
                # effects of the unfinished call are unknown
                why = '%s (in %s line %s)' % (e, info.qual, fr.line)
                self.tops.append(why)
                st.heap = s2.heap
                self.poison(st, list(args) + list(kw.values()) + ([self_] if self_ is not None else []), why)
                raise Imprecise(why)
            if status == 'next':
                fr.ret = NONE
            final = None
            if status in ('next', 'ret'):
                final = (fr.ret, s2)
            for cond, ret, sp in reversed(fr.pending):
                if final is None:
                    final = (ret, sp)
                else:
                    self.keepval = ret
                    sp.env = {'__ret__': ret}
                    so = final[1]
                    so.env = {'__ret__': final[0]}
                    m = self.merge(cond, sp, so)
                    final = (m.env['__ret__'], m)
            if final is None:
                st.heap = s2.heap
                raise AbsRaise(getattr(fr, 'exc', 'Exception'), 'raised in %s' % info.qual)
        finally:
            self.frames.pop()
        st.heap = final[1].heap
        if here and fr.nonlocals:
            if fr.pending:
                raise Imprecise('nonlocal store on one of several paths')
            for n in fr.nonlocals:
                if n in s2.env:
                    st.env[n] = s2.env[n]
        if self.let_limit is not None:
            self.shrink(st, final[0])
        return final[0]

    def decorated(self, st, info, args, kw, self_):
        '''call through the decorators of a module or class level function'''
        self.plain.add(info)
        try:
            f = Fn(info)
            for d in reversed(info.decos):
                key = ('deco', id(d))
                if key not in self.statics:
                    self.keep.append(d)
                    s0 = State()
                    v = self.call(s0, self.default(s0, FuncInfo(info.node, info.mod), d), [f], {})
                    self.statics[key] = v
                    self.static_heap[key] = dict(s0.heap)
                    self.static_init.update(s0.heap)
                f = self.statics[key]
                for l, c in self.static_heap[key].items():
                    st.heap.setdefault(l, c)
            return self.call(st, f, ([self_] if self_ is not None else []) + list(args), kw)
        finally:
            self.plain.discard(info)

    def poison(self, st, roots, why):
        seen = set()
        work = list(roots)
        t = Top(why)
        while work:
            v = work.pop()
            if isinstance(v, Phi):
                work += [v.a, v.b]
                continue
            if isinstance(v, Tup):
                work += list(v.items)
                continue
            if isinstance(v, Opq):
                work += [x for x in v.args if isinstance(x, Val)]
                continue
            loc = getattr(v, 'loc', None)
            if loc is None or loc in seen or loc not in st.heap:
                continue
            seen.add(loc)
            c = st.heap[loc]
            if isinstance(c, ArrC):
                st.heap[loc] = ArrC(t, c.prov)
            elif isinstance(c, ListC):
                work += [s[1] for s in c.segs if s[0] == 'v']
                st.heap[loc] = ListC([('c', t, None)], c.prov)
            elif isinstance(c, ObjC):
                work += list(c.attrs.values())
                st.heap[loc] = ObjC(c.cls, {k: (x if isinstance(x, (Fn, UFn, Cls)) else t) for k, x in c.attrs.items()}, c.prov)
            elif isinstance(c, SymObjC):
                for l in c.fields.values():
                    if isinstance(st.heap.get(l), ArrC):
                        st.heap[l] = ArrC(t, st.heap[l].prov)

    def bind(self, st, s2, info, args, kw, self_):
        a = info.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        args = list(args)
        if self_ is not None and info.kind != 'static':
            args = [self_] + args
        kw = dict(kw)
        defaults = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
        for n, d in zip(names, defaults):
            if args:
                if n in kw:
                    raise AbsRaise('TypeError', 'multiple values for %s' % n)
                s2.env[n] = args.pop(0)
            elif n in kw:
                s2.env[n] = kw.pop(n)
            elif d is not None:
                s2.env[n] = self.param_default(st, info, d)
            else:
                self.event('call', 'call of %s lacks argument %r' % (info.qual, n), st)
                raise AbsRaise('TypeError', 'missing argument %s of %s' % (n, info.qual))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                s2.env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                s2.env[x.arg] = self.param_default(st, info, d)
            else:
                raise AbsRaise('TypeError', 'missing argument %s' % x.arg)
        if a.vararg:
            s2.env[a.vararg.arg] = Tup(args)
        elif args:
            self.event('call', 'too many arguments for %s' % info.qual, st)
            raise AbsRaise('TypeError', 'too many arguments for %s' % info.qual)
        star = kw.pop('**', None)
        if a.kwarg:
            s2.env[a.kwarg.arg] = Dct(st.new(DictC({k: v for k, v in kw.items()}, None, star)))
            s2.heap = st.heap if s2.heap is st.heap else dict(st.heap)
        elif kw:
            self.event('call', 'unexpected argument %s for %s' % (sorted(kw), info.qual), st)
            raise AbsRaise('TypeError', 'unexpected argument %s for %s' % (sorted(kw), info.qual))
        elif star is not None and not isinstance(star, Opq):
            pass
        s2.heap = dict(st.heap)

    def param_default(self, st, info, node):
        if info.dvals is not None:
            return info.dvals[id(node)]
        return self.static(st, info, node)

    def static(self, st, info, node):
        '''value of an expression evaluated once per program run: default
        arguments, module and class level assignments'''
        key = id(node)
        if isinstance(node, ast.Constant):
            return self.default(st, info, node)
        if key not in self.statics:
            s0 = State()
            v = self.default(s0, info, node)
            self.statics[key] = v
            for l, c in s0.heap.items():
                self.static_init[l] = c
            self.static_heap[key] = dict(s0.heap)
            self.keep.append(node)
        v = self.statics[key]
        for l, c in self.static_heap[key].items():
            if l not in st.heap:
                st.heap[l] = c
        return v

    def module_vars(self, st, mod, create=False):
        '''module variables assigned by functions (global statement)'''
        key = ('module', mod.name)
        if key not in self.statics:
            if not create:
                return None
            s0 = State()
            o = Obj(s0.new(ObjC(None)))
            self.statics[key] = o
            self.static_init[o.loc] = s0.heap[o.loc]
        o = self.statics[key]
        if o.loc not in st.heap:
            st.heap[o.loc] = self.static_init[o.loc]
        return o

    def default(self, st, info, node):
        saved = st.env
        st.env = {}
        self.frames.append(Frame(info, len(st.path)))
        try:
            return self.ev(node, st)
        finally:
            self.frames.pop()
            st.env = saved

    def call(self, st, f, args, kw):
        """call an abstract callable"""
        if isinstance(f, Fn):
            return self.call_function(st, f.info, args, kw, f.self, f.env)
        if isinstance(f, Cls):
            return self.instantiate(st, f.info, args, kw)
        if isinstance(f, UFn):
            return f.spec(self, st, args, kw)
        if isinstance(f, Ext):
            from . import npmodel
            return npmodel.call_ext(self, st, f.name, args, kw)
        if isinstance(f, BM):
            from . import npmodel
            return npmodel.call_method(self, st, f.recv, f.name, args, kw)
        if isinstance(f, Phi):
            s1, s2 = st.fork(), st.fork()
            v1 = self.call(s1, f.a, args, kw)
            v2 = self.call(s2, f.b, args, kw)
            s1.env['__v'] = v1
            s2.env['__v'] = v2
            m = self.merge(f.c, s1, s2)
            v = m.env.pop('__v')
            st.heap, st.env = m.heap, m.env
            return v
        if isinstance(f, Con):
            if f.v is None:
                raise AbsRaise('TypeError', 'None is not callable')
        if isinstance(f, Obj):
            c = st.heap[f.loc]
            m = c.cls.find('methods', '__call__') if c.cls else None
            if m:
                return self.call_function(st, m, args, kw, f)
        if isinstance(f, Top):
            return f
        raise Imprecise('call of %s' % type(f).__name__)

    def instantiate(self, st, cls, args, kw):
        o = Obj(st.new(ObjC(cls)))
        init = cls.find('methods', '__init__')
        if init is not None:
            self.call_function(st, init, args, kw, o)
        return o

    # --------------------------------------------------------- attributes
    def getattr(self, st, v, name):
        if isinstance(v, Obj):
            c = st.heap[v.loc]
            cls = c.cls
            if cls is not None:
                p = cls.find('props', name)
                if p is not None:
                    return self.call_function(st, p, [], {}, v)
            if name in c.attrs:
                return c.attrs[name]
            if cls is not None:
                m = cls.find('methods', name)
                if m is not None:
                    return Fn(m, v if m.kind == 'func' else None)
                k = cls.find('consts', name)
                if k is not None:
                    return self.static(st, FuncInfo(cls.node, cls.mod), k)
            if name == '__class__':
                return Cls(cls)
            if name == '__dict__':
                return Dct(v.loc)
            if name == '__dir__':
                from . import npmodel
                return UFn('__dir__', lambda I, s, a, k: npmodel.H['dir'](I, s, [v], {}))
            self.event('attr', 'attribute %r is not set on %s' % (name, cls.name if cls else 'object'), st)
            raise AbsRaise('AttributeError', name)
        if isinstance(v, SObj):
            from . import npmodel
            return npmodel.sobj_get(self, st, v, name)
        if isinstance(v, Cls):
            m = v.info.find('methods', name)
            if m is not None:
                return Fn(m)
            if name == '__name__':
                return Con(v.info.name)
            k = v.info.find('consts', name)
            if k is not None:
                return self.static(st, FuncInfo(v.info.node, v.info.mod), k)
            raise Imprecise('class attribute %s' % name)
        if isinstance(v, Ext) and name in ('__name__', '__qualname__'):
            return Con(v.name.split('.')[-1])
        if isinstance(v, Ext):
            r = self.prog.dotted(v.name + '.' + name)
            if isinstance(r, Ext):
                return self.ext_const(st, r)
            return r
        if isinstance(v, Phi):
            s1, s2 = st.fork(), st.fork()
            a = self.getattr(s1, v.a, name)
            b = self.getattr(s2, v.b, name)
            for s in (s1, s2):
                for l, c in s.heap.items():
                    st.heap.setdefault(l, c)
            if isinstance(a, BM) and isinstance(b, BM):
                return BM(v, name)
            return phi(v.c, a, b)
        if isinstance(v, Top):
            return v
        if isinstance(v, Con) and v.v is None:
            if name in ('__class__', '__doc__'):
                raise Imprecise(name)
            self.event('none', 'attribute %r of None' % name, st)
            raise AbsRaise('AttributeError', 'None.%s' % name)
        from . import npmodel
        return npmodel.builtin_attr(self, st, v, name)

    def ext_const(self, st, r):
        from . import npmodel
        return npmodel.ext_value(self, st, r)

    def setattr(self, st, v, name, val):
        if isinstance(v, Obj):
            c = st.heap[v.loc]
            if c.cls is not None:
                s = c.cls.find('setters', name)
                if s is not None:
                    self.call_function(st, s, [val], {}, v)
                    return
                if c.cls.find('props', name) is not None:
                    self.event('attr', 'assignment to read-only property %r' % name, st)
                    raise AbsRaise('AttributeError', 'cannot set %s' % name)
            if c.prov and (c.prov.startswith('param') or c.prov.startswith('frozen')):
                self.event('mutate', c.prov + '.' + name, st, v.loc)
            if self.let_limit is not None:
                self.shrink(st, val)
            a = dict(c.attrs)
            a[name] = val
            st.heap[v.loc] = ObjC(c.cls, a, c.prov)
            if self.frames:
                self.lastset[v.loc, name] = (self.frames[-1].info, self.frames[-1].line)
            return
        if isinstance(v, SObj):
            from . import npmodel
            npmodel.sobj_set(self, st, v, name, val)
            return
        if isinstance(v, Phi):
            raise Imprecise('attribute store on a merge')
        if isinstance(v, Top):
            return
        raise Imprecise('attribute store on %s' % type(v).__name__)

    def shrink(self, st, val):
        """name large array terms (let_limit set)"""
        if isinstance(val, Tup):
            for x in val.items:
                self.shrink(st, x)
        elif isinstance(val, Arr) and not val.view:
            c = st.heap.get(val.loc)
            if isinstance(c, ArrC) and isinstance(c.ten, Ten) and c.ten.rank:
                from . import npmodel
                if npmodel.deep_size(c.ten) > self.let_local if self.let_local is not None else npmodel.size(c.ten) > self.let_limit:
                    try:
                        st.heap[val.loc] = ArrC(npmodel.let_ten(c.ten), c.prov)
                    except Imprecise:
                        pass

    # ------------------------------------------------------------- merging
    def merge(self, c, s1, s2):
        """join of two states, s1 when c"""
        s = State()
        s.assume = {k: v for k, v in s1.assume.items() if s2.assume.get(k) == v}
        n = 0
        while n < len(s1.path) and n < len(s2.path) and s1.path[n] is s2.path[n]:
            n += 1
        s.path = s1.path[:n]
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            s.env[k] = a if a is b else phi(c, a, b)
        h = dict(s2.heap)
        for l, a in s1.heap.items():
            if l not in s2.heap:
                b = self.static_init.get(l)
                h[l] = a if b is None or a is b else self.join_content(c, a, b)
                continue
            b = s2.heap[l]
            if a is b:
                continue
            h[l] = self.join_content(c, a, b)
        for l in self.static_init:
            if l in s2.heap and l not in s1.heap and s2.heap[l] is not self.static_init[l]:
                h[l] = self.join_content(c, self.static_init[l], s2.heap[l])
        s.heap = h
        return s

    def join_content(self, c, a, b):
        if type(a) is not type(b):
            return ArrC(self.top('merge of different kinds'))
        if isinstance(a, ArrC):
            if a.same(b):
                return a
            if isinstance(a.ten, Top) or isinstance(b.ten, Top):
                return ArrC(a.ten if isinstance(a.ten, Top) else b.ten, a.prov)
            if c is None or a.ten.shape != b.ten.shape:
                return ArrC(self.top('merge under unknown condition'), a.prov)
            try:
                return ArrC(A.elementwise(lambda x, y: phi_poly(c, x, y), a.ten, b.ten), a.prov)
            except Imprecise as e:
                return ArrC(self.top(str(e)), a.prov)
        if isinstance(a, ObjC):
            at = {}
            for k in set(a.attrs) | set(b.attrs):
                x, y = a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)
                at[k] = x if x is y else phi(c, x, y)
            return ObjC(a.cls, at, a.prov)
        if isinstance(a, ListC):
            if a.same(b):
                return a
            if len(a.segs) == len(b.segs) and all(x[0] == y[0] == 'v' for x, y in zip(a.segs, b.segs)):
                return ListC([('v', phi(c, x[1], y[1])) for x, y in zip(a.segs, b.segs)], a.prov)
            return ListC([('c', self.top('merged list'), None)], a.prov)
        if isinstance(a, DictC):
            if a.same(b):
                return a
            d = {}
            for k in set(a.d) | set(b.d):
                d[k] = phi(c, a.d.get(k, UNDEF), b.d.get(k, UNDEF))
            return a.put(d)
        return a

    # ---------------------------------------------------------- conditions
    def truth(self, st, v):
        """True, False or a 0/1 Poly; None when unknown"""
        if isinstance(v, Con):
            return bool(v.v)
        if isinstance(v, Cond):
            return self.cond_known(st, v.p)
        if isinstance(v, Num):
            if v.p.is_const():
                return v.p.const() != 0
            l = A.to_lin(v.p)
            if l is not None and A.never_zero(l):
                return True
            return self.cond_known(st, A.P1 - A.ind('=', v.p))
        if isinstance(v, (Fn, Cls, Obj, Ext, UFn, SObj)):
            return True
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Lst):
            n = self.length(st, v)
            if n.is_const():
                return n.c != 0
            if A.positive(n):
                return True
            return None
        if isinstance(v, Arr):
            t = self.read(st, v)
            if all(s == A.ONE for s in t.shape):
                return self.truth(st, Num(t.entry()))
            self.event('truth', 'truth value of an array with more than one element', st)
            raise AbsRaise('ValueError', 'truth of array')
        if isinstance(v, Phi):
            a, b = self.truth(st, v.a), self.truth(st, v.b)
            if a is None or b is None or v.c is None:
                return None
            return self.cond_known(st, phi_poly(v.c, A.poly(a), A.poly(b)))
        if isinstance(v, Dct):
            c = st.heap[v.loc]
            return True if c.d else (None if c.open else False)
        return None

    def cond_known(self, st, p):
        if p.is_const():
            return p.const() != 0
        k = st.assume.get(p.key)
        if k is not None:
            return k
        # simplify with assumptions on single indicator atoms
        for (ak, val) in st.assume.items():
            if isinstance(ak, tuple):
                pa, ix = ak
                if any(f[0] is pa and f[1] == ix for m in p.d for f in m):
                    d = {}
                    for m, c in p.d.items():
                        hit = [f for f in m if f[0] is pa and f[1] == ix]
                        if hit:
                            if not val:
                                continue
                            m2 = tuple(f for f in m if not (f[0] is pa and f[1] == ix))
                            A._acc(d, A.norm_mono(m2, ()), c)
                        else:
                            A._acc(d, Poly({m: A.Fr(1)}), c)
                    p = Poly(d)
        if p.is_const():
            return p.const() != 0
        if self.oracle is not None:
            r = self.oracle(p)
            if r is not None:
                return r
        return p

    def assume(self, st, p, val):
        st.path = st.path + ((p, val),)
        if p is None:
            return
        st.assume[p.key] = val
        q = A.P1 - p
        st.assume[q.key] = not val
        for r, vv in ((p, val), (q, not val)):
            if len(r.d) == 1:
                (m, c), = r.d.items()
                if c == 1 and not A._bvars(m):
                    fs = [f for f in m if f[0].kind in ('ind', 'sym')]
                    if len(fs) == len(m) and (vv or len(m) == 1):
                        for f in fs:
                            st.assume[(f[0], f[1])] = vv

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            r = self.stmt(s, st, fr)
            if r != 'next':
                return r
        return 'next'

    def stmt(self, s, st, fr):
        fr.line = s.lineno
        self.fuel -= 1
        if self.fuel < 0:
            raise Imprecise('analysis budget exhausted')
        self.stmts_seen.add((fr.info.mod.rel if fr.info else '', s.lineno))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Imprecise('statement %s' % type(s).__name__)
        try:
            return m(s, st, fr)
        except AbsRaise as e:
            fr.exc = e.kind
            if not getattr(e, 'logged', False):
                e.logged = True
                self.event('raise', '%s: %s' % (e.kind, e.msg), st, e.kind)
            return 'raise'
        except A.ShapeError as e:
            self.event('shape', str(e), st)
            fr.exc = 'ValueError'
            return 'raise'

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return 'next'
        self.ev(s.value, st)
        return 'next'

    def s_Pass(self, s, st, fr):
        return 'next'

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = self.prog.dotted(a.name if a.asname else a.name.split('.')[0])
        return 'next'

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name] = self.prog.dotted((s.module or '') + '.' + a.name)
        return 'next'

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.closure(s, st, fr)
        return 'next'

    def closure(self, n, st, fr):
        i = FuncInfo(n, fr.info.mod, None, fr)
        i.dvals = {id(d): self.ev(d, st) for d in list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]}
        f = Fn(i, None, dict(st.env))
        if i.name not in ('<lambda>',):
            f.env[i.name] = f
        for d in reversed(i.decos):
            f = self.call(st, self.ev(d, st), [f], {})
        return f

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        for n in s.names:
            v = self.name(n, st) if n not in st.env else None
            o = self.module_vars(st, fr.info.mod, True)
            if v is not None and n not in st.heap[o.loc].attrs:
                self.static_init[o.loc] = self.static_init[o.loc].put(dict(self.static_init[o.loc].attrs, **{n: v}))
                st.heap[o.loc] = st.heap[o.loc].put(dict(st.heap[o.loc].attrs, **{n: v}))
        return 'next'

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return 'next'

    def s_Assert(self, s, st, fr):
        try:
            c = self.truth(st, self.ev(s.test, st))
        except Imprecise:
            return 'next'
        if c is False:
            raise AbsRaise('AssertionError')
        if c is not True and c is not None:
            self.event('raise', 'AssertionError', self._with(st, c, False), 'AssertionError')
        return 'next'

    def _with(self, st, c, val):
        s = st.fork()
        s.path = s.path + ((c, val),)
        return s

    def s_Raise(self, s, st, fr):
        kind = 'Exception'
        if s.exc is not None:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            kind = ast.unparse(n)
        e = AbsRaise(kind, 'raise statement')
        raise e

    def s_Return(self, s, st, fr):
        fr.ret = self.ev(s.value, st) if s.value is not None else NONE
        return 'ret'

    def s_Continue(self, s, st, fr):
        return 'continue'

    def s_Break(self, s, st, fr):
        return 'break'

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
                continue
            if isinstance(t, ast.Subscript):
                v, k = self.ev(t.value, st), self.ev(t.slice, st)
                if isinstance(v, Dct) and isinstance(k, Con):
                    c = st.heap[v.loc]
                    if k.v in c.d:
                        self.dict_write(st, v, {a: b for a, b in c.d.items() if a != k.v})
                        continue
                    if not c.open:
                        raise AbsRaise('KeyError', repr(k.v))
            if isinstance(t, ast.Attribute):
                v = self.ev(t.value, st)
                if isinstance(v, Obj):
                    c = st.heap[v.loc]
                    if t.attr in c.d:
                        self.dict_write(st, Dct(v.loc), {a: b for a, b in c.d.items() if a != t.attr})
                        continue
                    raise AbsRaise('AttributeError', t.attr)
            raise Imprecise('del')
        return 'next'

    def dict_write(self, st, v, d):
        c = st.heap[v.loc]
        if c.prov and (c.prov.startswith('param') or c.prov.startswith('frozen')):
            self.event('mutate', c.prov, st, v.loc)
        st.heap[v.loc] = c.put(d)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return 'next'

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return 'next'

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if self.let_local is not None:
                self.shrink(st, v)
            if self.frames and t.id in self.frames[-1].globals:
                self.setattr(st, self.module_vars(st, self.frames[-1].info.mod, True), t.id, v)
                return
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(t.value, st), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev(t.slice, st)
            self.store(st, base, idx, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            try:
                it = self.iter_of(st, v)
                n = it.count
            except Imprecise as e:
                for x in t.elts:
                    self.assign(x, self.top(str(e)), st)
                return
            if not n.is_const():
                raise Imprecise('unpacking of unknown length')
            if n.c != len(t.elts):
                raise AbsRaise('ValueError', 'cannot unpack %d values into %d' % (n.c, len(t.elts)))
            for i, x in enumerate(t.elts):
                self.assign(x, it.get(Lin(i)), st)
        elif isinstance(t, ast.Starred):
            raise Imprecise('starred target')
        else:
            raise Imprecise('assignment target')

    def s_AugAssign(self, s, st, fr):
        op = BINOPS.get(type(s.op))
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st)
            v = self.ev(s.value, st)
            new = self.inplace(st, op, cur, v)
            st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(st, o, t.attr)
            v = self.ev(s.value, st)
            self.setattr(st, o, t.attr, self.inplace(st, op, cur, v))
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev(t.slice, st)
            cur = self.subscript(st, base, idx)
            v = self.ev(s.value, st)
            new = self.inplace(st, op, cur, v)
            if not (isinstance(cur, Arr) and new is cur):
                self.store(st, base, idx, new)
        else:
            raise Imprecise('augmented target')
        return 'next'

    def inplace(self, st, op, cur, v):
        if isinstance(cur, Arr):
            try:
                t = self.read(st, cur)
                o = self.to_ten(st, v)
                r = self.ten_binop(op, t, o)
            except Imprecise as e:
                c = st.heap[cur.loc]
                self.mutated(st, c.prov, cur.loc)
                st.heap[cur.loc] = ArrC(self.top(str(e)), c.prov)
                return cur
            if r.shape != t.shape:
                raise A.ShapeError('in-place %s= of shape (%s) with (%s)' % (
                    op, ', '.join(map(repr, t.shape)), ', '.join(map(repr, o.shape))))
            self.write_ten(st, cur, r)
            return cur
        if isinstance(cur, Phi) and has_arr(cur):
            r = self.binop(st, op, cur, v)
            try:
                rt = self.to_ten(st, r)
                self.phi_write(st, A.P1, cur, rt)
            except Imprecise as e:
                for a in phi_arrs(cur):
                    c = st.heap[a.loc]
                    self.mutated(st, c.prov, a.loc)
                    st.heap[a.loc] = ArrC(self.top(str(e)), c.prov)
            return cur
        if isinstance(cur, Lst) and op == '+':
            c = st.heap[cur.loc]
            if c.prov and (c.prov.startswith('param') or c.prov.startswith('frozen')):
                self.event('mutate', c.prov, st, cur.loc)
            segs = self.segs_of(st, v)
            st.heap[cur.loc] = ListC(c.segs + segs, c.prov)
            return cur
        return self.binop(st, op, cur, v)

    def phi_write(self, st, guard, v, ten):
        if v.c is None:
            raise Imprecise('store under unknown condition')
        for sub, g in ((v.a, guard * v.c), (v.b, guard * (A.P1 - v.c))):
            if isinstance(sub, Phi):
                self.phi_write(st, g, sub, ten)
            elif isinstance(sub, Arr):
                old = self.read(st, sub)
                self.write_ten(st, sub, A.elementwise(lambda x, y: phi_poly(g, x, y), ten, old))

    def s_If(self, s, st, fr):
        try:
            c = self.truth(st, self.ev(s.test, st))
        except Imprecise as e:
            self.top('condition: %s' % e)
            c = None
        if c is True:
            return self.block(s.body, st, fr)
        if c is False:
            return self.block(s.orelse, st, fr)
        return self.branch(c, st, fr, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr))

    def branch(self, c, st, fr, f1, f2):
        s1, s2 = st.fork(), st.fork()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        live = []
        for s_, f in ((s1, f1), (s2, f2)):
            fr.ret = None
            r = f(s_)
            if r == 'next':
                live.append(s_)
            elif r == 'ret':
                fr.pending.append((path_cond(s_.path, fr.base), fr.ret, s_))
            elif r == 'continue':
                if fr.conts is None:
                    raise Imprecise('continue')
                fr.conts.append((path_cond(s_.path, fr.cbase), s_))
            elif r == 'break':
                raise Imprecise('conditional break')
        if not live:
            return 'dead'
        if len(live) == 2:
            m = self.merge(c, s1, s2)
        else:
            m = live[0]
        st.heap, st.env, st.assume, st.path = m.heap, m.env, m.assume, m.path
        return 'next'

    def s_Try(self, s, st, fr):
        snap = st.fork()
        n = len(self.events)
        r = self.block(s.body, st, fr)
        if r == 'raise' and s.handlers:
            exc = getattr(fr, 'exc', 'Exception')
            for h in s.handlers:
                names = []
                if h.type is not None:
                    names = [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if not names or exc in names or 'Exception' in names or 'BaseException' in names \
                        or any(nm.split('.')[-1] == exc for nm in names):
                    # the exception is handled: it is no longer an event
                    del self.events[n:]
                    # keep effects of the part that ran (st), conservatively
                    if h.name:
                        st.env[h.name] = Opq('exception')
                    r = self.block(h.body, st, fr)
                    break
        elif r == 'next' and s.orelse:
            r = self.block(s.orelse, st, fr)
        if s.finalbody:
            r2 = self.block(s.finalbody, st, fr)
            if r2 != 'next':
                r = r2
        return r

    def s_With(self, s, st, fr):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        return self.block(s.body, st, fr)

    def s_For(self, s, st, fr):
        from . import loops
        return loops.for_loop(self, s, st, fr)

    def s_While(self, s, st, fr):
        from . import loops
        return loops.while_loop(self, s, st, fr)

    # --------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.top('expression %s' % type(n).__name__)
        try:
            return m(n, st)
        except Imprecise as e:
            return self.top(str(e))

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str) or v is Ellipsis:
            return Con(v)
        if isinstance(v, int):
            return Num(v, True)
        if isinstance(v, float):
            return Num(v)
        return Con(v)

    def name(self, nm, st):
        if nm in st.env:
            v = st.env[nm]
            if v is UNDEF:
                raise Imprecise('%s may be undefined' % nm)
            return v
        f = self.frames[-1].info
        if f.outer is not None and nm in f.outer.locals():
            raise Imprecise('%s of the enclosing function' % nm)
        g = self.module_vars(st, f.mod)
        if g is not None and nm in st.heap[g.loc].attrs:
            v = st.heap[g.loc].attrs[nm]
            if v is UNDEF:
                raise Imprecise('%s may be undefined' % nm)
            return v
        v = f.mod.resolve(nm)
        if v is not None:
            if isinstance(v, Ext):
                return self.ext_const(st, v)
            return v
        if nm in f.mod.globals:
            return self.static(st, f, f.mod.globals[nm])
        from . import npmodel
        if nm in npmodel.BUILTINS:
            return Ext('builtins.' + nm)
        self.event('name', 'name %r is not defined' % nm, st)
        raise AbsRaise('NameError', nm)

    def e_Name(self, n, st):
        return self.name(n.id, st)

    def e_Attribute(self, n, st):
        return self.getattr(st, self.ev(n.value, st), n.attr)

    def e_Tuple(self, n, st):
        return Tup(self.elts(n.elts, st))

    def e_List(self, n, st):
        return st.lst(self.elts(n.elts, st))

    def e_Set(self, n, st):
        from . import npmodel
        return npmodel.mkset(self, st, self.elts(n.elts, st))

    def e_SetComp(self, n, st):
        from . import loops, npmodel
        v = loops.comprehension(self, n, st)
        return npmodel.H['set'](self, st, [v], {})

    def e_DictComp(self, n, st):
        from . import loops
        m = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        ast.copy_location(m, n)
        ast.fix_missing_locations(m)
        v = loops.comprehension(self, m, st)
        d = {}
        for g in self.segs_of(st, v):
            if g[0] != 'v' or not isinstance(g[1], Tup) or not isinstance(g[1].items[0], Con):
                raise Imprecise('dict comprehension')
            d[g[1].items[0].v] = g[1].items[1]
        return Dct(st.new(DictC(d)))

    def elts(self, es, st):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                it = self.iter_of(st, v)
                if not it.count.is_const():
                    raise Imprecise('starred of unknown length')
                out += [it.get(Lin(i)) for i in range(int(it.count.c))]
            else:
                out.append(self.ev(e, st))
        return out

    def e_Dict(self, n, st):
        d = {}
        for k, v in zip(n.keys, n.values):
            kv = self.ev(k, st)
            if not isinstance(kv, Con):
                if isinstance(kv, Num) and kv.p.is_const():
                    kv = Con(kv.p.const())
                else:
                    raise Imprecise('dict key')
            d[kv.v] = self.ev(v, st)
        return Dct(st.new(DictC(d)))

    def e_JoinedStr(self, n, st):
        out = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st)
                out.append(TX.of(self, st, x) if v.conversion in (-1, 115) and v.format_spec is None else Opq('str'))
            else:
                out.append(Con(v.value))
        return TX.cat(out)

    def e_Lambda(self, n, st):
        return self.closure(n, st, self.frames[-1])

    def e_IfExp(self, n, st):
        c = self.truth(st, self.ev(n.test, st))
        if c is True:
            return self.ev(n.body, st)
        if c is False:
            return self.ev(n.orelse, st)
        s1, s2 = st.fork(), st.fork()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        a = b = None
        try:
            a = self.ev(n.body, s1)
        except AbsRaise:
            pass
        try:
            b = self.ev(n.orelse, s2)
        except AbsRaise:
            pass
        if a is None or b is None:
            if a is None and b is None:
                raise AbsRaise('Exception', 'both branches raise')
            s = s1 if b is None else s2
            st.heap = s.heap
            return a if b is None else b
        s1.env = dict(s1.env)
        s1.env['__v'] = a
        s2.env['__v'] = b
        m = self.merge(c, s1, s2)
        st.heap = m.heap
        return m.env['__v']

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        cur = self.ev(n.values[0], st)
        for x in n.values[1:]:
            t = self.truth(st, cur)
            if t is True:
                if isand:
                    cur = self.ev(x, st)
                    continue
                return cur
            if t is False:
                if isand:
                    return cur
                cur = self.ev(x, st)
                continue
            s2 = st.fork()
            if t is not None:
                self.assume(s2, t, isand)
            try:
                nxt = self.ev(x, s2)
            except AbsRaise:
                nxt = cur
            for l, c in s2.heap.items():
                st.heap.setdefault(l, c)
            if t is None:
                cur = self.top('unknown condition')
                continue
            t2 = self.truth(st, nxt)
            if isinstance(cur, (Cond, Con)) and isinstance(nxt, (Cond, Con)) and t2 is not None:
                p2 = A.poly(t2) if not isinstance(t2, Poly) else t2
                p = t * p2 if isand else t + p2 - t * p2
                cur = mkcond(p)
            else:
                cur = phi(t, nxt, cur) if isand else phi(t, cur, nxt)
        return cur

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            t = self.truth(st, v)
            if t is None:
                raise Imprecise('unknown condition')
            if isinstance(t, bool):
                return Con(not t)
            return mkcond(A.P1 - t)
        if isinstance(n.op, ast.USub):
            if isinstance(v, Num):
                return Num(-v.p, v.isint)
            if isinstance(v, Con) and isinstance(v.v, bool):
                return Num(-int(v.v), True)
            return dtypes.mark(self, self.mk(st, A.neg(self.to_ten(st, v))), dtypes.level(self, st, v))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            t = self.to_ten(st, v)
            return self.mk(st, t.map(lambda p: A.P1 - p))
        raise Imprecise('unary operator')

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        op = BINOPS.get(type(n.op))
        r = self.binop(st, op, a, b)
        return dtypes.binop(self, st, op, a, b, r) if self.intlocs else r

    def binop(self, st, op, a, b):
        if op is None:
            raise Imprecise('operator')
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            if not (op == '%' and isinstance(a, (Con, Opq))):
                return b
        if isinstance(a, Dct) and isinstance(b, Dct) and op in ('&', '|', '-', '^') or isinstance(a, Dct) and isinstance(b, (Lst, Tup)) and op == '-':
            from . import npmodel
            return npmodel.dict_method(self, st, a, {'&': 'intersection', '|': 'union', '-': 'difference', '^': 'symmetric_difference'}[op], [b], {})
        # strings
        if isinstance(a, Con) and isinstance(a.v, str) or isinstance(a, Opq) and a.name == 'str' \
                or isinstance(b, Opq) and b.name == 'str' or (isinstance(b, Con) and isinstance(b.v, str)):
            if op == '+' and TX.isstr(a) and TX.isstr(b):
                return TX.cat([a, b])
            k, o = (a, b) if TX.isstr(a) else (b, a)
            if op == '*' and isinstance(k, Con) and isinstance(o, Num) and o.p.is_const() and o.p.const().denominator == 1:
                return Con(k.v * int(o.p.const()))
            if not TX.isstr(a) and op == '%' or op in ('-', '/', '//', '**', '@') or op == '+' and isinstance(o, (Num, Lst, Tup, Arr, Dct, Con)):
                if isinstance(o, (Num, Con, Lst, Tup, Dct, Opq)):
                    self.event('type', 'operator %s on a text' % op, st)
                    raise AbsRaise('TypeError', 'unsupported operand types for %s' % op)
            return Opq('str')
        if isinstance(a, (Lst, Tup)) and op == '+' and isinstance(b, (Lst, Tup)):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            return Lst(st.new(ListC(self.segs_of(st, a) + self.segs_of(st, b))))
        if op == '*' and isinstance(a, (Lst, Tup)) and isinstance(b, Num):
            return self.repeat(st, a, b)
        if op == '*' and isinstance(b, (Lst, Tup)) and isinstance(a, Num):
            return self.repeat(st, b, a)
        if isinstance(a, Num) and isinstance(b, Num):
            return self.num_binop(op, a, b)
        ta = self.to_ten(st, a)
        tb = self.to_ten(st, b)
        r = self.ten_binop(op, ta, tb)
        if isinstance(a, (Phi, Num, Cond, Con)) and isinstance(b, (Phi, Num, Cond, Con)):
            return self.mk(st, r)
        if r.rank == 0:
            return Num(r.cells[()])
        return self.mk(st, r)

    def repeat(self, st, a, n):
        l = A.to_lin(n.p)
        if l is None:
            raise Imprecise('list repetition')
        segs = self.segs_of(st, a)
        if l.is_const():
            if isinstance(a, Tup):
                return Tup(list(a.items) * int(l.c))
            return Lst(st.new(ListC(segs * max(int(l.c), 0))))
        if len(segs) == 1 and segs[0][0] == 'v':
            return Lst(st.new(ListC([('k', l, segs[0][1])])))
        raise Imprecise('list repetition')

    def num_binop(self, op, a, b):
        ii = a.isint and b.isint
        p, q = a.p, b.p
        if op == '+':
            return Num(p + q, ii)
        if op == '-':
            return Num(p - q, ii)
        if op == '*':
            return Num(p * q, ii)
        if op == '/':
            if not q.d:
                self.event('zerodiv', 'division by zero')
                raise AbsRaise('ZeroDivisionError')
            return Num(p * A.power(q, -1))
        if op == '**':
            return Num(pow_poly(p, q), ii)
        if op in ('//', '%'):
            if p.is_const() and q.is_const():
                if q.const() == 0:
                    raise AbsRaise('ZeroDivisionError')
                x, y = p.const(), q.const()
                fl = (x / y).numerator // (x / y).denominator
                return Num(fl if op == '//' else x - y * fl, ii)
            lp, lq = A.to_lin(p), A.to_lin(q)
            if ii and lq is not None and lq.is_const() and lq.c > 0 and lp is not None and \
                    lp.c % lq.c == 0 and all(v % lq.c == 0 for _, v in lp.t):
                if op == '%':
                    return Num(0, True)
                return Num(A.from_lin(Lin(lp.c // lq.c, tuple((k, v // lq.c) for k, v in lp.t))), True)
            if op == '//':
                return Num(A.apply1('floor', p * A.power(q, -1)), ii)
            return Num(A.app_entry('app', 'mod', (p, q), ()), ii)
        raise Imprecise('operator %s' % op)

    def ten_binop(self, op, a, b):
        if op in '&|':
            if all(is_truth(x) for t in (a, b) for x in t.cells.values()):
                return A.elementwise((lambda x, y: x * y) if op == '&' else (lambda x, y: x + y - x * y), a, b)
            raise Imprecise('bitwise operator')
        if op == '+':
            return A.add(a, b)
        if op == '-':
            return A.sub(a, b)
        if op == '*':
            return A.mul(a, b)
        if op == '/':
            return A.div(a, b)
        if op == '@':
            if a.rank == 0 or b.rank == 0:
                raise A.ShapeError('matmul with a scalar')
            return A.dot(a, b)
        if op == '**':
            return A.elementwise(pow_poly, a, b)
        if op == '%':
            return A.elementwise(lambda x, y: A.app_entry('app', 'mod', (x, y), ()), a, b)
        if op == '//':
            return A.elementwise(lambda x, y: A.apply1('floor', x * A.power(y, -1)), a, b)
        raise Imprecise('operator %s' % op)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st)
            c = self.compare(st, type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                if isinstance(res, Con) and isinstance(c, Con):
                    res = Con(bool(res.v) and bool(c.v))
                elif isinstance(res, (Con, Cond)) and isinstance(c, (Con, Cond)):
                    res = mkcond(cond_poly(res) * cond_poly(c))
                else:
                    raise Imprecise('chained comparison')
            left = right
        return res

    def compare(self, st, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_same(st, a, b)
            if r is None:
                raise Imprecise('identity test')
            if isinstance(r, bool):
                return Con(r if op == 'Is' else not r)
            return mkcond(r if op == 'Is' else A.P1 - r)
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, Phi) and not isinstance(a.a, (Num, Arr)):
            return phi(a.c, self.compare(st, op, a.a, b), self.compare(st, op, a.b, b))
        if isinstance(b, Phi) and not isinstance(b.a, (Num, Arr)):
            return phi(b.c, self.compare(st, op, a, b.a), self.compare(st, op, a, b.b))
        if op in ('In', 'NotIn'):
            r = self.contains(st, a, b)
            if isinstance(r, bool):
                return Con(r if op == 'In' else not r)
            return mkcond(r if op == 'In' else A.P1 - r)
        if op in ('Eq', 'NotEq'):
            r = self.equals(st, a, b)
            if isinstance(r, Val):
                return r if op == 'Eq' else self.mk(st, self.to_ten(st, r).map(lambda p: A.P1 - p))
            if isinstance(r, bool):
                return Con(r if op == 'Eq' else not r)
            return mkcond(r if op == 'Eq' else A.P1 - r)

        def cmpf(x, y):
            if op == 'Lt':
                return less(x, y)
            if op == 'Gt':
                return less(y, x)
            if op == 'LtE':
                return A.P1 - less(y, x)
            return A.P1 - less(x, y)
        ta, tb = self.to_ten(st, a), self.to_ten(st, b)
        r = A.elementwise(cmpf, ta, tb)
        if r.rank == 0:
            return mkcond(r.cells[()])
        return st.arr(r)

    def is_same(self, st, a, b):
        if isinstance(a, Phi):
            x, y = self.is_same(st, a.a, b), self.is_same(st, a.b, b)
            if x is None or y is None or a.c is None:
                return None if x is None or y is None or x != y else x
            p = phi_poly(a.c, A.poly(x), A.poly(y))
            return p.const() != 0 if p.is_const() else self.cond_known(st, p)
        if isinstance(b, Phi):
            return self.is_same(st, b, a)
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        if isinstance(a, Con) and isinstance(b, Con):
            return a.v is b.v or a.v == b.v and isinstance(a.v, (str, bool))
        if isinstance(a, Con) != isinstance(b, Con):
            if isinstance(a, Cond) or isinstance(b, Cond):
                c, k = (a, b) if isinstance(a, Cond) else (b, a)
                if k.v is True:
                    return c.p
                if k.v is False:
                    return A.P1 - c.p
            return False
        if isinstance(a, Ext) and isinstance(b, Ext):
            from . import npmodel
            return npmodel.short(a.name) == npmodel.short(b.name)
        if any(isinstance(x, Opq) and x.name == 'numtype' for x in (a, b)):
            o = b if isinstance(a, Opq) and a.name == 'numtype' else a
            return False if isinstance(o, Ext) and o.name.split('.')[-1] in ('list', 'tuple', 'dict', 'ndarray', 'str', 'deque', 'set', 'NoneType') else None
        if type(a) is not type(b):
            return False
        if isinstance(a, UFn):
            return a.name == b.name
        if isinstance(a, (Arr, Lst, Obj, Dct)):
            return same_val(a, b)
        if isinstance(a, (Fn, Cls)):
            return a.info is b.info
        return None

    def equals(self, st, a, b):
        num = (Num, Cond)
        if isinstance(a, Con) and isinstance(b, Con):
            return a.v == b.v
        if isinstance(a, (Con,)) and isinstance(a.v, bool) and isinstance(b, num):
            a = Num(int(a.v))
        if isinstance(b, (Con,)) and isinstance(b.v, bool) and isinstance(a, num):
            b = Num(int(b.v))
        if isinstance(a, Num) and isinstance(b, Num):
            d = a.p - b.p
            if d.is_const():
                return d.const() == 0
            l = A.to_lin(d)
            if l is not None and not l.vars():
                return False        # generic dimensions differ
            p = A.ind('=', d)
            return self.cond_known(st, p)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            p = A.P1
            for x, y in zip(a.items, b.items):
                r = self.equals(st, x, y)
                if isinstance(r, Val):
                    raise Imprecise('tuple comparison')
                if r is False:
                    return False
                if r is not True:
                    p = p * r
            return True if p == A.P1 else p
        if isinstance(a, (Con, Tup, Opq, Fn, Ext, Cls)) or isinstance(b, (Con, Tup, Opq, Fn, Ext, Cls)):
            if isinstance(a, Opq) or isinstance(b, Opq):
                raise Imprecise('comparison with an unknown value')
            if isinstance(a, (Arr, Num, Phi)) and isinstance(b, Con) and b.v is None:
                return False
            if type(a) is not type(b) and not isinstance(a, Arr) and not isinstance(b, Arr):
                return False
        ta, tb = self.to_ten(st, a), self.to_ten(st, b)
        r = A.elementwise(lambda x, y: A.ind('=', x - y), ta, tb)
        if r.rank == 0:
            c = r.cells[()]
            return c.const() != 0 if c.is_const() else self.cond_known(st, c)
        return st.arr(r)

    def contains(self, st, a, b):
        if isinstance(b, Dct):
            c = st.heap[b.loc]
            if isinstance(a, Con) and not c.open:
                return a.v in c.d
            raise Imprecise('membership')
        if isinstance(b, Con) and isinstance(b.v, str):
            if isinstance(a, Con) and isinstance(a.v, str):
                return a.v in b.v
            raise Imprecise('membership')
        it = self.iter_of(st, b)
        if not it.count.is_const():
            raise Imprecise('membership')
        p = A.P0
        for i in range(int(it.count.c)):
            r = self.equals(st, a, it.get(Lin(i)))
            if r is True:
                return True
            if isinstance(r, Val):
                raise Imprecise('membership')
            if r is not False:
                p = p + r - p * r
        return False if not p.d else p

    def e_Call(self, n, st):
        f = self.ev(n.func, st)
        args = []
        kw = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if isinstance(v, Opq):
                    args.append(v)
                    continue
                it = self.iter_of(st, v)
                if not it.count.is_const():
                    raise Imprecise('star argument of unknown length')
                args += [it.get(Lin(i)) for i in range(int(it.count.c))]
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if isinstance(v, Dct):
                    c = st.heap[v.loc]
                    kw.update(c.d)
                    if c.open is not None:
                        kw['**'] = c.open
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        line = self.frames[-1].line
        try:
            return self.call(st, f, args, kw)
        finally:
            self.frames[-1].line = line

    def e_Subscript(self, n, st):
        return self.subscript(st, self.ev(n.value, st), self.ev(n.slice, st))

    def e_Slice(self, n, st):
        return Slice(self.ev(n.lower, st) if n.lower else None, self.ev(n.upper, st) if n.upper else None,
                     self.ev(n.step, st) if n.step else None)

    def e_Index(self, n, st):
        return self.ev(n.value, st)

    def e_ListComp(self, n, st):
        from . import loops
        return loops.comprehension(self, n, st)

    e_GeneratorExp = e_ListComp

    def e_Starred(self, n, st):
        raise Imprecise('starred')

    # ----------------------------------------------------------- sequences
    def length(self, st, v):
        if isinstance(v, Tup):
            return Lin(len(v.items))
        if isinstance(v, Lst):
            n = Lin(0)
            for s in st.heap[v.loc].segs:
                if s[0] == 'v':
                    n = n + 1
                elif s[0] in 'kr':
                    n = n + s[1]
                else:
                    if s[2] is None:
                        raise Imprecise('list of unknown length')
                    n = n + s[2]
            return n
        if isinstance(v, Arr):
            t = self.read(st, v)
            if t.rank == 0:
                raise AbsRaise('TypeError', 'len() of unsized object')
            return t.shape[0]
        if isinstance(v, It):
            return v.count
        if isinstance(v, Con) and isinstance(v.v, str):
            return Lin(len(v.v))
        if isinstance(v, Phi):
            a, b = self.length(st, v.a), self.length(st, v.b)
            if a == b:
                return a
        if isinstance(v, Dct):
            return Lin(len(st.heap[v.loc].d))
        if isinstance(v, Num) or isinstance(v, Con) and v.v is None:
            raise AbsRaise('TypeError', 'object has no len()')
        if isinstance(v, Opq):
            if v.name.startswith('objs:'):
                return st.heap[v.args[0]].count
        if isinstance(v, Top):
            raise Imprecise(v.why)
        raise Imprecise('length of %s' % type(v).__name__)

    def segs_of(self, st, v):
        if isinstance(v, Lst):
            return list(st.heap[v.loc].segs)
        it = self.iter_of(st, v)
        if it.count.is_const():
            return [('v', it.get(Lin(i))) for i in range(int(it.count.c))]
        raise Imprecise('sequence of unknown length')

    def iter_of(self, st, v):
        if isinstance(v, It):
            return v
        if isinstance(v, Tup):
            def g(l, st=None, items=v.items):
                if not l.is_const():
                    raise Imprecise('symbolic index into tuple')
                return items[int(l.c)]
            return It(Lin(len(v.items)), g)
        if isinstance(v, Lst):
            return It(self.length(st, v), lambda l, st=st: self.list_get(st, v, l))
        if isinstance(v, Arr):
            t = self.read(st, v)
            if t.rank == 0:
                raise AbsRaise('TypeError', 'iteration over a 0-d array')
            return It(t.shape[0], lambda l, st=st: self.elem(st, v, l))
        if isinstance(v, Dct):
            ks = list(st.heap[v.loc].d)
            return It(Lin(len(ks)), lambda l, st=None: Con(ks[int(l.c)]))
        if isinstance(v, Phi):
            a = self.iter_of(st, v.a)
            b = self.iter_of(st, v.b)
            if a.count == b.count:
                return It(a.count, lambda l, st=st: phi(v.c, a.get(l, st), b.get(l, st)))
            raise Imprecise('iteration over a merge')
        if isinstance(v, Top):
            raise Imprecise(v.why)
        if isinstance(v, Opq) and v.name.startswith('objs:'):
            loc = v.args[0]
            return It(st.heap[loc].count, lambda l, st=None: SObj(loc, l))
        if isinstance(v, Num) or (isinstance(v, Con) and v.v is None):
            self.event('type', 'iteration over %s' % ('a number' if isinstance(v, Num) else 'None'), st)
            raise AbsRaise('TypeError', 'not iterable')
        if isinstance(v, Con) and isinstance(v.v, str):
            return It(Lin(len(v.v)), lambda l, st=None: Con(v.v[int(l.c)]))
        raise Imprecise('iteration over %s' % type(v).__name__)

    def elem(self, st, v, l):
        """row of an array as a value (view)"""
        t = self.read(st, v)
        nv = Arr(v.loc, v.view + (('idx', 0, l),))
        if t.rank == 1:
            return Num(A.index_axis(t, 0, l).cells[()])
        return nv

    def list_get(self, st, v, l):
        c = st.heap[v.loc]
        n = None
        if not c.segs:
            raise AbsRaise('IndexError', 'empty list')
        pos = Lin(0)
        if len(c.segs) == 1 and c.segs[0][0] in 'kr':
            return self.seg_get(st, c.segs[0], l)
        for s in c.segs:
            ln = A.ONE if s[0] == 'v' else s[1]
            if s[0] == 'c':
                raise Imprecise('element of a list of unknown contents')
            if A.nonneg(l - pos) and A.nonneg(pos + ln - 1 - l):
                return self.seg_get(st, s, l - pos)
            pos = pos + ln
        if l.is_const() and pos.is_const() and l.c >= pos.c:
            self.event('index', 'list index %r out of range' % (l,), st)
            raise AbsRaise('IndexError')
        raise Imprecise('list element at %r' % (l,))

    def seg_get(self, st, s, l):
        if s[0] == 'v':
            return s[1]
        if s[0] == 'k':
            return s[2]
        return tmpl_inst(st, s[3], {s[2]: l})

    def norm_index(self, st, v, size):
        """index value -> Lin in [0,size)"""
        l = self.lin_of(st, v)
        hi = A.lower(-l - 1)
        if l.is_const() and l.c < 0 or (hi is not None and hi >= 0):
            l = l + size
        if A.nonneg(l - size):
            self.event('index', 'index %r is out of range for size %r' % (l, size), st)
            raise AbsRaise('IndexError')
        if A.positive(-l):
            self.event('index', 'index %r is out of range for size %r' % (l - size, size), st)
            raise AbsRaise('IndexError')
        return l

    def index_ops(self, st, t, idx):
        """view operations for t[idx]"""
        items = list(idx.items) if isinstance(idx, Tup) else [idx]
        nreal = sum(1 for i in items if not (isinstance(i, Con) and (i.v is None or i.v is Ellipsis)))
        ops = []
        cur = list(t.shape)
        ax = 0
        for i in items:
            if isinstance(i, Con) and i.v is Ellipsis:
                ax += t.rank - nreal
                continue
            if isinstance(i, Con) and i.v is None:
                ops.append(('new', ax))
                cur.insert(ax, A.ONE)
                ax += 1
                continue
            if ax >= len(cur):
                self.event('shape', 'too many indices for an array with shape (%s)' % ', '.join(map(repr, t.shape)), st)
                raise AbsRaise('IndexError', 'too many indices')
            if isinstance(i, Slice):
                lo, hi, rev = self.slice_bounds(st, i, cur[ax])
                if lo != A.ZERO or hi != cur[ax]:
                    ops.append(('slice', ax, lo, hi))
                cur[ax] = hi - lo
                if rev:
                    ops.append(('rev', ax))
                ax += 1
                continue
            if isinstance(i, (Num, Phi)) or isinstance(i, Con) and isinstance(i.v, bool):
                if isinstance(i, Con):
                    raise Imprecise('boolean index')
                l = self.norm_index(st, i, cur[ax])
                ops.append(('idx', ax, l))
                del cur[ax]
                continue
            if isinstance(i, Arr):
                ti = self.read(st, i)
                if ti.rank == 0:
                    l = A.to_lin(ti.cells[()])
                    if l is None:
                        raise Imprecise('index')
                    ops.append(('idx', ax, l))
                    del cur[ax]
                    continue
            raise Imprecise('array index of kind %s' % type(i).__name__)
        return ops

    def slice_bounds(self, st, s, size):
        rev = False
        if s.step is not None and not (isinstance(s.step, Con) and s.step.v is None):
            l = self.lin_of(st, s.step)
            if l.is_const() and l.c == 1:
                pass
            elif l.is_const() and l.c == -1 and s.lo is None and s.hi is None:
                rev = True
            else:
                raise Imprecise('slice step')

        def b(v, dflt):
            if v is None or isinstance(v, Con) and v.v is None:
                return dflt
            l = self.lin_of(st, v)
            lo = A.lower(l)
            if lo is not None and lo >= 0:
                if A.nonneg(size - l):
                    return l
                if A.nonneg(l - size):
                    return size
                return l if not (l.is_const() and size.is_const()) else Lin(min(l.c, size.c))
            if A.positive(-l):
                l = l + size
                return l
            raise Imprecise('slice bound %r of %r' % (l, size))
        return b(s.lo, A.ZERO), b(s.hi, size), rev

    def subscript(self, st, v, idx):
        if isinstance(v, Top):
            return v
        if isinstance(idx, Top):
            return idx
        if isinstance(v, Phi):
            return phi(v.c, self.subscript(st, v.a, idx), self.subscript(st, v.b, idx))
        if isinstance(v, Arr):
            t = self.read(st, v)
            if isinstance(idx, (Lst, Arr)) and not (isinstance(idx, Arr) and self.read(st, idx).rank == 0):
                return self.fancy(st, t, idx)
            ops = self.index_ops(st, t, idx)
            nv = Arr(v.loc, v.view + tuple(ops))
            r = self.read(st, nv)
            if r.rank == 0:
                return Num(r.cells[()])
            return nv
        if isinstance(v, Tup):
            if isinstance(idx, Slice):
                lo, hi, rev = self.slice_bounds(st, idx, Lin(len(v.items)))
                if lo.is_const() and hi.is_const():
                    it = v.items[int(lo.c):int(hi.c)]
                    return Tup(it[::-1] if rev else it)
                raise Imprecise('tuple slice')
            l = self.norm_index(st, idx, Lin(len(v.items)))
            if l.is_const():
                return v.items[int(l.c)]
            raise Imprecise('symbolic tuple index')
        if isinstance(v, Lst):
            n = self.length(st, v)
            if isinstance(idx, Slice):
                lo, hi, rev = self.slice_bounds(st, idx, n)
                if lo == A.ZERO and hi == n and not rev:
                    return Lst(st.new(ListC(st.heap[v.loc].segs)))
                segs = st.heap[v.loc].segs
                if all(s[0] == 'v' for s in segs) and lo.is_const() and hi.is_const():
                    ss = segs[int(lo.c):int(hi.c)]
                    return Lst(st.new(ListC(ss[::-1] if rev else ss)))
                if len(segs) == 1 and segs[0][0] == 'k':
                    return Lst(st.new(ListC([('k', hi - lo, segs[0][2])])))
                if rev and lo == A.ZERO and hi == n:
                    return It(n, lambda l, st=st: self.list_get(st, v, n - 1 - l))
                raise Imprecise('list slice')
            l = self.norm_index(st, idx, n)
            return self.list_get(st, v, l)
        if isinstance(v, Con) and isinstance(v.v, str):
            if isinstance(idx, Num) and idx.p.is_const():
                k = int(idx.p.const())
                if not -len(v.v) <= k < len(v.v):
                    raise AbsRaise('IndexError', 'string index out of range')
                return Con(v.v[k])
            if isinstance(idx, Slice):
                b = []
                for x in (idx.lo, idx.hi, idx.step):
                    if x is None or isinstance(x, Con) and x.v is None:
                        b.append(None)
                    elif isinstance(x, Num) and x.p.is_const():
                        b.append(int(x.p.const()))
                    else:
                        raise Imprecise('string slice')
                return Con(v.v[slice(*b)])
            raise Imprecise('string subscript')
        if isinstance(v, Dct):
            c = st.heap[v.loc]
            if isinstance(idx, Con) and idx.v in c.d:
                return c.d[idx.v]
            if isinstance(idx, Con) and isinstance(c.kind, Val):
                x = self.call(st, c.kind, [], {})
                self.dict_write(st, v, dict(list(st.heap[v.loc].d.items()) + [(idx.v, x)]))
                return x
            if isinstance(idx, Con) and not c.open:
                raise AbsRaise('KeyError', repr(idx.v))
            raise Imprecise('dict lookup')
        if isinstance(v, It):
            l = self.norm_index(st, idx, v.count)
            return v.get(l)
        if isinstance(v, Num):
            self.event('type', 'subscript of a scalar', st)
            raise AbsRaise('TypeError', 'scalar is not subscriptable')
        if isinstance(v, Con) and v.v is None:
            self.event('none', 'subscript of None', st)
            raise AbsRaise('TypeError', 'None is not subscriptable')
        if isinstance(v, Opq) and v.name.startswith('objs:'):
            l = self.norm_index(st, idx, st.heap[v.args[0]].count)
            return SObj(v.args[0], l)
        if isinstance(v, Ext) and v.name in ('numpy.r_', 'numpy.c_'):
            col = v.name == 'numpy.c_'
            ts = []
            for i in (idx.items if isinstance(idx, Tup) else [idx]):
                if isinstance(i, (Slice, Con)):
                    raise Imprecise('subscript of %s' % v.name)
                t = self.to_ten(st, i)
                if t.rank == 0:
                    t = A.insert_axis(t, 0)
                if col and t.rank == 1:
                    t = A.insert_axis(t, 1)
                ts.append(t)
            if len({t.rank for t in ts}) > 1:
                self.event('shape', '%s of arrays of different rank' % v.name, st)
                raise AbsRaise('ValueError', 'dimensions must match')
            return self.mk(st, A.concat(ts, ts[0].rank - 1 if col else 0))
        raise Imprecise('subscript of %s' % type(v).__name__)

    def fancy(self, st, t, idx):
        ti = self.to_ten(st, idx)
        if ti.rank != 1:
            raise Imprecise('fancy index')
        parts = []
        if not ti.shape[0].is_const():
            # gather through an affine index expression
            br = ti.breaks[0]
            for k in range(len(br) - 1):
                l = A.to_lin(ti.cells[(k,)])
                if l is None:
                    raise Imprecise('fancy index')
                e = ti.ext(0, k)
                row = A.index_axis(t, 0, l.subst({('f', 0, e): A.lvar(('l', 'fz', e))}))
                parts.append(stack_over(row, ('l', 'fz', e), e))
            return self.mk(st, A.concat(parts, 0))
        for i in range(int(ti.shape[0].c)):
            l = A.to_lin(ti.at((Lin(i),)))
            if l is None:
                raise Imprecise('fancy index')
            if l.is_const() and l.c < 0:
                l = l + t.shape[0]
            parts.append(A.insert_axis(A.index_axis(t, 0, l), 0))
        return self.mk(st, A.concat(parts, 0))

    def store(self, st, base, idx, v):
        if isinstance(base, Top):
            return
        if isinstance(base, Arr):
            try:
                t = self.read(st, base)
                ops = self.index_ops(st, t, idx)
                nv = Arr(base.loc, base.view + tuple(ops))
                val = self.to_ten(st, v)
            except Imprecise as e:
                c = st.heap[base.loc]
                self.mutated(st, c.prov, base.loc)
                st.heap[base.loc] = ArrC(self.top(str(e)), c.prov)
                return
            self.write_ten(st, nv, val)
            return
        if isinstance(base, Lst):
            c = st.heap[base.loc]
            if c.prov and (c.prov.startswith('param') or c.prov.startswith('frozen')):
                self.event('mutate', c.prov, st, base.loc)
            try:
                n = self.length(st, base)
                l = self.norm_index(st, idx, n)
            except Imprecise as e:
                st.heap[base.loc] = ListC([('c', self.top(str(e)), None)], c.prov)
                return
            if l.is_const() and all(s[0] == 'v' for s in c.segs):
                segs = list(c.segs)
                segs[int(l.c)] = ('v', v)
                st.heap[base.loc] = ListC(segs, c.prov)
                return
            try:
                st.heap[base.loc] = ListC(list_store(self, st, c.segs, n, l, v), c.prov)
            except Imprecise as e:
                st.heap[base.loc] = ListC([('c', self.top(str(e)), n)], c.prov)
            return
        if isinstance(base, Dct):
            c = st.heap[base.loc]
            if isinstance(idx, Con):
                d = dict(c.d)
                d[idx.v] = v
                self.dict_write(st, base, d)
                if isinstance(c, ObjC) and self.frames:
                    self.lastset[base.loc, idx.v] = (self.frames[-1].info, self.frames[-1].line)
                return
            raise Imprecise('dict store')
        if isinstance(base, Phi) and has_arr(base):
            s1, s2 = st.fork(), st.fork()
            self.store(s1, base.a, idx, v)
            self.store(s2, base.b, idx, v)
            m = self.merge(base.c, s1, s2)
            st.heap = m.heap
            return
        if isinstance(base, Num):
            self.event('type', 'item assignment to a scalar', st)
            raise AbsRaise('TypeError', 'item assignment')
        if isinstance(base, Con) and base.v is None:
            self.event('none', 'item assignment to None', st)
            raise AbsRaise('TypeError', 'item assignment')
        raise Imprecise('store into %s' % type(base).__name__)


# ------------------------------------------------------------------ helpers
def is_truth(p):
    """a 0/1 expression"""
    if p.is_const():
        return p.const() in (0, 1)
    for q in (p, A.P1 - p):
        if len(q.d) == 1:
            (m, c), = q.d.items()
            if c == 1 and all(f[0].kind == 'ind' for f in m):
                return True
    return False


def list_store(I, st, segs, n, l, v):
    """segments after list[l] = v at a symbolic position"""
    if len(segs) != 1 or segs[0][0] not in 'kr':
        raise Imprecise('store into a list at a symbolic position')
    s = segs[0]
    tv = tmpl(I, st, v)
    out = []
    hi = n - 1 - l
    if l != A.ZERO:
        out.append((s[0], l) + tuple(s[2:]))
    out.append(('v', tmpl_inst(st, tv, {})))
    if hi != A.ZERO:
        if s[0] == 'k':
            out.append(('k', hi, s[2]))
        else:
            nv = ('l', 'ls%d' % next(A._tmpc), hi)
            out.append(('r', hi, nv, tmpl_subst(s[3], {s[2]: A.lvar(nv) + l + 1})))
    return out


def path_cond(path, base):
    p = A.P1
    for c, val in path[base:]:
        if c is None:
            return None
        p = p * (c if val else A.P1 - c)
    return p


def cond_poly(c):
    return A.poly(int(bool(c.v))) if isinstance(c, Con) else c.p


def mkcond(p):
    if p.is_const():
        return Con(p.const() != 0)
    return Cond(p)


def less(x, y):
    return A.ind('<', x - y)


def pow_poly(p, q):
    if q.is_const():
        return A.power(p, q.const())
    if p.is_const() and p.const() == 1:
        return A.P1
    # affine integer exponents: p**(n+2) = p**n * p**2
    l = A.to_lin(q)
    if l is not None and l.c != 0 and l.t:
        return A.app_entry('app', 'pow', (p, A.from_lin(l - l.c)), ()) * A.power(p, l.c)
    return A.app_entry('app', 'pow', (p, q), ())


def phi_poly(c, x, y):
    if x == y:
        return x
    return c * x + (A.P1 - c) * y


def phi(c, a, b):
    if same_val(a, b):
        return a
    if isinstance(a, Top) and a is not UNDEF:
        return a
    if isinstance(b, Top) and b is not UNDEF:
        return b
    if c is None:
        return Top('merge under an unknown condition')
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, Num) and isinstance(b, Num):
        return Num(phi_poly(c, a.p, b.p), a.isint and b.isint)
    bl = (Cond, Con)
    if isinstance(a, bl) and isinstance(b, bl):
        if all(isinstance(x, Cond) or isinstance(x.v, bool) for x in (a, b)):
            return mkcond(phi_poly(c, cond_poly(a), cond_poly(b)))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([phi(c, x, y) for x, y in zip(a.items, b.items)])
    return Phi(c, a, b)


def has_arr(v):
    return isinstance(v, Arr) or isinstance(v, Phi) and (has_arr(v.a) or has_arr(v.b))


def phi_arrs(v):
    if isinstance(v, Arr):
        return [v]
    if isinstance(v, Phi):
        return phi_arrs(v.a) + phi_arrs(v.b)
    return []


def view_apply(t, op):
    k = op[0]
    if k == 'idx':
        return A.index_axis(t, op[1], op[2])
    if k == 'slice':
        return A.slice_axis(t, op[1], op[2], op[3])
    if k == 'T':
        return A.transpose(t, op[1] if len(op) > 1 else None)
    if k == 'new':
        return A.insert_axis(t, op[1])
    if k == 'rev':
        return A.reverse_axis(t, op[1])
    if k == 'reshape':
        return A.reshape(t, op[1])
    if k == 'diag':
        return A.diag(t)
    raise Imprecise('view %s' % k)


def view_write(t, ops, val):
    """content of t after assigning val through the view"""
    if not ops:
        return A.assign_region(t, [(A.ZERO, s) for s in t.shape], val)
    op, rest = ops[0], ops[1:]
    k = op[0]
    if k == 'idx':
        ax, l = op[1], op[2]
        if not rest:
            rng = [(A.ZERO, s) for s in t.shape]
            rng[ax] = (l, l + 1)
            shp = t.shape[:ax] + t.shape[ax + 1:]
            v = fit(val, shp)
            return A.assign_region(t, rng, A.insert_axis(v, ax))
        subt = A.index_axis(t, ax, l)
        subt = view_write(subt, rest, val)
        rng = [(A.ZERO, s) for s in t.shape]
        rng[ax] = (l, l + 1)
        return A.assign_region(t, rng, A.insert_axis(subt, ax))
    if k == 'slice':
        ax, lo, hi = op[1], op[2], op[3]
        subt = A.slice_axis(t, ax, lo, hi)
        subt = view_write(subt, rest, val)
        rng = [(A.ZERO, s) for s in t.shape]
        rng[ax] = (lo, hi)
        return A.assign_region(t, rng, subt)
    subt = view_apply(t, op)
    subt = view_write(subt, rest, val)
    if k == 'T':
        perm = op[1] if len(op) > 1 else tuple(reversed(range(t.rank)))
        invp = [0] * len(perm)
        for i, p in enumerate(perm):
            invp[p] = i
        return A.transpose(subt, tuple(invp))
    if k == 'new':
        return A.drop_axes(subt, [op[1]])
    if k == 'rev':
        return A.reverse_axis(subt, op[1])
    if k == 'reshape':
        return A.reshape(subt, t.shape)
    raise Imprecise('store through view %s' % k)


def fit(v, shape):
    """broadcast v to shape (numpy assignment rules)"""
    if v.rank > len(shape):
        if all(s == A.ONE for s in v.shape[:v.rank - len(shape)]):
            v = A.drop_axes(v, list(range(v.rank - len(shape))))
        else:
            raise A.ShapeError('cannot store shape (%s) into (%s)' % (', '.join(map(repr, v.shape)), ', '.join(map(repr, shape))))
    if A.broadcast_shape(v.shape, shape) != tuple(shape):
        raise A.ShapeError('cannot store shape (%s) into (%s)' % (', '.join(map(repr, v.shape)), ', '.join(map(repr, shape))))
    return A.elementwise(lambda a, b: b, A.const_ten(shape), v)


def stack_over(t, var, count):
    """tensor with a new leading axis: t[var := position]"""
    t = A.insert_axis(t, 0)
    if count.is_const() and count.c == 1:
        m = {var: A.ZERO}
        return Ten((count,) + t.shape[1:], [[A.ZERO, count]] + t.breaks[1:], {k: A.subst(p, m) for k, p in t.cells.items()})
    m = {var: A.fvar(0, count)}
    for b in t.breaks[1:]:
        for l in b:
            if var in l.vars():
                raise Imprecise('block boundary depends on the loop index')
    return Ten((count,) + t.shape[1:], [[A.ZERO, count]] + t.breaks[1:],
               {k: A.subst(p, m) for k, p in t.cells.items()})


# templates of list elements in symbolic-length segments
def tmpl(I, st, v):
    if isinstance(v, Num):
        return ('N', v.p, v.isint)
    if isinstance(v, Arr):
        return ('T', I.read(st, v))
    if isinstance(v, Tup):
        return ('P', tuple(tmpl(I, st, x) for x in v.items))
    if isinstance(v, Cond):
        return ('B', v.p)
    if isinstance(v, (Con, Fn, Ext, UFn, Cls)):
        return ('C', v)
    if isinstance(v, Opq) and not v.args:
        return ('C', v)
    if isinstance(v, Phi) and has_arr(v):
        return ('T', I.to_ten(st, v))
    if isinstance(v, Lst):
        return ('L', tuple(tmpl(I, st, s[1]) for s in I.segs_of(st, v) if s[0] == 'v'))
    raise Imprecise('list element of kind %s' % type(v).__name__)


def tmpl_subst(t, m):
    k = t[0]
    if k == 'N':
        return ('N', A.subst(t[1], m), t[2])
    if k == 'B':
        return ('B', A.subst(t[1], m))
    if k == 'T':
        return ('T', t[1].map(lambda p: A.subst(p, m)) if t[1].rank or True else t[1])
    if k in 'PL':
        return (k, tuple(tmpl_subst(x, m) for x in t[1]))
    return t


def tmpl_inst(st, t, m):
    t = tmpl_subst(t, m) if m else t
    k = t[0]
    if k == 'N':
        return Num(t[1], t[2])
    if k == 'B':
        return Cond(t[1])
    if k == 'T':
        return st.arr(t[1]) if t[1].rank else Num(t[1].cells[()])
    if k == 'P':
        return Tup([tmpl_inst(st, x, {}) for x in t[1]])
    if k == 'L':
        return st.lst([tmpl_inst(st, x, {}) for x in t[1]])
    return t[1]


def tmpl_ten(t):
    if t[0] == 'N':
        return scalar(t[1])
    if t[0] == 'B':
        return scalar(t[1])
    if t[0] == 'T':
        return t[1]
    if t[0] in 'PL':
        return A.concat([A.insert_axis(tmpl_ten(x), 0) for x in t[1]], 0)
    raise Imprecise('non-numeric list element')


def tmpl_atoms(t, out):
    """collect Polys of a template"""
    if t[0] in 'NB':
        out.append(t[1])
    elif t[0] == 'T':
        out.extend(t[1].cells.values())
    elif t[0] in 'PL':
        for x in t[1]:
            tmpl_atoms(x, out)
    return out
