"""Transfer functions of library calls (numpy, scipy, math, copy, builtins)."""
from .values import *      # noqa
from . import algebra as A
from . import dtypes
from . import interp as X
from .interp import AbsRaise, phi, mkcond

BUILTINS = set('''abs all any bool callable dict divmod enumerate filter float frozenset getattr hasattr hash id
int isinstance issubclass iter len list map max min next object open pow print range repr reversed round set
setattr slice sorted str sum super tuple type vars zip complex ord chr format
ValueError TypeError AttributeError IndexError KeyError RuntimeError Exception ZeroDivisionError NotImplementedError
AssertionError NameError ArithmeticError StopIteration DeprecationWarning UserWarning Warning NotImplemented
staticmethod classmethod property locals globals dir input __name__ __file__ __doc__'''.split())

H = {}


def h(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


_PREF = ('numpy.', 'scipy.', 'math.', 'builtins.', 'copy.', 'np.')


def short(name):
    n = name
    if n.startswith('numpy.'):
        n = n[6:]
        if n.startswith('core.') or n.startswith('linalg.linalg.'):
            n = n.split('.')[-1]
    elif n.startswith('scipy.linalg.'):
        l = n[13:]
        n = 'scipy.' + l if l in ('cholesky', 'sqrtm', 'qr') else 'linalg.' + l
    elif n.startswith('math.'):
        n = n[5:]
        n = {'pow': 'power', 'fabs': 'abs'}.get(n, n)
    elif n.startswith('builtins.'):
        n = n[9:]
        n = {'sum': 'b.sum', 'max': 'b.max', 'min': 'b.min', 'abs': 'abs', 'round': 'b.round', 'any': 'b.any', 'all': 'b.all', 'pow': 'power'}.get(n, n)
    elif n.startswith('copy.'):
        n = n[5:]
        if n == 'copy':
            n = 'copy.copy'
    return n


def ext_value(I, st, e):
    """constants such as numpy.newaxis / math.pi"""
    s = short(e.name)
    if s == 'newaxis':
        return NONE
    if s in ('pi',):
        return Num(A.sym('pi'))
    if s == 'e':
        return Num(A.sym('e'))
    if s in ('inf', 'nan', 'NaN', 'NAN', 'Inf'):
        return Num(A.sym(s.lower()))
    if e.name == 'sys.float_info.min':
        return Num(A.sym('float_min'))
    if e.name == 'sys.float_info.max':
        return Num(A.sym('float_max'))
    if e.name == 'sys.float_info.epsilon':
        return Num(A.sym('float_eps'))
    if e.name.startswith('?'):
        I.event('name', 'cannot resolve %s' % e.name[1:], st)
        raise AbsRaise('ImportError', e.name)
    return e


def call_ext(I, st, name, args, kw):
    s = short(name)
    if name.startswith(('matplotlib.', 'mpl_toolkits.')):
        return record(I, st, 'ext:' + name, args, kw)
    for a in list(args) + list(kw.values()):
        if isinstance(a, Top) and s not in ('print', 'str', 'isinstance', 'warnings.warn'):
            return a
    f = H.get(s)
    if f is None:
        if s.split('.')[-1] in ('Error', 'Exception', 'Warning') or s.endswith('Error') or s.endswith('Warning') or s == 'Exception':
            return Opq('exception')
        I.note_unknown(name) if hasattr(I, 'note_unknown') else None
        return I.top('unknown library function %s' % name)
    if 'out' in kw and f not in OUT and not name.startswith('scipy.'):
        # any other numpy function: the result is stored in the given array
        out = kw['out'].items[0] if isinstance(kw['out'], Tup) and len(kw['out'].items) == 1 else kw['out']
        r = f(I, st, args, {k: v for k, v in kw.items() if k != 'out'})
        if isnone(out):
            return r
        if not isinstance(out, Arr):
            raise Imprecise('out argument')
        I.write_ten(st, out, T(I, st, r))
        return out
    return dtypes.after(I, st, s, args, kw, f(I, st, args, kw))


OUT = set()


def record(I, st, name, args, kw):
    """call into a drawing library: arguments are recorded, the result is an
    opaque object"""
    I.reclog.append((name[4:], list(args), dict(kw), st.fork()))
    return Opq(name + '()', (len(I.reclog),))


def T(I, st, v):
    return I.to_ten(st, v)


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def only(kw, *names):
    for k in kw:
        if k not in names:
            raise Imprecise('argument %s' % k)


def isnone(v):
    return v is None or isinstance(v, Con) and v.v is None


# ---------------------------------------------------------------- creation
def as_array(I, st, v, copy, ndmin=0):
    if isinstance(v, Arr) and not copy:
        t = I.read(st, v)
        if t.rank >= ndmin:
            return v
    if isinstance(v, Phi) and not copy and X.has_arr(v):
        return phi(v.c, as_array(I, st, v.a, copy, ndmin), as_array(I, st, v.b, copy, ndmin))
    if isinstance(v, Con) and v.v is None:
        return st.arr(scalar(A.sym('NONE')))
    t = T(I, st, v)
    if isinstance(v, Arr) and not copy:
        ops = [('new', 0)] * (ndmin - t.rank)
        return Arr(v.loc, v.view + tuple(ops))
    while t.rank < ndmin:
        t = A.insert_axis(t, 0)
    return st.arr(t)


@h('array')
def _array(I, st, a, kw):
    only(kw, 'dtype', 'copy', 'ndmin')
    nd = kw.get('ndmin')
    cp = kw.get('copy')
    copy = not (isinstance(cp, Con) and cp.v is False)
    return as_array(I, st, a[0], copy, int(I.lin_of(st, nd).c) if nd else 0)


@h('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'asarray_chkfinite')
def _asarray(I, st, a, kw):
    dt = arg(a, kw, 1, 'dtype')
    # another storage type: a new array
    other = dt is not None and not isnone(dt) and dtypes.level(I, st, a[0]) is not None and dtypes.level(I, st, a[0]) != dtypes.kind(I, st, dt)
    return as_array(I, st, a[0], other)


@h('atleast_1d')
def _al1(I, st, a, kw):
    return as_array(I, st, a[0], False, 1)


@h('atleast_2d')
def _al2(I, st, a, kw):
    return as_array(I, st, a[0], False, 2)


@h('copy', 'array_copy')
def _copy(I, st, a, kw):
    return as_array(I, st, a[0], True)


def shape_arg(I, st, v):
    if isinstance(v, (Tup, Lst)):
        it = I.iter_of(st, v)
        return tuple(I.lin_of(st, it.get(Lin(i))) for i in range(int(it.count.c)))
    if isinstance(v, Arr):
        t = I.read(st, v)
        if t.rank == 1 and t.shape[0].is_const():
            return tuple(I.lin_of(st, Num(t.at((Lin(i),)))) for i in range(int(t.shape[0].c)))
    return (I.lin_of(st, v),)


def filled(val):
    def f(I, st, a, kw):
        only(kw, 'shape', 'dtype', 'order')
        sh = shape_arg(I, st, arg(a, kw, 0, 'shape'))
        return st.arr(A.const_ten(sh, val))
    return f


H['zeros'] = filled(0)
H['ones'] = filled(1)


@h('empty')
def _empty(I, st, a, kw):
    sh = shape_arg(I, st, arg(a, kw, 0, 'shape'))
    return st.arr(A.sym_ten('uninitialised', sh))


@h('full')
def _full(I, st, a, kw):
    sh = shape_arg(I, st, arg(a, kw, 0, 'shape'))
    return st.arr(X.fit(T(I, st, arg(a, kw, 1, 'fill_value')), sh))


def like(val):
    def f(I, st, a, kw):
        t = T(I, st, a[0])
        if val is None:
            return I.mk(st, A.sym_ten('uninitialised', t.shape))
        if val == 'full':
            return st.arr(X.fit(T(I, st, a[1]), t.shape))
        return st.arr(A.const_ten(t.shape, val))
    return f


H['zeros_like'] = like(0)
H['ones_like'] = like(1)
H['empty_like'] = like(None)
H['full_like'] = like('full')


@h('eye', 'identity')
def _eye(I, st, a, kw):
    only(kw, 'N', 'M', 'n', 'dtype', 'k')
    k = arg(a, kw, 2, 'k')
    n = I.lin_of(st, a[0] if a else kw.get('N', kw.get('n')))
    m = arg(a, kw, 1, 'M')
    m = n if isnone(m) or isinstance(m, Ext) else I.lin_of(st, m)
    if k is not None:
        kk = I.lin_of(st, k)
        return st.arr(Ten((n, m), None, {(0, 0): A.delta(A.fvar(0, n) + kk - A.fvar(1, m))}))
    return st.arr(A.eye_ten(n, m))


@h('arange', 'range')
def _arange(I, st, a, kw):
    only(kw, 'dtype')
    ls = [I.lin_of(st, x) for x in a]
    lo, hi, step = A.ZERO, None, A.ONE
    if len(ls) == 1:
        hi = ls[0]
    elif len(ls) == 2:
        lo, hi = ls
    else:
        lo, hi, step = ls
    return lo, hi, step


def _range_it(I, st, a, kw):
    lo, hi, step = _arange(I, st, a, kw)
    if step == A.ONE:
        n = hi - lo
        s = 1
    elif step == Lin(-1):
        n = lo - hi
        s = -1
    elif step.is_const() and lo.is_const() and hi.is_const() and step.c != 0:
        vals = list(range(int(lo.c), int(hi.c), int(step.c)))
        return It(Lin(len(vals)), lambda l, st=None: Num(vals[int(l.c)], True))
    else:
        raise Imprecise('range step')
    if n.is_const() and n.c < 0:
        n = A.ZERO
    elif A.lower(n) is None or A.lower(n) < 0:
        up = A.lower(-n)
        if up is not None and up >= 0:
            n = A.ZERO
        # otherwise assume a possibly empty range of n steps (n >= 0)
    return It(n, lambda l, st=None: Num(A.from_lin(lo + l * s), True))


def _arange_arr(I, st, a, kw):
    try:
        it = _range_it(I, st, a, kw)
    except Imprecise:
        if len(a) != 3:
            raise
        # real step: the number of points must be a constant
        lo, hi, step = [I.scal(st, x) for x in a]
        q = ratio(hi - lo, step)
        if q is None or q <= 0:
            raise
        n = -((-q.numerator) // q.denominator)
        return st.arr(A.elementwise(lambda i: lo + i * step, I.to_ten(st, H['arange'](I, st, [Num(n, True)], {}))))
    return st.arr(I.stack(st, it))


def ratio(p, q):
    """constant p / q, or None"""
    if not q.d or not p.d:
        return None
    m = next(iter(q.d))
    if m not in p.d:
        return None
    r = A.Fr(p.d[m]) / A.Fr(q.d[m])
    return r if not (p - q.scale(r)).d else None


H['range'] = _range_it
H['arange'] = _arange_arr


@h('linspace')
def _linspace(I, st, a, kw):
    only(kw, 'num', 'endpoint')
    lo, hi = I.scal(st, a[0]), I.scal(st, a[1])
    n = I.lin_of(st, arg(a, kw, 2, 'num', Num(50)))
    ep = arg(a, kw, 3, 'endpoint', TRUE)
    den = A.from_lin(n - 1) if I.truth(st, ep) is True else A.from_lin(n)
    v = ('l', 'ln', n)
    p = lo + (hi - lo) * A.from_lin(A.lvar(v)) / den
    return st.arr(X.stack_over(scalar(p), v, n))


@h('diag', 'diagflat')
def _diag(I, st, a, kw):
    only(kw)
    if isinstance(a[0], Arr) and I.read(st, a[0]).rank == 2:
        return Arr(a[0].loc, a[0].view + (('diag',),))
    return st.arr(A.diag(T(I, st, a[0])))


@h('concatenate', 'hstack', 'vstack', 'column_stack', 'stack', 'append')
def _concat_dispatch(I, st, a, kw):
    raise Imprecise('concatenate')


def seq_tens(I, st, v):
    it = I.iter_of(st, v)
    if not it.count.is_const():
        return None
    return [T(I, st, it.get(Lin(i))) for i in range(int(it.count.c))]


@h('concatenate')
def _concatenate(I, st, a, kw):
    only(kw, 'axis')
    ax = arg(a, kw, 1, 'axis')
    ts = seq_tens(I, st, a[0])
    if ts is None:
        raise Imprecise('concatenate')
    axis = 0 if ax is None else int(I.lin_of(st, ax).c)
    if axis < 0:
        axis += ts[0].rank
    return st.arr(A.concat(ts, axis))


@h('hstack')
def _hstack(I, st, a, kw):
    ts = seq_tens(I, st, a[0])
    if ts is None:
        raise Imprecise('hstack')
    ts = [t if t.rank else A.insert_axis(t, 0) for t in ts]
    return st.arr(A.concat(ts, 0 if ts[0].rank == 1 else 1))


@h('vstack')
def _vstack(I, st, a, kw):
    ts = seq_tens(I, st, a[0])
    if ts is None:
        return st.arr(T(I, st, a[0]))
    out = []
    for t in ts:
        while t.rank < 2:
            t = A.insert_axis(t, 0)
        out.append(t)
    return st.arr(A.concat(out, 0))


@h('column_stack')
def _colstack(I, st, a, kw):
    ts = [t if t.rank == 2 else A.insert_axis(t, 1) for t in seq_tens(I, st, a[0])]
    return st.arr(A.concat(ts, 1))


@h('stack')
def _stack(I, st, a, kw):
    ax = arg(a, kw, 1, 'axis', Num(0))
    axis = int(I.lin_of(st, ax).c)
    t = T(I, st, a[0])
    if axis:
        perm = list(range(1, t.rank))
        perm.insert(axis if axis >= 0 else t.rank + axis, 0)
        t = A.transpose(t, tuple(perm))
    return st.arr(t)


@h('append')
def _npappend(I, st, a, kw):
    only(kw, 'axis')
    x, y = T(I, st, a[0]), T(I, st, a[1])
    if 'axis' in kw:
        return st.arr(A.concat([x, y], int(I.lin_of(st, kw['axis']).c)))
    x = A.flatten(x) if x.rank != 1 else x
    y = A.flatten(y) if y.rank != 1 else y
    return st.arr(A.concat([x, y], 0))


@h('block', 'bmat')
def _block(I, st, a, kw):
    it = I.iter_of(st, a[0])
    rows = []
    for i in range(int(it.count.c)):
        r = it.get(Lin(i))
        if isinstance(r, (Lst, Tup)):
            rows.append([_to2(t) for t in seq_tens(I, st, r)])
        else:
            rows = [[_to2(T(I, st, it.get(Lin(j)))) for j in range(int(it.count.c))]]
            break
    return st.arr(A.blocks(rows))


def _to2(t):
    while t.rank < 2:
        t = A.insert_axis(t, 0)
    return t


@h('linalg.block_diag')
def _block_diag(I, st, a, kw):
    ts = [_to2(T(I, st, x)) for x in a]
    rows = []
    for i, t in enumerate(ts):
        rows.append([t if i == j else A.const_ten((t.shape[0], ts[j].shape[1])) for j in range(len(ts))])
    return st.arr(A.blocks(rows))


@h('kron')
def _kron(I, st, a, kw):
    x, y = T(I, st, a[0]), T(I, st, a[1])
    if x.rank != 2 or y.rank != 2 or not (x.shape[0].is_const() and x.shape[1].is_const()):
        raise Imprecise('kron')
    rows = []
    for i in range(int(x.shape[0].c)):
        rows.append([A.scale(y, x.at((Lin(i), Lin(j)))) for j in range(int(x.shape[1].c))])
    return st.arr(A.blocks(rows))


@h('tile', 'repeat')
def _tile(I, st, a, kw):
    raise Imprecise('tile')


@h('fill_diagonal')
def _filldiag(I, st, a, kw):
    v = a[0]
    t = T(I, st, v)
    x = T(I, st, a[1])
    n = t.shape[0]
    if x.rank == 0:
        x = X.fit(x, (n,))
    d = A.diag(x)
    e = A.eye_ten(n)
    I.write_ten(st, v, A.add(A.mul(t, A.sub(A.const_ten((n, n), 1), e)), d))
    return NONE


# ------------------------------------------------------------ linear algebra
def _dot2(I, st, a, b):
    return I.mk(st, A.dot(T(I, st, a), T(I, st, b)))


@h('dot', 'matmul', 'linalg.dot')
def _dot(I, st, a, kw):
    only(kw)
    if len(a) != 2:
        raise Imprecise('dot out=')
    return _dot2(I, st, a[0], a[1])


@h('linalg.multi_dot')
def _mdot(I, st, a, kw):
    ts = seq_tens(I, st, a[0])
    r = ts[0]
    for t in ts[1:]:
        r = A.dot(r, t)
    return I.mk(st, r)


@h('inner', 'vdot')
def _inner(I, st, a, kw):
    x, y = T(I, st, a[0]), T(I, st, a[1])
    if x.rank == 1 and y.rank == 1:
        return Num(A.einsum(['i', 'i'], '', x, y).cells[()])
    if x.rank == 2 and y.rank == 2:
        return I.mk(st, A.dot(x, A.transpose(y)))
    raise Imprecise('inner')


@h('outer', 'multiply.outer')
def _outer(I, st, a, kw):
    only(kw)
    return I.mk(st, A.outer(T(I, st, a[0]), T(I, st, a[1])))


@h('einsum')
def _einsum(I, st, a, kw):
    only(kw)
    if not (isinstance(a[0], Con) and isinstance(a[0].v, str)) or '.' in a[0].v:
        raise Imprecise('einsum')
    s = a[0].v.replace(' ', '')
    if '->' in s:
        ins, out = s.split('->')
    else:
        ins = s
        chs = ''.join(ins.split(','))
        out = ''.join(sorted(c for c in set(chs) if chs.count(c) == 1))
    return I.mk(st, A.einsum(ins.split(','), out, *[T(I, st, x) for x in a[1:]]))


@h('tensordot')
def _tensordot(I, st, a, kw):
    x, y = T(I, st, a[0]), T(I, st, a[1])
    ax = arg(a, kw, 2, 'axes', Num(2))
    if isinstance(ax, Num):
        k = int(I.lin_of(st, ax).c)
        n1 = 'abcdefgh'[:x.rank]
        n2 = n1[x.rank - k:] + 'pqrstuvw'[:y.rank - k]
        return I.mk(st, A.einsum([n1, n2], n1[:x.rank - k] + n2[k:], x, y))
    raise Imprecise('tensordot')


@h('trace')
def _trace(I, st, a, kw):
    return I.mk(st, A.trace(T(I, st, a[0])))


@h('transpose')
def _transpose(I, st, a, kw):
    if isinstance(a[0], Arr):
        return Arr(a[0].loc, a[0].view + (('T',),))
    return I.mk(st, A.transpose(T(I, st, a[0])))


@h('swapaxes')
def _swapaxes(I, st, a, kw):
    t = T(I, st, a[0])
    p = list(range(t.rank))
    i, j = int(I.lin_of(st, a[1]).c), int(I.lin_of(st, a[2]).c)
    p[i], p[j] = p[j], p[i]
    return Arr(a[0].loc, a[0].view + (('T', tuple(p)),)) if isinstance(a[0], Arr) else I.mk(st, A.transpose(t, tuple(p)))


@h('linalg.inv', 'linalg.pinv', 'linalg.pinvh', 'linalg.pinv2')
def _inv(I, st, a, kw):
    t = T(I, st, a[0])
    return I.mk(st, A.inv_ten(t))


@h('linalg.solve')
def _solve(I, st, a, kw):
    only(kw, 'assume_a', 'sym_pos', 'check_finite', 'overwrite_a', 'overwrite_b')
    return I.mk(st, A.dot(A.inv_ten(T(I, st, a[0])), T(I, st, a[1])))


@h('linalg.cho_factor')
def _cho_factor(I, st, a, kw):
    return Tup([Opq('cho', (T(I, st, a[0]),)), TRUE])


@h('linalg.cho_solve')
def _cho_solve(I, st, a, kw):
    c = a[0].items[0] if isinstance(a[0], Tup) else a[0]
    if isinstance(c, Opq) and c.name == 'cho':
        return I.mk(st, A.dot(A.inv_ten(c.args[0]), T(I, st, a[1])))
    raise Imprecise('cho_solve')


def det_poly(t):
    t = A.strong_ten(t)
    if t.shape[0] == A.ONE:
        return t.entry()
    if t.shape[0].is_const() and t.shape[0].c == 2:
        return t.at((A.ZERO, A.ZERO)) * t.at((A.ONE, A.ONE)) - t.at((A.ZERO, A.ONE)) * t.at((A.ONE, A.ZERO))
    return A.app_entry('app', 'det', (t,), ())


@h('linalg.det')
def _det(I, st, a, kw):
    t = T(I, st, a[0])
    if t.rank != 2 or t.shape[0] != t.shape[1]:
        raise A.ShapeError('determinant of shape (%s)' % ', '.join(map(repr, t.shape)))
    return Num(det_poly(t))


@h('linalg.slogdet')
def _slogdet(I, st, a, kw):
    t = T(I, st, a[0])
    if t.rank != 2 or t.shape[0] != t.shape[1]:
        raise A.ShapeError('determinant of shape (%s)' % ', '.join(map(repr, t.shape)))
    return Tup([Num(1), Num(A.apply1('log', det_poly(t)))])


def first_cut(t):
    """first boundary of the common partition of both axes, or None"""
    b = t.breaks
    if len(b[0]) > 2 and len(b[1]) > 2 and b[0][1] == b[1][1]:
        return b[0][1]
    return None


def chol_ten(t):
    """lower Cholesky factor"""
    if t.rank != 2 or t.shape[0] != t.shape[1]:
        raise A.ShapeError('Cholesky factor of shape (%s)' % ', '.join(map(repr, t.shape)))
    n = t.shape[0]
    t = A.strong_ten(t)
    if n == A.ONE:
        return t.map(lambda p: A.power(p, A.Fr(1, 2)))
    t = A.coalesce(t)
    if len(t.cells) == 1:
        d = A._diag_form(t.cells[(0, 0)], n, n)
        if d is not None:
            return Ten((n, n), None, {(0, 0): A.power(d, A.Fr(1, 2)) * A.delta(A.fvar(0, n) - A.fvar(1, n))})
        # scalar factors come out of the root
        p = t.cells[(0, 0)]
        c = None
        if len(p.d) == 1:
            (m, c0), = p.d.items()
            sc = tuple(f for f in m if not any(k[0] in 'fb' for l in f[1] for k in l.vars()))
            if sc or c0 != 1:
                rest = tuple(f for f in m if f not in sc)
                base = Ten((n, n), None, {(0, 0): Poly({rest: A.Fr(1)})})
                s = A.power(Poly({sc: c0}), A.Fr(1, 2))
                return chol_ten(base).map(lambda q: q * s)
        else:
            # common scalar factor of a sum
            com = None
            for m in p.d:
                hs = {(a_, ix): e for a_, ix, e in m if not any(k[0] in 'fb' for l in ix for k in l.vars())}
                com = hs if com is None else {k: v for k, v in com.items() if hs.get(k) == v}
            if com:
                cp = A.norm_mono(tuple((a_, ix, e) for (a_, ix), e in com.items()), ())
                inv = A.norm_mono(tuple((a_, ix, -e) for (a_, ix), e in com.items()), ())
                base = t.map(lambda q: q * inv)
                s = A.power(cp, A.Fr(1, 2))
                return chol_ten(base).map(lambda q: q * s)
    else:
        cut = first_cut(t)
        if cut is not None:
            z = A.ZERO
            g11 = A.slice_axis(A.slice_axis(t, 0, z, cut), 1, z, cut)
            g21 = A.slice_axis(A.slice_axis(t, 0, cut, n), 1, z, cut)
            g22 = A.slice_axis(A.slice_axis(t, 0, cut, n), 1, cut, n)
            l11 = chol_ten(g11)
            l21 = A.dot(g21, A.transpose(A.inv_ten(l11)))
            l22 = chol_ten(A.sub(g22, A.dot(l21, A.transpose(l21))))
            top = A.concat([l11, A.const_ten((cut, n - cut))], 1)
            return A.concat([top, A.concat([l21, l22], 1)], 0)
    at, ps = A.lift('app', 'chol', (t,))
    i, j = A.fvar(0, n), A.fvar(1, n)
    return Ten((n, n), None, {(0, 0): A.norm_mono(((at, ps + (i, j), A.Fr(1)),), ())})


@h('linalg.cholesky')
def _chol_lower(I, st, a, kw):
    only(kw)
    return I.mk(st, chol_ten(T(I, st, a[0])))


@h('scipy.cholesky')
def _chol_scipy(I, st, a, kw):
    only(kw, 'lower', 'check_finite', 'overwrite_a')
    low = arg(a, kw, 1, 'lower', FALSE)
    t = chol_ten(T(I, st, a[0]))
    if I.truth(st, low) is True:
        return I.mk(st, t)
    return I.mk(st, A.transpose(t))


@h('scipy.sqrtm')
def _sqrtm(I, st, a, kw):
    t = A.strong_ten(T(I, st, a[0]))
    if t.shape[0] == A.ONE:
        return I.mk(st, t.map(lambda p: A.power(p, A.Fr(1, 2))))
    return I.mk(st, app_ten('sqrtm', (t,), t.shape, symm=True))


def app_ten(name, args, shape, symm=False, kind='app'):
    """opaque array-valued application"""
    shape = tuple(A.lin(s) for s in shape)
    at, ps = A.lift(kind, name, tuple(args), symm)
    ix = tuple(A.fvar(a, s) for a, s in enumerate(shape))
    p = A.norm_mono(((at, ps + ix, A.Fr(1)),), ())
    if not shape:
        return scalar(p)
    return Ten(shape, None, {(0,) * len(shape): p})


def size(t):
    return sum(len(m) for p in t.cells.values() for m in p.d)


_ds = {}


def deep_size(x, cap=400):
    """size including the arguments of applications"""
    if isinstance(x, Poly):
        return min(cap, sum(deep_size(a) for m in x.d for a, ix, e in m))
    if isinstance(x, Ten):
        return min(cap, sum(deep_size(p) for p in x.cells.values()))
    if isinstance(x, tuple):
        return min(cap, sum(deep_size(y) for y in x))
    if isinstance(x, A.Atom):
        if x.kind == 'app' and x.name == 'let':
            return 1
        r = _ds.get(x.key)
        if r is None:
            r = _ds[x.key] = 1 + deep_size(x.args)
        return r
    return 0


def let_ten(t):
    """name a large term: an atom equal to t that later steps do not expand"""
    t = A.strong_ten(t)
    symm = t.rank == 2 and t.shape[0] == t.shape[1] and t.shape[0] != A.ONE and A.is_symmetric(t)
    return app_ten('let', (t,), t.shape, symm)


def qr_any(I, st, a, kw, lib):
    """R is the transposed Cholesky factor of A^T A (the signs of its rows,
    which no product R^T R depends on, are taken positive)"""
    only(kw, 'mode', 'overwrite_a', 'check_finite')
    t = A.strong_ten(T(I, st, a[0]))
    if t.rank != 2:
        raise A.ShapeError('QR of an array with %d axes' % t.rank)
    p, q = t.shape
    mode = arg(a, kw, 1 if lib == 'numpy' else 3, 'mode')
    md = mode.v if isinstance(mode, Con) else None
    if mode is not None and md not in ('full', 'r', 'economic', 'reduced', 'complete'):
        raise Imprecise('qr mode')
    econ = md in ('economic', 'reduced') or (lib == 'numpy' and md in (None, 'r'))
    if not A.nonneg(p - q):
        raise Imprecise('QR of a wide matrix')
    u = A.transpose(chol_ten(A.dot(A.transpose(t), t)))
    r = u if econ or p == q else A.concat([u, A.const_ten((p - q, q))], 0)
    rv = I.mk(st, r)
    if md == 'r':
        return rv if lib == 'numpy' else Tup([rv])
    qt = app_ten('qr_q', (t,), (p, q if econ else p))
    return Tup([I.mk(st, qt), rv])


@h('linalg.qr')
def _qr_numpy(I, st, a, kw):
    return qr_any(I, st, a, kw, 'numpy')


@h('scipy.qr')
def _qr_scipy(I, st, a, kw):
    return qr_any(I, st, a, kw, 'scipy')


@h('linalg.svd')
def _svd(I, st, a, kw):
    t = A.strong_ten(T(I, st, a[0]))
    n, m = t.shape
    k = n if n == m else None
    if k is None:
        raise Imprecise('svd')
    return Tup([I.mk(st, app_ten('svd_u', (t,), (n, n))), I.mk(st, app_ten('svd_s', (t,), (n,))), I.mk(st, app_ten('svd_v', (t,), (n, n)))])


@h('linalg.eigh', 'linalg.eig')
def _eigh(I, st, a, kw):
    t = A.strong_ten(T(I, st, a[0]))
    n = t.shape[0]
    return Tup([I.mk(st, app_ten('eig_w', (t,), (n,))), I.mk(st, app_ten('eig_v', (t,), (n, n)))])


@h('linalg.eigvals', 'linalg.eigvalsh')
def _eigvals(I, st, a, kw):
    t = A.strong_ten(T(I, st, a[0]))
    return I.mk(st, app_ten('eig_w', (t,), (t.shape[0],)))


@h('linalg.expm')
def _expm(I, st, a, kw):
    t = A.strong_ten(T(I, st, a[0]))
    return I.mk(st, app_ten('expm', (t,), t.shape))


@h('linalg.matrix_rank')
def _mrank(I, st, a, kw):
    t = A.strong_ten(T(I, st, a[0]))
    return I.mk(st, app_ten('rank', (t,), ()))


@h('linalg.norm')
def _norm(I, st, a, kw):
    only(kw)
    t = T(I, st, a[0])
    if len(a) > 1:
        raise Imprecise('norm order')
    s = A.reduce_sum(A.mul(t, t))
    return Num(A.power(s.entry(), A.Fr(1, 2)))


@h('linalg.matrix_power')
def _mpow(I, st, a, kw):
    t = T(I, st, a[0])
    n = I.lin_of(st, a[1])
    if n.is_const() and 0 <= n.c <= 6:
        r = A.eye_ten(t.shape[0])
        for _ in range(int(n.c)):
            r = A.dot(r, t)
        return I.mk(st, r)
    raise Imprecise('matrix power')


# --------------------------------------------------------------- elementwise
def elementwise1(name):
    def f(I, st, a, kw):
        only(kw)
        v = a[0]
        t = T(I, st, v)
        return I.mk(st, t.map(lambda p: A.apply1(name, p)))
    return f


for nm in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'abs', 'floor', 'ceil', 'arctan', 'atan', 'arcsin', 'arccos', 'tanh', 'log10', 'log2',
           'sign', 'degrees', 'radians', 'isnan', 'isinf', 'erf', 'gamma', 'log1p', 'expm1', 'cosh', 'sinh', 'asin', 'acos', 'special.erf'):
    H[nm] = elementwise1({'arctan': 'atan', 'special.erf': 'erf', 'arcsin': 'asin', 'arccos': 'acos'}.get(nm, nm))
H['absolute'] = H['fabs'] = H['abs']
H['deg2rad'] = H['radians']
H['rad2deg'] = H['degrees']


@h('square')
def _square(I, st, a, kw):
    return I.mk(st, T(I, st, a[0]).map(lambda p: p * p))


@h('negative')
def _negative(I, st, a, kw):
    return I.mk(st, A.neg(T(I, st, a[0])))


@h('reciprocal')
def _recip(I, st, a, kw):
    return I.mk(st, T(I, st, a[0]).map(lambda p: A.power(p, -1)))


def bin2(op):
    def f(I, st, a, kw):
        only(kw, 'out')
        r = I.binop(st, op, a[0], a[1])
        out = kw.get('out') if 'out' in kw else (a[2] if len(a) > 2 else None)
        if out is not None and not isnone(out):
            if isinstance(out, Tup):
                out = out.items[0]
            if not isinstance(out, Arr):
                raise Imprecise('out argument')
            I.write_ten(st, out, T(I, st, r))
            return out
        return r
    OUT.add(f)
    return f


H['add'] = bin2('+')
H['subtract'] = bin2('-')
H['multiply'] = bin2('*')
H['divide'] = H['true_divide'] = bin2('/')
H['power'] = H['float_power'] = bin2('**')
H['mod'] = H['remainder'] = bin2('%')
H['floor_divide'] = bin2('//')
H['operator.sub'] = bin2('-')
H['operator.add'] = bin2('+')


def app2(name, commut=False):
    def f(I, st, a, kw):
        only(kw)
        x, y = T(I, st, a[0]), T(I, st, a[1])
        return I.mk(st, A.elementwise(lambda p, q: app_sorted(name, p, q, commut), x, y))
    return f


def app_sorted(name, p, q, commut):
    if p == q and name in ('max', 'min'):
        return p
    if p.is_const() and q.is_const() and name in ('max', 'min'):
        c = (max if name == 'max' else min)(p.const(), q.const())
        return A.poly(c)
    if name in ('max', 'min'):
        lp, lq = A.to_lin(p), A.to_lin(q)
        if lp is not None and lq is not None:
            if A.nonneg(lp - lq):
                return p if name == 'max' else q
            if A.nonneg(lq - lp):
                return q if name == 'max' else p
        # max(a,b) = b + [b-a<0](a-b): joins with the branch form of the same test
        c = A.ind('<', (q - p) if name == 'max' else (p - q))
        return c * p + (A.P1 - c) * q
    if commut and p.key > q.key:
        p, q = q, p
    return A.app_entry('app', name, (p, q), ())


H['maximum'] = H['fmax'] = app2('max', True)
H['minimum'] = H['fmin'] = app2('min', True)
H['arctan2'] = H['atan2'] = app2('atan2')
H['hypot'] = lambda I, st, a, kw: I.mk(st, A.elementwise(lambda p, q: A.power(p * p + q * q, A.Fr(1, 2)), T(I, st, a[0]), T(I, st, a[1])))
H['copysign'] = app2('copysign')


@h('where')
def _where(I, st, a, kw):
    if len(a) != 3:
        raise Imprecise('where')
    return I.mk(st, A.elementwise(lambda c, x, y: X.phi_poly(c, x, y), T(I, st, a[0]), T(I, st, a[1]), T(I, st, a[2])))


@h('clip')
def _clip(I, st, a, kw):
    t = T(I, st, a[0])
    lo, hi = arg(a, kw, 1, 'a_min'), arg(a, kw, 2, 'a_max')
    if not isnone(lo):
        t = A.elementwise(lambda p, q: app_sorted('max', p, q, True), t, T(I, st, lo))
    if not isnone(hi):
        t = A.elementwise(lambda p, q: app_sorted('min', p, q, True), t, T(I, st, hi))
    return I.mk(st, t)


def cmp_fn(op):
    return lambda I, st, a, kw: I.compare(st, op, a[0], a[1])


for nm, op in (('less', 'Lt'), ('greater', 'Gt'), ('less_equal', 'LtE'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    H[nm] = cmp_fn(op)


@h('logical_not')
def _lnot(I, st, a, kw):
    return I.mk(st, T(I, st, a[0]).map(lambda p: A.P1 - p))


# ---------------------------------------------------------------- reductions
def axis_of(I, st, v, rank):
    if isnone(v):
        return None
    k = int(I.lin_of(st, v).c)
    return k + rank if k < 0 else k


@h('sum', 'nansum', 'add.reduce', 'fsum')
def _sum(I, st, a, kw):
    only(kw, 'axis', 'keepdims', 'dtype')
    t = T(I, st, a[0])
    ax = axis_of(I, st, arg(a, kw, 1, 'axis'), t.rank)
    r = A.reduce_sum(t, ax)
    if 'keepdims' in kw and I.truth(st, kw['keepdims']) is True:
        r = A.insert_axis(r, ax) if ax is not None else A.reshape(r, (A.ONE,) * t.rank)
    return I.mk(st, r)


@h('b.sum')
def _bsum(I, st, a, kw):
    v = a[0]
    t = T(I, st, v)
    if t.rank == 0:
        raise AbsRaise('TypeError', 'sum of a scalar')
    r = A.reduce_sum(t, 0)
    if len(a) > 1:
        r = A.add(r, T(I, st, a[1]))
    return I.mk(st, r)


@h('mean', 'average')
def _mean(I, st, a, kw):
    only(kw, 'axis', 'weights', 'keepdims')
    t = T(I, st, a[0])
    ax = axis_of(I, st, arg(a, kw, 1, 'axis'), t.rank)
    w = arg(a, kw, 2, 'weights')
    if isnone(w):
        s = A.reduce_sum(t, ax)
        n = A.P1
        for i, d in enumerate(t.shape):
            if ax is None or ax == i:
                n = n * A.from_lin(d)
        r = A.scale(s, A.power(n, -1))
    else:
        wt = T(I, st, w)
        if wt.rank != 1:
            raise Imprecise('average weights')
        if ax is None:
            ax = 0
            if t.rank != 1:
                raise Imprecise('average axis')
        names = 'ijkl'[:t.rank]
        r = A.einsum([names, names[ax]], names[:ax] + names[ax + 1:], t, wt)
        r = A.scale(r, A.power(A.reduce_sum(wt).entry(), -1))
    if 'keepdims' in kw and I.truth(st, kw['keepdims']) is True:
        r = A.insert_axis(r, ax)
    return I.mk(st, r)


@h('prod')
def _prod(I, st, a, kw):
    t = T(I, st, a[0])
    if t.rank == 1 and t.shape[0].is_const():
        r = A.P1
        for i in range(int(t.shape[0].c)):
            r = r * t.at((Lin(i),))
        return Num(r)
    raise Imprecise('product')


@h('cumsum')
def _cumsum(I, st, a, kw):
    only(kw)
    t = T(I, st, a[0])
    if t.rank != 1:
        raise Imprecise('cumsum')
    n = t.shape[0]
    if n.is_const() and 1 <= n.c <= 8:
        acc, parts = A.P0, []
        for i in range(int(n.c)):
            acc = acc + t.at((Lin(i),))
            if I.sumnoise and i == int(n.c) - 1:
                acc = acc + A.sym('@round')
            parts.append(A.insert_axis(scalar(acc), 0))
        return I.mk(st, A.concat(parts, 0))
    return I.mk(st, app_ten('cumsum', (t,), (n,)))


@h('cov')
def _cov(I, st, a, kw):
    raise Imprecise('cov')


def red_app(name):
    def f(I, st, a, kw):
        only(kw, 'axis')
        t = T(I, st, a[0])
        if t.rank == 0:
            return Num(t.entry())
        if 'axis' in kw or len(a) > 1:
            raise Imprecise(name + ' axis')
        if name in ('argmax', 'argmin') and t.rank == 1 and t.shape[0].is_const() and t.shape[0].c > 0:
            # first true (false) entry of a vector of decided conditions
            best = 0
            for i in range(int(t.shape[0].c)):
                v = I.cond_known(st, t.at((Lin(i),)))
                if v is not True and v is not False:
                    break
                if v is (name == 'argmax'):
                    return Num(i, True)
            else:
                return Num(0, True)
        return Num(A.app_entry('app', 'r' + name, (A.strong_ten(t),), ()))
    return f


for nm in ('max', 'min', 'amax', 'amin', 'argmax', 'argmin', 'std', 'var', 'median'):
    H[nm] = red_app({'amax': 'max', 'amin': 'min'}.get(nm, nm))


def bmm(name):
    def f(I, st, a, kw):
        only(kw)
        if len(a) == 1:
            it = I.iter_of(st, a[0])
            if not it.count.is_const():
                return H[name](I, st, a, kw)
            a = [it.get(Lin(i)) for i in range(int(it.count.c))]
        r = a[0]
        for x in a[1:]:
            p, q = I.scal(st, r), I.scal(st, x)
            if isinstance(r, Num) and isinstance(x, Num):
                r = Num(app_sorted(name, p, q, True), r.isint and x.isint)
            else:
                r = Num(app_sorted(name, p, q, True))
        return r
    return f


H['b.max'] = bmm('max')
H['b.min'] = bmm('min')


@h('all', 'b.all', 'alltrue')
def _all(I, st, a, kw):
    only(kw)
    t = T(I, st, a[0])
    if all(s.is_const() for s in t.shape):
        p = A.P1
        import itertools
        for ix in itertools.product(*[range(int(s.c)) for s in t.shape]):
            p = p * t.at(tuple(Lin(i) for i in ix))
        return mkcond(p)
    if all(p.is_const() for p in t.cells.values()):
        return Con(all(p.const() != 0 for p in t.cells.values()))
    return mkcond(A.app_entry('ind', 'all', (t,), ()))


@h('any', 'b.any', 'sometrue')
def _any(I, st, a, kw):
    only(kw)
    t = T(I, st, a[0])
    inv = t.map(lambda p: A.P1 - p)
    r = _all(I, st, [st.arr(inv)], {})
    return mkcond(A.P1 - X.cond_poly(r))


def _numeric(I, st, v):
    """the value as a tensor; TypeError for values numpy cannot compare"""
    if isinstance(v, (Arr, Num, Cond, Phi)) or isinstance(v, Con) and isinstance(v.v, bool):
        return T(I, st, v)
    if isinstance(v, (Lst, Tup)):
        try:
            for g in I.segs_of(st, v):
                if g[0] == 'v':
                    _numeric(I, st, g[1])
        except AbsRaise:
            raise
        try:
            return T(I, st, v)
        except A.ShapeError as e:
            raise AbsRaise('ValueError', str(e))
    if isinstance(v, (Con, Fn, UFn, Ext, Obj, Cls, Dct)):
        raise AbsRaise('TypeError', 'not numeric')
    raise Imprecise('comparison of %s' % type(v).__name__)


@h('allclose', 'isclose')
def _allclose(I, st, a, kw):
    x, y = _numeric(I, st, a[0]), _numeric(I, st, a[1])
    for t in (a[2:] + list(kw.values())):
        if isinstance(t, (Top, Opq)):
            raise Imprecise('tolerance')
    try:
        d = A.sub(x, y)
    except A.ShapeError as e:
        raise AbsRaise('ValueError', str(e))
    if all(not p.d for p in d.cells.values()):
        return TRUE
    return mkcond(A.app_entry('ind', 'zero', (d,), ()))


@h('array_equal', 'array_equiv')
def _array_equal(I, st, a, kw):
    try:
        x, y = _numeric(I, st, a[0]), _numeric(I, st, a[1])
    except AbsRaise as e:
        if e.kind == 'ValueError':
            return FALSE        # not convertible to an array
        r = I.is_same(st, a[0], a[1])
        if r is True:
            return TRUE
        if isinstance(a[0], Con) and isinstance(a[1], Con):
            return Con(a[0].v == a[1].v)
        if r is False and not isinstance(a[0], (Lst, Tup, Dct)) and not isinstance(a[1], (Lst, Tup, Dct)):
            return FALSE
        raise Imprecise('comparison of objects')
    if x.shape != y.shape:
        return FALSE
    d = A.sub(x, y)
    if all(not p.d for p in d.cells.values()):
        return TRUE
    return mkcond(A.app_entry('ind', 'zero', (d,), ()))


@h('searchsorted')
def _searchsorted(I, st, a, kw):
    t = T(I, st, a[0])
    x = T(I, st, a[1])
    side = arg(a, kw, 2, 'side', Con('left'))
    if not isinstance(side, Con):
        raise Imprecise('side')
    if I.oracle is not None and t.rank == 1 and t.shape[0].is_const() and all(z.is_const() for z in x.shape):
        n = int(t.shape[0].c)
        # number of table entries below (side left) or not above (side right)
        def count(p):
            k = 0
            for j in range(n):
                q = t.at((Lin(j),))
                c = A.ind("<", q - p) if side.v == "left" else A.P1 - A.ind("<", p - q)
                v = I.cond_known(st, c)
                if v is True:
                    k += 1
                elif v is not False:
                    raise Imprecise('searchsorted')
            return A.poly(k)
        if x.rank == 0:
            return Num(count(x.cells[()]), True)
        if x.rank == 1:
            if x.shape[0].c == 0:
                return I.mk(st, x)
            return I.mk(st, A.concat([A.insert_axis(scalar(count(x.at((Lin(i),)))), 0) for i in range(int(x.shape[0].c))], 0))
    return I.mk(st, x.map(lambda p: A.app_entry('app', 'searchsorted_' + side.v, (t, p), ())))


@h('sort', 'argsort', 'unique', 'cross')
def _unk(I, st, a, kw):
    raise Imprecise('sorting')


@h('convolve')
def _convolve(I, st, a, kw):
    x, y = T(I, st, a[0]), T(I, st, a[1])
    m = arg(a, kw, 2, 'mode', Con('full'))
    if not isinstance(m, Con):
        raise Imprecise('mode')
    n = x.shape[0] if m.v == 'same' else x.shape[0] + y.shape[0] - 1
    return I.mk(st, app_ten('convolve_' + m.v, (x, y), (n,)))


def freeze(I, st, v):
    """value as an atom argument"""
    if isinstance(v, (Num, Arr, Cond)):
        t = A.strong_ten(I.to_ten(st, v))
        return t if t.rank else t.cells[()]
    if isinstance(v, Con):
        return v.v if not isinstance(v.v, bool) else int(v.v)
    if isinstance(v, Tup):
        return tuple(freeze(I, st, x) for x in v.items)
    if isinstance(v, Phi):
        t = A.strong_ten(I.to_ten(st, v))
        return t if t.rank else t.cells[()]
    if isinstance(v, Opq):
        return '?' + v.name
    if isinstance(v, (UFn,)):
        return 'fn:' + v.name
    if isinstance(v, Ext):
        return 'ext:' + short(v.name)
    if isinstance(v, Fn):
        return 'fn:' + v.info.qual
    if isinstance(v, Lst):
        return tuple(freeze(I, st, s[1]) for s in I.segs_of(st, v))
    if isinstance(v, Dct):
        c = st.heap[v.loc]
        r = tuple((k, freeze(I, st, c.d[k])) for k in sorted(c.d, key=str))
        if c.open is not None:
            r += (('**', freeze(I, st, c.open)),)
        return r
    if isinstance(v, Top):
        raise Imprecise(v.why)
    raise Imprecise('opaque argument %s' % type(v).__name__)


def frz_default(I, st, a, kw, names, defaults):
    """positional/keyword arguments by name; arguments equal to their default
    are dropped"""
    d = dict(zip(names, a))
    for k in kw:
        if k not in names:
            raise Imprecise('argument ' + k)
        d[k] = kw[k]
    out = {}
    for k, v in d.items():
        f = freeze(I, st, v)
        if isinstance(f, Poly) and f.is_const():
            f = f.const()
        if isinstance(f, (int, float)) and not isinstance(f, bool):
            f = A.Fr(repr(f)) if isinstance(f, float) else A.Fr(f)
        if k in defaults and f == defaults[k]:
            continue
        out[k] = A.poly(f) if isinstance(f, A.Fr) else f
    return out


def _nd(name, names, defaults):
    def f(I, st, a, kw):
        x = T(I, st, arg(a, kw, 0, 'input'))
        d = frz_default(I, st, a[1:], {k: v for k, v in kw.items() if k != 'input'}, names, defaults)
        if d.get('mode') == 'wrap':
            d.pop('cval', None)
        if 'output' in d:
            raise Imprecise('output argument')
        return I.mk(st, app_ten(name, (A.strong_ten(x),) + tuple((k, d[k]) for k in sorted(d)), x.shape))
    return f


for _p in ('ndimage.', 'scipy.ndimage.', 'scipy.ndimage.filters.', 'scipy.ndimage.interpolation.'):
    H[_p + 'convolve'] = _nd('ndconvolve', ('weights', 'output', 'mode', 'cval', 'origin'), {'output': None, 'mode': 'reflect', 'cval': 0, 'origin': 0})
    H[_p + 'shift'] = _nd('ndshift', ('shift', 'output', 'order', 'mode', 'cval', 'prefilter'), {'output': None, 'order': 3, 'mode': 'constant', 'cval': 0, 'prefilter': 1})
    H[_p + 'correlate'] = _nd('ndcorrelate', ('weights', 'output', 'mode', 'cval', 'origin'), {'output': None, 'mode': 'reflect', 'cval': 0, 'origin': 0})


@h('roll')
def _roll(I, st, a, kw):
    x = T(I, st, a[0])
    d = frz_default(I, st, a[1:], kw, ('shift', 'axis'), {'axis': None})
    return I.mk(st, app_ten('roll', (A.strong_ten(x),) + tuple((k, d[k]) for k in sorted(d)), x.shape))


@h('shape')
def _shape(I, st, a, kw):
    if isinstance(a[0], Num) or isinstance(a[0], Con):
        return Tup([])
    t = T(I, st, a[0])
    return Tup([Num(A.from_lin(s), True) for s in t.shape])


@h('ndim')
def _ndim(I, st, a, kw):
    if isinstance(a[0], (Num, Con)):
        return Num(0, True)
    return Num(T(I, st, a[0]).rank, True)


def ragged(I, st, v):
    """a list mixing arrays and None has no array form"""
    if isinstance(v, Tup):
        items = v.items
    elif isinstance(v, Lst):
        items = [x[-1] for x in st.heap[v.loc].segs if x[0] in 'vk']
    else:
        return
    if any(isinstance(x, Con) and x.v is None for x in items) and any(isinstance(x, (Arr, Lst, Tup)) for x in items):
        I.event('shape', 'array of a list that mixes arrays and None', st)
        raise AbsRaise('ValueError', 'inhomogeneous shape')


@h('size')
def _size(I, st, a, kw):
    ax = arg(a, kw, 1, 'axis')
    v = a[0]
    if isinstance(v, Num) or isinstance(v, Con):
        return Num(1, True)
    if ax is not None and isinstance(v, (Lst, Tup, It)):
        k = I.lin_of(st, ax)
        if k == A.ZERO:
            ragged(I, st, v)
            return Num(A.from_lin(I.length(st, v)), True)
    t = T(I, st, v)
    if ax is not None and not isnone(ax):
        k = int(I.lin_of(st, ax).c)
        if k >= t.rank:
            raise AbsRaise('IndexError', 'axis out of range')
        return Num(A.from_lin(t.shape[k]), True)
    p = A.P1
    for s in t.shape:
        p = p * A.from_lin(s)
    return Num(p, True)


@h('reshape')
def _reshape_f(I, st, a, kw):
    only(kw, 'newshape', 'shape')
    sh = arg(a, kw, 1, 'newshape', kw.get('shape'))
    return reshape_val(I, st, a[0], [sh])


def reshape_val(I, st, v, shargs):
    t = T(I, st, v)
    if len(shargs) == 1:
        sh = list(shape_arg(I, st, shargs[0]))
    else:
        sh = [I.lin_of(st, s) for s in shargs]
    if any(s == Lin(-1) for s in sh):
        k = [i for i, s in enumerate(sh) if s == Lin(-1)]
        if len(k) != 1:
            raise AbsRaise('ValueError', 'reshape')
        known = [s for i, s in enumerate(sh) if i != k[0] and s != A.ONE]
        dims = [s for s in t.shape if s != A.ONE]
        for s in known:
            if s in dims:
                dims.remove(s)
            else:
                raise Imprecise('reshape')
        if len(dims) == 0:
            sh[k[0]] = A.ONE
        elif len(dims) == 1:
            sh[k[0]] = dims[0]
        elif all(d.is_const() for d in dims):
            q = 1
            for d in dims:
                q *= d.c
            sh[k[0]] = Lin(q)
        else:
            raise Imprecise('reshape')
    r = A.reshape(t, tuple(sh))
    if isinstance(v, Arr):
        return Arr(v.loc, v.view + (('reshape', tuple(sh)),))
    return I.mk(st, r)


@h('ravel')
def _ravel_f(I, st, a, kw):
    return call_method(I, st, a[0] if isinstance(a[0], Arr) else st.arr(T(I, st, a[0])), 'ravel', a[1:], kw)


@h('squeeze')
def _squeeze(I, st, a, kw):
    t = T(I, st, a[0])
    r = A.drop_axes(t, [i for i, s in enumerate(t.shape) if s == A.ONE])
    if isinstance(a[0], Arr) and r.rank:
        return Arr(a[0].loc, a[0].view + (('reshape', r.shape),))
    return I.mk(st, r) if r.rank else st.arr(r)


@h('expand_dims')
def _expand(I, st, a, kw):
    ax = int(I.lin_of(st, arg(a, kw, 1, 'axis')).c)
    t = T(I, st, a[0])
    if ax < 0:
        ax += t.rank + 1
    return Arr(a[0].loc, a[0].view + (('new', ax),)) if isinstance(a[0], Arr) else I.mk(st, A.insert_axis(t, ax))


@h('flip', 'flipud')
def _flip(I, st, a, kw):
    if isinstance(a[0], Arr):
        return Arr(a[0].loc, a[0].view + (('rev', 0),))
    raise Imprecise('flip')


@h('triu', 'tril')
def _tri(I, st, a, kw):
    raise Imprecise('triangular part')


@h('isscalar')
def _isscalar(I, st, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return phi(v.c, _isscalar(I, st, [v.a], kw), _isscalar(I, st, [v.b], kw))
    return Con(isinstance(v, (Num, Cond)) or isinstance(v, Con) and v.v is not None)


# ------------------------------------------------------------------- copying
def deep(I, st, v, memo=None):
    memo = memo if memo is not None else {}
    if isinstance(v, Arr):
        k = ('a', v.loc, repr(v.view))
        if k not in memo:
            c = st.heap[v.loc]
            if isinstance(c.ten, Top):
                memo[k] = Arr(st.new(ArrC(c.ten)), v.view)
            else:
                memo[k] = st.arr(I.read(st, v))
        return memo[k]
    if isinstance(v, Lst):
        c = st.heap[v.loc]
        return Lst(st.new(ListC([('v', deep(I, st, s[1], memo)) if s[0] == 'v' else
                                 ('k', s[1], deep(I, st, s[2], memo)) if s[0] == 'k' else s for s in c.segs])))
    if isinstance(v, Tup):
        return Tup([deep(I, st, x, memo) for x in v.items])
    if isinstance(v, Dct):
        c = st.heap[v.loc]
        return Dct(st.new(DictC({k: deep(I, st, x, memo) for k, x in c.d.items()}, None, c.open, c.kind)))
    if isinstance(v, Obj):
        k = ('o', v.loc)
        if k in memo:
            return memo[k]
        c = st.heap[v.loc]
        o = Obj(st.new(ObjC(c.cls)))
        memo[k] = o
        st.heap[o.loc] = ObjC(c.cls, {n: deep(I, st, x, memo) for n, x in c.attrs.items()})
        return o
    if isinstance(v, Phi):
        return phi(v.c, deep(I, st, v.a, memo), deep(I, st, v.b, memo))
    return v


@h('deepcopy')
def _deepcopy(I, st, a, kw):
    return deep(I, st, a[0])


@h('copy.copy')
def _shallow(I, st, a, kw):
    v = a[0]
    if isinstance(v, Arr):
        return deep(I, st, v)
    if isinstance(v, Lst):
        return Lst(st.new(ListC(st.heap[v.loc].segs)))
    if isinstance(v, Dct):
        c = st.heap[v.loc]
        return Dct(st.new(DictC(c.d, None, c.open, c.kind)))
    if isinstance(v, Obj):
        c = st.heap[v.loc]
        return Obj(st.new(ObjC(c.cls, c.attrs)))
    return v


# ------------------------------------------------------------------ builtins
@h('len')
def _len(I, st, a, kw):
    return Num(A.from_lin(I.length(st, a[0])), True)


@h('float', 'float64', 'float32', 'float_', 'double')
def _float(I, st, a, kw):
    if not a:
        return Num(0)
    return Num(I.scal(st, a[0]))


@h('int', 'int32', 'int64', 'int_')
def _int(I, st, a, kw):
    if not a:
        return Num(0, True)
    p = I.scal(st, a[0])
    if isinstance(a[0], Num) and a[0].isint:
        return a[0]
    if p.is_const():
        return Num(int(p.const()), True)
    l = A.to_lin(p)
    if l is not None:
        return Num(p, True)
    return Num(A.apply1('int', p), True)


@h('bool', 'bool_')
def _bool(I, st, a, kw):
    if not a:
        return Con(False)
    t = I.truth(st, a[0])
    if t is None:
        raise Imprecise('bool')
    return Con(t) if isinstance(t, bool) else mkcond(t)


@h('round', 'b.round', 'around', 'rint')
def _round(I, st, a, kw):
    return I.mk(st, T(I, st, a[0]).map(lambda p: A.apply1('round', p)))


@h('repr', 'format')
def _fmt(I, st, a, kw):
    if len(a) == 1 and isinstance(a[0], (Num, Arr)):
        from . import text as TX
        x = TX.of(I, st, a[0])
        return x if isinstance(x, Con) else Opq('str')
    return Opq('str')


@h('str', 'array_str', 'array2string', 'array_repr')
def _str(I, st, a, kw):
    from . import text as TX
    if len(a) == 1 and not kw:
        return TX.of(I, st, a[0])
    return Opq('str')


@h('print', 'warnings.warn', 'set_printoptions', 'warnings.filterwarnings', 'warnings.simplefilter')
def _print(I, st, a, kw):
    return NONE


@h('list')
def _list(I, st, a, kw):
    if not a:
        return st.lst([])
    if isinstance(a[0], Lst):
        return Lst(st.new(ListC(st.heap[a[0].loc].segs)))
    it = I.iter_of(st, a[0])
    if it.count.is_const():
        return st.lst([it.get(Lin(i)) for i in range(int(it.count.c))])
    v = ('l', 'li%d' % next(A._tmpc), it.count)
    return Lst(st.new(ListC([('r', it.count, v, X.tmpl(I, st, it.get(A.lvar(v))))])))


@h('tuple')
def _tuple(I, st, a, kw):
    if not a:
        return Tup([])
    it = I.iter_of(st, a[0])
    if it.count.is_const():
        return Tup([it.get(Lin(i)) for i in range(int(it.count.c))])
    return _list(I, st, a, kw)


def dict_from(I, st, v):
    """constant-keyed mapping given by a dict or by a sequence of pairs"""
    if isinstance(v, Dct):
        c = st.heap[v.loc]
        return dict(c.d), c.open
    it = I.iter_of(st, v)
    if not it.count.is_const():
        raise Imprecise('dict of unknown length')
    d = {}
    for i in range(int(it.count.c)):
        pair = I.iter_of(st, it.get(Lin(i)))
        k = pair.get(Lin(0))
        if not isinstance(k, Con):
            raise Imprecise('dict key')
        d[k.v] = pair.get(Lin(1))
    return d, None


@h('dict', 'collections.OrderedDict')
def _dict(I, st, a, kw):
    d, op = dict_from(I, st, a[0]) if a else ({}, None)
    kw = dict(kw)
    op = kw.pop('**', op)
    d.update(kw)
    return Dct(st.new(DictC(d, None, op)))


@h('collections.defaultdict')
def _defaultdict(I, st, a, kw):
    d = _dict(I, st, a[1:], kw)
    c = st.heap[d.loc]
    f = a[0] if a and not isnone(a[0]) else None
    st.heap[d.loc] = DictC(c.d, None, c.open, f)
    return d


def mkset(I, st, vals):
    d = {}
    for v in vals:
        if not isinstance(v, Con):
            raise Imprecise('set member')
        d[v.v] = TRUE
    return Dct(st.new(DictC(d, None, None, 'set')))


@h('set', 'frozenset')
def _set(I, st, a, kw):
    if not a:
        return mkset(I, st, [])
    it = I.iter_of(st, a[0])
    if it.count.is_const():
        try:
            return mkset(I, st, [it.get(Lin(i)) for i in range(int(it.count.c))])
        except Imprecise:
            pass
    return _list(I, st, a, kw)


@h('zip')
def _zip(I, st, a, kw):
    its = [I.iter_of(st, x) for x in a]
    n = None
    for it in its:
        if it.count is None:
            continue
        if n is None:
            n = it.count
        elif n != it.count:
            d = n - it.count
            if A.nonneg(d):
                n = it.count
            elif A.nonneg(-d):
                pass
            else:
                # unrelated lengths: the shorter one is unknown
                raise Imprecise('zip of unrelated lengths %r and %r' % (n, it.count))
    return It(n, lambda l, st=st: Tup([it.get(l, st) for it in its]))


@h('enumerate')
def _enumerate(I, st, a, kw):
    it = I.iter_of(st, a[0])
    s = arg(a, kw, 1, 'start')
    s = I.lin_of(st, s) if s is not None else A.ZERO
    return It(it.count, lambda l, st=st: Tup([Num(A.from_lin(l + s), True), it.get(l, st)]))


@h('reversed')
def _reversed(I, st, a, kw):
    it = I.iter_of(st, a[0])
    return It(it.count, lambda l, st=st: it.get(it.count - 1 - l, st))


@h('map')
def _map(I, st, a, kw):
    its = [I.iter_of(st, x) for x in a[1:]]
    return It(its[0].count, lambda l, st=st: I.call(st, a[0], [it.get(l, st) for it in its], {}))


@h('iter')
def _iter(I, st, a, kw):
    return I.iter_of(st, a[0])


@h('sorted')
def _sorted(I, st, a, kw):
    it = I.iter_of(st, a[0])
    if it.count.is_const() and not kw:
        vs = [it.get(Lin(i)) for i in range(int(it.count.c))]
        if all(isinstance(v, Con) and isinstance(v.v, str) for v in vs):
            return st.lst(sorted(vs, key=lambda v: v.v))
    raise Imprecise('sorted')


@h('filter')
def _filter(I, st, a, kw):
    it = I.iter_of(st, a[1])
    if not it.count.is_const():
        raise Imprecise('filter')
    out = []
    for i in range(int(it.count.c)):
        v = it.get(Lin(i))
        t = I.truth(st, v if isnone(a[0]) else I.call(st, a[0], [v], {}))
        if t is not True and t is not False:
            raise Imprecise('filter')
        if t:
            out.append(v)
    return st.lst(out)


def members(st, v):
    """(name, value) of everything reachable as attribute of an object or class"""
    out = {}
    info = v.info if isinstance(v, Cls) else st.heap[v.loc].cls
    work = [info] if info else []
    while work:
        c = work.pop(0)
        for k, f in c.methods.items():
            out.setdefault(k, Fn(f))
        for k, f in c.props.items():
            out.setdefault(k, Opq('property', (k,)))
        work += list(c.bases())
    if isinstance(v, Obj):
        out.update(st.heap[v.loc].attrs)
    return out


@h('inspect.getmembers')
def _getmembers(I, st, a, kw):
    v = a[0]
    if not isinstance(v, (Cls, Obj)):
        raise Imprecise('getmembers')
    pred = arg(a, kw, 1, 'predicate')
    out = []
    for k, x in sorted(members(st, v).items()):
        if isinstance(v, Obj) and isinstance(x, Opq) and x.name == 'property':
            x = I.getattr(st, v, k)
        if not isnone(pred):
            t = I.truth(st, I.call(st, pred, [x], {}))
            if t is not True and t is not False:
                raise Imprecise('getmembers')
            if not t:
                continue
        out.append(Tup([Con(k), x]))
    return st.lst(out)


def _by_type(f):
    return lambda I, st, a, kw: Con(f(a[0]))


H['inspect.isdatadescriptor'] = _by_type(lambda v: isinstance(v, Opq) and v.name == 'property')
H['inspect.isfunction'] = _by_type(lambda v: isinstance(v, UFn) or isinstance(v, Fn) and v.self is None)
H['inspect.ismethod'] = _by_type(lambda v: isinstance(v, Fn) and v.self is not None)
H['inspect.isroutine'] = _by_type(lambda v: isinstance(v, (Fn, UFn)))


@h('isinstance')
def _isinstance(I, st, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return phi(v.c, _isinstance(I, st, [v.a, a[1]], kw), _isinstance(I, st, [v.b, a[1]], kw))
    ts = a[1].items if isinstance(a[1], Tup) else [a[1]]
    res = False
    for t in ts:
        if isinstance(t, Ext) and short(t.name) == 'property':
            if isinstance(v, Top):
                raise Imprecise('isinstance of unknown value')
            res = res or isinstance(v, Opq) and v.name == 'property'
            continue
        if isinstance(t, Cls):
            if isinstance(v, Obj) and st.heap[v.loc].cls is not None:
                c = st.heap[v.loc].cls
                seen = [c]
                while seen:
                    k = seen.pop()
                    if k is t.info:
                        res = True
                    seen += list(k.bases())
            continue
        n = short(t.name) if isinstance(t, Ext) else '?'
        kinds = {'list': Lst, 'tuple': Tup, 'ndarray': Arr, 'dict': Dct}
        if n in kinds:
            if isinstance(v, kinds[n]):
                res = True
        elif n in ('int', 'float', 'float64', 'integer', 'number', 'floating', 'numbers.Number', 'complex', 'generic'):
            if isinstance(v, Num):
                if n == 'int' and not v.isint:
                    continue
                res = True
        elif n in ('str', 'basestring'):
            res = res or isinstance(v, Con) and isinstance(v.v, str)
        elif n == 'bool':
            res = res or isinstance(v, Cond) or isinstance(v, Con) and isinstance(v.v, bool)
        else:
            raise Imprecise('isinstance %s' % n)
        if isinstance(v, (Top, Opq)):
            raise Imprecise('isinstance of unknown value')
    return Con(res)


@h('callable')
def _callable(I, st, a, kw):
    return Con(isinstance(a[0], (Fn, UFn, Ext, Cls, BM)))


@h('hasattr')
def _hasattr(I, st, a, kw):
    if isinstance(a[0], Obj) and isinstance(a[1], Con):
        c = st.heap[a[0].loc]
        return Con(a[1].v in c.attrs or bool(c.cls and (c.cls.find('props', a[1].v) or c.cls.find('methods', a[1].v))))
    raise Imprecise('hasattr')


@h('getattr')
def _getattr(I, st, a, kw):
    if isinstance(a[1], Con):
        try:
            return I.getattr(st, a[0], a[1].v)
        except AbsRaise:
            if len(a) > 2:
                return a[2]
            raise
    raise Imprecise('getattr')


@h('setattr')
def _setattr(I, st, a, kw):
    if isinstance(a[1], Con):
        I.setattr(st, a[0], a[1].v, a[2])
        return NONE
    raise Imprecise('setattr')


@h('type')
def _type(I, st, a, kw):
    if isinstance(a[0], Obj):
        return Cls(st.heap[a[0].loc].cls)
    v = a[0]
    if isinstance(v, (Arr, Lst, Tup, Dct)):
        if isinstance(v, Dct) and not isinstance(st.heap[v.loc], ObjC) and st.heap[v.loc].kind is not None:
            return Ext('builtins.set') if st.heap[v.loc].kind == 'set' else Ext('collections.defaultdict')
        return Ext({Arr: 'numpy.ndarray', Lst: 'builtins.list', Tup: 'builtins.tuple', Dct: 'builtins.dict'}[type(v)])
    if isinstance(v, Con) and (v.v is None or isinstance(v.v, (bool, str))):
        return Ext('builtins.' + type(v.v).__name__)
    if isinstance(v, Fn):
        return Ext('builtins.method' if v.self is not None else 'builtins.function')
    if isinstance(v, UFn):
        return Ext('builtins.function')
    if isinstance(v, Num):
        # a Python number or a numpy scalar
        return Opq('numtype')
    raise Imprecise('type')


@h('vars')
def _vars(I, st, a, kw):
    if a and isinstance(a[0], Obj):
        return Dct(a[0].loc)
    raise Imprecise('vars')


@h('dir')
def _dirof(I, st, a, kw):
    if a and isinstance(a[0], (Obj, Cls)):
        return st.lst([Con(k) for k in sorted(members(st, a[0]))])
    raise Imprecise('dir')


@h('super')
def _super(I, st, a, kw):
    fr = I.frames[-1]
    cls = fr.info.cls
    for b in cls.bases():
        return SuperV(b, st.env.get('self'))
    raise Imprecise('super')


def SuperV(cls, self_):
    return BM(Tup([Cls(cls), self_]), '__super__')


@h('id', 'hash', 'object')
def _misc(I, st, a, kw):
    return Opq('object')


# ------------------------------------------------------------------- random
def rng(name, shape, args, I, event=0):
    """Draws from one distribution are consecutive members of one unknown
    stream of independent samples; drawing n at once or one at a time (also in
    a loop, by the loop counter) reads the same members."""
    lv = tuple(I.loopvars)
    samp, ev = tuple(shape[:len(shape) - event]), tuple(shape[len(shape) - event:])
    args = tuple(args)
    key = (name, A.akey(args), ev)
    base = I.rngcount.get(key, A.ZERO)
    if len(lv) <= 1 and len(samp) <= 1 and not (lv and samp):
        t = app_ten('rng:' + name, args, (A.dim('rng', 10 ** 9),) + ev)
        at = base + lv[0] if lv else base
        if samp:
            t = Ten(samp + ev, None, {(0,) * (1 + len(ev)): A.subst(app_ten('rng:' + name, args, samp + ev).cells[(0,) * (1 + len(ev))],
                                                                    {A.fvar(0, samp[0]).t[0][0]: A.fvar(0, samp[0]) + at})}) if at != A.ZERO else app_ten('rng:' + name, args, samp + ev)
            n = samp[0]
        else:
            t = A.index_axis(t, 0, at)
            n = A.ONE
        if lv:
            I.rngloop[key] = n
        else:
            I.rngcount[key] = base + n
        return t
    k = -1
    if not lv:
        k = I.rngserial
        I.rngserial += 1
    t = app_ten('rng:' + name, args + (A.poly(k),), (A.dim('rng', 10 ** 9),) * len(lv) + tuple(shape))
    for v in lv:
        t = A.index_axis(t, 0, v)
    return t


@h('random.randn', 'random.rand', 'random.random_sample', 'random.standard_normal', 'random.random', 'random.uniform_std')
def _rand_dispatch(I, st, a, kw):
    raise Imprecise('random')


def _mk_rand(name, star):
    def f(I, st, a, kw):
        if star:
            sh = tuple(I.lin_of(st, x) for x in a)
        else:
            s = arg(a, kw, 0, 'size')
            sh = () if isnone(s) else shape_arg(I, st, s)
        I.event('rng', name, st)
        return I.mk(st, rng(name, sh, (), I))
    return f


H['random.randn'] = _mk_rand('normal', True)
H['random.standard_normal'] = _mk_rand('normal', False)
H['random.rand'] = _mk_rand('uniform', True)
H['random.random'] = H['random.random_sample'] = H['random.ranf'] = H['random.sample'] = _mk_rand('uniform', False)


@h('random.multivariate_normal')
def _mvn_draw(I, st, a, kw):
    I.event('rng', 'multivariate_normal', st)
    mean = T(I, st, arg(a, kw, 0, 'mean'))
    cov = A.strong_ten(T(I, st, arg(a, kw, 1, 'cov')))
    size = arg(a, kw, 2, 'size')
    if mean.rank != 1:
        raise A.ShapeError('mean of a multivariate normal has %d dimensions' % mean.rank)
    n = mean.shape[0]
    if cov.shape != (n, n):
        raise A.ShapeError('covariance (%s) for a mean of size %r' % (', '.join(map(repr, cov.shape)), n))
    sh = () if isnone(size) else shape_arg(I, st, size)
    noise = rng('mvn', sh + (n,), (cov,), I, 1)
    return I.mk(st, A.add(noise, mean))


@h('random.normal')
def _normal(I, st, a, kw):
    I.event('rng', 'normal', st)
    loc = arg(a, kw, 0, 'loc', Num(0))
    sc = arg(a, kw, 1, 'scale', Num(1))
    size = arg(a, kw, 2, 'size')
    sh = () if isnone(size) else shape_arg(I, st, size)
    return I.mk(st, A.add(A.mul(rng('normal', sh, (), I), T(I, st, sc)), T(I, st, loc)))


@h('random.uniform', 'random.gammavariate', 'random.gauss', 'random.normalvariate', 'random.choice', 'random.randint', 'random.seed', 'random.chisquare')
def _rnd(I, st, a, kw):
    I.event('rng', 'random', st)
    f = I.frames[-1]
    return I.mk(st, rng('other', (), tuple(freeze(I, st, y) for y in a), I))


def _named_rng(nm):
    def f(I, st, a, kw):
        I.event('rng', nm, st)
        return I.mk(st, rng(nm, (), tuple(freeze(I, st, y) for y in a), I))
    return f


for _n in ('gammavariate', 'gauss', 'uniform', 'normalvariate'):
    H['random.' + _n] = _named_rng(_n)


# --------------------------------------------------------------- statistics
def mvn_logpdf(x, mean, cov):
    """log density of N(mean, cov) at x (1-d tensors, 2-d cov)"""
    n = x.shape[0]
    d = A.sub(x, mean)
    q = A.dot(d, A.dot(A.inv_ten(cov), d)).entry()
    logdet = A.apply1('log', det_poly(cov))
    return (A.from_lin(n) * A.apply1('log', A.sym('pi').scale(2)) + logdet + q).scale(A.Fr(-1, 2))


def mvn_args(I, st, a, kw):
    only(kw, 'x', 'mean', 'cov', 'allow_singular')
    x = T(I, st, arg(a, kw, 0, 'x'))
    m = arg(a, kw, 1, 'mean')
    c = arg(a, kw, 2, 'cov')
    cov = T(I, st, c) if not isnone(c) else scalar(1)
    if x.rank == 0:
        x = A.insert_axis(x, 0)
    n = x.shape[-1]
    if isnone(m):
        mean = A.const_ten((n,))
    else:
        mean = T(I, st, m)
        if mean.rank == 0:
            mean = A.insert_axis(mean, 0)
    if cov.rank == 0:
        cov = A.mul(A.eye_ten(n), cov)
    if x.rank != 1:
        raise Imprecise('density of several points')
    if mean.rank != 1:
        raise A.ShapeError('mean must be one-dimensional')
    if mean.shape != x.shape:
        raise A.ShapeError('point of size %r against mean of size %r' % (x.shape[0], mean.shape[0]))
    if cov.rank != 2 or cov.shape != (n, n):
        raise A.ShapeError('covariance (%s) for a point of size %r' % (', '.join(map(repr, cov.shape)), n))
    return x, mean, cov


@h('scipy.stats.multivariate_normal.logpdf')
def _logpdf(I, st, a, kw):
    p = mvn_logpdf(*mvn_args(I, st, a, kw))
    sing = arg(a, kw, 3, 'allow_singular', Num(0))
    # without allow_singular a (nearly) singular covariance raises
    return Num(p if I.truth(st, sing) is True else strict_density(p))


def strict_density(p):
    return A.app_entry('app', 'nonsingular only', (p,), ())


@h('scipy.stats.multivariate_normal.pdf')
def _pdf(I, st, a, kw):
    return Num(A.apply1('exp', mvn_logpdf(*mvn_args(I, st, a, kw))))


@h('scipy.stats.multivariate_normal.cdf')
def _cdfm(I, st, a, kw):
    x, m, c = mvn_args(I, st, a, kw)
    return Num(A.app_entry('app', 'mvn_cdf', (x, m, c), ()))


def norm_val(I, st, nm, x, loc, sc):
    def g(p, l, s):
        if nm == 'ppf':
            return l + s * A.app_entry('app', 'norm_ppf', (p,), ())
        z = (p - l) / s
        if nm == 'pdf':
            return A.apply1('exp', (z * z).scale(A.Fr(-1, 2))) / (A.power(A.sym('pi').scale(2), A.Fr(1, 2)) * s)
        return A.app_entry('app', 'norm_' + nm, (z,), ())
    if nm == 'interval':
        half = A.scalar(A.poly(A.Fr(1, 2)))
        lo = A.mul(A.sub(A.scalar(A.P1), x), half)
        hi = A.mul(A.add(A.scalar(A.P1), x), half)
        return Tup([norm_val(I, st, 'ppf', q, loc, sc) for q in (lo, hi)])
    return I.mk(st, A.elementwise(g, x, loc, sc))


NORM = ('cdf', 'pdf', 'ppf', 'sf', 'interval')


def _norm_fn(nm):
    def f(I, st, a, kw):
        only(kw, 'loc', 'scale', 'alpha', 'confidence')
        x = a[0] if a else kw.get('confidence', kw.get('alpha'))
        return norm_val(I, st, nm, T(I, st, x), T(I, st, arg(a, kw, 1, 'loc', Num(0))), T(I, st, arg(a, kw, 2, 'scale', Num(1))))
    return f


for _n in NORM:
    H['scipy.stats.norm.' + _n] = _norm_fn(_n)


@h('scipy.stats.norm')
def _norm_frozen(I, st, a, kw):
    only(kw, 'loc', 'scale')
    return Opq('norm', (arg(a, kw, 0, 'loc', Num(0)), arg(a, kw, 1, 'scale', Num(1))))


@h('scipy.sparse.issparse', 'issparse', 'sparse.issparse')
def _issparse(I, st, a, kw):
    return FALSE


@h('degrees', 'rad2deg')
def _degrees(I, st, a, kw):
    return I.mk(st, A.elementwise(lambda p: p.scale(180) / A.sym('pi'), T(I, st, a[0])))


@h('radians', 'deg2rad')
def _radians(I, st, a, kw):
    return I.mk(st, A.elementwise(lambda p: p.scale(A.Fr(1, 180)) * A.sym('pi'), T(I, st, a[0])))


@h('factorial', 'scipy.special.factorial', 'special.factorial')
def _fact(I, st, a, kw):
    p = I.scal(st, a[0])
    if p.is_const():
        import math
        return Num(math.factorial(int(p.const())), True)
    return Num(A.app_entry('app', 'factorial', (p,), ()))


H['math.factorial'] = _fact


# ---------------------------------------------------- builtin value attributes
PYATTRS = {Lst: (list, __import__('collections').deque, set), Tup: (tuple, list, type({}.keys())), Dct: (dict, set, __import__('collections').defaultdict)}


def builtin_attr(I, st, v, name):
    kinds = PYATTRS.get(type(v))
    if kinds and not any(hasattr(k, name) for k in kinds) or isinstance(v, Con) and not hasattr(v.v, name):
        if not (isinstance(v, Dct) and isinstance(st.heap.get(v.loc), ObjC)):
            I.event('attr', 'attribute %r of a %s' % (name, type(v.v).__name__ if isinstance(v, Con) else kinds[0].__name__), st)
            raise AbsRaise('AttributeError', name)
    if isinstance(v, Arr):
        if name == 'T':
            t = I.read(st, v)
            return Arr(v.loc, v.view + (('T',),)) if t.rank > 1 else v
        if name == 'shape':
            return Tup([Num(A.from_lin(s), True) for s in I.read(st, v).shape])
        if name == 'ndim':
            return Num(I.read(st, v).rank, True)
        if name == 'size':
            return _size(I, st, [v], {})
        if name == 'real':
            return v
        if name == 'flat':
            return reshape_val(I, st, v, [Num(-1)])
        if name == 'dtype':
            return Opq('dtype', (v,))
        return BM(v, name)
    if isinstance(v, (Lst, Dct)):
        return BM(v, name)
    if isinstance(v, Tup):
        return BM(v, name)
    if isinstance(v, Num):
        if name == 'shape':
            return Tup([])
        if name == 'ndim':
            return Num(0, True)
        if name in ('T', 'real'):
            return v
        if name == 'size':
            return Num(1, True)
        if name in ('copy', 'item', 'dot', 'sum', 'flatten', 'ravel', 'reshape', 'astype', 'is_integer', 'tolist', 'fill'):
            # numpy scalars have these, Python numbers do not
            return BM(v, name)
        I.event('attr', 'attribute %r of a number' % name, st)
        raise AbsRaise('AttributeError', name)
    if isinstance(v, Con) and isinstance(v.v, str) or isinstance(v, Opq) and v.name == 'str':
        return BM(v, name)
    if isinstance(v, BM) and v.name == '__super__':
        cls, self_ = v.recv.items
        m = cls.info.find('methods', name)
        if m is not None:
            return Fn(m, self_)
        p = cls.info.find('props', name)
        if p is not None:
            return I.call_function(st, p, [], {}, self_)
        raise AbsRaise('AttributeError', name)
    if isinstance(v, Opq) and (v.name == 'norm' and name in NORM or v.name.startswith('ext:')):
        return BM(v, name)
    if isinstance(v, (Opq, UFn, Fn, It, Cond)):
        if isinstance(v, Fn) and name == '__name__':
            return Con(v.info.name)
        if isinstance(v, UFn) and name == '__name__':
            return Con(v.name)
        if isinstance(v, Opq) and v.name == 'numtype' and name == '__name__':
            return Con('float')
        if isinstance(v, Cond):
            return BM(Num(v.p), name)
        raise Imprecise('attribute %s of %s' % (name, type(v).__name__))
    raise Imprecise('attribute %s of %s' % (name, type(v).__name__))


def call_method(I, st, r, name, a, kw):
    if isinstance(r, Opq) and r.name.startswith('ext:'):
        return record(I, st, r.name + '.' + name, a, kw)
    for x in list(a) + list(kw.values()):
        if isinstance(x, Top) and name not in ('append', 'format'):
            return x
    if isinstance(r, Phi):
        s1, s2 = st.fork(), st.fork()
        v1 = call_method(I, s1, r.a, name, a, kw)
        v2 = call_method(I, s2, r.b, name, a, kw)
        s1.env['__v'] = v1
        s2.env['__v'] = v2
        m = I.merge(r.c, s1, s2)
        v = m.env.pop('__v')
        st.heap, st.env = m.heap, m.env
        return v
    if isinstance(r, Arr):
        return dtypes.method(I, st, r, name, a, kw, arr_method(I, st, r, name, a, kw))
    if isinstance(r, Lst):
        return list_method(I, st, r, name, a, kw)
    if isinstance(r, Dct):
        return dict_method(I, st, r, name, a, kw)
    if isinstance(r, Con) and isinstance(r.v, str) or isinstance(r, Opq) and r.name == 'str':
        from . import text as TX
        if isinstance(r, Con) and not kw and all(isinstance(x, Con) and isinstance(x.v, str) for x in a) and name in (
                'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'title', 'capitalize', 'find',
                'format', 'isidentifier', 'count', 'index', 'splitlines'):
            try:
                x = getattr(r.v, name)(*[y.v for y in a])
            except (ValueError, IndexError, KeyError) as e:
                raise AbsRaise(type(e).__name__, str(e))
            return Con(x) if isinstance(x, (str, bool)) else Num(x, True) if isinstance(x, int) else st.lst([Con(y) for y in x])
        if name == 'join':
            it = I.iter_of(st, a[0])
            if it.count.is_const():
                vs = [it.get(Lin(i)) for i in range(int(it.count.c))]
                if isinstance(r, Con) and all(isinstance(x, Con) and isinstance(x.v, str) for x in vs):
                    return Con(r.v.join(x.v for x in vs))
                for x in vs:
                    if isinstance(x, (Num, Arr, Lst, Tup, Obj, Dct)) or isinstance(x, Con) and not isinstance(x.v, str):
                        I.event('type', 'join of a non-string', st)
                        raise AbsRaise('TypeError', 'sequence item: expected str')
                if isinstance(r, Con) and all(TX.isstr(x) for x in vs):
                    return TX.cat(vs, r.v)
            return Opq('str')
        if name == 'replace' and len(a) == 2 and all(isinstance(x, Con) and isinstance(x.v, str) for x in a):
            return TX.replace(r, a[0].v, a[1].v)
        if name in ('split', 'splitlines') and not kw and (name == 'splitlines' and not a or len(a) == 1 and isinstance(a[0], Con) and a[0].v == '\n'):
            ls = TX.lines(r)
            if ls is not None:
                return st.lst(ls)
        if name in ('format', 'replace', 'strip', 'upper', 'lower', 'split', 'ljust', 'rjust', 'rstrip', 'lstrip', 'center', 'zfill', 'title'):
            return Opq('str')
        raise Imprecise('string method %s' % name)
    if isinstance(r, Opq) and r.name == 'norm':
        only(kw)
        return norm_val(I, st, name, T(I, st, a[0]), T(I, st, r.args[0]), T(I, st, r.args[1]))
    if isinstance(r, Num):
        if name in ('copy', 'item', 'astype', 'sum', 'tolist'):
            return r
        if name == 'dot':
            return I.binop(st, '*', r, a[0])
        if name in ('flatten', 'ravel'):
            return st.arr(A.insert_axis(scalar(r.p), 0))
        if name == 'reshape':
            return reshape_val(I, st, r, a)
        raise Imprecise('number method %s' % name)
    if isinstance(r, Tup):
        if name == '__getitem__':
            return I.subscript(st, r, a[0])
        raise Imprecise('tuple method %s' % name)
    raise Imprecise('method %s of %s' % (name, type(r).__name__))


def arr_method(I, st, r, name, a, kw):
    if name == 'copy':
        return deep(I, st, r)
    if name in ('dot',):
        return _dot2(I, st, r, a[0])
    if name == 'fill':
        I.write_ten(st, r, T(I, st, a[0]))
        return NONE
    if name == 'reshape':
        only(kw)
        return reshape_val(I, st, r, a)
    if name in ('ravel', 'flatten'):
        t = I.read(st, r)
        big = [s for s in t.shape if s != A.ONE]
        if len(big) <= 1:
            sh = (big[0],) if big else (A.ONE,)
            if name == 'flatten':
                return st.arr(A.reshape(t, sh))
            return Arr(r.loc, r.view + (('reshape', sh),))
        if all(s.is_const() for s in t.shape):
            q = 1
            for s in t.shape:
                q *= s.c
            ft = A.reshape(t, (Lin(q),))
            if name == 'flatten':
                return st.arr(ft)
            return Arr(r.loc, r.view + (('reshape', (Lin(q),)),))
        raise Imprecise('flattening a matrix of symbolic size')
    if name in ('sum', 'mean', 'min', 'max', 'any', 'all', 'trace', 'cumsum', 'argmax', 'argmin', 'std', 'var', 'prod', 'round', 'squeeze', 'clip', 'searchsorted'):
        return H[name](I, st, [r] + list(a), kw)
    if name == 'transpose':
        if a:
            it = a[0].items if isinstance(a[0], Tup) else a
            return Arr(r.loc, r.view + (('T', tuple(int(I.lin_of(st, x).c) for x in it)),))
        return Arr(r.loc, r.view + (('T',),))
    if name == 'swapaxes':
        return _swapaxes(I, st, [r] + list(a), kw)
    if name == 'astype':
        d = a[0] if a else kw.get('dtype')
        if isinstance(d, Ext) and short(d.name) in ('int', 'int32', 'int64'):
            t = I.read(st, r)
            return st.arr(t.map(lambda p: p if A.to_lin(p) is not None or _is_floor(p) else A.apply1('int', p)))
        return deep(I, st, r)
    if name == 'diagonal':
        return _diag(I, st, [r], {})
    if name == 'tolist':
        return _list(I, st, [r], {})
    if name == 'item':
        if a:
            raise Imprecise('item')
        return Num(I.read(st, r).entry())
    if name in ('view', 'conj', 'conjugate', '__array__', 'real'):
        return r
    if name == 'setflags':
        return NONE
    raise Imprecise('array method %s' % name)


def _is_floor(p):
    return len(p.d) == 1 and all(len(m) == 1 and m[0][0].name in ('floor', 'int') and c == 1 for m, c in p.d.items())


def list_method(I, st, r, name, a, kw):
    c = st.heap[r.loc]
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort'):
        if c.prov and (c.prov.startswith('param') or c.prov.startswith('frozen')):
            I.event('mutate', c.prov, st, r.loc)
    if name == 'append':
        st.heap[r.loc] = ListC(c.segs + [('v', a[0])], c.prov)
        return NONE
    if name == 'extend':
        st.heap[r.loc] = ListC(c.segs + I.segs_of(st, a[0]), c.prov)
        return NONE
    if name == 'pop' and not a and c.segs and c.segs[-1][0] == 'v':
        st.heap[r.loc] = ListC(c.segs[:-1], c.prov)
        return c.segs[-1][1]
    if name == 'insert' and isinstance(a[0], Num) and a[0].p.is_const() and a[0].p.const() == 0:
        st.heap[r.loc] = ListC([('v', a[1])] + c.segs, c.prov)
        return NONE
    if name == 'copy':
        return Lst(st.new(ListC(c.segs)))
    if name == 'reverse' and all(s[0] == 'v' for s in c.segs):
        st.heap[r.loc] = ListC(c.segs[::-1], c.prov)
        return NONE
    if name == 'clear':
        st.heap[r.loc] = ListC([], c.prov)
        return NONE
    st.heap[r.loc] = ListC([('c', I.top('list.%s' % name), None)], c.prov)
    raise Imprecise('list method %s' % name)


def dict_method(I, st, r, name, a, kw):
    c = st.heap[r.loc]
    if name == 'get' and isinstance(a[0], Con) and not c.open:
        return c.d.get(a[0].v, a[1] if len(a) > 1 else NONE)
    if name == 'keys':
        return Tup([Con(k) for k in c.d])
    if name == 'values' and not c.open:
        return Tup(list(c.d.values()))
    if name == 'items' and not c.open:
        return Tup([Tup([Con(k), v]) for k, v in c.d.items()])
    if name == 'copy':
        return Dct(st.new(DictC(c.d, None, c.open, c.kind)))
    if c.open:
        raise Imprecise('dict method %s' % name)
    keys = lambda v: list(st.heap[_set(I, st, [v], {}).loc].d)
    if c.kind == 'set':
        if name in ('add', 'discard', 'remove') and isinstance(a[0], Con):
            d = dict(c.d)
            if name == 'add':
                d[a[0].v] = TRUE
            elif a[0].v in d:
                del d[a[0].v]
            elif name == 'remove':
                raise AbsRaise('KeyError', repr(a[0].v))
            I.dict_write(st, r, d)
            return NONE
        if name in ('intersection', 'union', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'update',
                    'intersection_update', 'difference_update'):
            x = list(c.d)
            for y in a:
                y = keys(y)
                if name.startswith('intersection'):
                    x = [k for k in x if k in y]
                elif name in ('union', 'update'):
                    x = x + [k for k in y if k not in x]
                elif name.startswith('difference'):
                    x = [k for k in x if k not in y]
                elif name == 'symmetric_difference':
                    x = [k for k in x if k not in y] + [k for k in y if k not in x]
                else:
                    return Con({'issubset': set(x) <= set(y), 'issuperset': set(x) >= set(y), 'isdisjoint': not set(x) & set(y)}[name])
            if name.endswith('update'):
                I.dict_write(st, r, {k: TRUE for k in x})
                return NONE
            return mkset(I, st, [Con(k) for k in x])
        raise Imprecise('set method %s' % name)
    if name in ('intersection', 'union', 'difference', 'symmetric_difference'):
        # operators on dict key views
        return dict_method(I, st, _set(I, st, [r], {}), name, a, kw)
    if name == 'update':
        d = dict(c.d)
        op = None
        if a:
            e, op = dict_from(I, st, a[0])
            d.update(e)
        d.update({k: v for k, v in kw.items() if k != '**'})
        if op or '**' in kw:
            raise Imprecise('dict update')
        I.dict_write(st, r, d)
        return NONE
    if name == 'pop' and isinstance(a[0], Con):
        if a[0].v in c.d:
            I.dict_write(st, r, {k: v for k, v in c.d.items() if k != a[0].v})
            return c.d[a[0].v]
        if len(a) > 1:
            return a[1]
        raise AbsRaise('KeyError', repr(a[0].v))
    if name == 'setdefault' and isinstance(a[0], Con):
        if a[0].v not in c.d:
            I.dict_write(st, r, dict(list(c.d.items()) + [(a[0].v, a[1] if len(a) > 1 else NONE)]))
        return st.heap[r.loc].d[a[0].v]
    if name == 'clear':
        I.dict_write(st, r, {})
        return NONE
    raise Imprecise('dict method %s' % name)


# -------------------------------------------------------- families of objects
def sobj_get(I, st, v, name):
    c = st.heap[v.loc]
    if name in c.fields:
        base = Arr(c.fields[name])
        t = I.read(st, base)
        if t.rank == 1:
            return Num(A.index_axis(t, 0, v.idx).cells[()])
        return Arr(c.fields[name], (('idx', 0, v.idx),))
    if name in c.methods:
        m = c.methods[name]
        return UFn('%s.%s' % (c.name, name), lambda I_, st_, a, kw: m(I_, st_, v, a, kw))
    I.event('attr', 'attribute %r of a member filter' % name, st)
    raise AbsRaise('AttributeError', name)


def sobj_set(I, st, v, name, val):
    c = st.heap[v.loc]
    if name not in c.fields:
        raise Imprecise('new attribute %s on a member' % name)
    if c.prov and (c.prov.startswith('frozen') or c.prov.startswith('param')):
        I.event('mutate', c.prov, st, v.loc)
    base = Arr(c.fields[name])
    t = I.read(st, base)
    x = T(I, st, val)
    if t.shape[1:] != x.shape:
        raise A.ShapeError('member attribute %s of shape (%s) set to (%s)' % (
            name, ', '.join(map(repr, t.shape[1:])), ', '.join(map(repr, x.shape))))
    I.write_ten(st, Arr(c.fields[name], (('idx', 0, v.idx),)), x)


# ------------------------------------------------------------------ functools
@h('functools.lru_cache', 'functools.cache')
def lru_cache(I, st, a, kw):
    if a and isinstance(a[0], (Fn, UFn)) and not kw:
        f, memo = a[0], []

        def call(I, st, args, k):
            key = tuple(freeze(I, st, x) for x in args) + tuple((n, freeze(I, st, k[n])) for n in sorted(k))
            for k0, v in memo:
                if k0 == key:
                    loc = getattr(v, 'loc', None)
                    if loc is not None and loc not in st.heap:
                        raise Imprecise('memoised value of another branch')
                    return v
            v = I.call(st, f, args, k)
            memo.append((key, v))
            return v
        return UFn('memo', call)
    return UFn('lru_cache', lambda I, s, x, k: lru_cache(I, s, x, {}))


@h('functools.wraps', 'functools.update_wrapper')
def wraps(I, st, a, kw):
    return UFn('wraps', lambda I, s, x, k: x[0])


@h('functools.partial')
def partial(I, st, a, kw):
    f, pre = a[0], list(a[1:])

    def call(I, s, x, k):
        d = dict(kw)
        d.update(k)
        return I.call(s, f, pre + list(x), d)
    return UFn('partial', call)
