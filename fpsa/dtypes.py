"""Storage types: which arrays are known to hold integers.

The level of an array is None (floating point, or not known) or the set of
caller-supplied arrays whose being integer makes it integer: empty for arrays
that are integer in any case (np.array([0, 0]), np.zeros(n, dtype=int)), {x} for
x itself, its copies and zeros_like(x), {F, x} for F.dot(x).

A value with a fractional part stored in such an array is cut off, and an
in-place operation with one is refused: an event of kind 'dtype'.  Only values
that are certainly not whole when just those arrays are integer count.
"""
from .values import *       # noqa
from .algebra import Lin

FLOAT, INT = None, frozenset()
NAMES = {'int', 'int8', 'int16', 'int32', 'int64', 'intp', 'int_', 'intc', 'i', 'i4', 'i8', 'l', 'uint', 'uint8', 'uint32', 'uint64', 'bool', 'bool_'}
# functions whose result has the common type of their arguments
KEEP = set('''array asarray asanyarray ascontiguousarray atleast_1d atleast_2d atleast_3d copy array_copy deepcopy copy.copy dot matmul outer inner kron
    diag diagonal transpose reshape ravel concatenate hstack vstack stack column_stack row_stack r_ c_ tile repeat roll flip fliplr flipud squeeze
    expand_dims swapaxes moveaxis add subtract multiply negative square abs maximum minimum cumsum sum b.sum tril triu block linalg.block_diag
    linalg.multi_dot multi_dot einsum tensordot vdot trace sort take delete insert append full_like zeros_like ones_like empty_like'''.split())
METHODS = set('''copy dot reshape ravel flatten sum cumsum transpose swapaxes squeeze trace diagonal view conj repeat take'''.split())
MAKERS = {'zeros': 1, 'ones': 1, 'empty': 1}
FRAC = set('''sqrt exp log log2 log10 sin cos tan atan atan2 asin acos sinh cosh tanh chol expm sqrtm erf hypot qr norm pinv svd'''.split())


def kind(I, st, d):
    """level named by a dtype argument"""
    if isinstance(d, Ext):
        return INT if d.name.split('.')[-1] in NAMES else FLOAT
    if isinstance(d, Con) and isinstance(d.v, str):
        return INT if d.v in NAMES else FLOAT
    if isinstance(d, Opq) and d.name == 'dtype' and d.args:
        return level(I, st, d.args[0])
    return FLOAT


def join(ls):
    if not ls or any(l is None for l in ls):
        return FLOAT
    return frozenset().union(*ls)


def level(I, st, v, depth=0):
    if isinstance(v, Num):
        return INT if v.isint else FLOAT
    if isinstance(v, Con):
        return INT if isinstance(v.v, bool) else FLOAT
    if isinstance(v, Arr):
        return I.intlocs.get(v.loc, FLOAT)
    if isinstance(v, Phi):
        return join([level(I, st, v.a), level(I, st, v.b)])
    if depth > 4:
        return FLOAT
    if isinstance(v, Tup):
        return join([level(I, st, x, depth + 1) for x in v.items])
    if isinstance(v, Lst):
        c = st.heap.get(v.loc)
        if not isinstance(c, ListC) or not c.segs:
            return FLOAT
        xs = [g[1] if g[0] == 'v' else g[2] if g[0] == 'k' else None for g in c.segs]
        return join([level(I, st, x, depth + 1) if isinstance(x, Val) else FLOAT for x in xs])
    return FLOAT


def mark(I, v, lev):
    if lev is not None and isinstance(v, Arr):
        I.intlocs.setdefault(v.loc, lev)
    elif lev is not None and isinstance(v, Phi):
        mark(I, v.a, lev)
        mark(I, v.b, lev)
    return v


def after(I, st, name, a, kw, r):
    """result of a library function: its storage type"""
    if not isinstance(r, (Arr, Phi)):
        return r
    d = kw.get('dtype')
    if name in MAKERS:
        if d is None and len(a) > MAKERS[name]:
            d = a[MAKERS[name]]
        return mark(I, r, kind(I, st, d)) if d is not None else r
    if name in ('array', 'asarray', 'asanyarray', 'zeros_like', 'ones_like', 'empty_like') and d is None and len(a) > 1:
        d = a[1]
    if name == 'full':
        d = a[2] if d is None and len(a) > 2 else d
        f = a[1] if len(a) > 1 else kw.get('fill_value')
        return mark(I, r, kind(I, st, d) if d is not None and not (isinstance(d, Con) and d.v is None) else level(I, st, f))
    if d is not None and not (isinstance(d, Con) and d.v is None):
        return mark(I, r, kind(I, st, d))
    if name in ('arange',):
        return mark(I, r, join([level(I, st, x) for x in a]))
    if name in ('eye', 'identity', 'ones', 'zeros'):
        return r
    if name in KEEP:
        src = a[:1] if name in ('reshape', 'full_like', 'zeros_like', 'ones_like', 'empty_like', 'roll', 'tile', 'repeat', 'diag', 'sum', 'b.sum', 'cumsum', 'array', 'asarray', 'copy', 'deepcopy') else \
            a[1:] if name == 'einsum' else a
        return mark(I, r, join([level(I, st, x) for x in src if not (isinstance(x, Con) and x.v is None)]))
    return r


def method(I, st, obj, name, a, kw, r):
    if not isinstance(r, (Arr, Phi)):
        return r
    if name == 'astype':
        return mark(I, r, kind(I, st, a[0] if a else kw.get('dtype')))
    if name in METHODS and 'dtype' not in kw:
        l = level(I, st, obj)
        if name == 'dot':
            l = join([l, level(I, st, a[0])])
        return mark(I, r, l)
    return r


def binop(I, st, op, x, y, r):
    if op in ('+', '-', '*', '//', '%', '**', '@') and isinstance(r, Arr):
        return mark(I, r, join([level(I, st, x), level(I, st, y)]))
    return r


def fractional(I, p, lev):
    """certainly not whole, for suitable values of what it is made of"""
    for m, c in p.d.items():
        dims = all(a.kind == 'dim' for a, _, _ in m)
        if c.denominator != 1 and (not m or not dims):
            return True
        for a, ix, e in m:
            if a.kind in ('dim', 'ind', 'delta', 'iota'):
                continue
            if a.kind == 'sym':
                if a.name.startswith('@') or a.name in ('NONE', 'uninitialised'):
                    return False
                if a.name not in lev or e < 0 or e != int(e):
                    return True
            elif a.kind in ('inv', 'pw'):
                return True
            elif a.kind == 'app':
                if a.name in FRAC or a.name.startswith('rng:'):
                    return True
                if a.name == 'let' and a.args and isinstance(a.args[0], Ten):
                    # a large term under a name
                    if any(fractional(I, q, lev) for q in a.args[0].cells.values()):
                        return True
                if a.name.startswith('u:') and a.name not in lev:
                    return True
    return False


def stored(I, st, arr, ten):
    """a tensor is written into an array"""
    lev = I.intlocs.get(arr.loc, FLOAT)
    if lev is None or not isinstance(ten, Ten) or any(x.is_const() and x.c == 0 for x in ten.shape):
        return
    for p in ten.cells.values():
        if fractional(I, p, lev):
            I.event('dtype', 'a computed value is stored in an integer array: its fraction is lost' if not lev else
                    'a computed value is stored in an array that is integer when %s is: its fraction is lost' % ', '.join(sorted(lev)), st, arr.loc)
            return


# weights and distributions are documented as arrays of floats
EXEMPT = {'lk', 'likelihood', 'prior', 'pdf', 'kernel', 'weights'}


def given(I, arr, ten):
    """array handed in by the caller: integer, like everything it is made of"""
    names = set()
    for p in ten.cells.values():
        for m, c in p.d.items():
            if c.denominator != 1:
                return
            for a, ix, e in m:
                if a.kind == 'sym' and (a.name.startswith(('@', 'W')) or a.name in EXEMPT):
                    return
                if a.kind == 'sym' and e == int(e) and e > 0:
                    names.add(a.name)
                elif a.kind not in ('delta', 'iota', 'dim', 'ind'):
                    return
    I.intlocs[arr.loc] = frozenset(names)


# attributes the filters compute themselves: what the analysis puts there is not
# handed in by a user
COMPUTED = set('''sigmas sigmas_f sigmas_h y K S SI x_prior P_prior x_post P_post P_inv_prior P_inv_post z L
    xSmooth likelihood log_likelihood mahalanobis _K _S _y _SI dx_post mu_ cbar omega N n count PF'''.split())
