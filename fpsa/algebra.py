"""Normal forms for tensor expressions of unknown dimension (index notation).

Lin   affine expressions over dimension symbols and index variables
Atom  interned symbols (matrices, inverses, opaque applications, ...)
Poly  polynomials whose monomials are products of indexed atoms; repeated
      ("bound") indices are summed over their range
Ten   arrays: a symbolic shape and a grid of blocks, one Poly per block

This is the value domain of the dataflow analysis: two program expressions with
the same normal form compute the same real-number value for every dimension and
every input.
"""
from fractions import Fraction as Fr
import hashlib
import itertools


class Imprecise(Exception):
    """The domain cannot represent the result (never a verdict)."""


class ShapeError(Exception):
    """Shapes that can never conform (definite error of the program)."""


def _dig(s):
    return hashlib.md5(s.encode()).hexdigest()[:14]


# --------------------------------------------------------------------- Lin
# keys: ('d',name)  ('f',axis,size)  ('b',n,size)  ('p',n,None)  ('l',uid,size)
DIM_LO = {}
_keyrepr = {}


def keyrepr(k):
    r = _keyrepr.get(k)
    if r is None:
        r = k[0] + ':' + str(k[1])
        if k[0] not in ('d', 'p') and k[2] is not None:
            r += '<' + k[2].key
        _keyrepr[k] = r
    return r


class Lin(object):
    __slots__ = ('c', 't', 'key', '_h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self.key = '+'.join(['%s*%s' % (v, keyrepr(k)) for k, v in t] + [str(c)])
        self._h = hash(self.key)

    @staticmethod
    def make(c, d):
        its = [(k, v) for k, v in d.items() if v != 0]
        its.sort(key=lambda kv: keyrepr(kv[0]))
        return Lin(c, tuple(its))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = dict(self.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
        return Lin.make(self.c + o.c, d)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((k, -v) for k, v in self.t))

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, n):
        if isinstance(n, Lin):
            if not n.t:
                n = n.c
            elif not self.t:
                return n * self.c
            else:
                raise Imprecise('product of symbolic sizes')
        if n == 0:
            return ZERO
        return Lin(self.c * n, tuple((k, v * n) for k, v in self.t))

    __rmul__ = __mul__

    def is_const(self):
        return not self.t

    def vars(self):
        return [k for k, _ in self.t if k[0] != 'd']

    def pure_var(self):
        """the index variable if self is exactly one variable"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1 and self.t[0][0][0] != 'd':
            return self.t[0][0]
        return None

    def subst(self, m):
        if not any(k in m for k, _ in self.t):
            return self
        r = Lin(self.c)
        for k, v in self.t:
            r = r + (m[k] * v if k in m else Lin(0, ((k, v),)))
        return r

    def __repr__(self):
        def nm(k):
            return k[1] if k[0] == 'd' else ('%s%s' % (k[0], k[1]) if k[0] != 'l' else str(k[1]))
        parts = []
        for k, v in self.t:
            s = nm(k) if abs(v) == 1 else '%s*%s' % (abs(v), nm(k))
            parts.append(('-' if v < 0 else '+') + s)
        if self.c != 0 or not parts:
            parts.append(('-' if self.c < 0 else '+') + str(abs(self.c)))
        r = ''.join(parts)
        return r[1:] if r[0] == '+' else r


ZERO = Lin(0)
ONE = Lin(1)


def lin(x):
    if isinstance(x, Lin):
        return x
    return Lin(x)


# sizes of the concrete instances looked at where the generic analysis is inconclusive
SIZES = {'n': 3, 'm': 2, 'l': 4, 'N': 4, 'k': 3}
CONCRETE = [bool(__import__('os').environ.get('FPSA_CONCRETE'))]


def dim(name, lo=2):
    DIM_LO[name] = lo
    if CONCRETE[0]:
        return Lin(max(lo, SIZES.get(name, 3)))
    return Lin(0, ((('d', name), 1),))


def lvar(v):
    """Lin of an index variable (variables of range 1 are 0)"""
    if v[2] is not None and v[2] == ONE:
        return ZERO
    return Lin(0, ((v, 1),))


def fvar(axis, size):
    return lvar(('f', axis, size))


_bc = itertools.count(10 ** 6)


def fresh_b(size):
    return ('b', next(_bc), size)


def lower(l):
    """a lower bound of an affine expression, or None"""
    for _ in range(6):
        vs = l.vars()
        if not vs:
            break
        m = {}
        for k, v in l.t:
            if k[0] == 'd':
                continue
            if v > 0:
                m[k] = ZERO
            else:
                if k[2] is None:
                    return None
                m[k] = k[2] - 1
        l = l.subst(m)
    tot = l.c
    for k, v in l.t:
        if k[0] != 'd' or v < 0:
            return None
        tot += v * DIM_LO.get(k[1], 1)
    return tot


def nonneg(l):
    lo = lower(l)
    return lo is not None and lo >= 0


def positive(l):
    lo = lower(l)
    return lo is not None and lo > 0


def never_zero(l):
    """provably nonzero: sign known, or sizes that are independent symbols"""
    return positive(l) or positive(-l)


def sizes_differ(a, b):
    """two sizes that differ for generic dimensions (so code requiring equality
    is not valid for all dimensions)"""
    return a != b


def cmp_lin(a, b):
    if a == b:
        return 0
    if nonneg(b - a - 1):
        return -1
    if nonneg(a - b - 1):
        return 1
    if nonneg(b - a):
        return -1      # possibly equal: treat as an (empty) ordered interval
    if nonneg(a - b):
        return 1
    raise Imprecise('cannot order sizes %r and %r' % (a, b))


# -------------------------------------------------------------------- Atom
class Atom(object):
    __slots__ = ('kind', 'name', 'args', 'sym', 'npar', 'key', 'info', 'hooks')
    _tab = {}

    def __new__(cls, kind, name, args=(), sym=False, npar=0):
        s = '|'.join([kind, name, 's' if sym else '', str(npar)] + [akey(a) for a in args])
        key = (kind[:3] + ':' + name[:12] + ':' + _dig(s))
        a = cls._tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.name, a.args, a.sym, a.npar, a.key = kind, name, args, sym, npar, key
            a.info = None
            a.hooks = None
            cls._tab[key] = a
        return a

    def __repr__(self):
        return '<%s>' % self.key


def akey(a):
    if isinstance(a, (Poly, Ten, Lin)):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(akey(x) for x in a) + ')'
    if isinstance(a, Atom):
        return a.key
    return repr(a)


DELTA = None
IOTA = None


def _init_atoms():
    global DELTA, IOTA
    DELTA = Atom('delta', 'd')
    IOTA = Atom('iota', 'i')


# -------------------------------------------------------------------- Poly
def fkey(f):
    return (f[0].key, tuple(i.key for i in f[1]), f[2])


MAX_MONOS = 4000


class Poly(object):
    __slots__ = ('d', '_k')

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._k = None

    @property
    def key(self):
        if self._k is None:
            parts = []
            for m, c in self.d.items():
                parts.append(str(c) + '~' + ';'.join('%s[%s]^%s' % (a.key, ','.join(i.key for i in ix), e) for a, ix, e in m))
            parts.sort()
            self._k = _dig('&'.join(parts)) + str(len(parts))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fr(0))

    def __add__(self, o):
        o = poly(o)
        if not self.d:
            return o
        if not o.d:
            return self
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-poly(o))

    def __rsub__(self, o):
        return poly(o) + (-self)

    def scale(self, c):
        c = Fr(c)
        if c == 0:
            return P0
        return Poly({m: v * c for m, v in self.d.items()})

    def __mul__(self, o):
        o = poly(o)
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        if len(self.d) * len(o.d) > MAX_MONOS:
            raise Imprecise('expression too large')
        out = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                _acc(out, mul_mono(m1, m2), c1 * c2)
        return Poly(out)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(poly(o), Fr(-1))

    def free(self):
        s = set()
        for m in self.d:
            for a, ix, e in m:
                for l in ix:
                    for k in l.vars():
                        if k[0] != 'b':
                            s.add(k)
        return s

    def atoms(self):
        s = set()
        for m in self.d:
            for a, ix, e in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


def _acc(out, p, c):
    for m, v in p.d.items():
        n = out.get(m, 0) + v * c
        if n == 0:
            out.pop(m, None)
        else:
            out[m] = n


P0 = Poly({})


def poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Lin):
        return from_lin(x)
    if isinstance(x, bool):
        return Poly({(): Fr(int(x))}) if x else P0
    if isinstance(x, float):
        x = Fr(repr(x))
    x = Fr(x)
    return Poly({(): x}) if x != 0 else P0


P1 = Poly({(): Fr(1)})


def from_lin(l):
    d = {}
    if l.c != 0:
        d[()] = Fr(l.c)
    for k, v in l.t:
        if k[0] == 'd':
            f = (Atom('dim', k[1]), (), Fr(1))
        else:
            f = (IOTA, (Lin(0, ((k, 1),)),), Fr(1))
        d[(f,)] = Fr(v)
    return Poly(d)


def to_lin(p):
    """affine form with integer coefficients, or None"""
    c = 0
    d = {}
    for m, v in p.d.items():
        if v.denominator != 1:
            return None
        v = int(v)
        if m == ():
            c = v
            continue
        if len(m) != 1 or m[0][2] != 1:
            return None
        a, ix, e = m[0]
        if a.kind == 'dim':
            d[('d', a.name)] = v
        elif a is IOTA:
            k = ix[0].pure_var()
            if k is None:
                return None
            d[k] = v
        else:
            return None
    return Lin.make(c, d)


# ---- monomials
def _bvars(factors):
    s = []
    for a, ix, e in factors:
        for l in ix:
            for k in l.vars():
                if k[0] == 'b' and k not in s:
                    s.append(k)
    return s


_mulcache = {}
SPLITS = []     # reads that straddle blocks: (index, breaks); see loops.summarise


def mul_mono(m1, m2):
    if fkeyset(m1) > fkeyset(m2):
        m1, m2 = m2, m1
    kk = (m1, m2)
    r = _mulcache.get(kk)
    if r is None:
        b1 = _bvars(m1)
        b2 = _bvars(m2)
        if b1 and b2:
            ren = {k: lvar(fresh_b(k[2])) for k in b2}
            m2r = tuple((a, tuple(l.subst(ren) for l in ix), e) for a, ix, e in m2)
        else:
            m2r = m2
        r = norm_mono(m1 + m2r, ())
        if len(_mulcache) > 200000:
            _mulcache.clear()
        _mulcache[kk] = r
    return r


def fkeyset(m):
    return tuple((a.key, e) for a, ix, e in m)


def mono_subst(m, c, ren, extra=()):
    """apply index substitution; returns Poly"""
    plain = []
    prods = []
    for a, ix, e in m:
        nix = tuple(l.subst(ren) for l in ix)
        if nix == ix:
            plain.append((a, ix, e))
            continue
        if a is IOTA:
            if nix[0].pure_var():
                plain.append((a, nix, e))
            else:
                prods.append(a)
            continue
        if a.npar:
            ps = [l.pure_var() for l in nix[:a.npar]]
            if None in ps or len(set(ps)) < len(ps):
                prods.append(a)
                continue
        plain.append((a, nix, e))
    if not prods:
        return norm_mono(tuple(plain), extra).scale(c)
    # bound variables that only occur in the re-instantiated part must stay
    # bound over the whole product: use temporary loop variables
    # prods contain substituted variables of outer bound indices as pure 'b'
    # variables; protect them during multiplication by naming them 't'
    outer = set(extra)
    for a, ix, e in m:
        for l in ix:
            outer.update(k for k in l.vars() if k[0] == 'b')
    for v in ren.values():
        outer.update(k for k in v.vars() if k[0] == 'b')
    tmp = {}
    back = {}
    for k in outer:
        t = ('l', 't%d' % next(_bc), k[2])
        tmp[k] = Lin(0, ((t, 1),))
        back[t] = k
    # prods were built from nix containing the original b's: rebuild them safely
    res = norm_mono(tuple((a, tuple(l.subst(tmp) for l in ix), e) for a, ix, e in plain), ())
    for a, ix, e in m:
        nix = tuple(l.subst(ren) for l in ix)
        if nix == ix:
            continue
        nix = tuple(l.subst(tmp) for l in nix)
        if a is IOTA and not nix[0].pure_var():
            res = res * power(from_lin(nix[0]), e)
        elif a.npar and a is not IOTA:
            ps = [l.pure_var() for l in nix[:a.npar]]
            if None in ps or len(set(ps)) < len(ps):
                res = res * power(reinst(a, nix), e)
    res = res.scale(c)
    used = [t for t in back]
    for t in used:
        # remains a bound variable only if it was bound (not a free outer)
        res = sum_var(res, t)
    return res


def subst(p, ren):
    """substitute index variables (not bound ones)"""
    ren = {k: v for k, v in ren.items()}
    out = {}
    for m, c in p.d.items():
        hit = any(k in ren for a, ix, e in m for l in ix for k, _ in l.t)
        if not hit:
            n = out.get(m, 0) + c
            if n == 0:
                out.pop(m, None)
            else:
                out[m] = n
        else:
            # rename bound variables apart
            bs = _bvars(m)
            if bs:
                bren = {k: lvar(fresh_b(k[2])) for k in bs}
                m = tuple((a, tuple(l.subst(bren) for l in ix), e) for a, ix, e in m)
            _acc(out, mono_subst(m, c, ren), 1)
    return Poly(out)


def sum_var(p, var):
    """sum a polynomial over an index variable (kind l or f) of known size"""
    size = var[2]
    if size is None:
        raise Imprecise('sum over index of unknown range')
    if size.is_const() and size.c <= 8:
        r = P0
        for i in range(int(size.c)):
            r = r + subst(p, {var: Lin(i)})
        return r
    out = {}
    for m, c in p.d.items():
        bs = _bvars(m)
        ren = {k: lvar(fresh_b(k[2])) for k in bs}
        nb = fresh_b(size)
        ren[var] = lvar(nb)
        m2 = tuple((a, tuple(l.subst(ren) for l in ix), e) for a, ix, e in m)
        _acc(out, norm_mono(m2, (nb,)), c)
    return Poly(out)


def _symfix(a, ix):
    if a.sym and len(ix) >= 2:
        if ix[-2].key > ix[-1].key:
            return ix[:-2] + (ix[-1], ix[-2])
    return ix


def norm_mono(factors, binders):
    """normal form of a product of factors with the given summed variables (any
    'b' variable occurring is summed too). Returns Poly."""
    coef = Fr(1)
    comb = {}
    binders = list(binders)
    pend = []
    for a, ix, e in factors:
        if a.sym:
            ix = _symfix(a, ix)
        comb[(a, ix)] = comb.get((a, ix), 0) + e
    fs = []
    for (a, ix), e in comb.items():
        if e == 0:
            continue
        k = a.kind
        if k == 'delta':
            l = ix[0]
            if not l.t:
                if l.c == 0:
                    continue
                return P0
            if never_zero(l):
                return P0
            if l.t[0][1] < 0:
                l = -l
            fs.append((a, (l,), Fr(1)))
        elif k == 'ind':
            fs.append((a, ix, Fr(1)))
        elif k == 'pw' and e.denominator == 1 and e >= 1:
            pend.append((a, ix, int(e)))
        else:
            fs.append((a, ix, Fr(e)))
    if pend:
        # protect bound variables
        allb = []
        for a, ix, e in list(fs) + pend:
            for l in ix:
                for k in l.vars():
                    if k[0] == 'b' and k not in allb:
                        allb.append(k)
        for b in binders:
            if b not in allb:
                allb.append(b)
        tmp = {k: Lin(0, ((('l', 't%d' % next(_bc), k[2]), 1),)) for k in allb}
        r = norm_mono(tuple((a, tuple(l.subst(tmp) for l in ix), e) for a, ix, e in fs), ())
        for a, ix, e in pend:
            base = subst(a.args[0], {('p', i, None): l.subst(tmp) for i, l in enumerate(ix)})
            for _ in range(e):
                r = r * base
        for k in allb:
            r = sum_var(r, tmp[k].pure_var())
        return r
    for b in _bvars(fs):
        if b not in binders:
            binders.append(b)
    # delta elimination
    changed = True
    while changed:
        changed = False
        for i, (a, ix, e) in enumerate(fs):
            if a.kind != 'delta':
                continue
            l = ix[0]
            # bound variables first
            cand = None
            for k, v in l.t:
                if k[0] == 'b' and abs(v) == 1:
                    sol = (Lin(0, ((k, 1),)) * v - l) * v      # k = sol
                    if nonneg(sol) and nonneg(k[2] - 1 - sol):
                        cand = (k, sol)
                        break
            if cand is not None:
                k, sol = cand
                rest = fs[:i] + fs[i + 1:]
                binders = [b for b in binders if b != k]
                return mono_subst_b(tuple(rest), coef, {k: sol}, tuple(binders))
            # free variables: eliminate the largest from the other factors
            fv = [(k, v) for k, v in l.t if k[0] not in ('b', 'd') and abs(v) == 1]
            if fv:
                fv.sort(key=lambda kv: (kv[0][0] != 'l', keyrepr(kv[0])), reverse=True)
                k, v = fv[0]
                # prefer eliminating variables that occur elsewhere
                for kk, vv in fv:
                    if any(kk == q for a2, ix2, e2 in fs if a2.kind != 'delta' for l2 in ix2 for q, _ in l2.t):
                        pass
                sol = (Lin(0, ((k, 1),)) * v - l) * v
                rest = fs[:i] + fs[i + 1:]
                if any(k == q for a2, ix2, e2 in rest for l2 in ix2 for q, _ in l2.t):
                    inner = mono_subst_b(tuple(rest), coef, {k: sol}, tuple(binders))
                    return inner * Poly({((a, ix, Fr(1)),): Fr(1)})
    # Cholesky products: sum_j L_ij L_kj -> M_ik
    for i, (a, ix, e) in enumerate(fs):
        if a.kind == 'app' and a.name == 'chol' and e in (1, 2):
            j = ix[-1].pure_var()
            if j is None or j[0] != 'b':
                continue
            for i2, (a2, ix2, e2) in enumerate(fs):
                if a2 is a and (i2 != i or e == 2) and ix2[:a.npar] == ix[:a.npar] and ix2[-1] == ix[-1] \
                        and (e2 == 1 or (i2 == i and e2 == 2)):
                    others = [f for q, f in enumerate(fs) if q not in (i, i2)]
                    if any(j == k for f in others for l in f[1] for k, _ in l.t):
                        continue
                    if any(j == k for l in ix[:-1] + ix2[:-1] for k, _ in l.t):
                        continue
                    if a.args[0].shape[0] != j[2]:
                        continue
                    allb = [b for b in binders if b != j]
                    tmp = {k: Lin(0, ((('l', 't%d' % next(_bc), k[2]), 1),)) for k in allb}
                    r = norm_mono(tuple((x, tuple(l.subst(tmp) for l in y), z) for x, y, z in others), ())
                    M = a.args[0]
                    mp = M.at((ix[-2].subst(tmp), ix2[-2].subst(tmp)))
                    mp = subst(mp, {('p', q, None): l.subst(tmp) for q, l in enumerate(ix[:a.npar])})
                    r = r * mp
                    for k in allb:
                        r = sum_var(r, tmp[k].pure_var())
                    return r
    # sums over small concrete ranges are expanded
    for b in binders:
        if b[2] is not None and b[2].is_const() and b[2].c <= 8:
            rest = [x for x in binders if x != b]
            r = {}
            for v in range(int(b[2].c)):
                _acc(r, mono_subst_b(tuple(fs), coef, {b: Lin(v)}, tuple(rest)), 1)
            return Poly(r)
    # unused binders
    used = _bvars(fs)
    mult = None
    for b in binders:
        if b not in used:
            mult = from_lin(b[2]) if mult is None else mult * from_lin(b[2])
    m = canon(fs, used)
    r = Poly({m: coef})
    if mult is not None:
        # dims are plain scalars: multiplication cannot capture
        r = r * mult
    return r


def mono_subst_b(fs, coef, ren, binders):
    """substitution inside a monomial whose 'b' variables stay bound"""
    simple = True
    for a, ix, e in fs:
        if (a.npar or a is IOTA) and any(k in ren for l in ix[:max(a.npar, 1)] for k, _ in l.t):
            nps = [l.subst(ren).pure_var() for l in ix[:max(a.npar, 1)]]
            if None in nps or len(set(nps)) < len(nps):
                simple = False
    if simple:
        return norm_mono(tuple((a, tuple(l.subst(ren) for l in ix), e) for a, ix, e in fs), binders).scale(coef)
    allb = list(binders)
    for b in _bvars(fs):
        if b not in allb and b not in ren:
            allb.append(b)
    tmp = {k: Lin(0, ((('l', 't%d' % next(_bc), k[2]), 1),)) for k in allb}
    full = {k: v.subst(tmp) for k, v in ren.items()}
    full.update(tmp)
    r = Poly({(): coef})
    for a, ix, e in fs:
        nix = tuple(l.subst(full) for l in ix)
        r = r * mk_factor(a, nix, e)
    for k in allb:
        r = sum_var(r, tmp[k].pure_var())
    return r


def mk_factor(a, ix, e=Fr(1)):
    if a is IOTA:
        if ix[0].pure_var():
            return Poly({((a, ix, e),): Fr(1)})
        return power(from_lin(ix[0]), e)
    if a.npar:
        ps = [l.pure_var() for l in ix[:a.npar]]
        if None in ps or len(set(ps)) < len(ps):
            return power(reinst(a, ix), e)
    return norm_mono(((a, ix, e),), ())


def canon(fs, bvars):
    """canonical names for bound variables"""
    if not bvars:
        return tuple(sorted(((a, _symfix(a, ix), e) for a, ix, e in fs), key=fkey))
    col = {b: b[2].key if b[2] is not None else '?' for b in bvars}

    def sigs(col):
        occ = {b: [] for b in bvars}
        fsig = []
        for a, ix, e in fs:
            parts = []
            for l in ix:
                if any(k[0] == 'b' for k, _ in l.t):
                    parts.append('+'.join(sorted('%s*%s' % (v, col[k] if k[0] == 'b' else keyrepr(k)) for k, v in l.t)) + '+' + str(l.c))
                else:
                    parts.append(l.key)
            if a.sym and len(parts) >= 2:
                parts = parts[:-2] + sorted(parts[-2:])
            fsig.append(a.key + str(e) + ','.join(parts))
        for (a, ix, e), s in zip(fs, fsig):
            for pos, l in enumerate(ix):
                pp = 'S' if (a.sym and pos >= len(ix) - 2) else pos
                for k, v in l.t:
                    if k[0] == 'b':
                        occ[k].append('%s@%s*%s' % (s, pp, v))
        return {b: _dig(col[b] + '#' + '&'.join(sorted(occ[b]))) for b in bvars}

    def refine(col):
        n = len(set(col.values()))
        while True:
            col = sigs(col)
            n2 = len(set(col.values()))
            if n2 == n or n2 == len(bvars):
                return col
            n = n2

    def finish(col):
        order = sorted(bvars, key=lambda b: col[b])
        ren = {b: Lin(0, ((('b', i, b[2]), 1),)) for i, b in enumerate(order)}
        return tuple(sorted(((a, _symfix(a, tuple(l.subst(ren) for l in ix)), e) for a, ix, e in fs), key=fkey))

    budget = [24]

    def search(col):
        col = refine(col)
        classes = {}
        for b in bvars:
            classes.setdefault(col[b], []).append(b)
        ties = sorted((c, bs) for c, bs in classes.items() if len(bs) > 1)
        if not ties:
            return finish(col)
        c, bs = ties[0]
        best = None
        for b in bs:
            if budget[0] <= 0 and best is not None:
                break
            budget[0] -= 1
            col2 = dict(col)
            col2[b] = _dig(col[b] + '!')
            m = search(col2)
            k = [fkey(f) for f in m]
            if best is None or k < best[0]:
                best = (k, m)
        return best[1]
    return search(col)


# ---- powers, functions, lifting
def _vars_of(arg, internal_f):
    """external index variables of an argument (Poly or Ten or nested tuple)"""
    if isinstance(arg, Poly):
        return {k for k in arg.free() if not (internal_f and k[0] == 'f')}
    if isinstance(arg, Ten):
        s = set()
        for p in arg.cells.values():
            s |= {k for k in p.free() if k[0] != 'f'}
        for l in arg.shape:
            s |= set(l.vars())
        return s
    if isinstance(arg, Lin):
        return set(arg.vars())
    if isinstance(arg, tuple):
        s = set()
        for x in arg:
            s |= _vars_of(x, internal_f)
        return s
    return set()


def _arg_subst(arg, ren):
    if isinstance(arg, Poly):
        return subst(arg, ren)
    if isinstance(arg, Ten):
        if not ren:
            return arg
        return Ten(tuple(l.subst(ren) for l in arg.shape),
                   [[b.subst(ren) for b in br] for br in arg.breaks],
                   {k: subst(p, ren) for k, p in arg.cells.items()})
    if isinstance(arg, Lin):
        return arg.subst(ren)
    if isinstance(arg, tuple):
        return tuple(_arg_subst(x, ren) for x in arg)
    return arg


def lift(kind, name, args, sym=False):
    """closed atom for (kind,name,args): returns (atom, param index list)"""
    ext = set()
    for a in args:
        ext |= _vars_of(a, False if isinstance(a, Poly) else True)
    # parameters of an enclosing lift ('p') are external variables like others
    if kind == 'rec':
        ext = {k for k in ext if not (k[0] == 'T' and name.endswith('.%d' % k[1]))}
    ext = sorted(ext, key=keyrepr)
    if not ext:
        return Atom(kind, name, tuple(args), sym, 0), ()
    if len(ext) > 5:
        raise Imprecise('too many index variables')
    best = None
    perms = itertools.permutations(ext) if len(ext) <= 3 else [tuple(ext)]
    tmpn = {k: Lin(0, ((('l', 'lift%d' % i, None), 1),)) for i, k in enumerate(ext)}
    args_t = tuple(_arg_subst(a, tmpn) for a in args)
    for perm in perms:
        ren = {tmpn[k].t[0][0]: Lin(0, ((('p', i, None), 1),)) for i, k in enumerate(perm)}
        na = tuple(_arg_subst(a, ren) for a in args_t)
        kk = '|'.join(akey(a) for a in na)
        if best is None or kk < best[0]:
            best = (kk, na, perm)
    _, na, perm = best
    return Atom(kind, name, na, sym, len(perm)), tuple(Lin(0, ((k, 1),)) for k in perm)


def reinst(a, ix):
    """instantiate an atom's parameters and rebuild; returns the Poly of the
    factor with output indices ix[npar:]"""
    ren = {('p', i, None): l for i, l in enumerate(ix[:a.npar])}
    args = tuple(_arg_subst(x, ren) for x in a.args)
    out = ix[a.npar:]
    if a.kind == 'pw':
        return power_atom(args[0])
    if a.kind == 'ind':
        return ind(a.name, args[0])
    if a.kind == 'inv':
        return inv_entry(args[0], out)
    return app_entry(a.kind, a.name, args, out, a.sym)


def app_entry(kind, name, args, out, sym=False):
    at, ps = lift(kind, name, args, sym)
    return norm_mono(((at, ps + tuple(out), Fr(1)),), ())


def sym(name, idx=(), symmetric=False):
    return norm_mono(((Atom('sym', name, (), symmetric), tuple(lin(i) for i in idx), Fr(1)),), ())


def delta(l):
    return norm_mono(((DELTA, (l,), Fr(1)),), ())


def _iroot(n, k):
    if n < 0:
        return None
    r = int(round(n ** (1.0 / k)))
    for q in (r - 1, r, r + 1):
        if q >= 0 and q ** k == n:
            return q
    return None


def power_atom(p):
    """p as one factor of exponent 1 (used as base of powers)"""
    return power(p, Fr(1))


def power(p, e):
    e = Fr(e)
    if e == 1:
        return p
    if e == 0:
        return P1
    if not p.d:
        if e > 0:
            return P0
        raise Imprecise('division by zero')
    if p.is_const():
        c = p.const()
        if e.denominator == 1:
            return poly(c ** int(e))
        if c > 0:
            rn = _iroot(c.numerator, e.denominator)
            rd = _iroot(c.denominator, e.denominator)
            if rn is not None and rd is not None:
                return poly(Fr(rn, rd) ** e.numerator)
        return Poly({((Atom('pw', '', (p,), False, 0), (), e),): Fr(1)})
    if e.denominator == 1 and 0 < e <= 4 and len(p.d) <= 12:
        r = p
        for _ in range(int(e) - 1):
            r = r * p
        return r
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not _bvars(m):
            ok = True
            if e.denominator != 1:
                for a, ix, x in m:
                    if x.denominator == 1 and x % 2 == 0 and len(m) >= 1:
                        ok = False
                if c < 0:
                    ok = False
            if ok:
                r = power(poly(c), e)
                fs = tuple((a, ix, x * e) for a, ix, x in m)
                return norm_mono(fs, ()) * r
    # pull out rational content and common factors
    lead = min(p.d, key=lambda m: tuple(fkey(f) for f in m))
    c = p.d[lead]
    if e.denominator != 1:
        c = abs(c)
    common = None
    for m in p.d:
        bs = set(_bvars(m))
        here = {}
        for a, ix, x in m:
            if not any(k in bs for l in ix for k in l.vars()) and a.kind not in ('delta', 'ind'):
                here[(a, ix)] = x
        if common is None:
            common = here
        else:
            common = {k: min(v, here[k]) for k, v in common.items() if k in here and (v > 0) == (here[k] > 0)}
    out = P1
    if e.denominator == 1 and common:
        cf = norm_mono(tuple((a, ix, -x) for (a, ix), x in common.items()), ())
        p = p * cf
        out = norm_mono(tuple((a, ix, x * e) for (a, ix), x in common.items()), ())
        lead = min(p.d, key=lambda m: tuple(fkey(f) for f in m))
        c = p.d[lead]
    if c != 1:
        p = p.scale(1 / c)
        out = out * power(poly(c), e)
    if len(p.d) == 1 and not _bvars(next(iter(p.d))) and e.denominator == 1:
        return out * power(p, e)
    at, ps = lift('pw', '', (p,))
    return out * Poly({((at, ps, e),): Fr(1)})


def ind(op, p):
    """0/1 indicator of p < 0 ('<') or p == 0 ('=')"""
    if p.is_const():
        c = p.const()
        return P1 if (c < 0 if op == '<' else c == 0) else P0
    l = to_lin(p)
    if l is not None:
        if op == '=':
            if never_zero(l):
                return P0
            if l.vars():
                return delta(l)
        else:
            if nonneg(l):
                return P0
            if positive(-l):
                return P1
    lead = min(p.d, key=lambda m: tuple(fkey(f) for f in m))
    c = p.d[lead]
    p = p.scale(1 / (c if op == '=' else abs(c)))
    at, ps = lift('ind', op, (p,))
    return norm_mono(((at, ps, Fr(1)),), ())


def inv_entry(M, out):
    return inv_ten(M).at(out)


FLOOR_HOOK = None     # case split on integer parts (see specs/misc.py)


def apply1(name, p):
    """elementwise function of a scalar expression"""
    if name == 'sqrt':
        return power(p, Fr(1, 2))
    if name in ('floor', 'int') and FLOOR_HOOK is not None and not p.is_const():
        r = FLOOR_HOOK(p)
        if r is not None:
            return r
    if p.is_const():
        c = p.const()
        if name == 'exp' and c == 0:
            return P1
        if name == 'log' and c == 1:
            return P0
        if name in ('sin', 'tan', 'atan') and c == 0:
            return P0
        if name == 'cos' and c == 0:
            return P1
        if name == 'abs':
            return poly(abs(c))
        if name == 'floor':
            return poly(c.numerator // c.denominator)
    if name == 'abs':
        lead = min(p.d, key=lambda m: tuple(fkey(f) for f in m))
        if p.d[lead] < 0:
            p = -p
    if name == 'exp' and len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == 'app' and m[0][0].name == 'log' and m[0][2] == 1 and m[0][0].npar == 0:
            return m[0][0].args[0]
    if name == 'log' and len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == 'app' and m[0][0].name == 'exp' and m[0][2] == 1 and m[0][0].npar == 0:
            return m[0][0].args[0]
    return app_entry('app', name, (p,), ())


# --------------------------------------------------------------------- Ten
class Ten(object):
    """shape: tuple of Lin; breaks[a]: increasing Lin list from 0 to shape[a];
    cells[(k0,k1,..)]: Poly in local indices ('f',a,extent)"""
    __slots__ = ('shape', 'breaks', 'cells', '_k')

    def __init__(self, shape, breaks=None, cells=None):
        self.shape = tuple(shape)
        self.breaks = breaks if breaks is not None else [[ZERO, s] for s in self.shape]
        self.cells = cells
        self._k = None

    @property
    def key(self):
        if self._k is None:
            t = coalesce(self)
            self._k = _dig('x'.join(s.key for s in t.shape) + '/' +
                           '/'.join(','.join(b.key for b in br) for br in t.breaks) + '/' +
                           ';'.join('%s=%s' % (k, t.cells[k].key) for k in sorted(t.cells)))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Ten) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    @property
    def rank(self):
        return len(self.shape)

    def ext(self, a, k):
        return self.breaks[a][k + 1] - self.breaks[a][k]

    def cellids(self):
        return list(itertools.product(*[range(len(b) - 1) for b in self.breaks]))

    def locate(self, a, l):
        """(cell number, local index) of an index expression on axis a"""
        br = self.breaks[a]
        if len(br) == 2:
            return 0, l
        for k in range(len(br) - 1):
            if nonneg(l - br[k]) and nonneg(br[k + 1] - 1 - l):
                return k, l - br[k]
        SPLITS.append((l, br))
        raise Imprecise('index %r may fall in several blocks' % (l,))

    def at(self, idx):
        """entry at index expressions (Lin per axis)"""
        cid = []
        ren = {}
        for a, l in enumerate(idx):
            k, loc = self.locate(a, lin(l))
            cid.append(k)
            e = self.ext(a, k)
            if e != ONE:
                ren[('f', a, e)] = loc
        return subst_f(self.cells[tuple(cid)], ren)

    def entry(self):
        """a scalar's value"""
        if self.rank == 0:
            return self.cells[()]
        if all(s == ONE for s in self.shape):
            return self.at((ZERO,) * self.rank)
        raise Imprecise('not a scalar')

    def map(self, f):
        return Ten(self.shape, self.breaks, {k: f(p) for k, p in self.cells.items()})

    def __repr__(self):
        return show_ten(self)


def subst_f(p, ren):
    """substitute local variables given by ('f',axis,extent) -> Lin, via
    temporaries so that results mentioning f variables are not re-substituted"""
    return subst(p, ren)


def scalar(p):
    return Ten((), [], {(): poly(p)})


def sym_ten(name, shape, symmetric=False, lead=()):
    """array of unknown entries"""
    shape = tuple(lin(s) for s in shape)
    idx = tuple(lin(x) for x in lead) + tuple(fvar(a, s) for a, s in enumerate(shape))
    return Ten(shape, None, {(0,) * len(shape): sym(name, idx, symmetric)}) if shape else scalar(sym(name, idx))


def const_ten(shape, value=0):
    shape = tuple(lin(s) for s in shape)
    if not shape:
        return scalar(value)
    return Ten(shape, None, {(0,) * len(shape): poly(value)})


def eye_ten(n, m=None):
    n = lin(n)
    m = lin(m) if m is not None else n
    if n.is_const() and m.is_const() and n.c <= 8 and m.c <= 8:
        return grid_ten([[1 if i == j else 0 for j in range(int(m.c))] for i in range(int(n.c))])
    return Ten((n, m), None, {(0, 0): delta(fvar(0, n) - fvar(1, m))})


def grid_ten(rows):
    """concrete nested list of Poly-convertible entries"""
    if not isinstance(rows, (list, tuple)):
        return scalar(rows)
    if rows and isinstance(rows[0], (list, tuple)):
        n, m = len(rows), len(rows[0])
        return Ten((Lin(n), Lin(m)), [[Lin(i) for i in range(n + 1)], [Lin(i) for i in range(m + 1)]],
                   {(i, j): poly(rows[i][j]) for i in range(n) for j in range(m)})
    n = len(rows)
    return Ten((Lin(n),), [[Lin(i) for i in range(n + 1)]], {(i,): poly(rows[i]) for i in range(n)})


def merge_breaks(b1, b2):
    """common refinement of two break lists of the same size"""
    if b1 == b2:
        return list(b1)
    out = []
    i = j = 0
    while i < len(b1) and j < len(b2):
        c = cmp_lin(b1[i], b2[j])
        if c == 0:
            out.append(b1[i])
            i += 1
            j += 1
        elif c < 0:
            out.append(b1[i])
            i += 1
        else:
            out.append(b2[j])
            j += 1
    out += b1[i:] + b2[j:]
    return out


def refine(t, a, br):
    """re-block axis a with a refinement of its breaks"""
    if t.breaks[a] == br:
        return t
    old = t.breaks[a]
    cells = {}
    # map each new interval to an old one
    mp = []
    k = 0
    for q in range(len(br) - 1):
        while k + 1 < len(old) - 1 and cmp_lin(old[k + 1], br[q]) <= 0:
            k += 1
        mp.append(k)
    for cid, p in t.cells.items():
        for q, k in enumerate(mp):
            if cid[a] != k:
                continue
            e_old = old[k + 1] - old[k]
            e_new = br[q + 1] - br[q]
            off = br[q] - old[k]
            if e_old == ONE:
                np_ = p
            else:
                np_ = subst(p, {('f', a, e_old): fvar(a, e_new) + off})
            cells[cid[:a] + (q,) + cid[a + 1:]] = np_
    breaks = list(t.breaks)
    breaks[a] = br
    return Ten(t.shape, breaks, cells)


def coalesce(t):
    """merge adjacent blocks that are restrictions of one expression"""
    for a in range(t.rank):
        q = 0
        while q < len(t.breaks[a]) - 2:
            m = _try_merge(t, a, q)
            if m is None:
                q += 1
            else:
                t = m
    return t


def _try_merge(t, a, q):
    br = t.breaks[a]
    e1 = br[q + 1] - br[q]
    e2 = br[q + 2] - br[q + 1]
    e = e1 + e2
    new = {}
    others = [range(len(b) - 1) for x, b in enumerate(t.breaks) if x != a]
    for rest in itertools.product(*others):
        c1 = rest[:a] + (q,) + rest[a:]
        c2 = rest[:a] + (q + 1,) + rest[a:]
        p1, p2 = t.cells[c1], t.cells[c2]
        # candidate expression on the merged block
        cands = []
        if e1 != ONE:
            cands.append(subst(p1, {('f', a, e1): fvar(a, e)}))
        if e2 != ONE:
            cands.append(subst(p2, {('f', a, e2): fvar(a, e) - e1}))
        if e1 == ONE and e2 == ONE:
            if p1 == p2:
                cands.append(p1)
            else:
                g = _generalise(p1, p2, a, e)
                if g is not None:
                    cands.append(g)
        ok = None
        for g in cands:
            fv = ('f', a, e)
            try:
                r1 = subst(g, {fv: fvar(a, e1)})
                r2 = subst(g, {fv: fvar(a, e2) + e1})
            except Imprecise:
                continue
            if r1 == p1 and r2 == p2:
                ok = g
                break
        if ok is None:
            return None
        new[rest] = ok
    cells = {}
    for cid, p in t.cells.items():
        if cid[a] in (q, q + 1):
            continue
        k = cid[a] if cid[a] < q else cid[a] - 1
        cells[cid[:a] + (k,) + cid[a + 1:]] = p
    for rest, g in new.items():
        cells[rest[:a] + (q,) + rest[a:]] = g
    breaks = list(t.breaks)
    breaks[a] = br[:q + 1] + br[q + 2:]
    return Ten(t.shape, breaks, cells)


def _generalise(p1, p2, a, e):
    """find g(f) with g(0)=p1, g(1)=p2 for simple index shifts"""
    if len(p1.d) != 1 or len(p2.d) != 1:
        return None
    (m1, c1), = p1.d.items()
    (m2, c2), = p2.d.items()
    if c1 != c2 or len(m1) != len(m2):
        return None
    fs = []
    for (a1, i1, x1), (a2, i2, x2) in zip(m1, m2):
        if a1 is not a2 or x1 != x2 or a1.npar:
            return None
        ix = []
        for l1, l2 in zip(i1, i2):
            d = l2 - l1
            if d == ZERO:
                ix.append(l1)
            elif d.is_const():
                ix.append(l1 + fvar(a, e) * d.c)
            else:
                return None
        fs.append((a1, tuple(ix), x1))
    return norm_mono(tuple(fs), ())


def common(ts_axes):
    """refine several (tensor, axis) pairs to common breaks; returns list"""
    br = None
    for t, a in ts_axes:
        br = t.breaks[a] if br is None else merge_breaks(br, t.breaks[a])
    return br


def broadcast_shape(s1, s2):
    r = []
    n = max(len(s1), len(s2))
    p1 = (ONE,) * (n - len(s1)) + tuple(s1)
    p2 = (ONE,) * (n - len(s2)) + tuple(s2)
    for a, b in zip(p1, p2):
        if a == b:
            r.append(a)
        elif a == ONE:
            r.append(b)
        elif b == ONE:
            r.append(a)
        else:
            raise ShapeError('cannot broadcast shapes (%s) and (%s)' % (
                ', '.join(map(repr, s1)), ', '.join(map(repr, s2))))
    return tuple(r)


def expand_rank(t, n):
    k = n - t.rank
    if k == 0:
        return t
    cells = {}
    for cid, p in t.cells.items():
        ren = {('f', a, t.ext(a, c)): fvar(a + k, t.ext(a, c)) for a, c in enumerate(cid)}
        cells[(0,) * k + cid] = simsubst(p, ren)
    return Ten((ONE,) * k + t.shape, [[ZERO, ONE]] * k + t.breaks, cells)


_tmpc = itertools.count()


def simsubst(p, ren):
    """simultaneous substitution safe when targets mention source variables"""
    ren = {k: v for k, v in ren.items() if not (k[0] == 'f' and k[2] == ONE)}
    if not ren:
        return p
    srcs = set(ren)
    clash = any(k in srcs for v in ren.values() for k, _ in v.t)
    if not clash:
        return subst(p, ren)
    t1 = {}
    t2 = {}
    for k, v in ren.items():
        tv = ('l', 'ss%d' % next(_tmpc), k[2])
        t1[k] = Lin(0, ((tv, 1),))
        t2[tv] = v
    return subst(subst(p, t1), t2)


def elementwise(f, *ts):
    """apply f to entries of broadcast tensors"""
    shape = ts[0].shape
    for t in ts[1:]:
        shape = broadcast_shape(shape, t.shape)
    n = len(shape)
    ts = [expand_rank(t, n) for t in ts]
    breaks = []
    for a in range(n):
        br = [ZERO, shape[a]]
        for t in ts:
            if t.shape[a] == shape[a]:
                br = merge_breaks(br, t.breaks[a])
        breaks.append(br)
    rts = []
    for t in ts:
        for a in range(n):
            if t.shape[a] == shape[a]:
                t = refine(t, a, breaks[a])
        rts.append(t)
    cells = {}
    for cid in itertools.product(*[range(len(b) - 1) for b in breaks]):
        vals = []
        for t in rts:
            c = tuple(cid[a] if t.shape[a] == shape[a] else 0 for a in range(n))
            vals.append(t.cells[c])
        cells[cid] = f(*vals)
    return Ten(shape, breaks, cells)


def add(a, b):
    return elementwise(lambda x, y: x + y, a, b)


def sub(a, b):
    return elementwise(lambda x, y: x - y, a, b)


def mul(a, b):
    return elementwise(lambda x, y: x * y, a, b)


def div(a, b):
    return elementwise(lambda x, y: x / y, a, b)


def neg(a):
    return a.map(lambda x: -x)


def scale(a, c):
    return a.map(lambda x: x * poly(c))


def transpose(t, perm=None):
    if perm is None:
        perm = tuple(reversed(range(t.rank)))
    inv_ = {old: new for new, old in enumerate(perm)}
    cells = {}
    for cid, p in t.cells.items():
        ren = {}
        for a, c in enumerate(cid):
            e = t.ext(a, c)
            ren[('f', a, e)] = fvar(inv_[a], e)
        cells[tuple(cid[o] for o in perm)] = simsubst(p, ren)
    return Ten(tuple(t.shape[o] for o in perm), [t.breaks[o] for o in perm], cells)


def einsum(subs, out, *ts):
    """subs: list of index-name strings, out: output names"""
    size = {}
    brk = {}
    for s, t in zip(subs, ts):
        if len(s) != t.rank:
            raise ShapeError('operand has %d dimensions, %d expected' % (t.rank, len(s)))
        for a, ch in enumerate(s):
            if ch in size:
                if size[ch] != t.shape[a]:
                    raise ShapeError('dimension mismatch: %r against %r' % (size[ch], t.shape[a]))
                brk[ch] = merge_breaks(brk[ch], t.breaks[a])
            else:
                size[ch] = t.shape[a]
                brk[ch] = t.breaks[a]
    rts = []
    for s, t in zip(subs, ts):
        for a, ch in enumerate(s):
            t = refine(t, a, brk[ch])
        rts.append(t)
    summed = [ch for ch in size if ch not in out]
    cells = {}
    for cid in itertools.product(*[range(len(brk[ch]) - 1) for ch in out]):
        pos = dict(zip(out, cid))
        tot = P0
        for sid in itertools.product(*[range(len(brk[ch]) - 1) for ch in summed]):
            pos.update(zip(summed, sid))
            lv = {}
            sv = []
            for ch in size:
                e = brk[ch][pos[ch] + 1] - brk[ch][pos[ch]]
                if e == ONE:
                    lv[ch] = ZERO
                elif ch in pos and ch in out:
                    lv[ch] = fvar(out.index(ch), e)
                else:
                    v = ('l', 'es%d' % next(_tmpc), e)
                    lv[ch] = Lin(0, ((v, 1),))
                    sv.append(v)
            prod = P1
            for s, t in zip(subs, rts):
                p = t.cells[tuple(pos[ch] for ch in s)]
                ren = {('f', a, t.ext(a, pos[ch])): lv[ch] for a, ch in enumerate(s)}
                prod = prod * simsubst(p, ren)
                if not prod.d:
                    break
            if not prod.d:
                continue
            for v in sv:
                prod = sum_var(prod, v)
            tot = tot + prod
        cells[cid] = tot
    return Ten(tuple(size[ch] for ch in out), [brk[ch] for ch in out], cells)


def dot(a, b):
    if a.rank == 0 or b.rank == 0:
        return mul(a, b)
    try:
        if a.rank == 1 and b.rank == 1:
            return einsum(['i', 'i'], '', a, b)
        if a.rank == 2 and b.rank == 1:
            return einsum(['ij', 'j'], 'i', a, b)
        if a.rank == 1 and b.rank == 2:
            return einsum(['i', 'ij'], 'j', a, b)
        if a.rank == 2 and b.rank == 2:
            return einsum(['ij', 'jk'], 'ik', a, b)
        if a.rank == 2 and b.rank == 3:
            return einsum(['ij', 'kjl'], 'ikl', a, b)
        if a.rank == 3 and b.rank == 2:
            return einsum(['kij', 'jl'], 'kil', a, b)
        if a.rank == 3 and b.rank == 1:
            return einsum(['kij', 'j'], 'ki', a, b)
    except ShapeError:
        raise ShapeError('product of shapes (%s) and (%s)' % (', '.join(map(repr, a.shape)), ', '.join(map(repr, b.shape))))
    raise Imprecise('dot of ranks %d, %d' % (a.rank, b.rank))


def reduce_sum(t, axis=None):
    names = 'ijklmn'[:t.rank]
    if axis is None:
        return einsum([names], '', t)
    if axis < 0:
        axis += t.rank
    return einsum([names], names[:axis] + names[axis + 1:], t)


def flatten(t):
    """1-d copy when at most one axis is longer than one"""
    big = [a for a, s in enumerate(t.shape) if s != ONE]
    if len(big) == 0:
        return Ten((ONE,), [[ZERO, ONE]], {(0,): t.at((ZERO,) * t.rank)})
    if len(big) == 1:
        return drop_axes(t, [a for a in range(t.rank) if a not in big])
    raise Imprecise('flattening a matrix of symbolic size')


def drop_axes(t, axes):
    keep = [a for a in range(t.rank) if a not in axes]
    cells = {}
    for cid, p in t.cells.items():
        ren = {('f', a, t.ext(a, cid[a])): fvar(n, t.ext(a, cid[a])) for n, a in enumerate(keep)}
        cells[tuple(cid[a] for a in keep)] = simsubst(p, ren)
    return Ten(tuple(t.shape[a] for a in keep), [t.breaks[a] for a in keep], cells)


def insert_axis(t, pos):
    cells = {}
    for cid, p in t.cells.items():
        ren = {('f', a, t.ext(a, c)): fvar(a + 1, t.ext(a, c)) for a, c in enumerate(cid) if a >= pos}
        cells[cid[:pos] + (0,) + cid[pos:]] = simsubst(p, ren)
    return Ten(t.shape[:pos] + (ONE,) + t.shape[pos:], t.breaks[:pos] + [[ZERO, ONE]] + t.breaks[pos:], cells)


def reshape(t, shape):
    if tuple(shape) == t.shape:
        return t
    a = [s for s in t.shape if s != ONE]
    b = [s for s in shape if s != ONE]
    if a == b:
        r = drop_axes(t, [i for i, s in enumerate(t.shape) if s == ONE])
        for i, s in enumerate(shape):
            if s == ONE:
                r = insert_axis(r, i)
        return r
    tot = None
    if all(s.is_const() for s in list(t.shape) + list(shape)):
        n = 1
        for s in t.shape:
            n *= s.c
        m = 1
        for s in shape:
            m *= s.c
        if n != m:
            raise ShapeError('cannot reshape size %d into %d' % (n, m))
        flat = [t.at(tuple(Lin(i) for i in ix)) for ix in itertools.product(*[range(int(s.c)) for s in t.shape])]
        br = [[Lin(i) for i in range(int(s.c) + 1)] for s in shape]
        cells = {}
        for p, ix in zip(flat, itertools.product(*[range(int(s.c)) for s in shape])):
            cells[ix] = p
        return Ten(tuple(shape), br, cells)
    if len(a) == 1 and len(b) == 1 and a != b or (len(a) != len(b) and min(len(a), len(b)) <= 1 and max(len(a), len(b)) == 1):
        raise ShapeError('cannot reshape (%s) into (%s)' % (', '.join(map(repr, t.shape)), ', '.join(map(repr, shape))))
    raise Imprecise('reshape')


def index_axis(t, axis, l):
    """select one position along an axis"""
    l = lin(l)
    k, loc = t.locate(axis, l)
    e = t.ext(axis, k)
    keep = [a for a in range(t.rank) if a != axis]
    cells = {}
    for cid, p in t.cells.items():
        if cid[axis] != k:
            continue
        ren = {('f', a, t.ext(a, cid[a])): fvar(n, t.ext(a, cid[a])) for n, a in enumerate(keep)}
        if e != ONE:
            ren[('f', axis, e)] = loc
        cells[tuple(cid[a] for a in keep)] = simsubst(p, ren)
    return Ten(tuple(t.shape[a] for a in keep), [t.breaks[a] for a in keep], cells)


def slice_axis(t, axis, lo, hi):
    """t[lo:hi] along axis"""
    lo, hi = lin(lo), lin(hi)
    if lo == ZERO and hi == t.shape[axis]:
        return t
    br = merge_breaks(t.breaks[axis], sorted_breaks([ZERO, lo, hi, t.shape[axis]]))
    t = refine(t, axis, br)
    a0 = br.index(lo)
    a1 = br.index(hi)
    breaks = list(t.breaks)
    breaks[axis] = [b - lo for b in br[a0:a1 + 1]]
    cells = {}
    for cid, p in t.cells.items():
        if a0 <= cid[axis] < a1:
            cells[cid[:axis] + (cid[axis] - a0,) + cid[axis + 1:]] = p
    return Ten(t.shape[:axis] + (hi - lo,) + t.shape[axis + 1:], breaks, cells)


def reverse_axis(t, axis):
    n = t.shape[axis]
    br = [n - b for b in reversed(t.breaks[axis])]
    K = len(br) - 1
    cells = {}
    for cid, p in t.cells.items():
        e = t.ext(axis, cid[axis])
        q = simsubst(p, {('f', axis, e): e - 1 - fvar(axis, e)}) if e != ONE else p
        cells[cid[:axis] + (K - 1 - cid[axis],) + cid[axis + 1:]] = q
    breaks = list(t.breaks)
    breaks[axis] = br
    return Ten(t.shape, breaks, cells)


def sorted_breaks(bs):
    out = []
    for b in bs:
        done = False
        for i, o in enumerate(out):
            c = cmp_lin(b, o)
            if c == 0:
                done = True
                break
            if c < 0:
                out.insert(i, b)
                done = True
                break
        if not done:
            out.append(b)
    return out


def assign_region(t, ranges, v):
    """copy of t with t[lo0:hi0, lo1:hi1, ..] = v (v broadcast to the region)"""
    rshape = tuple(hi - lo for lo, hi in ranges)
    if v.rank > len(rshape):
        lead = v.shape[:v.rank - len(rshape)]
        if all(s == ONE for s in lead):
            v = drop_axes(v, list(range(len(lead))))
        else:
            raise ShapeError('cannot store shape (%s) into (%s)' % (', '.join(map(repr, v.shape)), ', '.join(map(repr, rshape))))
    if broadcast_shape(rshape, v.shape) != rshape:
        raise ShapeError('cannot store shape (%s) into (%s)' % (', '.join(map(repr, v.shape)), ', '.join(map(repr, rshape))))
    if any(d == ZERO for d in rshape):
        return t
    v = elementwise(lambda a, b: b, const_ten(rshape, 0), v)
    for a, (lo, hi) in enumerate(ranges):
        br = merge_breaks(t.breaks[a], sorted_breaks([ZERO, lo, hi, t.shape[a]]))
        br = merge_breaks(br, sorted_breaks([ZERO] + [b + lo for b in v.breaks[a]] + [t.shape[a]]))
        t = refine(t, a, br)
        vb = [b - lo for b in br[br.index(lo):br.index(hi) + 1]]
        v = refine(v, a, vb)
    off = [t.breaks[a].index(lo) for a, (lo, hi) in enumerate(ranges)]
    cells = dict(t.cells)
    for cid, p in v.cells.items():
        cells[tuple(c + o for c, o in zip(cid, off))] = p
    return Ten(t.shape, t.breaks, cells)


def blocks(rows):
    """block matrix from nested list of 2-d tensors"""
    rowts = []
    for r in rows:
        rowts.append(concat(r, 1))
    return concat(rowts, 0)


def concat(ts, axis):
    r = ts[0]
    if len(ts) == 1:
        return r
    tot = ZERO
    n = r.rank
    for t in ts:
        if t.rank != n:
            raise ShapeError('concatenating ranks %d and %d' % (n, t.rank))
        for a in range(n):
            if a != axis and t.shape[a] != r.shape[a]:
                raise ShapeError('concatenating shapes (%s) and (%s)' % (', '.join(map(repr, r.shape)), ', '.join(map(repr, t.shape))))
    for a in range(n):
        if a == axis:
            continue
        br = common([(t, a) for t in ts])
        ts = [refine(t, a, br) for t in ts]
    brk = [ZERO]
    cells = {}
    off = 0
    for t in ts:
        for cid, p in t.cells.items():
            cells[cid[:axis] + (cid[axis] + off,) + cid[axis + 1:]] = p
        off += len(t.breaks[axis]) - 1
        brk += [b + tot for b in t.breaks[axis][1:]]
        tot = tot + t.shape[axis]
    breaks = list(ts[0].breaks)
    breaks[axis] = brk
    shape = list(ts[0].shape)
    shape[axis] = tot
    return Ten(tuple(shape), breaks, cells)


def outer(a, b):
    return einsum(['i', 'j'], 'ij', flatten(a), flatten(b))


def diag(t):
    """np.diag"""
    if t.rank == 1:
        n = t.shape[0]
        br = t.breaks[0]
        cells = {}
        for i in range(len(br) - 1):
            for j in range(len(br) - 1):
                if i != j:
                    cells[(i, j)] = P0
                else:
                    e = t.ext(0, i)
                    cells[(i, j)] = t.cells[(i,)] * delta(fvar(0, e) - fvar(1, e)) if e != ONE else t.cells[(i,)]
        return Ten((n, n), [br, br], cells)
    if t.rank == 2:
        if t.shape[0] != t.shape[1]:
            raise Imprecise('diag of non square')
        br = merge_breaks(t.breaks[0], t.breaks[1])
        t = refine(refine(t, 0, br), 1, br)
        cells = {}
        for i in range(len(br) - 1):
            e = br[i + 1] - br[i]
            cells[(i,)] = simsubst(t.cells[(i, i)], {('f', 1, e): fvar(0, e)})
        return Ten((t.shape[0],), [br], cells)
    raise Imprecise('diag')


def trace(t):
    return einsum(['i'], '', diag(t))


def is_symmetric(t):
    if t.rank != 2 or t.shape[0] != t.shape[1]:
        return False
    return ten_equal(t, transpose(t))


def _diag_form(p, e0, e1):
    """if p = d_i * delta(i-j) (e0==e1), the Poly d in f0, else None"""
    if e0 != e1 or e0 == ONE:
        return None
    l0 = fvar(0, e0) - fvar(1, e1)
    l0 = l0 if l0.t[0][1] > 0 else -l0
    d = {}
    for m, c in p.d.items():
        hit = [f for f in m if f[0] is DELTA and f[1][0] == l0]
        if not hit:
            return None
        rest = tuple(f for f in m if not (f[0] is DELTA and f[1][0] == l0))
        _acc(d, norm_mono(rest, ()), c)
    r = Poly(d)
    r = subst(r, {('f', 1, e1): fvar(0, e0)})
    return r


def inv_ten(t):
    """matrix inverse"""
    if t.rank != 2:
        raise ShapeError('inverse of an array with %d dimensions' % t.rank)
    if t.shape[0] != t.shape[1]:
        raise ShapeError('inverse of a %r x %r matrix' % t.shape)
    if t.shape[0] == ONE:
        return Ten(t.shape, [[ZERO, ONE], [ZERO, ONE]], {(0, 0): power(t.at((ZERO, ZERO)), -1)})
    t = strong_ten(t)
    t = coalesce(t)
    if t.breaks[0] == t.breaks[1] and len(t.breaks[0]) > 2:
        # block diagonal
        K = len(t.breaks[0]) - 1
        if all(not t.cells[(i, j)].d for i in range(K) for j in range(K) if i != j):
            cells = {}
            for i in range(K):
                for j in range(K):
                    if i != j:
                        cells[(i, j)] = P0
                e = t.ext(0, i)
                sub_ = Ten((e, e), [[ZERO, e], [ZERO, e]], {(0, 0): t.cells[(i, i)]})
                cells[(i, i)] = inv_ten(sub_).cells[(0, 0)]
            return Ten(t.shape, t.breaks, cells)
    if len(t.cells) == 1:
        p = t.cells[(0, 0)]
        d = _diag_form(p, t.shape[0], t.shape[1])
        if d is not None:
            n = t.shape[0]
            return Ten(t.shape, None, {(0, 0): power(d, -1) * delta(fvar(0, n) - fvar(1, n))})
        # rational / scalar content
        if len(p.d) == 1:
            (m, c), = p.d.items()
            scal = [f for f in m if not any(k[0] in 'fb' for l in f[1] for k in l.vars())]
            mat = tuple(f for f in m if f not in scal)
            if scal or c != 1:
                base = Ten(t.shape, t.breaks, {(0, 0): Poly({mat: Fr(1)})})
                sc = power(Poly({tuple(scal): c}), -1)
                return inv_ten(base).map(lambda q: q * sc)
            if len(mat) == 1 and mat[0][0].kind == 'inv' and mat[0][2] == 1:
                a, ix, e = mat[0]
                # inverse of an inverse
                ren = {('p', i, None): l for i, l in enumerate(ix[:a.npar])}
                arg = _arg_subst(a.args[0], ren)
                i0, i1 = ix[a.npar].pure_var(), ix[a.npar + 1].pure_var()
                if i0 == ('f', 0, t.shape[0]) and i1 == ('f', 1, t.shape[1]):
                    return arg
                if i0 == ('f', 1, t.shape[1]) and i1 == ('f', 0, t.shape[0]):
                    return transpose(arg)
        else:
            # normalise overall rational content by the leading coefficient
            lead = min(p.d, key=lambda m: tuple(fkey(f) for f in m))
            c = p.d[lead]
            if c < 0 and all(v < 0 for v in p.d.values()):
                return inv_ten(neg(t)).map(lambda q: -q)
    symm = is_symmetric(t)
    flip = False
    if not symm:
        tt = transpose(t)
        if tt.key < t.key:
            t, flip = tt, True
    at, ps = lift('inv', '', (t,), symm)
    n = t.shape[0]
    i, j = fvar(0, n), fvar(1, n)
    if flip:
        i, j = j, i
    return Ten((n, n), None, {(0, 0): norm_mono(((at, ps + (i, j), Fr(1)),), ())})


# ---- strong normal form (cancels matrices against their inverses)
def _lead_term(Q):
    """(coef, scalar factors, matrix atom or None, swapped?) of the monomial of Q
    used as rewriting head; Q: Ten single cell"""
    if len(Q.cells) != 1:
        return None
    n = Q.shape[0]
    f0, f1 = ('f', 0, n), ('f', 1, n)
    p = Q.cells[(0, 0)]
    best = None
    for m, c in p.d.items():
        if _bvars(m):
            continue
        mats = []
        scal = []
        for f in m:
            vs = {k for l in f[1] for k in l.vars()}
            if f0 in vs or f1 in vs:
                mats.append(f)
            else:
                scal.append(f)
        if len(mats) != 1:
            continue
        a, ix, e = mats[0]
        if e != 1:
            continue
        if a is DELTA:
            if not scal or len(p.d) == 1:
                continue
            kind = 1
        else:
            vs = [ix[-2].pure_var(), ix[-1].pure_var()] if len(ix) >= 2 else []
            if vs not in ([f0, f1], [f1, f0]):
                continue
            if any(k in (f0, f1) for l in ix[:-2] for k in l.vars()):
                continue
            kind = 0
        kk = (kind, fkeyset(m), [fkey(f) for f in m])
        if best is None or kk < best[0]:
            best = (kk, c, tuple(scal), mats[0], m)
    return best


_leadcache = {}


def strong(p, limit=300):
    """rewrite A inv(A+B) -> I - B inv(A+B) until no redex is left"""
    for _ in range(limit):
        hit = None
        for m, c in p.d.items():
            for i, (a, ix, e) in enumerate(m):
                if a.kind != 'inv' or e != 1:
                    continue
                r = _redex(m, i)
                if r is not None:
                    hit = (m, c, r)
                    break
            if hit:
                break
        if not hit:
            return p
        m, c, r = hit
        d = dict(p.d)
        del d[m]
        p = Poly(d) + r.scale(c)
        if len(p.d) > MAX_MONOS:
            raise Imprecise('expression too large')
    raise Imprecise('rewriting does not terminate')


def _redex(m, i):
    a, ix, e = m[i]
    Q = a.args[0]
    lt = _leadcache.get(a)
    if lt is None:
        lt = _lead_term(Q) or False
        _leadcache[a] = lt
    if lt is False:
        return None
    _, c, scal, mat, lm = lt
    pren = {('p', q, None): l for q, l in enumerate(ix[:a.npar])}
    n = Q.shape[0]
    f0, f1 = ('f', 0, n), ('f', 1, n)
    rest = list(m[:i] + m[i + 1:])
    # scalar factors must be present
    for (sa, six, se) in scal:
        six = tuple(l.subst(pren) for l in six)
        ok = False
        for q, (ra, rix, re) in enumerate(rest):
            if ra is sa and rix == six and ((re >= se > 0) or (re <= se < 0)):
                if re == se:
                    rest.pop(q)
                else:
                    rest[q] = (ra, rix, re - se)
                ok = True
                break
        if not ok:
            return None
    u, v = ix[a.npar], ix[a.npar + 1]          # inv(Q)[u,v]
    remQ = Poly({mm: cc for mm, cc in Q.cells[(0, 0)].d.items() if mm != lm})
    if mat[0] is DELTA:
        return _rewrite(rest, a, ix, c, remQ, pren, f0, f1, u, None, v, left=False)
    mix = tuple(l.subst(pren) for l in mat[1][:-2])
    swapped = mat[1][-2].pure_var() == f1
    for q, (ra, rix, re) in enumerate(rest):
        if ra is not mat[0] or re != 1 or rix[:-2] != mix:
            continue
        r0, r1 = rix[-2], rix[-1]
        opts = [(r0, r1)] if not ra.sym else [(r0, r1), (r1, r0)]
        for o0, o1 in opts:
            # Q[x,y] corresponds to G[x,y] or G[y,x]
            x, y = (o0, o1) if not swapped else (o1, o0)
            uvs = [(u, v)] if not a.sym else [(u, v), (v, u)]
            for uu, vv in uvs:
                others = [f for qq, f in enumerate(rest) if qq != q]
                # inv[uu,vv] Q[x,y] with vv == x bound
                b = vv.pure_var()
                if b is not None and b[0] == 'b' and x == vv and not _occurs(b, others) and b not in y.vars() and b not in uu.vars() and b[2] == n:
                    return _rewrite(others, a, ix, c, remQ, pren, f0, f1, uu, y, b, left=False)
                b = uu.pure_var()
                if b is not None and b[0] == 'b' and y == uu and not _occurs(b, others) and b not in x.vars() and b not in vv.vars() and b[2] == n:
                    return _rewrite(others, a, ix, c, remQ, pren, f0, f1, x, vv, b, left=True)
    return None


def _occurs(b, fs):
    return any(b == k for f in fs for l in f[1] for k, _ in l.t)


def _rewrite(rest, a, ix, c, remQ, pren, f0, f1, i, j, b, left):
    """rest * (1/c) * (delta_ij - sum_b inv[i,b] rem[b,j])   (right form)
       or     (1/c) * (delta_ij - sum_b rem[i,b] inv[b,j])   (left form)"""
    n = f0[2]
    if j is None:       # delta head: s*inv[i,v]
        j = b
        b = None
    used = []
    for f in list(rest):
        used += [k for l in f[1] for k in l.vars() if k[0] == 'b']
    used += [k for l in (i, j) + tuple(ix[:a.npar]) for k in l.vars() if k[0] == 'b']
    used = list(dict.fromkeys(used))
    tmp = {k: Lin(0, ((('l', 't%d' % next(_bc), k[2]), 1),)) for k in used}
    R = norm_mono(tuple((x, tuple(l.subst(tmp) for l in y), z) for x, y, z in rest), ())
    I, J = i.subst(tmp), j.subst(tmp)
    ps = tuple(l.subst(tmp) for l in ix[:a.npar])
    pr = {k: l.subst(tmp) for k, l in pren.items()}
    s = ('l', 't%d' % next(_bc), n)
    S = Lin(0, ((s, 1),))
    rem = subst(remQ, pr)
    if left:
        t = simsubst(rem, {f0: I, f1: S}) * norm_mono(((a, ps + (S, J), Fr(1)),), ())
    else:
        t = norm_mono(((a, ps + (I, S), Fr(1)),), ()) * simsubst(rem, {f0: S, f1: J})
    res = R * (delta(I - J) - sum_var(t, s))
    for k in used:
        res = sum_var(res, tmp[k].pure_var())
    return res.scale(1 / c)


def strong_ten(t):
    return t.map(strong)


def _clear_denoms(p):
    """multiply by scalar denominators (no bound variables involved)"""
    for _ in range(8):
        den = {}
        for m in p.d:
            bs = set(_bvars(m))
            for a, ix, e in m:
                if e < 0 and a.kind == 'pw' and not any(k in bs for l in ix for k in l.vars()):
                    den[(a, ix)] = min(den.get((a, ix), 0), e)
        if not den:
            return p
        (a, ix), e = sorted(den.items(), key=lambda kv: (kv[0][0].key, [l.key for l in kv[0][1]]))[0]
        out = {}
        for m, c in p.d.items():
            _acc(out, norm_mono(m + ((a, ix, -e),), ()), c)
            if len(out) > MAX_MONOS:
                raise Imprecise('expression too large')
        p = Poly(out)
    return p


def is_zero(p):
    if not p.d:
        return True
    p = strong(p)
    if not p.d:
        return True
    p = _clear_denoms(p)
    if not p.d:
        return True
    p = strong(p)
    return not p.d


def ten_diff(a, b):
    """list of (cell description, difference Poly) where tensors differ; raises
    ShapeError if shapes differ"""
    if a.shape != b.shape:
        raise ShapeError('shape (%s), expected (%s)' % (', '.join(map(repr, a.shape)), ', '.join(map(repr, b.shape))))
    d = sub(a, b)
    return [(cid, p) for cid, p in sorted(d.cells.items()) if not is_zero(p)]


def ten_equal(a, b):
    try:
        return not ten_diff(a, b)
    except ShapeError:
        return False


# ----------------------------------------------------------------- printing
def show_lin(l):
    return repr(l)


def show_factor(f, depth=0):
    a, ix, e = f
    if a.kind == 'delta':
        s = '[%r=0]' % (ix[0],)
    elif a.kind == 'iota':
        s = repr(ix[0])
    elif a.kind == 'pw':
        s = '(%s)' % show(a.args[0], depth + 1)
    elif a.kind == 'inv':
        s = 'inv(%s)' % show_arg(a.args[0], depth + 1)
        s += '[%s]' % ','.join(map(repr, ix))
    elif a.kind == 'ind':
        s = '[%s %s 0]' % (show(a.args[0], depth + 1), a.name)
    elif a.kind in ('app', 'rec'):
        s = '%s(%s)' % (a.name, ', '.join(show_arg(x, depth + 1) for x in a.args))
        if ix:
            s += '[%s]' % ','.join(map(repr, ix))
    else:
        s = a.name
        if ix:
            s += '[%s]' % ','.join(map(repr, ix))
    if e != 1:
        s += '^%s' % e
    return s


def show_arg(x, depth=0):
    if depth > 2:
        return '..'
    if isinstance(x, Poly):
        return show(x, depth)
    if isinstance(x, Ten):
        return show_ten(x, depth)
    if isinstance(x, tuple):
        return '(' + ', '.join(show_arg(y, depth + 1) for y in x) + ')'
    return str(x)


def show(p, depth=0, limit=8):
    if not p.d:
        return '0'
    parts = []
    for m, c in sorted(p.d.items(), key=lambda mc: tuple(fkey(f) for f in mc[0]))[:limit]:
        fs = '*'.join(show_factor(f, depth) for f in m)
        if c == 1 and fs:
            parts.append(fs)
        elif c == -1 and fs:
            parts.append('-' + fs)
        else:
            parts.append(str(c) + ('*' + fs if fs else ''))
    r = ' + '.join(parts).replace('+ -', '- ')
    if len(p.d) > limit:
        r += ' + ...(%d terms)' % len(p.d)
    return r


def show_ten(t, depth=0):
    if t.rank == 0:
        return show(t.cells[()], depth)
    if len(t.cells) == 1:
        return '{%s}' % show(next(iter(t.cells.values())), depth)
    return '{' + '; '.join('%s: %s' % (list(k), show(p, depth + 1, 4)) for k, p in sorted(t.cells.items())[:6]) + '}'


_init_atoms()
