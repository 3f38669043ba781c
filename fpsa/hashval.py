"""Algebraic hashing of terms (random interpretation, Gulwani & Necula).

Two terms whose normal forms differ may still denote the same function.  Each
term is mapped to a number by a fixed random interpretation of its symbols
(sizes -> small integers, matrices -> random matrices, symmetric symbols ->
random positive definite matrices, opaque functions -> random smooth
functions).  Equal functions have equal hashes, so a difference is reported
only when the hashes differ; no program code is executed.
"""
import hashlib
import itertools
import math
from . import algebra as A
from .algebra import Poly, Ten, Lin, Atom, Fr


class Unfit(Exception):
    """the interpretation is outside the domain of some operation"""


class NoRoot(Unfit):
    """even root of a negative number"""


SPECIAL = {'pi': math.pi, 'e': math.e, 'float_min': 2.2250738585072014e-308,
           'float_max': 1.7976931348623157e308, 'float_eps': 2.220446049250313e-16}


class Hasher(object):
    def __init__(self, seed=1, dims=None, pos=()):
        self.seed = seed
        self.dims = dict(dims or {})
        self.memo = {}
        self.ops = 0
        self.pos = set(pos)        # symbols that stand for positive numbers

    def rnd(self, *k):
        d = hashlib.md5(('%d|' % self.seed + repr(k)).encode()).digest()
        return int.from_bytes(d[:7], 'big') / float(1 << 56)

    def dim(self, name):
        if name not in self.dims:
            lo = A.DIM_LO.get(name, 2)
            self.dims[name] = lo + int(self.rnd('dim', name) * 3) if lo < 2 else lo + int(self.rnd('dim', name) * 2)
        return self.dims[name]

    def lin(self, l, env):
        v = l.c
        for k, c in l.t:
            if k[0] == 'd':
                v += c * self.dim(k[1])
            else:
                if k not in env:
                    raise Unfit('unbound index %s' % (k,))
                v += c * env[k]
        return v

    def tick(self, n=1):
        self.ops += n
        if self.ops > 6000000:
            raise Unfit('budget')

    # ------------------------------------------------------------ polynomials
    def poly(self, p, env):
        tot = 0.0
        for m, c in p.d.items():
            tot += float(c) * self.mono(m, env)
        return tot

    def mono(self, m, env):
        if not m:
            return 1.0
        bs = A._bvars(m)
        if not bs:
            r = 1.0
            late = None
            for a, ix, e in m:
                try:
                    r *= self.factor(a, ix, e, env)
                except NoRoot as x:
                    late = x        # irrelevant where another factor (a guard) is zero
                if r == 0.0:
                    return 0.0
            if late is not None:
                raise late
            return r
        # tables over bound variables, eliminated one at a time
        rng = {b: self.lin(b[2], env) for b in bs}
        tabs = []
        sc = 1.0
        for a, ix, e in m:
            vs = []
            for l in ix:
                for k, _ in l.t:
                    if k in rng and k not in vs:
                        vs.append(k)
            if not vs:
                sc *= self.factor(a, ix, e, env)
                continue
            t = {}
            for vals in itertools.product(*[range(rng[v]) for v in vs]):
                env2 = dict(env)
                env2.update(zip(vs, vals))
                t[vals] = self.factor(a, ix, e, env2)
            self.tick(len(t))
            tabs.append((vs, t))
        if sc == 0.0:
            return 0.0
        left = list(bs)
        while left:
            # cheapest variable first
            def cost(b):
                s = set()
                for vs, t in tabs:
                    if b in vs:
                        s.update(vs)
                return len(s)
            b = min(left, key=cost)
            left.remove(b)
            hit = [x for x in tabs if b in x[0]]
            tabs = [x for x in tabs if b not in x[0]]
            if not hit:
                sc *= rng[b]
                continue
            vs = []
            for x in hit:
                for v in x[0]:
                    if v not in vs and v != b:
                        vs.append(v)
            out = {}
            for vals in itertools.product(*[range(rng[v]) for v in vs]):
                loc = dict(zip(vs, vals))
                s = 0.0
                for bv in range(rng[b]):
                    loc[b] = bv
                    r = 1.0
                    for hv, t in hit:
                        r *= t[tuple(loc[v] for v in hv)]
                        if r == 0.0:
                            break
                    s += r
                out[vals] = s
            self.tick(len(out) * max(1, rng[b]))
            if not vs:
                sc *= out[()]
            else:
                tabs.append((vs, out))
        for vs, t in tabs:
            sc *= t[()]
        return sc

    def factor(self, a, ix, e, env):
        v = self.atom(a, tuple(self.lin(l, env) for l in ix), env)
        if e == 1:
            return v
        if e.denominator == 1:
            if v == 0.0 and e < 0:
                raise Unfit('division by zero')
            try:
                return v ** int(e)
            except OverflowError:
                raise Unfit('overflow')
        if v < 0:
            if v > -1e-12:
                v = 0.0
            else:
                raise NoRoot('root of a negative number')
        if v == 0.0 and e < 0:
            raise Unfit('division by zero')
        return v ** float(e)

    # ------------------------------------------------------------------ atoms
    def atom(self, a, ix, env):
        k = a.kind
        if k == 'dim':
            return float(self.dim(a.name))
        if k == 'iota':
            return float(ix[0])
        if k == 'delta':
            return 1.0 if ix[0] == 0 else 0.0
        key = (a.key, ix)
        r = self.memo.get(key)
        if r is None:
            self.tick()
            r = self.atom_(a, ix)
            if r != r or r in (float('inf'), float('-inf')):
                raise Unfit('overflow')
            self.memo[key] = r
        return r

    def symv(self, name, ix, sym):
        if name in SPECIAL:
            return SPECIAL[name]
        if not ix:
            return 0.4 + 1.1 * self.rnd(name)
        if sym and len(ix) >= 2:
            i, j = sorted(ix[-2:])
            if i == j:
                return 1.5 + self.rnd(name, ix[:-2], i, j)
            return 0.6 * (self.rnd(name, ix[:-2], i, j) - 0.5)
        if name in self.pos or name.startswith('+'):
            return 0.3 + self.rnd(name, ix)
        return 2.0 * self.rnd(name, ix) - 1.0 + 0.15 * (1 if self.rnd('s', name, ix) > 0.5 else -1)

    def mat(self, t, env):
        r, c = self.lin(t.shape[0], env), self.lin(t.shape[1], env)
        self.tick(r * c)
        return [[self.entry(t, (i, j), env) for j in range(c)] for i in range(r)]

    def entry(self, t, idx, env):
        cid = []
        loc = dict(env)
        for ax, i in enumerate(idx):
            br = t.breaks[ax]
            for q in range(len(br) - 1):
                lo, hi = self.lin(br[q], env), self.lin(br[q + 1], env)
                if lo <= i < hi:
                    cid.append(q)
                    loc[('f', ax, br[q + 1] - br[q])] = i - lo
                    break
            else:
                raise Unfit('index outside blocks')
        return self.poly(t.cells[tuple(cid)], loc)

    def table(self, t, env):
        sh = [self.lin(s, env) for s in t.shape]
        n = 1
        for s in sh:
            n *= s
        if n > 4000 or n < 0:
            raise Unfit('large')
        self.tick(n)
        return [self.entry(t, idx, env) for idx in itertools.product(*[range(s) for s in sh])]

    def argvals(self, x, env):
        if isinstance(x, Poly):
            return [self.poly(x, env)]
        if isinstance(x, Ten):
            return self.table(x, env)
        if isinstance(x, Lin):
            return [float(self.lin(x, env))]
        if isinstance(x, tuple):
            return [v for y in x for v in self.argvals(y, env)]
        if isinstance(x, (int, float, Fr)) and not isinstance(x, bool):
            return [float(x)]
        return []

    def tag(self, x):
        if isinstance(x, tuple):
            return '(' + ','.join(self.tag(y) for y in x) + ')'
        if isinstance(x, (Poly, Ten, Lin)):
            return '.'
        return repr(x)

    def smooth(self, tag, vals):
        """a fixed random smooth function of vals"""
        s1 = 6.28 * self.rnd('ph', tag)
        s2 = 0.0
        for i, v in enumerate(vals):
            v = v / (1.0 + abs(v) * 0.05)
            s1 += v * (0.4 + self.rnd('w', tag, i))
            s2 += v * (self.rnd('u', tag, i) - 0.5)
        return math.sin(s1) * 0.7 + math.tanh(0.5 * s2) * 0.6 + 0.1 * self.rnd('c', tag)

    def atom_(self, a, ix):
        k = a.kind
        env = {('p', i, None): v for i, v in enumerate(ix[:a.npar])}
        out = ix[a.npar:]
        if k == 'sym':
            return self.symv(a.name, ix, a.sym)
        if k == 'pw':
            return self.poly(a.args[0], env)
        if k == 'ind':
            if a.name in ('<', '='):
                v = self.poly(a.args[0], env)
                if a.name == '<':
                    if abs(v) < 1e-11:
                        return 0.0
                    return 1.0 if v < 0 else 0.0
                return 1.0 if abs(v) < 1e-9 else 0.0
            return 1.0 if self.smooth(a.name + self.tag(a.args), [v for x in a.args for v in self.argvals(x, env)]) > 0 else 0.0
        if k == 'inv':
            kk = ('INV', a.key, ix[:a.npar])
            m = self.memo.get(kk)
            if m is None:
                m = invert(self.mat(a.args[0], env))
                self.memo[kk] = m
            return m[out[0]][out[1]]
        if k == 'rec':
            return self.rec(a, ix, env, out)
        if k == 'app':
            return self.app(a, ix, env, out)
        raise Unfit('atom ' + k)

    def app(self, a, ix, env, out):
        nm = a.name
        ar = a.args
        if nm == 'let':
            return self.entry(ar[0], out, env)
        if len(ar) == 1 and isinstance(ar[0], Poly) and not out:
            v = self.poly(ar[0], env)
            try:
                if nm == 'log':
                    return math.log(v)
                f = {'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'abs': abs, 'floor': math.floor,
                     'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'atan': math.atan, 'arctan': math.atan,
                     'asin': math.asin, 'acos': math.acos, 'ceil': math.ceil, 'int': int,
                     'sign': lambda z: (z > 0) - (z < 0)}.get(nm)
                if f:
                    return float(f(v))
            except (ValueError, OverflowError):
                raise Unfit('domain of ' + nm)
        if len(ar) == 2 and all(isinstance(x, Poly) for x in ar) and not out:
            x, y = self.poly(ar[0], env), self.poly(ar[1], env)
            try:
                if nm == 'pow':
                    if x < 0 and abs(y - round(y)) < 1e-12:
                        return x ** int(round(y))
                    return math.pow(x, y)
                if nm == 'max':
                    return max(x, y)
                if nm == 'min':
                    return min(x, y)
                if nm in ('atan2', 'arctan2'):
                    return math.atan2(x, y)
                if nm == 'mod':
                    return x % y
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Unfit('domain of ' + nm)
        if nm == 'det' and len(ar) == 1 and isinstance(ar[0], Ten):
            return det(self.mat(ar[0], env))
        if nm == 'chol':
            kk = ('CHOL', a.key, ix[:a.npar])
            m = self.memo.get(kk)
            if m is None:
                m = chol(self.mat(ar[0], env))
                self.memo[kk] = m
            return m[out[0]][out[1]]
        if nm in ('rmax', 'rmin') and len(ar) == 1 and not out:
            v = self.table(ar[0], env)
            return max(v) if nm == 'rmax' else min(v)
        if nm == 'cumsum' and isinstance(ar[0], Ten):
            return sum(self.table(ar[0], env)[:out[0] + 1])
        kk = ('ARGS', a.key, ix[:a.npar])
        vals = self.memo.get(kk)
        if vals is None:
            vals = [v for x in ar for v in self.argvals(x, env)]
            self.memo[kk] = vals
        o = out
        if a.sym and len(out) >= 2:
            o = out[:-2] + tuple(sorted(out[-2:]))
        # positive definite-ish results for symmetric opaque matrices
        v = self.smooth(nm + '/' + self.tag(ar) + '/' + repr(o), vals)
        if a.sym and len(out) >= 2:
            v = 1.6 + 0.5 * v if o[-1] == o[-2] else 0.25 * v
        return v

    def rec(self, a, ix, env, out):
        t = out[0]
        if t < 0:
            raise Unfit('negative time')
        if t > 12:
            raise Unfit('long recurrence')
        pos, depth = a.name[3:].split('.')
        pos, depth = int(pos), int(depth)
        inits, steps = a.args
        kk = ('REC', a.key, ix[:a.npar])
        seq = self.memo.setdefault(kk, [])
        if not seq:
            seq.append([self.full(x, env) for x in inits])
        # placeholders are read through a dynamic scope
        while len(seq) <= t:
            sub = RecScope(self, seq[-1], depth, len(seq) - 1)
            seq.append([sub.full(x, dict(env), depth, len(seq) - 1) for x in steps])
            self.ops += sub.ops
        comp = seq[t][pos]
        return comp[tuple(out[1:])]

    def full(self, t, env):
        sh = [self.lin(s, env) for s in t.shape]
        return {idx: self.entry(t, idx, env) for idx in itertools.product(*[range(s) for s in sh])}


class RecScope(Hasher):
    """interpretation inside one step of a recurrence"""

    def __init__(self, parent, vals, depth, time):
        Hasher.__init__(self, parent.seed, parent.dims, parent.pos)
        self.parent = parent
        self.vals = vals
        self.depth = depth
        self.time = time
        self.dims = parent.dims
        self.ops = 0

    def full(self, t, env, depth=None, time=None):
        if depth is None:
            return Hasher.full(self, t, env)
        for k in tvars(t):
            if k[1] == depth:
                env[k] = time
        return Hasher.full(self, t, env)

    def symv(self, name, ix, sym):
        if name[0] == '$':
            d, q = name[1:].split('.')
            if int(d) == self.depth:
                return self.vals[int(q)][tuple(ix)]
        return self.parent.symv(name, ix, sym)


_tv = {}


def tvars(t):
    s = set()
    for p in t.cells.values():
        for m in p.d:
            for a, ix, e in m:
                for l in ix:
                    s.update(k for k, _ in l.t if k[0] == 'T')
    return s


def invert(m):
    n = len(m)
    if any(len(r) != n for r in m):
        raise Unfit('not square')
    a = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-9:
            raise Unfit('singular')
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0.0:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def det(m):
    n = len(m)
    a = [list(r) for r in m]
    d = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-14:
            return 0.0
        if p != c:
            a[c], a[p] = a[p], a[c]
            d = -d
        d *= a[c][c]
        for r in range(c + 1, n):
            f = a[r][c] / a[c][c]
            a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return d


def chol(m):
    n = len(m)
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = m[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            if i == j:
                if s <= 1e-10:
                    raise Unfit('not positive definite')
                L[i][i] = math.sqrt(s)
            else:
                L[i][j] = s / L[j][j]
    return L


def compare(a, b, seeds=(1, 2, 3, 4, 5, 6), pos=()):
    """'equal', ('differ', detail) or 'unknown' for two tensors of equal shape"""
    good = bad = 0
    for seed in seeds:
        side = None
        h = Hasher(seed, pos=pos)
        try:
            free = set()
            for t in (a, b):
                for p in t.cells.values():
                    free |= {k for k in p.free() if k[0] not in 'f'}
                for l in t.shape:
                    free |= set(l.vars())
            env = {}
            for k in sorted(free, key=A.keyrepr):
                if k[2] is None:
                    raise Unfit('free index')
                env[k] = int(h.rnd('idx', A.keyrepr(k)) * max(1, h.lin(k[2], env)))
            sh = [h.lin(s, env) for s in a.shape]
            for idx in itertools.product(*[range(s) for s in sh]):
                side = None
                y = h.entry(b, idx, env)
                side = 'a'
                x = h.entry(a, idx, env)
                if abs(x - y) > 1e-6 * (1e-3 + abs(x) + abs(y)):
                    return ('differ', idx, x, y, dict(h.dims))
        except NoRoot:
            # the expected value exists, the computed one does not
            bad += side == 'a'
            if bad == len(seeds):
                return ('differ', idx, float('nan'), y, dict(h.dims))
            continue
        except Unfit:
            continue
        except (OverflowError, ZeroDivisionError, RecursionError, ValueError, IndexError, KeyError):
            continue
        good += 1
        if good >= 2:
            return 'equal'
    return 'equal' if good else 'unknown'
