"""Model builders, discrete Bayes, statistics."""
from ..lab import *      # noqa
from .. import algebra as A
from .. import hashval
from .common import *    # noqa

DISC = 'filterpy.common.discretization'
KIN = 'filterpy.common.kinematic'
DB = 'filterpy.discrete_bayes.discrete_bayes'
ST = 'filterpy.stats.stats'
RES = 'filterpy.monte_carlo.resampling'


# ------------------------------------------------------------ discretization
def suite_discretization(L):
    if not L.want('C25', 'C31', 'C34', 'C11', 'C06'):
        return
    for fn, ref, scale in (('Q_discrete_white_noise', 'q_discrete', 'var'), ('Q_continuous_white_noise', 'q_continuous', 'spectral_density')):
        for dm in (2, 3, 4):
            for bs in ((1, 2, 3) if L.tier == 'quick' else (1, 2, 3, 4, 5)):
                for by in (True, False):
                    def go():
                        s = L.session('%s, dim %d, block size %d, ordered by %s' % (fn, dm, bs, 'dimension' if by else 'derivative'))
                        s.I.unroll = 60
                        r = s.fn(DISC, fn, s.val(dm), s.num('dt'), s.num('q'), s.val(bs), s.val(by))
                        if L.runs(('C25', 'C34', 'C31'), '%s runs' % fn, s, r):
                            s2 = L.session('')
                            s2.I.unroll = 60
                            w = s2.ref(ref, s2.val(dm), s2.num('dt'), s2.num('q'), s2.val(bs), s2.val(by))
                            L.eq(('C25', 'C11'), '%s: closed form' % fn, s, r.val, M(s2.ten(w)))
                    L.guarded(fn, go)
        for kw, dts, sc, bs, by in (({}, 1, 1, 1, True), ({scale: 'q'}, 1, 'q', 1, True), ({'dt': 't', 'order_by_dim': False, 'block_size': 2}, 't', 1, 2, False)):
            def dflt():
                s = L.session('%s with defaults, %s given' % (fn, sorted(kw)))
                s.I.unroll = 60
                r = s.fn(DISC, fn, s.val(3), **{k: s.num(v) if v in ('q', 't') else s.val(v) for k, v in kw.items()})
                if L.runs(('C25', 'C34', 'C31'), '%s runs' % fn, s, r):
                    s2 = L.session('')
                    s2.I.unroll = 60
                    nm = lambda v: s2.num(v) if isinstance(v, str) else s2.val(v)
                    w = s2.ref(ref, s2.val(3), nm(dts), nm(sc), s2.val(bs), s2.val(by))
                    L.eq(('C25', 'C11'), '%s: closed form with defaults' % fn, s, r.val, M(s2.ten(w)))
            L.guarded(fn, dflt)
        for bad in (-1, 0, 1, 5):
            s = L.session('%s, dim %d' % (fn, bad))
            r = s.fn(DISC, fn, s.val(bad))
            L.runs(('C31', 'C25'), '%s rejects dim %d' % (fn, bad), s, r, ('ValueError',))

    for dm, bs in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (2, 3), (3, 2), (4, 2)):
        def reorder():
            s = L.session('order_by_derivative, dim %d, block size %d' % (dm, bs))
            s.I.unroll = 60
            Q = Sym('Q', dm, dm)
            r = s.fn(DISC, 'order_by_derivative', s.arr(Q, 'param Q'), s.val(dm), s.val(bs))
            if L.runs(('C25', 'C34'), 'order_by_derivative runs', s, r):
                s2 = L.session('')
                s2.I.unroll = 60
                L.eq(('C25', 'C11'), 'order_by_derivative: one block per entry', s, r.val, M(s2.ten(s2.ref('by_derivative', s2.arr(Q), s2.val(dm), s2.val(bs)))))
                no_mutation(L, s)
        L.guarded('order_by_derivative', reorder)

    def van_loan():
        n, k = dim('n'), dim('k')
        s = L.session('van_loan_discretization, n, k generic')
        F, G, dt = Sym('F', n, n), Sym('G', n, k), Sym('dt')
        r = s.fn(DISC, 'van_loan_discretization', s.sym('F', n, n, prov='param F'), s.sym('G', n, k, prov='param G'), s.num('dt'))
        if L.runs(('C25', 'C34'), 'van_loan_discretization runs', s, r):
            s2 = L.session('')
            w = pair(s2, s2.ref('van_loan', s2.arr(F), s2.arr(G), s2.num('dt')), 2)
            got = pair(s, r.val, 2)
            L.eq(('C25', 'C11'), 'van_loan_discretization: transition', s, got[0], M(s2.ten(w[0])))
            L.eq(('C25', 'C11'), 'van_loan_discretization: noise', s, got[1], M(s2.ten(w[1])))
            no_mutation(L, s)
    L.guarded('van_loan_discretization', van_loan)
    for v in ('all', 'no L', 'no Q', 'neither'):
        def ode():
            n, k = dim('n'), dim('k')
            s = L.session('linear_ode_discretation, %s' % v)
            F, Lm, Q, dt = Sym('F', n, n), Sym('L', n, k), Sym('Q', k, k), Sym('dt')
            if v == 'no L':
                Q = Sym('Q', n, n)
            kw = {}
            if v in ('all', 'no Q'):
                if v == 'no Q':
                    Lm = Sym('L', n, n)
                kw['L'] = s.arr(Lm, 'param L')
            if v in ('all', 'no L'):
                kw['Q'] = s.arr(Q, 'param Q')
            r = s.fn(DISC, 'linear_ode_discretation', s.arr(F, 'param F'), dt=s.num('dt'), **kw)
            if L.runs(('C25', 'C34'), 'linear_ode_discretation runs', s, r):
                s2 = L.session('')
                LQL = Lm @ Q @ Lm.T if v == 'all' else Q if v == 'no L' else Zeros(n, n)
                w = pair(s2, s2.ref('linear_ode', s2.arr(F), s2.arr(LQL), s2.num('dt')), 2)
                got = pair(s, r.val, 2)
                L.eq(('C25', 'C11'), 'linear_ode_discretation: transition', s, got[0], M(s2.ten(w[0])))
                L.eq(('C25', 'C11'), 'linear_ode_discretation: noise', s, got[1], M(s2.ten(w[1])))
                no_mutation(L, s)
        L.guarded('linear_ode_discretation', ode)


# ----------------------------------------------------------------- kinematic
def suite_kinematic(L):
    if not L.want('C26', 'C31', 'C34', 'C11', 'C35'):
        return
    top = 6 if L.tier == 'quick' else 8
    for order in range(top):
        def tr():
            s = L.session('order %d' % order)
            s.I.unroll = 60
            r = s.fn(KIN, 'kinematic_state_transition', s.val(order), s.num('dt'))
            if L.runs(('C26', 'C34', 'C31'), 'kinematic_state_transition runs', s, r):
                s2 = L.session('')
                s2.I.unroll = 60
                w = s2.ref('kinematic_F', s2.val(order), s2.num('dt'))
                L.eq(('C26', 'C11'), 'kinematic_state_transition: Taylor transition', s, r.val, M(s2.ten(w)))
        L.guarded('kinematic_state_transition', tr)
    for what, v in (('-1', -1), ('1.5', Fr(3, 2))):
        s = L.session('order %s' % what)
        r = s.fn(KIN, 'kinematic_state_transition', Num(A.poly(v), isinstance(v, int)), s.num('dt'))
        L.runs(('C31', 'C26'), 'kinematic_state_transition rejects order %s' % what, s, r, ('ValueError',))
    for dm in (1, 2, 3):
        for order in (0, 1, 2, 3):
            for by in (True, False):
                for given in (False, True):
                    for dz in ((1, 2) if dm < 3 else (1,)):
                        def kf():
                            nx = dm * (order + 1)
                            s = L.session('kinematic_kf, dim %d, order %d, dim_z %d, ordered by %s%s' % (dm, order, dz, 'dimension' if by else 'derivative', ', filter given' if given else ''))
                            s.I.unroll = 80
                            kw = {}
                            if given:
                                o = s.make('filterpy.kalman.kalman_filter', 'KalmanFilter', s.val(nx), s.val(dz))
                                for a, sh in (('Q', (nx, nx)), ('P', (nx, nx)), ('x', (nx, 1)), ('R', (dz, dz))):
                                    s.put(o, a, s.sym(a, *sh))
                                kw['kf'] = o
                            r = s.fn(KIN, 'kinematic_kf', s.val(dm), s.val(order), s.num('dt'), s.val(dz), s.val(by), **kw)
                            if not L.runs(('C26', 'C34', 'C31'), 'kinematic_kf runs', s, r):
                                return
                            if given:
                                L.true(('C26',), 'kinematic_kf returns the given filter', s, isinstance(r.val, Obj) and r.val.loc == o.loc, 'returns another object')
                                for a, sh in (('Q', (nx, nx)), ('P', (nx, nx)), ('x', (nx, 1)), ('R', (dz, dz))):
                                    L.eq(('C26',), 'kinematic_kf keeps %s of the given filter' % a, s, None, Sym(a, *sh), r.val, a)
                            else:
                                # documented: P, Q, R are set to the identity
                                for a, sh in (('Q', nx), ('P', nx), ('R', dz)):
                                    L.eq(('C26',), 'kinematic_kf: %s is the identity' % a, s, None, Eye(sh), r.val, a)
                            s2 = L.session('')
                            s2.I.unroll = 80
                            w = s2.ref('kinematic_kf_F', s2.val(dm), s2.val(order), s2.num('dt'), s2.val(by))
                            L.eq(('C26', 'C11'), 'kinematic_kf: F', s, None, M(s2.ten(w)), r.val, 'F')
                            w = s2.ref('kinematic_kf_H', s2.val(dm), s2.val(order), s2.val(dz), s2.val(by))
                            L.eq(('C26', 'C11'), 'kinematic_kf: H', s, None, M(s2.ten(w)), r.val, 'H')
                            L.eq(('C26', 'C11'), 'kinematic_kf: dim_x', s, None, M(A.scalar(A.poly(nx))), r.val, 'dim_x')
                            L.eq(('C26', 'C11'), 'kinematic_kf: dim_z', s, None, M(A.scalar(A.poly(dz))), r.val, 'dim_z')
                        L.guarded('kinematic_kf', kf)
    for what, a in (('dim 0', (0, 1, 1)), ('dim -1', (-1, 1, 1)), ('order -1', (1, -1, 1)), ('dim_z 0', (1, 1, 0)), ('dim_z -1', (1, 1, -1))):
        s = L.session('kinematic_kf, %s' % what)
        r = s.fn(KIN, 'kinematic_kf', s.val(a[0]), s.val(a[1]), dim_z=s.val(a[2]))
        L.runs(('C31', 'C26'), 'kinematic_kf rejects %s' % what, s, r, ('ValueError',))
    for what, a in (('dim_x', (3, 1)), ('dim_z', (2, 2))):
        def mism():
            s = L.session('kinematic_kf, filter with another %s' % what)
            o = s.make('filterpy.kalman.kalman_filter', 'KalmanFilter', s.val(a[0]), s.val(a[1]))
            r = s.fn(KIN, 'kinematic_kf', s.val(1), s.val(1), kf=o)
            L.runs(('C31', 'C26'), 'kinematic_kf rejects a filter with another %s' % what, s, r, True)
        L.guarded('kinematic_kf', mism)


# ------------------------------------------------------------ discrete Bayes
def suite_bayes(L):
    if not L.want('C28', 'C06', 'C11', 'C34') or L.intargs:     # documented for arrays of floats
        return
    n, k = dim('n'), dim('k')

    def norm_():
        s = L.session('normalize, n generic')
        p = Sym('pdf', n)
        r = s.fn(DB, 'normalize', s.arr(p))
        if L.runs(('C28', 'C34'), 'normalize runs', s, r):
            L.eq(('C28', 'C11'), 'normalize: divided by the sum', s, r.val, p / p.sum())
    L.guarded('normalize', norm_)

    def upd():
        s = L.session('update, n generic')
        lk, pr = Sym('likelihood', n), Sym('prior', n)
        r = s.fn(DB, 'update', s.arr(lk, 'param likelihood'), s.arr(pr, 'param prior'))
        if L.runs(('C28', 'C34'), 'update runs', s, r):
            q = lk * pr
            L.eq(('C28', 'C11'), 'update: normalised product', s, r.val, q / q.sum())
            no_mutation(L, s, ('C06', 'C28'))
    L.guarded('update', upd)
    for v in ('default', 'wrap', 'constant', 'constant cval', 'offset expression', 'other mode', 'mode nearest', 'mode mirror'):
        def pred():
            s = L.session('predict, %s' % v)
            p, kr, off, cv = Sym('pdf', n), Sym('kernel', k), Sym('offset'), Sym('cval')
            kw = {'wrap': dict(mode='wrap'), 'constant': dict(mode='constant'), 'constant cval': dict(mode='constant', cval=s.num('cval')), 'other mode': dict(mode='reflect', cval=s.num('cval')),
                  'mode nearest': dict(mode='nearest', cval=s.num('cval')), 'mode mirror': dict(mode='mirror')}.get(v, {})
            o = Num(A.sym('offset'), True)
            if v == 'offset expression':
                o = Num(A.sym('offset') + A.poly(1), True)
            r = s.fn(DB, 'predict', s.arr(p, 'param pdf'), o, s.arr(kr, 'param kernel'), **{a: s.val(b) for a, b in kw.items()})
            if L.runs(('C28', 'C34'), 'predict runs', s, r):
                s2 = L.session('')
                w = s2.ref('bayes_predict', s2.arr(p), o, s2.arr(kr), s2.val('wrap' if v in ('default', 'wrap', 'offset expression') else 'constant'), s2.num('cval') if v in ('constant cval', 'other mode', 'mode nearest') else s2.val(0.))
                L.eq(('C28', 'C11'), 'predict: convolution of the shifted distribution', s, r.val, M(s2.ten(w)))
                no_mutation(L, s, ('C06', 'C28'))
        L.guarded('predict', pred)


# ---------------------------------------------------------------- resampling
def _monotone(n):
    def rec(i, lo):
        if i == n:
            yield ()
            return
        for a in range(lo, n):
            for r in rec(i + 1, a):
                yield (a,) + r
    return rec(0, 0)


class Unmatched(Exception):
    pass


def suite_resampling(L):
    """Finite case analysis over the answers of the comparisons: for every
    outcome `draw i selects particle a_i` the comparisons position < cumulative
    weight are answered accordingly and the index array must come out as a.
    Any comparison of a draw with something else is reported."""
    if not L.want('C27', 'C06', 'C34'):
        return
    from itertools import product
    from ..loops import replace, syms_of

    def run(fn, n, a, copies=None, aslist=False):
        ctx = '%s, %d particles, %s, outcome %s%s' % (fn, n, 'list' if aslist else 'array', list(a), '' if copies is None else ', copies %s' % (list(copies),))
        s = L.session(ctx)
        s.I.unroll = 60
        ws = [A.sym('@w%d' % i) for i in range(n)]
        total = sum(ws, A.P0)
        N = A.poly(n)
        draws = n if copies is None else n - sum(copies)
        u = [A.app_entry('app', 'rng:uniform', (), (lin(i),)) for i in range(n)]
        if fn == 'stratified_resample':
            pos = [(u[i] + A.poly(i)) * A.power(N, Fr(-1)) for i in range(n)]
        elif fn == 'systematic_resample':
            pos = [(u[0] + A.poly(i)) * A.power(N, Fr(-1)) for i in range(n)]
        else:
            pos = u[:draws]
        if copies is None:
            part = ws
        else:
            rem = [N * w - A.poly(c) for w, c in zip(ws, copies)]
            tot = sum(rem, A.P0)
            part = [r * A.power(tot, Fr(-1)) for r in rem] if tot != A.P0 else rem
        q, acc = [], A.P0
        for r in part:
            acc = acc + r
            q.append(acc)
        q[-1] = A.P1
        # weights normalised, as the documentation requires
        tab = {'@w%d' % (n - 1): lambda ix: A.P1 - sum(ws[:-1], A.P0)}
        norm = lambda p: replace(p, tab)
        ties = fn in ('multinomial_resample', 'residual_resample')
        bad = []
        s.I.sumnoise = True
        quiet = lambda p: replace(p, {'@round': lambda ix: A.P0}) if '@round' in syms_of(p) else p
        cache = {}

        def draw(p):
            """(sign, stream index, p divided by the size of the draw's coefficient)"""
            for m, c in p.d.items():
                if len(m) == 1 and m[0][0].name == 'rng:uniform' and m[0][2] == 1:
                    return (1 if c > 0 else -1), m[0][1], p.scale(1 / abs(c))
            return None
        spec = []
        for k in range(len(pos)):
            for j in range(n):
                spec.append((k, j) + draw(pos[k] - q[j]) + (draw(norm(pos[k] - q[j]))[2],))
        eqv = lambda x, y: x == y or hashval.compare(A.scalar(x), A.scalar(y)) == 'equal'

        def answer(p):
            """truth of p < 0 for a comparison of a draw with a boundary"""
            d = draw(p)
            if d is None:
                raise Imprecise('comparison of a draw: %s' % A.show(p))
            sg, at, r = d
            for k, j, s0, at0, d0, n0 in spec:
                if at0 != at:
                    continue
                ans = None
                if eqv(r, d0 if sg == s0 else -d0):
                    ans = j >= a[k]
                elif eqv(quiet(norm(r)), n0 if sg == s0 else -n0):
                    # the last boundary is 1 only up to rounding unless it is set
                    # to the constant: a position may then be at or above it
                    ans = j >= a[k] if j < n - 1 else a[k] < n - 1
                if ans is None:
                    continue
                if sg == s0:
                    return ans
                if not ties:
                    bad.append('a draw equal to a cumulative weight selects the particle below it: %s' % A.show(p))
                return not ans
            bad.append('decides by %s' % A.show(p))
            raise Imprecise('comparison of a draw')

        def look(p):
            if 'rng:' not in A.show(p):
                return None
            if p.key not in cache:
                at = [(m, c) for m, c in p.d.items() if m]
                if len(at) != 1 or len(at[0][0]) != 1 or at[0][0][0][0].kind != 'ind' or at[0][0][0][0].name != '<' or at[0][1] not in (1, -1):
                    raise Imprecise('comparison of a draw: %s' % A.show(p))
                f = at[0][0][0]
                inner = A.subst(f[0].args[0], {('p', x, None): l for x, l in enumerate(f[1])})
                r = answer(inner)
                cache[p.key] = r if at[0][1] == 1 else not r
            return cache[p.key]

        s.I.oracle = look
        if copies is not None:
            cnt = {(N * w).key: A.poly(c) for w, c in zip(ws, copies)}
            cnt.update({norm(N * w).key: A.poly(c) for w, c in zip(ws, copies)})

            def floor(p):
                r = cnt.get(p.key)
                if r is None:
                    r = cnt.get(norm(p).key)
                if r is None:
                    bad.append('integer part of %s' % A.show(p))
                    raise Imprecise('integer part')
                return r
            A.FLOOR_HOOK = floor
        try:
            w = s.val([Num(x) for x in ws]) if aslist else s.arr(M(A.concat([A.insert_axis(A.scalar(x), 0) for x in ws], 0)), 'param weights')
            r = s.fn(RES, fn, w)
            lab = fn
            if bad:
                L.true(('C27',), lab + ': draws are compared with cumulative weights', s, False, bad[0], rule='comparisons')
                return
            if not L.runs(('C27', 'C34'), lab + ' runs', s, r):
                return
            L.true(('C27',), lab + ': draws are compared with cumulative weights', s, True, rule='comparisons')
            want = list(a) if copies is None else [i for i in range(n) for _ in range(copies[i])] + list(a)
            L.eq(('C27',), lab + ': indexes selected', s, r.val, M(A.concat([A.insert_axis(A.scalar(A.poly(x)), 0) for x in want], 0)))
            no_mutation(L, s, ('C06', 'C27'))
        finally:
            A.FLOOR_HOOK = None

    top = 3 if L.tier == 'quick' else 4
    for fn in ('stratified_resample', 'systematic_resample', 'multinomial_resample'):
        for n in range(1, top + 1):
            for a in (_monotone(n) if fn[0] == 's' else product(range(n), repeat=n)):
                L.guarded(fn, lambda: run(fn, n, a))
                if n == 2:
                    L.guarded(fn, lambda: run(fn, n, a, None, True))
    for n in range(1, top + 1):
        for copies in product(range(n + 1), repeat=n):
            k = n - sum(copies)
            if k < 0:
                continue
            for a in product(range(n), repeat=k):
                L.guarded('residual_resample', lambda: run('residual_resample', n, a, copies))
                if n == 2:
                    L.guarded('residual_resample', lambda: run('residual_resample', n, a, copies, True))


SUITES = [suite_discretization, suite_kinematic, suite_bayes, suite_resampling]
suite_discretization.tags = ('C25', 'C31', 'C34', 'C11', 'C06')
suite_kinematic.tags = ('C26', 'C31', 'C34', 'C11')
suite_bayes.tags = ('C28', 'C06', 'C11', 'C34')
suite_resampling.tags = ('C27', 'C06', 'C34')
