"""Instances share nothing; results depend only on the arguments."""
from ..lab import *      # noqa
from .. import algebra as A
from .common import *    # noqa
from .helpers import makers, reach, frozen, same_frozen, text, overwrite, session, refcls, fresh
from . import imm as IMMS


def scribble(s, vals, skip, tag='scr'):
    """overwrite every array and grow every list / dictionary reachable from the values"""
    n = 0
    for loc in sorted(reach(s, vals) - skip):
        c = s.st.heap.get(loc)
        if isinstance(c, ArrC) and isinstance(c.ten, Ten):
            n += 1
            s.st.heap[loc] = ArrC(Sym('%s%d' % (tag, n), *c.ten.shape).t, c.prov)
        elif isinstance(c, ListC) and c.prov is None:
            s.st.heap[loc] = ListC(c.segs + [('v', s.num(tag))])
        elif isinstance(c, DictC):
            s.st.heap[loc] = c.put(dict(c.d, **{tag: s.num(tag)}))


RANDOM = {'EnsembleKalmanFilter': ('sigmas',)}      # drawn at random


def suite_instances(L):
    tags = ('C35', 'C34')
    if not L.want(*tags):
        return
    for name, mk in makers(L):
        def go():
            s = session(L, 'two %s objects' % name)
            a = mk(s)
            first = {k: frozen(s, v) for k, v in s.attrs(a).items()}
            b = mk(s)
            second = {k: frozen(s, v) for k, v in s.attrs(b).items()}
            shared = reach(s, [a]) & reach(s, [b])
            what = sorted(k for k in first if reach(s, [s.raw(a, k)]) & shared)
            L.true(('C35',), 'independent objects share nothing', s, not shared, 'both objects refer to the same storage through %s' % what)
            rnd = RANDOM.get(name, ())
            bad = [k for k in sorted(set(first) | set(second)) if k not in rnd and (k not in first or k not in second or same_frozen(first[k], second[k]) is False)]
            L.true(('C35',), 'a second object starts in the same state', s, not bad, 'attributes %s differ' % bad)
            scribble(s, [a], set())
            now = {k: frozen(s, v) for k, v in s.attrs(b).items()}
            bad = [k for k in second if same_frozen(second[k], now[k]) is False]
            L.true(('C35',), 'changing one object leaves another alone', s, not bad, 'attributes %s of the other object changed' % bad)
            c = mk(s)
            third = {k: frozen(s, v) for k, v in s.attrs(c).items()}
            bad = [k for k in sorted(set(first) | set(third)) if k not in rnd and (k not in first or k not in third or same_frozen(first[k], third[k]) is False)]
            L.true(('C35',), 'an object built after another was used starts in the same state', s, not bad, 'attributes %s differ' % bad)
        L.guarded('instances of ' + name, go)


def calls():
    """(name, [argument makers]): functions called repeatedly"""
    n, m = dim('n'), dim('m')
    D, K, ST, GH, DB, H, S = 'filterpy.common.discretization', 'filterpy.common.kinematic', 'filterpy.stats', 'filterpy.gh', 'filterpy.discrete_bayes', 'filterpy.common.helpers', 'filterpy.stats'
    KF = 'filterpy.kalman.kalman_filter'
    out = []

    def add(mod, fn, *variants):
        out.append((mod, fn, variants))
    add(D, 'Q_discrete_white_noise', lambda s: ([s.val(2)], {}), lambda s: ([s.val(3), s.num('dt'), s.num('v')], {}), lambda s: ([s.val(2), s.num('dt'), s.num('v'), s.val(2)], {}), lambda s: ([s.val(4), s.num('dt')], dict(order_by_dim=s.val(False), block_size=s.val(2))))
    add(D, 'Q_continuous_white_noise', lambda s: ([s.val(2)], {}), lambda s: ([s.val(3), s.num('dt'), s.num('v')], {}), lambda s: ([s.val(4), s.num('dt'), s.num('v'), s.val(2)], {}))
    add(D, 'van_loan_discretization', lambda s: ([s.sym('F', 2, 2), s.sym('G', 2, 1), s.num('dt')], {}), lambda s: ([s.sym('F2', 2, 2), s.sym('G', 2, 1), s.num('dt')], {}))
    add(D, 'linear_ode_discretation', lambda s: ([s.sym('F', 2, 2)], {}), lambda s: ([s.sym('F', 2, 2), s.sym('L', 2, 2), s.sym('Q', 2, 2), s.num('dt')], {}))
    add(K, 'kinematic_state_transition', lambda s: ([s.val(1), s.num('dt')], {}), lambda s: ([s.val(2), s.num('dt')], {}), lambda s: ([s.val(1), s.num('dt2')], {}))
    add(K, 'kinematic_kf', lambda s: ([s.val(1), s.val(1)], {}), lambda s: ([s.val(2), s.val(1), s.num('dt')], {}), lambda s: ([s.val(1), s.val(2)], dict(order_by_dim=s.val(False))))
    add(ST, 'gaussian', lambda s: ([s.num('x'), s.num('mu'), s.num('v')], {}), lambda s: ([s.num('x'), s.num('mu'), s.num('v'), s.val(False)], {}))
    add(ST, 'mul', lambda s: ([s.num('m1'), s.num('v1'), s.num('m2'), s.num('v2')], {}), lambda s: ([s.num('m3'), s.num('v1'), s.num('m2'), s.num('v2')], {}))
    add(ST, 'multivariate_multiply', lambda s: ([s.sym('m1', n), s.sym('c1', n, n), s.sym('m2', n), s.sym('c2', n, n)], {}), lambda s: ([s.sym('m3', n), s.sym('c1', n, n), s.sym('m2', n), s.sym('c2', n, n)], {}))
    add(ST, 'mahalanobis', lambda s: ([s.sym('x', n), s.sym('mean', n), s.arr(SymP('C', n))], {}), lambda s: ([s.sym('x2', n), s.sym('mean', n), s.arr(SymP('C', n))], {}))
    add(GH, 'least_squares_parameters', lambda s: ([s.num('N')], {}), lambda s: ([s.num('N2')], {}))
    add(GH, 'critical_damping_parameters', lambda s: ([s.num('theta')], {}), lambda s: ([s.num('theta'), s.val(3)], {}))
    add(GH, 'benedict_bornder_constants', lambda s: ([s.num('g')], {}), lambda s: ([s.num('g'), s.val(True)], {}))
    add(DB, 'update', lambda s: ([s.sym('lk', n), s.sym('prior', n)], {}), lambda s: ([s.sym('lk2', n), s.sym('prior', n)], {}))
    add(DB, 'predict', lambda s: ([s.sym('pdf', n), s.val(1), s.sym('kern', 3)], {}), lambda s: ([s.sym('pdf2', n), s.val(1), s.sym('kern', 3)], {}))
    add(H, 'inv_diagonal', lambda s: ([s.sym('S', 3, 3)], {}), lambda s: ([s.sym('S2', 3, 3)], {}), lambda s: ([s.sym('S2', 2, 2)], {}))
    add(H, 'outer_product_sum', lambda s: ([s.sym('A', m, n)], {}), lambda s: ([s.sym('A', m, n), s.sym('B', m, n)], {}))
    add(H, 'runge_kutta4', lambda s: ([s.num('y'), s.num('x'), s.num('dx'), s.ufn('f', ())], {}), lambda s: ([s.num('y2'), s.num('x'), s.num('dx'), s.ufn('f', ())], {}))
    add(H, 'reshape_z', lambda s: ([s.sym('z', m), s.val(m) if not isinstance(m, Lin) else Num(A.from_lin(m), True), s.val(2)], {}))
    add(KF, 'predict', lambda s: ([s.sym('x', n, 1), s.sym('P', n, n)], {}), lambda s: ([s.sym('x', n, 1), s.sym('P', n, n), s.sym('F', n, n), s.sym('Q', n, n)], {}))
    add(KF, 'update', lambda s: ([s.sym('x', n, 1), s.sym('P', n, n), s.sym('z', m, 1), s.arr(SymP('R', m)), s.sym('H', m, n)], {}), lambda s: ([s.sym('x', n, 1), s.sym('P', n, n), s.val(None), s.arr(SymP('R', m))], {}))
    add(KF, 'predict_steadystate', lambda s: ([s.sym('x', n, 1)], {}), lambda s: ([s.sym('x', n, 1), s.sym('F', n, n)], {}))
    add('filterpy.kalman.unscented_transform', 'unscented_transform', lambda s: ([s.sym('sig', 3, n), s.sym('Wm', 3), s.sym('Wc', 3)], {}), lambda s: ([s.sym('sig2', 3, n), s.sym('Wm', 3), s.sym('Wc', 3), s.sym('Q', n, n)], {}))
    return out


def suite_repeat(L):
    tags = ('C35', 'C34')
    if not L.want(*tags):
        return
    for mod, fn, variants in calls():
        def go():
            s = session(L, '%s called repeatedly' % fn)
            ref = []
            for i, v in enumerate(variants):
                s0 = session(L, '%s called once (%d)' % (fn, i))
                a, k = v(s0)
                r = s0.fn(mod, fn, *a, **k)
                ref.append(frozen(s0, r.val) if r.ok else None)
                L.runs(('C34', 'C35'), '%s runs' % fn, s0, r)
            seen = []
            order = list(range(len(variants))) + list(range(len(variants))) + list(reversed(range(len(variants))))
            for i in order:
                if ref[i] is None:
                    continue
                a, k = variants[i](s)
                given = reach(s, list(a) + list(k.values()))
                r = s.fn(mod, fn, *a, **k)
                if not L.runs(('C34', 'C35'), '%s runs' % fn, s, r):
                    return
                L.true(('C35',), 'the result depends on the arguments only', s, same_frozen(frozen(s, r.val), ref[i]), 'variant %d gives %s, alone %s' % (i, text(frozen(s, r.val))[:200], text(ref[i])[:200]))
                mine = reach(s, [r.val]) - given
                sh = [j for j, q in seen if q & mine]
                L.true(('C35',), 'results of separate calls share nothing', s, not sh, 'result shares storage with an earlier result')
                seen.append((i, mine))
                scribble(s, [r.val], given, 'scr%d_' % len(seen))
        L.guarded('repeated ' + fn, go)


SUITES = [suite_instances, suite_repeat]
for _f in SUITES:
    _f.tags = ('C35', 'C34')
