"""Rejected and accepted arguments: every documented restriction on an
argument is enforced, and nothing just inside the restriction is refused."""
from ..lab import *      # noqa
from .. import algebra as A
from .common import *    # noqa
from . import kf as KFS, linear as LIN, imm as IMMS, ukf as UKFS

ST = 'filterpy.stats'
VE = ('ValueError',)


def build(L, label, mod, cls, args, kw=None, expect=None, ctx=''):
    """construct an object with the given arguments"""
    def go():
        s = L.session('%s(%s)' % (cls, ctx))
        info = L.prog.cls(mod, cls)
        f = info.find('methods', '__init__')
        if f is not None:
            s.entry = f
        a, k = args(s), (kw(s) if kw else {})
        r = s.guard(lambda: s.I.instantiate(s.st, info, [s.val(x) for x in a], {x: s.val(y) for x, y in k.items()}))
        L.runs(('C31',), label, s, r, expect)
    L.guarded(label, go)


def call(L, label, ctx, f, expect=None, tags=('C31',)):
    def go():
        s = L.session(ctx)
        L.runs(tags, label, s, f(s), expect)
    L.guarded(label, go)


def suite_dims(L):
    if not L.want('C31'):
        return
    bad = [('dim_x=0', (0, 1, 0)), ('dim_x=-1', (-1, 1, 0)), ('dim_z=0', (2, 0, 0)), ('dim_z=-2', (2, -2, 0)), ('dim_u=-1', (2, 1, -1))]
    good = [('1, 1, 0', (1, 1, 0)), ('2, 1, 0', (2, 1, 0)), ('1, 2, 1', (1, 2, 1))]
    for mod, cls, pre, exp in ((KFS.KF, 'KalmanFilter', (), VE), (LIN.SQ, 'SquareRootKalmanFilter', (), VE), (LIN.IF, 'InformationFilter', (), VE),
                               (LIN.FM, 'FadingKalmanFilter', (Fr(3, 2),), True)):
        def args(v):
            return lambda s: [Num(A.poly(x)) for x in pre] + [s.val(x) for x in v]
        for what, v in bad:
            build(L, '%s rejects %s' % (cls, what), mod, cls, args(v), None, exp, what)
        for what, v in good:
            build(L, '%s accepts %s' % (cls, what), mod, cls, args(v), None, None, what)
    for a in (Fr(1, 2), 0, -1):
        build(L, 'FadingKalmanFilter rejects alpha=%s' % a, LIN.FM, 'FadingKalmanFilter', lambda s: [Num(A.poly(a)), s.val(2), s.val(1)], None, True, 'alpha=%s' % a)
    for a in (1, Fr(101, 100)):
        build(L, 'FadingKalmanFilter accepts alpha=%s' % a, LIN.FM, 'FadingKalmanFilter', lambda s: [Num(A.poly(a)), s.val(2), s.val(1)], None, None, 'alpha=%s' % a)
    for a, exp in ((Fr(1, 2), VE), (0, VE), (-2, VE), (1, None), (Fr(3, 2), None)):
        def go():
            s = L.session('KalmanFilter.alpha = %s' % a)
            o = KFS.make_kf(s, dim('n'), dim('m'), dim('l'))
            r = s.assign(o, 'alpha', Num(A.poly(a)))
            L.runs(('C31',), 'alpha setter %s %s' % ('rejects' if exp else 'accepts', a), s, r, exp)
        L.guarded('alpha setter', go)

    def arr():
        s = L.session('KalmanFilter.alpha = array')
        o = KFS.make_kf(s, dim('n'), dim('m'), dim('l'))
        L.runs(('C31',), 'alpha setter rejects an array', s, s.assign(o, 'alpha', s.sym('alpha', 2)), VE)
    L.guarded('alpha setter', arr)


def suite_banks(L):
    if not L.want('C31'):
        return
    n = dim('n')
    two = lambda s, k, flats=None, m=None: [IMMS.Stub(s, i, n, bool(flats and flats[i]), m).obj for i in range(k)]
    for k in (0, 1):
        build(L, 'IMMEstimator rejects %d filters' % k, IMMS.IMM, 'IMMEstimator', lambda s: [s.val(two(s, k)), s.sym('mu', max(k, 1)), s.sym('M', max(k, 1), max(k, 1))], None, VE, '%d filters' % k)
    for fl in ((False, True), (False, False, True), (True, False, True)):
        build(L, 'IMMEstimator rejects filters of different state shape', IMMS.IMM, 'IMMEstimator',
              lambda s: [s.val(two(s, len(fl), fl)), s.sym('mu', len(fl)), s.sym('M', len(fl), len(fl))], None, VE, 'state shapes %s' % (fl,))
    for fl in ((False, False), (True, True, True)):
        build(L, 'IMMEstimator accepts filters of one state shape', IMMS.IMM, 'IMMEstimator',
              lambda s: [s.val(two(s, len(fl), fl)), s.sym('mu', len(fl)), s.sym('M', len(fl), len(fl))], None, None, 'state shapes %s' % (fl,))
    for k, p, d, exp in ((2, 3, 2, VE), (3, 2, 2, VE), (2, 2, 0, VE), (2, 2, -1, VE), (2, 2, 1, None), (3, 3, 2, None)):
        build(L, 'MMAEFilterBank %s %d filters, %d probabilities, dim_x %d' % ('rejects' if exp else 'accepts', k, p, d), IMMS.MM, 'MMAEFilterBank',
              lambda s: [s.val(two(s, k, None, dim('m'))), s.sym('p', p), s.val(d)], None, exp, '%d filters, len(p) %d, dim_x %d' % (k, p, d))


def suite_lengths(L):
    if not L.want('C31'):
        return
    n, m, l = dim('n'), dim('m'), dim('l')
    k = dim('k')
    for dx, dp, exp in ((4, 3, VE), (3, 4, VE), (3, 3, None)):
        wd = 'rejects' if exp else 'accepts'
        cx = '%d means, %d covariances' % (dx, dp)
        seq = lambda s, nx: (s.val([s.sym('X%d' % i, nx, 1) for i in range(dx)]), s.val([s.arr(SymP('P%d' % i, nx)) for i in range(dp)]))

        def meth(s):
            o = KFS.make_kf(s, n, m, l)
            return s.call(o, 'rts_smoother', s.sym('Xs', dx, n, 1), s.sym('Ps', dp, n, n))
        call(L, 'KalmanFilter.rts_smoother %s unequal lengths' % wd, cx, meth, exp)
        call(L, 'rts_smoother %s unequal lengths' % wd, cx, lambda s: s.fn(KFS.KF, 'rts_smoother', s.sym('Xs', dx, n, 1), s.sym('Ps', dp, n, n),
             s.val([s.sym('F%d' % i, n, n) for i in range(dx)]), s.val([s.arr(SymP('Q%d' % i, n)) for i in range(dx)])), exp)

        def ukf(s):
            o = UKFS.make_ukf(s, n, m, k)
            s.assume_alpha = True
            return s.call(o, 'rts_smoother', s.sym('Xs', dx, n), s.sym('Ps', dp, n, n))
        call(L, 'UnscentedKalmanFilter.rts_smoother %s unequal lengths' % wd, cx, ukf, exp)
    TE = ('TypeError',)
    one = Lin(1)
    for what, dz, mk, exp in (('a number', m, lambda s: s.num('z'), TE), ('vectors of the wrong length', dim('m', 2), lambda s: s.val([s.sym('z%d' % i, dim('m', 2) + 1) for i in range(2)]), TE),
                              ('vectors when dim_z is 1', one, lambda s: s.val([s.sym('z%d' % i, 2) for i in range(2)]), TE),
                              ('columns when dim_z is 1', one, lambda s: s.val([s.sym('z%d' % i, 1, 1) for i in range(2)]), TE),
                              ('scalars when dim_z is 1', one, lambda s: s.val([s.num('z%d' % i) for i in range(2)]), None),
                              ('one-element vectors when dim_z is 1', one, lambda s: s.val([s.sym('z%d' % i, 1) for i in range(2)]), None),
                              ('vectors of length dim_z', dim('m', 2), lambda s: s.val([s.sym('z%d' % i, dim('m', 2)) for i in range(2)]), None),
                              ('a first measurement of None', dim('m', 2), lambda s: s.val([None, s.sym('z', dim('m', 2))]), None)):
        def ukf(s):
            o = UKFS.make_ukf(s, n, dz, k)
            return s.call(o, 'batch_filter', mk(s))
        call(L, 'UnscentedKalmanFilter.batch_filter %s zs: %s' % ('rejects' if exp else 'accepts', what), 'zs ' + what, ukf, exp)


def suite_conform(L):
    """test_matrix_dimensions: which shapes are accepted"""
    if not L.want('C31', 'C11'):
        return
    n = dim('n')
    m2 = dim('m', 2)
    one = Lin(1)
    R = {'()': lambda s: s.num('r'), '(1,)': lambda s: s.sym('r', 1), '(1,1)': lambda s: s.sym('r', 1, 1), '(2,)': lambda s: s.sym('r', 2), '(2,2)': lambda s: s.sym('r', 2, 2), '(1,2)': lambda s: s.sym('r', 1, 2)}
    for nm, mk in R.items():
        exp = None if nm in ('()', '(1,)', '(1,1)') else True

        def f(s):
            o = KFS.make_kf(s, n, one, dim('l'))
            return s.call(o, 'test_matrix_dimensions', R=mk(s))
        call(L, 'test_matrix_dimensions %s R of shape %s for one measurement' % ('rejects' if exp else 'accepts', nm), 'dim_z 1, R %s' % nm, f, exp, ('C31', 'C11'))
    Z = {'()': lambda s: s.num('z'), '(1,)': lambda s: s.sym('z', 1), '(1,1)': lambda s: s.sym('z', 1, 1), '(2,)': lambda s: s.sym('z', 2), '(2,1)': lambda s: s.sym('z', 2, 1), '(1,2)': lambda s: s.sym('z', 1, 2)}
    for flat in (False, True):
        for nm, mk in Z.items():
            exp = None if nm in ('()', '(1,)', '(1,1)') else True
            if flat and nm == '(1,2)':
                continue

            def f(s):
                o = KFS.make_kf(s, n, one, dim('l'), flat=flat)
                return s.call(o, 'test_matrix_dimensions', z=mk(s))
            call(L, 'test_matrix_dimensions %s z of shape %s for one measurement' % ('rejects' if exp else 'accepts', nm), 'dim_z 1, z %s%s' % (nm, ', 1-D x' if flat else ''), f, exp, ('C31', 'C11'))
    m = m2
    for flat, nm, mk, exp in ((False, '(m,1)', lambda s: s.sym('z', m, 1), None), (False, '(m+1,1)', lambda s: s.sym('z', m + 1, 1), True), (False, '()', lambda s: s.num('z'), True),
                              (True, '(m,)', lambda s: s.sym('z', m), None), (True, '(m+1,)', lambda s: s.sym('z', m + 1), True), (True, '(m,1)', lambda s: s.sym('z', m, 1), True)):
        def f(s):
            o = KFS.make_kf(s, n, m, dim('l'), flat=flat)
            return s.call(o, 'test_matrix_dimensions', z=mk(s))
        call(L, 'test_matrix_dimensions %s z of shape %s' % ('rejects' if exp else 'accepts', nm), 'z %s%s' % (nm, ', 1-D x' if flat else ''), f, exp, ('C31', 'C11'))
    for what, sh in (('x', (n, 1, 1)), ('x', (1, n)), ('x', (n + 1,)), ('H', (n,)), ('P', (n, n + 1)), ('Q', (n + 1, n + 1)), ('F', (n + 1, n + 1)), ('R', (m, 1)), ('R', (m + 1, m + 1)), ('R', ()), ('R', (1, 1))):
        def f(s):
            o = KFS.make_kf(s, n, m, dim('l'))
            v = s.sym('bad', *sh) if sh else s.num('bad')
            kw = {}
            if what in 'xP':
                s.put(o, what, v)
            else:
                kw[what] = v
            return s.call(o, 'test_matrix_dimensions', **kw)
        call(L, 'test_matrix_dimensions rejects %s of shape (%s)' % (what, ', '.join(A.show(lin(d).p) if hasattr(lin(d), 'p') else str(d) for d in sh)), '%s %s' % (what, sh), f, True, ('C31',))


def suite_stat_args(L):
    if not L.want('C31'):
        return
    n = dim('n', 2)
    call(L, 'mahalanobis rejects a matrix', 'x 2-D', lambda s: s.fn(ST, 'mahalanobis', s.sym('x', n, n), s.sym('mean', n, n), s.arr(SymP('cov', n))), VE)
    for sh in ((), (n,), (n, 1), (1, n)):
        mk = lambda s, nm: s.sym(nm, *sh) if sh else s.num(nm)
        call(L, 'mahalanobis accepts vectors', 'x of shape %s' % (sh,), lambda s: s.fn(ST, 'mahalanobis', mk(s, 'x'), mk(s, 'mean'), s.arr(SymP('cov', n)) if sh else s.num('c')))
    for what, kw, exp in (('both variance and std', ('variance', 'std'), VE), ('neither variance nor std', (), VE)):
        call(L, 'plot_gaussian_pdf rejects %s' % what, what, lambda s: s.fn(ST, 'plot_gaussian_pdf', s.num('mean'), **{k: (s.num(k) if k in kw else s.val(None)) for k in ('variance', 'std')}), exp)
    for what, f in (('both cov and ellipse', lambda s: dict(cov=s.arr(SymP('cov', 2)), ellipse=s.val((s.num('a'), s.num('w'), s.num('h'))))), ('neither cov nor ellipse', lambda s: {})):
        for nm in ('plot_covariance', 'plot_covariance_ellipse'):
            call(L, '%s rejects %s' % (nm, what), what, lambda s: s.fn(ST, nm, s.sym('mean', 2), **f(s)), VE)
    call(L, 'plot_covariance rejects a call without deviations', 'no std, interval, variance', lambda s: s.fn(ST, 'plot_covariance', s.sym('mean', 2), cov=s.arr(SymP('cov', 2)), variance=s.val(None)), VE)
    for what, mean, cov in (('a mean of 2', (2,), (3, 3)), ('a 2x2 covariance', (3,), (2, 2)), ('a 3x2 covariance', (3,), (3, 2)), ('a 3x3 mean', (3, 3), (3, 3)), ('a 2x3 covariance', (3,), (2, 3))):
        call(L, 'plot_3d_covariance rejects %s' % what, what, lambda s: s.fn(ST, 'plot_3d_covariance', s.sym('mean', *mean), s.sym('cov', *cov)), VE)
    call(L, 'multivariate_gaussian rejects a negative covariance', 'cov -1', lambda s: s.fn(ST, 'multivariate_gaussian', s.sym('x', n), s.sym('mu', n), Num(A.poly(-1))), VE)
    call(L, 'multivariate_gaussian accepts a scalar covariance', 'cov 2', lambda s: s.fn(ST, 'multivariate_gaussian', s.sym('x', n), s.sym('mu', n), Num(A.poly(2))))


SUITES = [suite_dims, suite_banks, suite_lengths, suite_conform, suite_stat_args]
for _f in SUITES:
    _f.tags = ('C31',)
suite_conform.tags = ('C31', 'C11')
