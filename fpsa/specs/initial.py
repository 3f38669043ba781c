"""Initial state of new objects and the meaning of omitted arguments."""
from ..lab import *      # noqa
from .. import algebra as A
from .common import *    # noqa
from . import kf as KFS, ekf as EKFS, linear as LIN, imm as IMMS, ukf as UKFS, ckf as CKFS
from .helpers import frozen, same_frozen, session

T = ('C39', 'C11')
C = ('C39',)


def check(L, s, name, o, table, snaps=(), record=None, functions=()):
    """attributes of a new object against their documented initial values"""
    for k, w in table.items():
        if callable(w):
            w = w()
        if isinstance(w, (int, Fr)):
            w = M(A.scalar(A.poly(w)))
        L.eq(T, '%s starts with the documented %s' % (name, k), s, None, w, o, k)
    for k in snaps:
        live = 'x' if k.startswith('x') else 'P'
        independent(L, ('C39', 'C07'), '%s: initial %s independent of %s' % (name, k, live), s, o, [(live, k)])
    if snaps:
        xs = [k for k in snaps if k.startswith('x')] + ['x']
        independent(L, ('C39', 'C07'), '%s: initial snapshots independent of each other' % name, s, o, [tuple(xs[:2])])
        ps = [k for k in snaps if k.startswith('P')]
        if len(ps) > 1:
            independent(L, ('C39', 'C07'), '%s: initial snapshots independent of each other' % name, s, o, [tuple(ps[:2])])
    if record is not None and L.want(*T):
        L.none(C, '%s starts without a measurement' % name, s, None, o, 'z')
        v = s.raw(o, 'z')
        if isinstance(v, Arr):
            L.true(T, '%s: shape of the empty measurement record' % name, s, tuple(s.ten(v).shape) == tuple(lin(d) for d in record), 'shape %s' % (s.ten(v).shape,), s.where(o, 'z'))
    for k, w in functions:
        def go():
            v = s.get(o, k)
            ok = False if isinstance(v, (Con, Num, Arr)) else None
            if isinstance(v, Ext):
                ok = True if v.name == w else (False if v.name.split('.')[0] in ('numpy', 'scipy') and v.name.split('.')[-1] != w.split('.')[-1] else None)
            L.true(C, '%s starts with the documented %s' % (name, k), s, ok, '%s is %r' % (k, v), s.where(o, k))
        L.guarded(name, go)


def diag(L, s, name, o, lik=True):
    """diagnostics of an estimator that has seen no measurement"""
    tiny = M(A.scalar(A.sym('float_min')))
    for k, w in (('likelihood', tiny), ('log_likelihood', M(A.scalar(A.apply1('log', A.sym('float_min'))))) if hasattr(A, 'apply1') else (None, None)):
        if k:
            L.eq(C, '%s: %s before any measurement' % (name, k), s, None, w, o, k)


def sizes():
    n, m, l = dim('n'), dim('m'), dim('l')
    return [('n,m,l generic', n, m, l), ('dim_z=1', n, Lin(1), l), ('dim_x=dim_z=1', Lin(1), Lin(1), Lin(0)), ('no input', n, m, Lin(0))]


SN = ('x_prior', 'P_prior', 'x_post', 'P_post')


def suite_initial(L):
    if not L.want('C39', 'C11', 'C07'):
        return
    for cx, n, m, l in sizes():
        z = dict(x=Zeros(n, 1), P=Eye(n), Q=Eye(n), R=Eye(m), x_prior=Zeros(n, 1), P_prior=Eye(n), x_post=Zeros(n, 1), P_post=Eye(n), y=Zeros(m, 1))
        full = dict(z, K=Zeros(n, m), S=Zeros(m, m), SI=Zeros(m, m), F=Eye(n), H=Zeros(m, n))

        def kf():
            s = L.session('KalmanFilter, %s' % cx)
            o = s.make(KFS.KF, 'KalmanFilter', n, m, l)
            check(L, s, 'KalmanFilter', o, dict(full, M=Zeros(n, m), alpha=1, mahalanobis=0), SN, (m, 1), [('inv', 'numpy.linalg.inv')])
            L.none(C, 'KalmanFilter starts without control matrix', s, None, o, 'B')
            diag(L, s, 'KalmanFilter', o)
        L.guarded('KalmanFilter', kf)

        def ekf():
            s = L.session('ExtendedKalmanFilter, %s' % cx)
            o = s.make(EKFS.EKF, 'ExtendedKalmanFilter', n, m, l)
            t = dict(full, B=0)
            t.pop('H')
            check(L, s, 'ExtendedKalmanFilter', o, dict(t, mahalanobis=0), SN, (m, 1))
            diag(L, s, 'ExtendedKalmanFilter', o)
        L.guarded('ExtendedKalmanFilter', ekf)

        def fad():
            s = L.session('FadingKalmanFilter, %s' % cx)
            s.I.assume(s.st, A.ind('<', A.sym('a') - 1), False)
            o = s.make(LIN.FM, 'FadingKalmanFilter', s.num('a'), n, m, l)
            t = dict(full, B=0, alpha=M(A.scalar(A.sym('a'))), mahalanobis=0)
            for k in ('K',):
                t.pop(k)
            t.pop('alpha')
            check(L, s, 'FadingKalmanFilter', o, t, SN, (m, 1))
            diag(L, s, 'FadingKalmanFilter', o)
        L.guarded('FadingKalmanFilter', fad)

        def sq():
            s = L.session('SquareRootKalmanFilter, %s' % cx)
            o = s.make(LIN.SQ, 'SquareRootKalmanFilter', n, m, l)
            t = dict(full, B=0)
            for k in ('S', 'SI'):
                t.pop(k)
            check(L, s, 'SquareRootKalmanFilter', o, t, ('x_prior', 'x_post'), (m, 1))
        L.guarded('SquareRootKalmanFilter', sq)

        def inf():
            s = L.session('InformationFilter, %s' % cx)
            o = s.make(LIN.IF, 'InformationFilter', n, m, l)
            check(L, s, 'InformationFilter', o, dict(x=Zeros(n, 1), P_inv=Eye(n), Q=Eye(n), R_inv=Eye(m), H=Zeros(m, n), x_prior=Zeros(n, 1), x_post=Zeros(n, 1),
                  P_inv_prior=Eye(n), P_inv_post=Eye(n), y=Zeros(m, 1), B=0), ('x_prior', 'x_post'), None, [('inv', 'numpy.linalg.inv')])
            independent(L, ('C39', 'C07'), 'InformationFilter: initial snapshots independent', s, o, [('P_inv', 'P_inv_prior'), ('P_inv', 'P_inv_post'), ('P_inv_prior', 'P_inv_post')])
            v = s.raw(o, 'compute_log_likelihood')
            L.true(C, 'InformationFilter computes the log-likelihood by default', s, v.v is True if isinstance(v, Con) else None, repr(v))
        L.guarded('InformationFilter', inf)

        def lag():
            s = L.session('FixedLagSmoother, %s' % cx)
            o = s.make(LIN.FL, 'FixedLagSmoother', n, m, N=s.val(4))
            check(L, s, 'FixedLagSmoother', o, dict(x=Zeros(n, 1), x_s=Zeros(n, 1), P=Eye(n), Q=Eye(n), R=Eye(m), F=Eye(n), K=Zeros(n, 1), y=Zeros(m, 1), B=0, S=Zeros(m, m), N=4))
            v = s.raw(o, 'xSmooth')
            L.true(C, 'FixedLagSmoother starts without smoothed estimates', s, (len(s.st.heap[v.loc].segs) == 0) if isinstance(v, Lst) else None, repr(v))
        L.guarded('FixedLagSmoother', lag)

        def hinf():
            s = L.session('HInfinityFilter, %s' % cx)
            o = s.make(LIN.HI, 'HInfinityFilter', n, m, l, s.num('gamma'))
            check(L, s, 'HInfinityFilter', o, dict(x=Zeros(n, 1), P=Eye(n), Q=Eye(n), F=Eye(n), H=Zeros(m, n), W=Zeros(n, n), V=Zeros(m, m), y=Zeros(m, 1), B=0, gamma=M(A.scalar(A.sym('gamma')))))
        L.guarded('HInfinityFilter', hinf)

        if cx == 'no input':
            continue

        def ckf():
            s = L.session('CubatureKalmanFilter, %s' % cx)
            o = s.make(CKFS.CK, 'CubatureKalmanFilter', n, m, s.num('dt'), s.ufn('hx', (m,)), s.ufn('fx', (n,)))
            t = {k: v for k, v in full.items() if k not in ('F', 'H', 'K')}
            t.update(x=Zeros(n), x_prior=Zeros(n), x_post=Zeros(n))     # documented as an array of length dim_x
            check(L, s, 'CubatureKalmanFilter', o, dict(t, mahalanobis=0), SN, (m, 1), [('residual_x', 'numpy.subtract'), ('residual_z', 'numpy.subtract')])
            diag(L, s, 'CubatureKalmanFilter', o)
        L.guarded('CubatureKalmanFilter', ckf)

        def ukf():
            s = L.session('UnscentedKalmanFilter, %s' % cx)
            k = dim('k')
            o = s.make(UKFS.UK, 'UnscentedKalmanFilter', n, m, s.num('dt'), s.ufn('hx', (m,)), s.ufn('fx', (n,)), UKFS.points_stub(s, n, k))
            check(L, s, 'UnscentedKalmanFilter', o, dict(x=Zeros(n), P=Eye(n), Q=Eye(n), R=Eye(m), K=Zeros(n, m), S=Zeros(m, m), SI=Zeros(m, m), y=Zeros(m), x_prior=Zeros(n), x_post=Zeros(n),
                  P_prior=Eye(n), P_post=Eye(n), sigmas_f=Zeros(k, n), sigmas_h=Zeros(k, m), mahalanobis=0), SN, (m, 1),
                  [('residual_x', 'numpy.subtract'), ('residual_z', 'numpy.subtract'), ('state_add', 'numpy.add'), ('inv', 'numpy.linalg.inv')])
            diag(L, s, 'UnscentedKalmanFilter', o)
        L.guarded('UnscentedKalmanFilter', ukf)

        def enkf():
            s = L.session('EnsembleKalmanFilter, %s' % cx)
            x0, P0 = Sym('x0', n), SymP('P0', n)
            o = s.make(CKFS.EN, 'EnsembleKalmanFilter', s.arr(x0, 'param x'), s.arr(P0, 'param P'), m, s.num('dt'), s.val(4), s.ufn('hx', (m,)), s.ufn('fx', (n,)))
            check(L, s, 'EnsembleKalmanFilter', o, dict(x=x0, P=P0, Q=Eye(n), R=Eye(m), K=Zeros(n, m), S=Zeros(m, m), SI=Zeros(m, m), x_prior=x0, x_post=x0, P_prior=P0, P_post=P0), SN, (m, 1),
                  [('inv', 'numpy.linalg.inv')])
            no_mutation(L, s)
        L.guarded('EnsembleKalmanFilter', enkf)

    for order in (0, 1, 2):
        def ls():
            s = session(L, 'LeastSquaresFilter, order %d' % order)
            o = s.make('filterpy.leastsq.least_squares', 'LeastSquaresFilter', s.num('dt'), s.val(order), s.num('sigma'))
            check(L, s, 'LeastSquaresFilter', o, dict(n=0, K=Zeros(order + 1), x=Zeros(order + 1), y=0, sigma=M(A.scalar(A.sym('sigma'))), dt=M(A.scalar(A.sym('dt')))))
        L.guarded('LeastSquaresFilter', ls)

        def fm():
            s = session(L, 'FadingMemoryFilter, order %d' % order)
            o = s.make('filterpy.memory.fading_memory', 'FadingMemoryFilter', s.sym('x0', order + 1), s.num('dt'), s.val(order), s.num('beta'))
            check(L, s, 'FadingMemoryFilter', o, dict(x=Sym('x0', order + 1), dt=M(A.scalar(A.sym('dt'))), order=order, beta=M(A.scalar(A.sym('beta')))))
        L.guarded('FadingMemoryFilter', fm)

        def gho():
            s = session(L, 'GHFilterOrder, order %d' % order)
            o = s.make('filterpy.gh', 'GHFilterOrder', s.sym('x0', order + 1), s.num('dt'), s.val(order), s.num('g'), s.num('h'), s.num('k'))
            check(L, s, 'GHFilterOrder', o, dict(x=Sym('x0', order + 1), dt=M(A.scalar(A.sym('dt'))), order=order, g=M(A.scalar(A.sym('g'))), h=M(A.scalar(A.sym('h'))), k=M(A.scalar(A.sym('k')))))
        L.guarded('GHFilterOrder', gho)
    num = lambda k: M(A.scalar(A.sym(k)))

    def gh():
        s = session(L, 'GHFilter')
        o = s.make('filterpy.gh', 'GHFilter', s.num('x'), s.num('dx'), s.num('dt'), s.num('g'), s.num('h'))
        check(L, s, 'GHFilter', o, dict(x=num('x'), dx=num('dx'), dt=num('dt'), g=num('g'), h=num('h'), x_prediction=num('x'), dx_prediction=num('dx'), y=0, z=0))
        s = session(L, 'GHKFilter')
        o = s.make('filterpy.gh', 'GHKFilter', s.num('x'), s.num('dx'), s.num('ddx'), s.num('dt'), s.num('g'), s.num('h'), s.num('k'))
        check(L, s, 'GHKFilter', o, dict(x=num('x'), dx=num('dx'), ddx=num('ddx'), dt=num('dt'), g=num('g'), h=num('h'), k=num('k'), x_prediction=num('x'), dx_prediction=num('dx'),
                                        ddx_prediction=num('ddx'), y=0, z=0))
    L.guarded('g-h filters', gh)


# ------------------------------------------------------------ omitted arguments
def same_runs(L, name, ctx, f, g, tags=C):
    """two ways to make the same call leave the same results and objects"""
    if not L.want(*tags):
        return

    def go():
        out = []
        s1 = None
        for h in (f, g):
            s = session(L, '%s, %s' % (name, ctx))
            r = h(s)
            s1 = s1 or s
            objs = r[1:] if isinstance(r, tuple) else ()
            r = r[0] if isinstance(r, tuple) else r
            if not L.runs(tags, '%s runs' % name, s, r):
                return
            out.append([frozen(s, r.val)] + [frozen(s, o) for o in objs])
        same_ = [same_frozen(a, b) for a, b in zip(*out)]
        L.true(tags, '%s: omitted arguments mean their documented defaults' % name, s1, False if False in same_ else (None if None in same_ else True),
               'result or state differs from the call with the defaults given', None, 'default')
    L.guarded(name, go)


def suite_defaults(L):
    if not L.want(*C):
        return
    n, m, l = dim('n'), dim('m'), dim('l')
    one = A.P1
    num = lambda v: Num(A.poly(v))
    KIN, DIS, ST, GH, KF = 'filterpy.common.kinematic', 'filterpy.common.discretization', 'filterpy.stats', 'filterpy.gh', KFS.KF

    def fn(mod, name, args, kw, ctx='defaults'):
        same_runs(L, name, ctx, lambda s: s.fn(mod, name, *args(s)), lambda s: s.fn(mod, name, *args(s), **kw(s)))
    for d in (2, 3, 4):
        fn(DIS, 'Q_discrete_white_noise', lambda s: [s.val(d)], lambda s: dict(dt=num(1), var=num(1), block_size=s.val(1), order_by_dim=s.val(True)), 'dim %d' % d)
        fn(DIS, 'Q_continuous_white_noise', lambda s: [s.val(d)], lambda s: dict(dt=num(1), spectral_density=num(1), block_size=s.val(1), order_by_dim=s.val(True)), 'dim %d' % d)
        for b in (1, 2):
            fn(DIS, 'Q_discrete_white_noise', lambda s: [s.val(d), s.num('dt'), s.num('v'), s.val(b)], lambda s: dict(order_by_dim=s.val(True)), 'dim %d, blocks %d' % (d, b))
            fn(DIS, 'Q_continuous_white_noise', lambda s: [s.val(d), s.num('dt'), s.num('v'), s.val(b)], lambda s: dict(order_by_dim=s.val(True)), 'dim %d, blocks %d' % (d, b))
    for dm, o in ((1, 1), (2, 1), (1, 2), (3, 0)):
        fn(KIN, 'kinematic_kf', lambda s: [s.val(dm), s.val(o)], lambda s: dict(dt=num(1), dim_z=s.val(1), order_by_dim=s.val(True), kf=s.val(None)), 'dim %d order %d' % (dm, o))
        fn(KIN, 'kinematic_kf', lambda s: [s.val(dm), s.val(o), s.num('dt')], lambda s: dict(dim_z=s.val(1), order_by_dim=s.val(True)), 'dim %d order %d, dt' % (dm, o))
    for e in ('left', 'right'):
        for off in (0, 1, -2):
            fn('filterpy.discrete_bayes', 'predict', lambda s: [s.sym('pdf', 5), s.val(off), s.sym('kernel', 3)], lambda s: dict(mode=s.val('wrap'), cval=num(0)), 'offset %d' % off)
    fn('filterpy.discrete_bayes', 'predict', lambda s: [s.sym('pdf', 5), s.val(1), s.sym('kernel', 3), s.val('constant')], lambda s: dict(cval=num(0)), 'constant')
    fn(GH, 'critical_damping_parameters', lambda s: [num(Fr(1, 2))], lambda s: dict(order=s.val(2)))
    fn(GH, 'benedict_bornder_constants', lambda s: [s.num('g')], lambda s: dict(critical=s.val(False)))
    fn(ST, 'gaussian', lambda s: [s.num('x'), s.num('mean'), s.num('var')], lambda s: dict(normed=s.val(True)))
    fn(ST, 'covariance_ellipse', lambda s: [s.arr(SymP('P', 2))], lambda s: dict(deviations=num(1)))
    fn(ST, 'norm_cdf', lambda s: [s.val((s.num('a'), s.num('b'))), s.num('mu')], lambda s: dict(var=num(1), std=s.val(None)))
    fn(ST, 'norm_cdf', lambda s: [s.val((s.num('a'), s.num('b'))), s.num('mu'), s.num('var')], lambda s: dict(std=s.val(None)), 'variance given')
    fn(ST, 'logpdf', lambda s: [s.sym('x', n, 1), s.sym('mean', n, 1), s.arr(SymP('cov', n))], lambda s: dict(allow_singular=s.val(True)), 'mean and cov given')
    fn('filterpy.common', 'outer_product_sum', lambda s: [s.sym('A', dim('N'), n)], lambda s: dict(B=s.sym('A', dim('N'), n)), 'B is A')
    # stand-alone Kalman filter functions
    vec = lambda s: [s.sym('x', n, 1), s.arr(SymP('P', n))]
    fn(KF, 'predict', vec, lambda s: dict(F=num(1), Q=num(0), u=num(0), B=num(1), alpha=num(1)), 'matrix state')
    fn(KF, 'predict', lambda s: vec(s) + [s.sym('F', n, n), s.arr(SymP('Q', n))], lambda s: dict(u=num(0), B=num(1), alpha=num(1)), 'F and Q given')
    fn(KF, 'predict', lambda s: vec(s) + [s.sym('F', n, n), s.arr(SymP('Q', n)), s.sym('u', n, 1)], lambda s: dict(B=num(1), alpha=num(1)), 'F, Q and u given')
    fn(KF, 'predict', lambda s: [s.num('x'), s.num('P')], lambda s: dict(F=num(1), Q=num(0), u=num(0), B=num(1), alpha=num(1)), 'scalar state')
    fn(KF, 'predict_steadystate', lambda s: [s.sym('x', n, 1)], lambda s: dict(F=num(1), u=num(0), B=num(1)), 'matrix state')
    fn(KF, 'predict_steadystate', lambda s: [s.sym('x', n, 1), s.sym('F', n, n), s.sym('u', n, 1)], lambda s: dict(B=num(1)), 'u given')
    fn(KF, 'predict_steadystate', lambda s: [s.num('x')], lambda s: dict(F=num(1), u=num(0), B=num(1)), 'scalar state')
    fn(KF, 'update', lambda s: [s.num(v) for v in 'xPzR'], lambda s: dict(H=s.val(None), return_all=s.val(False)), 'H omitted')
    fn(KF, 'update', lambda s: vec(s) + [s.sym('z', m, 1), s.arr(SymP('R', m)), s.sym('H', m, n)], lambda s: dict(return_all=s.val(False)), 'H given')
    fn(KF, 'update_steadystate', lambda s: [s.num('x'), s.num('z'), s.num('K')], lambda s: dict(H=s.val(None)), 'scalar')

    def meth(name, mk, args, kw, ctx='defaults', method='predict'):
        def f(s):
            o = mk(s)
            return s.call(o, method, *args(s)), o

        def g(s):
            o = mk(s)
            return s.call(o, method, *args(s), **kw(s)), o
        same_runs(L, '%s.%s' % (name, method), ctx, f, g)
    nothing = lambda s: []
    u0 = lambda s: dict(u=num(0))

    def mods(s, mod, cls, *pre):
        o = s.make(mod, cls, *(list(pre) + [n, m, l]))
        for k, v in (('x', Sym('x', n, 1)), ('P', SymP('P', n)), ('F', Sym('F', n, n)), ('Q', SymP('Q', n)), ('B', Sym('B', n, l))):
            if k in s.attrs(o) or cls == 'SquareRootKalmanFilter':
                r = s.assign(o, k, s.arr(v))
                if not r.ok:
                    raise Broken('assignment to %s fails' % k, r)
        return o
    meth('ExtendedKalmanFilter', lambda s: mods(s, EKFS.EKF, 'ExtendedKalmanFilter'), nothing, u0)
    meth('ExtendedKalmanFilter', lambda s: mods(s, EKFS.EKF, 'ExtendedKalmanFilter'), nothing, u0, method='predict_x')
    meth('SquareRootKalmanFilter', lambda s: mods(s, LIN.SQ, 'SquareRootKalmanFilter'), nothing, u0)

    def fade(s):
        s.I.assume(s.st, A.ind('<', A.sym('a') - 1), False)
        return mods(s, LIN.FM, 'FadingKalmanFilter', s.num('a'))
    meth('FadingKalmanFilter', fade, nothing, u0)
    meth('FadingKalmanFilter', fade, nothing, u0, method='get_prediction')

    def hinf(s):
        o = s.make(LIN.HI, 'HInfinityFilter', n, m, l, s.num('gamma'))
        for k, v in (('x', Sym('x', n, 1)), ('P', SymP('P', n)), ('F', Sym('F', n, n)), ('Q', SymP('Q', n)), ('B', Sym('B', n, l))):
            s.assign(o, k, s.arr(v))
        return o
    meth('HInfinityFilter', hinf, nothing, u0)
    meth('HInfinityFilter', hinf, nothing, u0, method='get_prediction')

    def info(s):
        o = s.make(LIN.IF, 'InformationFilter', n, m, l)
        for k, v in (('x', Sym('x', n, 1)), ('P_inv', SymP('P_inv', n)), ('F', Sym('F', n, n)), ('Q', SymP('Q', n)), ('B', Sym('B', n, l))):
            s.assign(o, k, s.arr(v))
        return o
    meth('InformationFilter', info, nothing, u0)

    def ekf(s):
        o = mods(s, EKFS.EKF, 'ExtendedKalmanFilter')
        s.put(o, 'R', s.arr(SymP('R', m)))
        return o
    meth('ExtendedKalmanFilter', ekf, lambda s: [s.sym('z', m, 1), s.ufn('HJ', (m, n)), s.ufn('Hx', (m, 1))],
         lambda s: dict(R=s.val(None), args=s.val(()), hx_args=s.val(()), residual=Ext('numpy.subtract')), method='update')
    meth('ExtendedKalmanFilter', ekf, lambda s: [s.sym('z', m, 1), s.ufn('HJ', (m, n)), s.ufn('Hx', (m, 1))],
         lambda s: dict(args=s.val(()), hx_args=s.val(()), u=num(0)), method='predict_update')

    def ctor(mod, cls, args, kw, ctx='constructor'):
        same_runs(L, cls, ctx, lambda s: made(s, mod, cls, args(s), {}), lambda s: made(s, mod, cls, args(s), kw(s)))

    def made(s, mod, cls, a, kw):
        i = L.prog.cls(mod, cls)
        r = s.guard(lambda: s.I.instantiate(s.st, i, [s.val(x) for x in a], {k: s.val(v) for k, v in kw.items()}))
        return (r, r.val) if r.ok else r
    for mod, cls in ((KFS.KF, 'KalmanFilter'), (EKFS.EKF, 'ExtendedKalmanFilter'), (LIN.SQ, 'SquareRootKalmanFilter')):
        ctor(mod, cls, lambda s: [n, m], lambda s: dict(dim_u=s.val(0)))
    ctor(LIN.FM, 'FadingKalmanFilter', lambda s: [num(2), n, m], lambda s: dict(dim_u=s.val(0)))
    ctor(LIN.IF, 'InformationFilter', lambda s: [n, m], lambda s: dict(dim_u=s.val(0), compute_log_likelihood=s.val(True)))
    ctor('filterpy.leastsq.least_squares', 'LeastSquaresFilter', lambda s: [s.num('dt'), s.val(1)], lambda s: dict(noise_sigma=num(0)))
    SP = 'filterpy.kalman.sigma_points'
    chol, sub = Ext('scipy.linalg.cholesky'), Ext('numpy.subtract')
    both = lambda s: dict(sqrt_method=chol, subtract=sub)
    ctor(SP, 'MerweScaledSigmaPoints', lambda s: [n, s.num('alpha'), s.num('beta'), s.num('kappa')], both)
    ctor(SP, 'JulierSigmaPoints', lambda s: [n], lambda s: dict(both(s), kappa=num(0)))
    ctor(SP, 'JulierSigmaPoints', lambda s: [n, s.num('kappa')], both, 'kappa given')
    ctor(SP, 'SimplexSigmaPoints', lambda s: [s.val(3)], lambda s: dict(both(s), alpha=num(1)))
    k = dim('k')
    ufns = lambda s: [n, m, s.num('dt'), s.ufn('hx', (m,)), s.ufn('fx', (n,))]

    def uk(s, kw):
        # the unscented filter keeps the given point object: compare everything else
        i = L.prog.cls(UKFS.UK, 'UnscentedKalmanFilter')
        r = s.guard(lambda: s.I.instantiate(s.st, i, [s.val(x) for x in ufns(s)] + [UKFS.points_stub(s, n, k)], {a: s.val(v) for a, v in kw.items()}))
        if r.ok:
            at = s.attrs(r.val)
            r.val = Con(None)
            return (r,) + tuple(at[a] for a in sorted(at) if a not in ('points_fn', 'fx', 'hx', '_dt'))
        return r
    same_runs(L, 'UnscentedKalmanFilter', 'constructor', lambda s: uk(s, {}), lambda s: uk(s, dict(residual_x=sub, residual_z=sub, state_add=Ext('numpy.add'), x_mean_fn=Con(None), z_mean_fn=Con(None))))

    def ck(s, kw):
        i = L.prog.cls(CKFS.CK, 'CubatureKalmanFilter')
        r = s.guard(lambda: s.I.instantiate(s.st, i, [s.val(x) for x in ufns(s)], {a: s.val(v) for a, v in kw.items()}))
        if r.ok:
            at = s.attrs(r.val)
            r.val = Con(None)
            return (r,) + tuple(at[a] for a in sorted(at) if a not in ('fx', 'hx'))
        return r
    same_runs(L, 'CubatureKalmanFilter', 'constructor', lambda s: ck(s, {}), lambda s: ck(s, dict(residual_x=sub, residual_z=sub, x_mean_fn=Con(None), z_mean_fn=Con(None))))


SUITES = [suite_initial, suite_defaults]
suite_initial.tags = ('C39', 'C11', 'C07')
suite_defaults.tags = C
