"""Sigma points, unscented transform, unscented Kalman filter."""
from ..lab import *      # noqa
from .. import algebra as A
from .. import npmodel
from .common import *    # noqa
from .kf import ctxs, per_step, const_list, batch_suite, saver_stub, check_saves

SP = 'filterpy.kalman.sigma_points'
UTM = 'filterpy.kalman.unscented_transform'
UK = 'filterpy.kalman.UKF'


# -------------------------------------------------------------- sigma points
def weighted(s, o, x, P, sig, n, cls, L, wm, wc):
    k = sig.shape[0]
    L.eq(('C14',), '%s: mean weights sum to one' % cls, s, wm.sum(), M(A.scalar(A.P1)))
    L.eq(('C14',), '%s: weighted mean of the points is x' % cls, s, wm @ sig, x)
    d = M(A.sub(sig.t, A.expand(x.t, 0, k))) if hasattr(A, 'expand') else sig - x
    L.eq(('C14',), '%s: weighted second moment of the points is P' % cls, s, einsum('k,ki,kj->ij', wc, d, d), P)


def suite_points(L):
    tags = ('C14', 'C06', 'C11', 'C31', 'C34', 'C32')
    if not L.want(*tags):
        return
    al, be, ka = Sym('alpha'), Sym('beta'), Sym('kappa')
    for cls in ('MerweScaledSigmaPoints', 'JulierSigmaPoints', 'SimplexSigmaPoints'):
        sizes = [('n', dim('n')), ('1', Lin(1))]
        if cls == 'SimplexSigmaPoints':
            sizes = [(str(i), Lin(i)) for i in range(1, 6 if L.tier == 'quick' else 8)]

        for nm, n in sizes:
            def mk(s, **kw):
                if cls == 'MerweScaledSigmaPoints':
                    return s.make(SP, cls, n, s.num('alpha'), s.num('beta'), s.num('kappa'), **kw)
                if cls == 'JulierSigmaPoints':
                    return s.make(SP, cls, n, s.num('kappa'), **kw)
                return s.make(SP, cls, n, **kw)
            nn = M(A.scalar(A.from_lin(n)))
            if cls == 'MerweScaledSigmaPoints':
                lam = al * al * (nn + ka) - nn
                scale = lam + nn
                count = n * 2 + 1
            elif cls == 'JulierSigmaPoints':
                lam = ka
                scale = nn + ka
                count = n * 2 + 1
            else:
                scale = M(A.scalar(A.P1))
                count = n + 1

            def weights():
                s = L.session('%s weights, n=%s' % (cls, nm))
                o = mk(s)
                r = s.call(o, 'num_sigmas')
                if L.runs(('C14', 'C34'), '%s.num_sigmas runs' % cls, s, r):
                    L.eq(('C14',), '%s: number of points' % cls, s, r.val, M(A.scalar(A.from_lin(count))))
                if cls == 'SimplexSigmaPoints':
                    w = Full(A.from_lin(n + 1) ** -1 if not n.is_const() else A.Fr(1, int(n.c) + 1), count)
                    wm = wc = w
                else:
                    c = M(A.scalar(A.Fr(1, 2) * A.P1)) / scale
                    rest = M(A.const_ten((n * 2,), c.p))
                    w0 = lam / scale
                    wm = M(A.concat([w0.reshape(1).t, rest.t], 0))
                    wc = wm
                    if cls == 'MerweScaledSigmaPoints':
                        wc = M(A.concat([(w0 + (1 - al * al + be)).reshape(1).t, rest.t], 0))
                L.eq(('C14', 'C11'), '%s: mean weights' % cls, s, None, wm, o, 'Wm')
                L.eq(('C14', 'C11'), '%s: covariance weights' % cls, s, None, wc, o, 'Wc')
            L.guarded('%s weights n=%s' % (cls, nm), weights)

            forms = ['default', 'sqrt_method', 'subtract', 'scalar P'] + (['scalar x and P'] if n == Lin(1) else [])
            for v in forms:
                def points():
                    s = L.session('%s.sigma_points, %s, n=%s' % (cls, v, nm))
                    kw = {}
                    if v == 'sqrt_method':
                        kw['sqrt_method'] = s.ufn('sqrt', (n, n))
                    if v == 'subtract':
                        rec = []
                        if cls == 'SimplexSigmaPoints':
                            kw['subtract'] = s.ufn('subtract', (n, count), rec)
                        else:
                            kw['subtract'] = s.ufn('subtract', (n,), rec)
                    o = mk(s, **kw)
                    x, P = Sym('x', n), SymP('P', n)
                    xv, Pv = s.arr(x, 'param x'), s.arr(P, 'param P')
                    if v in ('scalar P', 'scalar x and P'):
                        Pv = s.num('p')
                        P = Eye(n) * Sym('p')
                    if v == 'scalar x and P':
                        xv, x = s.num('xs'), Sym('xs').reshape(1)
                    before = snap(s, o)
                    r = s.call(o, 'sigma_points', xv, Pv)
                    if not L.runs(('C14', 'C11', 'C34'), '%s.sigma_points runs' % cls, s, r):
                        return
                    pure(L, ('C06',), '%s.sigma_points leaves the generator unchanged' % cls, s, o, before)
                    no_mutation(L, s)
                    sig = M(s.ten(r.val))
                    L.true(('C14', 'C11'), '%s: shape of the points' % cls, s, sig.t.shape == (count, n), 'shape %r' % (sig.t.shape,))
                    if sig.t.shape != (count, n):
                        return
                    if v not in ('sqrt_method', 'subtract'):
                        wm, wc = M(s.ten(s.get(o, 'Wm'))), M(s.ten(s.get(o, 'Wc')))
                        L.eq(('C14',), '%s: mean weights sum to one' % cls, s, wm.sum(), M(A.scalar(A.P1)))
                        L.eq(('C14',), '%s: weighted mean of the points is x' % cls, s, wm @ sig, x)
                        d = sig - x
                        if cls == 'MerweScaledSigmaPoints':
                            # the centre term vanishes: the first point is x itself
                            L.eq(('C14',), '%s: first point is x' % cls, s, sig.row(0), x)
                        if cls == 'JulierSigmaPoints':
                            L.eq(('C14',), '%s: first point is x' % cls, s, sig.row(0), x)
                        L.eq(('C14',), '%s: weighted second moment of the points is P' % cls, s, einsum('k,ki,kj->ij', wc, d, d), P)
                    elif cls != 'SimplexSigmaPoints':
                        if v == 'sqrt_method':
                            U = s.u('sqrt', (n, n), P * scale)
                            plus, minus = U + x, x - U
                        else:
                            U = M(A.transpose(npmodel.chol_ten((P * scale).t)))
                            lv = ('l', 'row', n)
                            row = M(A.index_axis(U.t, 0, A.lvar(lv)))
                            plus = stack_rows(s.u('subtract', (n,), x, -row), lv, n)
                            minus = stack_rows(s.u('subtract', (n,), x, row), lv, n)
                        want = M(A.concat([x.reshape(1, n).t, plus.t, minus.t], 0))
                        L.eq(('C14', 'C32'), '%s: points from the given %s' % (cls, v), s, sig, want)
                    elif v == 'sqrt_method':
                        U = s.u('sqrt', (n, n), P)
                        wm, wc = M(s.ten(s.get(o, 'Wm'))), M(s.ten(s.get(o, 'Wc')))
                        L.eq(('C14', 'C32'), '%s: weighted mean with the given %s' % (cls, v), s, wm @ sig, x)
                        d = sig - x
                        L.eq(('C14', 'C32'), '%s: second moment with the given %s' % (cls, v), s, einsum('k,ki,kj->ij', wc, d, d), U.T @ U)
                    else:
                        L.true(('C14', 'C32'), '%s: the given subtract is used' % cls, s, len(rec) >= 1, 'subtract is never called')
                L.guarded('%s points n=%s %s' % (cls, nm, v), points)

            def wrong():
                s = L.session('%s.sigma_points, wrong size, n=%s' % (cls, nm))
                o = mk(s)
                L.runs(('C31',), '%s.sigma_points rejects a mean of the wrong size' % cls, s, s.call(o, 'sigma_points', s.sym('x', n + 1), s.sym('P', n + 1, n + 1)), True)
            L.guarded('%s wrong size' % cls, wrong)


def stack_rows(m, var, n):
    """rows m(var) for var = 0..n-1"""
    return M(X.stack_over(m.t, var, n))


# -------------------------------------------------------------------- UT
def ut_stub(s, name, n):
    """replacement for the unscented transform"""
    def f(I, st, a, kw):
        fz = s.freeze_args(st, a, kw)
        d = I.to_ten(st, a[0]).shape[1]
        return Tup([I.mk(st, npmodel.app_ten('u:%s_x' % name, fz, (d,))), I.mk(st, npmodel.app_ten('u:%s_P' % name, fz, (d, d), True))])
    return UFn(name, f)


def suite_ut(L):
    tags = ('C15', 'C06', 'C10', 'C11', 'C34', 'C32')
    if not L.want(*tags):
        return
    k = dim('k')
    for nm, n in (('n', dim('n')), ('1', Lin(1))):
        for noise in (True, False):
            for mean in (None, 'mean'):
                for res in (None, 'numpy.subtract', 'residual'):
                    def go():
                        s = L.session('unscented_transform, n=%s, noise %s, mean function %s, residual function %s' % (nm, noise, mean, res))
                        s.I.let_limit = 24

                        def args(s):
                            a = [s.sym('sigmas', k, n, prov='param sigmas'), s.sym('Wm', k, prov='param Wm'), s.sym('Wc', k, prov='param Wc'),
                                 s.arr(SymP('noise', n), 'param noise_cov') if noise else s.val(None),
                                 s.ufn('mean', (n,)) if mean else s.val(None)]
                            return a
                        rf = {None: s.val(None), 'numpy.subtract': Ext('numpy.subtract'), 'residual': s.ufn('residual', (n,))}[res]
                        r = s.fn(UTM, 'unscented_transform', *(args(s) + [rf]))
                        if not L.runs(('C15', 'C11', 'C34'), 'unscented_transform runs', s, r):
                            return
                        g = pair(s, r.val, 2)
                        s2 = L.session('')
                        s2.I.let_limit = 24
                        w = pair(s2, s2.ref('ut', *(args(s2) + [Ext('numpy.subtract') if res is None else (rf if res != 'residual' else s2.ufn('residual', (n,)))])), 2)
                        L.eq(('C15', 'C11') + (('C32',) if mean else ()), 'unscented_transform: mean', s, g[0], M(s2.ten(w[0])))
                        L.eq(('C15', 'C11') + (('C32',) if res else ()), 'unscented_transform: covariance', s, g[1], M(s2.ten(w[1])))
                        symmetric(L, ('C10',), 'unscented_transform: covariance symmetric', s, None, 'P', val=M(s.ten(g[1])))
                        no_mutation(L, s)
                    L.guarded('unscented_transform', go)


# ------------------------------------------------------------------- UKF
def points_stub(s, n, k, mark='points'):
    at = dict(Wm=s.sym('Wm', k, prov='param points.Wm'), Wc=s.sym('Wc', k, prov='param points.Wc'), n=s.val(n))
    at['num_sigmas'] = UFn('num_sigmas', lambda I, st, a, kw: Num(A.from_lin(k), True))
    at['sigma_points'] = s.ufn('sigma_points', (k, n))
    return Obj(s.st.new(ObjC(None, at)))


CUSTOM = ('plain', 'custom')


def make_ukf(s, n, m, k, custom=False, pts=None):
    kw = {}
    if custom:
        kw = dict(x_mean_fn=s.ufn('x_mean', (n,)), z_mean_fn=s.ufn('z_mean', (m,)), residual_x=s.ufn('residual_x', (n,)), residual_z=s.ufn('residual_z', (m,)),
                  state_add=s.ufn('state_add', (n,)))
        if custom is not True:
            kw = {a: f for a, f in kw.items() if a == custom}
    o = s.make(UK, 'UnscentedKalmanFilter', n, m, s.num('dt'), s.ufn('hx', (m,)), s.ufn('fx', (n,)), points_stub(s, n, k) if pts is None else pts, **kw)
    for kk, v in dict(x=Sym('x', n), P=SymP('P', n), Q=SymP('Q', n), R=SymP('R', m)).items():
        r = s.assign(o, kk, s.arr(v))
        if not r.ok:
            raise Broken('assignment to %s fails' % kk, r)
    if custom == 'inv of S':
        s.assign(o, 'inv', s.ufn('inverse', (m, m)))
    if custom == 'inv of P':
        s.assign(o, 'inv', s.ufn('inverse', (n, n)))
    return o


HOOKS = ('x_mean_fn', 'z_mean_fn', 'residual_x', 'residual_z', 'state_add')


def hooks(cname, *more):
    """default functions, all caller-supplied, and each alone (generic sizes)"""
    return (False, True) + (HOOKS + more if 'generic' in cname else ())


def fns(s, n, m, custom):
    sub, add = Ext('numpy.subtract'), Ext('numpy.add')
    f = dict(x_mean=s.ufn('x_mean', (n,)), z_mean=s.ufn('z_mean', (m,)), rx=s.ufn('residual_x', (n,)), rz=s.ufn('residual_z', (m,)), add=s.ufn('state_add', (n,)))
    if custom is True:
        return f
    own = dict(zip(HOOKS, f)).get(custom)
    return dict(dict(x_mean=s.val(None), z_mean=s.val(None), rx=sub, rz=sub, add=add), **({own: f[own]} if own else {}))


def which(custom):
    return 'custom functions' if custom is True else 'only %s set' % custom if custom else 'default functions'


def uctx():
    n, m = dim('n'), dim('m')
    return [('n,m generic', n, m), ('dim_z=1', n, Lin(1)), ('dim_x=dim_z=1', Lin(1), Lin(1))]


TAGS = ('C15', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C34', 'C32')


def dct(s, **kw):
    return Dct(s.st.new(DictC({k: s.val(v) for k, v in kw.items()})))


def suite_ukf_predict(L):
    if not L.want(*TAGS):
        return
    k = dim('k')
    for cname, n, m in uctx():
        for custom in hooks(cname):
            for v in ('plain', 'dt', 'fx', 'UT', 'arguments', 'dt+fx', 'dt+UT', 'dt+arguments', 'fx+UT', 'fx+arguments', 'UT+arguments'):
                if custom not in (False, True) and v != 'plain':
                    continue
                def go():
                    c = v.split('+')
                    def setup():
                        s = L.session('UnscentedKalmanFilter.predict, %s, %s, %s' % (v, cname, which(custom)))
                        s.I.let_limit = 24
                        return s, make_ukf(s, n, m, k, custom)
                    s, o = setup()
                    kw = {}
                    if 'dt' in c:
                        kw['dt'] = s.num('dt2')
                    if 'fx' in c:
                        kw['fx'] = s.ufn('fx2', (n,))
                    if 'UT' in c:
                        kw['UT'] = ut_stub(s, 'UT2', n)
                    if 'arguments' in c:
                        kw['q1'] = s.num('q1')
                        kw['q2'] = s.num('q2')
                    freeze_all(s, o)
                    before = snap(s, o)
                    r = s.call(o, 'predict', **kw)
                    if not L.runs(('C15', 'C11', 'C34', 'C09'), 'UKF.predict runs', s, r):
                        return
                    s2, o2 = setup()
                    f = fns(s2, n, m, custom)
                    args = dct(s2, **({'q1': s2.num('q1'), 'q2': s2.num('q2')} if 'arguments' in c else {}))
                    w = s2.ref('ukf_predict', o2, s2.num('dt2' if 'dt' in c else 'dt'), s2.ufn('fx2' if 'fx' in c else 'fx', (n,)), args,
                               ut_stub(s2, 'UT2', n) if 'UT' in c else None, f['x_mean'], f['rx'])
                    x, P, sig = [M(s2.ten(q)) for q in pair(s2, w, 3)]
                    tg = ('C15', 'C11') + (('C09',) if v != 'plain' else ()) + (('C32',) if custom else ())
                    L.eq(tg, 'UKF.predict: x', s, None, x, o, 'x')
                    L.eq(tg, 'UKF.predict: P', s, None, P, o, 'P')
                    L.eq(tg, 'UKF.predict: sigma points of the prediction', s, None, sig, o, 'sigmas_f')
                    L.eq(('C07', 'C11'), 'UKF.predict: x_prior', s, None, x, o, 'x_prior')
                    L.eq(('C07', 'C11'), 'UKF.predict: P_prior', s, None, P, o, 'P_prior')
                    same_attrs(L, ('C09', 'C15'), 'UKF.predict keeps the model', s, o, before, ('Q', 'R', '_dt', 'fx', 'hx', 'Wm', 'Wc', 'points_fn', 'x_mean', 'z_mean', 'residual_x', 'residual_z'))
                    same_attrs(L, ('C07',), 'UKF.predict leaves the posterior snapshot', s, o, before, ('x_post', 'P_post'))
                    symmetric(L, ('C10',), 'UKF.predict: P symmetric', s, o, 'P')
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_prior'), ('P', 'P_prior')])
                    no_mutation(L, s)
                    # the points of the previous step must not matter
                L.guarded('UKF.predict %s' % v, go)


def suite_ukf_update(L):
    if not L.want(*TAGS):
        return
    k = dim('k')
    for cname, n, m in uctx():
        for custom in hooks(cname, 'inv of S'):
            for v in ('plain', 'R', 'scalar R', 'hx', 'UT', 'arguments', 'none', 'R+hx', 'R+UT', 'R+arguments', 'scalar R+hx', 'scalar R+UT', 'hx+UT', 'hx+arguments', 'UT+arguments') + \
                    (('scalar z', 'scalar z+scalar R') if m == Lin(1) else ()):
                if custom not in (False, True) and v != 'plain':
                    continue

                def go():
                    c = v.split('+')
                    def setup():
                        s = L.session('UnscentedKalmanFilter.update, %s, %s, %s' % (v, cname, which(custom)))
                        s.I.let_limit = 24
                        o = make_ukf(s, n, m, k, custom)
                        s.put(o, 'sigmas_f', s.sym('sigmas_f', k, n))
                        symbolise(s, o, ('x_prior', 'P_prior', 'x_post', 'P_post', 'z', 'y', 'K', 'S', 'SI'))
                        return s, o
                    s, o = setup()
                    kw = {}
                    R, Rn = SymP('R', m), 'R'
                    if 'R' in c:
                        R = SymP('R2', m)
                        kw['R'] = s.arr(R, 'param R')
                    if 'scalar R' in c:
                        R = Eye(m) * Sym('r')
                        kw['R'] = s.num('r')
                    if 'hx' in c:
                        kw['hx'] = s.ufn('hx2', (m,))
                    if 'UT' in c:
                        kw['UT'] = ut_stub(s, 'UT2', m)
                    if 'arguments' in c:
                        kw['q1'] = s.num('q1')
                        kw['q2'] = s.num('q2')
                    freeze_all(s, o)
                    before = snap(s, o)
                    z = Sym('z', m)
                    zv = s.num('zs') if 'scalar z' in c else s.arr(z, 'param z')
                    if v == 'none':
                        r = s.call(o, 'update', None)
                        if not L.runs(('C05', 'C34'), 'UKF.update(None) runs', s, r):
                            return
                        same_attrs(L, ('C05',), 'UKF missing measurement: unchanged', s, o, before, ('x', 'P', 'x_prior', 'P_prior', 'Q', 'R', 'sigmas_f'))
                        L.eq(('C05', 'C07'), 'UKF missing measurement: x_post', s, None, Sym('x', n), o, 'x_post')
                        L.eq(('C05', 'C07'), 'UKF missing measurement: P_post', s, None, SymP('P', n), o, 'P_post')
                        L.none(('C05',), 'UKF missing measurement: z', s, None, o, 'z')
                        record_shapes(L, s, o, before)
                        independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                        return
                    r = s.call(o, 'update', zv, **kw)
                    if not L.runs(('C15', 'C11', 'C34', 'C09'), 'UKF.update runs', s, r):
                        return
                    s2, o2 = setup()
                    f = fns(s2, n, m, custom)
                    args = dct(s2, **({'q1': s2.num('q1'), 'q2': s2.num('q2')} if 'arguments' in c else {}))
                    zr = s2.num('zs') if 'scalar z' in c else s2.arr(z)
                    w = s2.ref('ukf_update', o2, zr, s2.arr(R), s2.ufn('hx2' if 'hx' in c else 'hx', (m,)), args,
                               ut_stub(s2, 'UT2', m) if 'UT' in c else None, f['z_mean'], f['rx'], f['rz'], f['add'])
                    x, P, y, S_, SI, K, sh = [M(s2.ten(q)) for q in pair(s2, w, 7)]
                    tg = ('C15', 'C11') + (('C09',) if v != 'plain' else ()) + (('C32',) if custom else ())
                    for nm, wv in (('sigmas_h', sh), ('S', S_), ('SI', SI), ('K', K), ('y', y), ('x', x), ('P', P)):
                        L.eq(tg, 'UKF.update: %s' % nm, s, None, wv, o, nm)
                    L.eq(('C07', 'C11'), 'UKF.update: x_post', s, None, x, o, 'x_post')
                    L.eq(('C07', 'C11'), 'UKF.update: P_post', s, None, P, o, 'P_post')
                    L.eq(('C07',), 'UKF.update: stored z', s, lambda: column(s, o, 'z', m), (Sym('zs') if 'scalar z' in c else z).reshape(m, 1))
                    same_attrs(L, ('C07',), 'UKF.update leaves the prior snapshot', s, o, before, ('x_prior', 'P_prior'))
                    same_attrs(L, ('C09', 'C15'), 'UKF.update keeps the model', s, o, before, ('Q', 'R', '_dt', 'fx', 'hx', 'Wm', 'Wc', 'points_fn', 'x_mean', 'z_mean', 'residual_x', 'residual_z'))
                    symmetric(L, ('C10',), 'UKF.update: P symmetric', s, o, 'P')
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                    no_mutation(L, s)
                    diagnostics(L, s, o, tensor(s, o, 'y'), tensor(s, o, 'S'), 'UKF', SI=tensor(s, o, 'SI'))
                    if v == 'plain' and L.want('C08'):
                        r = s.call(o, 'update', s.sym('z2', m))
                        if r.ok:
                            diagnostics(L, s, o, tensor(s, o, 'y'), tensor(s, o, 'S'), 'UKF again', SI=tensor(s, o, 'SI'))
                L.guarded('UKF.update %s' % v, go)


def suite_ukf_batch(L):
    if not L.want('C04', 'C06', 'C11', 'C34', 'C15'):
        return
    k = dim('k')
    for nm, n, m in uctx():
        for N in (dim('N'), Lin(3), Lin(1)):
            for v in ('plain', 'lists', 'lists and UT', 'missing', 'scalar dts', 'only Rs', 'only dts', 'only UT', 'Rs, scalar dts'):
                if N != Lin(3) and (v == 'missing' or v.startswith(('only', 'Rs'))):
                    continue

                def go():
                    def setup():
                        s = L.session('UnscentedKalmanFilter.batch_filter, %s, %s measurements, %s' % (v, N, nm))
                        s.I.let_limit = s.I.let_local = 60
                        o = make_ukf(s, n, m, k)
                        freeze_all(s, o)
                        if v == 'missing':
                            zs = s.val([None, Sym('z1', m), None])
                        else:
                            zs = per_step(s, N, 'zs', m)
                        a = [None, None, None]
                        if v.startswith('lists'):
                            a = [s.listof(N, lambda i: M(A.index_axis(Sym('Rs', N, m, m, sym=True).t, 0, i)), 'param Rs'), per_step(s, N, 'dts'), ut_stub(s, 'UT2', n) if 'UT' in v else None]
                        if 'only' in v or v.startswith('Rs'):
                            full = [s.listof(N, lambda i: M(A.index_axis(Sym('Rs', N, m, m, sym=True).t, 0, i)), 'param Rs'), per_step(s, N, 'dts'), ut_stub(s, 'UT2', n)]
                            a = [x if q in v else None for q, x in zip(('Rs', 'only dts', 'UT'), full)]
                        if 'scalar dts' in v:
                            a[1] = s.num('dt2')
                        return s, o, zs, a
                    s, o, zs, a = setup()
                    sv, saves = saver_stub(s)
                    r = s.call(o, 'batch_filter', zs, saver=sv, **{kk: vv for kk, vv in zip(('Rs', 'dts', 'UT'), a) if vv is not None})
                    if not L.runs(('C04', 'C11', 'C34', 'C15'), 'UKF.batch_filter runs', s, r):
                        return
                    check_saves(L, s, saves, N, 'UKF.batch_filter')
                    s2, o2, zs, a = setup()
                    if a[0] is None:
                        a[0] = const_list(s2, N, SymP('R', m))
                    if a[1] is None or 'scalar dts' in v:
                        a[1] = const_list(s2, N, s2.num('dt2' if 'scalar dts' in v else 'dt'))
                    w = pair(s2, s2.ref('ukf_batch', o2, zs, *a), 2)
                    g = pair(s, r.val, 2)
                    L.eq(('C04', 'C11'), 'UKF.batch_filter: means', s, g[0], M(s2.ten(w[0])))
                    L.eq(('C04', 'C11'), 'UKF.batch_filter: covariances', s, g[1], M(s2.ten(w[1])))
                    for kk in 'xP':
                        L.eq(('C04',), 'UKF.batch_filter: final %s' % kk, s, None, tensor(s2, o2, kk), o, kk)
                    no_mutation(L, s)
                L.guarded('UKF.batch_filter %s' % v, go)


def suite_ukf_rts(L):
    if not L.want('C12', 'C06', 'C10', 'C11', 'C34', 'C32'):
        return
    n, m, k = dim('n'), dim('m'), dim('k')
    for N in (dim('N', 2), Lin(3), Lin(1)):
        for custom in hooks('generic' if N == Lin(3) else '', 'inv of P'):
            for v in ('plain', 'lists', 'scalar dts', 'UT', 'only Qs', 'only dts', 'Qs+scalar dts', 'lists+UT'):
                if N != Lin(3) and ('only' in v or '+' in v) or custom not in (False, True) and v != 'plain':
                    continue

                def go():
                    def setup():
                        s = L.session('UnscentedKalmanFilter.rts_smoother, %s, %s steps, %s' % (v, N, which(custom)))
                        s.I.let_limit = s.I.let_local = 60
                        o = make_ukf(s, n, m, k, custom)
                        freeze_all(s, o)
                        return s, o, s.sym('Xs', N, n, prov='param Xs'), s.arr(Sym('Ps', N, n, n, sym=True), 'param Ps')
                    s, o, Xs, Ps = setup()

                    def lists(s):
                        return s.listof(N, lambda i: M(A.index_axis(Sym('Qs', N, n, n, sym=True).t, 0, i)), 'param Qs'), per_step(s, N, 'dts')
                    kw = {}
                    if 'lists' in v:
                        kw['Qs'], kw['dts'] = lists(s)
                    if 'Qs' in v:
                        kw['Qs'] = lists(s)[0]
                    if v == 'only dts':
                        kw['dts'] = lists(s)[1]
                    if 'scalar dts' in v:
                        kw['dts'] = s.num('dt2')
                    if 'UT' in v:
                        kw['UT'] = ut_stub(s, 'UT2', n)
                    before = snap(s, o)
                    r = s.call(o, 'rts_smoother', Xs, Ps, **kw)
                    if not L.runs(('C12', 'C11', 'C34'), 'UKF.rts_smoother runs', s, r):
                        return
                    pure(L, ('C06',), 'UKF.rts_smoother leaves the filter unchanged', s, o, before)
                    s2, o2, Xs, Ps = setup()
                    f = fns(s2, n, m, custom)
                    Qs, dts = lists(s2)
                    if 'lists' not in v and 'Qs' not in v:
                        Qs = const_list(s2, N, SymP('Q', n))
                    if 'lists' not in v and v != 'only dts':
                        dts = const_list(s2, N, s2.num('dt2' if 'scalar dts' in v else 'dt'))
                    w = pair(s2, s2.ref('ukf_rts', o2, Xs, Ps, Qs, dts, ut_stub(s2, 'UT2', n) if 'UT' in v else None, f['x_mean'], f['rx']), 3)
                    g = pair(s, r.val, 3)
                    for nm, a, b in zip(('x', 'P', 'K'), g, w):
                        L.eq(('C12', 'C11') + (('C32',) if v != 'plain' or custom else ()), 'UKF.rts_smoother: %s' % nm, s, M(s.ten(a)), M(s2.ten(b)))
                    L.eq(('C12',), 'UKF.rts_smoother: last estimate unchanged', s, M(A.index_axis(s.ten(g[0]), 0, N - 1)), M(A.index_axis(Sym('Xs', N, n).t, 0, N - 1)))
                    if N == Lin(3) and 'UT' not in v:
                        for i in range(3):
                            symmetric(L, ('C10',), 'UKF.rts_smoother: covariances symmetric', s, None, 'P[%d]' % i, val=M(A.index_axis(s.ten(g[1]), 0, Lin(i))))
                    no_mutation(L, s)
                L.guarded('UKF.rts_smoother %s' % v, go)
    s = L.session('UKF.rts_smoother, Xs and Ps of different lengths')
    o = make_ukf(s, n, m, k)
    L.runs(('C12',), 'UKF.rts_smoother rejects different lengths', s, s.call(o, 'rts_smoother', s.sym('Xs', 3, n), s.sym('Ps', 2, n, n)), ('ValueError',))


SUITES = [suite_points, suite_ut, suite_ukf_predict, suite_ukf_update, suite_ukf_batch, suite_ukf_rts]
suite_points.tags = ('C14', 'C06', 'C11', 'C31', 'C34', 'C32')
suite_ut.tags = ('C15', 'C06', 'C10', 'C11', 'C34', 'C32')
suite_ukf_predict.tags = suite_ukf_update.tags = TAGS
suite_ukf_batch.tags = ('C04', 'C06', 'C11', 'C34', 'C15')
suite_ukf_rts.tags = ('C12', 'C06', 'C10', 'C11', 'C34', 'C32')
