"""Statistics, drawing, numeric helpers."""
from ..lab import *      # noqa
from .. import algebra as A
from ..npmodel import strict_density
from .common import *    # noqa
from .gh import refs

ST = 'filterpy.stats.stats'
HP = 'filterpy.common.helpers'
H_ = A.Fr(1, 2)


def sqrt_(m):
    return m ** H_


def exp_(m):
    return M(A.elementwise(lambda p: A.apply1('exp', p), m.t))


PI = M(A.scalar(A.sym('pi')))


def suite_stats(L):
    if not L.want('C30', 'C34', 'C06', 'C11', 'C08'):
        return
    n, m = dim('n'), dim('m')

    def run(fn, ctx, args, want, kw=None, label=None, tags=('C30', 'C11')):
        """want: list of M (tuple result) or M"""
        def go():
            s = L.session('%s, %s' % (fn, ctx))
            a = [f(s) if callable(f) else f for f in args]
            k = {q: (f(s) if callable(f) else f) for q, f in (kw or {}).items()}
            r = s.fn(ST, fn, *a, **k)
            if not L.runs(('C30', 'C34'), '%s runs' % fn, s, r):
                return
            w = want if isinstance(want, list) else [want]
            got = pair(s, r.val, len(w)) if isinstance(want, list) else [r.val]
            for i, (g, q) in enumerate(zip(got, w)):
                L.eq(tags, '%s: %s' % (fn, label[i] if label else 'closed form'), s, g, q)
            no_mutation(L, s)
        L.guarded(fn, go)
    arr = lambda nm, *sh: (lambda s: s.sym(nm, *sh, prov='param ' + nm))
    num = lambda nm: (lambda s: s.num(nm))
    lst = lambda nm, k: (lambda s: s.val([s.I.mk(s.st, A.index_axis(Sym(nm, k).t, 0, Lin(i))) for i in range(k)]))
    x, mu, S_, P, H, R, z = Sym('x', n), Sym('mean', n), SymP('cov', n), SymP('P', n), Sym('H', m, n), SymP('R', m), Sym('z', m)
    d = x - mu

    # mahalanobis distance
    symP = lambda nm, k: (lambda s: s.arr(SymP(nm, k), 'param ' + nm))
    for k in (2, 3):
        xv, mv, cv = Sym('x', k), Sym('mean', k), SymP('cov', k)
        q = sqrt_((xv - mv).reshape(1, k) @ cv.inv @ (xv - mv).reshape(k, 1))
        q = M(A.scalar(q.p))
        for form, a, b in (('arrays', arr('x', k), arr('mean', k)), ('lists', lst('x', k), lst('mean', k)),
                           ('columns', arr('x', k, 1), arr('mean', k, 1))):
            w = q
            if form == 'columns':
                xc = Sym('x', k, 1) - Sym('mean', k, 1)
                w = M(A.scalar(A.power((xc.T @ cv.inv @ xc).p, H_)))
            run('mahalanobis', '%d-vectors, %s' % (k, form), [a, b, symP('cov', k)], w)
    w = M(A.scalar(A.power((Sym('x') - Sym('mean')).p ** 2 / A.sym('cov') if False else ((Sym('x') - Sym('mean')) * (Sym('x') - Sym('mean')) / Sym('cov')).p, H_)))
    run('mahalanobis', 'scalars', [num('x'), num('mean'), num('cov')], w)
    s = L.session('mahalanobis, different lengths')
    r = s.fn(ST, 'mahalanobis', s.sym('x', 3), s.sym('mean', 2), s.sym('cov', 2, 2))
    L.runs(('C31', 'C30'), 'mahalanobis rejects vectors of different length', s, r, ('ValueError',))

    # gaussian log densities
    ll = M(A.scalar(mvn_logpdf(x.t, mu.t, S_.t)))
    ll0 = M(A.scalar(mvn_logpdf(x.t, A.const_ten((n,)), S_.t)))
    run('logpdf', 'x and mean given', [arr('x', n), arr('mean', n), symP('cov', n)], ll)
    run('logpdf', 'no mean', [arr('x', n)], ll0, kw={'cov': symP('cov', n)})
    run('logpdf', 'singular covariances rejected', [arr('x', n), arr('mean', n), symP('cov', n), lambda s: s.val(False)], M(A.scalar(strict_density(ll.p))))
    xc, mc = Sym('x', n, 1), Sym('mean', n, 1)
    fl = lambda q: A.reshape(q.t, (lin(n),))
    run('logpdf', 'columns', [arr('x', n, 1), arr('mean', n, 1), symP('cov', n)], M(A.scalar(mvn_logpdf(fl(xc), fl(mc), S_.t))))
    sc = lambda c: M(A.scalar(((Sym('x') - c) * (Sym('x') - c) / Sym('cov')).p.scale(A.Fr(-1, 2)) - A.apply1('log', A.sym('pi').scale(2)).scale(H_) - A.apply1('log', A.sym('cov')).scale(H_)))
    run('logpdf', 'scalars', [num('x'), num('mean'), num('cov')], sc(Sym('mean')))
    run('logpdf', 'scalars, no mean', [num('x')], sc(M(A.scalar(A.P0))), kw={'cov': num('cov')})
    S2 = H @ P @ H.T + R
    ll = M(A.scalar(mvn_logpdf(z.t, (H @ x).t, S2.t)))
    mats = [arr('z', m), arr('x', n), symP('P', n), arr('H', m, n), symP('R', m)]
    run('log_likelihood', 'generic sizes', mats, ll, tags=('C30', 'C08', 'C11'))
    run('likelihood', 'generic sizes', mats, exp_(ll), tags=('C30', 'C08', 'C11'))

    # densities, products and sums of Gaussians
    v = Sym('var')
    g = lambda q: exp_((q - Sym('mean')) * (q - Sym('mean')) / v * A.Fr(-1, 2)) / sqrt_(PI * 2 * v)
    run('gaussian', 'scalar', [num('x'), num('mean'), num('var')], g(Sym('x')))
    run('gaussian', 'scalar, not normed', [num('x'), num('mean'), num('var'), lambda s: s.val(False)], g(Sym('x')))
    run('gaussian', 'array, not normed', [arr('x', n), num('mean'), num('var')], g(x), kw={'normed': lambda s: s.val(False)})
    run('gaussian', 'array', [arr('x', n), num('mean'), num('var')], g(x) / g(x).sum())
    a, b, va, vb = Sym('a'), Sym('b'), Sym('va'), Sym('vb')
    four = [num('a'), num('va'), num('b'), num('vb')]
    mean, var = (a * vb + b * va) / (va + vb), va * vb / (va + vb)
    run('mul', 'scalars', four, [mean, var], label=('mean', 'variance'))
    scale = exp_((a - b) * (a - b) / (va + vb) * A.Fr(-1, 2)) / sqrt_(PI * 2 * (va + vb))
    run('mul_pdf', 'scalars', four, [mean, var, scale], label=('mean', 'variance', 'scale'))
    run('add', 'scalars', four, [a + b, va + vb], label=('mean', 'variance'))
    A1, A2, c1, c2 = Sym('m1', n), Sym('m2', n), SymP('c1', n), SymP('c2', n)
    C3 = (c1.inv + c2.inv).inv
    run('multivariate_multiply', 'generic size', [arr('m1', n), symP('c1', n), arr('m2', n), symP('c2', n)],
        [C3 @ (c1.inv @ A1 + c2.inv @ A2), C3], label=('mean', 'covariance'))
    run('multivariate_multiply', 'columns', [arr('m1', n, 1), symP('c1', n), arr('m2', n, 1), symP('c2', n)],
        [C3 @ (c1.inv @ Sym('m1', n, 1) + c2.inv @ Sym('m2', n, 1)), C3], label=('mean', 'covariance'))
    dens = lambda xx, mm, cc: exp_(M(A.scalar(mvn_logpdf(xx.t, mm.t, cc.t))))
    run('multivariate_gaussian', 'vectors', [arr('x', n), arr('mean', n), symP('cov', n)], dens(x, mu, S_))
    run('multivariate_gaussian', 'vectors, scalar covariance', [arr('x', n), arr('mean', n), num('c')], dens(x, mu, Eye(n) * Sym('c')))
    one = lambda q: Sym(q).reshape(1)
    run('multivariate_gaussian', 'scalars', [num('x'), num('mean'), num('c')], dens(one('x'), one('mean'), Sym('c').reshape(1, 1)))
    run('multivariate_gaussian', 'lists', [lst('x', 2), lst('mean', 2), symP('cov', 2)], dens(Sym('x', 2), Sym('mean', 2), SymP('cov', 2)))

    # probability of an interval
    cdf = lambda q, sd: M(A.elementwise(lambda p: A.app_entry('app', 'norm_cdf', (p,), ()), ((q - Sym('mean')) / sd).t))
    prob = lambda sd: M(A.elementwise(lambda p: A.apply1('abs', p), (cdf(Sym('hi'), sd) - cdf(Sym('lo'), sd)).t))
    rng = lambda s: s.val((s.num('lo'), s.num('hi')))
    run('norm_cdf', 'variance', [rng, num('mean'), num('var')], prob(sqrt_(Sym('var'))))
    run('norm_cdf', 'deviation', [rng, num('mean')], prob(Sym('sd')), kw={'std': num('sd')})
    run('norm_cdf', 'both', [rng, num('mean'), num('var'), num('sd')], prob(Sym('sd')))
    run('norm_cdf', 'default variance', [rng, num('mean')], prob(M(A.scalar(A.P1))))

    # normalised estimation error
    def nees():
        N = dim('N')
        for shn, sh in (('vectors', (n,)), ('columns', (n, 1))):
            s = L.session('NEES, %s' % shn)
            xs, es, ps = Sym('xs', N, *sh), Sym('es', N, *sh), Sym('ps', N, n, n)
            r = s.fn(ST, 'NEES', s.arr(xs, 'param xs'), s.arr(es, 'param est_xs'), s.arr(ps, 'param ps'))
            if L.runs(('C30', 'C34'), 'NEES runs', s, r):
                s2 = L.session('')
                w = s2.ref('nees', s2.arr(xs), s2.arr(es), s2.arr(ps))
                L.eq(('C30', 'C11'), 'NEES: squared normalised error of each estimate', s, r.val, M(s2.ten(w)))
                no_mutation(L, s)
    L.guarded('NEES', nees)

    # covariance ellipse
    for dv in (None, 'k'):
        def ell():
            s = L.session('covariance_ellipse, %s deviations' % (dv or 'default'))
            P2 = SymP('P', 2)
            from .. import npmodel
            r = s.fn(ST, 'covariance_ellipse', s.arr(P2, 'param P'), *([s.num(dv)] if dv else []))
            if L.runs(('C30', 'C34'), 'covariance_ellipse runs', s, r):
                s2 = L.session('')
                w = pair(s2, s2.ref('ellipse', s2.arr(P2), s2.num(dv) if dv else s2.val(1)), 3)
                for g, q, nm in zip(pair(s, r.val, 3), w, ('orientation', 'width', 'height')):
                    L.eq(('C30', 'C11'), 'covariance_ellipse: %s' % nm, s, g, M(s2.ten(q)))
                no_mutation(L, s)
        L.guarded('covariance_ellipse', ell)

    def student():
        s = L.session('rand_student_t')
        r = s.fn(ST, 'rand_student_t', s.num('df'), s.num('mu'), s.num('sd'))
        if L.runs(('C30', 'C34'), 'rand_student_t runs', s, r):
            s2 = L.session('')
            w = s2.ref('student_t', s2.num('df'), s2.num('mu'), s2.num('sd'))
            L.eq(('C30',), 'rand_student_t: normal over the root of chi-square per degree of freedom', s, r.val, M(s2.ten(w)))
    L.guarded('rand_student_t', student)


# ------------------------------------------------------------------- drawing
def suite_draw(L):
    if not L.want('C30', 'C34'):
        return
    drawn = lambda s, what: [r for r in s.I.reclog if r[0].split('.')[-1].split('()')[-1] == what or r[0].endswith('.' + what) or r[0].endswith(what)]

    def one_call(s, what, label):
        c = drawn(s, what)
        L.true(('C30',), label, s, len(c) == 1, '%d calls of %s' % (len(c), what))
        return c[0] if len(c) == 1 else None

    def tens(rec, i, key):
        v = rec[1][i] if i is not None and i < len(rec[1]) else rec[2].get(key)
        return v

    for fn, curve in (('plot_gaussian_cdf', 'cdf'), ('plot_gaussian_pdf', 'pdf'), ('plot_gaussian', 'pdf')):
        for v in ('plain', 'limits', 'axes', 'std') if fn == 'plot_gaussian_pdf' else ('plain', 'limits', 'axes'):
            def go():
                s = L.session('%s, %s' % (fn, v))
                s.I.assume(s.st, A.ind('<', A.sym('var')), False)
                kw = {}
                if v == 'limits':
                    kw['xlim'] = s.val((s.num('lo'), s.num('hi')))
                    kw['ylim'] = s.val((s.num('ylo'), s.num('yhi')))
                if v == 'axes':
                    kw['ax'] = Opq('ext:axes', (0,))
                if v == 'std':
                    r = s.fn(ST, fn, s.num('mean'), s.val(None), s.num('sd'), **kw)
                else:
                    r = s.fn(ST, fn, s.num('mean'), s.num('var'), **kw)
                if not L.runs(('C30', 'C34'), '%s runs' % fn, s, r):
                    return
                c = one_call(s, 'plot', '%s draws one curve' % fn)
                if c is None:
                    return
                if v == 'axes':
                    L.true(('C30',), '%s draws on the given axes' % fn, s, c[0].startswith('axes'), 'draws on %s' % c[0])
                s2 = L.session('')
                sd = s2.num('sd') if v == 'std' else s2.val(sqrt_(Sym('var')))
                w = pair(s2, s2.ref('gauss_curve', s2.num('mean'), sd, s2.num('lo') if v == 'limits' else s2.val(None), s2.num('hi') if v == 'limits' else s2.val(None), s2.val(curve)), 4)
                L.eq(('C30',), '%s: abscissae' % fn, s, M(s.I.to_ten(c[3], c[1][0])), M(s2.ten(w[0])), pos=('var', 'sd'))
                L.eq(('C30',), '%s: ordinates' % fn, s, M(s.I.to_ten(c[3], c[1][1])), M(s2.ten(w[1])), pos=('var', 'sd'))
        L.guarded(fn, go)

    for v in ('variance', 'std', 'stds', 'interval', 'ellipse', 'default'):
        for fn in ('plot_covariance', 'plot_covariance_ellipse'):
            if fn.endswith('ellipse') and v == 'interval':
                continue

            def cov():
                s = L.session('%s, %s' % (fn, v))
                P = SymP('P', 2)
                kw = {}
                if v == 'ellipse':
                    kw['ellipse'] = s.val((s.num('ang'), s.num('w'), s.num('h')))
                else:
                    kw['cov'] = s.arr(P, 'param cov')
                if v == 'variance':
                    kw['variance'] = s.num('var')
                if v == 'std':
                    kw['std'] = s.num('sd')
                if v == 'stds':
                    kw['std'] = s.val([s.num('sd1'), s.num('sd2')])
                if v == 'interval':
                    kw['interval'] = s.num('p')
                r = s.fn(ST, fn, s.val((s.num('mx'), s.num('my'))), **kw)
                if not L.runs(('C30', 'C34'), '%s runs' % fn, s, r):
                    return
                c = drawn(s, 'Ellipse')
                s2 = L.session('')
                if v == 'ellipse':
                    e = [s2.num('ang'), s2.num('w'), s2.num('h')]
                else:
                    e = pair(s2, s2.ref('ellipse', s2.arr(P), s2.val(1)), 3)
                e = [M(s2.ten(q)) for q in e]
                sds = {'variance': [sqrt_(Sym('var'))], 'std': [Sym('sd')], 'stds': [Sym('sd1'), Sym('sd2')],
                       'interval': [M(A.scalar(A.app_entry('app', 'norm_ppf', ((A.P1 + A.sym('p')).scale(H_),), ())))]}.get(v, [M(A.scalar(A.P1))])
                L.true(('C30',), '%s draws one ellipse per deviation' % fn, s, len(c) == len(sds), '%d ellipses' % len(c))
                if len(c) != len(sds):
                    return
                for k, sd in zip(c, sds):
                    at = lambda i, nm: M(s.I.to_ten(k[3], tens(k, i, nm)))
                    L.eq(('C30',), '%s: width of the ellipse' % fn, s, lambda: at(1, 'width'), e[1] * sd * 2)
                    L.eq(('C30',), '%s: height of the ellipse' % fn, s, lambda: at(2, 'height'), e[2] * sd * 2)
                    L.eq(('C30',), '%s: angle of the ellipse' % fn, s, lambda: at(3, 'angle'), e[0] * 180 / PI)
                    xy = pair(s, tens(k, 0, 'xy'), 2)
                    L.eq(('C30',), '%s: centre of the ellipse' % fn, s, xy[0], Sym('mx'))
                    L.eq(('C30',), '%s: centre of the ellipse' % fn, s, xy[1], Sym('my'))
                no_mutation(L, s)
            L.guarded(fn, cov)

    def dcdf():
        n = dim('n')
        for given in (True, False):
            s = L.session('plot_discrete_cdf, xs %s' % ('given' if given else 'None'))
            r = s.fn(ST, 'plot_discrete_cdf', s.sym('xs', n) if given else s.val(None), s.sym('ys', n))
            if L.runs(('C30', 'C34'), 'plot_discrete_cdf runs', s, r):
                c = one_call(s, 'plot', 'plot_discrete_cdf draws one curve')
                if c:
                    s2 = L.session('')
                    w = s2.ref('cumulative', s2.sym('ys', n))
                    L.eq(('C30',), 'plot_discrete_cdf: ordinates', s, M(s.I.to_ten(c[3], c[1][1])), M(s2.ten(w)))
    L.guarded('plot_discrete_cdf', dcdf)


# ------------------------------------------------------------------- helpers
def suite_helpers(L):
    if not L.want('C38', 'C11', 'C34', 'C06', 'C31'):
        return
    n, m, k = dim('n'), dim('m'), dim('k')

    def rk():
        for shn, sh in (('scalar', ()), ('vector', (n,))):
            s = L.session('runge_kutta4, %s' % shn)
            f = s.ufn('f', sh)
            y = s.num('y') if not sh else s.arr(Sym('y', n), 'param y')
            r = s.fn(HP, 'runge_kutta4', y, s.num('x'), s.num('dx'), f)
            if L.runs(('C38', 'C34'), 'runge_kutta4 runs', s, r):
                s2 = L.session('')
                w = s2.ref('rk4', s2.num('y') if not sh else s2.arr(Sym('y', n)), s2.num('x'), s2.num('dx'), s2.ufn('f', sh))
                L.eq(('C38', 'C11'), 'runge_kutta4: fourth-order step', s, r.val, M(s2.ten(w)))
                no_mutation(L, s, ('C06', 'C38'))
    L.guarded('runge_kutta4', rk)

    def invd():
        for sz in (n, lin(3), lin(1)):
            s = L.session('inv_diagonal, size %s' % sz)
            r = s.fn(HP, 'inv_diagonal', s.arr(Sym('S', sz, sz), 'param S'))
            if L.runs(('C38', 'C34'), 'inv_diagonal runs', s, r):
                s2 = L.session('')
                w = s2.ref('inv_diag', s2.arr(Sym('S', sz, sz)))
                L.eq(('C38', 'C11'), 'inv_diagonal: reciprocal diagonal', s, r.val, M(s2.ten(w)))
                no_mutation(L, s, ('C06', 'C38'))
        for what, sh in (('vector', (3,)), ('rectangle', (2, 3))):
            s = L.session('inv_diagonal of a %s' % what)
            r = s.fn(HP, 'inv_diagonal', s.sym('S', *sh))
            L.runs(('C31', 'C38'), 'inv_diagonal rejects a %s' % what, s, r, ('ValueError',))
    L.guarded('inv_diagonal', invd)

    def ops():
        s = L.session('outer_product_sum, two matrices')
        a, b = Sym('A', k, n), Sym('B', k, m)
        r = s.fn(HP, 'outer_product_sum', s.arr(a, 'param A'), s.arr(b, 'param B'))
        if L.runs(('C38', 'C34'), 'outer_product_sum runs', s, r):
            L.eq(('C38', 'C11'), 'outer_product_sum: sum of outer products of the rows', s, r.val, a.T @ b)
        s = L.session('outer_product_sum, one matrix')
        r = s.fn(HP, 'outer_product_sum', s.arr(a, 'param A'))
        if L.runs(('C38', 'C34'), 'outer_product_sum runs', s, r):
            L.eq(('C38', 'C11'), 'outer_product_sum: sum of outer products of the rows', s, r.val, a.T @ a)
            no_mutation(L, s, ('C06', 'C38'))
    L.guarded('outer_product_sum', ops)

    def rz():
        z2 = lambda t: M(t)
        for dz in (1, 2, 3):
            for nd in (0, 1, 2):
                forms = [('row', (1, dz)), ('vector', (dz,)), ('column', (dz, 1))] + ([('scalar', ())] if dz == 1 else [])
                for form, sh in forms:
                    s = L.session('reshape_z, %s, dim_z %d, state with %d axes' % (form, dz, nd))
                    zz = s.num('z') if not sh else s.arr(Sym('z', *sh), 'param z')
                    r = s.fn(HP, 'reshape_z', zz, s.val(dz), s.val(nd))
                    if nd == 0 and dz > 1:
                        continue
                    if L.runs(('C38', 'C34', 'C31'), 'reshape_z runs', s, r):
                        t = Sym('z', *sh)
                        want = (dz, 1) if nd == 2 else (dz,) if nd == 1 else ()
                        L.eq(('C38', 'C11'), 'reshape_z: measurement in the shape of the state', s, r.val, M(A.reshape(t.t, tuple(lin(q) for q in want))))
                        no_mutation(L, s, ('C06', 'C38'))
        for form, sh, dz in (('3-vector for dim_z 2', (3,), 2), ('2-vector for dim_z 1', (2,), 1), ('2x2 for dim_z 2', (2, 2), 2), ('scalar for dim_z 2', (), 2),
                             ('2x2 for dim_z 4', (2, 2), 4), ('2x3 for dim_z 6', (2, 3), 6), ('3x2 for dim_z 6', (3, 2), 6), ('4-row for dim_z 2', (1, 4), 2), ('4-column for dim_z 2', (4, 1), 2), ('2x1 for dim_z 1', (2, 1), 1), ('3x2 for dim_z 2', (3, 2), 2),
                             ('3x2 for dim_z 3', (3, 2), 3)):
            s = L.session('reshape_z, %s' % form)
            r = s.fn(HP, 'reshape_z', s.num('z') if not sh else s.sym('z', *sh), s.val(dz), s.val(2))
            L.runs(('C31', 'C38'), 'reshape_z rejects a %s' % form, s, r, ('ValueError',))
    L.guarded('reshape_z', rz)


SUITES = [suite_stats, suite_draw, suite_helpers]
suite_stats.tags = ('C30', 'C34', 'C06', 'C11', 'C08', 'C31')
suite_draw.tags = ('C30', 'C34', 'C06')
suite_helpers.tags = ('C38', 'C11', 'C34', 'C06', 'C31')
