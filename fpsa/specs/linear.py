"""Fading-memory, square-root, information, H-infinity filters and the
fixed-lag smoother: linear filters stated against the Kalman equations."""
from ..lab import *      # noqa
from .. import algebra as A
from .common import *    # noqa
from .kf import upd_ref, ctxs, zform, per_step, order, const_list, batch_suite, saver_stub, check_saves, inverse_cases

FM = 'filterpy.kalman.fading_memory'
SQ = 'filterpy.kalman.square_root'
IF = 'filterpy.kalman.information_filter'
HI = 'filterpy.hinfinity.hinfinity_filter'
FL = 'filterpy.kalman.fixed_lag_smoother'

CROSS = ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C34', 'C04')


def positive(s, name):
    """a positive scalar parameter"""
    a = A.sym(name)
    s.I.assume(s.st, A.ind('<', -a), True)
    s.I.assume(s.st, A.ind('<', a), False)
    s.I.assume(s.st, A.ind('=', a), False)
    return Num(a)


def make_fading(s, n, m, l, B=False, flat=False):
    a = A.sym('a')
    s.I.assume(s.st, A.ind('<', a - 1), False)
    o = s.make(FM, 'FadingKalmanFilter', Num(a), n, m, l)
    base_model(s, o, n, m, l, B)
    if flat:
        s.assign(o, 'x', s.arr(Sym('x', n, 1).reshape(n)))
    return o


def inputs(s, v, n, l, flat=False):
    """(keyword arguments, B u term)"""
    B = Sym('B', n, l)
    if v == 'B and u':
        u = Sym('u', l, 1)
        return dict(u=s.arr(u.reshape(l) if flat else u, 'param u')), B @ u
    if v == 'u=0':
        return dict(u=0), None
    return {}, None


def predict_form(L, main, cls, make, wantP, extra=(), flats=(False, True), getp=True, pname='P', snaps=True):
    """prediction x = Fx + Bu with the class's covariance step"""
    for cname, n, m, l in ctxs():
        for flat in flats:
            for v in ('plain', 'B without u', 'B and u', 'u=0'):
                def go():
                    s = L.session('%s.predict, %s, %s, %s' % (cls, v, cname, '1-D x' if flat else 'column x'))
                    o = make(s, n, m, l, v != 'plain', flat)
                    kw, bu = inputs(s, v, n, l, flat)
                    wx = Sym('F', n, n) @ Sym('x', n, 1)
                    if bu is not None:
                        wx = wx + bu
                    if flat:
                        wx = wx.reshape(n)
                    wP = wantP(s, o, n)
                    freeze_all(s, o)
                    before = snap(s, o)
                    if getp:
                        g = s.call(o, 'get_prediction', **kw)
                        if L.runs(('C04', 'C11', 'C34'), '%s.get_prediction runs' % cls, s, g):
                            if wP is not None:
                                p = pair(s, g.val, 2)
                                L.eq(('C04', 'C11', main), '%s.get_prediction: mean' % cls, s, p[0], wx)
                                L.eq(('C04', 'C11', main), '%s.get_prediction: covariance' % cls, s, p[1], wP)
                            else:
                                L.eq(('C04', 'C11', main), '%s.get_prediction: mean' % cls, s, g.val, wx)
                        pure(L, ('C06', 'C04'), '%s.get_prediction leaves the filter unchanged' % cls, s, o, before)
                    r = s.call(o, 'predict', **kw)
                    if not L.runs((main, 'C11', 'C34'), '%s.predict runs' % cls, s, r):
                        return
                    L.eq((main, 'C11') + (('C04',) if getp else ()), '%s.predict: x' % cls, s, None, wx, o, 'x')
                    if wP is not None:
                        L.eq((main, 'C11') + (('C04',) if getp else ()), '%s.predict: %s' % (cls, pname), s, None, wP, o, pname)
                        symmetric(L, ('C10',), '%s.predict: %s symmetric' % (cls, pname), s, o, pname)
                    if snaps:
                        L.eq(('C07', 'C11'), '%s.predict: x_prior' % cls, s, None, wx, o, 'x_prior')
                        L.eq(('C07', 'C11'), '%s.predict: %s_prior' % (cls, pname), s, None, wP, o, pname + '_prior')
                    keep = [k for k in before if k in ('F', '_F', '_F_inv', 'Q', 'R', 'R_inv', 'H', 'B', '_Q', '_R', '_Q1_2', '_R1_2', '_V', '_V_inv', 'W', 'gamma', 'alpha_sq')]
                    same_attrs(L, (main, 'C09'), '%s.predict keeps the model' % cls, s, o, before, keep + ([] if wP is not None else ['P']))
                    if snaps:
                        post = [k for k in before if k.endswith('_post')]
                        same_attrs(L, ('C07',), '%s.predict leaves the posterior snapshot' % cls, s, o, before, post)
                        al = [('x', 'x_prior')] + [(a, a + '_prior') for a in ('P', 'P_inv', '_P1_2') if a in before]
                        independent(L, ('C07',), 'snapshot independent of live state', s, o, al)
                    no_mutation(L, s)
                L.guarded('%s predict %s %s' % (cls, v, cname), go)


def none_form(L, cls, make, meths=('update',), pname='P', snaps=True, z='none'):
    for meth in meths:
        for cname, n, m, l in ctxs():
            def go():
                s = L.session('%s.%s(None), %s' % (cls, meth, cname))
                o = make(s, n, m, l, False, False)
                symbolise(s, o, ('x_prior', 'P_prior', 'P_inv_prior', '_P1_2_prior', 'x_post', 'P_post', 'P_inv_post', '_P1_2_post', 'z', 'y', 'K', 'S', 'SI'))
                before = snap(s, o)
                r = s.call(o, meth, None)
                if not L.runs(('C05', 'C34'), '%s.%s(None) runs' % (cls, meth), s, r):
                    return
                keep = [k for k in before if not k.endswith('_post') and k not in ('z',) and k not in ('y', 'K', 'S', 'SI')]
                same_attrs(L, ('C05',), '%s missing measurement: unchanged' % cls, s, o, before, keep)
                if snaps:
                    L.eq(('C05', 'C07'), '%s missing measurement: x_post' % cls, s, None, tensor(s, o, 'x'), o, 'x_post')
                    L.eq(('C05', 'C07'), '%s missing measurement: %s_post' % (cls, pname), s, None, tensor(s, o, pname), o, pname + '_post')
                if z == 'none':
                    L.none(('C05',), '%s missing measurement: z' % cls, s, None, o, 'z')
                    record_shapes(L, s, o, before)
            L.guarded('%s.%s(None) %s' % (cls, meth, cname), go)


def queries_form(L, main, cls, make):
    for cname, n, m, l in ctxs():
        def go():
            for q in ('residual_of', 'measurement_of_state'):
                s = L.session('%s.%s, %s' % (cls, q, cname))
                o = make(s, n, m, l, False, False)
                freeze_all(s, o)
                before = snap(s, o)
                H, x = Sym('H', m, n), Sym('x', n, 1)
                if q == 'residual_of':
                    r, w = s.call(o, q, s.sym('z', m, 1, prov='param z')), Sym('z', m, 1) - H @ x
                else:
                    r, w = s.call(o, q, s.sym('xx', n, 1, prov='param x')), H @ Sym('xx', n, 1)
                if L.runs((main, 'C11', 'C34'), '%s.%s runs' % (cls, q), s, r):
                    L.eq((main, 'C11'), '%s.%s' % (cls, q), s, r.val, w)
                pure(L, ('C06',), '%s.%s leaves the filter unchanged' % (cls, q), s, o, before)
                no_mutation(L, s)
        L.guarded('%s queries %s' % (cls, cname), go)


# ------------------------------------------------------------ fading memory
def suite_fading(L):
    a = Sym('a')

    def mk(s, n, m, l, B, flat):
        return make_fading(s, n, m, l, B, flat)
    cls = 'FadingKalmanFilter'
    predict_form(L, 'C03', cls, mk, lambda s, o, n: (a * a) * (Sym('F', n, n) @ SymP('P', n) @ Sym('F', n, n).T) + SymP('Q', n))
    none_form(L, cls, mk)
    queries_form(L, 'C03', cls, mk)
    for cname, n, m, l in ctxs():
        forms = ['column', '1-D', 'R override', 'R scalar', '1-D+R override', '1-D+R scalar'] + (['scalar'] if m == Lin(1) else [])
        for v in forms:
            def go():
                s = L.session('%s.update, %s, %s' % (cls, v, cname))
                flat = v.startswith('1-D')
                o = make_fading(s, n, m, l, flat=flat)
                x, P, H, R = Sym('x', n, 1), SymP('P', n), Sym('H', m, n), SymP('R', m)
                zv, z = zform(s, '1-D' if flat else v if v == 'scalar' else 'column', m)
                kw = {}
                if v.endswith('R override'):
                    R = SymP('R2', m)
                    kw['R'] = s.arr(R, 'param R')
                if v.endswith('R scalar'):
                    R = Eye(m) * Sym('r')
                    kw['R'] = s.num('r')
                freeze_all(s, o)
                before = snap(s, o)
                w = upd_ref(x, P, H, R, z, n)
                y, xw = w['y'], w['x']
                if flat:
                    y, xw = y.reshape(m), xw.reshape(n)
                r = s.call(o, 'update', zv, **kw)
                if not L.runs(('C03', 'C11', 'C34', 'C09'), '%s.update runs' % cls, s, r):
                    return
                for k, wv in (('x', xw), ('P', w['P']), ('K', w['K']), ('y', y), ('S', w['S']), ('SI', w['SI'])):
                    L.eq(('C03', 'C09', 'C11'), '%s.update: %s' % (cls, k), s, None, wv, o, k)
                L.eq(('C07', 'C11'), '%s.update: x_post' % cls, s, None, xw, o, 'x_post')
                L.eq(('C07', 'C11'), '%s.update: P_post' % cls, s, None, w['P'], o, 'P_post')
                L.eq(('C07',), '%s.update: stored z' % cls, s, lambda: column(s, o, 'z', m), z)
                same_attrs(L, ('C07',), '%s.update leaves the prior snapshot' % cls, s, o, before, ('x_prior', 'P_prior'))
                same_attrs(L, ('C09', 'C03'), '%s.update keeps the model' % cls, s, o, before, ('F', 'Q', 'R', 'H', 'B', 'alpha_sq'))
                symmetric(L, ('C10',), '%s.update: P symmetric' % cls, s, o, 'P')
                independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                no_mutation(L, s)
                diagnostics(L, s, o, w['y'], w['S'], cls)
                if v == 'column' and L.want('C08'):
                    r = s.call(o, 'update', s.sym('z2', m, 1))
                    if r.ok:
                        diagnostics(L, s, o, tensor(s, o, 'y'), tensor(s, o, 'S'), cls + ' again')
            L.guarded('%s.update %s %s' % (cls, v, cname), go)

    def prop():
        s = L.session('FadingKalmanFilter.alpha')
        positive(s, 'a')
        o = make_fading(s, dim('n'), dim('m'), dim('l'))
        L.eq(('C03', 'C34'), 'alpha property returns the fading factor', s, lambda: s.get(o, 'alpha'), M(A.scalar(A.power(A.sym('a') * A.sym('a'), A.Fr(1, 2)))))
    L.guarded('alpha', prop)


def suite_fading_batch(L):
    n, m, l = dim('n'), dim('m'), dim('l')
    names = ('means', 'covariances', 'predicted means', 'predicted covariances')

    def call(s, o, zs, N, uf, form):
        kw = {} if form == 'stored' else dict(Rs=per_step(s, N, 'Rs', m, m))
        r = s.call(o, 'batch_filter', zs, **order(uf), **kw)
        r.tags = None
        return r, names

    def ref(s, o, zs, N, uf, form):
        Rs = const_list(s, N, None) if form == 'stored' else per_step(s, N, 'Rs', m, m)
        return s.ref('pu_batch', o, N, (n, 1), zs, Rs, uf)
    batch_suite(L, 'FadingKalmanFilter.batch_filter', lambda s, form: make_fading(s, n, m, l), call, ref, n, m, l, forms=('lists', 'stored', 'missing'))


# --------------------------------------------------------------- square root
def make_sqrt(s, n, m, l, B=False, flat=False):
    o = s.make(SQ, 'SquareRootKalmanFilter', n, m, l)
    base_model(s, o, n, m, l, B)
    if flat:
        s.assign(o, 'x', s.arr(Sym('x', n, 1).reshape(n)))
    return o


def suite_sqrt(L):
    cls = 'SquareRootKalmanFilter'

    def mk(s, n, m, l, B, flat):
        return make_sqrt(s, n, m, l, B, flat)
    predict_form(L, 'C20', cls, mk, lambda s, o, n: Sym('F', n, n) @ SymP('P', n) @ Sym('F', n, n).T + SymP('Q', n), getp=False)
    none_form(L, cls, mk)
    queries_form(L, 'C20', cls, mk)
    for cname, n, m, l in ctxs():
        def rb():
            s = L.session('%s properties, %s' % (cls, cname))
            o = make_sqrt(s, n, m, l)
            for k, d in (('P', n), ('Q', n), ('R', m)):
                L.eq(('C20', 'C11'), '%s: %s reads back what was set' % (cls, k), s, None, SymP(k, d), o, k)
                f = M(s.ten(s.get(o, k + '1_2')))
                L.eq(('C20', 'C11'), '%s: %s1_2 is a factor of %s' % (cls, k, k), s, f @ f.T, SymP(k, d))
        L.guarded('%s properties' % cls, rb)
        forms = ['column', '1-D', 'R2 override', 'R2 scalar', '1-D+R2 override', '1-D+R2 scalar'] + (['scalar'] if m == Lin(1) else [])
        for v in forms:
            def go():
                s = L.session('%s.update, %s, %s' % (cls, v, cname))
                flat = v.startswith('1-D')
                o = make_sqrt(s, n, m, l, flat=flat)
                x, P, H, R = Sym('x', n, 1), SymP('P', n), Sym('H', m, n), SymP('R', m)
                zv, z = zform(s, '1-D' if flat else v if v == 'scalar' else 'column', m)
                kw = {}
                if v.endswith('R2 override'):
                    r2 = Sym('R2', m, m)
                    R = r2 @ r2.T
                    kw['R2'] = s.arr(r2, 'param R2')
                if v.endswith('R2 scalar'):
                    R = Eye(m) * (Sym('r') * Sym('r'))
                    kw['R2'] = s.num('r')
                freeze_all(s, o, ("M",))
                before = snap(s, o)
                w = upd_ref(x, P, H, R, z, n)
                y, xw = w['y'], w['x']
                if flat:
                    y, xw = y.reshape(m), xw.reshape(n)
                for rep in range(2 if v == 'column' else 1):
                    nm = '%s.update%s' % (cls, ' again' if rep else '')
                    if rep:
                        # the working matrix is reused by the next call
                        z = Sym('z2', m, 1)
                        zv = s.arr(z)
                        s.assign(o, 'x', s.arr(x))
                        s.assign(o, 'P', s.arr(P))
                        w = upd_ref(x, P, H, R, z, n)
                        y, xw = w['y'], w['x']
                        before = snap(s, o)
                    r = s.call(o, 'update', zv, **kw)
                    if not L.runs(('C20', 'C11', 'C34', 'C09'), nm + ' runs', s, r):
                        return
                    for k, wv in (('y', y), ('S', w['S']), ('K', w['K']), ('x', xw), ('P', w['P']), ('SI', w['SI'])):
                        L.eq(('C20', 'C09', 'C11'), '%s: %s' % (nm, k), s, None, wv, o, k)
                    L.eq(('C07', 'C11', 'C20'), nm + ': x_post', s, None, xw, o, 'x_post')
                    L.eq(('C07', 'C11', 'C20'), nm + ': P_post', s, None, w['P'], o, 'P_post')
                    L.eq(('C07',), nm + ': stored z', s, lambda: column(s, o, 'z', m), z)
                    same_attrs(L, ('C07', 'C20'), nm + ' leaves the prior snapshot', s, o, before, ('x_prior', '_P1_2_prior'))
                    same_attrs(L, ('C09', 'C20'), nm + ' keeps the model', s, o, before, ('F', '_Q', '_R', '_Q1_2', '_R1_2', 'H', 'B'))
                    symmetric(L, ('C10',), nm + ': P symmetric', s, o, 'P')
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('_P1_2', '_P1_2_post')])
                    no_mutation(L, s)
            L.guarded('%s.update %s %s' % (cls, v, cname), go)


# --------------------------------------------------------------- information
def make_info(s, n, m, l, B=False, flat=False, ll=True):
    o = s.make(IF, 'InformationFilter', n, m, l, ll)
    vals = dict(x=Sym('x', n, 1), P_inv=SymP('J', n), F=Sym('F', n, n), Q=SymP('Q', n), H=Sym('H', m, n), R_inv=SymP('W', m))
    for k, v in vals.items():
        r = s.assign(o, k, s.arr(v))
        if not r.ok:
            raise Broken('assignment to %s fails' % k, r)
    if flat:
        s.assign(o, 'x', s.arr(Sym('x', n, 1).reshape(n)))
    if B:
        s.assign(o, 'B', s.arr(Sym('B', n, l)))
    return o


def suite_info(L):
    cls = 'InformationFilter'

    def mk(s, n, m, l, B, flat):
        return make_info(s, n, m, l, B, flat)
    predict_form(L, 'C21', cls, mk, lambda s, o, n: (Sym('F', n, n) @ SymP('J', n).inv @ Sym('F', n, n).T + SymP('Q', n)).inv, getp=False, pname='P_inv')
    none_form(L, cls, mk, pname='P_inv')
    for cname, n, m, l in ctxs():
        def fs():
            s = L.session('%s properties, %s' % (cls, cname))
            o = make_info(s, n, m, l)
            for k in (1, 2):
                if k == 2:
                    s.assign(o, 'F', s.sym('F2', n, n))
                F = Sym('F' if k == 1 else 'F2', n, n)
                L.eq(('C21', 'C11'), '%s: F reads back what was set' % cls, s, None, F, o, 'F')
                L.eq(('C21', 'C11'), '%s: cached inverse follows F' % cls, s, None, F.inv, o, '_F_inv')
            L.eq(('C21', 'C11'), '%s: P is the inverse of P_inv' % cls, s, None, SymP('J', n).inv, o, 'P')
            r = s.call(o, 'batch_filter', s.val([]))
            if not r.ok and r.raised != 'NotImplementedError':
                L.runs(('C34',), '%s.batch_filter runs' % cls, s, r)
        L.guarded('%s properties' % cls, fs)
        forms = ['column', '1-D', 'R_inv override', 'R_inv scalar', '1-D+R_inv override', '1-D+R_inv scalar', 'no likelihood'] + (['scalar'] if m == Lin(1) else [])
        for v in forms:
            def go():
                s = L.session('%s.update, %s, %s' % (cls, v, cname))
                flat = v.startswith('1-D')
                o = make_info(s, n, m, l, flat=flat, ll=v != 'no likelihood')
                symbolise(s, o, ('x_prior', 'P_inv_prior'))
                x, J, H, W = Sym('x', n, 1), SymP('J', n), Sym('H', m, n), SymP('W', m)
                zv, z = zform(s, '1-D' if flat else v if v == 'scalar' else 'column', m)
                kw = {}
                if v.endswith('R_inv override'):
                    W = SymP('W2', m)
                    kw['R_inv'] = s.arr(W, 'param R_inv')
                if v.endswith('R_inv scalar'):
                    W = Eye(m) * Sym('r')
                    kw['R_inv'] = s.num('r')
                freeze_all(s, o)
                before = snap(s, o)
                y = z - H @ x
                JJ = J + H.T @ W @ H
                K = JJ.inv @ H.T @ W
                xw = x + K @ y
                yw = y
                if flat:
                    yw, xw = y.reshape(m), xw.reshape(n)
                r = s.call(o, 'update', zv, **kw)
                if not L.runs(('C21', 'C11', 'C34', 'C09'), '%s.update runs' % cls, s, r):
                    return
                for k, wv in (('y', yw), ('S', JJ), ('K', K), ('x', xw), ('P_inv', JJ)):
                    L.eq(('C21', 'C09', 'C11'), '%s.update: %s' % (cls, k), s, None, wv, o, k)
                if not flat:
                    L.eq(('C21',), '%s.update: x is the Kalman update' % cls, s, None, x + J.inv @ H.T @ (H @ J.inv @ H.T + W.inv).inv @ y, o, 'x')
                    L.eq(('C21',), '%s.update: x from the information vector' % cls, s, None, JJ.inv @ (J @ x + H.T @ W @ z), o, 'x')
                L.eq(('C07', 'C11', 'C21'), '%s.update: x_post' % cls, s, None, xw, o, 'x_post')
                L.eq(('C07', 'C11', 'C21'), '%s.update: P_inv_post' % cls, s, None, JJ, o, 'P_inv_post')
                L.eq(('C07',), '%s.update: stored z' % cls, s, lambda: column(s, o, 'z', m), z)
                same_attrs(L, ('C07',), '%s.update leaves the prior snapshot' % cls, s, o, before, ('x_prior', 'P_inv_prior'))
                same_attrs(L, ('C09', 'C21'), '%s.update keeps the model' % cls, s, o, before, ('_F', '_F_inv', 'Q', 'R_inv', 'H', 'B'))
                symmetric(L, ('C10',), '%s.update: P_inv symmetric' % cls, s, o, 'P_inv')
                independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P_inv', 'P_inv_post')])
                no_mutation(L, s)
                if v != 'no likelihood':
                    SI = W - W @ H @ K
                    if L.want('C08'):
                        d2 = (y.T @ SI @ y).p
                        from ..npmodel import det_poly
                        ll = (A.apply1('log', det_poly(SI.t)) - A.from_lin(m) * A.apply1('log', 2 * A.sym('pi')) - d2) * A.Fr(1, 2)
                        ll = M(A.scalar(ll))
                        L.eq(('C08',), '%s.update: log_likelihood' % cls, s, None, ll, o, 'log_likelihood')
                        L.eq(('C08',), '%s.update: likelihood' % cls, s, None, floor_likelihood(ll), o, 'likelihood')
                else:
                    same_attrs(L, ('C32', 'C08'), '%s.update: likelihood not computed when not asked' % cls, s, o, before, ('log_likelihood', 'likelihood'))
            L.guarded('%s.update %s %s' % (cls, v, cname), go)


# ---------------------------------------------------------------- H infinity
def make_hinf(s, n, m, l, B=False, flat=False):
    o = s.make(HI, 'HInfinityFilter', n, m, l, Num(A.sym('gamma')))
    vals = dict(x=Sym('x', n, 1), P=SymP('P', n), F=Sym('F', n, n), Q=SymP('Q', n), H=Sym('H', m, n), W=SymP('W', n), V=SymP('V', m))
    for k, v in vals.items():
        r = s.assign(o, k, s.arr(v))
        if not r.ok:
            raise Broken('assignment to %s fails' % k, r)
    if flat:
        s.assign(o, 'x', s.arr(Sym('x', n, 1).reshape(n)))
    if B:
        s.assign(o, 'B', s.arr(Sym('B', n, l)))
    return o


def suite_hinf(L):
    cls = 'HInfinityFilter'

    def mk(s, n, m, l, B, flat):
        return make_hinf(s, n, m, l, B, flat)
    predict_form(L, 'C37', cls, mk, lambda s, o, n: None, snaps=False)
    none_form(L, cls, mk, snaps=False, z='kept')
    queries_form(L, 'C37', cls, mk)
    for cname, n, m, l in ctxs():
        def vs():
            s = L.session('%s.V, %s' % (cls, cname))
            o = make_hinf(s, n, m, l)
            for k in (1, 2):
                V = SymP('V', m)
                if k == 2:
                    V = SymP('V2', m)
                    s.assign(o, 'V', s.arr(V))
                L.eq(('C37', 'C11'), '%s: V reads back what was set' % cls, s, None, V, o, 'V')
                L.eq(('C37', 'C11'), '%s: cached inverse follows V' % cls, s, None, V.inv, o, '_V_inv')
            if m == Lin(1):
                r = s.assign(o, 'V', s.num('v'))
                if L.runs(('C37', 'C34'), '%s: scalar V accepted' % cls, s, r):
                    L.eq(('C37', 'C11'), '%s: V reads back what was set' % cls, s, None, Sym('v').reshape(1, 1), o, 'V')
                    L.eq(('C37', 'C11'), '%s: cached inverse follows V' % cls, s, None, (1 / Sym('v')).reshape(1, 1), o, '_V_inv')
        L.guarded('%s.V' % cls, vs)
        for v in ['column', '1-D'] + (['scalar'] if m == Lin(1) else []):
            def go():
                s = L.session('%s.update, %s, %s' % (cls, v, cname))
                flat = v == '1-D'
                o = make_hinf(s, n, m, l, flat=flat)
                x, P, H, F, Q, V, W = Sym('x', n, 1), SymP('P', n), Sym('H', m, n), Sym('F', n, n), SymP('Q', n), SymP('V', m), SymP('W', n)
                g = Sym('gamma')
                zv, z = zform(s, v, m)
                freeze_all(s, o)
                before = snap(s, o)
                HTV = H.T @ V.inv
                Lm = (Eye(n) - g * (Q @ P) + HTV @ H @ P).inv
                PL = P @ Lm
                K = F @ PL @ HTV
                y = z - H @ x
                Pn = F @ PL @ F.T + W
                Pn = (Pn + Pn.T) / 2
                xw = x + K @ y
                if flat:
                    y, xw = y.reshape(m), xw.reshape(n)
                r = s.call(o, 'update', zv)
                if not L.runs(('C37', 'C11', 'C34'), '%s.update runs' % cls, s, r):
                    return
                for k, wv in (('y', y), ('K', K), ('x', xw), ('P', Pn)):
                    L.eq(('C37', 'C11'), '%s.update: %s' % (cls, k), s, None, wv, o, k)
                L.eq(('C37', 'C07'), '%s.update: stored z' % cls, s, lambda: column(s, o, 'z', m), z)
                same_attrs(L, ('C09', 'C37'), '%s.update keeps the model' % cls, s, o, before, ('F', 'Q', '_V', '_V_inv', 'W', 'H', 'B', 'gamma'))
                symmetric(L, ('C10',), '%s.update: P symmetric' % cls, s, o, 'P')
                no_mutation(L, s)
            L.guarded('%s.update %s %s' % (cls, v, cname), go)
    n, m, l = dim('n'), dim('m'), dim('l')

    def call(s, o, zs, N, uf, form):
        sv, saves = saver_stub(s)
        r = s.call(o, 'batch_filter', zs, saver=sv, **order(uf))
        r.tags = None
        if r.ok:
            check_saves(L, s, saves, N, cls + '.batch_filter')
        return r, ('means', 'covariances')

    def ref(s, o, zs, N, uf, form):
        return s.ref('pu_batch2', o, N, (n, 1), zs, uf)
    batch_suite(L, cls + '.batch_filter', lambda s, form: make_hinf(s, n, m, l), call, ref, n, m, l, forms=('stored', 'missing'))


# ----------------------------------------------------------------- fixed lag
def make_fls(s, n, m, l, N, B=False, flat=False):
    o = s.make(FL, 'FixedLagSmoother', n, m, **({} if N is None else dict(N=N)))
    base_model(s, o, n, m, l, B)
    if flat:
        s.assign(o, 'x', s.arr(Sym('x', n, 1).reshape(n)))
    return o


def suite_fixed_lag(L):
    if not L.want('C03', 'C13', 'C04', 'C06', 'C10', 'C11', 'C34'):
        return
    cls = 'FixedLagSmoother'
    dims = [(dim('n'), dim('m'), dim('l'), 'n,m,l generic')]
    if L.tier == 'thorough':
        dims.append((dim('n'), Lin(1), Lin(1), 'dim_z=1'))
    for n, m, l, cname in dims:
        for N in (1, 2, 3):
            for steps in ((2, 5) if N == 2 else (5,)):
                for v in ('plain', 'input', '1-D'):
                    if v == '1-D' and N != 2:
                        continue

                    def go():
                        flat = v == '1-D'
                        xsh = (n,) if flat else (n, 1)

                        def setup(what):
                            s = L.session('%s.%s, lag %d, %d measurements, %s' % (cls, what, N, steps, v))
                            s.I.let_limit = s.I.let_local = 60
                            o = make_fls(s, n, m, l, N, B=v == 'input', flat=flat)
                            zs = [Sym('z%d' % i, m) if flat else Sym('z%d' % i, m, 1) for i in range(steps)]
                            us = [Sym('u%d' % i, l, 1) for i in range(steps)] if v == 'input' else None
                            freeze_all(s, o)
                            return s, o, zs, us
                        s, o, zs, us = setup('smooth')
                        for i in range(steps):
                            r = s.call(o, 'smooth', s.arr(zs[i], 'param z'), **({} if us is None else dict(u=s.arr(us[i], 'param u'))))
                            if not L.runs(('C03', 'C13', 'C11', 'C34'), '%s.smooth runs' % cls, s, r):
                                return
                        no_mutation(L, s)
                        s2, o2, zs, us = setup('smooth')
                        v2 = s2.ref('fixed_lag', o2, s2.val(zs), s2.val(us if us is not None else [None] * steps), N)
                        xs, xh, P, y, S_, K = pair(s2, v2, 6)
                        want = [M(s2.ten(w)) for w in pair(s2, xs, steps)]
                        hats = [M(s2.ten(w)) for w in pair(s2, xh, steps)]
                        got = pair(s, s.get(o, 'xSmooth'), steps)
                        for i in range(steps):
                            L.eq(('C13', 'C11', 'C04'), '%s.smooth: xSmooth' % cls, s, got[i], want[i], o, 'xSmooth')
                        L.eq(('C03', 'C11'), '%s.smooth: x' % cls, s, None, hats[-1], o, 'x')
                        L.eq(('C03', 'C11'), '%s.smooth: P' % cls, s, None, M(s2.ten(P)), o, 'P')
                        L.eq(('C03', 'C11'), '%s.smooth: y' % cls, s, None, M(s2.ten(y)), o, 'y')
                        L.eq(('C03', 'C11'), '%s.smooth: S' % cls, s, None, M(s2.ten(S_)), o, 'S')
                        L.eq(('C03', 'C11'), '%s.smooth: K' % cls, s, None, M(s2.ten(K)), o, 'K')
                        symmetric(L, ('C10',), '%s.smooth: P symmetric' % cls, s, o, 'P')
                        live = set(x.loc for k in ('x', 'P') for x in X.phi_arrs(s.raw(o, k)))
                        L.true(('C06',), '%s.smooth: stored estimates independent of live state' % cls, s, not any(isinstance(g, Arr) and g.loc in live for g in got),
                               'an entry of xSmooth is the live array')
                        s3, o3, zs, us = setup('smooth_batch')
                        before = snap(s3, o3)
                        r = s3.call(o3, 'smooth_batch', s3.val(zs), N, **({} if us is None else dict(us=s3.val(us))))
                        if not L.runs(('C03', 'C13', 'C11', 'C34', 'C04'), '%s.smooth_batch runs' % cls, s3, r):
                            return
                        g1, g2 = pair(s3, r.val, 2)
                        for i in range(steps):
                            L.eq(('C13', 'C11', 'C04'), '%s.smooth_batch: xSmooth' % cls, s3, lambda: s3.item(g1, i), want[i])
                            L.eq(('C03', 'C11', 'C04'), '%s.smooth_batch: xhat' % cls, s3, lambda: s3.item(g2, i), hats[i])
                        same_attrs(L, ('C06',), '%s.smooth_batch leaves the model unchanged' % cls, s3, o3, before, ('F', 'Q', 'R', 'H', 'B', 'x', 'P'))
                        no_mutation(L, s3)
                    L.guarded('%s lag %d' % (cls, N), go)


def suite_info_inverse(L):
    if not L.want('C09', 'C32'):
        return

    def mk(s, n, m, inv, letter):
        uf, ref = inv(letter)
        o = make_info(s, n, m, Lin(0))
        s.assign(o, 'inv', uf)
        return o, ref

    def update(s, n, m, inv):
        o, ref = mk(s, n, m, inv, 'n')
        x, J, H, W, z = Sym('x', n, 1), SymP('J', n), Sym('H', m, n), SymP('W', m), Sym('z', m, 1)
        r = s.call(o, 'update', s.arr(z, 'param z'))
        if not L.runs(('C09', 'C34'), 'InformationFilter.update with a configured inv runs', s, r):
            return []
        K = ref(J + H.T @ W @ H) @ H.T @ W
        return [('K', tensor(s, o, 'K'), K), ('x', tensor(s, o, 'x'), x + K @ (z - H @ x)), ('P_inv', tensor(s, o, 'P_inv'), J + H.T @ W @ H)]

    def predict(s, n, m, inv):
        o, ref = mk(s, n, m, inv, 'n')
        G, J, Q = Sym('F', n, n).inv, SymP('J', n), SymP('Q', n)
        r = s.call(o, 'predict')
        if not L.runs(('C09', 'C34'), 'InformationFilter.predict with a configured inv runs', s, r):
            return []
        return [('x', tensor(s, o, 'x'), Sym('F', n, n) @ Sym('x', n, 1)), ('P_inv', tensor(s, o, 'P_inv'), ref(ref(G.T @ J @ G) + Q))]

    def prop(s, n, m, inv):
        o, ref = mk(s, n, m, inv, 'n')
        s.assign(o, 'F', s.sym('F2', n, n))
        return [('P', s.get(o, 'P'), ref(SymP('J', n))), ('cached inverse of F', tensor(s, o, '_F_inv'), ref(Sym('F2', n, n)))]

    inverse_cases(L, 'InformationFilter', [(k, [('n,m generic', (dim('n'), dim('m')))], f) for k, f in (('update', update), ('predict', predict), ('F and P', prop))])


SUITES = [suite_fading, suite_fading_batch, suite_sqrt, suite_info, suite_hinf, suite_fixed_lag, suite_info_inverse]
for _f, _t in zip(SUITES, (CROSS + ('C03',), CROSS, CROSS + ('C20',), CROSS + ('C21', 'C32'), CROSS + ('C37',), CROSS + ('C03', 'C13'), ('C09', 'C32'))):
    _f.tags = _t
