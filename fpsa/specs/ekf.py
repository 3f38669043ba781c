"""Extended Kalman filter."""
from ..lab import *      # noqa
from .. import algebra as A
from .common import *    # noqa
from .kf import upd_ref, ctxs

EKF = 'filterpy.kalman.EKF'
TAGS = ('C02', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C34', 'C04')


def make_ekf(s, n, m, l, B=False, flat=False):
    o = s.make(EKF, 'ExtendedKalmanFilter', n, m, l)
    base_model(s, o, n, m, l, B, ('P', 'F', 'Q', 'R'))
    x = Sym('x', n, 1)
    s.assign(o, 'x', s.arr(x.reshape(n) if flat else x))
    return o


def shaped(x, flat, n):
    return x.reshape(n) if flat else x


def suite_predict(L):
    if not L.want(*TAGS):
        return
    for cname, n, m, l in ctxs():
        for flat in (False, True):
            for v in ('plain', 'B without u', 'B and u', 'scalar u', 'u=0'):
                def go():
                    s = L.session('ExtendedKalmanFilter.predict, %s, %s, %s' % (v, cname, '1-D x' if flat else 'column x'))
                    ll = Lin(1) if v == 'scalar u' else l
                    o = make_ekf(s, n, m, ll, B=v != 'plain', flat=flat)
                    x, P, F, Q, B = Sym('x', n, 1), SymP('P', n), Sym('F', n, n), SymP('Q', n), Sym('B', n, ll)
                    kw = {}
                    wx = F @ x
                    if v == 'B and u':
                        u = Sym('u', l, 1)
                        kw['u'] = s.arr(u.reshape(l) if flat else u, 'param u')
                        wx = wx + B @ u
                    elif v == 'scalar u':
                        if flat:
                            return
                        kw['u'] = s.num('u')
                        s.I.assume(s.st, A.ind('=', A.sym('u')), False)
                        wx = wx + B * Sym('u')
                    elif v == 'u=0':
                        kw['u'] = 0
                    wx = shaped(wx, flat, n)
                    wP = F @ P @ F.T + Q
                    freeze_all(s, o)
                    before = snap(s, o)
                    r = s.call(o, 'predict', **kw)
                    if not L.runs(('C02', 'C11', 'C34'), 'ExtendedKalmanFilter.predict runs', s, r):
                        return
                    L.eq(('C02', 'C11'), 'EKF predict: x', s, None, wx, o, 'x')
                    L.eq(('C02', 'C11'), 'EKF predict: P', s, None, wP, o, 'P')
                    L.eq(('C07', 'C11'), 'EKF predict: x_prior', s, None, wx, o, 'x_prior')
                    L.eq(('C07', 'C11'), 'EKF predict: P_prior', s, None, wP, o, 'P_prior')
                    same_attrs(L, ('C02', 'C09'), 'EKF predict keeps the model', s, o, before, ('F', 'Q', 'R', 'B'))
                    same_attrs(L, ('C07',), 'EKF predict leaves the posterior snapshot', s, o, before, ('x_post', 'P_post'))
                    symmetric(L, ('C10',), 'EKF predict: P symmetric', s, o, 'P')
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_prior'), ('P', 'P_prior')])
                    no_mutation(L, s)
                L.guarded('EKF predict %s %s' % (v, cname), go)

    def hook(meth):
        # a replaced predict_x is what predict uses, with the given input
        n, m, l = dim('n'), dim('m'), dim('l')
        s = L.session('ExtendedKalmanFilter.%s with predict_x replaced' % meth)
        o = make_ekf(s, n, m, l, B=True)
        rec = []

        def px(I, st, a, kw):
            rec.append(a + list(kw.values()))
            c = st.heap[o.loc]
            at = dict(c.attrs)
            at['x'] = st.arr(Sym('xnew', n, 1).t)
            st.heap[o.loc] = ObjC(c.cls, at, c.prov)
            return Con(None)
        s.put(o, 'predict_x', UFn('predict_x', px))
        u = s.sym('u', l, 1, prov='param u')
        if meth == 'predict':
            r = s.call(o, 'predict', u)
        else:
            r = s.call(o, 'predict_update', Con(None), UFn('HJ', lambda *a: Con(None)), UFn('Hx', lambda *a: Con(None)), u=u)
        if L.runs(('C02', 'C04'), 'EKF prediction runs with predict_x replaced', s, r):
            L.eq(('C02', 'C04'), 'EKF predict: state from predict_x', s, None, Sym('xnew', n, 1), o, 'x')
            L.eq(('C02', 'C04'), 'EKF predict: prior from predict_x', s, None, Sym('xnew', n, 1), o, 'x_prior')
            L.true(('C02', 'C04'), 'EKF predict hands the input to predict_x', s, len(rec) == 1 and len(rec[0]) == 1 and rec[0][0] is u or len(rec) == 1 and len(rec[0]) == 1 and isinstance(rec[0][0], Arr) and rec[0][0].loc == u.loc,
                   'predict_x called with %r' % (rec,))
    for meth in ('predict', 'predict_update'):
        L.guarded('EKF predict_x', lambda: hook(meth))


def ufuncs(s, m, n, flat, args, hargs):
    zsh = (m,) if flat else (m, 1)
    return s.ufn('HJacobian', (m, n)), s.ufn('Hx', zsh), zsh


def ext(ctx, x):
    """reference argument list from extra-argument form"""
    return [Sym(x + '1', *()), Sym(x + '2', *())]


def argform(s, form, nm):
    """(value for the call, reference arguments)"""
    if form == 'none':
        return None, []
    if form == 'single':
        return Num(A.sym(nm + '1')), [Sym(nm + '1')]
    return Tup([Num(A.sym(nm + '1')), Num(A.sym(nm + '2'))]), [Sym(nm + '1'), Sym(nm + '2')]


def suite_update(L):
    if not L.want(*TAGS):
        return
    for meth in ('update', 'predict_update'):
        for cname, n, m, l in ctxs():
            forms = ['column', 'args tuple', 'args single', '1-D']
            forms += ['R override', 'R scalar', 'residual', 'args tuple+R override', 'args single+R scalar', 'args tuple+residual', 'R override+residual', 'R scalar+residual', '1-D+R override', '1-D+residual', '1-D+args tuple'] \
                if meth == 'update' else ['input', 'no input', 'args tuple+input', '1-D+args tuple']
            if m == Lin(1):
                forms.append('scalar z')
            for v in forms:
                def go():
                    c = v.split('+')
                    s = L.session('ExtendedKalmanFilter.%s, %s, %s' % (meth, v, cname))
                    flat = '1-D' in c
                    o = make_ekf(s, n, m, l, B='input' in c or 'no input' in c, flat=flat)
                    x, P, R, F, Q = Sym('x', n, 1), SymP('P', n), SymP('R', m), Sym('F', n, n), SymP('Q', n)
                    zsh = (m,) if flat or v == 'scalar z' else (m, 1)
                    z = Sym('z', m, 1)
                    kw = {}
                    ra, rh = [], []
                    af = 'tuple' if 'args tuple' in c else 'single' if 'args single' in c else 'none'
                    if af != 'none':
                        kw['args'], ra = argform(s, af, 'p')
                        kw['hx_args'], rh = argform(s, af, 'q')
                    if 'R override' in c:
                        R = SymP('R2', m)
                        kw['R'] = s.arr(R, 'param R')
                    if 'R scalar' in c:
                        R = Eye(m) * Sym('r')
                        kw['R'] = s.num('r')
                    if 'residual' in c:
                        kw['residual'] = s.ufn('residual', zsh)
                    if 'input' in c:
                        kw['u'] = s.sym('u', l, 1, prov='param u')
                    xw = x
                    if meth == 'predict_update':
                        xw = F @ x
                        if 'input' in c:
                            xw = xw + Sym('B', n, l) @ Sym('u', l, 1)
                        P = F @ P @ F.T + Q
                    xv = shaped(xw, flat, n)
                    H = s.u('HJacobian', (m, n), xv, *ra)
                    hsh = (m,) if flat else ((m, 1) if v != 'scalar z' else (m,))
                    h = s.u('Hx', hsh, xv, *rh)
                    zv = Num(z.p) if v == 'scalar z' else s.arr(z.reshape(*zsh), 'param z')
                    if v == 'scalar z':
                        zr = z.reshape(m)
                    else:
                        zr = z.reshape(*zsh)
                    y = zr - h
                    if 'residual' in c:
                        y = s.u('residual', zsh, zr, h)
                    S_ = H @ P @ H.T + R
                    K = P @ H.T @ S_.inv
                    I_KH = Eye(n) - K @ H
                    xn = xv + (K @ y if flat or v != 'scalar z' else K @ y.reshape(m, 1))
                    if v == 'scalar z':
                        xn = xv + K @ y.reshape(m, 1)
                    Pn = I_KH @ P @ I_KH.T + K @ R @ K.T
                    hx = s.ufn('Hx', hsh)
                    if v == 'scalar z':
                        hx = s.ufn('Hx', (m, 1))
                        h = s.u('Hx', (m, 1), xv, *rh)
                        y = z - h
                        xn = xv + K @ y
                    freeze_all(s, o)
                    before = snap(s, o)
                    r = s.call(o, meth, zv, s.ufn('HJacobian', (m, n)), hx, **kw)
                    if not L.runs(('C02', 'C11', 'C34', 'C09'), 'ExtendedKalmanFilter.%s runs' % meth, s, r):
                        return
                    for k, w in (('x', xn), ('P', Pn), ('K', K), ('y', y), ('S', S_), ('SI', S_.inv)):
                        L.eq(('C02', 'C09', 'C11') + (('C04',) if meth == 'predict_update' else ()), 'EKF %s: %s' % (meth, k), s, None, w, o, k)
                    L.eq(('C07', 'C11'), 'EKF %s: x_post' % meth, s, None, xn, o, 'x_post')
                    L.eq(('C07', 'C11'), 'EKF %s: P_post' % meth, s, None, Pn, o, 'P_post')
                    if meth == 'predict_update':
                        L.eq(('C07', 'C11', 'C04'), 'EKF predict_update: x_prior', s, None, xv, o, 'x_prior')
                        L.eq(('C07', 'C11', 'C04'), 'EKF predict_update: P_prior', s, None, P, o, 'P_prior')
                    else:
                        same_attrs(L, ('C07',), 'EKF update leaves the prior snapshot', s, o, before, ('x_prior', 'P_prior'))
                    same_attrs(L, ('C09', 'C02'), 'EKF %s keeps the model' % meth, s, o, before, ('F', 'Q', 'R', 'B'))
                    L.eq(('C07', 'C11'), 'EKF %s: stored z' % meth, s, lambda: column(s, o, 'z', m), z)
                    symmetric(L, ('C10',), 'EKF %s: P symmetric' % meth, s, o, 'P')
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                    no_mutation(L, s)
                    diagnostics(L, s, o, y, S_, 'EKF ' + meth)
                    if v == 'column' and L.want('C08'):
                        r = s.call(o, meth, s.sym('z2', m, 1), s.ufn('HJacobian', (m, n)), hx)
                        if r.ok:
                            diagnostics(L, s, o, tensor(s, o, 'y'), tensor(s, o, 'S'), 'EKF %s again' % meth)
                L.guarded('EKF %s %s %s' % (meth, v, cname), go)


def suite_none(L):
    if not L.want('C05', 'C07', 'C34', 'C04'):
        return
    for meth in ('update', 'predict_update'):
        for cname, n, m, l in ctxs():
            def go():
                s = L.session('ExtendedKalmanFilter.%s(None), %s' % (meth, cname))
                o = make_ekf(s, n, m, l)
                symbolise(s, o, ('x_prior', 'P_prior', 'x_post', 'P_post', 'z', 'y', 'K', 'S', 'SI'))
                before = snap(s, o)
                x, P = Sym('x', n, 1), SymP('P', n)
                r = s.call(o, meth, None, s.ufn('HJacobian', (m, n)), s.ufn('Hx', (m, 1)))
                if not L.runs(('C05', 'C34'), 'ExtendedKalmanFilter.%s(None) runs' % meth, s, r):
                    return
                if meth == 'update':
                    same_attrs(L, ('C05',), 'EKF missing measurement: unchanged', s, o, before, ('x', 'P', 'x_prior', 'P_prior', 'F', 'Q', 'R', 'B'))
                else:
                    F = Sym('F', n, n)
                    x, P = F @ x, F @ P @ F.T + SymP('Q', n)
                    for k, w in (('x', x), ('P', P), ('x_prior', x), ('P_prior', P)):
                        L.eq(('C05', 'C04', 'C07'), 'EKF missing measurement: only the prediction, %s' % k, s, None, w, o, k)
                L.eq(('C05', 'C07'), 'EKF missing measurement: x_post', s, None, x, o, 'x_post')
                L.eq(('C05', 'C07'), 'EKF missing measurement: P_post', s, None, P, o, 'P_post')
                L.none(('C05',), 'EKF missing measurement: z', s, None, o, 'z')
                record_shapes(L, s, o, before)
                independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
            L.guarded('EKF %s(None) %s' % (meth, cname), go)


SUITES = [suite_predict, suite_update, suite_none]
for _f in SUITES:
    _f.tags = TAGS
