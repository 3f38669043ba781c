"""Linear Kalman filter family: KalmanFilter and the stand-alone functions."""
from ..lab import *      # noqa
from .. import algebra as A
import itertools
from .common import *    # noqa

KF = 'filterpy.kalman.kalman_filter'


def make_kf(s, n, m, l, B=False, M_=False, alpha=True, xs=None, flat=False):
    o = s.make(KF, 'KalmanFilter', n, m, l)
    base_model(s, o, n, m, l, B)
    if flat:
        s.assign(o, 'x', s.sym('x', n))
    if alpha:
        put_alpha(s, o)
    if M_:
        s.assign(o, 'M', Sym('M', n, m))
    return o


def put_alpha(s, o):
    """fading factor a >= 1 through the public setter"""
    a = A.sym('a')
    f = A.less if hasattr(A, 'less') else None
    s.st.assume = dict(s.st.assume)
    c = A.ind('<', a - 1)
    s.I.assume(s.st, c, False)
    r = s.assign(o, 'alpha', a)
    if not r.ok:
        raise Imprecise('alpha setter: %s' % (r.raised or r.why))


def ctxs():
    n, m, l = dim('n'), dim('m'), dim('l')
    return [('n,m,l generic', n, m, l), ('dim_z=1', n, Lin(1), l), ('dim_x=dim_z=1', Lin(1), Lin(1), Lin(1))]


def suite_predict(L):
    """KalmanFilter.predict / get_prediction"""
    tags = ('C01', 'C04', 'C06', 'C07', 'C09', 'C10', 'C11', 'C34')
    if not L.want(*tags):
        return
    a = Sym('a')
    for cname, n, m, l in ctxs():
        combos = ['plain', 'u', 'stored B', 'stored B+u', 'stored B+u+B+F+Q', 'scalar Q']
        if cname == ctxs()[0][0]:
            combos = ['+'.join(x for x in c if x) or 'plain' for c in itertools.product(('', 'stored B'), ('', 'u'), ('', 'B'), ('', 'F'), ('', 'Q', 'scalar Q')) if c[1] or not c[2]]
        for v in combos + ['1-D x', '1-D x+u', '1-D x+stored B', '1-D x+stored B+u', '1-D x+u+B+F']:
            def go():
                c = v.split('+')
                s = L.session('KalmanFilter.predict, %s, %s' % (v, cname))
                flat = '1-D x' in c
                o = make_kf(s, n, m, l, B='stored B' in c, flat=flat)
                x, P, F, Q, B = Sym('x', n, 1), SymP('P', n), Sym('F', n, n), SymP('Q', n), Sym('B', n, l)
                if flat:
                    x = Sym('x', n).reshape(n, 1)
                u = Sym('u', l, 1)
                kw = {}
                if 'u' in c:
                    kw['u'] = s.arr(u.reshape(l) if flat else u, 'param u')
                if 'B' in c:
                    B = Sym('B2', n, l)
                    kw['B'] = s.arr(B, 'param B')
                if 'F' in c:
                    F = Sym('F2', n, n)
                    kw['F'] = s.arr(F, 'param F')
                if 'Q' in c:
                    Q = SymP('Q2', n)
                    kw['Q'] = s.arr(Q, 'param Q')
                if 'scalar Q' in c:
                    Q = Eye(n) * Sym('q')
                    kw['Q'] = s.num('q')
                wx = F @ x
                if 'u' in c and ('B' in c or 'stored B' in c):
                    wx = wx + B @ u
                if flat:
                    wx = wx.reshape(n)
                wP = (a * a) * (F @ P @ F.T) + Q
                frozen = freeze_all(s, o)
                before = snap(s, o)
                g = s.call(o, 'get_prediction', **kw)
                if L.runs(('C04', 'C11', 'C34'), 'KalmanFilter.get_prediction runs', s, g):
                    got = pair(s, g.val, 2)
                    L.eq(('C04', 'C01', 'C09', 'C11'), 'get_prediction mean', s, got[0], wx)
                    L.eq(('C04', 'C01', 'C09', 'C11'), 'get_prediction covariance', s, got[1], wP)
                pure(L, ('C06', 'C04'), 'get_prediction leaves the filter unchanged', s, o, before)
                r = s.call(o, 'predict', **kw)
                if not L.runs(('C01', 'C11', 'C34', 'C09'), 'KalmanFilter.predict runs', s, r):
                    return
                L.eq(('C01', 'C09', 'C11', 'C04'), 'predict: x', s, None, wx, o, 'x')
                L.eq(('C01', 'C09', 'C11', 'C04'), 'predict: P', s, None, wP, o, 'P')
                L.eq(('C07', 'C11'), 'predict: x_prior', s, None, wx, o, 'x_prior')
                L.eq(('C07', 'C11'), 'predict: P_prior', s, None, wP, o, 'P_prior')
                same_attrs(L, ('C09',), 'predict keeps the model', s, o, before, ('F', 'Q', 'R', 'H', 'B', 'M'))
                same_attrs(L, ('C07',), 'predict leaves the posterior snapshot', s, o, before, ('x_post', 'P_post'))
                symmetric(L, ('C10',), 'predict: P symmetric', s, o, 'P')
                independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_prior'), ('P', 'P_prior')])
                no_mutation(L, s)
            L.guarded('KalmanFilter.predict %s %s' % (v, cname), go)


def upd_ref(x, P, H, R, z, n, corr=None, K=None):
    y = z - H @ x
    PHT = P @ H.T
    S = H @ PHT + R
    if corr is not None:
        S = S + H @ corr + corr.T @ H.T
        PHT = PHT + corr
    K = PHT @ S.inv
    IKH = Eye(n) - K @ H
    x2 = x + K @ y
    if corr is None:
        P2 = IKH @ P @ IKH.T + K @ R @ K.T
    else:
        P2 = P - K @ (H @ P + corr.T)
    return dict(x=x2, P=P2, y=y, S=S, SI=S.inv, K=K)


def zform(s, form, m):
    """(value passed, column vector reference)"""
    z = Sym('z', m, 1)
    if form == 'column':
        return s.arr(z, 'param z'), z
    if form == '1-D':
        return s.arr(z.reshape(m), 'param z'), z
    if form == 'scalar':
        return Num(z.p), z
    if form == 'row':
        return s.arr(z.reshape(1, m), 'param z'), z


def suite_update(L):
    tags = ('C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C34')
    if not L.want(*tags):
        return
    for meth in ('update', 'update_correlated'):
        for cname, n, m, l in ctxs():
            forms = ['column', '1-D', 'R', 'scalar R', 'H+R', '1-D x', '1-D+1-D x', '1-D+1-D x+R']
            if cname == ctxs()[0][0]:
                forms += ['H', 'H+scalar R', '1-D+R', '1-D+scalar R']
            if m == Lin(1):
                forms += ['scalar', 'scalar+R', 'scalar+scalar R', 'scalar+1-D x', 'scalar+1-D x+H']
            for v in forms:
                def go():
                    c = v.split('+')
                    s = L.session('KalmanFilter.%s, %s, %s' % (meth, v, cname))
                    flat = '1-D x' in c
                    o = make_kf(s, n, m, l, M_=True, flat=flat)
                    x, P, H, R, C = Sym('x', n, 1), SymP('P', n), Sym('H', m, n), SymP('R', m), Sym('M', n, m)
                    if flat:
                        x = Sym('x', n).reshape(n, 1)
                    zv, z = zform(s, c[0] if c[0] in ('1-D', 'scalar') else 'column', m)
                    kw = {}
                    if 'R' in c:
                        R = SymP('R2', m)
                        kw['R'] = s.arr(R, 'param R')
                    if 'scalar R' in c:
                        R = Eye(m) * Sym('r')
                        kw['R'] = s.num('r')
                    if 'H' in c:
                        H = Sym('H2', m, n)
                        kw['H'] = s.arr(H, 'param H')
                    freeze_all(s, o)
                    before = snap(s, o)
                    w = upd_ref(x, P, H, R, z, n, C if meth == 'update_correlated' else None)
                    if flat:
                        w['x'], w['y'] = w['x'].reshape(n), w['y'].reshape(m)
                    r = s.call(o, meth, zv, **kw)
                    if not L.runs(('C01', 'C11', 'C34', 'C09'), 'KalmanFilter.%s runs' % meth, s, r):
                        return
                    for k in ('x', 'P', 'K', 'y', 'S', 'SI'):
                        L.eq(('C01', 'C09', 'C11') + (('C04',) if k in 'xP' else ()), '%s: %s' % (meth, k), s, None, w[k], o, k)
                    L.eq(('C07', 'C11'), '%s: x_post' % meth, s, None, w['x'], o, 'x_post')
                    L.eq(('C07', 'C11'), '%s: P_post' % meth, s, None, w['P'], o, 'P_post')
                    same_attrs(L, ('C07',), '%s leaves the prior snapshot' % meth, s, o, before, ('x_prior', 'P_prior'))
                    same_attrs(L, ('C09',), '%s keeps the model' % meth, s, o, before, ('F', 'Q', 'R', 'H', 'B', 'M'))
                    L.eq(('C07', 'C11'), '%s: stored z' % meth, s, lambda: column(s, o, 'z', m), z)
                    symmetric(L, ('C10',), '%s: P symmetric' % meth, s, o, 'P')
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                    no_mutation(L, s)
                    diagnostics(L, s, o, w['y'], w['S'], meth)
                    # a later update must refresh the cached diagnostics
                    if v == 'column':
                        z2 = Sym('z2', m, 1)
                        w2 = upd_ref(w['x'], w['P'], H, R, z2, n, C if meth == 'update_correlated' else None)
                        r = s.call(o, meth, s.arr(z2, 'param z'))
                        if r.ok:
                            diagnostics(L, s, o, tensor(s, o, 'y'), tensor(s, o, 'S'), meth + ' again')
                L.guarded('KalmanFilter.%s %s %s' % (meth, v, cname), go)


def suite_update_none(L):
    tags = ('C05', 'C07', 'C11', 'C34')
    if not L.want(*tags):
        return
    for meth in ('update', 'update_correlated', 'update_steadystate'):
        for cname, n, m, l in ctxs():
            def go():
                s = L.session('KalmanFilter.%s(None), %s' % (meth, cname))
                o = make_kf(s, n, m, l)
                symbolise(s, o, ('x_prior', 'P_prior', 'x_post', 'P_post', 'z', 'y', 'K', 'S', 'SI'))
                before = snap(s, o)
                r = s.call(o, meth, None)
                if not L.runs(('C05', 'C34'), 'KalmanFilter.%s(None) runs' % meth, s, r):
                    return
                same_attrs(L, ('C05',), 'missing measurement: unchanged', s, o, before, ('x', 'P', 'x_prior', 'P_prior', 'F', 'Q', 'R', 'H', 'B', 'M'))
                L.eq(('C05', 'C07'), 'missing measurement: x_post', s, None, Sym('x', n, 1), o, 'x_post')
                L.eq(('C05', 'C07'), 'missing measurement: P_post', s, None, SymP('P', n), o, 'P_post')
                L.none(('C05',), 'missing measurement: z', s, None, o, 'z')
                record_shapes(L, s, o, before)
                independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
            L.guarded('KalmanFilter.%s(None) %s' % (meth, cname), go)


def suite_get_update(L):
    if not L.want('C04', 'C05', 'C06', 'C11', 'C01'):
        return
    for cname, n, m, l in ctxs():
        for v in ['column', '1-D', 'none', 'column, 1-D x', '1-D, 1-D x', 'none, 1-D x'] + (['scalar', 'scalar, 1-D x'] if m == Lin(1) else []):
            def go():
                s = L.session('KalmanFilter.get_update, %s, %s' % (v, cname))
                flat = v.endswith('1-D x')
                o = make_kf(s, n, m, l, flat=flat)
                x, P, H, R = Sym('x', n, 1), SymP('P', n), Sym('H', m, n), SymP('R', m)
                if flat:
                    x = Sym('x', n).reshape(n, 1)
                symbolise(s, o, ('x_prior', 'P_prior', 'x_post', 'P_post', 'z', 'y', 'K', 'S', 'SI'))
                freeze_all(s, o)
                before = snap(s, o)
                if v.startswith('none'):
                    r = s.call(o, 'get_update', None)
                    wx, wP = x, P
                else:
                    zv, z = zform(s, v.split(',')[0], m)
                    r = s.call(o, 'get_update', zv)
                    w = upd_ref(x, P, H, R, z, n)
                    wx, wP = w['x'], w['P']
                if flat:
                    wx = wx.reshape(n)
                if L.runs(('C04', 'C05', 'C11'), 'KalmanFilter.get_update runs', s, r):
                    g = pair(s, r.val, 2)
                    L.eq(('C04', 'C05', 'C11', 'C01'), 'get_update mean', s, g[0], wx)
                    L.eq(('C04', 'C05', 'C11', 'C01'), 'get_update covariance', s, g[1], wP)
                pure(L, ('C06', 'C04'), 'get_update leaves the filter unchanged', s, o, before)
                no_mutation(L, s)
            L.guarded('KalmanFilter.get_update %s %s' % (v, cname), go)


def suite_steady(L):
    if not L.want('C01', 'C07', 'C09', 'C11', 'C06', 'C08', 'C34'):
        return
    for cname, n, m, l in ctxs():
        for v in ('plain', 'B and u', 'B override', 'B without u', 'u without B', 'B override, none stored', 'B override without u', 'plain, 1-D x', 'B and u, 1-D x', 'B without u, 1-D x', 'u without B, 1-D x'):
            v, flat = (v[:-7], True) if v.endswith(', 1-D x') else (v, False)

            def go():
                s = L.session('KalmanFilter.predict_steadystate, %s%s, %s' % (v, ', 1-D x' if flat else '', cname))
                o = make_kf(s, n, m, l, B=v not in ('plain', 'u without B', 'B override, none stored'), flat=flat)
                x, F, B, u = Sym('x', n, 1), Sym('F', n, n), Sym('B', n, l), Sym('u', l, 1)
                kw = {}
                if flat:
                    x, u = Sym('x', n).reshape(n, 1), Sym('u', l, 1)
                w = F @ x
                if v in ('B and u', 'B override', 'u without B', 'B override, none stored'):
                    kw['u'] = s.arr(u.reshape(l) if flat else u, 'param u')
                if v.startswith('B override'):
                    B = Sym('B2', n, l)
                    kw['B'] = s.arr(B, 'param B')
                if v in ('B and u', 'B override', 'B override, none stored'):
                    w = w + B @ u
                if flat:
                    w = w.reshape(n)
                freeze_all(s, o)
                before = snap(s, o)
                r = s.call(o, 'predict_steadystate', **kw)
                if not L.runs(('C01', 'C11', 'C34'), 'KalmanFilter.predict_steadystate runs', s, r):
                    return
                L.eq(('C01', 'C09', 'C11'), 'predict_steadystate: x', s, None, w, o, 'x')
                L.eq(('C07', 'C11'), 'predict_steadystate: x_prior', s, None, w, o, 'x_prior')
                L.eq(('C07',), 'predict_steadystate: P_prior', s, None, SymP('P', n), o, 'P_prior')
                same_attrs(L, ('C01', 'C09'), 'predict_steadystate: P and model unchanged', s, o, before, ('P', 'F', 'Q', 'R', 'H', 'B'))
                no_mutation(L, s)
            L.guarded('KalmanFilter.predict_steadystate %s %s' % (v, cname), go)
        for v in ['column', '1-D', 'column, 1-D x', '1-D, 1-D x'] + (['scalar', 'scalar, 1-D x'] if m == Lin(1) else []):
            def go():
                s = L.session('KalmanFilter.update_steadystate, %s, %s' % (v, cname))
                flat = v.endswith('1-D x')
                o = make_kf(s, n, m, l, flat=flat)
                K = Sym('K', n, m)
                s.put(o, 'K', s.arr(K))
                symbolise(s, o, ('S', 'SI'))
                x, H = Sym('x', n, 1), Sym('H', m, n)
                if flat:
                    x = Sym('x', n).reshape(n, 1)
                zv, z = zform(s, v.split(',')[0], m)
                freeze_all(s, o)
                before = snap(s, o)
                r = s.call(o, 'update_steadystate', zv)
                if not L.runs(('C01', 'C11', 'C34'), 'KalmanFilter.update_steadystate runs', s, r):
                    return
                y = z - H @ x
                xn = x + K @ y
                if flat:
                    xn, y = xn.reshape(n), y.reshape(m)
                L.eq(('C01', 'C11'), 'update_steadystate: y', s, None, y, o, 'y')
                L.eq(('C01', 'C11'), 'update_steadystate: x', s, None, xn, o, 'x')
                L.eq(('C07', 'C11'), 'update_steadystate: x_post', s, None, xn, o, 'x_post')
                L.eq(('C07',), 'update_steadystate: P_post', s, None, SymP('P', n), o, 'P_post')
                L.eq(('C07',), 'update_steadystate: stored z', s, lambda: column(s, o, 'z', m), z)
                same_attrs(L, ('C01', 'C09'), 'update_steadystate: P, K and model unchanged', s, o, before, ('P', 'K', 'F', 'Q', 'R', 'H', 'B'))
                no_mutation(L, s)
                diagnostics(L, s, o, y, tensor(s, o, 'S'), 'update_steadystate', SI=tensor(s, o, 'SI'))
            L.guarded('KalmanFilter.update_steadystate %s %s' % (v, cname), go)


def suite_sequential(L):
    if not L.want('C01', 'C06', 'C07', 'C08', 'C09', 'C11', 'C34', 'C10'):
        return
    n, m, k = dim('n'), dim('m'), dim('k')
    m2 = dim('k') + dim('j') + dim('start0', 0)
    for v in ('scalar', 'block', 'block override', 'scalar R', 'scalar, 1-D x', 'block, 1-D x', 'block, 1-D x and y', 'block R', 'block H', 'block, scalar R', 'block H, scalar R', 'scalar H'):
        def go():
            flat = '1-D' in v
            i0 = dim('start0', 0)
            ln = Lin(1) if v.startswith('scalar') else k
            mm = i0 + ln + dim('rest', 0)
            s = L.session('KalmanFilter.update_sequential, %s' % v)
            o = make_kf(s, n, mm, Lin(0), flat=flat)
            s.put(o, 'K', s.arr(Sym('K', n, mm)))
            s.put(o, 'y', s.arr(Sym('y', *((mm,) if v.endswith('y') else (mm, 1)))))
            s.put(o, 'z', s.arr(Sym('zz', *((mm,) if v.endswith('y') else (mm, 1)))))
            s.put(o, 'S', s.arr(SymP('oldS', mm)))
            s.put(o, 'SI', s.arr(SymP('oldSI', mm)))
            x, P = Sym('x', n, 1), SymP('P', n)
            if flat:
                x = Sym('x', n).reshape(n, 1)
            Hf, Rf = Sym('H', mm, n), SymP('R', mm)
            H = M(A.slice_axis(Hf.t, 0, i0, i0 + ln))
            R = M(A.slice_axis(A.slice_axis(Rf.t, 0, i0, i0 + ln), 1, i0, i0 + ln))
            z = Sym('z', ln, 1)
            kw = {}
            if v in ('block override', 'block R'):
                R = SymP('R2', ln)
                kw['R_i'] = s.arr(R, 'param R_i')
            if v in ('block override', 'scalar H') or 'block H' in v:
                H = Sym('H2', ln, n)
                kw['H_i'] = s.arr(H if v != 'scalar H' else H.reshape(n), 'param H_i')
            if v.endswith('scalar R'):
                R = Sym('r').reshape(1, 1) if ln == Lin(1) else Eye(ln) * Sym('r')
                kw['R_i'] = s.num('r')
            zv = Num(z.p) if ln == Lin(1) else s.arr(z.reshape(ln), 'param z_i')
            freeze_all(s, o)
            before = snap(s, o)
            w = upd_ref(x, P, H, R, z, n)
            r = s.call(o, 'update_sequential', i0, zv, **kw)
            if not L.runs(('C01', 'C11', 'C34'), 'KalmanFilter.update_sequential runs', s, r):
                return
            if flat:
                w['x'] = w['x'].reshape(n)
            if v.endswith('y'):
                w['y'], z = w['y'].reshape(ln), z.reshape(ln)
            L.eq(('C01', 'C09', 'C11'), 'update_sequential: x', s, None, w['x'], o, 'x')
            L.eq(('C01', 'C09', 'C11'), 'update_sequential: P', s, None, w['P'], o, 'P')
            L.eq(('C07',), 'update_sequential: x_post', s, None, w['x'], o, 'x_post')
            L.eq(('C07',), 'update_sequential: P_post', s, None, w['P'], o, 'P_post')
            symmetric(L, ('C10',), 'update_sequential: P symmetric', s, o, 'P')

            def part(attr, ax, full=False):
                def f():
                    t = s.ten(s.get(o, attr))
                    return A.slice_axis(t, ax, i0, i0 + ln)
                return lambda: M(f())
            L.eq(('C01', 'C11'), 'update_sequential: rows of y', s, part('y', 0), w['y'], o, None, where=s.where(o, 'x'))
            L.eq(('C01', 'C11'), 'update_sequential: columns of K', s, part('K', 1), w['K'], o, None, where=s.where(o, 'x'))
            L.eq(('C07', 'C11'), 'update_sequential: rows of z', s, part('z', 0), z, o, None, where=s.where(o, 'x'))
            def block(attr):
                return lambda: M(A.slice_axis(A.slice_axis(s.ten(s.get(o, attr)), 0, i0, i0 + ln), 1, i0, i0 + ln))
            L.eq(('C01', 'C08', 'C11'), 'update_sequential: block of S', s, block('S'), w['S'], o, None, where=s.where(o, 'x'))
            L.eq(('C01', 'C08', 'C11'), 'update_sequential: block of SI', s, block('SI'), w['SI'], o, None, where=s.where(o, 'x'))
            L.eq(('C08',), 'update_sequential: parts are uncorrelated', s, lambda: M(A.slice_axis(A.slice_axis(s.ten(s.get(o, 'S')), 0, i0, i0 + ln), 1, Lin(0), i0)), Zeros(ln, i0), o, None, where=s.where(o, 'x'))
            diagnostics(L, s, o, tensor(s, o, 'y').reshape(mm, 1), tensor(s, o, 'S'), 'update_sequential', SI=tensor(s, o, 'SI'))
            same_attrs(L, ('C09',), 'update_sequential keeps the model', s, o, before, ('F', 'Q', 'R', 'H'))
            no_mutation(L, s)
        L.guarded('KalmanFilter.update_sequential %s' % v, go)




# ------------------------------------------------------------------- batch
def per_step(s, N, name, *shape):
    """list with one matrix per step"""
    base = Sym(name, N, *shape)
    return s.listof(N, lambda i: M(A.index_axis(base.t, 0, i)), 'param ' + name)


def order(uf):
    return {} if uf is None else dict(update_first=uf)


def const_list(s, N, v):
    return Lst(s.st.new(ListC([('k', N, s.val(v))])))


def batch_suite(L, what, make, call, ref, n, m, l, xs=None, saver=True, forms=('lists', 'stored', 'missing', 'stored B'), sizes=None):
    """batch run against the driver that feeds one measurement at a time"""
    if not L.want('C04', 'C06', 'C11', 'C34', 'C01'):
        return
    for N in sizes or (dim('N'), Lin(3), Lin(1)):
        for uf in (False, True, None):
            for form in forms:
                if (form in ('missing', 'flat', 'gaps', 'no B') or form.startswith('only')) and N != Lin(3):
                    continue
                # None: the documented default order, predict then update
                if uf is None and (N != Lin(3) or form != forms[0]):
                    continue

                def one(which):
                    s = L.session('%s, %s, update_first=%s, %s measurements' % (what, form, uf, N))
                    s.I.let_limit = 8
                    o = make(s, form)
                    if form == 'missing':
                        zs = s.val([Sym('z0', m, 1), None, Sym('z2', m, 1)])
                    elif form == 'flat':
                        zs = per_step(s, N, 'zs', m)
                    else:
                        zs = per_step(s, N, 'zs', m, 1)
                    if isinstance(o, Obj):
                        freeze_all(s, o)
                    if which == 'code':
                        return (s, o) + call(s, o, zs, N, uf, form)
                    return s, o, ref(s, o, zs, N, bool(uf), form)

                def go():
                    s, o, r, names = one('code')
                    if not L.runs(('C04', 'C11', 'C34', 'C01'), '%s runs' % what, s, r):
                        return
                    s2, o2, v2 = one('ref')
                    got, want = pair(s, r.val, len(names)), pair(s2, v2, len(names))
                    for nm, g, w in zip(names, got, want):
                        L.eq(('C04', 'C11') if r.tags is None else r.tags, '%s: %s' % (what, nm), s, g, M(s2.ten(w)))
                    for k in ('x', 'P'):
                        if isinstance(o, Obj) and k in s.attrs(o):
                            L.eq(('C04',), '%s: final %s' % (what, k), s, None, tensor(s2, o2, k), o, k)
                    live = set()
                    for k, v in (s.attrs(o).items() if isinstance(o, Obj) else ()):
                        live |= set(x.loc for x in X.phi_arrs(v))
                    L.true(('C06',), '%s: results independent of live arrays' % what, s,
                           not any(isinstance(g, Arr) and g.loc in live for g in got), 'a returned array is one of the filter\'s own arrays')
                    no_mutation(L, s)
                L.guarded('%s %s' % (what, form), go)


def suite_batch(L):
    n, m, l = dim('n'), dim('m'), dim('l')
    names = ('means', 'covariances', 'predicted means', 'predicted covariances')

    def args(s, o, N, form):
        if form == 'single H':
            return [None, None, s.sym('H1', m, n, prov='param Hs'), None, None, None]
        if form == 'one H':
            return [None, None, s.val([Sym('H1', m, n)]), None, None, None]
        if form.startswith('only'):
            return [v if k == form.split()[1] else None for k, v in zip(('Fs', 'Qs', 'Hs', 'Rs', 'Bs', 'us'), args(s, o, N, 'lists'))]
        if form == 'gaps':
            return args(s, o, N, 'lists')[:5] + [s.val([None, Sym('u1', l, 1), None])]
        if form in ('lists', 'missing', 'flat'):
            return [per_step(s, N, 'Fs', n, n), per_step(s, N, 'Qs', n, n), per_step(s, N, 'Hs', m, n), per_step(s, N, 'Rs', m, m),
                    per_step(s, N, 'Bs', n, l), per_step(s, N, 'us', *((l,) if form == 'flat' else (l, 1)))]
        return [None] * 6

    def call(s, o, zs, N, uf, form):
        a = args(s, o, N, form)
        kw = {k: v for k, v in zip(('Fs', 'Qs', 'Hs', 'Rs', 'Bs', 'us'), a) if v is not None}
        sv, saves = saver_stub(s)
        r = s.call(o, 'batch_filter', zs, saver=sv, **order(uf), **kw)
        r.tags = None
        if r.ok:
            check_saves(L, s, saves, N, 'KalmanFilter.batch_filter')
        return r, names

    def ref(s, o, zs, N, uf, form):
        a = args(s, o, N, form)
        if form in ('stored', 'stored B', 'single H', 'one H'):
            a = [const_list(s, N, s.get(o, k)) for k in 'FQHRB'] + [const_list(s, N, None)]
            if 'H' in form:
                a[2] = const_list(s, N, s.sym('H1', m, n))
        elif form.startswith('only'):
            a = [v if v is not None else const_list(s, N, None if k == 'u' else s.get(o, k)) for k, v in zip('FQHRBu', a)]
        return s.ref('kf_batch', o, N, (n,) if form == 'flat' else (n, 1), zs, *(a + [uf]))
    batch_suite(L, 'KalmanFilter.batch_filter', lambda s, form: make_kf(s, n, m, l, B=form in ('stored B', 'only us', 'only Fs'), flat=form == 'flat'), call, ref, n, m, l,
                forms=('lists', 'stored', 'missing', 'stored B', 'flat', 'gaps', 'single H', 'one H', 'only Fs', 'only Qs', 'only Hs', 'only Rs', 'only Bs', 'only us'))

    # stand-alone function
    def call2(s, o, zs, N, uf, form):
        a = args(s, o, N, form if form in ('flat', 'gaps') else 'lists')
        kw = {} if form == 'stored' else dict(us=a[5]) if form == 'no B' else dict(Bs=a[4], us=a[5])
        sv, saves = saver_stub(s)
        r = s.fn(KF, 'batch_filter', s.sym('x', *((n,) if form == 'flat' else (n, 1)), prov='param x'), s.arr(SymP('P', n), 'param P'), zs, *a[:4], saver=sv, **order(uf), **kw)
        r.tags = None
        if r.ok:
            check_saves(L, s, saves, N, 'batch_filter')
        return r, names

    def ref2(s, o, zs, N, uf, form):
        o = make_kf(s, n, m, l, alpha=False, flat=form == 'flat')
        a = args(s, o, N, form if form in ('flat', 'gaps') else 'lists')
        if form in ('stored', 'no B'):
            a[4:] = [const_list(s, N, None), const_list(s, N, None)]
        return s.ref('kf_batch', o, N, (n,) if form == 'flat' else (n, 1), zs, *(a + [uf]))
    batch_suite(L, 'batch_filter', lambda s, form: s.val(0), call2, ref2, n, m, l, forms=('lists', 'stored', 'missing', 'flat', 'gaps', 'no B'))


def saver_stub(s):
    """object whose save() calls are counted (list of one entry per call)"""
    log = s.val([])

    def save(I, st, a, kw):
        c = st.heap[log.loc]
        st.heap[log.loc] = ListC(list(c.segs) + [('v', Num(1, True))], c.prov)
        return Con(None)
    c = s.st.new(ObjC(None, {'save': UFn('save', save)}))
    return Obj(c), log


def check_saves(L, s, log, N, what):
    if not L.want('C04'):
        return
    try:
        ln = s.I.length(s.st, log)
        L.true(('C04',), '%s: the saver saves once per measurement' % what, s, ln == N, 'saves %r times for %r measurements' % (ln, N))
    except Imprecise as e:
        L.add('undecided', '%s: saver' % what, s.ctx, '', str(e), '')


def suite_rts(L):
    if not L.want('C12', 'C06', 'C10', 'C11', 'C34'):
        return
    n, m, l = dim('n'), dim('m'), dim('l')
    names = ('x', 'P', 'K', 'predicted P')
    for N in (dim('N', 2), Lin(3), Lin(1)):
        for d in ((n, Lin(1)), (n,)):
            for form in ('method, lists', 'method, stored', 'method, only Fs', 'method, only Qs', 'function'):
                if 'only' in form and N != Lin(3):
                    continue

                def go():
                    def setup():
                        s = L.session('rts_smoother, %s, %s steps, x with %d axes' % (form, N, len(d)))
                        s.I.let_limit = 8
                        Xs, Ps = s.sym('Xs', N, *d, prov='param Xs'), s.arr(Sym('Ps', N, n, n, sym=True), 'param Ps')
                        if form == 'method, stored':
                            return s, Xs, Ps, None, None
                        return s, Xs, Ps, None if 'Qs' in form else per_step(s, N, 'Fs', n, n), \
                            None if 'Fs' in form else s.listof(N, lambda i: M(A.index_axis(Sym('Qs', N, n, n, sym=True).t, 0, i)), 'param Qs')
                    s, Xs, Ps, Fs, Qs = setup()
                    if form == 'function':
                        what = 'rts_smoother'
                        r = s.fn(KF, 'rts_smoother', Xs, Ps, Fs, Qs)
                    else:
                        what = 'KalmanFilter.rts_smoother'
                        o = make_kf(s, n, m, l)
                        freeze_all(s, o)
                        before = snap(s, o)
                        r = s.call(o, 'rts_smoother', Xs, Ps, **{k: v for k, v in (('Fs', Fs), ('Qs', Qs)) if v is not None})
                        pure(L, ('C06',), 'rts_smoother leaves the filter unchanged', s, o, before)
                    if not L.runs(('C12', 'C11', 'C34'), '%s runs' % what, s, r):
                        return
                    s2, Xs2, Ps2, F2, Q2 = setup()
                    F2 = F2 if F2 is not None else const_list(s2, N, Sym('F', n, n))
                    Q2 = Q2 if Q2 is not None else const_list(s2, N, SymP('Q', n))
                    v2 = s2.ref('rts', Xs2, Ps2, F2, Q2, N, d)
                    got, want = pair(s, r.val, 4), pair(s2, v2, 4)
                    for k, (nm, g, w) in enumerate(zip(names, got, want)):
                        g, w = M(s.ten(g)), M(s2.ten(w))
                        L.eq(('C12', 'C11'), '%s: %s' % (what, nm), s, g, w)
                    last = M(A.index_axis(s.ten(got[0]), 0, N - 1))
                    L.eq(('C12',), '%s: last estimate unchanged' % what, s, last, M(A.index_axis(Sym('Xs', N, *d).t, 0, N - 1)))
                    for k in (1, 3):
                        if N == Lin(3):
                            for i in range(3):
                                symmetric(L, ('C10',), '%s: covariances symmetric' % what, s, None, '%s[%d]' % (names[k], i), val=M(A.index_axis(s.ten(got[k]), 0, Lin(i))))
                    no_mutation(L, s)
                L.guarded('rts_smoother', go)
    s = L.session('rts_smoother, Xs and Ps of different lengths')
    o = make_kf(s, n, m, l)
    L.runs(('C12',), 'rts_smoother rejects different lengths', s, s.call(o, 'rts_smoother', s.sym('Xs', 3, n, 1), s.sym('Ps', 2, n, n)), ('ValueError',))


# --------------------------------------------------------------- functions
def suite_functions(L):
    if not L.want('C01', 'C03', 'C05', 'C06', 'C08', 'C09', 'C10', 'C11', 'C34'):
        return
    n, m, l = dim('n'), dim('m'), dim('l')
    for form in ('column', '1-D', 'scalar', 'column, one measurement', '1-D, one measurement'):
        sc = form == 'scalar'
        mm = Lin(1) if sc or 'one' in form else m
        nn = Lin(1) if sc else n

        def sx(s):
            x = Sym('x', nn, 1)
            if sc:
                return Num(x.p), x
            return (s.arr(x if form.startswith('column') else x.reshape(nn), 'param x'), x)

        def mat(s, name, a, b, sym=False):
            v = Sym(name, a, b, sym=sym)
            if sc:
                return Num(v.p), v
            return s.arr(v, 'param ' + name), v

        def colv(s, v, k):
            return M(A.reshape(s.ten(v), (lin(k), Lin(1))))

        def chk(s, label, v, want, shape, tags=('C01', 'C11')):
            """value in the documented orientation"""
            if sc:
                L.eq(tags, label, s, lambda: colv(s, v, 1).reshape(1, 1), want.reshape(1, 1))
            else:
                L.eq(tags, label, s, v, want.reshape(*shape))
        xs = (nn, Lin(1)) if form.startswith('column') else (nn,)
        zs = (mm, Lin(1)) if form.startswith('column') else (mm,)
        a = Sym('a')

        def go():
            for v in ('full', 'no input', 'defaults', 'F', 'Q', 'F+alpha', 'F+u', 'F+B', 'Q+u+B'):
                c = v.split('+')
                s = L.session('predict function, %s x, %s' % (form, v))
                xv, x = sx(s)
                Pv, P = mat(s, 'P', nn, nn, True)
                Fv, F = mat(s, 'F', nn, nn)
                Qv, Q = mat(s, 'Q', nn, nn, True)
                if v == 'full':
                    Bv, B = mat(s, 'B', nn, Lin(1) if sc else l)
                    u = Sym('u', Lin(1) if sc else l, 1)
                    uv = Num(u.p) if sc else s.arr(u if form.startswith('column') else u.reshape(l), 'param u')
                    r = s.fn(KF, 'predict', xv, Pv, Fv, Qv, uv, Bv, s.num('a'))
                    wx, wP = F @ x + B @ u, (a * a) * (F @ P @ F.T) + Q
                elif v == 'no input':
                    r = s.fn(KF, 'predict', xv, Pv, Fv, Qv)
                    wx, wP = F @ x, F @ P @ F.T + Q
                elif v == 'defaults':
                    r = s.fn(KF, 'predict', xv, Pv)
                    wx, wP = x, P
                else:
                    # some of the arguments
                    kw = {}
                    wx, wP = x, P
                    Bv, B = mat(s, 'B', nn, Lin(1) if sc else l)
                    if 'F' in c:
                        kw['F'] = Fv
                        wx, wP = F @ x, F @ P @ F.T
                    if 'alpha' in c:
                        kw['alpha'] = s.num('a')
                        wP = (a * a) * wP
                    if 'Q' in c:
                        kw['Q'] = Qv
                        wP = wP + Q
                    if 'B' in c:
                        kw['B'] = Bv
                    if 'u' in c:
                        ul = nn if 'B' not in c else Lin(1) if sc else l
                        u = Sym('u', ul, 1)
                        kw['u'] = Num(u.p) if sc else s.arr(u if form.startswith('column') else u.reshape(ul), 'param u')
                        wx = wx + (B @ u if 'B' in c else u)
                    r = s.fn(KF, 'predict', xv, Pv, **kw)
                if L.runs(('C01', 'C11', 'C34'), 'predict function runs', s, r):
                    g = pair(s, r.val, 2)
                    chk(s, 'predict function: x', g[0], wx, xs)
                    chk(s, 'predict function: P', g[1], wP, (nn, nn))
                    if not sc:
                        symmetric(L, ('C10',), 'predict function: P symmetric', s, None, 'P', val=M(s.ten(g[1])))
                no_mutation(L, s)
                s = L.session('predict_steadystate function, %s x, %s' % (form, v))
                xv, x = sx(s)
                Fv, F = mat(s, 'F', nn, nn)
                if v == 'full':
                    Bv, B = mat(s, 'B', nn, Lin(1) if sc else l)
                    uv = Num(u.p) if sc else s.arr(u if form.startswith('column') else u.reshape(l), 'param u')
                    r = s.fn(KF, 'predict_steadystate', xv, Fv, uv, Bv)
                    wx = F @ x + B @ u
                elif v == 'no input':
                    r = s.fn(KF, 'predict_steadystate', xv, Fv)
                    wx = F @ x
                elif v == 'F+B':
                    r = s.fn(KF, 'predict_steadystate', xv, Fv, B=mat(s, 'B', nn, Lin(1) if sc else l)[0])
                    wx = F @ x
                elif 'alpha' in c or 'Q' in c:
                    continue
                elif 'u' in c:
                    u = Sym('u', nn, 1)
                    r = s.fn(KF, 'predict_steadystate', xv, Fv, u=Num(u.p) if sc else s.arr(u if form.startswith('column') else u.reshape(nn), 'param u'))
                    wx = F @ x + u
                else:
                    r = s.fn(KF, 'predict_steadystate', xv)
                    wx = x
                if L.runs(('C01', 'C11', 'C34'), 'predict_steadystate function runs', s, r):
                    chk(s, 'predict_steadystate function: x', r.val, wx, xs)
                no_mutation(L, s)
            for v in ('x and P', 'all', 'steady state', 'H omitted'):
                if v == 'H omitted' and nn != Lin(1):
                    continue
                s = L.session('update function, %s x, %s' % (form, v))
                xv, x = sx(s)
                Pv, P = mat(s, 'P', nn, nn, True)
                Hv, H = mat(s, 'H', mm, nn)
                Rv, R = mat(s, 'R', mm, mm, True)
                z = Sym('z', mm, 1)
                zv = Num(z.p) if mm == Lin(1) else s.arr(z if form.startswith('column') else z.reshape(mm), 'param z')
                if v == 'H omitted':
                    H, Hv = Eye(1), None
                w = upd_ref(x, P, H, R, z, nn)
                if v == 'steady state':
                    Kv, K = mat(s, 'K', nn, mm)
                    r = s.fn(KF, 'update_steadystate', xv, zv, Kv, Hv)
                    if L.runs(('C01', 'C11', 'C34'), 'update_steadystate function runs', s, r):
                        chk(s, 'update_steadystate function: x', r.val, x + K @ (z - H @ x), xs)
                    no_mutation(L, s)
                    continue
                r = s.fn(KF, 'update', xv, Pv, zv, Rv, Hv, **(dict(return_all=True) if v == 'all' else {}))
                if L.runs(('C01', 'C11', 'C34'), 'update function runs', s, r):
                    g = pair(s, r.val, 6 if v == 'all' else 2)
                    chk(s, 'update function: x', g[0], w['x'], xs)
                    chk(s, 'update function: P', g[1], w['P'], (nn, nn))
                    if not sc:
                        symmetric(L, ('C10',), 'update function: P symmetric', s, None, 'P', val=M(s.ten(g[1])))
                    if v == 'all':
                        chk(s, 'update function: y', g[2], w['y'], zs)
                        chk(s, 'update function: K', g[3], w['K'], (nn, mm))
                        chk(s, 'update function: S', g[4], w['S'], (mm, mm))
                        if not sc:
                            L.eq(('C08',), 'update function: log-likelihood', s, g[5], gauss_ll(w['y'], w['S']))
                no_mutation(L, s)
            # missing measurement
            for fnm in ('update', 'update_steadystate'):
                s = L.session('%s function, %s x, no measurement' % (fnm, form))
                xv, x = sx(s)
                Pv, P = mat(s, 'P', nn, nn, True)
                Hv, H = mat(s, 'H', mm, nn)
                Rv, R = mat(s, 'R', mm, mm, True)
                if fnm == 'update':
                    for ra in (False, True):
                        r = s.fn(KF, 'update', xv, Pv, None, Rv, Hv, return_all=ra)
                        if L.runs(('C05', 'C34'), 'update function runs without measurement', s, r):
                            g = pair(s, r.val, 6 if ra else 2)
                            chk(s, 'update function, no measurement: x', g[0], x, xs, ('C05',))
                            chk(s, 'update function, no measurement: P', g[1], P, (nn, nn), ('C05',))
                else:
                    Kv, K = mat(s, 'K', nn, mm)
                    r = s.fn(KF, 'update_steadystate', xv, None, Kv, Hv)
                    if L.runs(('C05', 'C34'), 'update_steadystate function runs without measurement', s, r):
                        chk(s, 'update_steadystate function, no measurement: x', r.val, x, xs, ('C05',))
        L.guarded('stand-alone functions, %s' % form, go)


def suite_queries(L):
    if not L.want('C01', 'C06', 'C08', 'C11', 'C34'):
        return
    for cname, n, m, l in ctxs():
        def go():
            for q in ('residual_of', 'measurement_of_state', 'log_likelihood_of', 'log_likelihood_of None', 'test_matrix_dimensions', '__repr__'):
                s = L.session('KalmanFilter.%s, %s' % (q, cname))
                o = make_kf(s, n, m, l)
                symbolise(s, o, ('x_prior', 'P_prior', 'x_post', 'P_post', 'y', 'K', 'SI'))
                s.put(o, 'S', s.arr(SymP('S', m)))
                z, H = Sym('z', m, 1), Sym('H', m, n)
                freeze_all(s, o)
                s.I.stubs['pretty_str'] = lambda I, st, args, kw: Opq('str')
                before = snap(s, o)
                if q == 'residual_of':
                    r = s.call(o, q, s.arr(z, 'param z'))
                    if L.runs(('C01', 'C11', 'C34'), q + ' runs', s, r):
                        L.eq(('C01', 'C11'), 'residual_of: z - H x_prior', s, r.val, z - H @ Sym('attr_x_prior', n, 1))
                elif q == 'measurement_of_state':
                    r = s.call(o, q, s.sym('xx', n, 1, prov='param x'))
                    if L.runs(('C01', 'C11', 'C34'), q + ' runs', s, r):
                        L.eq(('C01', 'C11'), 'measurement_of_state: H x', s, r.val, H @ Sym('xx', n, 1))
                elif q == 'log_likelihood_of':
                    r = s.call(o, q, s.arr(z, 'param z'))
                    if L.runs(('C08', 'C34'), q + ' runs', s, r):
                        L.eq(('C08',), 'log_likelihood_of: Gaussian log density of z', s, r.val, gauss_ll(z - H @ Sym('x', n, 1), SymP('S', m)))
                elif q == 'log_likelihood_of None':
                    r = s.call(o, 'log_likelihood_of', None)
                    if L.runs(('C08', 'C34'), q + ' runs', s, r):
                        L.eq(('C08',), 'log_likelihood_of: missing measurement', s, r.val, M(A.scalar(A.apply1('log', A.sym('float_min')))))
                elif q == 'test_matrix_dimensions':
                    r = s.call(o, q)
                    L.runs(('C11', 'C34', 'C31'), q + ' accepts conforming matrices', s, r)
                    r = s.call(o, q, z=s.arr(z, 'param z'), H=s.sym('H2', m, n, prov='param H'), R=s.sym('R2', m, m, prov='param R'), F=s.sym('F2', n, n, prov='param F'), Q=s.sym('Q2', n, n, prov='param Q'))
                    L.runs(('C11', 'C34', 'C31'), q + ' accepts conforming overrides', s, r)
                else:
                    r = s.call(o, q)
                    L.runs(('C34', 'C33'), q + ' runs', s, r)
                pure(L, ('C06',), '%s leaves the filter unchanged' % q.split()[0], s, o, before)
                no_mutation(L, s)
        L.guarded('KalmanFilter queries %s' % cname, go)


def suite_test_dims(L):
    """test_matrix_dimensions rejects each non-conforming matrix"""
    if not L.want('C31'):
        return
    n, m = dim('n'), dim('m', 2)
    for what in ('x', 'P', 'Q', 'F', 'H', 'R', 'z'):
        def go():
            s = L.session('KalmanFilter.test_matrix_dimensions, wrong %s' % what)
            o = make_kf(s, n, m, dim('l'))
            kw = {}
            if what == 'z':
                kw['z'] = s.sym('z', m + 1, 1)
            else:
                sh = dict(x=(n + 1, 1), P=(n + 1, n + 1), Q=(n + 1, n), F=(n, n + 1), H=(m, n + 1), R=(m, m + 1))[what]
                if what in 'xP':
                    s.put(o, what, s.sym('bad', *sh))
                else:
                    kw[what] = s.sym('bad', *sh)
            r = s.call(o, 'test_matrix_dimensions', **kw)
            L.runs(('C31',), 'test_matrix_dimensions rejects a wrong %s' % what, s, r, True)
        L.guarded('test_matrix_dimensions ' + what, go)


SUITES = [suite_predict, suite_update, suite_update_none, suite_get_update, suite_steady, suite_sequential, suite_batch, suite_rts, suite_functions,
          suite_queries, suite_test_dims]


# ------------------------------------------------------- configured inverse
def inverse_cases(L, cls, cases, tags=('C09', 'C32')):
    """documented attribute inv: every inversion a method performs uses it.
    cases: (label, contexts, run(s, uf, inv) -> [(what, got, want)] or None)"""
    for label, sizes, run in cases:
        for cname, size in sizes:
            def go():
                s = L.session('%s.%s with a configured inv, %s' % (cls, label, cname))
                n, m = size
                def inv(name):
                    d = {'m': m, 'n': n}[name]
                    return s.ufn('inverse', (d, d)), lambda t: M(s.u('inverse', (d, d), t).t)
                for what, got, want in run(s, n, m, inv):
                    L.eq(tags, '%s.%s with a configured inv: %s' % (cls, label, what), s, got, want)
            L.guarded('%s.%s inv' % (cls, label), go)


def suite_inverse(L):
    if not L.want('C09', 'C32'):
        return
    sizes = [('n,m generic', (dim('n'), dim('m'))), ('m=1', (dim('n'), Lin(1)))]

    def measured(s, o, r, w, what):
        if not L.runs(('C09', 'C34'), '%s with a configured inv runs' % what, s, r):
            return []
        return [(k, tensor(s, o, k), w[k]) for k in ('x', 'P', 'K', 'SI')]

    def update(meth):
        def run(s, n, m, inv):
            uf, ref = inv('m')
            o = make_kf(s, n, m, Lin(0), M_=True)
            s.assign(o, 'inv', uf)
            x, P, H, R, C, z = Sym('x', n, 1), SymP('P', n), Sym('H', m, n), SymP('R', m), Sym('M', n, m), Sym('z', m, 1)
            w = upd_ref(x, P, H, R, z, n, C if meth == 'update_correlated' else None)
            w = upd_with(x, P, H, R, z, n, ref(w['S']), C if meth == 'update_correlated' else None)
            if meth == 'get_update':
                r = s.call(o, meth, s.arr(z, 'param z'))
                if not L.runs(('C09', 'C34'), 'KalmanFilter.get_update with a configured inv runs', s, r):
                    return []
                g = pair(s, r.val, 2)
                return [('mean', g[0], w['x']), ('covariance', g[1], w['P'])]
            return measured(s, o, s.call(o, meth, s.arr(z, 'param z')), w, 'KalmanFilter.' + meth)
        return run

    def sequential(s, n, m, inv):
        i0 = dim('start0', 0)
        mm = i0 + m + dim('rest', 0)
        uf, ref = inv('m')
        o = make_kf(s, n, mm, Lin(0))
        s.assign(o, 'inv', uf)
        x, P, z = Sym('x', n, 1), SymP('P', n), Sym('z', m, 1)
        H = M(A.slice_axis(Sym('H', mm, n).t, 0, i0, i0 + m))
        R = M(A.slice_axis(A.slice_axis(SymP('R', mm).t, 0, i0, i0 + m), 1, i0, i0 + m))
        w = upd_ref(x, P, H, R, z, n)
        w = upd_with(x, P, H, R, z, n, ref(w['S']))
        r = s.call(o, 'update_sequential', i0, s.arr(z.reshape(m)) if m != Lin(1) else Num(z.p))
        if not L.runs(('C09', 'C34'), 'KalmanFilter.update_sequential with a configured inv runs', s, r):
            return []
        return [(k, tensor(s, o, k), w[k]) for k in 'xP']

    def rts(s, n, m, inv):
        uf, ref = inv('n')
        o = make_kf(s, n, m, Lin(0))
        Xs, Ps = s.sym('Xs', 2, n, 1), s.arr(Sym('Ps', 2, n, n, sym=True))
        at = lambda nm, i, *d, **kw: M(A.index_axis(Sym(nm, 2, *d, **kw).t, 0, Lin(i)))
        r = s.call(o, 'rts_smoother', Xs, Ps, inv=uf)
        if not L.runs(('C09', 'C12', 'C34'), 'KalmanFilter.rts_smoother with an inv runs', s, r):
            return []
        P0, x0, F = at('Ps', 0, n, n, sym=True), at('Xs', 0, n, 1), Sym('F', n, n)
        pP = F @ P0 @ F.T + SymP('Q', n)
        K = P0 @ F.T @ ref(pP)
        g = pair(s, r.val, 4)
        got = lambda i: M(A.index_axis(s.ten(g[i]), 0, Lin(0)))
        return [('gain', got(2), K), ('mean', got(0), x0 + K @ (at('Xs', 1, n, 1) - F @ x0)),
                ('covariance', got(1), P0 + K @ (at('Ps', 1, n, n, sym=True) - pP) @ K.T)]

    inverse_cases(L, 'KalmanFilter', [(k, sizes, update(k)) for k in ('update', 'update_correlated', 'get_update')] +
                  [('update_sequential', sizes, sequential), ('rts_smoother', sizes[:1], rts)])


def upd_with(x, P, H, R, z, n, SI, corr=None):
    PHT = P @ H.T if corr is None else P @ H.T + corr
    K = PHT @ SI
    IKH = Eye(n) - K @ H
    P2 = IKH @ P @ IKH.T + K @ R @ K.T if corr is None else P - K @ (H @ P + corr.T)
    return dict(x=x + K @ (z - H @ x), P=P2, K=K, SI=SI)


SUITES.append(suite_inverse)
suite_inverse.tags = ('C09', 'C32')
