"""Cubature and ensemble Kalman filters."""
from ..lab import *      # noqa
from .. import algebra as A
from .common import *    # noqa

CK = 'filterpy.kalman.CubatureKalmanFilter'
EN = 'filterpy.kalman.ensemble_kalman_filter'

TAGS = ('C16', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C34', 'C32')
MODEL = ('Q', 'R', '_dt', 'fx', 'hx', 'x_mean', 'z_mean', 'residual_x', 'residual_z', 'dim_x', 'dim_z')


def cctx(tier='quick'):
    n, m = dim('n'), dim('m')
    return [('n,m generic', n, m), ('dim_z=1', n, Lin(1)), ('dim_x=dim_z=1', Lin(1), Lin(1)), ('n=2', Lin(2), m)]


def make_ckf(s, n, m, custom, flat):
    kw = {}
    if custom:
        kw = dict(x_mean_fn=s.ufn('x_mean', (n,)), z_mean_fn=s.ufn('z_mean', (m,)), residual_x=s.ufn('residual_x', (n,)),
                  residual_z=s.ufn('residual_z', None))
        if custom is not True:
            kw = {a: f for a, f in kw.items() if a == custom}
    o = s.make(CK, 'CubatureKalmanFilter', n, m, s.num('dt'), s.ufn('hx', (m,)), s.ufn('fx', (n,)), **kw)
    for kk, v in dict(x=Sym('x', n) if flat else Sym('x', n, 1), P=SymP('P', n), Q=SymP('Q', n), R=SymP('R', m)).items():
        r = s.assign(o, kk, s.arr(v))
        if not r.ok:
            raise Broken('assignment to %s fails' % kk, r)
    return o


HOOKS = ('x_mean_fn', 'z_mean_fn', 'residual_x', 'residual_z')


def cfns(s, n, m, custom):
    sub = Ext('numpy.subtract')
    f = dict(x_mean=s.ufn('x_mean', (n,)), z_mean=s.ufn('z_mean', (m,)), rx=s.ufn('residual_x', (n,)), rz=s.ufn('residual_z', None))
    if custom is True:
        return f
    own = dict(zip(HOOKS, f)).get(custom)
    return dict(dict(x_mean=s.val(None), z_mean=s.val(None), rx=sub, rz=sub), **({own: f[own]} if own else {}))


def which(custom):
    return 'custom functions' if custom is True else 'only %s set' % custom if custom else 'default functions'


def suite_ckf_predict(L):
    if not L.want(*TAGS):
        return
    for cname, n, m in cctx():
        for custom in (False, True) + (HOOKS if 'generic' in cname else ()):
            for v in ('plain', '1-D x', 'dt', 'fx_args', 'fx_args scalar', 'dt+fx_args', 'dt+fx_args scalar', '1-D x+dt', '1-D x+fx_args', '1-D x+dt+fx_args'):
                if custom not in (False, True) and v != 'plain':
                    continue

                def go():
                    c = v.split('+')
                    def setup():
                        s = L.session('CubatureKalmanFilter.predict, %s, %s, %s' % (v, cname, which(custom)))
                        s.I.let_limit = 24
                        return s, make_ckf(s, n, m, custom, '1-D x' in c)
                    s, o = setup()
                    kw = {}
                    if 'dt' in c:
                        kw['dt'] = s.num('dt2')
                    if 'fx_args' in c:
                        kw['fx_args'] = Tup([s.num('q1'), s.num('q2')])
                    if 'fx_args scalar' in c:
                        kw['fx_args'] = s.num('q1')
                    freeze_all(s, o)
                    before = snap(s, o)
                    r = s.call(o, 'predict', **kw)
                    if not L.runs(('C16', 'C11', 'C34', 'C09'), 'CKF.predict runs', s, r):
                        return
                    s2, o2 = setup()
                    f = cfns(s2, n, m, custom)
                    a1 = Tup([s2.num(q) for q in (('q1', 'q2') if 'fx_args' in c else ('q1',) if 'fx_args scalar' in c else ())])
                    w = s2.ref('ckf_predict', s2.arr(Sym('x', n) if '1-D x' in c else Sym('x', n, 1).reshape(n)), s2.arr(SymP('P', n)), s2.arr(SymP('Q', n)),
                               s2.num('dt2' if 'dt' in c else 'dt'), s2.ufn('fx', (n,)), a1, f['x_mean'], f['rx'])
                    x, P, sf = [M(s2.ten(q)) for q in pair(s2, w, 3)]
                    tg = ('C16', 'C11') + (('C09',) if v != 'plain' else ()) + (('C32',) if custom else ())
                    L.eq(tg, 'CKF.predict: cubature points through fx', s, None, sf, o, 'sigmas_f')
                    L.eq(tg, 'CKF.predict: x', s, None, x.reshape(n, 1), o, 'x')
                    L.eq(tg, 'CKF.predict: P', s, None, P, o, 'P')
                    L.eq(('C07', 'C11'), 'CKF.predict: x_prior', s, None, x.reshape(n, 1), o, 'x_prior')
                    L.eq(('C07', 'C11'), 'CKF.predict: P_prior', s, None, P, o, 'P_prior')
                    same_attrs(L, ('C09', 'C16'), 'CKF.predict keeps the model', s, o, before, MODEL)
                    same_attrs(L, ('C07',), 'CKF.predict leaves the posterior snapshot', s, o, before, ('x_post', 'P_post'))
                    symmetric(L, ('C10',), 'CKF.predict: P symmetric', s, o, 'P')
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_prior'), ('P', 'P_prior')])
                    no_mutation(L, s)
                L.guarded('CKF.predict %s' % v, go)


def suite_ckf_update(L):
    if not L.want(*TAGS):
        return
    for cname, n, m in cctx():
        for custom in (False, True) + (HOOKS if 'generic' in cname else ()):
            for v in ('plain', '1-D z', 'R', 'scalar R', 'hx_args', 'hx_args scalar', 'none', 'R+hx_args', 'scalar R+hx_args', '1-D z+scalar R', '1-D z+R', '1-D z+hx_args'):
                if custom not in (False, True) and v != 'plain':
                    continue

                def go():
                    c = v.split('+')
                    def setup():
                        s = L.session('CubatureKalmanFilter.update, %s, %s, %s' % (v, cname, which(custom)))
                        s.I.let_limit = 24
                        o = make_ckf(s, n, m, custom, False)
                        s.put(o, 'sigmas_f', s.sym('sigmas_f', n * 2, n))
                        symbolise(s, o, ('x_prior', 'P_prior', 'x_post', 'P_post', 'z', 'y', 'K', 'S', 'SI'))
                        return s, o
                    s, o = setup()
                    kw = {}
                    R = SymP('R', m)
                    if 'R' in c:
                        R = SymP('R2', m)
                        kw['R'] = s.arr(R, 'param R')
                    if 'scalar R' in c:
                        R = Eye(m) * Sym('r')
                        kw['R'] = s.num('r')
                    if 'hx_args' in c:
                        kw['hx_args'] = Tup([s.num('q1'), s.num('q2')])
                    if 'hx_args scalar' in c:
                        kw['hx_args'] = s.num('q1')
                    freeze_all(s, o)
                    before = snap(s, o)
                    z = Sym('z', m) if '1-D z' in c else Sym('z', m, 1)
                    if v == 'none':
                        r = s.call(o, 'update', None)
                        if not L.runs(('C05', 'C34'), 'CKF.update(None) runs', s, r):
                            return
                        same_attrs(L, ('C05',), 'CKF missing measurement: unchanged', s, o, before, ('x', 'P', 'x_prior', 'P_prior', 'Q', 'R', 'sigmas_f'))
                        L.eq(('C05', 'C07'), 'CKF missing measurement: x_post', s, None, Sym('x', n, 1), o, 'x_post')
                        L.eq(('C05', 'C07'), 'CKF missing measurement: P_post', s, None, SymP('P', n), o, 'P_post')
                        L.none(('C05',), 'CKF missing measurement: z', s, None, o, 'z')
                        record_shapes(L, s, o, before)
                        independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                        return
                    r = s.call(o, 'update', s.arr(z, 'param z'), **kw)
                    if not L.runs(('C16', 'C11', 'C34', 'C09'), 'CKF.update runs', s, r):
                        return
                    s2, o2 = setup()
                    f = cfns(s2, n, m, custom)
                    a1 = Tup([s2.num(q) for q in (('q1', 'q2') if 'hx_args' in c else ('q1',) if 'hx_args scalar' in c else ())])
                    w = s2.ref('ckf_update', s2.arr(Sym('x', n, 1).reshape(n)), s2.arr(SymP('P', n)), s2.sym('sigmas_f', n * 2, n), s2.arr(z.reshape(m)), s2.arr(R), s2.ufn('hx', (m,)), a1,
                               f['z_mean'], f['rx'], f['rz'])
                    x, P, y, S_, SI, K, sh = [M(s2.ten(q)) for q in pair(s2, w, 7)]
                    x, y = x.reshape(n, 1), y.reshape(m, 1)
                    tg = ('C16', 'C11') + (('C09',) if v != 'plain' else ()) + (('C32',) if custom else ())
                    for nm, wv in (('sigmas_h', sh), ('S', S_), ('SI', SI), ('K', K), ('y', y), ('x', x), ('P', P)):
                        L.eq(tg, 'CKF.update: %s' % nm, s, None, wv, o, nm)
                    L.eq(('C07', 'C11'), 'CKF.update: x_post', s, None, x, o, 'x_post')
                    L.eq(('C07', 'C11'), 'CKF.update: P_post', s, None, P, o, 'P_post')
                    L.eq(('C07',), 'CKF.update: stored z', s, None, z, o, 'z')
                    same_attrs(L, ('C07',), 'CKF.update leaves the prior snapshot', s, o, before, ('x_prior', 'P_prior'))
                    same_attrs(L, ('C09', 'C16'), 'CKF.update keeps the model', s, o, before, MODEL)
                    symmetric(L, ('C10',), 'CKF.update: P symmetric', s, o, 'P')
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                    no_mutation(L, s)
                    diagnostics(L, s, o, tensor(s, o, 'y'), tensor(s, o, 'S'), 'CKF', SI=tensor(s, o, 'SI'))
                    if v == 'plain' and L.want('C08'):
                        r = s.call(o, 'update', s.sym('z2', m, 1))
                        if r.ok:
                            diagnostics(L, s, o, tensor(s, o, 'y'), tensor(s, o, 'S'), 'CKF again', SI=tensor(s, o, 'SI'))
                L.guarded('CKF.update %s' % v, go)


# ------------------------------------------------------------------ ensemble
ETAGS = ('C17', 'C05', 'C06', 'C07', 'C09', 'C10', 'C11', 'C31', 'C34')
EMODEL = ('Q', 'R', 'dt', 'fx', 'hx', 'dim_x', 'dim_z', 'N', 'inv')


def make_enkf(s, n, m, N):
    o = s.make(EN, 'EnsembleKalmanFilter', s.sym('x0', n, prov='param x'), s.arr(SymP('P0', n), 'param P'), m, s.num('dt'), N, s.ufn('hx', (m,)), s.ufn('fx', (n,)))
    for kk, v in dict(x=Sym('x', n), P=SymP('P', n), Q=SymP('Q', n), R=SymP('R', m)).items():
        r = s.assign(o, kk, s.arr(v))
        if not r.ok:
            raise Broken('assignment to %s fails' % kk, r)
    return o


def ectx():
    n, m, N = dim('n'), dim('m'), dim('N', 2)
    return [('n,m,N generic', n, m, N), ('dim_z=1', n, Lin(1), N), ('dim_x=dim_z=1', Lin(1), Lin(1), N), ('N=3', n, m, Lin(3))]


def suite_enkf(L):
    if not L.want(*ETAGS):
        return
    rng = Ext('numpy.random.multivariate_normal')
    for cname, n, m, N in ectx():
        def init():
            s = L.session('EnsembleKalmanFilter construction, %s' % cname)
            o = s.make(EN, 'EnsembleKalmanFilter', s.sym('x0', n, prov='param x'), s.arr(SymP('P0', n), 'param P'), m, s.num('dt'), N, s.ufn('hx', (m,)), s.ufn('fx', (n,)))
            s2 = L.session('')
            e = M(s2.ten(s2.I.call(s2.st, rng, [s2.sym('x0', n), s2.arr(SymP('P0', n)), s2.val(N)], {})))
            L.eq(('C17', 'C11'), 'EnKF: ensemble drawn from N(x, P)', s, None, e, o, 'sigmas')
            for k, w in (('x', Sym('x0', n)), ('P', SymP('P0', n)), ('x_prior', Sym('x0', n)), ('P_prior', SymP('P0', n)), ('x_post', Sym('x0', n)), ('P_post', SymP('P0', n)),
                         ('Q', Eye(n)), ('R', Eye(m))):
                L.eq(('C17', 'C11', 'C07'), 'EnKF: initial %s' % k, s, None, w, o, k)
            no_mutation(L, s)
        L.guarded('EnKF construction', init)
        for v in ('first', 'later'):
            def pred():
                def setup():
                    s = L.session('EnsembleKalmanFilter.predict, %s, %s' % (v, cname))
                    s.I.let_limit = 24
                    o = make_enkf(s, n, m, N)
                    s.put(o, 'sigmas', s.sym('sig', N, n))
                    symbolise(s, o, ('x_prior', 'P_prior', 'x_post', 'P_post', 'z', 'K', 'S', 'SI'))
                    freeze_all(s, o)
                    return s, o
                s, o = setup()
                if v == 'later':
                    # an earlier step must leave nothing behind that is reused
                    r = s.call(o, 'predict')
                    s.put(o, 'sigmas', s.sym('sig', N, n))
                before = snap(s, o)
                r = s.call(o, 'predict')
                if not L.runs(('C17', 'C11', 'C34'), 'EnKF.predict runs', s, r):
                    return
                s2, o2 = setup()
                if v == 'later':
                    s2.call(o2, 'predict')
                w = s2.ref('enkf_predict', s2.sym('sig', N, n), s2.arr(SymP('Q', n)), s2.ufn('fx', (n,)), s2.num('dt'), rng)
                sg, x, P = [M(s2.ten(q)) for q in pair(s2, w, 3)]
                tg = ('C17', 'C11')
                L.eq(tg, 'EnKF.predict: members', s, None, sg, o, 'sigmas')
                L.eq(tg, 'EnKF.predict: x is the ensemble mean', s, None, x, o, 'x')
                L.eq(tg, 'EnKF.predict: P is the ensemble covariance', s, None, P, o, 'P')
                L.eq(('C07', 'C11'), 'EnKF.predict: x_prior', s, None, x, o, 'x_prior')
                L.eq(('C07', 'C11'), 'EnKF.predict: P_prior', s, None, P, o, 'P_prior')
                same_attrs(L, ('C09', 'C17'), 'EnKF.predict keeps the model', s, o, before, EMODEL)
                same_attrs(L, ('C07',), 'EnKF.predict leaves the posterior snapshot', s, o, before, ('x_post', 'P_post'))
                symmetric(L, ('C10',), 'EnKF.predict: P symmetric', s, o, 'P')
                independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_prior'), ('P', 'P_prior')])
                no_mutation(L, s)
            L.guarded('EnKF.predict %s' % v, pred)
        for v in ('plain', 'later', 'R', 'scalar R', 'none', 'inv'):
            def upd():
                def setup():
                    s = L.session('EnsembleKalmanFilter.update, %s, %s' % (v, cname))
                    s.I.let_limit = 24
                    o = make_enkf(s, n, m, N)
                    if v == 'inv':
                        s.assign(o, 'inv', s.ufn('inverse', (m, m)))
                    s.put(o, 'sigmas', s.sym('sig', N, n))
                    symbolise(s, o, ('x_prior', 'P_prior', 'x_post', 'P_post', 'z', 'K', 'S', 'SI'))
                    freeze_all(s, o)
                    return s, o

                def again(s, o):
                    if v == 'later':
                        s.call(o, 'update', s.sym('z0', m))
                        s.put(o, 'sigmas', s.sym('sig', N, n))
                        s.put(o, 'x', s.sym('x', n))
                        s.put(o, 'P', s.arr(SymP('P', n)))
                s, o = setup()
                again(s, o)
                z = Sym('z', m)
                before = snap(s, o)
                if v == 'none':
                    r = s.call(o, 'update', None)
                    if not L.runs(('C05', 'C34'), 'EnKF.update(None) runs', s, r):
                        return
                    same_attrs(L, ('C05',), 'EnKF missing measurement: unchanged', s, o, before, ('x', 'P', 'x_prior', 'P_prior', 'Q', 'R', 'sigmas'))
                    L.eq(('C05', 'C07'), 'EnKF missing measurement: x_post', s, None, Sym('x', n), o, 'x_post')
                    L.eq(('C05', 'C07'), 'EnKF missing measurement: P_post', s, None, SymP('P', n), o, 'P_post')
                    L.none(('C05',), 'EnKF missing measurement: z', s, None, o, 'z')
                    record_shapes(L, s, o, before)
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                    return
                kw = {}
                R = SymP('R', m)
                if v == 'R':
                    R = SymP('R2', m)
                    kw['R'] = s.arr(R, 'param R')
                if v == 'scalar R':
                    R = Eye(m) * Sym('r')
                    kw['R'] = s.num('r')
                r = s.call(o, 'update', s.arr(z, 'param z'), **kw)
                if not L.runs(('C17', 'C11', 'C34', 'C09'), 'EnKF.update runs', s, r):
                    return
                s2, o2 = setup()
                again(s2, o2)
                w = s2.ref('enkf_update', s2.sym('sig', N, n), s2.sym('x', n), s2.arr(SymP('P', n)), s2.arr(z), s2.arr(R), s2.ufn('hx', (m,)), rng, s2.raw(o2, 'inv'))
                sg, x, P, S_, SI, K = [M(s2.ten(q)) for q in pair(s2, w, 6)]
                tg = ('C17', 'C11') + (('C09',) if v != 'plain' else ()) + (('C32',) if v == 'inv' else ())
                for nm, wv in (('S', S_), ('SI', SI), ('K', K), ('sigmas', sg), ('x', x), ('P', P)):
                    L.eq(tg, 'EnKF.update: %s' % nm, s, None, wv, o, nm)
                L.eq(('C07', 'C11'), 'EnKF.update: x_post', s, None, x, o, 'x_post')
                L.eq(('C07', 'C11'), 'EnKF.update: P_post', s, None, P, o, 'P_post')
                L.eq(('C07',), 'EnKF.update: stored z', s, None, z, o, 'z')
                same_attrs(L, ('C07',), 'EnKF.update leaves the prior snapshot', s, o, before, ('x_prior', 'P_prior'))
                same_attrs(L, ('C09', 'C17'), 'EnKF.update keeps the model', s, o, before, EMODEL)
                symmetric(L, ('C10',), 'EnKF.update: P symmetric', s, o, 'P')
                independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                no_mutation(L, s)
            L.guarded('EnKF.update %s' % v, upd)
    n, m = dim('n'), dim('m')
    for what, a in (('dim_z=0', (('x', 1), 0, 3)), ('N=0', (('x', 1), m, 0)), ('column x', (('x', 2), m, 3))):
        s = L.session('EnsembleKalmanFilter construction, %s' % what)
        x = s.sym('x0', n) if a[0][1] == 1 else s.sym('x0', n, 1)
        info = L.prog.cls(EN, 'EnsembleKalmanFilter')
        s.entry = info.find('methods', '__init__')
        r = s.guard(lambda: s.I.instantiate(s.st, info, [x, s.arr(SymP('P0', n)), s.val(a[1]), s.num('dt'), s.val(a[2]), s.ufn('hx', (m,)), s.ufn('fx', (n,))], {}))
        L.runs(('C31',), 'EnsembleKalmanFilter rejects %s' % what, s, r, ('ValueError',))


SUITES = [suite_ckf_predict, suite_ckf_update, suite_enkf]
suite_ckf_predict.tags = suite_ckf_update.tags = TAGS
suite_enkf.tags = ETAGS
