"""Filter banks: interacting multiple models and multiple-model estimation.
The member filters are unknown objects: their predict and update methods are
uninterpreted functions of their state and arguments."""
from ..lab import *      # noqa
from .. import algebra as A
from .. import npmodel
from .common import *    # noqa

IMM = 'filterpy.kalman.IMM'
MM = 'filterpy.kalman.mmae'


class Stub(object):
    def __init__(self, s, i, n, flat, m=None, noarg=False):
        self.s, self.i, self.n = s, i, n
        self.log = []
        self.sh = (n,) if flat else (n, Lin(1))
        x, P = Sym('x%d' % i, *self.sh), SymP('P%d' % i, n)
        at = dict(x=s.arr(x, 'param filters[%d].x' % i), P=s.arr(P, 'param filters[%d].P' % i), likelihood=s.num('lik%d' % i))
        if m is not None:
            at['z'] = s.arr(Sym('fz%d' % i, m, 1), 'param filters[%d].z' % i)
        self.loc = s.st.new(ObjC(None, at))
        at['predict'] = UFn('predict%d' % i, self.step('pred', ()))
        at['update'] = UFn('update%d' % i, self.step('upd', ('likelihood',)))
        s.st.heap[self.loc] = ObjC(None, at)
        self.obj = Obj(self.loc)

    def state(self):
        at = self.s.st.heap[self.loc].attrs
        return M(self.s.ten(at['x'])), M(self.s.ten(at['P']))

    def at(self, k):
        return self.s.st.heap[self.loc].attrs[k]

    def lik(self):
        return M(self.s.ten(self.at('likelihood')))

    def step(self, nm, scal):
        def f(I, st, a, kw):
            c = st.heap[self.loc]
            at = dict(c.attrs)
            fz = self.s.freeze_args(st, a, kw)
            ins = (I.to_ten(st, at['x']), I.to_ten(st, at['P'])) + fz
            self.log.append((nm, a, kw, fz, ins[:2]))
            if nm == 'upd' and a and isinstance(a[0], Con) and a[0].v is None:
                # a filter without a measurement keeps its estimate
                at['likelihood'] = I.mk(st, npmodel.app_ten('u:nolik%d' % self.i, ins, ()))
                st.heap[self.loc] = ObjC(None, at, c.prov)
                return Con(None)
            at['x'] = st.arr(npmodel.app_ten('u:%sx%d' % (nm, self.i), ins, self.sh), 'param filters[%d].x' % self.i)
            at['P'] = st.arr(npmodel.app_ten('u:%sP%d' % (nm, self.i), ins, (self.n, self.n), True), 'param filters[%d].P' % self.i)
            for k in scal:
                at[k] = I.mk(st, npmodel.app_ten('u:%s%s%d' % (nm, k, self.i), ins, ()))
            st.heap[self.loc] = ObjC(None, at, c.prov)
            return Con(None)
        return f


def scal(m, i):
    return M(A.index_axis(m.t, 0, lin(i)))


def mean(mu, xs):
    t = None
    for i, x in enumerate(xs):
        v = x * scal(mu, i)
        t = v if t is None else t + v
    return t


def spread(mu, xs, Ps, x, n):
    t = None
    for i, (xi, Pi) in enumerate(zip(xs, Ps)):
        y = (xi - x).reshape(n)
        v = (outer(y, y) + Pi) * scal(mu, i)
        t = v if t is None else t + v
    return t


def probs(mu, TM, K):
    """(cbar, omega) of mode probabilities mu"""
    cbar = mu @ TM
    return cbar, lambda i, j: M(A.index_axis(A.index_axis(TM.t, 0, lin(i)), 0, lin(j))) * scal(mu, i) / scal(cbar, j)


def at2(m, i, j):
    return M(A.index_axis(A.index_axis(m.t, 0, lin(i)), 0, lin(j)))


def missing(L, s, o, fs, what, names):
    before = snap(s, o)
    x, P = tensor(s, o, 'x'), tensor(s, o, 'P')
    for f in fs:
        f.log.clear()
    r = s.call(o, 'update', Con(None))
    if not L.runs(('C05', 'C34'), '%s.update(None) runs' % what, s, r):
        return
    same_attrs(L, ('C05',), '%s missing measurement: unchanged' % what, s, o, before, names)
    L.eq(('C05', 'C07'), '%s missing measurement: x_post' % what, s, None, x, o, 'x_post')
    L.eq(('C05', 'C07'), '%s missing measurement: P_post' % what, s, None, P, o, 'P_post')
    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
    for f in fs:
        ok = len(f.log) == 1 and all(e[0] == 'upd' and e[1] and isinstance(e[1][0], Con) and e[1][0].v is None for e in f.log)
        L.true(('C05',), '%s missing measurement: members get no measurement' % what, s, ok, 'filter %d receives %r' % (f.i, [e[:2] for e in f.log]))


def suite_imm(L):
    tags = ('C05', 'C18', 'C06', 'C07', 'C10', 'C11', 'C34')
    if not L.want(*tags):
        return
    for K in ((2, 3) if L.tier == 'quick' else (2, 3, 4, 5)):
        for flat in (False, True):
            for nn in ('n', '1'):
                n = dim('n') if nn == 'n' else Lin(1)

                def setup(what, form='list'):
                    s = L.session('IMMEstimator.%s, %d filters, %s, dim_x=%s' % (what, K, '1-D x' if flat else 'column x', nn))
                    s.I.let_limit = 24
                    fs = [Stub(s, i, n, flat) for i in range(K)]
                    mu0 = Sym('mu', K)
                    TM = Sym('M', K, K)
                    muv = s.val([Num(A.sym_ten('mu', (Lin(K),)).cells and scal(mu0, i).p) for i in range(K)]) if form == 'list' else s.arr(mu0, 'param mu')
                    if form == 'list':
                        c = s.st.heap[muv.loc]
                        s.st.heap[muv.loc] = ListC(c.segs, 'param mu')
                    flt = s.val([f.obj for f in fs])
                    c = s.st.heap[flt.loc]
                    s.st.heap[flt.loc] = ListC(c.segs, 'param filters')
                    o = s.make(IMM, 'IMMEstimator', flt, muv, s.arr(TM, 'param M'))
                    mu = mu0 / mu0.sum()
                    return s, fs, o, mu, TM

                def check(s, fs, o, mu, TM, what):
                    cbar, om = probs(mu, TM, K)
                    L.eq(('C18', 'C11'), '%s: mode probabilities' % what, s, None, mu, o, 'mu')
                    for i in range(K):
                        for j in range(K):
                            L.eq(('C18', 'C11'), '%s: mixing weight' % what, s, lambda: at2(tensor(s, o, 'omega'), i, j), om(i, j))
                    st = [f.state() for f in fs]
                    x = mean(mu, [a for a, b in st])
                    P = spread(mu, [a for a, b in st], [b for a, b in st], x, n)
                    L.eq(('C18', 'C11'), '%s: x' % what, s, None, x, o, 'x')
                    L.eq(('C18', 'C11'), '%s: P' % what, s, None, P, o, 'P')
                    symmetric(L, ('C10',), '%s: P symmetric' % what, s, o, 'P')
                    return x, P

                def pin(s, o, K):
                    """arbitrary mode probabilities and everything derived from them"""
                    mu = Sym('nu', K)
                    TM = Sym('M', K, K)
                    s.put(o, 'mu', s.arr(mu))
                    r = s.call(o, '_compute_mixing_probabilities')
                    if not r.ok:
                        # the derived values live elsewhere: use the object as constructed
                        raise Imprecise('mixing probabilities: %s' % (r.raised or r.why))
                    return mu, TM

                def go_init():
                    for form in ('list', 'array'):
                        s, fs, o, mu, TM = setup('__init__', form)
                        x, P = check(s, fs, o, mu, TM, 'IMM construction')
                        for a, w in (('x_prior', x), ('P_prior', P), ('x_post', x), ('P_post', P)):
                            L.eq(('C07', 'C18'), 'IMM construction: %s' % a, s, None, w, o, a)
                        no_mutation(L, s)

                def go_update():
                    s, fs, o, mu, TM = setup('update')
                    before = snap(s, o)
                    z = s.sym('z', dim('m'), 1, prov='param z')
                    r = s.call(o, 'update', z)
                    if not L.runs(('C18', 'C11', 'C34'), 'IMM.update runs', s, r):
                        return
                    for f in fs:
                        ok = len(f.log) == 1 and f.log[0][0] == 'upd' and len(f.log[0][1]) == 1 and not f.log[0][2]
                        L.true(('C18',), 'IMM.update: every filter is updated once with the measurement', s,
                               ok and same(A.strong_ten(f.log[0][3][0]), mt(Sym('z', dim('m'), 1)))[0] == 'ok', 'filter %d receives %r' % (f.i, [e[:2] for e in f.log]))
                    cbar, _ = probs(mu, TM, K)
                    num = [scal(cbar, i) * f.lik() for i, f in enumerate(fs)]
                    tot = num[0]
                    for v in num[1:]:
                        tot = tot + v
                    for i in range(K):
                        L.eq(('C18',), 'IMM.update: probability proportional to predicted probability times likelihood', s, lambda: scal(tensor(s, o, 'mu'), i), num[i] / tot)
                        L.eq(('C18',), 'IMM.update: stored likelihoods', s, lambda: scal(tensor(s, o, 'likelihood'), i), fs[i].lik())
                    L.eq(('C18',), 'IMM.update: probabilities sum to one', s, lambda: tensor(s, o, 'mu').sum(), M(A.scalar(A.P1)))
                    nmu = tensor(s, o, 'mu')
                    x, P = check(s, fs, o, nmu, TM, 'IMM.update')
                    L.eq(('C07', 'C18'), 'IMM.update: x_post', s, None, x, o, 'x_post')
                    L.eq(('C07', 'C18'), 'IMM.update: P_post', s, None, P, o, 'P_post')
                    same_attrs(L, ('C07',), 'IMM.update leaves the prior snapshot', s, o, before, ('x_prior', 'P_prior'))
                    same_attrs(L, ('C18', 'C09'), 'IMM.update keeps the transition matrix', s, o, before, ('M',))
                    independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                    no_mutation(L, s)

                def go_none():
                    for after in (False, True):
                        s, fs, o, mu, TM = setup('update(None) after a step' if after else 'update(None)')
                        if after:
                            for r in (s.call(o, 'predict'), s.call(o, 'update', s.sym('z', dim('m'), 1))):
                                if not r.ok:
                                    return
                        for k in ('x_post', 'P_post', 'x_prior', 'P_prior'):
                            s.put(o, k, s.arr(Sym('old_' + k, *tensor(s, o, k).shape)))
                        missing(L, s, o, fs, 'IMM', ('x', 'P', 'mu', 'M', 'omega', 'cbar', 'x_prior', 'P_prior'))

                def go_predict():
                    for after in (False, True):
                        s, fs, o, mu, TM = setup('predict after update' if after else 'predict')
                        if after:
                            r = s.call(o, 'update', s.sym('z', dim('m'), 1))
                            if not r.ok:
                                return
                            mu = tensor(s, o, 'mu')
                            for f in fs:
                                f.log.clear()
                        before = snap(s, o)
                        old = [f.state() for f in fs]
                        cbar, om = probs(mu, TM, K)
                        u = s.sym('u', dim('l'), 1, prov='param u')
                        for uu in ((u,) if after else (u, None)):
                            if uu is None:
                                s, fs, o, mu, TM = setup('predict without input')
                                before = snap(s, o)
                                old = [f.state() for f in fs]
                                r = s.call(o, 'predict')
                            else:
                                r = s.call(o, 'predict', u)
                            if not L.runs(('C18', 'C11', 'C34'), 'IMM.predict runs', s, r):
                                return
                            for j, f in enumerate(fs):
                                ok = len(f.log) == 1 and f.log[0][0] == 'pred'
                                L.true(('C18',), 'IMM.predict: every filter predicts once', s, ok, 'filter %d: %r' % (j, [e[0] for e in f.log]))
                                if not ok:
                                    continue
                                fz = f.log[0][3]
                                if uu is not None:
                                    L.true(('C18',), 'IMM.predict: every filter receives the input', s, len(fz) == 1 and isinstance(fz[0], Ten) and same(fz[0], mt(Sym('u', dim('l'), 1)))[0] == 'ok', 'filter %d receives %r' % (j, fz))
                                wx = None
                                for i in range(K):
                                    v = old[i][0] * om(i, j)
                                    wx = v if wx is None else wx + v
                                wP = None
                                for i in range(K):
                                    y = (old[i][0] - wx).reshape(n)
                                    v = (outer(y, y) + old[i][1]) * om(i, j)
                                    wP = v if wP is None else wP + v
                                L.eq(('C18', 'C11'), 'IMM.predict: filter restarted from the mixed mean', s, M(f.log[0][4][0]), wx)
                                L.eq(('C18', 'C11'), 'IMM.predict: filter restarted from the mixed covariance', s, M(f.log[0][4][1]), wP)
                                symmetric(L, ('C10',), 'IMM.predict: mixed covariance symmetric', s, o, 'mixed P', val=M(f.log[0][4][1]))
                            st = [f.state() for f in fs]
                            x = mean(mu, [a for a, b in st])
                            P = spread(mu, [a for a, b in st], [b for a, b in st], x, n)
                            L.eq(('C18', 'C11'), 'IMM.predict: x', s, None, x, o, 'x')
                            L.eq(('C18', 'C11'), 'IMM.predict: P', s, None, P, o, 'P')
                            L.eq(('C07',), 'IMM.predict: x_prior', s, None, x, o, 'x_prior')
                            L.eq(('C07',), 'IMM.predict: P_prior', s, None, P, o, 'P_prior')
                            same_attrs(L, ('C07',), 'IMM.predict leaves the posterior snapshot', s, o, before, ('x_post', 'P_post'))
                            same_attrs(L, ('C18',), 'IMM.predict keeps the probabilities', s, o, before, ('mu', 'M'))
                            independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_prior'), ('P', 'P_prior')])
                            xl = [f.at('x').loc for f in fs]
                            Pl = [f.at('P').loc for f in fs]
                            no_mutation(L, s)

                def go_alias():
                    # restarted filters must not share arrays with each other
                    s, fs, o, mu, TM = setup('predict, member states')
                    pre = []
                    for f in fs:
                        c = s.st.heap[f.loc]
                        at = dict(c.attrs)

                        def pr(I, st, a, kw, f=f):
                            q = st.heap[f.loc].attrs
                            pre.append((q['x'], q['P']))
                            return Con(None)
                        at['predict'] = UFn('predict%d' % f.i, pr)
                        s.st.heap[f.loc] = ObjC(None, at)
                    r = s.call(o, 'predict')
                    if r.ok and L.want('C18', 'C06'):
                        locs = [v.loc for p in pre for v in p if isinstance(v, Arr)]
                        own = [v.loc for k in ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post') for v in X.phi_arrs(s.raw(o, k))]
                        L.true(('C18', 'C06'), 'IMM.predict: restarted filters own their arrays', s, len(set(locs)) == len(locs) and not set(locs) & set(own), 'two filters share one array')
                for nm, g in (('init', go_init), ('update', go_update), ('update(None)', go_none), ('predict', go_predict), ('alias', go_alias)):
                    L.guarded('IMM %s, %d filters' % (nm, K), g)


def suite_mmae(L):
    tags = ('C05', 'C19', 'C06', 'C07', 'C10', 'C11', 'C34', 'C09')
    if not L.want(*tags):
        return
    m = dim('m')
    for K in ((2, 3) if L.tier == 'quick' else (1, 2, 3, 5)):
        for flat in (False, True):
            for nn in ('n', '1'):
                n = dim('n') if nn == 'n' else Lin(1)

                def setup(what, form='list', H=False):
                    s = L.session('MMAEFilterBank.%s, %d filters, %s, dim_x=%s, p as %s%s' % (what, K, '1-D x' if flat else 'column x', nn, form, ', H given' if H else ''))
                    s.I.let_limit = 24
                    fs = [Stub(s, i, n, flat, m) for i in range(K)]
                    p0 = Sym('p', K)
                    pv = s.val([Num(scal(p0, i).p) for i in range(K)]) if form == 'list' else s.arr(p0, 'param p')
                    if form == 'list':
                        c = s.st.heap[pv.loc]
                        s.st.heap[pv.loc] = ListC(c.segs, 'param p')
                    kw = dict(H=s.sym('H', m, n, prov='param H')) if H else {}
                    o = s.make(MM, 'MMAEFilterBank', s.val([f.obj for f in fs]), pv, n, **kw)
                    return s, fs, o, p0

                def go_init():
                    for form in ('list', 'array'):
                        s, fs, o, p0 = setup('__init__', form)
                        x0, P0 = fs[0].state()
                        L.eq(('C19', 'C11'), 'MMAE construction: p', s, None, p0, o, 'p')
                        for a, w in (('x', x0), ('P', P0), ('x_prior', x0), ('P_prior', P0), ('x_post', x0), ('P_post', P0)):
                            L.eq(('C19', 'C07', 'C11'), 'MMAE construction: %s' % a, s, None, w, o, a)
                        own = [v.loc for k in ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'p') for v in X.phi_arrs(s.raw(o, k))]
                        L.true(('C19', 'C06', 'C07'), 'MMAE construction: own arrays', s, len(own) == len(set(own)) and not set(own) & {fs[0].at('x').loc, fs[0].at('P').loc}, 'arrays are shared')
                        no_mutation(L, s)

                def go_predict():
                    for v in ('u', 'no u'):
                        s, fs, o, p0 = setup('predict, ' + v)
                        before = snap(s, o)
                        r = s.call(o, 'predict', *([s.sym('u', dim('l'), 1, prov='param u')] if v == 'u' else []))
                        if not L.runs(('C19', 'C11', 'C34'), 'MMAE.predict runs', s, r):
                            return
                        for f in fs:
                            ok = len(f.log) == 1 and f.log[0][0] == 'pred' and len(f.log[0][3]) <= 1
                            if ok and v == 'u':
                                ok = len(f.log[0][3]) == 1 and isinstance(f.log[0][3][0], Ten) and same(f.log[0][3][0], mt(Sym('u', dim('l'), 1)))[0] == 'ok'
                            L.true(('C19',), 'MMAE.predict: every filter predicts once with the input', s, ok, 'filter %d: %r' % (f.i, [e[:2] for e in f.log]))
                        same_attrs(L, ('C19',), 'MMAE.predict keeps the probabilities', s, o, before, ('p', 'x_post', 'P_post'))
                        for a in 'xP':
                            L.eq(('C07',), 'MMAE.predict: %s_prior' % a, s, None, tensor(s, o, a), o, a + '_prior')
                        independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_prior'), ('P', 'P_prior')])
                        no_mutation(L, s)

                def go_none():
                    for after in (False, True):
                        s, fs, o, p0 = setup('update(None) after a step' if after else 'update(None)')
                        if after:
                            for r in (s.call(o, 'predict'), s.call(o, 'update', s.sym('z', m, 1))):
                                if not r.ok:
                                    return
                        for k in ('x_post', 'P_post', 'x_prior', 'P_prior'):
                            s.put(o, k, s.arr(Sym('old_' + k, *tensor(s, o, k).shape)))
                        missing(L, s, o, fs, 'MMAE', ('x', 'P', 'p', 'H', 'x_prior', 'P_prior') if after else ('p', 'H', 'x_prior', 'P_prior'))
                        L.none(('C05',), 'MMAE missing measurement: z', s, None, o, 'z')

                def go_update():
                    for v in ('plain', 'R and H', 'H stored', 'H stored and override', 'R', 'H', 'H stored, R'):
                        s, fs, o, p0 = setup('update, ' + v, H='stored' in v)
                        before = snap(s, o)
                        kw = {}
                        if v in ('R and H', 'H stored and override'):
                            kw = dict(R=s.sym('R2', m, m, prov='param R'), H=s.sym('H2', m, n, prov='param H'))
                        elif v == 'H':
                            kw = dict(H=s.sym('H2', m, n, prov='param H'))
                        elif v.endswith('R'):
                            kw = dict(R=s.sym('R2', m, m, prov='param R'))
                        r = s.call(o, 'update', s.sym('z', m, 1, prov='param z'), **kw)
                        if not L.runs(('C19', 'C11', 'C34'), 'MMAE.update runs', s, r):
                            return
                        wR = None if 'R' not in kw else Sym('R2', m, m)
                        wH = Sym('H2', m, n) if 'H' in kw else (Sym('H', m, n) if 'stored' in v else None)
                        for f in fs:
                            L.true(('C19',), 'MMAE.update: every filter is updated once', s, len(f.log) == 1 and f.log[0][0] == 'upd', 'filter %d: %r' % (f.i, [e[0] for e in f.log]))
                            if len(f.log) != 1:
                                continue
                            _, a, k, _, _ = f.log[0]
                            k = dict(k)
                            for nme, val in zip(('z', 'R', 'H'), a):
                                k.setdefault(nme, val)
                            for nme, w in (('z', Sym('z', m, 1)), ('R', wR), ('H', wH)):
                                g = k.get(nme, Con(None))
                                if w is None:
                                    L.none(('C19', 'C09'), 'MMAE.update: no %s handed on' % nme, s, g)
                                else:
                                    L.eq(('C19', 'C09'), 'MMAE.update: filters receive %s' % nme, s, g, w)
                        num = [scal(p0, i) * f.lik() for i, f in enumerate(fs)]
                        tot = num[0]
                        for q in num[1:]:
                            tot = tot + q
                        for i in range(K):
                            L.eq(('C19',), 'MMAE.update: probability proportional to previous probability times likelihood', s, lambda: scal(tensor(s, o, 'p'), i), num[i] / tot)
                        L.eq(('C19',), 'MMAE.update: probabilities sum to one', s, lambda: tensor(s, o, 'p').sum(), M(A.scalar(A.P1)))
                        p = tensor(s, o, 'p')
                        st = [f.state() for f in fs]
                        x = mean(p, [a for a, b in st])
                        P = spread(p, [a for a, b in st], [b for a, b in st], x, n)
                        for a, w in (('x', x), ('P', P)):
                            L.eq(('C19', 'C11'), 'MMAE.update: %s' % a, s, None, w, o, a)
                            L.eq(('C19', 'C07', 'C11'), 'MMAE.update: %s_post' % a, s, None, w, o, a + '_post')
                        L.eq(('C07', 'C19'), 'MMAE.update: stored z', s, None, Sym('z', m, 1), o, 'z')
                        symmetric(L, ('C10',), 'MMAE.update: P symmetric', s, o, 'P')
                        same_attrs(L, ('C07',), 'MMAE.update leaves the prior snapshot', s, o, before, ('x_prior', 'P_prior'))
                        same_attrs(L, ('C09', 'C19'), 'MMAE.update keeps the stored H', s, o, before, ('H',))
                        independent(L, ('C07',), 'snapshot independent of live state', s, o, [('x', 'x_post'), ('P', 'P_post')])
                        no_mutation(L, s)
                for nm, g in (('init', go_init), ('predict', go_predict), ('update', go_update), ('update(None)', go_none)):
                    L.guarded('MMAE %s, %d filters' % (nm, K), g)


SUITES = [suite_imm, suite_mmae]
suite_imm.tags = ('C05', 'C18', 'C06', 'C07', 'C09', 'C10', 'C11', 'C34')
suite_mmae.tags = ('C05', 'C19', 'C06', 'C07', 'C10', 'C11', 'C34', 'C09')
