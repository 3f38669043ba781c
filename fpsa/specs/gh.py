"""g-h family, least squares and fading-memory polynomial filters."""
from ..lab import *      # noqa
from .. import algebra as A
from .common import *    # noqa
from .kf import saver_stub, check_saves, per_step

GH = 'filterpy.gh'
LS = 'filterpy.leastsq.least_squares'
FM = 'filterpy.memory.fading_memory'

TAGS = ('C22', 'C04', 'C06', 'C09', 'C11', 'C31', 'C34', 'C07')


def refs(L, tags, s, label, got, name, args, parts, s2=None):
    """compare the parts of a result with those of a reference program"""
    s2 = s2 or L.session('')
    w = s2.ref(name, *args(s2))
    for nm, g, q in zip(parts, got, pair(s2, w, len(parts))):
        if nm:
            L.eq(tags, '%s: %s' % (label, nm), s, g, M(s2.ten(q)))


def shapes():
    n = dim('n')
    return [('scalar', ()), ('array', (n,))]


def gh_val(s, nm, sh, prov=True):
    return s.num(nm) if not sh else s.sym(nm, *sh, prov='param ' + nm if prov else None)


def gain_overrides(s, v, gains):
    """(gains handed over, those of them that are zero)"""
    w = v.split()
    some = [g for g in gains if v in ('overrides', 'zero gain') or w[0] in ('only', 'zero') and g == w[-1] or w[0] == 'all' and g != w[-1]]
    zero = some if w[0] == 'zero' else []
    return {g: Num(0) if g in zero else s.num(g + '2') for g in some}, zero


def suite_gh(L):
    if not L.want(*TAGS):
        return
    for cls, st in (('GHFilter', ('x', 'dx')), ('GHKFilter', ('x', 'dx', 'ddx'))):
        gains = ('g', 'h', 'k')[:len(st)]
        step, batch = ('gh_step', 'gh_batch') if len(st) == 2 else ('ghk_step', 'ghk_batch')
        preds = tuple(a + '_prediction' for a in st)

        def mk(s, sh):
            return s.make(GH, cls, *([gh_val(s, a, sh) for a in st] + [s.num('dt')] + [s.num(g) for g in gains]))
        for shn, sh in shapes():
            for v in ('plain', 'overrides', 'zero gain', 'twice') + tuple('only ' + q for q in gains) + tuple('zero ' + q for q in gains) + (tuple('all but ' + q for q in gains) if len(gains) > 2 else ()):
                def go():
                    s = L.session('%s.update, %s, %s' % (cls, shn, v))
                    o = mk(s, sh)
                    ov, zero = gain_overrides(s, v, gains)
                    before = snap(s, o)
                    if v == 'twice':
                        s.call(o, 'update', gh_val(s, 'z0', sh), **{g: s.num(g + '2') for g in gains})
                    r = s.call(o, 'update', gh_val(s, 'z', sh), **ov)
                    if not L.runs(('C22', 'C34', 'C09'), '%s.update runs' % cls, s, r):
                        return

                    def args(s2, zn='z', first=True):
                        g2 = [Num(0) if g in zero else s2.num(g + '2') if g in ov else s2.num(g) for g in gains]
                        s0 = [gh_val(s2, a, sh, False) for a in st]
                        if v == 'twice':
                            w = s2.ref(step, *(s0 + [s2.num('dt')] + [s2.num(g + '2') for g in gains] + [gh_val(s2, 'z0', sh, False)]))
                            s0 = pair(s2, w, 2 * len(st) + 1)[:len(st)]
                        return s0 + [s2.num('dt')] + g2 + [gh_val(s2, 'z', sh, False)]
                    tg = ('C22', 'C11') + (('C09',) if v not in ('plain', 'twice') else ())
                    refs(L, tg, s, '%s.update' % cls, [(lambda a=a: s.get(o, a)) for a in st + preds + ('y',)], step, args, st + preds + ('residual',))
                    got = pair(s, r.val, 2)
                    refs(L, tg, s, '%s.update result' % cls, got + [None] * (len(st) * 2 - 1), step, args, ('x', 'dx') + (None,) * (len(st) * 2 - 1))
                    z = Sym('z', *sh)
                    L.eq(('C22', 'C07'), '%s.update: stored z' % cls, s, None, z, o, 'z')
                    same_attrs(L, ('C22', 'C09'), '%s.update keeps gains and time step' % cls, s, o, before, gains + ('dt',))
                    no_mutation(L, s)
                L.guarded('%s.update' % cls, go)

        def state():
            for shn, sh in shapes():
                s = L.session('%s construction, %s' % (cls, shn))
                o = mk(s, sh)
                for a in st:
                    L.eq(('C22', 'C11'), '%s: initial %s' % (cls, a), s, None, Sym(a, *sh), o, a)
                    L.eq(('C22', 'C11'), '%s: initial prediction of %s' % (cls, a), s, None, Sym(a, *sh), o, a + '_prediction')
                L.eq(('C22', 'C11'), '%s: initial residual' % cls, s, None, Zeros(*sh) if sh else M(A.scalar(A.P0)), o, 'y')
        L.guarded('%s construction' % cls, state)
        for N in (dim('N'), Lin(3), Lin(1)):
            for sp in (False, True):
                for sv in ((False, True) if cls == 'GHFilter' else (False,)):
                    def bat():
                        s = L.session('%s.batch_filter, %s measurements%s%s' % (cls, N, ', predictions' if sp else '', ', saver' if sv else ''))
                        o = mk(s, ())
                        before = snap(s, o)
                        kw = {}
                        if sv:
                            kw['saver'], log = saver_stub(s)
                        r = s.call(o, 'batch_filter', per_step(s, N, 'zs'), save_predictions=sp, **kw)
                        if not L.runs(('C22', 'C34', 'C11'), '%s.batch_filter runs' % cls, s, r):
                            return

                        def args(s2):
                            return [s2.num(a) for a in st] + [s2.num('dt')] + [s2.num(g) for g in gains] + [per_step(s2, N, 'zs')]
                        got = pair(s, r.val, 2) if sp else [r.val, None]
                        refs(L, ('C22', 'C11'), s, '%s.batch_filter' % cls, got, batch, args, ('estimates', 'predictions' if sp else None))
                        pure(L, ('C22', 'C06'), '%s.batch_filter leaves the filter unchanged' % cls, s, o, before)
                        if sv:
                            check_saves(L, s, log, N, cls + '.batch_filter')
                    L.guarded('%s.batch_filter' % cls, bat)

        def vrf():
            s = L.session('%s variance reduction' % cls)
            o = mk(s, ())
            args = lambda s2: [s2.num(g) for g in gains] + [s2.num('dt')]
            k = len(st)
            for nm, parts in (('VRF', st), ('VRF_prediction', ('prediction',))):
                r = s.call(o, nm)
                if L.runs(('C22', 'C34'), '%s.%s runs' % (cls, nm), s, r):
                    got = pair(s, r.val, k) if nm == 'VRF' else [r.val]
                    refs(L, ('C22',), s, '%s.%s' % (cls, nm), (got + [None]) if nm == 'VRF' else [None] * k + got, 'gh_vrf' if k == 2 else 'ghk_vrf', args,
                         (tuple(parts) + (None,)) if nm == 'VRF' else (None,) * k + tuple(parts))
            if k == 3:
                r = s.call(o, 'bias_error', s.num('j'))
                if L.runs(('C22', 'C34'), 'GHKFilter.bias_error runs', s, r):
                    L.eq(('C22',), 'GHKFilter.bias_error: -dt^3 jerk / 2k', s, r.val, -(Sym('dt') * Sym('dt') * Sym('dt') * Sym('j')) / (Sym('k') * 2))
        L.guarded('%s variance reduction' % cls, vrf)


def suite_gh_order(L):
    if not L.want(*TAGS):
        return
    cls = 'GHFilterOrder'
    for order in (0, 1, 2):
        st = ('x', 'dx', 'ddx')[:order + 1]
        gains = ('g', 'h', 'k')[:order + 1]

        def mk(s, form='array'):
            x0 = s.num('x0') if form == 'scalar' else s.sym('x', order + 1, prov='param x0')
            return s.make(GH, cls, x0, s.num('dt'), order, *[s.num(g) for g in gains])

        def init():
            s = L.session('%s construction, order %d' % (cls, order))
            o = mk(s, 'scalar')
            w = A.set_ten if False else None
            x = s.get(o, 'x')
            for i in range(order + 1):
                L.eq(('C22', 'C11'), '%s: initial state from a scalar' % cls, s, lambda: s.item(x, i), Sym('x0') if i == 0 else M(A.scalar(A.P0)))
            s = L.session('%s construction from an array, order %d' % (cls, order))
            o = mk(s)
            L.eq(('C22', 'C11'), '%s: initial state from an array' % cls, s, None, Sym('x', order + 1), o, 'x')
        L.guarded(cls, init)
        for v in ('plain', 'overrides', 'zero gain', 'twice') + tuple('only ' + q for q in gains) + tuple('zero ' + q for q in gains) + (tuple('all but ' + q for q in gains) if len(gains) > 2 else ()):
            def go():
                s = L.session('%s.update, order %d, %s' % (cls, order, v))
                o = mk(s)
                ov, zero = gain_overrides(s, v, gains)
                before = snap(s, o)
                if v == 'twice':
                    s.call(o, 'update', s.num('z0'), **{g: s.num(g + '2') for g in gains})
                r = s.call(o, 'update', s.num('z'), **ov)
                if not L.runs(('C22', 'C34', 'C09'), '%s.update runs' % cls, s, r):
                    return

                def step(s2, x, gs, z):
                    zero = [Num(0)] * (3 - len(x))
                    w = pair(s2, s2.ref('ghk_step', *(x + zero + [s2.num('dt')] + gs + zero + [z])), 7)
                    return w[:len(x)], w[6]
                s2 = L.session('')
                g2 = [Num(0) if g in zero else s2.num(g + '2') if g in ov else s2.num(g) for g in gains]
                x = [s2.I.mk(s2.st, A.index_axis(Sym('x', order + 1).t, 0, Lin(i))) for i in range(order + 1)]
                if v == 'twice':
                    x, _ = step(s2, x, [s2.num(g + '2') for g in gains], s2.num('z0'))
                x, y = step(s2, x, g2, s2.num('z'))
                tg = ('C22', 'C11') + (('C09',) if v not in ('plain', 'twice') else ())
                for i, nm in enumerate(st):
                    L.eq(tg, '%s.update: %s' % (cls, nm), s, lambda: s.item(s.get(o, 'x'), i), M(s2.ten(x[i])))
                L.eq(tg, '%s.update: residual' % cls, s, None, M(s2.ten(y)), o, 'y')
                L.eq(('C22', 'C07'), '%s.update: stored z' % cls, s, None, Sym('z'), o, 'z')
                same_attrs(L, ('C22', 'C09'), '%s.update keeps gains and time step' % cls, s, o, before, ('g', 'h', 'k', 'dt', 'order'))
                no_mutation(L, s)
            L.guarded('%s.update' % cls, go)
    for bad in (-1, 3):
        s = L.session('%s, order %d' % (cls, bad))
        info = L.prog.cls(GH, cls)
        s.entry = info.find('methods', '__init__')
        r = s.guard(lambda: s.I.instantiate(s.st, info, [s.num('x0'), s.num('dt'), s.val(bad), s.num('g')], {}))
        L.runs(('C31', 'C22'), '%s rejects order %d' % (cls, bad), s, r, ('ValueError',))


def suite_gh_functions(L):
    if not L.want('C22', 'C31', 'C34'):
        return
    for nm, args, ref, parts in (
            ('optimal_noise_smoothing', lambda s: [s.num('g')], 'optimal_noise_smoothing', 'ghk'),
            ('least_squares_parameters', lambda s: [Num(A.sym('i'), True)], 'least_squares_parameters', 'gh'),
            ('critical_damping_parameters', lambda s: [s.num('theta')], 'critical_damping2', 'gh'),
            ('critical_damping_parameters', lambda s: [s.num('theta'), s.val(2)], 'critical_damping2', 'gh'),
            ('critical_damping_parameters', lambda s: [s.num('theta'), s.val(3)], 'critical_damping3', 'ghk'),
            ('benedict_bornder_constants', lambda s: [s.num('g')], 'benedict_bordner', 'gh'),
            ('benedict_bornder_constants', lambda s: [s.num('g'), s.val(False)], 'benedict_bordner', 'gh'),
            ('benedict_bornder_constants', lambda s: [s.num('g'), s.val(True)], 'benedict_bordner_critical', 'gh')):
        def go():
            s = L.session('%s -> %s' % (nm, ref))
            a = args(s)
            if nm.startswith('critical'):
                th = A.sym('theta')
                s.I.assume(s.st, A.ind('<', th), False)
                s.I.assume(s.st, A.ind('<', A.P1 - th), False)
            r = s.fn(GH, nm, *a)
            if L.runs(('C22', 'C34', 'C31'), '%s runs' % nm, s, r):
                refs(L, ('C22',), s, nm, pair(s, r.val, len(parts)), ref, lambda s2: args(s2)[:1], parts)
        L.guarded(nm, go)
    for what, a in (('theta > 1', (1.5, 2)), ('theta < 0', (-.5, 2)), ('order 1', (.5, 1)), ('order 4', (.5, 4))):
        s = L.session('critical_damping_parameters, %s' % what)
        r = s.fn(GH, 'critical_damping_parameters', Num(A.poly(a[0])), s.val(a[1]))
        L.runs(('C31', 'C22'), 'critical_damping_parameters rejects %s' % what, s, r, ('ValueError',))
    for what, a in (('theta = 0', 0.), ('theta = 1', 1.)):
        s = L.session('critical_damping_parameters, %s' % what)
        r = s.fn(GH, 'critical_damping_parameters', Num(A.poly(a)), s.val(2))
        L.runs(('C31',), 'critical_damping_parameters accepts %s' % what, s, r)


# ------------------------------------------------------------- least squares
def suite_ls(L):
    if L.intargs:       # the state is the filter's own
        return
    if not L.want('C23', 'C06', 'C07', 'C11', 'C31', 'C34'):
        return
    cls = 'LeastSquaresFilter'
    for order in (0, 1, 2):
        def mk(s):
            return s.make(LS, cls, s.num('dt'), order, s.num('sigma'))

        def init():
            s = L.session('%s construction, order %d' % (cls, order))
            o = mk(s)
            L.eq(('C23', 'C11'), '%s: initial state' % cls, s, None, Zeros(order + 1), o, 'x')
            L.eq(('C23',), '%s: initial count' % cls, s, None, M(A.scalar(A.P0)), o, 'n')
            fresh = snap(s, o)
            s.call(o, 'update', s.num('z1'))
            s.call(o, 'update', s.num('z2'))
            r = s.call(o, 'reset')
            if L.runs(('C23', 'C34'), '%s.reset runs' % cls, s, r):
                same_attrs(L, ('C23',), '%s.reset restores the initial condition' % cls, s, o, fresh, list(fresh))
                r = s.call(o, 'update', s.num('z'))
                s2 = L.session('')
                o2 = mk(s2)
                s2.call(o2, 'update', s2.num('z'))
                L.eq(('C23',), '%s: first step after reset' % cls, s, None, tensor(s2, o2, 'x'), o, 'x')
        L.guarded(cls, init)

        def upd():
            s = L.session('%s.update, order %d' % (cls, order))
            o = mk(s)
            k = A.sym('cnt')
            s.put(o, 'n', Num(k, True))
            s.put(o, 'x', s.sym('x', order + 1))
            s.put(o, 'K', s.sym('K', order + 1))
            before = snap(s, o)
            r = s.call(o, 'update', s.num('z'))
            if not L.runs(('C23', 'C34'), '%s.update runs' % cls, s, r):
                return
            s2 = L.session('')
            w = pair(s2, s2.ref('ls_step', s2.val(order), s2.sym('x', order + 1), Num(k + A.P1, True), s2.num('dt'), s2.num('z')), 3)
            L.eq(('C23', 'C11'), '%s.update: x' % cls, s, None, M(s2.ten(w[0])), o, 'x')
            L.eq(('C23', 'C11'), '%s.update: result' % cls, s, r.val, M(s2.ten(w[0])))
            L.eq(('C23', 'C11'), '%s.update: K' % cls, s, None, M(s2.ten(w[1])), o, 'K')
            L.eq(('C23',), '%s.update: residual' % cls, s, None, M(s2.ten(w[2])), o, 'y')
            L.eq(('C23',), '%s.update: count' % cls, s, None, M(A.scalar(k + A.P1)), o, 'n')
            same_attrs(L, ('C23',), '%s.update keeps its parameters' % cls, s, o, before, ('dt', 'sigma', '_order'))
        L.guarded(cls + '.update', upd)

        def fit():
            # after order+1 measurements the polynomial passes through them
            for steps in (1, 2, 3, 4):
                s = L.session('%s after %d measurements, order %d' % (cls, steps, order))
                o = mk(s)
                s2 = L.session('')
                x = Zeros(order + 1)
                xv = s2.arr(x)
                for i in range(steps):
                    r = s.call(o, 'update', s.num('z%d' % i))
                    xv = pair(s2, s2.ref('ls_step', s2.val(order), xv, s2.val(i + 1), s2.num('dt'), s2.num('z%d' % i)), 3)[0]
                L.eq(('C23',), '%s: state' % cls, s, None, M(s2.ten(xv)), o, 'x')
                if steps == order + 1:
                    L.eq(('C23',), '%s: polynomial through the first measurements' % cls, s, lambda: s.item(s.get(o, 'x'), 0), Sym('z%d' % order))
        L.guarded(cls + ' fit', fit)
        for what in ('enough', 'none', 'few', 'one', 'least', 'least + 1', 'least + 2'):
            def err():
                s = L.session('%s.errors, order %d, %s measurements' % (cls, order, what))
                o = mk(s)
                k = A.sym('cnt') + A.poly(3)
                if what == 'enough':
                    s.put(o, 'n', Num(k, True))
                    s.I.assume(s.st, A.ind('<', k - A.poly(3)), False)
                    s.I.assume(s.st, A.ind('=', k), False)
                    for j in (1, 2):
                        s.I.assume(s.st, A.ind('<', A.poly(j) - k), True)
                    s.I.assume(s.st, A.ind('<', A.poly(3) - k), True)
                if what == 'few':
                    if order == 0:
                        return
                    s.put(o, 'n', s.val(order))
                if what == 'one':
                    if order < 2:
                        return
                    s.put(o, 'n', s.val(1))
                if what.startswith('least'):
                    k = A.poly(order + 1 + int(what[5:].replace(' ', '') or 0))
                    s.put(o, 'n', Num(k, True))
                before = snap(s, o)
                r = s.call(o, 'errors')
                if not L.runs(('C23', 'C34'), '%s.errors runs' % cls, s, r):
                    return
                got = pair(s, r.val, 2)
                if what == 'enough' or what.startswith('least'):
                    s2 = L.session('')
                    w = M(s2.ten(s2.ref('ls_std', s2.val(order), Num(k, True), s2.num('dt'), s2.num('sigma'))))
                else:
                    w = Zeros(order + 1)
                L.eq(('C23', 'C11'), '%s.errors: error' % cls, s, got[0], w, pos=('cnt', 'dt', 'sigma'))
                L.eq(('C23', 'C11'), '%s.errors: standard deviation' % cls, s, got[1], w, pos=('cnt', 'dt', 'sigma'))
                pure(L, ('C06', 'C23'), '%s.errors leaves the filter unchanged' % cls, s, o, before)
            L.guarded(cls + '.errors', err)
    for bad in (-1, 3):
        s = L.session('%s, order %d' % (cls, bad))
        info = L.prog.cls(LS, cls)
        s.entry = info.find('methods', '__init__')
        r = s.guard(lambda: s.I.instantiate(s.st, info, [s.num('dt'), s.val(bad)], {}))
        L.runs(('C31', 'C23'), '%s rejects order %d' % (cls, bad), s, r, ('ValueError',))


# ------------------------------------------------------------- fading memory
def suite_fm(L):
    if not L.want('C24', 'C06', 'C11', 'C31', 'C34'):
        return
    cls = 'FadingMemoryFilter'
    for order in (0, 1, 2):
        def mk(s, form):
            x0 = s.num('x0') if form == 'scalar' else s.sym('x', order + 1, prov='param x0') if form == 'array' else s.val([s.I.mk(s.st, A.index_axis(Sym('x', order + 1).t, 0, Lin(i))) for i in range(order + 1)])
            return s.make(FM, cls, x0, s.num('dt'), order, s.num('beta'))
        for form in ('scalar', 'array', 'list'):
            def init():
                s = L.session('%s construction, order %d, %s' % (cls, order, form))
                o = mk(s, form)
                for i in range(order + 1):
                    L.eq(('C24', 'C11'), '%s: initial state' % cls, s, lambda: s.item(s.get(o, 'x'), i),
                         (Sym('x0') if i == 0 else M(A.scalar(A.P0))) if form == 'scalar' else M(A.index_axis(Sym('x', order + 1).t, 0, Lin(i))))
                s2 = L.session('')
                for a, f in (('P', 'fm_P'), ('e', 'fm_e')):
                    w = s2.ref(f, s2.val(order), s2.num('beta'), s2.num('dt'))
                    L.eq(('C24', 'C11'), '%s: %s' % (cls, {'P': 'variance reduction factors', 'e': 'truncation errors'}[a]), s, None, M(s2.ten(w)), o, a)
                before = snap(s, o)
                for rep in (0, 1):
                    r = s.call(o, 'update', s.num('z%d' % rep))
                    if not L.runs(('C24', 'C34'), '%s.update runs' % cls, s, r):
                        return
                    s2 = L.session('')
                    x = s2.arr(Sym('x', order + 1)) if form != 'scalar' else s2.val([s2.num('x0')] + [Num(0)] * order)
                    for q in range(rep + 1):
                        x = s2.ref('fm_step', s2.val(order), x, s2.num('beta'), s2.num('dt'), s2.num('z%d' % q))
                    L.eq(('C24', 'C11'), '%s.update: x' % cls, s, None, M(s2.ten(x)), o, 'x')
                same_attrs(L, ('C24',), '%s.update keeps its parameters' % cls, s, o, before, ('beta', 'dt', 'order', 'P', 'e'))
                no_mutation(L, s)
            L.guarded(cls, init)
    for bad in (-1, 3):
        s = L.session('%s, order %d' % (cls, bad))
        info = L.prog.cls(FM, cls)
        s.entry = info.find('methods', '__init__')
        r = s.guard(lambda: s.I.instantiate(s.st, info, [s.num('x0'), s.num('dt'), s.val(bad), s.num('beta')], {}))
        L.runs(('C31', 'C24'), '%s rejects order %d' % (cls, bad), s, r, ('ValueError',))


SUITES = [suite_gh, suite_gh_order, suite_gh_functions, suite_ls, suite_fm]
suite_gh.tags = suite_gh_order.tags = TAGS
suite_gh_functions.tags = ('C22', 'C31', 'C34')
suite_ls.tags = ('C23', 'C06', 'C07', 'C11', 'C31', 'C34')
suite_fm.tags = ('C24', 'C06', 'C11', 'C31', 'C34')
