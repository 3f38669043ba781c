"""Saver, textual representations, copying and comparing filters."""
from ..lab import *      # noqa
from .. import algebra as A
from .. import text as TX
from .common import *    # noqa
from . import kf as KFS, ekf as EKFS, linear as LIN, imm as IMMS, ukf as UKFS, ckf as CKFS

HELP = 'filterpy.common.helpers'


def frozen(s, v, depth=0, st=None):
    """content of a value and of everything below it, as plain data"""
    st = st or s.st
    if depth > 8:
        return '...'
    if isinstance(v, Arr):
        try:
            return s.I.to_ten(st, v)
        except Imprecise:
            return st.heap[v.loc].ten
    if isinstance(v, Lst):
        return [frozen(s, g[1], depth + 1, st) if g[0] == 'v' else g for g in st.heap[v.loc].segs]
    if isinstance(v, Tup):
        return [frozen(s, x, depth + 1, st) for x in v.items]
    if isinstance(v, (Dct, Obj)):
        c = st.heap[v.loc]
        return (getattr(c, 'cls', None), {k: frozen(s, x, depth + 1, st) for k, x in c.d.items()})
    return v


def reach(s, vals):
    """locations of everything reachable from the values"""
    seen, work = set(), list(vals)
    while work:
        v = work.pop()
        if isinstance(v, Phi):
            work += [v.a, v.b]
        elif isinstance(v, Tup):
            work += list(v.items)
        elif isinstance(v, Fn):
            if v.self is not None:
                work.append(v.self)
        elif isinstance(v, (Arr, Lst, Dct, Obj)) and v.loc not in seen:
            seen.add(v.loc)
            c = s.st.heap.get(v.loc)
            if isinstance(c, ListC):
                work += [g[1] for g in c.segs if g[0] == 'v' and isinstance(g[1], Val)] + [g[2] for g in c.segs if g[0] == 'k' and isinstance(g[2], Val)]
            elif isinstance(c, (DictC, ObjC)):
                work += [x for x in c.d.values() if isinstance(x, Val)]
    return seen


def session(L, ctx):
    s = L.session(ctx)
    s.I.unroll = 120
    return s


def refcls(L, name):
    import os
    m = L.prog.extra('reference', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reference.py'))
    return m.classes[name]


def fresh(s, cls, *a):
    r = s.guard(lambda: s.I.instantiate(s.st, cls, [s.val(x) for x in a], {}))
    if not r.ok:
        raise Broken('reference object %s' % (r.why or r.raised), r)
    return r.val


def overwrite(s, v, m):
    """in-place change of an array"""
    s.st.heap[v.loc] = ArrC(mt(m), s.st.heap[v.loc].prov)


PROPS = ('likelihood', 'live', 'nested')


def watched(s, cls='Watched'):
    n = dim('n')
    L = s.lab
    inner = fresh(s, refcls(L, 'Inner'), s.sym('inner_m', n, n))
    return fresh(s, refcls(L, cls), s.sym('x', n, 1), s.sym('P', n, n), inner, s.ufn('hx', (n,)), s.val([s.sym('h0', n), s.val([s.sym('h00', n)])]), s.num('dt'))


def evolve(s, o, k):
    """changes between two saves, in place and by assignment"""
    n = dim('n')
    tag = 'e%d_' % k
    overwrite(s, s.raw(o, 'x'), Sym(tag + 'x', n, 1))
    s.put(o, 'P', s.sym(tag + 'P', n, n))
    overwrite(s, s.raw(s.raw(o, 'inner'), 'm'), Sym(tag + 'm', n, n))
    h = s.raw(o, 'hist')
    c = s.st.heap[h.loc]
    overwrite(s, c.segs[0][1], Sym(tag + 'h0', n))
    deep = c.segs[1][1]
    d = s.st.heap[deep.loc]
    overwrite(s, d.segs[0][1], Sym(tag + 'h00', n))
    s.st.heap[h.loc] = ListC(c.segs + [('v', s.sym(tag + 'h', n))])
    s.put(o, 'dt', s.num(tag + 'dt'))
    overwrite(s, s.raw(o, '_hidden'), Sym(tag + 'hid', n))


def suite_saver(L):
    tags = ('C29', 'C34', 'C06', 'C35')
    if not L.want(*tags):
        return
    variants = [('plain', {}, ()), ('skip_private', dict(skip_private=True), ('_hidden', '_cache')), ('skip_callable', dict(skip_callable=True), ('hx',)),
                ('ignore', dict(ignore=('P', 'likelihood')), ('P', 'likelihood')), ('ignore list, skip both', dict(ignore=['x', 'live'], skip_private=True, skip_callable=True), ('_hidden', '_cache', 'x', 'live', 'hx')),
                ('ignore several', dict(ignore=('dt', 'missing', 'hist', 'nested')), ('dt', 'hist', 'nested')),
                ('save_current', dict(save_current=True), ())]
    for vn, kw, gone in variants:
        def go():
            s = session(L, 'Saver, %s' % vn)
            o = watched(s)
            snaps = []
            names = [k for k in s.attrs(o)] + list(PROPS)

            def take():
                d = {}
                for k in names:
                    d[k] = frozen(s, s.get(o, k))
                snaps.append(d)
            if kw.get('save_current'):
                take()
            before = {k: frozen(s, v) for k, v in s.attrs(o).items()}
            sv = s.make(HELP, 'Saver', o, **kw)
            steps = 3 if L.tier == 'quick' else 6
            for i in range(steps):
                if i:
                    evolve(s, o, i)
                take()
                if len(snaps) == 1:
                    before = {k: frozen(s, v) for k, v in s.attrs(o).items()}
                now = {k: frozen(s, v) for k, v in s.attrs(o).items()}
                r = s.call(sv, 'save')
                if not L.runs(('C29', 'C34'), 'save runs', s, r):
                    return
                after = {k: frozen(s, v) for k, v in s.attrs(o).items()}
                ok = [k for k in set(now) | set(after) if k != '_calls' and (k not in now or k not in after or same_frozen(now[k], after[k]) is not True)]
                L.true(('C29', 'C06'), 'saving leaves the object unchanged', s, not ok, 'changed: %s' % sorted(ok))
            total = len(snaps)
            r = s.call(sv, '__len__')
            if L.runs(('C29', 'C34'), 'len runs', s, r):
                L.eq(('C29',), 'number of saves', s, r.val, M(A.scalar(A.poly(total))))
            keys = [k for k in names if k not in gone]
            try:
                kv = s.get(sv, 'keys')
                it = s.I.iter_of(s.st, kv)
                got = sorted(it.get(Lin(i)).v for i in range(int(it.count.c)))
                L.true(('C29',), 'every attribute and property is recorded', s, got == sorted(keys), 'records %s, expected %s' % (got, sorted(keys)))
            except Imprecise as e:
                L.true(('C29',), 'every attribute and property is recorded', s, None, str(e))
            live = reach(s, [o])
            for k in keys:
                r = s.call(sv, '__getitem__', k)
                if not L.runs(('C29', 'C34'), 'history is readable by key', s, r):
                    continue
                check_history(L, s, k, r.val, snaps, live)
                try:
                    a = s.get(sv, k)
                    L.true(('C29',), 'history is readable as attribute', s, same_frozen(frozen(s, a), frozen(s, r.val)), 'attribute %s is %r' % (k, a))
                except AbsRaise as e:
                    L.true(('C29',), 'history is readable as attribute', s, False, 'attribute %s: %s' % (k, e.kind))
                except Imprecise as e:
                    L.true(('C29',), 'history is readable as attribute', s, None, str(e))
        L.guarded('Saver ' + vn, go)

    def empty():
        s = session(L, 'Saver, nothing saved')
        o = watched(s)
        sv = s.make(HELP, 'Saver', o)
        r = s.call(sv, '__len__')
        if L.runs(('C29', 'C34'), 'len runs', s, r):
            L.eq(('C29',), 'no saves yet', s, r.val, M(A.scalar(A.P0)))
    L.guarded('Saver empty', empty)

    def later():
        s = session(L, 'Saver, attribute added after the first save')
        o = watched(s)
        sv = s.make(HELP, 'Saver', o)
        s.call(sv, 'save')
        s.put(o, 'late', s.sym('late', 3))
        r = s.call(sv, 'save')
        if L.runs(('C29', 'C34'), 'save runs', s, r):
            r = s.call(sv, '__getitem__', 'late')
            if L.runs(('C29', 'C34'), 'history is readable by key', s, r):
                L.true(('C29',), 'a new attribute is recorded from then on', s, same_frozen(frozen(s, r.val), [Sym('late', 3).t]), 'is %r' % (frozen(s, r.val),))
    L.guarded('Saver late attribute', later)

    def two():
        s = session(L, 'two Savers on one object')
        o = watched(s)
        a = s.make(HELP, 'Saver', o)
        b = s.make(HELP, 'Saver', o)
        s.call(a, 'save')
        r = s.call(b, '__len__')
        if L.runs(('C29', 'C34'), 'len runs', s, r):
            L.eq(('C29', 'C35'), 'savers keep separate histories', s, r.val, M(A.scalar(A.P0)))
        r1, r2 = reach(s, [a]) - reach(s, [o]), reach(s, [b]) - reach(s, [o])
        L.true(('C29', 'C35'), 'savers share nothing', s, not (r1 & r2), 'shared storage')
    L.guarded('two Savers', two)

    for flat in (None, False, True):
        def arrays():
            n = dim('n')
            s = session(L, 'Saver.to_array, flatten %s' % flat)
            o = fresh(s, refcls(L, 'Numeric'), s.sym('x', n, 1), s.sym('P', n, n), s.sym('w', 1, 1), s.num('dt'), s.sym('v', n))
            sv = s.make(HELP, 'Saver', o)
            want = {k: [] for k in ('x', 'P', 'w', 'dt', 'v', 'trace2')}
            N = 3
            for i in range(N):
                if i:
                    for k, sh in (('x', (n, 1)), ('P', (n, n)), ('w', (1, 1)), ('v', (n,))):
                        overwrite(s, s.raw(o, k), Sym('e%d_%s' % (i, k), *sh))
                    s.put(o, 'dt', s.num('e%d_dt' % i))
                for k in want:
                    want[k].append(s.ten(s.get(o, k)))
                s.call(sv, 'save')
            r = s.call(sv, 'to_array') if flat is None else s.call(sv, 'to_array', flat)
            if not L.runs(('C29', 'C34'), 'to_array runs', s, r):
                return
            for k, v in want.items():
                t = A.concat([A.insert_axis(x, 0) for x in v], 0)
                if flat:
                    if t.rank == 3 and t.shape[2] == A.ONE:
                        t = A.reshape(t, t.shape[:2])
                    if t.rank == 2 and t.shape[1] == A.ONE:
                        t = A.reshape(t, t.shape[:1])
                L.eq(('C29',), 'to_array: %s' % k, s, lambda: s.get(sv, k), M(t))
            s.call(sv, 'save')
            r = s.call(sv, '__getitem__', 'x')
            if r.ok:
                L.true(('C29',), 'saving after conversion continues the history', s, len(frozen(s, r.val)) == N + 1 if isinstance(frozen(s, r.val), list) else False, 'history is %r' % (r.val,))
        L.guarded('Saver.to_array', arrays)

    def failing():
        s = session(L, 'Saver.to_array, entries of different shape')
        n = dim('n')
        o = fresh(s, refcls(L, 'Numeric'), s.sym('x', n, 1), s.sym('P', n, n), s.sym('w', 1, 1), s.num('dt'), s.sym('v', n))
        sv = s.make(HELP, 'Saver', o)
        s.call(sv, 'save')
        s.put(o, 'v', s.sym('longer', n + 1))
        s.call(sv, 'save')
        r = s.call(sv, 'to_array')
        L.runs(('C29', 'C31'), 'to_array reports entries that do not fit one array', s, r, ('ValueError',))
        for k in ('x', 'P', 'v'):
            try:
                a = s.get(sv, k)
                L.true(('C29',), 'a failed conversion keeps the lists', s, isinstance(a, Lst), '%s is %r' % (k, a))
            except (AbsRaise, Imprecise) as e:
                L.true(('C29',), 'a failed conversion keeps the lists', s, None, str(e))
    L.guarded('Saver.to_array failing', failing)

    def setting():
        s = session(L, 'Saver item assignment')
        o = watched(s)
        sv = s.make(HELP, 'Saver', o)
        s.call(sv, 'save')
        r = s.call(sv, '__setitem__', 'x', s.sym('other', 4))
        if L.runs(('C29', 'C34'), 'item assignment runs', s, r):
            r = s.call(sv, '__getitem__', 'x')
            L.eq(('C29',), 'assigned history is read back by key', s, r.val, Sym('other', 4))
            L.eq(('C29',), 'assigned history is read back as attribute', s, lambda: s.get(sv, 'x'), Sym('other', 4))
    L.guarded('Saver item assignment', setting)

    def real(name, mk):
        def go():
            s = session(L, 'Saver on %s' % name)
            o = mk(s)
            sv = s.make(HELP, 'Saver', o)
            r = s.call(sv, 'save')
            if not L.runs(('C29', 'C34'), 'save runs on a new filter', s, r):
                return
            distinct(s, o)
            sv = s.make(HELP, 'Saver', o)
            r = s.call(sv, 'save')
            if not L.runs(('C29', 'C34'), 'save runs on a filter', s, r):
                return
            live = reach(s, [o])
            names = list(s.attrs(o)) + sorted(allprops(s, o))
            for k in names:
                r = s.call(sv, '__getitem__', k)
                if not L.runs(('C29', 'C34'), 'history of a filter is readable by key', s, r):
                    continue
                check_history(L, s, k, r.val, [{k: frozen(s, s.get(o, k))}], live)
        L.guarded('Saver on ' + name, go)
    for name, mk in makers(L):
        real(name, mk)


def allprops(s, o):
    out, work = set(), [s.st.heap[o.loc].cls]
    while work:
        c = work.pop()
        out |= set(c.props)
        work += list(c.bases())
    return out


def same_frozen(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        rs = [same_frozen(x, y) for x, y in zip(a, b)]
    elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and isinstance(a[1], dict) and isinstance(b[1], dict):
        if a[0] is not b[0] or set(a[1]) != set(b[1]):
            return False
        rs = [same_frozen(a[1][k], b[1][k]) for k in a[1]]
    else:
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.info is b.info
        if isinstance(a, Ten) and isinstance(b, Num):
            b = A.scalar(b.p)
        if isinstance(b, Ten) and isinstance(a, Num):
            a = A.scalar(a.p)
        if type(a) is not type(b):
            return False if not isinstance(a, (Phi, Opq, Top)) and not isinstance(b, (Phi, Opq, Top)) else None
        return same_content(a, b)
    return False if False in rs else (None if None in rs else True)


def check_history(L, s, k, h, snaps, live):
    tags = ('C29',)
    if not isinstance(h, Lst):
        L.true(tags, 'history is a list', s, False if isinstance(h, (Arr, Num, Con, Tup)) else None, 'history of %s is %r' % (k, h))
        return
    segs = s.st.heap[h.loc].segs
    if any(g[0] != 'v' for g in segs):
        L.true(tags, 'one entry per save', s, None, 'unknown')
        return
    want = [d[k] for d in snaps if k in d]
    L.true(tags, 'one entry per save', s, len(segs) == len(want), '%s has %d entries after %d saves' % (k, len(segs), len(want)))
    if len(segs) != len(want):
        return
    seen = set()
    for i, g in enumerate(segs):
        r = same_frozen(frozen(s, g[1]), want[i])
        L.true(tags, 'entry holds the value at the time of the save', s, r, 'entry %d of %s is %s, was %s' % (i, k, text(frozen(s, g[1])), text(want[i])))
        locs = reach(s, [g[1]])
        L.true(tags, 'entry is independent of the live object', s, not (locs & live), 'entry %d of %s shares storage with the object' % (i, k))
        L.true(tags, 'entries are independent of each other', s, not (locs & seen), 'entry %d of %s shares storage with an earlier entry' % (i, k))
        seen |= locs


def text(v):
    return show(v) if isinstance(v, Ten) else repr(v)[:300]


# ------------------------------------------------------------ representations
def distinct(s, o, skip=()):
    """give every attribute its own recognisable value"""
    for k, v in list(s.attrs(o).items()):
        if k in skip:
            continue
        if isinstance(v, Arr):
            try:
                t = s.ten(v)
            except Imprecise:
                continue
            s.put(o, k, s.arr(Sym('attr_' + k, *t.shape)))
        elif isinstance(v, Num):
            s.put(o, k, Num(A.sym('attr_' + k)))
        elif isinstance(v, Con) and v.v is None and not k.startswith('_'):
            s.put(o, k, Opq('attr_' + k))
        elif isinstance(v, Con) and isinstance(v.v, str):
            s.put(o, k, Con('attr_' + k))


def makers(L):
    n, m, l = dim('n'), dim('m'), dim('l')
    k = dim('k')

    def imm(s):
        fs = [IMMS.Stub(s, i, n, False) for i in range(2)]
        return s.make(IMMS.IMM, 'IMMEstimator', s.val([f.obj for f in fs]), s.sym('mu', 2), s.sym('M', 2, 2))

    def mmae(s):
        fs = [IMMS.Stub(s, i, n, False, m) for i in range(2)]
        return s.make(IMMS.MM, 'MMAEFilterBank', s.val([f.obj for f in fs]), s.sym('p', 2), n)
    out = [('KalmanFilter', lambda s: KFS.make_kf(s, n, m, l)),
           ('ExtendedKalmanFilter', lambda s: s.make(EKFS.EKF, 'ExtendedKalmanFilter', n, m, l)),
           ('UnscentedKalmanFilter', lambda s: UKFS.make_ukf(s, n, m, k)),
           ('InformationFilter', lambda s: s.make(LIN.IF, 'InformationFilter', n, m, l)),
           ('SquareRootKalmanFilter', lambda s: s.make(LIN.SQ, 'SquareRootKalmanFilter', n, m, l)),
           ('GHKFilter', lambda s: s.make('filterpy.gh', 'GHKFilter', s.num('x'), s.num('dx'), s.num('ddx'), s.num('dt'), s.num('g'), s.num('h'), s.num('k'))),
           ('GHFilter', lambda s: s.make('filterpy.gh', 'GHFilter', s.num('x'), s.num('dx'), s.num('dt'), s.num('g'), s.num('h'))),
           ('GHFilterOrder', lambda s: s.make('filterpy.gh', 'GHFilterOrder', s.sym('x0', 3), s.num('dt'), s.val(2), s.num('g'), s.num('h'), s.num('k'))),
           ('FadingKalmanFilter', lambda s: s.make(LIN.FM, 'FadingKalmanFilter', s.num('alpha'), n, m, l)),
           ('FixedLagSmoother', lambda s: s.make(LIN.FL, 'FixedLagSmoother', n, m, N=s.val(4))),
           ('HInfinityFilter', lambda s: s.make(LIN.HI, 'HInfinityFilter', n, m, l, s.num('gamma'))),
           ('CubatureKalmanFilter', lambda s: s.make(CKFS.CK, 'CubatureKalmanFilter', n, m, s.num('dt'), s.ufn('hx', (m,)), s.ufn('fx', (n,)))),
           ('EnsembleKalmanFilter', lambda s: s.make(CKFS.EN, 'EnsembleKalmanFilter', s.sym('x0', n), s.arr(SymP('P0', n)), m, s.num('dt'), s.val(4), s.ufn('hx', (m,)), s.ufn('fx', (n,)))),
           ('LeastSquaresFilter', lambda s: s.make('filterpy.leastsq.least_squares', 'LeastSquaresFilter', s.num('dt'), s.val(1), s.num('sigma'))),
           ('FadingMemoryFilter', lambda s: s.make('filterpy.memory.fading_memory', 'FadingMemoryFilter', s.sym('x0', 2), s.num('dt'), s.val(1), s.num('beta'))),
           ('IMMEstimator', imm), ('MMAEFilterBank', mmae)]
    SP = 'filterpy.kalman.sigma_points'
    out += [('MerweScaledSigmaPoints', lambda s: s.make(SP, 'MerweScaledSigmaPoints', n, s.num('alpha'), s.num('beta'), s.num('kappa'))),
            ('JulierSigmaPoints', lambda s: s.make(SP, 'JulierSigmaPoints', n, s.num('kappa'))),
            ('SimplexSigmaPoints', lambda s: s.make(SP, 'SimplexSigmaPoints', n, s.num('alpha')))]
    return out


def suite_repr(L):
    tags = ('C33', 'C06', 'C34')
    if not L.want(*tags):
        return
    for name, mk in makers(L):
        def go():
            s = session(L, '%s.__repr__' % name)
            o = mk(s)
            calls = []
            s.I.stubs['pretty_str'] = lambda I, st, args, kw: Opq('str')
            r = s.call(o, '__repr__')
            if not L.runs(('C33', 'C34'), '__repr__ runs on a new object', s, r):
                return
            distinct(s, o)
            before = snap(s, o)

            def stub(I, st, args, kw):
                d = dict(zip(('label', 'arr'), args))
                d.update(kw)
                calls.append((d.get('label'), d.get('arr'), frozen(s, d.get('arr'), 0, st)))
                return Opq('str', ('pretty', len(calls)))
            s.I.stubs['pretty_str'] = stub
            r = s.call(o, '__repr__')
            if not L.runs(('C33', 'C34'), '__repr__ runs', s, r):
                return
            pure(L, ('C33', 'C06'), '__repr__ leaves the object unchanged', s, o, before)
            s.I.stubs.pop('pretty_str')
            parts = TX.pieces(r.val) if TX.isstr(r.val) else ()
            shown = [x.args[1] for x in parts if isinstance(x, Opq) and x.args[:1] == ('pretty',)]
            if not TX.isstr(r.val):
                L.true(('C33',), 'heading names the class', s, False if isinstance(r.val, (Con, Num, Arr, Lst)) else None, 'result is %r' % (r.val,))
            elif any(not isinstance(x, str) and x.args[:1] != ('pretty',) for x in parts):
                L.true(('C33',), 'heading names the class', s, None, 'text is not assembled from known parts')
            else:
                L.true(('C33',), 'heading names the class', s, isinstance(parts[0], str) and parts[0].split()[:1] == [name], 'heading is %r' % (parts[0],))
                L.true(('C33',), 'every formatted value is part of the text', s, len(shown) == len(set(shown)) == len(calls), '%d of %d values shown' % (len(set(shown)), len(calls)))
                apart = all(isinstance(parts[i - 1], str) and parts[i - 1][-1:] == '\n' for i, x in enumerate(parts) if i and not isinstance(x, str))
                L.true(('C33',), 'every value starts a line', s, apart, 'text is %s' % TX.show(r.val)[:300])
            L.true(('C33',), 'state is shown', s, bool(calls), 'nothing is shown')
            for lab, v, fz in calls:
                if not isinstance(lab, Con) or not isinstance(lab.v, str):
                    L.true(('C33',), 'labels are attribute names', s, None if lab is None or isinstance(lab, (Phi, Top, Opq)) and TX.isstr(lab) else False, 'label %r' % (lab,))
                    continue
                nm = lab.v.replace('-', '_').strip()
                try:
                    try:
                        want = s.get(o, nm)
                    except AbsRaise:
                        want = s.get(o, '_' + nm)
                except AbsRaise:
                    L.true(('C33',), 'labels are attribute names', s, False, 'label %r names no attribute' % lab.v)
                    continue
                L.true(('C33',), 'label is followed by the attribute of that name', s, same_frozen(fz, frozen(s, want)),
                       'label %r shows %s, the attribute is %s' % (lab.v, text(fz), text(frozen(s, want))))
        L.guarded('repr ' + name, go)


def suite_pretty(L):
    """what pretty_str makes of numbers, vectors, matrices, lists and empty values"""
    tags = ('C33',)
    if not L.want(*tags):
        return

    def of(s, v):
        return TX.of(s.I, s.st, v)

    def plain(s, label, v):
        ls = TX.lines(of(s, v))
        pad = ' ' * len(label + ' = ')
        return TX.cat([Con(label + ' = ')] + [TX.cat([Con('\n' + pad if i else ''), x]) for i, x in enumerate(ls)])

    def column(s, label, v):
        t = s.val(s.ten(v))
        return TX.cat([Con(label + ' = '), TX.replace(of(s, s.arr(M(s.ten(v)).T)), '\n', ''), Con('.T')])

    def items(s, label, v, kinds):
        return TX.cat([k(s, '%s[%d]' % (label, i), x) for i, (k, x) in enumerate(zip(kinds, v))], '\n')
    one = {
        'a number': (lambda s: s.num('v'), plain),
        'an integer': (lambda s: s.val(3), plain),
        'None': (lambda s: s.val(None), lambda s, l, v: Con(l + ' = None')),
        'a vector': (lambda s: s.sym('v', 3), plain),
        'a square matrix': (lambda s: s.sym('v', 2, 2), plain),
        'a wide matrix': (lambda s: s.sym('v', 2, 3), plain),
        'a row': (lambda s: s.sym('v', 1, 3), plain),
        'a one element matrix': (lambda s: s.sym('v', 1, 1), plain),
        'a column': (lambda s: s.sym('v', 3, 1), column),
        'an empty list': (lambda s: s.val([]), lambda s, l, v: Con(l + ' = []')),
        'an empty tuple': (lambda s: s.val(()), lambda s, l, v: Con(l + ' = ()')),
    }

    def run(ctx, label, mk, want):
        def go():
            s = session(L, ctx)
            v = mk(s)
            before = frozen(s, v)
            r = s.fn(HELP, 'pretty_str', s.val(label), v)
            if not L.runs(('C33', 'C34'), 'pretty_str runs', s, r):
                return
            L.true(('C33', 'C06'), 'the value is unchanged', s, same_frozen(before, frozen(s, v)), 'argument was changed')
            w = want(s, label or '', v)
            if not TX.isstr(r.val):
                L.true(tags, 'text shows label and value', s, False if isinstance(r.val, (Con, Num, Arr, Lst)) else None, 'result is %r' % (r.val,))
                return
            L.true(tags, 'text shows label and value', s, TX.same(r.val, w, same_content_num), 'text is %s, documented %s' % (TX.show(r.val), TX.show(w)))
        L.guarded('pretty_str ' + ctx, go)
    for ctx, (mk, want) in one.items():
        run('pretty_str of ' + ctx, 'label', mk, want)
    for kind, wrap in (('list', lambda s, xs: s.val(list(xs))), ('tuple', lambda s, xs: s.val(tuple(xs)))):
        names = ['a number', 'a column', 'a square matrix', 'a vector']

        def mk(s):
            s.items = [one[k][0](s) for k in names]
            return wrap(s, s.items)
        run('pretty_str of a %s' % kind, 'label', mk, lambda s, l, v: items(s, l, s.items, [one[k][1] for k in names]))
    # without a label only the value is printed
    run('pretty_str without label', None, one['a vector'][0], lambda s, l, v: of(s, v))
    run('pretty_str without label, column', None, one['a column'][0], lambda s, l, v: TX.cat([TX.replace(of(s, s.arr(M(s.ten(v)).T)), '\n', ''), Con('.T')]))

    def objtext(ctx, private):
        def go():
            s = session(L, ctx)
            o = watched(s)
            calls = []

            def stub(I, st, args, kw):
                d = dict(zip(('label', 'arr'), args))
                d.update(kw)
                calls.append((d.get('label'), frozen(s, d.get('arr'), 0, st)))
                return Opq('str', ('pretty', len(calls)))
            s.I.stubs['pretty_str'] = stub
            before = snap(s, o)
            r = s.fn(HELP, 'repr_string', o, *([] if private is None else [s.val(private)]))
            if not L.runs(('C33', 'C34'), 'repr_string runs', s, r):
                return
            pure(L, ('C33', 'C06'), 'repr_string leaves the object unchanged', s, o, before)
            attrs = set(s.attrs(o)) | allprops(s, o)
            want = {k for k in attrs if (private is not False or not k.startswith('_')) and not isinstance(s.get(o, k), (Fn, UFn))}
            got = [c[0].v if isinstance(c[0], Con) and isinstance(c[0].v, str) else repr(c[0]) for c in calls]
            L.true(tags, 'every attribute is shown once', s, len(got) == len(set(got)) and set(got) == want, 'shown: %s, attributes: %s' % (sorted(got), sorted(want)))
            for lab, fz in calls:
                if isinstance(lab, Con) and lab.v in attrs:
                    w = frozen(s, s.get(o, lab.v))
                    L.true(tags, 'label is followed by the attribute of that name', s, same_frozen(fz, w), 'label %r shows %s, the attribute is %s' % (lab.v, text(fz), text(w)))
        L.guarded(ctx, go)
    objtext('repr_string', None)
    objtext('repr_string with private attributes', True)
    objtext('repr_string without private attributes', False)


def same_content_num(a, b):
    if isinstance(a, Ten) and isinstance(b, Ten) and a.shape != b.shape:
        return False
    return same_content(a, b)


# ------------------------------------------------------ copying and comparing
def suite_states(L):
    tags = ('C36', 'C34', 'C06')
    if not L.want(*tags):
        return
    n, m = dim('n'), dim('m')

    def pairobj(s, extra=True):
        a, b = watched(s), watched(s)
        for k, o in (('a_', a), ('b_', b)):
            overwrite(s, s.raw(o, 'x'), Sym(k + 'x', n, 1))
            overwrite(s, s.raw(o, 'P'), Sym(k + 'P', n, n))
            overwrite(s, s.raw(o, '_hidden'), Sym(k + 'hid', n))
            overwrite(s, s.raw(s.raw(o, 'inner'), 'm'), Sym(k + 'm', n, n))
            s.put(o, 'dt', s.num(k + 'dt'))
            s.put(o, 'none', s.val(None) if k == 'b_' else s.num('a_none'))
            s.put(o, 'flag', s.val(k == 'b_'))
        if extra:
            s.put(a, 'only_dst', s.sym('only_dst', n))
            s.put(b, 'only_src', s.sym('only_src', n))
        return a, b

    def copying():
        s = session(L, 'copy_states')
        a, b = pairobj(s)
        before = {k: frozen(s, v) for k, v in s.attrs(b).items()}
        abefore = {k: frozen(s, v) for k, v in s.attrs(a).items()}
        r = s.fn(HELP, 'copy_states', a, b)
        if not L.runs(('C36', 'C34'), 'copy_states runs', s, r):
            return
        for k in sorted(before):
            now = s.raw(b, k)
            L.true(('C36', 'C06'), 'the source is unchanged', s, same_frozen(frozen(s, now), before[k]), 'attribute %s of the source changed' % k)
            if k == 'only_src':
                continue
            got = s.raw(a, k)
            L.true(('C36',), 'every common attribute is transferred', s, same_frozen(frozen(s, got), before[k]), '%s is %s, expected %s' % (k, text(frozen(s, got)), text(before[k])))
            if k == 'hx':
                continue
            L.true(('C36',), 'copies are independent of the source', s, not (reach(s, [got]) & reach(s, [b])), '%s shares storage with the source' % k)
        L.true(('C36',), 'attributes only the destination has are kept', s, same_frozen(frozen(s, s.raw(a, 'only_dst')), abefore['only_dst']), 'only_dst changed')
    L.guarded('copy_states', copying)

    def comparing(which, log):
        def go():
            s = session(L, 'compare_kf, %s, log %s' % ('all equal' if not which else 'difference in ' + ', '.join(which), log))
            a, b = watched(s), watched(s)
            for o in (a, b):
                overwrite(s, s.raw(o, 'x'), Sym('x', n, 1))
                s.put(o, 'text', s.val('same'))
                s.put(o, 'none', s.val(None))
                s.put(o, 'hx', s.ufn('hx', (n,)))
            s.put(b, 'inner', s.raw(a, 'inner'))
            for o in (a, b):
                s.put(o, 'hist', s.val([s.sym('h0', n), s.sym('h1', n)]))
            s.put(a, 'only_a', s.sym('oa', n))
            s.put(b, 'only_b', s.sym('ob', n))
            overwrite(s, s.raw(b, '_hidden'), Sym('other_hidden', n))
            for w in which:
                if w in ('x', 'P'):
                    overwrite(s, s.raw(b, w), Sym('@other_' + w, *s.ten(s.raw(b, w)).shape))
                elif w == 'x shape':
                    s.put(b, 'x', s.sym('longer', n + 1, 1))
                elif w == 'dt':
                    s.put(b, 'dt', s.num('@other_dt'))
                elif w == 'text':
                    s.put(b, 'text', s.val('else'))
                elif w == 'hx':
                    s.put(b, 'hx', s.ufn('hx2', (n,)))
                elif w == 'none':
                    s.put(b, 'none', s.num('@other_none'))

            from ..loops import syms_of
            s.I.oracle = lambda p: (False if len(p.d) == 1 else True) if any(x.startswith('@other_') for x in syms_of(p)) else None
            s.I.stubs['pretty_str'] = lambda I, st, args, kw: Opq('str')
            before = {k: frozen(s, v) for k, v in s.attrs(a).items()}
            r = s.fn(HELP, 'compare_kf', a, b, **({} if log is None else dict(log=log)))
            if not L.runs(('C36', 'C34'), 'compare_kf runs', s, r):
                return
            want = sorted(w.split()[0] for w in which)
            if isinstance(r.val, Con) and r.val.v is None:
                got = []
            elif isinstance(r.val, Lst):
                got = sorted(getattr(g[1], 'v', '?') for g in s.st.heap[r.val.loc].segs)
            else:
                got = None
            L.true(('C36',), 'differences are reported exactly', s, None if got is None else got == want, 'reports %s, expected %s' % (got, want))
            if not which:
                L.true(('C36',), 'equal filters compare as None', s, isinstance(r.val, Con) and r.val.v is None, 'returns %r' % (r.val,))
            after = {k: frozen(s, v) for k, v in s.attrs(a).items()}
            L.true(('C36', 'C06'), 'comparing changes nothing', s, not [k for k in before if same_frozen(before[k], after[k]) is not True], 'an attribute changed')
        L.guarded('compare_kf', go)
    for which in ((), ('x',), ('P',), ('dt',), ('text',), ('x shape',), ('hx',), ('none',), ('x', 'dt', 'text'), ('P', 'none', 'hx')):
        comparing(which, False)
    comparing(('x',), True)
    comparing((), None)


SUITES = [suite_saver, suite_repr, suite_pretty, suite_states]
suite_pretty.tags = ('C33', 'C06', 'C34')
suite_saver.tags = ('C29', 'C34', 'C06', 'C35')
suite_repr.tags = ('C33', 'C06', 'C34')
suite_states.tags = ('C36', 'C34', 'C06')
