"""Shared obligations."""
from ..lab import *      # noqa
from .. import algebra as A
from ..npmodel import mvn_logpdf


def SymP(name, n):
    """symmetric matrix symbol"""
    return Sym(name, n, n, sym=True)


def numsym(self, name):
    return Num(A.sym(name))


S.num = numsym


def base_model(s, o, n, m, l, B=False, attrs=('x', 'P', 'F', 'Q', 'H', 'R')):
    vals = dict(x=Sym('x', n, 1), P=SymP('P', n), F=Sym('F', n, n), Q=SymP('Q', n), H=Sym('H', m, n), R=SymP('R', m))
    for k in attrs:
        r = s.assign(o, k, s.arr(vals[k]))
        if not r.ok:
            raise Broken('assignment to %s fails' % k, r)
    if B:
        s.assign(o, 'B', s.arr(Sym('B', n, l)))


def pair(s, v, n):
    it = s.I.iter_of(s.st, v)
    if not it.count.is_const() or it.count.c != n:
        raise Imprecise('result with %r parts' % it.count)
    return [it.get(Lin(i)) for i in range(n)]


def tensor(s, o, attr):
    return M(s.ten(s.get(o, attr)))


def column(s, o, attr, m):
    t = s.ten(s.get(o, attr))
    return M(A.reshape(t, (lin(m), Lin(1))))


def snap(s, o):
    """contents of every attribute"""
    out = {}
    for k, v in s.attrs(o).items():
        out[k] = (v, content(s, v))
    return out


def record_shapes(L, s, o, before, names=('z', 'y', 'K', 'S', 'SI')):
    """what an update without measurement records has the shape of a regular record"""
    if not L.want('C05', 'C11'):
        return
    for k in names:
        v = s.attrs(o).get(k)
        if k in before and isinstance(v, Arr) and isinstance(before[k][0], Arr):
            try:
                got, want = s.ten(v).shape, before[k][1].shape
            except Imprecise:
                continue
            L.true(('C05', 'C11'), 'missing measurement: shape of %s' % k, s, tuple(got) == tuple(want), '%s has shape %s, otherwise %s' % (k, got, want), s.where(o, k))


def content(s, v, depth=0):
    if isinstance(v, (Arr, Lst, Dct, Obj)):
        c = s.st.heap[v.loc]
        if isinstance(c, ArrC):
            return c.ten
        if depth < 3:
            if isinstance(c, ObjC):
                return (c.cls, {k: content(s, x, depth + 1) for k, x in c.attrs.items()})
            if isinstance(c, ListC):
                return [content(s, x[1], depth + 1) if x[0] == 'v' else x for x in c.segs]
        return c
    return v


def same_content(a, b):
    """True / False / None"""
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    if isinstance(a, Ten) and isinstance(b, Ten):
        if a is b or a == b:
            return True
        if a.shape != b.shape:
            return False
        try:
            return same(a, b)[0] == 'ok'
        except Imprecise:
            return None
    if isinstance(a, Val) and isinstance(b, Val):
        if X.same_val(a, b):
            return True
        if isinstance(a, Num) and isinstance(b, Num):
            return same(A.scalar(a.p), A.scalar(b.p))[0] == 'ok'
        if isinstance(a, (Phi, Opq)) or isinstance(b, (Phi, Opq)):
            return None
        return False
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        rs = [same_content(x, y) for x, y in zip(a, b)]
        return False if False in rs else (None if None in rs else True)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and isinstance(a[1], dict) and isinstance(b[1], dict):
        rs = [same_content(a[1][k], b[1][k]) if k in a[1] and k in b[1] else False for k in set(a[1]) | set(b[1])]
        return False if False in rs else (None if None in rs else True)
    if a is b:
        return True
    if isinstance(a, (ListC, DictC, ObjC)) and isinstance(b, (ListC, DictC, ObjC)):
        return True if a.same(b) else None
    return None


def describe(c):
    return show(c) if isinstance(c, Ten) else repr(c)


def same_attrs(L, tags, label, s, o, before, names):
    if not L.want(*tags):
        return
    bad = []
    unk = False
    for k in names:
        if k not in before:
            continue
        v = s.raw(o, k)
        r = same_content(content(s, v), before[k][1]) if v is not UNDEF else False
        if r is False:
            w = s.where(o, k)
            bad.append('%s is now %s, was %s' % (k, describe(content(s, v)), describe(before[k][1])))
        if r is None:
            unk = True
    if bad:
        L.add('violation', label, s.ctx, L.wtext(s, w), '; '.join(bad), 'unchanged')
    else:
        L.add('undecided' if unk else 'ok', label, s.ctx, L.wtext(s, s.where()), 'not determined' if unk else '', 'unchanged')


def pure(L, tags, label, s, o, before, except_=()):
    """no attribute of o changed (caches of lazily computed values may fill)"""
    if not L.want(*tags):
        return
    names = [k for k in before if k not in except_ and not (k.startswith('_') and is_none(before[k][0]))]
    same_attrs(L, tags, label, s, o, before, names)


def is_none(v):
    return isinstance(v, Con) and v.v is None


def symmetric(L, tags, label, s, o, attr, val=None):
    if not L.want(*tags):
        return
    wt = L.wtext(s, s.where(o, attr))
    try:
        t = s.ten(s.get(o, attr)) if val is None else (val.t if isinstance(val, M) else s.ten(val))
        if t.rank != 2 or t.shape[0] != t.shape[1]:
            L.add('violation', label, s.ctx, wt, 'not a square matrix: %s' % (t.shape,), 'symmetric')
            return
        st, det, meth = same(t, A.transpose(t))
        L.add(st, label, s.ctx, wt, '%s is not symmetric: %s' % (attr, det) if st == 'violation' else det, meth)
    except Imprecise as e:
        L.add('undecided', label, s.ctx, wt, str(e), 'symmetric')
    except AbsRaise as e:
        L.add('violation', label, s.ctx, wt, 'raises %s' % e.kind, 'symmetric')


def independent(L, tags, label, s, o, pairs):
    """snapshot arrays do not share storage with live arrays: assigning into
    the live array leaves the snapshot's content"""
    if not L.want(*tags):
        return
    bad = []
    for a, b in pairs:
        va, vb = s.raw(o, a), s.raw(o, b)
        la = set(x.loc for x in X.phi_arrs(va))
        lb = set(x.loc for x in X.phi_arrs(vb))
        if la & lb:
            bad.append('%s and %s are the same array' % (a, b))
    L.add('violation' if bad else 'ok', label, s.ctx, L.wtext(s, s.where(o, pairs[0][1])), '; '.join(bad), 'no-alias')


def freeze_all(s, o, skip=()):
    """mark the arrays currently held by the object as supplied by the caller"""
    for k, v in s.attrs(o).items():
        if isinstance(v, Arr):
            c = s.st.heap[v.loc]
            if isinstance(c, ArrC) and k not in skip and k in ('x', 'P', 'F', 'Q', 'H', 'R', 'B', 'M'):
                s.st.heap[v.loc] = ArrC(c.ten, 'param attribute %s' % k)


def no_mutation(L, s, tags=('C06',)):
    if not L.want(*tags):
        return
    ev = [e for e in s.I.events if e.kind == 'mutate']
    if ev:
        e = ev[0]
        L.add('violation', 'caller arrays are not modified', s.ctx, '%s %s' % (e.where, e.func.qual if e.func else ''),
              'in-place modification of the array supplied as %s' % ', '.join(sorted(set(x.detail[6:] for x in ev))), 'no-mutation')
    else:
        L.add('ok', 'caller arrays are not modified', s.ctx, L.wtext(s, s.where()), '', 'no-mutation')


def symbolise(s, o, names):
    """replace array attributes by symbols of the same shape"""
    for k in names:
        v = s.raw(o, k)
        if isinstance(v, Arr):
            t = s.ten(v)
            s.put(o, k, s.arr(Sym('attr_' + k, *t.shape)))


def gauss_ll(y, S_):
    """log N(y; 0, S)"""
    yv = A.reshape(y.t, (y.t.shape[0],)) if y.t.rank == 2 else y.t
    return M(A.scalar(mvn_logpdf(yv, A.const_ten(yv.shape), S_.t)))


def diagnostics(L, s, o, y, S_, what, SI=None, names=('log_likelihood', 'likelihood', 'mahalanobis')):
    if not L.want('C08'):
        return
    ll = gauss_ll(y, S_)
    if 'log_likelihood' in names:
        L.eq(('C08',), '%s: log_likelihood' % what, s, lambda: s.get(o, 'log_likelihood'), ll, o, 'log_likelihood')
    if 'likelihood' in names:
        L.eq(('C08',), '%s: likelihood' % what, s, lambda: s.get(o, 'likelihood'), floor_likelihood(ll), o, 'likelihood')
    if 'mahalanobis' in names:
        SI = SI or S_.inv
        L.eq(('C08',), '%s: mahalanobis' % what, s, lambda: s.get(o, 'mahalanobis'), M(A.scalar(A.power((y.T @ SI @ y).p, A.Fr(1, 2)))), o, 'mahalanobis')


def floor_likelihood(ll):
    e = A.apply1('exp', ll.p)
    z = A.ind('=', e)
    return M(A.scalar(z * A.sym('float_min') + (A.P1 - z) * e))
