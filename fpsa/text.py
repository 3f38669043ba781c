"""Abstract strings: a text is a constant or a sequence of constant and symbolic pieces.

Symbolic pieces: Opq('of', (value,)) is str(value), Opq('repl', (old, new, pieces)) a replaced text,
Opq('row', (piece, i)) one line of a printed array; any other opaque string stands for itself.
"""
from .values import *       # noqa


def isstr(v):
    return isinstance(v, Con) and isinstance(v.v, str) or isinstance(v, Opq) and v.name == 'str'


def pieces(v):
    if isinstance(v, Con):
        return (v.v,)
    if v.args[:1] == ('txt',):
        return v.args[1]
    return (v,)


def make(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return Con('')
    if len(out) == 1 and isinstance(out[0], str):
        return Con(out[0])
    if len(out) == 1 and out[0].name == 'str':
        return out[0]
    return Opq('str', ('txt', tuple(out)))


def cat(vs, sep=''):
    ps = []
    for i, v in enumerate(vs):
        if i and sep:
            ps.append(sep)
        ps += pieces(v)
    return make(ps)


def of(I, st, v):
    """str(v)"""
    if isstr(v):
        return v
    if isinstance(v, Num) and v.isint and v.p.is_const():
        return Con(str(int(v.p.const())))
    if isinstance(v, Con):
        return Con(str(v.v))
    if isinstance(v, Lst) and not st.heap[v.loc].segs:
        return Con('[]')
    if isinstance(v, Tup) and not v.items:
        return Con('()')
    if isinstance(v, Arr):
        try:
            v = I.to_ten(st, v)
        except Imprecise:
            return Opq('str')
    elif not isinstance(v, Num):
        return Opq('str')
    return make((Opq('of', (v,)),))


def replace(v, old, new):
    ps = pieces(v)
    if all(isinstance(p, str) for p in ps):
        return Con(''.join(ps).replace(old, new))
    if len(old) != 1:
        return Opq('str')
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(p.replace(old, new))
        elif p.name == 'of' and isinstance(p.args[0], Num) and old == '\n':
            out.append(p)
        else:
            out.append(Opq('repl', (old, new, p)))
    return make(out)


def lines(v):
    """split at newlines, where the number of lines is known (None otherwise)"""
    out, cur = [], []
    for p in pieces(v):
        if isinstance(p, str):
            q = p.split('\n')
            cur.append(q[0])
            for x in q[1:]:
                out.append(cur)
                cur = [x]
        elif p.name == 'of' and isinstance(p.args[0], Num):
            cur.append(p)
        elif p.name == 'of' and len(p.args[0].shape) <= 2 and all(d.is_const() and 0 < d.c <= 3 for d in p.args[0].shape):
            shape = p.args[0].shape
            k = int(shape[0].c) if len(shape) == 2 else 1
            if k == 1:
                cur.append(p)
                continue
            for i in range(k):
                if i:
                    out.append(cur)
                    cur = []
                cur.append(Opq('row', (p, i)))
        elif p.name == 'repl' and p.args[0] == '\n' and '\n' not in p.args[1]:
            cur.append(p)
        else:
            return None
    out.append(cur)
    return [make(x) for x in out]


def same(a, b, eq):
    """equality of two texts; eq compares printed values"""
    pa, pb = pieces(a), pieces(b)
    if len(pa) != len(pb):
        return None if any(not isinstance(p, str) and p.name == 'str' for p in pa + pb) else False
    res = True
    for p, q in zip(pa, pb):
        r = piece(p, q, eq)
        if r is False:
            return None if any(not isinstance(x, str) and x.name == 'str' for x in pa + pb) else False
        if r is None:
            res = None
    return res


def piece(p, q, eq):
    if isinstance(p, str) or isinstance(q, str):
        if isinstance(p, str) and isinstance(q, str):
            return p == q
        return None if (p if isinstance(q, str) else q).name == 'str' else False
    if p.name == 'str' or q.name == 'str':
        return True if p is q else None
    if p.name != q.name:
        return False
    if p.name == 'of':
        return eq(p.args[0], q.args[0])
    if p.name == 'repl':
        return p.args[:2] == q.args[:2] and piece(p.args[2], q.args[2], eq)
    return p.args[1] == q.args[1] and piece(p.args[0], q.args[0], eq)


def show(v):
    def one(p):
        if isinstance(p, str):
            return repr(p)
        if p.name == 'of':
            return 'str(%s)' % (p.args[0],)
        if p.name == 'repl':
            return '%s.replace(%r, %r)' % (one(p.args[2]), p.args[0], p.args[1])
        if p.name == 'row':
            return 'line %d of %s' % (p.args[1], one(p.args[0]))
        return '<text>'
    return ' + '.join(one(p) for p in pieces(v))
