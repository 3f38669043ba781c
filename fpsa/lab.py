"""Obligations: abstract objects in symbolic contexts, compared with reference
terms."""
import os
import time
import traceback
from .values import *      # noqa
from . import algebra as A
from . import interp as X
from . import hashval
from . import dtypes
from .interp import Interp, AbsRaise, UNDEF

HARD = ('shape', 'name', 'attr', 'none', 'type', 'index', 'call', 'zerodiv', 'truth')


class M(object):
    """reference expressions: matrices with operators"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return M(A.add(self.t, mt(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return M(A.sub(self.t, mt(o)))

    def __rsub__(self, o):
        return M(A.sub(mt(o), self.t))

    def __mul__(self, o):
        return M(A.mul(self.t, mt(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return M(A.div(self.t, mt(o)))

    def __rtruediv__(self, o):
        return M(A.div(mt(o), self.t))

    def __matmul__(self, o):
        return M(A.dot(self.t, mt(o)))

    def __neg__(self):
        return M(A.neg(self.t))

    def __pow__(self, e):
        return M(A.elementwise(lambda x: A.power(x, e), self.t))

    @property
    def T(self):
        return M(A.transpose(self.t))

    @property
    def inv(self):
        return M(A.inv_ten(self.t))

    @property
    def shape(self):
        return self.t.shape

    @property
    def p(self):
        return self.t.entry()

    def row(self, i, axis=0):
        return M(A.index_axis(self.t, axis, lin(i)))

    def reshape(self, *sh):
        return M(A.reshape(self.t, tuple(lin(s) for s in sh)))

    def sum(self, axis=0):
        return M(A.reduce_sum(self.t, axis))


def mt(o):
    if isinstance(o, M):
        return o.t
    if isinstance(o, Ten):
        return o
    return A.scalar(A.poly(o))


def Sym(name, *shape, **kw):
    return M(A.sym_ten(name, tuple(lin(s) for s in shape), kw.get('sym', False)))


def Eye(n):
    return M(A.eye_ten(lin(n)))


def Zeros(*sh):
    return M(A.const_ten(tuple(lin(s) for s in sh)))


def Full(v, *sh):
    return M(A.const_ten(tuple(lin(s) for s in sh), v))


def einsum(spec, *ms):
    i, o = spec.split('->')
    return M(A.einsum(i.split(','), o, *[mt(m) for m in ms]))


def outer(a, b):
    return M(A.outer(mt(a), mt(b)))


def app(name, args, shape, symm=False):
    from . import npmodel
    return M(npmodel.app_ten(name, tuple(mt(a) if isinstance(a, M) else a for a in args), tuple(lin(s) for s in shape), symm))


class Res(object):
    def __init__(self, val=None, raised=None, why=None):
        self.val = val
        self.raised = raised
        self.why = why

    @property
    def ok(self):
        return self.raised is None and self.why is None


class S(object):
    """one analysis session (abstract heap) in one context"""

    def __init__(self, lab, ctx=''):
        self.lab = lab
        self.ctx = ctx
        self.I = Interp(lab.prog)
        self.st = State()
        self.entry = None
        lab.sessions.append(self)

    # values
    def val(self, x):
        if isinstance(x, Val):
            return x
        if x is None or isinstance(x, (bool, str)):
            return Con(x)
        if isinstance(x, Lin):
            return Num(A.from_lin(x), True)
        if isinstance(x, int):
            return Num(x, True)
        if isinstance(x, (float, Fr, Poly)):
            return Num(x)
        if isinstance(x, M):
            return self.I.mk(self.st, x.t)
        if isinstance(x, Ten):
            return self.I.mk(self.st, x)
        if isinstance(x, tuple):
            return Tup([self.val(y) for y in x])
        if isinstance(x, list):
            return self.st.lst([self.val(y) for y in x])
        raise Imprecise('value %r' % (x,))

    def arr(self, m, prov=None):
        v = self.st.arr(mt(m), prov)
        if self.lab.intargs:
            dtypes.given(self.I, v, mt(m))
        return v

    def sym(self, name, *shape, **kw):
        return self.arr(Sym(name, *shape, **{k: v for k, v in kw.items() if k != 'prov'}), kw.get('prov'))

    def listof(self, count, f, prov=None):
        """list of symbolic length: element i is f(i) (M, or None)"""
        nv = ('l', 'in%d' % next(A._tmpc), count)
        t = f(A.lvar(nv)).t
        return Lst(self.st.new(ListC([('r', count, nv, ('T', t) if t.rank else ('N', t.cells[()], False))], prov)))

    def ufn(self, name, shape, record=None, kwonly=False):
        """caller-supplied function with results of the given shape; its value
        depends on all its arguments"""
        shape = None if shape is None else tuple(lin(s) for s in shape)

        def spec(I, st, args, kw):
            fz = self.freeze_args(st, args, kw)
            if record is not None:
                record.append((args, kw, fz))
            from . import npmodel
            # shape None: an elementwise function, result like its arguments
            sh = shape if shape is not None else I.to_ten(st, args[0]).shape
            return dtypes.mark(I, I.mk(st, npmodel.app_ten('u:' + name, fz, sh)), frozenset(['u:' + name]) if self.lab.intargs and name != 'sigma_points' else None)
        return UFn(name, spec)

    def freeze_args(self, st, args, kw):
        from . import npmodel
        out = [npmodel.freeze(self.I, st, a) for a in args]
        for k in sorted(kw):
            if k == '**':
                out.append(('**', npmodel.freeze(self.I, st, kw[k])))
            else:
                out.append((k, npmodel.freeze(self.I, st, kw[k])))
        return tuple(out)

    def u(self, name, shape, *args):
        """reference value of a caller-supplied function"""
        fz = []
        for a in args:
            if isinstance(a, M):
                fz.append(a.t.cells[()] if a.t.rank == 0 else A.strong_ten(a.t))
            elif isinstance(a, (Poly,)):
                fz.append(a)
            elif isinstance(a, Lin):
                fz.append(A.from_lin(a))
            elif isinstance(a, (int, float)):
                fz.append(A.poly(a))
            else:
                fz.append(a)
        from . import npmodel
        return M(npmodel.app_ten('u:' + name, tuple(fz), tuple(lin(s) for s in shape)))

    # objects and calls
    def make(self, mod, cls, *a, **kw):
        info = self.lab.prog.cls(mod, cls)
        self.entry = info.find('methods', '__init__') or None
        r = self.guard(lambda: self.I.instantiate(self.st, info, [self.val(x) for x in a], {k: self.val(v) for k, v in kw.items()}))
        if not r.ok:
            raise Broken('%s.__init__ %s' % (cls, r.raised or r.why), r, self.entry)
        return r.val

    def guard(self, f):
        n0 = len(self.I.events)
        try:
            r = Res(f())
        except AbsRaise as e:
            r = Res(None, raised=e.kind)
        except A.ShapeError as e:
            r = Res(None, raised='ValueError')
            self.I.event('shape', str(e), self.st)
        except Imprecise as e:
            r = Res(None, why=str(e))
        except RecursionError:
            r = Res(None, why='recursion')
        r.events = self.I.events[n0:]
        return r

    def call(self, o, name, *a, **kw):
        def f():
            m = self.I.getattr(self.st, o, name)
            if isinstance(m, Fn):
                self.entry = m.info
            return self.I.call(self.st, m, [self.val(x) for x in a], {k: self.val(v) for k, v in kw.items()})
        r = self.guard(f)
        r.info = self.entry
        return r

    def fn(self, mod, name, *a, **kw):
        info = self.lab.prog.func(mod, name)
        self.entry = info
        r = self.guard(lambda: self.I.call(self.st, Fn(info), [self.val(x) for x in a], {k: self.val(v) for k, v in kw.items()}))
        r.info = info
        return r

    def item(self, v, i):
        """element i of a result"""
        t = self.ten(v)
        if t.rank == 0:
            raise AbsRaise('IndexError', 'a number where an array is expected')
        if t.shape[0].is_const() and not -t.shape[0].c <= i < t.shape[0].c:
            raise AbsRaise('IndexError', 'element %d of an array of length %s' % (i, t.shape[0]))
        return M(A.index_axis(t, 0, Lin(i)))

    def ref(self, name, *a, **kw):
        """reference program (fpsa/specs/reference.py), analysed like the code"""
        m = self.lab.prog.extra('reference', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs', 'reference.py'))
        info = m.funcs[name]
        r = self.guard(lambda: self.I.call(self.st, Fn(info), [self.val(x) for x in a], {k: self.val(v) for k, v in kw.items()}))
        if not r.ok:
            raise Imprecise('reference %s: %s' % (name, r.why or [str(e) for e in r.events][-2:]))
        return r.val

    def attrs(self, o):
        return self.st.heap[o.loc].attrs

    def raw(self, o, name):
        return self.attrs(o).get(name, UNDEF)

    def put(self, o, name, v):
        """set an attribute directly (no property setter)"""
        c = self.st.heap[o.loc]
        at = dict(c.attrs)
        at[name] = self.val(v)
        if self.lab.intargs and name in dtypes.COMPUTED and isinstance(v, Arr):
            self.I.intlocs.pop(v.loc, None)
        self.st.heap[o.loc] = ObjC(c.cls, at, c.prov)

    def assign(self, o, name, v):
        return self.guard(lambda: self.I.setattr(self.st, o, name, self.val(v)))

    def get(self, o, name):
        return self.I.getattr(self.st, o, name)

    def ten(self, v):
        return self.I.to_ten(self.st, v)

    def where(self, o=None, attr=None):
        w = None
        if o is not None and attr is not None:
            w = self.I.lastset.get((o.loc, attr))
        if w is None and self.entry is not None:
            w = (self.entry, self.entry.node.lineno)
        return w


class Broken(Exception):
    def __init__(self, msg, res=None, info=None):
        Exception.__init__(self, msg)
        self.res = res
        self.info = info


class Lab(object):
    def __init__(self, root, prop, tier='quick'):
        self.prog = Program(root)
        self.prop = prop
        self.intargs = prop == 'C40'   # every array handed in may hold integers
        self.tier = tier
        self.obs = []
        self.sessions = []
        self.funcs = set()
        self.t0 = time.time()

    def want(self, *tags):
        if self.intargs:
            return 'C34' in tags
        return self.prop in tags

    def session(self, ctx=''):
        return S(self, ctx)

    # ------------------------------------------------------------- recording
    def add(self, status, label, ctx='', where='', detail='', rule='', key=None):
        self.obs.append({'status': status, 'label': label, 'ctx': ctx, 'where': where, 'detail': detail, 'rule': rule,
                         'key': key or '%s|%s' % (label, ctx)})

    def wtext(self, s, w):
        if w is None:
            return ''
        info, line = w
        if info is None:
            return ''
        return '%s:%d %s' % (info.mod.rel, line, info.qual)

    def eq(self, tags, label, s, got, want, o=None, attr=None, where=None, pos=()):
        """got (Val | callable | None for o.attr) equals reference term want"""
        if not self.want(*tags):
            return
        w = where or s.where(o, attr)
        wt = self.wtext(s, w)
        try:
            if callable(got) and not isinstance(got, Val):
                got = got()
            if got is None and o is not None:
                got = s.get(o, attr)
            w = where or s.where(o, attr)
            wt = self.wtext(s, w)
            if isinstance(got, (Lst, Tup)) and attr is not None and not callable(want) and mt(want).shape:
                self.add('violation', label, s.ctx, wt, 'value is a %s, not an array' % ('list' if isinstance(got, Lst) else 'tuple'), 'value')
                return
            if isinstance(got, M):
                gt = got.t
            elif isinstance(got, Ten):
                gt = got
            elif isinstance(got, Con) and got.v is None:
                self.add('violation', label, s.ctx, wt, 'value is None, expected %s' % show(mt(want)), 'value')
                return
            elif isinstance(got, (Con, Opq, Fn, Ext, UFn)) and not (isinstance(got, Con) and isinstance(got.v, bool)):
                self.add('undecided', label, s.ctx, wt, 'value is %r' % (got,), 'value')
                return
            else:
                gt = s.ten(got)
            if callable(want):
                want = want()
            wv = mt(want)
            st, det, meth = same(gt, wv, pos)
        except Imprecise as e:
            st, det, meth = 'undecided', str(e), ''
        except AbsRaise as e:
            st, det, meth = 'violation', 'evaluation raises %s: %s' % (e.kind, e.msg), ''
        self.add(st, label, s.ctx, wt, det, meth or 'value')

    def none(self, tags, label, s, got, o=None, attr=None):
        """value is None"""
        if not self.want(*tags):
            return
        wt = self.wtext(s, s.where(o, attr))
        try:
            if got is None:
                got = s.get(o, attr)
            if isinstance(got, Con) and got.v is None:
                self.add('ok', label, s.ctx, wt, '', 'none')
                return
            if isinstance(got, Top) or isinstance(got, Phi) or isinstance(got, Opq):
                self.add('undecided', label, s.ctx, wt, repr(got), 'none')
                return
            t = s.ten(got)
            if all(p == A.sym('NONE') for p in t.cells.values()):
                self.add('ok', label, s.ctx, wt, '', 'none')
            else:
                self.add('violation', label, s.ctx, wt, 'value is %s, expected None' % show(t), 'none')
        except Imprecise as e:
            self.add('undecided', label, s.ctx, wt, str(e), 'none')
        except AbsRaise as e:
            self.add('violation', label, s.ctx, wt, 'evaluation raises %s' % e.kind, 'none')

    def true(self, tags, label, s, cond, detail='', where=None, rule='rule'):
        if not self.want(*tags):
            return
        wt = where if isinstance(where, str) else self.wtext(s, where or (s.where() if s else None))
        st = 'undecided' if cond is None else ('ok' if cond else 'violation')
        self.add(st, label, s.ctx if s else '', wt, '' if cond else detail, rule)

    def runs(self, tags, label, s, r, expect=None):
        """a call completes (or raises the expected exception)"""
        if not self.want(*tags):
            return r.ok
        wt = self.wtext(s, s.where())
        if r.why is not None:
            self.add('undecided', label, s.ctx, wt, r.why, 'runs')
            return False
        if expect is None:
            hard = [e for e in r.events if e.kind in HARD]
            if r.raised is not None:
                ev = [e for e in r.events if e.kind in HARD + ('raise',)]
                d = '; '.join('%s at %s (%s): %s' % (e.kind, e.where, e.func.qual if e.func else '', e.detail) for e in ev[-2:])
                self.add('violation', label, s.ctx, ev[-1].where + ' ' + (ev[-1].func.qual if ev[-1].func else '') if ev else wt,
                         'raises %s: %s' % (r.raised, d), 'runs')
                return False
            self.add('ok', label, s.ctx, wt, '', 'runs')
            return True
        if r.raised is not None and (expect is True or r.raised in expect):
            self.add('ok', label, s.ctx, wt, '', 'raises')
            return True
        self.add('violation', label, s.ctx, wt, ('raises %s' % r.raised) if r.raised else 'accepted, expected %s' % (expect,), 'raises')
        return False

    def storage(self, fname):
        '''one obligation per store into an array of integer type met in this suite'''
        self.obs = [o for o in self.obs if o['status'] == 'anchor']
        bad = {}
        for s in self.sessions:
            ev = [e for e in s.I.events if e.kind == 'dtype' and e.func and e.func.mod.rel.startswith('filterpy')]
            for e in ev:
                bad.setdefault((e.where, e.func.qual if e.func else ''), (s.ctx, e.detail))
            if not ev and s.I.funcs_seen:
                self.add('ok', 'no fraction is stored in integer storage', s.ctx, '', '', 'storage type')
        for (w, q), (ctx, d) in sorted(bad.items()):
            self.add('violation', 'no fraction is stored in integer storage', ctx, '%s %s' % (w, q), d, 'storage type')

    def guarded(self, label, f):
        """run a suite part; analyser failures are undecided obligations"""
        try:
            f()
        except AnchorMissing as e:
            self.add('anchor', label, '', '', 'not found: %s' % e, 'anchor')
        except Broken as e:
            if e.res is not None and e.res.raised:
                ev = [x for x in e.res.events if x.kind in HARD + ('raise',)]
                self.add('violation', label, '', (ev[-1].where + ' ' + ev[-1].func.qual) if ev and ev[-1].func else '',
                         'constructor fails on valid arguments: %s %s' % (e, ev[-1].detail if ev else ''), 'constructs')
            else:
                self.add('undecided', label, '', '', str(e), 'constructs')
        except (Imprecise,) as e:
            self.add('undecided', label, '', '', 'imprecise: %s' % e, '')
        except AbsRaise as e:
            self.add('undecided', label, '', '', 'unexpected %s' % e.kind, '')
        except A.ShapeError as e:
            self.add('undecided', label, '', '', 'reference: %s' % e, '')
        except RecursionError:
            self.add('undecided', label, '', '', 'recursion', '')
        except Exception:
            if os.environ.get('FPSA_DEBUG'):
                raise
            self.add('undecided', label, '', '', 'analyser: ' + traceback.format_exc().splitlines()[-1], '')


def show(t):
    try:
        r = A.show_ten(t) if isinstance(t, Ten) else A.show(t)
    except Exception:
        r = '<term>'
    return r if len(r) < 500 else r[:500] + '...'


def same(gt, wv, pos=()):
    """(status, detail, method)"""
    if gt.shape != wv.shape:
        sa = '(%s)' % ', '.join(map(repr, gt.shape))
        sb = '(%s)' % ', '.join(map(repr, wv.shape))
        return 'violation', 'shape %s, expected %s' % (sa, sb), 'shape'
    diffs = None
    try:
        diffs = A.ten_diff(gt, wv)
        if not diffs:
            return 'ok', '', 'normal-form'
    except Imprecise:
        diffs = None
    r = hashval.compare(gt, wv, pos=pos)
    if r == 'equal':
        return 'ok', '', 'algebraic-hash'
    if r == 'unknown':
        return 'undecided', 'terms differ syntactically; no hash value', 'algebraic-hash'
    return 'violation', 'computes %s, expected %s (difference at entry %s: %.6g vs %.6g for sizes %s)' % (
        show(gt), show(wv), r[1], r[2], r[3], r[4]), 'normal-form+hash'
