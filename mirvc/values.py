"""Value domain of the symbolic executor (immutable values)."""
import z3
from terms import *

INF = object()


class Val:
    pass


class Unit(Val):
    pass


class Poison(Val):
    """uninitialised / moved-out / not summarised; reading it is refused."""
    def __init__(self, why='uninit'):
        self.why = why


class Absent(Poison):
    """element outside the domain of a collection: never observable, so any value may stand for it."""


class Uninit(Val):
    """MaybeUninit memory without a valid value; observable only through unsafe code."""


class Gone(Uninit):
    """a place whose owned value was duplicated by ptr::read: using or dropping it would use the value twice"""


class Tup(Val):
    def __init__(self, items):
        self.items = list(items)


class Adt(Val):
    def __init__(self, name, variant, fields, names=None):
        self.name, self.variant, self.fields, self.names = name, variant, list(fields), names

    def __repr__(self):
        return 'Adt(%s::%s %r)' % (self.name, self.variant, self.fields)


class Alt(Val):
    """guarded alternatives of an enum value: [(guard, Adt)], guards exclusive and exhaustive."""
    def __init__(self, name, alts):
        self.name, self.alts = name, alts


class Arr(Val):
    """sequence: Vec, slice, Array1, view contents. get: index term -> value.
    std: condition under which memory order is logical order (ndarray only)."""
    def __init__(self, n, get, std=TRUE, kind='vec', base=None, writes=()):
        self.n, self._get, self.std, self.kind = n, get, std, kind
        self.base, self.writes = base, tuple(writes)
        self._c = {}

    def get(self, i):
        k = i.get_id()
        if k not in self._c:
            v = self._raw(i)
            self._c[k] = (i, v)
        return self._c[k][1]

    def _raw(self, i):
        if self._get is not None:
            return self._get(i)
        v = self.base.get(i)
        for g, w, x in self.writes:
            c = z3.simplify(And(g, w == i))
            v = vite(c, x, v)
        return v

    def set(self, i, v, g=TRUE):
        b = self.base if self._get is None else self
        return Arr(self.n, None, self.std, self.kind, b, (self.writes if self._get is None else ()) + ((g, i, v),))

    def with_n(self, n):
        if self._get is None:
            return Arr(n, None, self.std, self.kind, self.base, self.writes)
        return Arr(n, self._get, self.std, self.kind)

    def log(self, base):
        """writes relative to `base`, or None."""
        if same_base(self, base):
            return ()
        if self._get is None and same_base(self.base, base):
            return self.writes
        if self._get is None:
            l = self.base.log(base)
            return None if l is None else l + self.writes
        return None


class Mat(Val):
    """2-d array; updated column by column (write log of columns)."""
    def __init__(self, nr, nc, get, std=TRUE, base=None, writes=()):
        self.nr, self.nc, self._get, self.std = nr, nc, get, std
        self.base, self.writes = base, tuple(writes)

    def get(self, i, j):
        if self._get is not None:
            return self._get(i, j)
        return self.col(j).get(i)

    def col(self, j):
        if self._get is not None:
            g = self._get
            return Arr(self.nr, lambda i: g(i, j), FALSE, 'nd1')
        v = self.base.col(j)
        for g, w, x in self.writes:
            c = z3.simplify(And(g, w == j))
            v = x if is_true(c) else v if is_false(c) else Arr(self.nr, lambda i, c=c, x=x, v=v: vite(c, x.get(i), v.get(i)), FALSE, 'nd1')
        return v

    def row(self, i):
        return Arr(self.nc, lambda j: self.get(i, j), FALSE, 'nd1')

    def setcol(self, j, arr, g=TRUE):
        b = self.base if self._get is None else self
        return Mat(self.nr, self.nc, None, self.std, b, (self.writes if self._get is None else ()) + ((g, j, arr),))

    def set(self, i, j, v):
        return self.setcol(j, self.col(j).set(i, v))

    def log(self, base):
        if same_base(self, base):
            return ()
        if self._get is None and same_base(self.base, base):
            return self.writes
        if self._get is None:
            l = self.base.log(base)
            return None if l is None else l + self.writes
        return None


class MapV(Val):
    """map from Int keys: dom(k) -> Bool, val(k) -> value; size term optional."""
    def __init__(self, dom, val, base=None, writes=(), kind='map'):
        self._dom, self._val, self.base, self.writes, self.kind = dom, val, base, tuple(writes), kind
        self._cd, self._cv = {}, {}

    def dom(self, k):
        i = k.get_id()
        if i not in self._cd:
            if self._dom is not None:
                d = self._dom(k)
            else:
                d = self.base.dom(k)
                for g, w, x in self.writes:
                    c = And(g, w == k)
                    d = z3.simplify(And(d, Not(c)) if x is None else Or(d, c))
            self._cd[i] = (k, d)
        return self._cd[i][1]

    def val(self, k):
        i = k.get_id()
        if i not in self._cv:
            if self._val is not None:
                v = self._val(k)
            else:
                v = self.base.val(k)
                for g, w, x in self.writes:
                    if x is None:
                        continue
                    v = vite(z3.simplify(And(g, w == k)), x, v)
            self._cv[i] = (k, v)
        return self._cv[i][1]

    def _w(self, g, k, v):
        if self._dom is None:
            return MapV(None, None, self.base, self.writes + ((g, k, v),), self.kind)
        return MapV(None, None, self, ((g, k, v),), self.kind)

    def insert(self, k, v, g=TRUE):
        return self._w(g, k, v)

    def remove(self, k, g=TRUE):
        return self._w(g, k, None)

    def log(self, base):
        if self is base:
            return ()
        if self._dom is None and self.base is base:
            return self.writes
        if self._dom is None:
            l = self.base.log(base)
            return None if l is None else l + self.writes
        return None

    def size(self):
        p = fresh('k', I)
        return bcount(p, self.dom(p))


class Ref(Val):
    def __init__(self, cell, proj=(), mut=True):
        self.cell, self.proj = cell, tuple(proj)

    def ext(self, *s):
        return Ref(self.cell, self.proj + tuple(s))

    def __repr__(self):
        return 'Ref(%s%s)' % (self.cell, list(self.proj))


class ValRef(Val):
    """shared reference to an immutable snapshot."""
    def __init__(self, v):
        self.v = v


class MutView(Val):
    """ndarray ViewRepr<&mut>: by-value handle writing through."""
    def __init__(self, ref):
        self.ref = ref


class Clos(Val):
    def __init__(self, fn, caps):
        self.fn, self.caps = fn, list(caps)


class FnItem(Val):
    def __init__(self, path):
        self.path = path


class OpaqueFn(Val):
    """user function modelled by an uninterpreted function of its scalar arguments
    (apply: ex, st, args -> (st, value))."""
    def __init__(self, name, apply):
        self.name, self.apply = name, apply


class FnAlt(Val):
    """fn pointer with symbolic choice: apply(args)->value"""
    def __init__(self, term):
        self.term = term


class Opq(Val):
    """opaque value of a generic parameter: a term plus a role."""
    def __init__(self, term, role, aux=None):
        self.term, self.role, self.aux = term, role, aux or {}


class Iter(Val):
    """lazy iterator.
    contig: positions 0..n-1 (start = cursor); elem(ex, st, p) -> (st, value)
    else:   positions are Int tokens with dom(p); phase one of 'init', ('at',p), ('after',p), 'done'
    ordered: False for hash collections."""
    def __init__(self, contig, n, dom, elem, start=None, phase='init', ordered=True, extra=None):
        self.contig, self.n, self._dom, self.elem = contig, n, dom, elem
        self.start = start if start is not None else IntVal(0)
        self.phase, self.ordered = phase, ordered
        self.extra = extra     # mutable state carried by closures: list of values
        self.domst = None

    def dom(self, p):
        if self.contig:
            if self.n is INF:
                return p >= 0
            return And(p >= 0, p < self.n - self.start)
        return self._dom(p)

    def repl(self, **kw):
        d = dict(contig=self.contig, n=self.n, dom=self._dom, elem=self.elem, start=self.start,
                 phase=self.phase, ordered=self.ordered)
        d.update(kw)
        it = Iter(**d)
        it.domst = self.domst
        return it


def same_base(a, b):
    return a is b or (a._get is not None and a._get is b._get)


UNIT = Tup([])


def some(v):
    return Adt('Option', 'Some', [v])


def none():
    return Adt('Option', 'None', [])


def ok(v):
    return Adt('Result', 'Ok', [v])


def err(v):
    return Adt('Result', 'Err', [v])


def opt(c, v):
    """Some(v) if c else None; v may be a thunk."""
    c = z3.simplify(c)
    if is_true(c):
        return some(v() if callable(v) else v)
    if is_false(c):
        return none()
    v = v() if callable(v) else v
    return Alt('Option', [(c, some(v)), (Not(c), none())])


def alts(v):
    if isinstance(v, Adt):
        return [(TRUE, v)]
    if isinstance(v, Alt):
        return v.alts
    raise Unsupported('not an enum value: %r' % (v,))


def mkalt(name, lst):
    """normalise guarded alternatives; alternatives of the same variant are merged."""
    by = {}
    order = []
    for g, a in lst:
        g = z3.simplify(g)
        if is_false(g):
            continue
        if a.variant in by:
            g0, a0 = by[a.variant]
            by[a.variant] = (z3.simplify(Or(g0, g)), Adt(a.name, a.variant, [vite(g, x, y) for x, y in zip(a.fields, a0.fields)], a.names))
        else:
            by[a.variant] = (g, a)
            order.append(a.variant)
    if not order:
        raise Unsupported('value without alternatives')
    if len(order) == 1:
        return by[order[0]][1]
    return Alt(name, [by[v] for v in order])


class MergeFail(Unsupported):
    pass


def vite(c, a, b):
    """value-level if-then-else."""
    if a is b or is_true(c):
        return a
    if is_false(c):
        return b
    if is_expr(a) and is_expr(b):
        if a.sort() != b.sort():
            raise MergeFail('sorts differ')
        return ite(c, a, b)
    if isinstance(a, Absent):
        return b
    if isinstance(b, Absent):
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison('merged with ' + (a.why if isinstance(a, Poison) else b.why))
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        return MaybeInit(c, a, b)
    if isinstance(a, MaybeInit) or isinstance(b, MaybeInit):
        return MaybeInit(c, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([vite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (Adt, Alt)) and isinstance(b, (Adt, Alt)):
        if isinstance(a, Adt) and isinstance(b, Adt) and a.variant == b.variant:
            return Adt(a.name, a.variant, [vite(c, x, y) for x, y in zip(a.fields, b.fields)], a.names)
        return mkalt(a.name, [(And(c, g), x) for g, x in alts(a)] + [(And(Not(c), g), x) for g, x in alts(b)])
    if isinstance(a, Arr) and isinstance(b, Arr):
        n = ite(c, a.n, b.n)
        std = z3.simplify(ite(c, a.std, b.std))
        # keep write logs when the two share a base
        for base in (a.base, a, b.base, b):
            if base is None:
                continue
            la, lb = a.log(base), b.log(base)
            if la is not None and lb is not None:
                k = 0
                while k < len(la) and k < len(lb) and la[k] is lb[k]:
                    k += 1
                w = la[:k] + tuple((And(c, g), i, v) for g, i, v in la[k:]) + tuple((And(Not(c), g), i, v) for g, i, v in lb[k:])
                return Arr(n, None, std, a.kind, base, w)
        return Arr(n, lambda i: vite(c, a.get(i), b.get(i)), std, a.kind)
    if isinstance(a, Mat) and isinstance(b, Mat):
        for base in (a.base, a, b.base, b):
            if base is None:
                continue
            la, lb = a.log(base), b.log(base)
            if la is not None and lb is not None:
                k = 0
                while k < len(la) and k < len(lb) and la[k] is lb[k]:
                    k += 1
                w = la[:k] + tuple((And(c, g), i, v) for g, i, v in la[k:]) + tuple((And(Not(c), g), i, v) for g, i, v in lb[k:])
                return Mat(base.nr, base.nc, None, a.std, base, w)
        return Mat(ite(c, a.nr, b.nr), ite(c, a.nc, b.nc), lambda i, j: vite(c, a.get(i, j), b.get(i, j)), z3.simplify(ite(c, a.std, b.std)))
    if isinstance(a, MapV) and isinstance(b, MapV):
        for base in (a.base, a, b.base, b):
            if base is None:
                continue
            la, lb = a.log(base), b.log(base)
            if la is not None and lb is not None:
                k = 0
                while k < len(la) and k < len(lb) and la[k] is lb[k]:
                    k += 1
                w = la[:k] + tuple((And(c, g), i, v) for g, i, v in la[k:]) + tuple((And(Not(c), g), i, v) for g, i, v in lb[k:])
                return MapV(None, None, base, w, a.kind)
        return MapV(lambda k: ite(c, a.dom(k), b.dom(k)), lambda k: vite(c, a.val(k), b.val(k)), kind=a.kind)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.cell == b.cell and len(a.proj) == len(b.proj) and all(proj_eq(x, y) for x, y in zip(a.proj, b.proj)):
            return a
        raise MergeFail('references differ')
    if isinstance(a, ValRef) and isinstance(b, ValRef):
        return ValRef(vite(c, a.v, b.v))
    if isinstance(a, MutView) and isinstance(b, MutView):
        return MutView(vite(c, a.ref, b.ref))
    if isinstance(a, Clos) and isinstance(b, Clos) and a.fn is b.fn:
        return Clos(a.fn, [vite(c, x, y) for x, y in zip(a.caps, b.caps)])
    if isinstance(a, FnItem) and isinstance(b, FnItem) and a.path == b.path:
        return a
    if isinstance(a, Opq) and isinstance(b, Opq) and a.role == b.role:
        return Opq(ite(c, a.term, b.term), a.role, a.aux)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return FnPtr([(And(c, g), f) for g, f in a.alts] + [(And(Not(c), g), f) for g, f in b.alts])
    if is_fn(a) and is_fn(b):
        return FnPtr([(And(c, g), f) for g, f in fnalts(a)] + [(And(Not(c), g), f) for g, f in fnalts(b)])
    if isinstance(a, Iter) and isinstance(b, Iter) and a.elem is b.elem and a.n is b.n and a._dom is b._dom:
        if a.phase != b.phase:
            raise MergeFail('iterator phases differ')
        return a.repl(start=ite(c, a.start, b.start))
    if isinstance(a, BoxV) and isinstance(b, BoxV):
        return BoxV(vite(c, a.v, b.v))
    raise MergeFail('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))


class MaybeInit(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class BoxV(Val):
    def __init__(self, v):
        self.v = v


class FnPtr(Val):
    """function pointer with guarded alternatives"""
    def __init__(self, alts):
        self.alts = alts


class FnPtrArr(Val):
    pass


def is_fn(f):
    return isinstance(f, (FnItem, FnPtr, Clos)) or isinstance(f, Opq) and f.role == 'fnptr'


def fnalts(f):
    return f.alts if isinstance(f, FnPtr) else [(TRUE, f)]


def proj_eq(x, y):
    if len(x) != len(y) or x[0] != y[0]:
        return False
    for a, b in zip(x[1:], y[1:]):
        if is_expr(a) and is_expr(b):
            if not a.eq(b):
                return False
        elif is_expr(a) or is_expr(b) or a != b:
            return False
    return True


def vmap(v, f, memo=None):
    """apply f to every scalar term inside v (lazily under functions)."""
    if is_expr(v):
        return f(v)
    if isinstance(v, (Poison, FnItem, OpaqueFn, Uninit)):
        return v
    if isinstance(v, Tup):
        return Tup([vmap(x, f) for x in v.items])
    if isinstance(v, Adt):
        return Adt(v.name, v.variant, [vmap(x, f) for x in v.fields], v.names)
    if isinstance(v, Alt):
        return Alt(v.name, [(f(g), vmap(a, f)) for g, a in v.alts])
    if isinstance(v, Arr):
        return Arr(f(v.n), lambda i: vmapi(lambda j: v.get(j), i, f), f(v.std), v.kind)
    if isinstance(v, Mat):
        def g(i, j):
            a, b = fresh('ix', I), fresh('ix', I)
            t = vmap(v.get(a, b), f)
            return vsubst(t, [(a, i), (b, j)])
        return Mat(f(v.nr), f(v.nc), g, f(v.std))
    if isinstance(v, MapV):
        return MapV(lambda k: vmapi(v.dom, k, f), lambda k: vmapi(v.val, k, f), kind=v.kind)
    if isinstance(v, Ref):
        return Ref(v.cell, [tuple(f(x) if is_expr(x) else x for x in s) for s in v.proj])
    if isinstance(v, ValRef):
        return ValRef(vmap(v.v, f))
    if isinstance(v, MutView):
        return MutView(vmap(v.ref, f))
    if isinstance(v, Clos):
        return Clos(v.fn, [vmap(x, f) for x in v.caps])
    if isinstance(v, Opq):
        return Opq(f(v.term), v.role, v.aux)
    if isinstance(v, FnPtr):
        return FnPtr([(f(g), x) for g, x in v.alts])
    if isinstance(v, MaybeInit):
        return MaybeInit(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, BoxV):
        return BoxV(vmap(v.v, f))
    raise Unsupported('vmap %s' % type(v).__name__)


def vmapi(get, i, f):
    """f applied to get(x) at a fresh x, then x := i (f must not touch i)."""
    x = fresh('ix', I)
    t = vmap(get(x), f)
    return vsubst(t, [(x, i)])


def vsubst(v, pairs):
    """substitute constants by terms in a value."""
    if is_expr(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, Arr):
        return Arr(z3.substitute(v.n, *pairs), lambda i: vsubsti(v.get, i, pairs), z3.substitute(v.std, *pairs), v.kind)
    if isinstance(v, MapV):
        return MapV(lambda k: vsubsti(v.dom, k, pairs), lambda k: vsubsti(v.val, k, pairs), kind=v.kind)
    return vmap(v, lambda t: z3.substitute(t, *pairs))


def vsubsti(get, i, pairs):
    x = fresh('ix', I)
    t = vsubst(get(x), pairs)
    return vsubst(t, [(x, i)])


def scalars(v, out=None):
    """scalar terms directly visible in v (not under functions)."""
    if out is None:
        out = []
    vmap_shallow(v, out)
    return out


def vmap_shallow(v, out):
    if is_expr(v):
        out.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            vmap_shallow(x, out)
    elif isinstance(v, Adt):
        for x in v.fields:
            vmap_shallow(x, out)
    elif isinstance(v, Alt):
        for g, a in v.alts:
            out.append(g)
            vmap_shallow(a, out)
    elif isinstance(v, Arr):
        out.append(v.n)
        p = fresh('ix', I)
        vmap_shallow(v.get(p), out)
    elif isinstance(v, Mat):
        vmap_shallow(v.get(fresh('ix', I), fresh('ix', I)), out)
    elif isinstance(v, MapV):
        p = fresh('ix', I)
        out.append(v.dom(p))
        vmap_shallow(v.val(p), out)
    elif isinstance(v, (ValRef, BoxV)):
        vmap_shallow(v.v, out)
    elif isinstance(v, Opq):
        out.append(v.term)
    elif isinstance(v, Clos):
        for x in v.caps:
            vmap_shallow(x, out)
    elif isinstance(v, MaybeInit):
        out.append(v.c)
        vmap_shallow(v.a, out)
        vmap_shallow(v.b, out)
