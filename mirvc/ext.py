"""Models (assumed contracts) of the external functions that the crate calls:
core, alloc, std collections, ndarray, itertools and spaces."""
import re
import z3
from terms import *
from values import *
import loops

METHODS = {}
ROLE_METHODS = {}


def m(*names):
    def d(f):
        for n in names:
            METHODS.setdefault(n, []).append(f)
        return f
    return d


NEXT = object()     # returned by a model that does not apply


def role(r, name):
    def d(f):
        ROLE_METHODS[(r, name)] = f
        return f
    return d


def call(ex, st, c, args):
    if args:
        v = ex.strip(st, args[0])
        if isinstance(v, Opq) and (v.role, c.method) in ROLE_METHODS:
            ex.trust('contract of %s for %s::%s' % (v.role, c.trait or c.selfty, c.method))
            return ROLE_METHODS[(v.role, c.method)](ex, st, c, args)
        if isinstance(v, Alt) and any(isinstance(a, Opq) for a in []):
            pass
    for f in METHODS.get(c.method, []):
        r = f(ex, st, c, args)
        if r is not NEXT:
            ex.trust(trust_name(c))
            return used_up(ex, st, c, args, r)
    segs = _E.strip_generics(c.raw).split('::')
    if segs[-1][:1].isupper() and len(segs) >= 2 and segs[-1] in ex.mod.enums.get(segs[-2], ()):
        return st, Adt(segs[-2], segs[-1], args)        # a constructor used as a function
    if c.selfty is None and segs[-1] in ex.mod.tuple_structs:
        return st, Adt(segs[-1], segs[-1], args)
    raise Unsupported('no model for %s' % c.raw[:160])


READ_ONLY = {'size_hint', 'len', 'clone', 'is_empty', 'eq', 'ne', 'fmt', 'as_ref', 'deref', 'deref_mut', 'borrow', 'borrow_mut', 'as_mut'}


def used_up(ex, st, c, args, r):
    """an iterator handed over by mutable reference: unless the model says where it stands afterwards, nobody may look"""
    if c.method in READ_ONLY:
        return r
    s, v = r
    for a in args:
        w = a
        while isinstance(w, Ref):
            try:
                x = ex.read(st, w)
            except Unsupported:
                break
            if isinstance(x, Iter):
                if ex.read(s, w) is x and not (isinstance(v, Ref) and v is w):
                    s = s.fork()
                    ex.write(s, w, Poison('iterator after %s' % c.method))
                break
            w = x
    return s, v


def trust_name(c):
    s = c.selfty or ''
    import exec as E
    return '%s::%s' % (E.last_seg(s) if s else c.path, c.method) if s else c.path


# ------------------------------------------------------------ helpers
def match(ex, st, v, handlers):
    """run the handler of each alternative variant, merge."""
    lst = alts(v)
    if len(lst) == 1:
        return handlers[lst[0][1].variant](st, *lst[0][1].fields)
    rets = []
    import exec as E
    for g, a in lst:
        if not ex.feasible(st, g):
            continue
        try:
            s, r = handlers[a.variant](st.assume(g), *a.fields)
        except E.Diverges:
            continue
        rets.append((s, r))
    if not rets:
        raise E.Diverges('all alternatives')
    return ex.merge(st, rets)


def sv(ex, st, x):
    return ex.strip(st, x)


def isnum(v):
    return is_expr(v)


def loc(ex, st, x):
    """location of a container argument: Ref, or ValRef for snapshots/by-value."""
    if isinstance(x, (Ref, ValRef, MutView)):
        return ex.loc(st, x)
    return ValRef(x)


def sub(l, v, *s):
    """sub-location of a location; v is the value at l."""
    if isinstance(l, Ref):
        return l.ext(s)
    k = s[0]
    if k == 'i':
        return ValRef(v.get(s[1]))
    if k == 'k':
        return ValRef(v.val(s[1]))
    if k == 'col':
        return ValRef(v.col(s[1]))
    if k == 'row':
        return ValRef(v.row(s[1]))
    if k == 'ij':
        return ValRef(v.get(s[1], s[2]))
    if k == 'mo':
        return ValRef(E.memory_order(v))
    if k == 'sl':
        return ValRef(Arr(z3.simplify(s[2] - s[1]), lambda i: v.get(z3.simplify(s[1] + i)), v.std, v.kind))
    raise Unsupported('sub-location')


def snap(ex, st, v):
    """immutable snapshot of what a reference points to."""
    if isinstance(v, (Ref, MutView)):
        return ValRef(ex.strip(st, v))
    return v


def num(ex, st, v):
    v = sv(ex, st, v)
    if not is_expr(v):
        raise Unsupported('expected a number, got %s' % type(v).__name__)
    return v


def real(e):
    return z3.ToReal(e) if e.sort() == I else e


def remaining(it):
    if it.n is INF:
        return INF
    return z3.simplify(it.n - it.start)


def clip(ex, st, n):
    n = z3.simplify(n)
    if ex.implied(st, n >= 0):
        return n
    return z3.simplify(If(n >= 0, n, IntVal(0)))


def imin(ex, st, a, b):
    if a is INF:
        return b
    if b is INF:
        return a
    if a.eq(b) or ex.implied(st, a <= b):
        return a
    if ex.implied(st, b <= a):
        return b
    return If(a <= b, a, b)


def imax(ex, st, a, b):
    if a.eq(b) or ex.implied(st, a >= b):
        return a
    if ex.implied(st, b >= a):
        return b
    return If(a >= b, a, b)


def iter_arr(ex, st, l, v, byval=False):
    if byval:
        r = Iter(True, v.n, None, lambda e, s, p: (s, v.get(p)))
        r.lex = getattr(v, 'lex', False)
        return r
    if isinstance(l, Ref):
        return Iter(True, v.n, None, lambda e, s, p: (s, l.ext(('i', p))))
    return Iter(True, v.n, None, lambda e, s, p: (s, ValRef(v.get(p))))


def iter_map(ex, st, l, v, what, byval=False):
    def elem(e, s, p):
        if byval:
            k, x = p, (v.val(p) if what != 'keys' else None)
        else:
            k = ValRef(p)
            x = None if what == 'keys' or v.kind == 'set' else (l.ext(('k', p)) if isinstance(l, Ref) else ValRef(v.val(p)))
        if what == 'keys' or v.kind == 'set':
            return s, k
        if what == 'values':
            return s, x
        return s, Tup([k, x])
    return Iter(False, None, v.dom, elem, ordered=False)


def to_iter(ex, st, x):
    """IntoIterator::into_iter"""
    l = None
    v = x
    while isinstance(v, (Ref, ValRef, MutView)):
        l = v
        w = v.v if isinstance(v, ValRef) else ex.read(st, v.ref if isinstance(v, MutView) else v)
        v = w
    if isinstance(v, BoxV):
        v = v.v
    if isinstance(v, Iter):
        if l is not None and isinstance(l, Ref):
            # by reference: `&mut iter` used as iterator
            if v.contig:
                return v
        return v
    if isinstance(v, Adt):
        f = ex.mod.find(v.name, 'Iterator', 'next')
        if len(f) == 1:
            return iter_of_next(ex, st, v, f[0])
    byval = l is None
    lc = None if byval else loc(ex, st, l)
    if isinstance(v, Arr):
        return iter_arr(ex, st, lc, v, byval)
    if isinstance(v, MapV):
        return iter_map(ex, st, lc, v, 'keys' if v.kind == 'set' else 'entries', byval)
    if isinstance(v, Adt) and v.name == 'Range':
        a, b = v.fields[0], v.fields[1]
        incl = len(v.fields) > 2
        n = z3.simplify((b + 1 if incl else b) - a)
        return Iter(True, clip(ex, st, n), None, lambda e, s, p: (s, z3.simplify(a + p)))
    if isinstance(v, Adt) and v.name == 'RangeFrom':
        a = v.fields[0]
        return Iter(True, INF, None, lambda e, s, p: (s, z3.simplify(a + p)))
    if isinstance(v, Adt) and v.name == 'Option' or isinstance(v, Alt) and v.name == 'Option':
        lst = dict((a.variant, (g, a)) for g, a in alts(v))
        g, a = lst.get('Some', (FALSE, None))
        pay = a.fields[0] if a else Poison('none')
        return Iter(True, z3.simplify(If(g, IntVal(1), IntVal(0))), None, lambda e, s, p: (s, pay))
    if isinstance(v, Adt) and v.name in ex.mod.structs:
        # local iterator type
        return local_iter(ex, st, x, v)
    raise Unsupported('into_iter of %s' % type(v).__name__)


def local_iter(ex, st, x, v):
    """iterator implemented in the crate: elements through its own next()."""
    fs = ex.mod.find(v.name, 'Iterator', 'next')
    if len(fs) != 1:
        raise Unsupported('into_iter of %s' % v.name)
    # accepted only when one field is the driving iterator and next() advances it by one
    drv = [i for i, y in enumerate(v.fields) if isinstance(y, Iter)]
    if len(drv) != 1 or not v.fields[drv[0]].contig:
        raise Unsupported('local iterator %s' % v.name)
    k = drv[0]
    it = v.fields[k]
    f = fs[0]

    def elem(e, s, p):
        s = s.fork()
        w = Adt(v.name, v.variant, [y if i != k else it.repl(start=p) for i, y in enumerate(v.fields)], v.names)
        r = e.alloc(s, w, 'It')
        s2, o = e.call_fn(f, [r], s.assume(And(p >= 0, p < it.n)))
        nw = e.read(s2, r)
        if not e.implied(s2, nw.fields[k].start == p + 1):
            raise Unsupported('local iterator does not advance by one')
        lst = [(g, a) for g, a in alts(o) if a.variant == 'Some' and e.feasible(s2, g)]
        if len(lst) != 1 or not e.implied(s2, lst[0][0]):
            raise Unsupported('local iterator ends early')
        return s2, lst[0][1].fields[0]
    # exhausted iterator gives None
    ex.mute += 1
    try:
        s = st.fork()
        w = Adt(v.name, v.variant, [y if i != k else it.repl(start=it.n) for i, y in enumerate(v.fields)], v.names)
        r = ex.alloc(s, w, 'It')
        s2, o = ex.call_fn(f, [r], s)
        if not all(a.variant == 'None' or not ex.feasible(s2, g) for g, a in alts(o)):
            raise Unsupported('local iterator does not end')
    finally:
        ex.mute -= 1
    return Iter(True, it.n, None, elem, start=it.start)


def iter_of_next(ex, st, v, f):
    """the sequence of values that repeated calls of the crate's own `next` give: read off one call from
    an arbitrary cursor position (nothing else may change, and only the end gives None)."""
    ks = [k for k, x in enumerate(v.fields) if isinstance(x, Iter)]
    if len(ks) != 1 or not v.fields[ks[0]].contig or v.fields[ks[0]].n is INF:
        raise Unsupported('iterator %s over something other than one sequence' % v.name)
    k = ks[0]
    it = v.fields[k]

    def at(s, p):
        s = s.fork()
        fs = list(v.fields)
        fs[k] = it.repl(start=p)
        return s, ex.alloc(s, Adt(v.name, v.variant, fs, v.names), 'It')

    def call(s, p):
        s, r = at(s, p)
        s2, o = ex.call_fn(f, [r], s)
        w = ex.read(s2, r)
        if len(w.fields) != len(v.fields) or not all(a is b or is_expr(a) and is_expr(b) and a.eq(b) for j, (a, b) in enumerate(zip(w.fields, v.fields)) if j != k):
            raise Unsupported('next of %s changes more than its position' % v.name)
        j = w.fields[k]
        s2 = s2.fork()
        s2.cells.pop(r.cell, None)
        return s2, o, j
    p = fresh('at', I)
    ex.mute += 1
    try:
        s1 = st.assume(And(p >= it.start, p < it.n))
        s2, o, j = call(s1, p)
        for g, a in alts(o):
            if a.variant != 'Some' and ex.feasible(s2, g):
                raise Unsupported('next of %s ends early' % v.name)
        if not isinstance(j, Iter) or not ex.implied(s2, j.start == p + 1):
            raise Unsupported('next of %s does not advance by one' % v.name)
        s1 = st.assume(p >= it.n)
        s2, o, j = call(s1, p)
        for g, a in alts(o):
            if a.variant != 'None' and ex.feasible(s2, g):
                raise Unsupported('next of %s continues past the end' % v.name)
    finally:
        ex.mute -= 1

    def elem(e, s, p):
        s2, o, _ = call(s, p)
        for g, a in alts(o):
            if a.variant == 'Some':
                return s2, a.fields[0]
        raise Unsupported('next of %s ends early' % v.name)
    return Iter(True, it.n, None, elem, start=it.start)


def as_iter(ex, st, x):
    return to_iter(ex, st, x)


def consume(ex, st, x):
    """iterator value behind self (by value or &mut)."""
    return as_iter(ex, st, x)


def const_iter_of(ex, st, x):
    return consume(ex, st, x)


# accumulate with a cell
def accumulate(ex, st, it, init, step, name):
    s = st.fork()
    r = ex.alloc(s, init, 'Acc')

    def body(s, v, p):
        s = s.fork()
        a = ex.read(s, r)
        s, a2 = step(s, a, v)
        s = s.fork()
        ex.write(s, r, a2)
        return s
    s = loops.each(ex, s, it, body, name)
    out = ex.read(s, r)
    s = s.fork()
    s.cells.pop(r.cell, None)
    return s, out


def collect_arr(ex, st, it, kind='vec'):
    if not it.ordered:
        raise Unsupported('collecting an unordered collection into a sequence')
    s = st.fork()
    empty = Arr(IntVal(0), lambda i: Absent('element of an empty sequence'), TRUE, kind)
    r = ex.alloc(s, empty, 'Vec')

    def body(s, v, p):
        s = s.fork()
        a = ex.read(s, r)
        ex.write(s, r, a.set(a.n, v).with_n(z3.simplify(a.n + 1)))
        return s
    s = loops.each(ex, s, it, body, 'collect')
    out = ex.read(s, r)
    s = s.fork()
    s.cells.pop(r.cell, None)
    if isinstance(out, Poison):
        raise Unsupported('collect: %s' % out.why)
    return s, Arr(out.n, out.get, TRUE, kind)


def empty_map(kind='map'):
    return MapV(lambda k: FALSE, lambda k: Absent('absent key'), kind=kind)


def collect_map(ex, st, it, kind='map', base=None):
    s = st.fork()
    r = ex.alloc(s, base or empty_map(kind), 'Map')

    def body(s, v, p):
        s = s.fork()
        a = ex.read(s, r)
        if kind == 'map':
            k, x = v.items
            k = num(ex, s, k)
        else:
            k, x = num(ex, s, v), UNIT
        ex.write(s, r, a.insert(k, x))
        return s
    s = loops.each(ex, s, it, body, 'collect')
    out = ex.read(s, r)
    s = s.fork()
    s.cells.pop(r.cell, None)
    if isinstance(out, Poison):
        raise Unsupported('collect: %s' % out.why)
    return s, out


# ------------------------------------------------------------ identity / clone / conversions
@m('clone', 'to_owned', 'cloned', 'copied')
def _clone(ex, st, c, a):
    if len(a) != 1:
        return NEXT
    v = a[0]
    if c.trait == 'Iterator' or isinstance(v, Iter):
        it = as_iter(ex, st, v)
        if c.method == 'clone':
            return st, it

        def el(e, s, p):
            s, x = it.elem(e, s, p)
            return s, e.strip(s, x)
        return st, it.repl(elem=el)
    w = sv(ex, st, v)
    if isinstance(w, (Adt, Alt)) and w.name == 'Option' and c.method in ('cloned', 'copied'):
        return match(ex, st, w, {'None': lambda s: (s, none()), 'Some': lambda s, x: (s, some(ex.strip(s, x)))})
    return st, w


@m('clone_from')
def _clone_from(ex, st, c, a):
    v = sv(ex, st, a[1])
    if c.trait != 'Clone' or isinstance(v, Poison):
        return NEXT
    st = st.fork()
    ex.write(st, loc(ex, st, a[0]), v)
    return st, UNIT


@m('borrow', 'borrow_mut', 'as_ref', 'as_mut', 'deref', 'deref_mut', 'must_use', 'by_ref', 'as_slice', 'as_mut_slice', 'as_deref')
def _ident(ex, st, c, a):
    w = sv(ex, st, a[0])
    if c.method == 'borrow' and c.traitargs == 'f64' and is_expr(w):
        return st, ValRef(w)     # one reference to the number, however many are borrowed through
    if isinstance(w, (Adt, Alt)) and w.name == 'Option' and c.method in ('as_ref', 'as_mut', 'as_deref'):
        l = loc(ex, st, a[0])
        lst = []
        for g, x in alts(w):
            if x.variant == 'None':
                lst.append((g, none()))
            else:
                if isinstance(l, Ref) and len(alts(w)) == 1:
                    lst.append((g, some(l.ext(('v', 'Some'), ('f', 0)))))
                else:
                    if c.method == 'as_mut':
                        return NEXT
                    lst.append((g, some(ValRef(x.fields[0]))))
        return st, mkalt('Option', lst)
    if c.method in ('as_slice', 'as_mut_slice') and isinstance(w, Arr) and w.kind == 'nd1':
        g = w.std
        return st, opt(g, lambda: a[0] if isinstance(a[0], (Ref, ValRef)) else ValRef(w))
    if c.method == 'by_ref':
        return NEXT
    return st, a[0]


@m('as_slice_mut', 'into_slice', 'to_slice')
def _asm(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Arr):
        return st, opt(w.std, lambda: loc(ex, st, a[0]))
    return NEXT


@m('as_slice_memory_order', 'as_slice_memory_order_mut')
def _asmo(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, Arr):
        return NEXT
    # memory order is logical order only for the standard layout
    if ex.implied(st, w.std):
        return st, some(loc(ex, st, a[0]))
    cont = Or(w.std, fresh('contiguous', B))
    return st, opt(cont, lambda: sub(loc(ex, st, a[0]), w, 'mo'))


@m('is_standard_layout')
def _isl(ex, st, c, a):
    return st, sv(ex, st, a[0]).std


@m('into_raw_vec', 'into_raw_vec_and_offset')
def _raw(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, Arr):
        return NEXT
    if ex.implied(st, w.std):
        return st, Arr(w.n, w.get, TRUE, 'vec')
    perm = fresh_fun('memory_order', I, I)
    return st, Arr(w.n, lambda i: vite(w.std, w.get(i), w.get(perm(i))), TRUE, 'vec')


@m('into', 'from')
def _into(ex, st, c, a):
    v = a[0]
    tgt = c.traitargs if c.method == 'into' else (c.selfty or '')
    w = sv(ex, st, v)
    import exec as E
    t = E.last_seg(tgt) if tgt else ''
    if isinstance(w, Arr):
        kind = 'nd1' if t == 'ArrayBase' else 'vec'
        return st, Arr(w.n, w.get, TRUE, kind)
    if isinstance(w, (Adt, Alt)) and w.name in ('Dim', 'Card') and t == 'usize':
        def inf(s):
            ex.oblige(s, 'conversion of an infinite dimension', FALSE, 'panic')
            raise E.Diverges('infinite')
        return match(ex, st, w, {'Finite': lambda s, n: (s, n), 'Infinite': inf})
    if t in E.INT_RANGE and is_expr(w) and w.sort() == I:
        return st, w
    if t in E.INT_RANGE and is_expr(w) and w.sort() == z3.BoolSort():
        return st, If(w, IntVal(1), IntVal(0))
    if t == 'f64' and is_expr(w) and w.sort() == z3.BoolSort():
        return st, If(w, RealVal(1), RealVal(0))
    if t == 'f64' and is_expr(w):
        return st, real(w)
    if c.method == 'from' and E.last_seg(c.traitargs or '') == t or c.method == 'into' and E.last_seg(c.selfty or '') == t:
        return st, v
    if t == 'String':
        return st, Opq(fresh('str', OP), 'str')
    return NEXT


# ------------------------------------------------------------ arithmetic traits
def _bin(op, fn):
    @m(op)
    def f(ex, st, c, a):
        if len(a) != 2 or c.trait is None:
            return NEXT
        x, y = sv(ex, st, a[0]), sv(ex, st, a[1])
        if is_expr(x) and is_expr(y):
            return st, fn(ex, st, x, y)
        if isinstance(x, Arr) and isinstance(y, Arr):
            st = ex.oblige(st, 'shapes agree in %s' % op, x.n == y.n, 'panic')
            return st, Arr(x.n, lambda i: fn(ex, st, x.get(i), y.get(i)), TRUE, 'nd1')
        if isinstance(x, Arr) and is_expr(y):
            return st, Arr(x.n, lambda i: fn(ex, st, x.get(i), y), x.std, x.kind)
        if isinstance(y, Arr) and is_expr(x):
            return st, Arr(y.n, lambda i: fn(ex, st, x, y.get(i)), y.std, y.kind)
        if isinstance(x, (Adt, Alt)) and x.name in ('Dim', 'Card') and isinstance(y, (Adt, Alt)):
            def both(s, n):
                return match(ex, s, y, {'Finite': lambda s2, k: (s2, Adt(x.name, 'Finite', [fn(ex, s2, n, k)])),
                                        'Infinite': lambda s2: (s2, Adt(x.name, 'Infinite', []))})
            return match(ex, st, x, {'Finite': both, 'Infinite': lambda s: (s, Adt(x.name, 'Infinite', []))})
        return NEXT

    @m(op + '_assign')
    def g(ex, st, c, a):
        if len(a) != 2:
            return NEXT
        l = loc(ex, st, a[0])
        x, y = sv(ex, st, a[0]), sv(ex, st, a[1])
        st = st.fork()
        if is_expr(x) and is_expr(y):
            ex.write(st, l, fn(ex, st, x, y))
            return st, UNIT
        if isinstance(x, Arr) and isinstance(y, Arr):
            st = ex.oblige(st, 'shapes agree in %s_assign' % op, x.n == y.n, 'panic').fork()
            ex.write(st, l, Arr(x.n, lambda i: fn(ex, st, x.get(i), y.get(i)), x.std, x.kind))
            return st, UNIT
        if isinstance(x, Arr) and is_expr(y):
            ex.write(st, l, Arr(x.n, lambda i: fn(ex, st, x.get(i), y), x.std, x.kind))
            return st, UNIT
        return NEXT


def _sub(ex, st, x, y):
    return x - y


import exec as _E
_bin('add', lambda ex, st, x, y: x + y)
_bin('sub', _sub)
_bin('mul', lambda ex, st, x, y: x * y)
_bin('div', lambda ex, st, x, y: div(x, y) if x.sort() == R else _E.idiv(x, y))
_bin('rem', lambda ex, st, x, y: _E.irem(x, y) if x.sort() == I else fresh_unsup())


def fresh_unsup():
    raise Unsupported('float remainder')


@m('neg')
def _neg(ex, st, c, a):
    x = sv(ex, st, a[0])
    if is_expr(x):
        return st, -x
    if isinstance(x, Arr):
        return st, Arr(x.n, lambda i: -x.get(i), x.std, x.kind)
    return NEXT


@m('not')
def _not(ex, st, c, a):
    return st, neg(num(ex, st, a[0]))


# ------------------------------------------------------------ floats and integers
def _f1(name, fn):
    @m(name)
    def f(ex, st, c, a):
        if len(a) != 1:
            return NEXT
        x = sv(ex, st, a[0])
        if not is_expr(x):
            return NEXT
        return st, fn(x)


_f1('abs', absr)
_f1('sqrt', lambda x: SQRT(x))
_f1('exp', lambda x: EXP(som(x)))
_f1('cos', lambda x: COS(som(x)))
_f1('sin', lambda x: SIN(som(x)))
_f1('ln', lambda x: LN(som(x)))
_f1('ln_1p', lambda x: LN(som(x + 1)))
_f1('floor', lambda x: z3.ToReal(z3.ToInt(x)) if x.sort() == R else x)
_f1('ceil', lambda x: -z3.ToReal(z3.ToInt(-x)))
_f1('recip', lambda x: inv(x))
_f1('is_nan', lambda x: FALSE)
_f1('is_finite', lambda x: TRUE)
_f1('is_infinite', lambda x: FALSE)
_f1('is_sign_negative', lambda x: x < 0)
_f1('is_sign_positive', lambda x: x >= 0)
_f1('signum', lambda x: If(x >= 0, RealVal(1), RealVal(-1)) if x.sort() == R else If(x > 0, IntVal(1), If(x < 0, IntVal(-1), IntVal(0))))
_f1('trunc', lambda x: If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x))))


@m('max', 'min')
def _maxmin(ex, st, c, a):
    if len(a) == 1:
        it = as_iter(ex, st, a[0])
        if c.method == 'min':
            return NEXT
        q = fresh('q', I)
        dom = iter_dom(ex, st, it)
        s, v = it.elem(ex, st.assume(dom(q)), abs_pos(it, q))
        isref = isinstance(v, (Ref, ValRef))
        v = num(ex, s, v)
        return st, opt(bany(q, dom(q)), lambda: ValRef(bmax(q, dom(q), v)) if isref else bmax(q, dom(q), v))
    x, y = num(ex, st, a[0]), num(ex, st, a[1])
    if c.method == 'max':
        if x.sort() == R:
            return st, fmax(x, y)
        return st, If(x >= y, x, y)
    if x.eq(PINF):
        return st, y
    if y.eq(PINF):
        return st, x
    return st, If(x <= y, x, y)


def iter_dom(ex, st, it):
    if it.contig:
        n = clip(ex, st, remaining(it))
        return lambda q: And(q >= 0, q < n)
    return it.dom


def abs_pos(it, q):
    return z3.simplify(it.start + q) if it.contig else q


@m('powi')
def _powi(ex, st, c, a):
    return st, powi(num(ex, st, a[0]), num(ex, st, a[1]))


@m('powf')
def _powf(ex, st, c, a):
    x, y = num(ex, st, a[0]), z3.simplify(num(ex, st, a[1]))
    if z3.is_rational_value(y) and y.denominator_as_long() == 1:
        return st, powi(x, IntVal(y.numerator_as_long()))
    if z3.is_rational_value(y) and y.as_fraction() * 2 == 1:
        return st, SQRT(x)
    return st, POWF(som(x), som(y))


@m('pow')
def _pow(ex, st, c, a):
    x, n = num(ex, st, a[0]), z3.simplify(num(ex, st, a[1]))
    ty = int_ty(c)
    if ty is not None and ty not in _E.WIDE and not (z3.is_int_value(x) and z3.is_int_value(n)):
        return NEXT
    if z3.is_int_value(n) and 0 <= n.as_long() <= 8:
        r = IntVal(1)
        for _ in range(n.as_long()):
            r = r * x
        return st, r
    return NEXT


@m('mul_add')
def _mul_add(ex, st, c, a):
    x, y, z = [num(ex, st, v) for v in a]
    return st, x * y + z


@m('hypot')
def _hypot(ex, st, c, a):
    x, y = [num(ex, st, v) for v in a]
    return st, SQRT(som(x * x + y * y))


@m('clamp')
def _clamp(ex, st, c, a):
    x, lo, hi = [num(ex, st, v) for v in a]
    return st, If(x < lo, lo, If(x > hi, hi, x))


@m('div_euclid')
def _dive(ex, st, c, a):
    x, y = num(ex, st, a[0]), num(ex, st, a[1])
    if x.sort() != I:
        return NEXT
    st = ex.oblige(st, 'division by zero', y != 0, 'panic')
    return st, x / y      # SMT-LIB integer division is Euclidean


@m('rem_euclid')
def _reme(ex, st, c, a):
    x, y = num(ex, st, a[0]), num(ex, st, a[1])
    if x.sort() != I:
        return NEXT
    st = ex.oblige(st, 'division by zero', y != 0, 'panic')
    return st, x % y


def int_ty(c):
    """the integer type of an inherent integer method, from its path"""
    m_ = re.search(r'<impl ([iu](?:8|16|32|64|128|size))>', c.path)
    return m_.group(1) if m_ else None


NOWRAP = 'integer additions and multiplications do not overflow (machine integers treated as mathematical)'
_ARITH = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}


@m(*['%s_%s' % (h, o) for h in ('wrapping', 'saturating', 'checked', 'overflowing') for o in _ARITH])
def _int_op(ex, st, c, a):
    how, op = c.method.split('_')
    x, y = num(ex, st, a[0]), num(ex, st, a[1])
    if x.sort() != I or y.sort() != I:
        return NEXT
    ty = int_ty(c) or 'usize'
    lo, hi = _E.INT_RANGE[ty]
    r = z3.simplify(_ARITH[op](x, y))
    if ty in _E.WIDE and not (op == 'sub' and lo == 0):
        # 64 bits: mathematical
        ex.assumptions.add(NOWRAP)
        return st, some(r) if how == 'checked' else Tup([r, FALSE]) if how == 'overflowing' else r
    if ty in _E.WIDE:
        # unsigned subtraction: only the lower bound can be passed, whatever the bound on the operands
        return st, {'wrapping': If(r < 0, r + hi + 1, r), 'overflowing': Tup([If(r < 0, r + hi + 1, r), r < 0]),
                    'checked': opt(r >= 0, r), 'saturating': If(r < 0, IntVal(0), r)}[how]
    out = Or(r < lo, r > hi)
    w = If(out, (r - lo) % (hi - lo + 1) + lo, r)
    if how == 'wrapping':
        return st, w
    if how == 'overflowing':
        return st, Tup([w, out])
    if how == 'checked':
        return st, opt(And(r >= lo, r <= hi), r)
    return st, If(r < lo, IntVal(lo), If(r > hi, IntVal(hi), r))


# ------------------------------------------------------------ comparison
def deep_eq(ex, st, x, y):
    x, y = sv(ex, st, x), sv(ex, st, y)
    if is_expr(x) and is_expr(y):
        if x.sort() == R:
            ex.assumptions.add(_E.TOTAL)
        return z3.simplify(x == y)
    if isinstance(x, Tup) and isinstance(y, Tup):
        return conj(*[deep_eq(ex, st, a, b) for a, b in zip(x.items, y.items)])
    if isinstance(x, Arr) and isinstance(y, Arr):
        q = fresh('q', I)
        return conj(x.n == y.n, neg(bany(q, And(q >= 0, q < x.n, neg(deep_eq(ex, st, x.get(q), y.get(q)))))))
    if isinstance(x, MapV) and isinstance(y, MapV):
        q = fresh('q', I)
        d = x.dom(q) != y.dom(q)
        if x.kind != 'set':
            d = Or(d, And(x.dom(q), y.dom(q), neg(deep_eq(ex, st, x.val(q), y.val(q)))))
        return neg(bany(q, d))
    if isinstance(x, (Adt, Alt)) and isinstance(y, (Adt, Alt)):
        cs = []
        for g, a in alts(x):
            for h, b in alts(y):
                if a.variant == b.variant:
                    cs.append(conj(g, h, *[deep_eq(ex, st, p, q) for p, q in zip(a.fields, b.fields)]))
        return disj(*cs)
    if isinstance(x, Opq) and isinstance(y, Opq):
        if x.role == 'str':
            return TRUE
        return x.term == y.term
    raise Unsupported('equality of %s and %s' % (type(x).__name__, type(y).__name__))


@m('eq', 'ne')
def _eq(ex, st, c, a):
    e = deep_eq(ex, st, a[0], a[1])
    return st, e if c.method == 'eq' else neg(e)


@m('lt', 'le', 'gt', 'ge')
def _cmp(ex, st, c, a):
    x, y = num(ex, st, a[0]), num(ex, st, a[1])
    return st, {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[c.method]


@m('contains')
def _contains(ex, st, c, a):
    v = sv(ex, st, a[0])
    if isinstance(v, MapV):
        return st, v.dom(num(ex, st, a[1]))
    if isinstance(v, Arr):
        q = fresh('q', I)
        return st, bany(q, And(q >= 0, q < v.n, deep_eq(ex, st, v.get(q), a[1])))
    if isinstance(v, Adt) and v.name == 'Range':
        x = num(ex, st, a[1])
        return st, And(x >= v.fields[0], x < v.fields[1] if len(v.fields) == 2 else x <= v.fields[1])
    return NEXT


# ------------------------------------------------------------ Option / Result
def is_enum(v, *names):
    return isinstance(v, (Adt, Alt)) and v.name in names


@m('map')
def _map(ex, st, c, a):
    v = a[0]
    w = sv(ex, st, v)
    if is_enum(w, 'Option'):
        return match(ex, st, w, {'None': lambda s: (s, none()), 'Some': lambda s, x: wrap(some, ex.apply(a[1], [x], s))})
    if is_enum(w, 'Result'):
        return match(ex, st, w, {'Err': lambda s, e: (s, err(e)), 'Ok': lambda s, x: wrap(ok, ex.apply(a[1], [x], s))})
    it = as_iter(ex, st, v)
    st, f = own_state(ex, st, a[1], it)

    def el(e, s, p):
        s, x = it.elem(e, s, p)
        return e.apply(f, [x], s)
    return st, it.repl(elem=el)


def own_state(ex, st, f, it):
    """a closure that changes what it captured lives in a cell of its own, like the adapter that holds it"""
    if not isinstance(f, Clos) or not f.fn.args[0][1].startswith('&mut') or not f.caps:
        return st, f
    p = fresh('probe', I)
    s = st.assume(it.dom(p))
    try:
        ex.mute += 1
        s, x = it.elem(ex, s, p)
    except Unsupported:
        return st, f
    finally:
        ex.mute -= 1
    if not ex.has_state(f, [x], s):
        return st, f
    st = st.fork()
    return st, ex.alloc(st, f, 'C')


def wrap(k, sx):
    return sx[0], k(sx[1])


@m('and_then')
def _and_then(ex, st, c, a):
    w = sv(ex, st, a[0])
    if is_enum(w, 'Option'):
        return match(ex, st, w, {'None': lambda s: (s, none()), 'Some': lambda s, x: ex.apply(a[1], [x], s)})
    return match(ex, st, w, {'Err': lambda s, e: (s, err(e)), 'Ok': lambda s, x: ex.apply(a[1], [x], s)})


@m('and')
def _and(ex, st, c, a):
    w = sv(ex, st, a[0])
    if is_enum(w, 'Option'):
        return match(ex, st, w, {'None': lambda s: (s, none()), 'Some': lambda s, x: (s, a[1])})
    return match(ex, st, w, {'Err': lambda s, e: (s, err(e)), 'Ok': lambda s, x: (s, a[1])})


@m('or')
def _or(ex, st, c, a):
    w = sv(ex, st, a[0])
    if is_enum(w, 'Option'):
        return match(ex, st, w, {'None': lambda s: (s, a[1]), 'Some': lambda s, x: (s, some(x))})
    return match(ex, st, w, {'Err': lambda s, e: (s, a[1]), 'Ok': lambda s, x: (s, ok(x))})


@m('or_else')
def _or_else(ex, st, c, a):
    w = sv(ex, st, a[0])
    if is_enum(w, 'Option'):
        return match(ex, st, w, {'None': lambda s: ex.apply(a[1], [], s), 'Some': lambda s, x: (s, some(x))})
    return match(ex, st, w, {'Err': lambda s, e: ex.apply(a[1], [e], s), 'Ok': lambda s, x: (s, ok(x))})


@m('map_err')
def _map_err(ex, st, c, a):
    w = sv(ex, st, a[0])
    return match(ex, st, w, {'Err': lambda s, e: wrap(err, ex.apply(a[1], [e], s)), 'Ok': lambda s, x: (s, ok(x))})


@m('ok_or_else')
def _ok_or_else(ex, st, c, a):
    w = sv(ex, st, a[0])
    return match(ex, st, w, {'None': lambda s: wrap(err, ex.apply(a[1], [], s)), 'Some': lambda s, x: (s, ok(x))})


@m('ok_or')
def _ok_or(ex, st, c, a):
    w = sv(ex, st, a[0])
    return match(ex, st, w, {'None': lambda s: (s, err(a[1])), 'Some': lambda s, x: (s, ok(x))})


@m('ok')
def _ok(ex, st, c, a):
    return match(ex, st, sv(ex, st, a[0]), {'Err': lambda s, e: (s, none()), 'Ok': lambda s, x: (s, some(x))})


def bad(ex, what):
    def f(s, *a):
        ex.oblige(s, what, FALSE, 'panic')
        raise _E.Diverges(what)
    return f


@m('unwrap', 'expect', 'unwrap_unchecked')
def _unwrap(ex, st, c, a):
    w = sv(ex, st, a[0])
    b = bad(ex, '%s of an absent value' % c.method)
    if is_enum(w, 'Option'):
        return match(ex, st, w, {'None': b, 'Some': lambda s, x: (s, x)})
    if is_enum(w, 'Result'):
        return match(ex, st, w, {'Err': b, 'Ok': lambda s, x: (s, x)})
    return NEXT


def good(w):
    return 'Some' if w.name == 'Option' else 'Ok'


@m('unwrap_or')
def _unwrap_or(ex, st, c, a):
    w = sv(ex, st, a[0])
    return match(ex, st, w, {'None': lambda s: (s, snap(ex, s, a[1])), 'Err': lambda s, e: (s, snap(ex, s, a[1])),
                             'Some': lambda s, x: (s, deval(ex, s, x, a[1])), 'Ok': lambda s, x: (s, deval(ex, s, x, a[1]))})


def deval(ex, s, x, y):
    # references that are about to be merged with another reference: compare by value
    if isinstance(x, (Ref, ValRef)) or isinstance(y, (Ref, ValRef)):
        return snap(ex, s, x)
    return x


@m('unwrap_or_else')
def _unwrap_or_else(ex, st, c, a):
    w = sv(ex, st, a[0])
    return match(ex, st, w, {'None': lambda s: ex.apply(a[1], [], s), 'Err': lambda s, e: ex.apply(a[1], [e], s),
                             'Some': lambda s, x: (s, x), 'Ok': lambda s, x: (s, x)})


@m('unwrap_or_default')
def _unwrap_or_default(ex, st, c, a):
    w = sv(ex, st, a[0])
    z = RealVal(0) if 'f64' in (c.selfty or '') + c.raw else IntVal(0)
    return match(ex, st, w, {'None': lambda s: (s, z), 'Some': lambda s, x: (s, x)})


@m('map_or')
def _map_or(ex, st, c, a):
    w = sv(ex, st, a[0])
    return match(ex, st, w, {'None': lambda s: (s, a[1]), 'Err': lambda s, e: (s, a[1]),
                             'Some': lambda s, x: ex.apply(a[2], [x], s), 'Ok': lambda s, x: ex.apply(a[2], [x], s)})


@m('map_or_else')
def _map_or_else(ex, st, c, a):
    w = sv(ex, st, a[0])
    return match(ex, st, w, {'None': lambda s: ex.apply(a[1], [], s), 'Err': lambda s, e: ex.apply(a[1], [e], s),
                             'Some': lambda s, x: ex.apply(a[2], [x], s), 'Ok': lambda s, x: ex.apply(a[2], [x], s)})


@m('is_some', 'is_ok', 'is_none', 'is_err')
def _is(ex, st, c, a):
    w = sv(ex, st, a[0])
    k = {'is_some': 'Some', 'is_ok': 'Ok', 'is_none': 'None', 'is_err': 'Err'}[c.method]
    return st, disj(*[g for g, x in alts(w) if x.variant == k])


@m('is_some_and', 'is_none_or', 'is_ok_and')
def _isa(ex, st, c, a):
    w = sv(ex, st, a[0])
    d = TRUE if c.method == 'is_none_or' else FALSE
    return match(ex, st, w, {'None': lambda s: (s, d), 'Err': lambda s, e: (s, d),
                             'Some': lambda s, x: ex.apply(a[1], [x], s), 'Ok': lambda s, x: ex.apply(a[1], [x], s)})


@m('branch')
def _branch(ex, st, c, a):
    w = sv(ex, st, a[0])
    if w.name == 'Option':
        h = {'None': lambda s: (s, Adt('ControlFlow', 'Break', [none()])), 'Some': lambda s, x: (s, Adt('ControlFlow', 'Continue', [x]))}
    else:
        h = {'Err': lambda s, e: (s, Adt('ControlFlow', 'Break', [err(e)])), 'Ok': lambda s, x: (s, Adt('ControlFlow', 'Continue', [x]))}
    return match(ex, st, w, h)


@m('from_residual')
def _from_residual(ex, st, c, a):
    w = sv(ex, st, a[0])
    return st, w


@m('from_output')
def _from_output(ex, st, c, a):
    return st, ok(a[0])


@m('then', 'then_some')
def _then(ex, st, c, a):
    b = sv(ex, st, a[0])
    if not is_expr(b):
        return NEXT
    if c.method == 'then_some':
        return st, opt(b, a[1])
    rets = []
    if ex.feasible(st, b):
        s, v = ex.apply(a[1], [], st.assume(b))
        rets.append((s, some(v)))
    if ex.feasible(st, neg(b)):
        rets.append((st.assume(neg(b)), none()))
    return ex.merge(st, rets)


@m('zip')
def _zip(ex, st, c, a):
    x, y = as_iter(ex, st, a[0]), as_iter(ex, st, a[1])
    if not (x.contig and y.contig):
        raise Unsupported('zip of unordered iterators')
    n = imin(ex, st, remaining(x), remaining(y))
    xs, ys = x.start, y.start

    def el(e, s, p):
        s, u = x.elem(e, s, z3.simplify(xs + p))
        s, w = y.elem(e, s, z3.simplify(ys + p))
        return s, Tup([u, w])
    return st, Iter(True, n, None, el)


# ------------------------------------------------------------ iterators
@m('into_iter', 'iter', 'iter_mut', 'drain')
def _into_iter(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Opq):
        return NEXT
    if isinstance(w, Iter):
        return st, w
    if c.method in ('iter', 'iter_mut'):
        x = a[0]
        l = loc(ex, st, x) if isinstance(x, (Ref, ValRef, MutView)) else ValRef(x)
        if isinstance(w, Arr):
            return st, iter_arr(ex, st, l, w)
        if isinstance(w, MapV):
            return st, iter_map(ex, st, l, w, 'keys' if w.kind == 'set' else 'entries')
        if is_enum(w, 'Option'):
            return st, to_iter(ex, st, w if c.method == 'iter_mut' else w)
        if isinstance(w, Mat):
            return NEXT
    if c.method == 'drain':
        return NEXT
    return st, to_iter(ex, st, a[0])


@m('keys', 'values', 'values_mut', 'into_keys', 'into_values')
def _keys(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, MapV):
        return NEXT
    if c.method.startswith('into'):
        return st, iter_map(ex, st, None, w, c.method[5:], True)
    return st, iter_map(ex, st, loc(ex, st, a[0]), w, 'keys' if c.method == 'keys' else 'values')


@m('once')
def _once(ex, st, c, a):
    v = a[0]
    return st, Iter(True, IntVal(1), None, lambda e, s, p: (s, v))


@m('repeat')
def _repeat(ex, st, c, a):
    v = a[0]
    return st, Iter(True, INF, None, lambda e, s, p: (s, v))


@m('empty')
def _empty(ex, st, c, a):
    if a:
        return NEXT
    return st, Iter(True, IntVal(0), None, lambda e, s, p: (s, Poison('empty')))


@m('enumerate')
def _enum(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not it.contig:
        raise Unsupported('enumerate of an unordered iterator')
    s0 = it.start

    def el(e, s, p):
        s, x = it.elem(e, s, z3.simplify(s0 + p))
        return s, Tup([p, x])
    return st, Iter(True, remaining(it), None, el)


@m('rev')
def _rev(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not it.contig or it.n is INF:
        raise Unsupported('rev')
    n = clip(ex, st, remaining(it))
    s0 = it.start
    return st, Iter(True, n, None, lambda e, s, p: it.elem(e, s, z3.simplify(s0 + n - 1 - p)))


@m('skip')
def _skip(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not it.contig:
        return NEXT
    k = num(ex, st, a[1])
    s0 = it.start
    n = INF if it.n is INF else clip(ex, st, remaining(it) - k)
    r = Iter(True, n, None, lambda e, s, p: it.elem(e, s, z3.simplify(s0 + k + p)))
    r.lex = getattr(it, 'lex', False)
    return st, r


@m('take')
def _take(ex, st, c, a):
    if c.path.startswith(('std::mem', 'core::mem', 'mem')) or len(a) == 1:
        return NEXT
    it = as_iter(ex, st, a[0])
    if not it.contig:
        return NEXT
    k = num(ex, st, a[1])
    s0 = it.start
    n = imin(ex, st, remaining(it), k)
    return st, Iter(True, n, None, lambda e, s, p: it.elem(e, s, z3.simplify(s0 + p)))


@m('cycle')
def _cycle(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not it.contig:
        return NEXT
    n = clip(ex, st, remaining(it))
    s0 = it.start
    # an empty iterator stays empty under cycle(); otherwise endless
    if ex.implied(st, n > 0):
        return st, Iter(True, INF, None, lambda e, s, p: it.elem(e, s, z3.simplify(s0 + p % n)))
    raise Unsupported('cycle of a possibly empty iterator')


@m('chain')
def _chain(ex, st, c, a):
    x, y = as_iter(ex, st, a[0]), as_iter(ex, st, a[1])
    if not (x.contig and y.contig) or x.n is INF:
        raise Unsupported('chain of unordered iterators')
    nx = clip(ex, st, remaining(x))
    n = INF if y.n is INF else z3.simplify(nx + clip(ex, st, remaining(y)))

    def el(e, s, p):
        g = z3.simplify(p < nx)
        rets = []
        if e.feasible(s, g):
            s1, u = x.elem(e, s.assume(g), z3.simplify(x.start + p))
            rets.append((s1, snap(e, s1, u)))
        if e.feasible(s, neg(g)):
            s2, w = y.elem(e, s.assume(neg(g)), z3.simplify(y.start + p - nx))
            rets.append((s2, snap(e, s2, w)))
        if len(rets) == 1:
            return rets[0]
        return e.merge(s, rets)
    return st, Iter(True, n, None, el)


@m('filter', 'filter_map', 'take_while', 'skip_while')
def _filter(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    f = a[1]
    st0 = st
    if c.method in ('take_while', 'skip_while'):
        return NEXT
    fm = c.method == 'filter_map'

    def test(e, s, p):
        s, x = it.elem(e, s, p)
        s, r = e.apply(f, [x if fm else as_ref(e, s, x)], s)
        if fm:
            lst = dict((y.variant, (g, y)) for g, y in alts(r))
            g, y = lst.get('Some', (FALSE, None))
            return s, g, (y.fields[0] if y else Poison('none'))
        return s, r, x

    if c.method == 'filter' and it.contig and hasattr(it, 'digits') and but_first(ex, st, it, test):
        return _skip(ex, st, c, [it, IntVal(1)])
    base = iter_dom(ex, st, it)
    s0 = it.start if it.contig else None
    cache = {}

    def dom(p):
        if p.get_id() not in cache:
            ex.mute += 1
            try:
                b = base(p)
                if not ex.feasible(st0, b):
                    r = FALSE
                else:
                    _, g, _ = test(ex, st0.assume(b), z3.simplify(s0 + p) if it.contig else p)
                    r = z3.simplify(And(b, g))
            finally:
                ex.mute -= 1
            cache[p.get_id()] = (p, r)
        return cache[p.get_id()][1]

    def el(e, s, p):
        s, g, x = test(e, s, z3.simplify(s0 + p) if it.contig else p)
        return s, x
    return st, Iter(False, None, dom, el, ordered=it.ordered)


def as_ref(e, s, x):
    if isinstance(x, Ref) or isinstance(x, MutView):
        return e.alloc(s, x, 'R')
    return ValRef(x)


@m('next')
def _next(ex, st, c, a):
    l = ex.loc(st, a[0]) if isinstance(a[0], (Ref, MutView)) else None
    v = sv(ex, st, a[0])
    if isinstance(v, Adt) and v.name == 'Range':
        it = to_iter(ex, st, v)
        if not isinstance(l, Ref):
            return NEXT
        s0, e0 = v.fields[0], v.fields[1]
        incl = len(v.fields) > 2
        c0 = z3.simplify(s0 <= e0 if incl else s0 < e0)
        st = st.fork()
        ex.write(st, l, Adt('Range', 'Range', [z3.simplify(s0 + 1)] + v.fields[1:], v.names))
        return st, opt(c0, s0)
    if not isinstance(v, Iter) or not isinstance(l, Ref):
        return NEXT
    st = st.fork()
    if v.contig:
        ex.write(st, l, v.repl(start=z3.simplify(v.start + 1)))
        g = TRUE if v.n is INF else z3.simplify(v.start < v.n)
        if not ex.feasible(st, g):
            return st, none()
        s1, x = v.elem(ex, st.assume(g), v.start)
        if ex.feasible(st, neg(g)):
            return ex.merge(st, [(s1, some(x)), (st.assume(neg(g)), none())])
        return s1, some(x)
    if isinstance(v.phase, tuple) and v.phase[0] == 'head':
        _, p, more = v.phase
        ex.write(st, l, v.repl(phase=('at', p)))
        s1 = st.assume(more).assume(v.dom(p))
        if not ex.feasible(st, more):
            return st, none()
        s1, x = v.elem(ex, st.assume(more).fact(v.dom(p)), p)
        if ex.feasible(st, neg(more)):
            return ex.merge(st, [(s1, some(x)), (st.assume(neg(more)), none())])
        return s1, some(x)
    if v.phase == 'done':
        return st, none()
    raise Unsupported('next() on an unordered iterator outside a loop')


@m('size_hint')
def _size_hint(ex, st, c, a):
    it = sv(ex, st, a[0])
    if not isinstance(it, Iter) or not it.contig or it.n is INF:
        return NEXT
    n = clip(ex, st, remaining(it))
    ex.trust('exact size_hint of slice, range and lane iterators')
    return st, Tup([n, some(n)])


@m('count')
def _count(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    return accumulate(ex, st, it, IntVal(0), lambda s, x, v: (s, x + 1), 'count')


@m('fold')
def _fold(ex, st, c, a):
    w = sv(ex, st, a[0])
    it = as_iter(ex, st, ValRef(w) if isinstance(w, Arr) and isinstance(a[0], (Ref, ValRef, MutView)) else a[0])
    return accumulate(ex, st, it, a[1], lambda s, x, v: ex.apply(a[2], [x, v], s)[::1], 'fold')


@m('try_fold')
def _tryfold(ex, st, c, a):
    return NEXT


@m('for_each')
def _for_each(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    return loops.each(ex, st, it, lambda s, v, p: ex.apply(a[1], [v], s)[0], 'for_each'), UNIT


@m('any', 'all')
def _any(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if c.method == 'any':
        return accumulate(ex, st, it, FALSE, lambda s, x, v: lift(ex.apply(a[1], [v], s), lambda r: Or(x, r)), 'any')
    return accumulate(ex, st, it, TRUE, lambda s, x, v: lift(ex.apply(a[1], [v], s), lambda r: And(x, r)), 'all')


def lift(sx, f):
    return sx[0], f(sx[1])


@m('sum')
def _sum(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Arr):
        q = fresh('q', I)
        return st, bsum(q, And(q >= 0, q < w.n), w.get(q))
    if isinstance(w, Mat):
        return NEXT
    it = as_iter(ex, st, a[0])
    return int_total(ex, c, accumulate(ex, st, it, zero(c, 0), lambda s, x, v: (s, x + num(ex, s, v)), 'sum'))


def zero(c, k):
    return IntVal(k) if sum_ty(c) else RealVal(k)


def sum_ty(c):
    m_ = re.search(r'\b([iu](?:8|16|32|64|128|size))\b', c.generics)
    return m_.group(1) if m_ else None


def int_total(ex, c, sr):
    """the total of a narrow integer type must fit (it is monotone for an unsigned type)"""
    st, r = sr
    ty = sum_ty(c)
    if ty is None or not is_expr(r) or r.sort() != I:
        return sr
    if ty in _E.WIDE:
        ex.assumptions.add(NOWRAP)
        return sr
    if ty[0] == 'i' or c.method == 'product':
        raise Unsupported('%s of %s' % (c.method, ty))
    return ex.oblige(st, 'overflow of a %s of %s' % (c.method, ty), r <= _E.INT_RANGE[ty][1], 'panic'), r


@m('product')
def _product(ex, st, c, a):
    w = sv(ex, st, a[0])
    it = as_iter(ex, st, ValRef(w) if isinstance(w, Arr) else a[0])
    return int_total(ex, c, accumulate(ex, st, it, zero(c, 1), lambda s, x, v: (s, x * num(ex, s, v)), 'product'))


@m('collect', 'from_iter')
def _collect(ex, st, c, a):
    tgt = c.generics if c.method == 'collect' else (c.selfty or c.path)
    if c.method == 'from_iter' and 'ndarray' in c.path:
        tgt = 'ArrayBase'
    return collect_into(ex, st, a[0], tgt)


def collect_into(ex, st, x, tgt):
    it = None
    w = sv(ex, st, x)
    if isinstance(w, Opq):
        raise Unsupported('collect of an opaque iterator')
    t = _E.last_seg(tgt)
    if t in ('Features', 'SparseActivations'):
        fs = ex.mod.find(t, 'FromIterator', 'from_iter')
        if len(fs) == 1:
            return ex.call_fn(fs[0], [as_iter(ex, st, x)], st)
        gen = [f for f in fs if True]
        item = elem_kind(ex, st, as_iter(ex, st, x))
        for s_, t_, ta, f, hd in ex.mod.methods.get('from_iter', []):
            if f in gen and ta and item in ta:
                return ex.call_fn(f, [as_iter(ex, st, x)], st)
        raise Unsupported('FromIterator for %s' % t)
    it = as_iter(ex, st, x)
    if t in ('Vec', 'ArrayBase', '[]', 'Array1', 'Box'):
        st, v = collect_arr(ex, st, it, 'nd1' if t in ('ArrayBase', 'Array1') else 'vec')
        v.lex = getattr(it, 'lex', False)
        return st, v
    if t in ('HashMap', 'BTreeMap', 'FnvHashMap'):
        return collect_map(ex, st, it, 'map')
    if t in ('HashSet', 'BTreeSet'):
        return collect_map(ex, st, it, 'set')
    raise Unsupported('collect into %s' % tgt)


def elem_kind(ex, st, it):
    return 'f64'


DIGIT = z3.Function('digit', I, I, I, I)      # digit(k, w, m) = (k div w) mod m


def cartesian(n, m, elem):
    """assumed contract of itertools::multi_cartesian_product: the tuples over n iterators of m(j)
    elements each, in lexicographic order of positions (the last iterator moves fastest); without
    iterators there is no tuple.  elem(j, d): element d of iterator j."""
    p = fresh('p', I)
    size = If(n == 0, IntVal(0), bprod(p, And(p >= 0, p < n), m(p)))

    def tup(k):
        def get(j):
            q = fresh('p', I)
            w = bprod(q, And(q > j, q < n), m(q))
            return elem(j, DIGIT(k, w, m(j)))
        return Arr(n, get, TRUE, 'vec')
    return size, tup


@m('multi_cartesian_product')
def _mcp(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not it.contig or it.n is INF:
        return NEXT
    n = clip(ex, st, remaining(it))
    s0 = it.start

    def inner(j):
        s, v = it.elem(ex, st.assume(And(j >= 0, j < n)), z3.simplify(s0 + j))
        w = to_iter(ex, s, v)
        if not w.contig or w.n is INF:
            raise Unsupported('product of such iterators')
        return s, w

    def m_(j):
        return z3.simplify(clip(ex, inner(j)[0], remaining(inner(j)[1])))

    def elem(j, d):
        s, w = inner(j)
        s, x = w.elem(ex, s, z3.simplify(w.start + d))
        return ex.strip(s, x)
    size, tup = cartesian(n, m_, elem)
    r = Iter(True, z3.simplify(size), None, lambda e, s, p: (s, tup(p)))
    # is every factor strictly increasing?  Then the tuples are strictly increasing as well
    j, d = fresh('j', I), fresh('d', I)
    x, y = elem(j, d), elem(j, d + 1)
    if is_expr(x) and x.sort() == I:
        s = inner(j)[0].assume(And(d >= 0, d + 1 < m_(j)))
        r.lex = ex.implied(s, x < y)
    r.digits = n, m_
    return st, r


def but_first(ex, st, it, test):
    """does the predicate reject the first tuple of a cartesian product and accept all others?  Every
    other tuple differs from the first one in the position of some iterator (part of the assumed
    contract of multi_cartesian_product)."""
    import prove
    n, m_ = it.digits
    k, j, q = fresh('k', I), fresh('j', I), fresh('p', I)
    w = bprod(q, And(q > j, q < n), m_(q))
    ex.mute += 1
    try:
        s0 = st.assume(And(it.n > 0, n > 0))
        s1 = st.assume(And(n > 0, k > 0, k < it.n, j >= 0, j < n)).fact(And(DIGIT(k, w, m_(j)) > 0, DIGIT(k, w, m_(j)) < m_(j)))
        g0, g1 = test(ex, s0, IntVal(0))[1], test(ex, s1, k)[1]
    finally:
        ex.mute -= 1

    def zeros(ts):
        return [Implies(And(t.arg(0) == 0, t.arg(2) > 0), t == 0) for t in ts if z3.is_app(t) and t.decl().eq(DIGIT)]
    pv = prove.Prover([zeros], 4000)
    # a tuple exists, so no factor is empty
    qs = [t for t in subterms([g0]) if z3.is_app(t) and t.decl().eq(DIGIT)]
    return pv.prove(s0.hyp() + [Implies(it.n > 0, t.arg(2) > 0) for t in qs], Not(g0)) == 'proved' and pv.prove(s1.hyp(), g1) == 'proved'


def ordering(x, y):
    return Opq(z3.Function('ordering', OP, OP, OP)(x, y), 'ordering')


@role('seq', 'partial_cmp')
def _(ex, st, c, a):
    x, y = sv(ex, st, a[0]), sv(ex, st, a[1])
    return st, some(ordering(x.term, y.term))


@role('seq', 'cmp')
def _(ex, st, c, a):
    x, y = sv(ex, st, a[0]), sv(ex, st, a[1])
    return st, ordering(x.term, y.term)


@m('sorted', 'sorted_by', 'sorted_unstable', 'sorted_unstable_by')
def _sorted(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not getattr(it, 'lex', False):
        return NEXT
    if len(a) == 2:
        # the comparator must be the natural (lexicographic) order
        x, y = Opq(z3.Const('seq_x', OP), 'seq'), Opq(z3.Const('seq_y', OP), 'seq')
        s, o = ex.apply(a[1], [ValRef(x), ValRef(y)], st.fork())
        o = ex.strip(s, o)
        if not (isinstance(o, Opq) and o.term.eq(ordering(x.term, y.term).term)):
            return NEXT
    return st, it       # already strictly increasing


@m('sort', 'sort_unstable', 'dedup')
def _sort_vec(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Arr) and getattr(w, 'lex', False):
        return st, UNIT     # strictly increasing already
    return NEXT


@m('dedup')
def _dedup(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not getattr(it, 'lex', False):
        return NEXT
    return st, it       # strictly increasing: no two neighbours are equal


@m('extend')
def _extend(ex, st, c, a):
    l = ex.loc(st, a[0])
    w = sv(ex, st, a[0])
    it = as_iter(ex, st, a[1])
    if isinstance(w, Arr):
        def body(s, v, p):
            s = s.fork()
            x = ex.read(s, l)
            v = ex.strip(s, v) if isinstance(v, (Ref, ValRef)) else v
            ex.write(s, l, x.set(x.n, v).with_n(z3.simplify(x.n + 1)))
            return s
        return loops.each(ex, st, it, body, 'extend'), UNIT
    if isinstance(w, MapV):
        s, v = collect_map(ex, st, it, w.kind, w)
        s = s.fork()
        ex.write(s, l, v)
        return s, UNIT
    return NEXT


# ------------------------------------------------------------ slices, Vec, arrays
@m('len', 'is_empty', 'ncols', 'nrows', 'capacity', 'raw_dim')
def _len(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Iter):
        n = clip(ex, st, remaining(w))
        if c.method == 'len':
            return st, n
        return NEXT
    if isinstance(w, Arr):
        n = w.n
    elif isinstance(w, MapV):
        n = w.size()
    elif isinstance(w, Mat):
        if c.method == 'ncols':
            return st, w.nc
        if c.method == 'nrows':
            return st, w.nr
        n = w.nr * w.nc
    else:
        return NEXT
    if c.method == 'is_empty':
        if isinstance(w, MapV):
            q = fresh('q', I)
            return st, neg(bany(q, w.dom(q)))
        return st, n == 0
    if c.method in ('capacity',):
        return NEXT
    return st, n


@m('dim')
def _dim(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Arr):
        return st, w.n
    if isinstance(w, Mat):
        return st, Tup([w.nr, w.nc])
    return NEXT


@m('shape')
def _shape(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Arr):
        return st, ValRef(_E.lit_arr([w.n]))
    if isinstance(w, Mat):
        return st, ValRef(_E.lit_arr([w.nr, w.nc]))
    return NEXT


def in_bounds(v, i):
    return And(i >= 0, i < v.n)


@m('index', 'index_mut')
def _index(ex, st, c, a):
    l = loc(ex, st, a[0])
    w = sv(ex, st, a[0])
    i = sv(ex, st, a[1])
    if isinstance(w, Arr):
        if isinstance(i, Adt) and i.name == 'Range':
            return NEXT
        if isinstance(i, Arr):
            i = i.get(IntVal(0))
        st = ex.oblige(st, 'index in bounds', in_bounds(w, i), 'panic')
        return st, sub(l, w, 'i', i)
    if isinstance(w, Mat):
        if isinstance(i, Arr):
            r, k = i.get(IntVal(0)), i.get(IntVal(1))
        else:
            r, k = i.items
        st = ex.oblige(st, 'index in bounds', And(r >= 0, r < w.nr, k >= 0, k < w.nc), 'panic')
        return st, sub(l, w, 'ij', r, k)
    if isinstance(w, MapV):
        st = ex.oblige(st, 'key present', w.dom(i), 'panic')
        return st, sub(l, w, 'k', i)
    return NEXT


@m('get', 'get_mut')
def _get(ex, st, c, a):
    l = loc(ex, st, a[0])
    w = sv(ex, st, a[0])
    i = sv(ex, st, a[1])
    if isinstance(w, Arr):
        if not is_expr(i):
            return NEXT
        return st, opt(in_bounds(w, i), lambda: sub(l, w, 'i', i))
    if isinstance(w, MapV):
        return st, opt(w.dom(i), lambda: sub(l, w, 'k', i))
    if isinstance(w, Mat) and isinstance(i, Tup):
        r, k = i.items
        return st, opt(And(r >= 0, r < w.nr, k >= 0, k < w.nc), lambda: sub(l, w, 'ij', r, k))
    return NEXT


@m('uget', 'uget_mut', 'get_unchecked', 'get_unchecked_mut')
def _uget(ex, st, c, a):
    l = loc(ex, st, a[0])
    w = sv(ex, st, a[0])
    i = sv(ex, st, a[1])
    if isinstance(w, Arr):
        st = ex.oblige(st, 'unchecked access in bounds', in_bounds(w, i), 'mem')
        return st, sub(l, w, 'i', i)
    if isinstance(w, Mat) and isinstance(i, Tup):
        r, k = i.items
        st = ex.oblige(st, 'unchecked access in bounds', And(r >= 0, r < w.nr, k >= 0, k < w.nc), 'mem')
        return st, sub(l, w, 'ij', r, k)
    return NEXT


@m('first', 'last')
def _first(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, Arr):
        return NEXT
    l = loc(ex, st, a[0])
    i = IntVal(0) if c.method == 'first' else z3.simplify(w.n - 1)
    return st, opt(w.n > 0, lambda: sub(l, w, 'i', i))


@m('push')
def _push(ex, st, c, a):
    l = ex.loc(st, a[0])
    w = sv(ex, st, a[0])
    if not isinstance(w, Arr):
        return NEXT
    st = st.fork()
    ex.write(st, l, w.set(w.n, a[1]).with_n(z3.simplify(w.n + 1)))
    return st, UNIT


@m('new', 'with_capacity', 'default')
def _new(ex, st, c, a):
    t = _E.last_seg(c.selfty) if c.selfty else ''
    if t == 'Vec':
        return st, Arr(IntVal(0), lambda i: Absent('element of an empty sequence'))
    if t in ('HashMap', 'HashSet'):
        return st, empty_map('map' if t == 'HashMap' else 'set')
    if t == 'MaybeUninit':
        return st, a[0]
    if t == 'Box':
        return st, BoxV(a[0])
    if t == 'RangeInclusive':
        return st, Adt('Range', 'Range', [a[0], a[1], FALSE])
    if t == 'String':
        return st, Opq(fresh('str', OP), 'str')
    if t in ('Arguments', 'Argument'):
        return st, Opq(fresh('str', OP), 'str')
    if t == 'f64' and c.method == 'default':
        return st, RealVal(0)
    if t == 'usize' and c.method == 'default':
        return st, IntVal(0)
    return NEXT


@m('from_str_nonconst', 'new_display', 'new_debug', 'new_const', 'new_v1', 'format', 'to_string', 'from_str')
def _fmt(ex, st, c, a):
    return st, Opq(z3.Const('text', OP), 'str')


@m('write_fmt', 'write_str', 'debug_struct_field1_finish', 'debug_struct_field2_finish')
def _wfmt(ex, st, c, a):
    return NEXT


@m('from_elem')
def _from_elem(ex, st, c, a):
    # std::vec::from_elem(elem, n) / ArrayBase::from_elem(shape, elem)
    if 'ndarray' in c.path or (c.selfty and 'ArrayBase' in c.selfty) or 'ArrayBase' in c.path:
        n, v = sv(ex, st, a[0]), a[1]
        if isinstance(n, Tup):
            r, k = n.items
            return st, Mat(r, k, lambda i, j: v)
        return st, Arr(n, lambda i: v, TRUE, 'nd1')
    v, n = a[0], num(ex, st, a[1])
    return st, Arr(n, lambda i: v)


@m('zeros', 'ones')
def _zeros(ex, st, c, a):
    n = sv(ex, st, a[0])
    v = RealVal(0 if c.method == 'zeros' else 1)
    if isinstance(n, Tup):
        r, k = n.items
        return st, Mat(r, k, lambda i, j: v)
    if isinstance(n, Arr):
        return NEXT
    return st, Arr(n, lambda i: v, TRUE, 'nd1')


@m('from_shape_fn')
def _fsf(ex, st, c, a):
    n = sv(ex, st, a[0])
    if not is_expr(n):
        return NEXT
    it = Iter(True, n, None, lambda e, s, p: e.apply(a[1], [p], s))
    return collect_arr(ex, st, it, 'nd1')


@m('uninit')
def _uninit(ex, st, c, a):
    n = sv(ex, st, a[0])
    if not is_expr(n):
        return NEXT
    u = Uninit()
    return st, Arr(n, lambda i: u, TRUE, 'nd1')


@m('assume_init')
def _assume_init(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Arr):
        i = fresh('ui', I)
        st = ex.oblige(st, 'every element is initialised before assume_init', Implies(in_bounds(w, i), ex.valid(w.get(i))), 'mem')
        return st, Arr(w.n, lambda k: strip_init(w.get(k)), w.std, w.kind)
    return NEXT


def strip_init(v):
    if isinstance(v, MaybeInit):
        a, b = strip_init(v.a), strip_init(v.b)
        if isinstance(a, (Uninit, Poison)):
            return b
        if isinstance(b, (Uninit, Poison)):
            return a
        return vite(v.c, a, b)
    return v


@m('zeroed')
def _zeroed(ex, st, c, a):
    if 'mem' not in c.path:
        return NEXT
    return st, Uninit()


@m('replace')
def _replace(ex, st, c, a):
    if len(a) != 2:
        return NEXT
    old = ex.read(st, ex.loc(st, a[0]))
    st = st.fork()
    ex.write(st, ex.loc(st, a[0]), a[1])
    return st, old


@m('swap')
def _swap(ex, st, c, a):
    if len(a) != 2:
        return NEXT
    l1, l2 = ex.loc(st, a[0]), ex.loc(st, a[1])
    x, y = ex.read(st, l1), ex.read(st, l2)
    st = st.fork()
    ex.write(st, l1, y)
    ex.write(st, l2, x)
    return st, UNIT


@m('drop', 'forget')
def _drop(ex, st, c, a):
    v = a[0]
    g = ex.valid(v) if not isinstance(v, (Ref, ValRef, MutView)) else TRUE
    if c.method == 'drop' and not is_true(z3.simplify(g)):
        st = ex.oblige(st, 'dropped value is valid', g, 'mem')
    return st, UNIT


@m('write')
def _write(ex, st, c, a):
    if c.path.startswith(('std::ptr', 'core::ptr', 'ptr::')):
        st = st.fork()
        ex.write(st, a[0], a[1])
        return st, UNIT
    if c.selfty and 'MaybeUninit' in c.selfty:
        st = st.fork()
        ex.write(st, ex.loc(st, a[0]), a[1])
        return st, a[0]
    return NEXT


@m('read')
def _read(ex, st, c, a):
    if c.path.startswith(('std::ptr', 'core::ptr', 'ptr::')):
        v = ex.read(st, a[0])
        if owns(v) and isinstance(a[0], Ref):
            st = st.fork()
            ex.write(st, a[0], Gone())
        return st, v
    return NEXT


def owns(v):
    """whether copying the bits of the value duplicates ownership"""
    if isinstance(v, (Arr, MapV, BoxV, Mat)):
        return True
    if isinstance(v, Tup):
        return any(owns(x) for x in v.items)
    if isinstance(v, (Adt, Alt)):
        return any(owns(x) for _, y in alts(v) for x in y.fields)
    return False


@m('new_uninit')
def _nu(ex, st, c, a):
    st = st.fork()
    return st, ex.alloc(st, Uninit(), 'Box')


@m('box_assume_init_into_vec_unsafe', 'into_vec')
def _biv(ex, st, c, a):
    w = sv(ex, st, a[0])
    while isinstance(w, (BoxV, Adt, Tup)):
        w = w.v if isinstance(w, BoxV) else (w.fields if isinstance(w, Adt) else w.items)[-1]
    if isinstance(w, Arr):
        return st, Arr(w.n, lambda i: strip_init(w.get(i)))
    return NEXT


@m('to_vec', 'into_vec', 'to_owned', 'into_owned', 'into_boxed_slice')
def _to_vec(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, Arr):
        return st, Arr(w.n, w.get, TRUE, 'vec' if c.method != 'to_owned' and c.method != 'into_owned' else w.kind)
    return NEXT


@m('view', 'slice')
def _view(ex, st, c, a):
    if len(a) != 1:
        return NEXT
    return st, loc(ex, st, a[0])


@m('view_mut')
def _view_mut(ex, st, c, a):
    l = loc(ex, st, a[0])
    return st, MutView(l) if isinstance(l, Ref) else l


@m('reborrow')
def _reborrow(ex, st, c, a):
    return st, a[0]


@m('column', 'column_mut', 'row', 'row_mut', 'index_axis', 'index_axis_mut')
def _column(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, Mat):
        return NEXT
    l = loc(ex, st, a[0])
    if c.method.startswith('index_axis'):
        ax = ex.strip(st, a[1])
        if isinstance(ax, Adt):
            ax = ax.fields[0]
        k = 'row' if z3.is_int_value(ax) and ax.as_long() == 0 else 'col'
        j = num(ex, st, a[2])
    else:
        k = c.method[:3]
        j = num(ex, st, a[1])
    st = ex.oblige(st, 'column in bounds', And(j >= 0, j < (w.nc if k == 'col' else w.nr)), 'panic')
    r = sub(l, w, k, j)
    if c.method.endswith('_mut'):
        if k == 'row':
            return NEXT
        return st, MutView(r)
    return st, r


@m('columns', 'columns_mut', 'gencolumns', 'gencolumns_mut', 'outer_iter', 'rows', 'genrows', 'lanes', 'axis_iter', 'lanes_mut', 'axis_iter_mut')
def _columns(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, Mat):
        return NEXT
    l = loc(ex, st, a[0])
    if c.method in ('outer_iter', 'rows', 'genrows'):
        return st, Iter(True, w.nr, None, lambda e, s, p: (s, sub(l, w, 'row', p)))
    if 'lanes' in c.method or 'axis' in c.method:
        ax = ex.strip(st, a[1])
        if isinstance(ax, Adt):
            ax = ax.fields[0]
        if not z3.is_int_value(ax):
            return NEXT
        isax1 = ax.as_long() == 1
        rows = isax1 if 'lanes' in c.method else not isax1
        if rows:
            if 'mut' in c.method:
                return NEXT
            return st, Iter(True, w.nr, None, lambda e, s, p: (s, sub(l, w, 'row', p)))
    if c.method.endswith('_mut'):
        return st, Iter(True, w.nc, None, lambda e, s, p: (s, MutView(sub(l, w, 'col', p))))
    return st, Iter(True, w.nc, None, lambda e, s, p: (s, sub(l, w, 'col', p)))


@m('indexed_iter', 'indexed_iter_mut')
def _indexed(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, Arr):
        return NEXT
    l = loc(ex, st, a[0])
    it = iter_arr(ex, st, l, w)
    return st, Iter(True, w.n, None, lambda e, s, p: (lambda sx: (sx[0], Tup([p, sx[1]])))(it.elem(e, s, p)))


@m('fill')
def _fill(ex, st, c, a):
    l = ex.loc(st, a[0])
    w = sv(ex, st, a[0])
    v = a[1]
    st = st.fork()
    if isinstance(w, Arr):
        ex.write(st, l, Arr(w.n, lambda i: v, w.std, w.kind))
        return st, UNIT
    if isinstance(w, Mat):
        ex.write(st, l, Mat(w.nr, w.nc, lambda i, j: v, w.std))
        return st, UNIT
    return NEXT


@m('assign')
def _assign(ex, st, c, a):
    l = ex.loc(st, a[0])
    w, v = sv(ex, st, a[0]), sv(ex, st, a[1])
    if isinstance(w, Arr) and isinstance(v, Arr):
        st = ex.oblige(st, 'shapes agree in assign', w.n == v.n, 'panic').fork()
        ex.write(st, l, Arr(w.n, v.get, w.std, w.kind))
        return st, UNIT
    return NEXT


@m('mapv', 'mapv_into', 'map_inplace', 'mapv_inplace')
def _mapv(ex, st, c, a):
    w = sv(ex, st, a[0])
    f = a[1]
    if not isinstance(w, Arr):
        return NEXT
    if c.method in ('mapv', 'mapv_into'):
        it = iter_arr(ex, st, None, w, True)
        it2 = it.repl(elem=lambda e, s, p: e.apply(f, [w.get(p)], s))
        s, out = collect_arr(ex, st, it2, 'nd1')
        return s, Arr(out.n, out.get, w.std, 'nd1')
    l = ex.loc(st, a[0])

    def body(s, v, p):
        s = s.fork()
        if c.method == 'map_inplace':
            s, _ = ex.apply(f, [v], s)
            return s
        s, r = ex.apply(f, [ex.strip(s, v)], s)
        s = s.fork()
        ex.write(s, v, r)
        return s
    return loops.each(ex, st, iter_arr(ex, st, l, w), body, c.method), UNIT


@m('zip_mut_with')
def _zmw(ex, st, c, a):
    l = ex.loc(st, a[0])
    w, y = sv(ex, st, a[0]), sv(ex, st, a[1])
    f = a[2]
    if not (isinstance(w, Arr) and isinstance(y, Arr)):
        return NEXT
    st = ex.oblige(st, 'shapes agree in zip_mut_with', w.n == y.n, 'panic')

    def body(s, v, p):
        return ex.apply(f, [v, ValRef(y.get(p))], s)[0]
    return loops.each(ex, st, iter_arr(ex, st, l, w), body, 'zip_mut_with'), UNIT


@m('scaled_add')
def _scaled_add(ex, st, c, a):
    l = ex.loc(st, a[0])
    w, k, y = sv(ex, st, a[0]), num(ex, st, a[1]), sv(ex, st, a[2])
    if not (isinstance(w, Arr) and isinstance(y, Arr)):
        return NEXT
    st = ex.oblige(st, 'shapes agree in scaled_add', w.n == y.n, 'panic').fork()
    ex.write(st, l, Arr(w.n, lambda i: w.get(i) + k * y.get(i), w.std, w.kind))
    return st, UNIT


@m('dot')
def _dot(ex, st, c, a):
    w, y = sv(ex, st, a[0]), sv(ex, st, a[1])
    if isinstance(w, Arr) and isinstance(y, Arr):
        st = ex.oblige(st, 'shapes agree in dot', w.n == y.n, 'panic')
        q = fresh('q', I)
        return st, bsum(q, And(q >= 0, q < w.n), w.get(q) * y.get(q))
    if isinstance(w, Arr) and isinstance(y, Mat):
        st = ex.oblige(st, 'shapes agree in dot', w.n == y.nr, 'panic')

        def g(j):
            q = fresh('q', I)
            return bsum(q, And(q >= 0, q < w.n), w.get(q) * y.get(q, j))
        return st, Arr(y.nc, g, TRUE, 'nd1')
    return NEXT


# ------------------------------------------------------------ hash maps
@m('contains_key')
def _ck(ex, st, c, a):
    return st, sv(ex, st, a[0]).dom(num(ex, st, a[1]))


@m('insert')
def _insert(ex, st, c, a):
    l = ex.loc(st, a[0])
    w = sv(ex, st, a[0])
    if not isinstance(w, MapV):
        return NEXT
    k = num(ex, st, a[1])
    old = w.dom(k)
    st = st.fork()
    if w.kind == 'set':
        ex.write(st, l, w.insert(k, UNIT))
        return st, neg(old)
    try:
        prev = opt(old, lambda: w.val(k))
    except Unsupported:
        prev = Poison('previous value')
    ex.write(st, l, w.insert(k, a[2]))
    return st, prev


@m('remove')
def _remove(ex, st, c, a):
    l = ex.loc(st, a[0])
    w = sv(ex, st, a[0])
    if isinstance(w, MapV):
        k = num(ex, st, a[1])
        st = st.fork()
        old = w.dom(k)
        ex.write(st, l, w.remove(k))
        if w.kind == 'set':
            return st, old
        return st, opt(old, lambda: w.val(k))
    return NEXT


@m('retain')
def _retain(ex, st, c, a):
    return NEXT


@m('entry')
def _entry(ex, st, c, a):
    l = ex.loc(st, a[0])
    return st, Adt('MapEntry', 'MapEntry', [l, num(ex, st, a[1])])


@m('or_insert_with', 'or_insert', 'or_insert_with_key', 'or_default', 'and_modify')
def _or_insert(ex, st, c, a):
    e = a[0]
    l, k = e.fields
    w = sv(ex, st, l)
    d = w.dom(k)
    if c.method == 'and_modify':
        rets = []
        if ex.feasible(st, d):
            s1, _ = ex.apply(a[1], [l.ext(('k', k))], st.assume(d))
            rets.append((s1, e))
        if ex.feasible(st, neg(d)):
            rets.append((st.assume(neg(d)), e))
        return ex.merge(st, rets)
    rets = []
    if ex.feasible(st, d):
        rets.append((st.assume(d), l.ext(('k', k))))
    if ex.feasible(st, neg(d)):
        s = st.assume(neg(d))
        if c.method == 'or_insert':
            v = a[1]
        elif c.method == 'or_default':
            v = RealVal(0)
        else:
            s, v = ex.apply(a[1], [], s)
        s = s.fork()
        ex.write(s, l, sv(ex, s, l).insert(k, v))
        rets.append((s, l.ext(('k', k))))
    return ex.merge(st, rets)


# ------------------------------------------------------------ function objects
@m('call', 'call_mut', 'call_once')
def _call(ex, st, c, a):
    f, t = a
    return ex.apply(f, list(t.items), st)


@m('begin_panic', 'panic_fmt', 'panic')
def _panic(ex, st, c, a):
    ex.oblige(st, 'explicit panic', FALSE, 'panic')
    raise _E.Diverges('panic')
