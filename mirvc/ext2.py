"""More models (assumed contracts) of std, ndarray and itertools functions: not called by the crate
today, but what a rewrite of it would naturally call."""
import re
import z3
from terms import *
from values import *
import loops
import ext
import exec as _E
from ext import (m, NEXT, match, sv, loc, sub, snap, num, real, remaining, clip, imin, imax, iter_arr, iter_map, to_iter, as_iter,
                 accumulate, collect_arr, collect_map, empty_map, is_enum, wrap, as_ref, iter_dom, abs_pos, deep_eq, in_bounds, role)


def seq(ex, st, x):
    """the sequence that a Vec, slice or array argument holds, else None"""
    v = sv(ex, st, x)
    return v if isinstance(v, Arr) else None


def put(ex, st, x, v):
    l = ex.loc(st, x)
    st = st.fork()
    ex.write(st, l, v)
    return st


# ------------------------------------------------------------ capacity
@m('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to')
def _reserve(ex, st, c, a):
    v = sv(ex, st, a[0])
    return (st, UNIT) if isinstance(v, (Arr, MapV)) else NEXT


# ------------------------------------------------------------ Vec
@m('pop')
def _pop(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None:
        return NEXT
    n = v.n
    st = put(ex, st, a[0], v.with_n(z3.simplify(If(n > 0, n - 1, n))))
    return st, opt(n > 0, lambda: v.get(z3.simplify(n - 1)))


@m('truncate')
def _truncate(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None:
        return NEXT
    return put(ex, st, a[0], v.with_n(z3.simplify(imin(ex, st, v.n, num(ex, st, a[1]))))), UNIT


@m('clear')
def _clear(ex, st, c, a):
    v = sv(ex, st, a[0])
    if isinstance(v, Arr):
        return put(ex, st, a[0], v.with_n(IntVal(0))), UNIT
    if isinstance(v, MapV):
        return put(ex, st, a[0], empty_map(v.kind)), UNIT
    return NEXT


@m('resize')
def _resize(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None or len(a) != 3:
        return NEXT
    n, k, x = v.n, num(ex, st, a[1]), a[2]
    return put(ex, st, a[0], Arr(k, lambda i: vite(i < n, v.get(i), x), TRUE, v.kind)), UNIT


@m('insert')
def _vinsert(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None or len(a) != 3:
        return NEXT
    k, x = num(ex, st, a[1]), a[2]
    st = ex.oblige(st, 'insertion index in bounds', And(k >= 0, k <= v.n), 'panic')
    return put(ex, st, a[0], Arr(z3.simplify(v.n + 1), lambda i: vite(i < k, v.get(i), vite(i == k, x, v.get(i - 1))), TRUE, v.kind)), UNIT


@m('remove')
def _vremove(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None or len(a) != 2:
        return NEXT
    k = num(ex, st, a[1])
    st = ex.oblige(st, 'removal index in bounds', in_bounds(v, k), 'panic')
    return put(ex, st, a[0], Arr(z3.simplify(v.n - 1), lambda i: vite(i < k, v.get(i), v.get(i + 1)), TRUE, v.kind)), v.get(k)


@m('extend_from_slice', 'append')
def _efs(ex, st, c, a):
    v, w = seq(ex, st, a[0]), seq(ex, st, a[1])
    if v is None or w is None:
        return NEXT
    n = v.n
    st = put(ex, st, a[0], Arr(z3.simplify(n + w.n), lambda i: vite(i < n, v.get(i), w.get(z3.simplify(i - n))), TRUE, v.kind))
    if c.method == 'append':
        st = put(ex, st, a[1], w.with_n(IntVal(0)))
    return st, UNIT


def reals(v):
    x = v.get(fresh('t', I))
    return is_expr(x)


@m('concat')
def _concat(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None or not z3.is_int_value(z3.simplify(v.n)):
        return NEXT
    out = None
    for k in range(z3.simplify(v.n).as_long()):
        w = sv(ex, st, v.get(IntVal(k)))
        if not isinstance(w, Arr):
            return NEXT
        out = w if out is None else (lambda o, w: Arr(z3.simplify(o.n + w.n), lambda i: vite(i < o.n, o.get(i), w.get(z3.simplify(i - o.n))), TRUE, 'vec'))(out, w)
    return (st, Arr(out.n, out.get, TRUE, 'vec')) if out is not None else NEXT


@m('to_vec')
def _tv(ex, st, c, a):
    return NEXT


@m('swap')
def _vswap(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None or len(a) != 3:
        return NEXT
    i, j = num(ex, st, a[1]), num(ex, st, a[2])
    st = ex.oblige(st, 'index in bounds', And(in_bounds(v, i), in_bounds(v, j)), 'panic')
    return put(ex, st, a[0], Arr(v.n, lambda k: vite(k == i, v.get(j), vite(k == j, v.get(i), v.get(k))), v.std, v.kind)), UNIT


@m('reverse')
def _reverse(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None:
        return NEXT
    return put(ex, st, a[0], Arr(v.n, lambda k: v.get(z3.simplify(v.n - 1 - k)), v.std, v.kind)), UNIT


def piece(v, lo, hi):
    return ValRef(Arr(z3.simplify(hi - lo), lambda i: v.get(z3.simplify(lo + i)), v.std, v.kind))


def bounds_of(v, r):
    f, nm = r.fields, r.names or []
    d = dict(zip(nm, f)) if nm else {}
    if r.name == 'RangeFull':
        return IntVal(0), v.n
    if r.name == 'RangeFrom':
        return f[0], v.n
    if r.name == 'RangeTo':
        return IntVal(0), f[0]
    if r.name == 'RangeToInclusive':
        return IntVal(0), z3.simplify(f[0] + 1)
    if r.name == 'Range' and len(f) == 2:
        return f[0], f[1]
    if r.name == 'Range':
        return f[0], z3.simplify(f[1] + 1)
    return None


@m('index')
def _slice_index(ex, st, c, a):
    v = seq(ex, st, a[0])
    r = sv(ex, st, a[1])
    if v is None or not isinstance(r, Adt) or not r.name.startswith('Range'):
        return NEXT
    b = bounds_of(v, r)
    if b is None:
        return NEXT
    lo, hi = b
    st = ex.oblige(st, 'slice in bounds', And(lo >= 0, lo <= hi, hi <= v.n), 'panic')
    return st, piece(v, lo, hi)


@m('get')
def _slice_get(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None or len(a) != 2:
        return NEXT
    r = sv(ex, st, a[1])
    if not isinstance(r, Adt) or not r.name.startswith('Range'):
        return NEXT
    b = bounds_of(v, r)
    if b is None:
        return NEXT
    lo, hi = b
    return st, opt(And(lo >= 0, lo <= hi, hi <= v.n), lambda: piece(v, lo, hi))


def part(ex, st, x, v, lo, hi):
    """a part of a sequence that may be written through"""
    l = ext.loc(ex, st, x)
    if not isinstance(l, Ref):
        return piece(v, lo, hi)
    r = l.ext(('sl', lo, hi))
    return MutView(r) if v.kind == 'nd1' else r


@m('split_at', 'split_at_mut')
def _split_at(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None or len(a) not in (2, 3):
        return NEXT
    if len(a) == 3:
        ax = sv(ex, st, a[1])
        if not (isinstance(ax, Adt) and ax.name == 'Axis') or v.kind != 'nd1':
            return NEXT
        st = ex.oblige(st, 'axis of a one-dimensional array', num(ex, st, ax.fields[0]) == 0, 'panic')
    k = num(ex, st, a[-1])
    st = ex.oblige(st, 'split in bounds', And(k >= 0, k <= v.n), 'panic')
    if c.method == 'split_at_mut' or len(a) == 3 and isinstance(a[0], MutView):
        return st, Tup([part(ex, st, a[0], v, IntVal(0), k), part(ex, st, a[0], v, k, v.n)])
    return st, Tup([piece(v, IntVal(0), k), piece(v, k, v.n)])


@m('index_mut')
def _slice_index_mut(ex, st, c, a):
    v = seq(ex, st, a[0])
    r = sv(ex, st, a[1])
    b = bounds_of(v, r) if v is not None and isinstance(r, Adt) and r.name.startswith('Range') else None
    if b is None:
        return NEXT
    lo, hi = b
    st = ex.oblige(st, 'slice in bounds', And(lo >= 0, lo <= hi, hi <= v.n), 'panic')
    return st, part(ex, st, a[0], v, lo, hi)


@m('first_mut', 'last_mut')
def _first_mut(ex, st, c, a):
    v = seq(ex, st, a[0])
    l = ext.loc(ex, st, a[0]) if v is not None else None
    if v is None:
        return NEXT
    i = IntVal(0) if c.method == 'first_mut' else z3.simplify(v.n - 1)
    return st, opt(v.n > 0, lambda: ext.sub(l, v, 'i', i))


@m('split_first_mut', 'split_last_mut')
def _split_first_mut(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None:
        return NEXT
    l, last = ext.loc(ex, st, a[0]), z3.simplify(v.n - 1)
    if c.method == 'split_first_mut':
        return st, opt(v.n > 0, lambda: Tup([ext.sub(l, v, 'i', IntVal(0)), part(ex, st, a[0], v, IntVal(1), v.n)]))
    return st, opt(v.n > 0, lambda: Tup([ext.sub(l, v, 'i', last), part(ex, st, a[0], v, IntVal(0), last)]))


@m('chunks_mut', 'chunks_exact_mut')
def _chunks_mut(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None:
        return NEXT
    k = num(ex, st, a[1])
    st = ex.oblige(st, 'piece size is not zero', k > 0, 'panic')
    l = ext.loc(ex, st, a[0])
    n = v.n / k if c.method == 'chunks_exact_mut' else (v.n + k - 1) / k
    return st, Iter(True, z3.simplify(n), None, lambda e, s, p: (s, part(e, s, l, v, z3.simplify(p * k), z3.simplify(If(p * k + k <= v.n, p * k + k, v.n)))))


@m('split_first', 'split_last')
def _split_first(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None:
        return NEXT
    if c.method == 'split_first':
        return st, opt(v.n > 0, lambda: Tup([ValRef(v.get(IntVal(0))), piece(v, IntVal(1), v.n)]))
    return st, opt(v.n > 0, lambda: Tup([ValRef(v.get(z3.simplify(v.n - 1))), piece(v, IntVal(0), z3.simplify(v.n - 1))]))


@m('windows', 'chunks', 'chunks_exact')
def _windows(ex, st, c, a):
    v = seq(ex, st, a[0])
    if v is None:
        return NEXT
    k = num(ex, st, a[1])
    st = ex.oblige(st, 'piece size is not zero', k > 0, 'panic')
    if c.method == 'windows':
        return st, Iter(True, clip(ex, st, v.n - k + 1), None, lambda e, s, p: (s, piece(v, p, z3.simplify(p + k))))
    n = v.n / k if c.method == 'chunks_exact' else (v.n + k - 1) / k
    return st, Iter(True, z3.simplify(n), None, lambda e, s, p: (s, piece(v, z3.simplify(p * k), z3.simplify(If(p * k + k <= v.n, p * k + k, v.n)))))


@m('as_ptr', 'as_mut_ptr')
def _ptr(ex, st, c, a):
    return NEXT


# ------------------------------------------------------------ iterators
@m('last')
def _last(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, Iter) or not w.contig or w.n is INF:
        return NEXT
    n = clip(ex, st, remaining(w))
    return some_at(ex, st, w, n > 0, z3.simplify(w.start + n - 1))


def some_at(ex, st, it, g, pos):
    rets = []
    g = z3.simplify(g)
    if ex.feasible(st, g):
        s, x = it.elem(ex, st.assume(g), pos)
        rets.append((s, some(x)))
    if ex.feasible(st, neg(g)):
        rets.append((st.assume(neg(g)), none()))
    return rets[0] if len(rets) == 1 else ex.merge(st, rets)


@m('nth')
def _nth(ex, st, c, a):
    w = sv(ex, st, a[0])
    k = num(ex, st, a[1])
    if isinstance(w, Adt) and w.name == 'Range':
        it = to_iter(ex, st, w)
        return st, opt(it.dom(k), lambda: z3.simplify(w.fields[0] + k))
    if not isinstance(w, Iter) or not w.contig:
        return NEXT
    l = ex.loc(st, a[0]) if isinstance(a[0], (Ref, MutView)) else None
    g = w.dom(k)
    st, r = some_at(ex, st, w, g, z3.simplify(w.start + k))
    if isinstance(l, Ref):
        st = st.fork()
        ex.write(st, l, w.repl(start=z3.simplify(w.start + k + 1)))
    return st, r


@m('step_by')
def _step_by(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    k = num(ex, st, a[1])
    if not it.contig or it.n is INF:
        return NEXT
    st = ex.oblige(st, 'step is not zero', k > 0, 'panic')
    n = z3.simplify((clip(ex, st, remaining(it)) + k - 1) / k)
    return st, Iter(True, n, None, lambda e, s, p: it.elem(e, s, z3.simplify(it.start + p * k)))


@m('inspect')
def _inspect(ex, st, c, a):
    it = as_iter(ex, st, a[0])

    def el(e, s, p):
        s, x = it.elem(e, s, p)
        s, _ = e.apply(a[1], [as_ref(e, s, x)], s)
        return s, x
    return st, it.repl(elem=el)


def tester(ex, st, it, f, byref=False):
    """(condition, element) of the predicate f at position q of the iterator; f must not change anything"""
    cache = {}
    dom = iter_dom(ex, st, it)

    def at(q):
        if q.get_id() not in cache:
            ex.mute += 1
            try:
                s = st.assume(dom(q))
                s, x = it.elem(ex, s, abs_pos(it, q))
                n = s.version() if hasattr(s, 'version') else None
                s2, r = ex.apply(f, [as_ref(ex, s, x) if byref else x], s)
            finally:
                ex.mute -= 1
            cache[q.get_id()] = (q, s2, r, x)
        return cache[q.get_id()][1:]
    return dom, at


def checked(ex, st, it, f, byref=False):
    """runs f once on an arbitrary element, so that its obligations are stated, and rejects side effects"""
    q = fresh('q', I)
    dom = iter_dom(ex, st, it)
    s0 = st.assume(dom(q))
    if not ex.feasible(s0, TRUE):
        return
    s, x = it.elem(ex, s0, abs_pos(it, q))
    s2, r = ex.apply(f, [as_ref(ex, s, x) if byref else x], s)
    for k, v in s0.cells.items():
        if s2.cells.get(k) is not v:
            raise Unsupported('predicate with side effects')


def find_somewhere(ex, st, c, a, it, byref):
    """search of an unordered collection: any element that satisfies the predicate may be found"""
    checked(ex, st, it, a[1], byref)
    dom, at = tester(ex, st, it, a[1], byref)

    def cond(q):
        r = at(q)[1]
        return disj(*[g for g, y in alts(r) if y.variant == 'Some']) if c.method == 'find_map' else r
    q, w = fresh('q', I), fresh('some', I)
    hit = bany(q, And(dom(q), cond(q)))
    rets = []
    if ex.feasible(st, hit):
        s1 = st.assume(hit).fact(And(dom(w), cond(w)))
        if c.method == 'find':
            s1, x = it.elem(ex, s1, w)
            rets.append((s1, some(snap(ex, s1, x))))
        else:
            rets.append((s1, some([y for g, y in alts(at(w)[1]) if y.variant == 'Some'][0].fields[0])))
    if ex.feasible(st, neg(hit)):
        rets.append((st.assume(neg(hit)), none()))
    return rets[0] if len(rets) == 1 else ex.merge(st, rets)


def position_by_loop(ex, st, a, it, how='position'):
    """search of an iterator whose elements have effects: only the first hit counts (the iterator itself is used up)"""
    s = st.fork()
    r = ex.alloc(s, none(), 'Found')

    def body(s, v, p):
        s = s.fork()
        o = ex.read(s, r)
        miss = disj(*[g for g, y in alts(o) if y.variant == 'None'])
        if how == 'find':
            v = snap(ex, s, v)
            s, t = ex.apply(a[1], [as_ref(ex, s, v)], s)
            s = s.fork()
            ex.write(s, r, vite(And(miss, t), some(v), o))
            return s
        s, t = ex.apply(a[1], [v], s)
        s = s.fork()
        ex.write(s, r, vite(And(miss, t), some(p), o))
        return s
    s = loops.each(ex, s, it, body, how)
    out = ex.read(s, r)
    s = s.fork()
    s.cells.pop(r.cell, None)
    if isinstance(out, Poison):
        raise Unsupported('%s: %s' % (how, out.why))
    return s, out


@m('position', 'find', 'find_map')
def _position(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    byref = c.method == 'find'
    if not it.contig and it.dom is not None and c.method != 'position':
        return find_somewhere(ex, st, c, a, it, byref)
    if not it.contig or not it.ordered or it.n is INF:
        return NEXT
    try:
        checked(ex, st, it, a[1], byref)
    except Unsupported:
        if c.method == 'find_map':
            raise
        return position_by_loop(ex, st, a, it, c.method)
    dom, at = tester(ex, st, it, a[1], byref)

    def cond(q):
        r = at(q)[1]
        return disj(*[g for g, y in alts(r) if y.variant == 'Some']) if c.method == 'find_map' else r
    q, q2 = fresh('q', I), fresh('q', I)
    hit = bany(q, And(dom(q), cond(q)))
    T = bfirst(q2, And(dom(q2), cond(q2)))
    s1 = st.assume(hit).fact(And(dom(T), cond(T)))
    if c.method == 'position':
        r1 = (s1, some(T))
    elif c.method == 'find':
        s1, x = it.elem(ex, s1, abs_pos(it, T))
        r1 = (s1, some(snap(ex, s1, x)))
    else:
        s2, r, x = at(T)
        y = [y for g, y in alts(r) if y.variant == 'Some'][0]
        r1 = (s1, some(y.fields[0]))
    rets = []
    if ex.feasible(st, hit):
        rets.append(r1)
    if ex.feasible(st, neg(hit)):
        rets.append((st.assume(neg(hit)), none()))
    if not isinstance(a[0], Iter) and isinstance(sv(ex, st, a[0]), Iter) and isinstance(a[0], (Ref, MutView)):
        pass        # the cursor is not used afterwards in any accepted program: see below
    st2, r = rets[0] if len(rets) == 1 else ex.merge(st, rets)
    l = ex.loc(st, a[0]) if isinstance(a[0], (Ref, MutView)) else None
    if isinstance(l, Ref) and isinstance(sv(ex, st, a[0]), Iter):
        st2 = st2.fork()
        ex.write(st2, l, it.repl(start=z3.simplify(it.start + If(hit, T + 1, it.n - it.start))))
    return st2, r


@m('map_axis')
def _map_axis(ex, st, c, a):
    w = sv(ex, st, a[0])
    ax = ex.strip(st, a[1])
    ax = ax.fields[0] if isinstance(ax, Adt) else ax
    if not isinstance(w, Mat) or not z3.is_int_value(ax):
        return NEXT
    l, col = loc(ex, st, a[0]), ax.as_long() == 0
    it = Iter(True, w.nc if col else w.nr, None, lambda e, s, p: e.apply(a[2], [sub(l, w, 'col' if col else 'row', p)], s))
    return collect_arr(ex, st, it, 'nd1')


@m('arr1', 'aview1')
def _arr1(ex, st, c, a):
    w = sv(ex, st, a[0])
    if len(a) != 1 or not isinstance(w, Arr):
        return NEXT
    return st, Arr(w.n, w.get, TRUE, 'nd1')


@m('try_from', 'try_into')
def _try_from(ex, st, c, a):
    """between integer types: an error exactly outside the range of the target"""
    t = _E.last_seg((c.traitargs if c.method == 'try_into' else c.selfty) or '')
    w = sv(ex, st, a[0])
    if t not in _E.INT_RANGE or not (is_expr(w) and w.sort() == I):
        return NEXT
    lo, hi = _E.INT_RANGE[t]
    g = And(w >= lo, w <= hi)
    if t in _E.WIDE:        # 64 bits: mathematical
        ex.assumptions.add(ext.NOWRAP)
        g = w >= lo if lo == 0 else TRUE
    if ex.implied(st, g):
        return st, Adt('Result', 'Ok', [w])
    return st, Alt('Result', [(g, Adt('Result', 'Ok', [w])), (neg(g), Adt('Result', 'Err', [Opq(fresh('err', OP), 'error')]))])


@m('take_while', 'skip_while', 'map_while')
def _take_while(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not it.contig or not it.ordered or it.n is INF or c.method == 'map_while':
        return NEXT
    checked(ex, st, it, a[1], True)
    dom, at = tester(ex, st, it, a[1], True)
    q, q2 = fresh('q', I), fresh('q', I)
    n = clip(ex, st, remaining(it))
    hit = bany(q, And(dom(q), Not(at(q)[1])))
    T = bfirst(q2, And(dom(q2), Not(at(q2)[1])))
    st = st.fact(Implies(hit, And(dom(T), Not(at(T)[1]))))
    T = z3.simplify(If(hit, T, n))
    if c.method == 'take_while':
        return st, Iter(True, T, None, lambda e, s, p: it.elem(e, s, z3.simplify(it.start + p)))
    return st, Iter(True, z3.simplify(n - T), None, lambda e, s, p: it.elem(e, s, z3.simplify(it.start + T + p)))


def residual(r):
    return 'Some' if r.name == 'Option' else 'Ok'


@m('try_for_each', 'try_fold')
def _try_each(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    f = a[-1]
    ret = c.generics
    name = 'Option' if 'Option<' in ret.split('->')[-1] and 'Result<' not in ret.split('->')[-1] else 'Result'
    good, bad = (some, none) if name == 'Option' else (ok, None)
    init = good(UNIT if c.method == 'try_for_each' else a[1])

    def step(s, acc, v):
        def go(s2, x):
            return ex.apply(f, [v] if c.method == 'try_for_each' else [x, v], s2)
        if name == 'Option':
            return match(ex, s, acc, {'None': lambda s2: (s2, none()), 'Some': go})
        return match(ex, s, acc, {'Err': lambda s2, e: (s2, err(e)), 'Ok': go})
    return accumulate(ex, st, it, init, step, c.method)


@m('scan')
def _scan(ex, st, c, a):
    return NEXT


@m('unzip')
def _unzip(ex, st, c, a):
    it = as_iter(ex, st, a[0])

    def part(k):
        def el(e, s, p):
            s, x = it.elem(e, s, p)
            return s, x.items[k]
        return it.repl(elem=el)
    g = c.generics
    if 'HashMap' in g or 'HashSet' in g or not it.ordered:
        return NEXT
    st, x = collect_arr(ex, st, part(0))
    st, y = collect_arr(ex, st, part(1))
    return st, Tup([x, y])


@m('reduce')
def _reduce(ex, st, c, a):
    it = as_iter(ex, st, a[0])
    if not it.contig or not it.ordered or it.n is INF:
        return NEXT
    n = clip(ex, st, remaining(it))
    g = z3.simplify(n > 0)
    rets = []
    if ex.feasible(st, g):
        s = st.assume(g)
        s, x = it.elem(ex, s, it.start)
        s, r = accumulate(ex, s, it.repl(start=z3.simplify(it.start + 1)), ex.strip(s, x) if is_expr(ex.strip(s, x)) and not isinstance(x, (Ref, ValRef)) else x, lambda s, x, v: ex.apply(a[1], [x, v], s), 'reduce')
        rets.append((s, some(r)))
    if ex.feasible(st, neg(g)):
        rets.append((st.assume(neg(g)), none()))
    return rets[0] if len(rets) == 1 else ex.merge(st, rets)


ORDERING = ('Less', 'Equal', 'Greater')


def order_of(x, y):
    return mkalt('Ordering', [(x < y, Adt('Ordering', 'Less', [])), (x == y, Adt('Ordering', 'Equal', [])), (x > y, Adt('Ordering', 'Greater', []))])


@m('partial_cmp', 'total_cmp', 'cmp')
def _pcmp(ex, st, c, a):
    if len(a) != 2:
        return NEXT
    x, y = sv(ex, st, a[0]), sv(ex, st, a[1])
    if not (is_expr(x) and is_expr(y)):
        return NEXT
    r = order_of(x, y)
    return st, some(r) if c.method == 'partial_cmp' else r


@m('min')
def _min(ex, st, c, a):
    if len(a) != 1:
        return NEXT
    it = as_iter(ex, st, a[0])
    q = fresh('q', I)
    dom = iter_dom(ex, st, it)
    s, v = it.elem(ex, st.assume(dom(q)), abs_pos(it, q))
    isref = isinstance(v, (Ref, ValRef))
    v = num(ex, s, v)
    r = bmax(q, dom(q), v, 'min')
    return st, opt(bany(q, dom(q)), lambda: ValRef(r) if isref else r)


@m('max_by', 'min_by')
def _max_by(ex, st, c, a):
    """only for comparators that are the order of the numbers compared"""
    it = as_iter(ex, st, a[0])
    q = fresh('q', I)
    dom = iter_dom(ex, st, it)
    s, v = it.elem(ex, st.assume(dom(q)), abs_pos(it, q))
    isref = isinstance(v, (Ref, ValRef))
    v = num(ex, s, v)
    x, y = z3.Const('cmp_x', v.sort()), z3.Const('cmp_y', v.sort())
    wr = (lambda t: ValRef(ValRef(t))) if isref else ValRef
    s2, o = ex.apply(a[1], [wr(x), wr(y)], st.fork())
    lst = dict((b.variant, g) for g, b in alts(ex.strip(s2, o))) if is_enum(ex.strip(s2, o), 'Ordering') else {}
    fl = c.method == 'max_by'
    if not (ex.implied(st, lst.get('Less', FALSE) == (x < y)) and ex.implied(st, lst.get('Greater', FALSE) == (x > y))):
        return NEXT
    r = bmax(q, dom(q), v, 'max' if fl else 'min')
    return st, opt(bany(q, dom(q)), lambda: ValRef(r) if isref else r)


@m('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne')
def _is_ord(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not is_enum(w, 'Ordering'):
        return NEXT
    want = {'is_lt': ['Less'], 'is_le': ['Less', 'Equal'], 'is_gt': ['Greater'], 'is_ge': ['Greater', 'Equal'], 'is_eq': ['Equal'], 'is_ne': ['Less', 'Greater']}[c.method]
    return st, disj(*[g for g, b in alts(w) if b.variant in want])


@m('successors', 'from_fn', 'flat_map', 'flatten')
def _nope(ex, st, c, a):
    w = sv(ex, st, a[0])
    if c.method == 'flatten' and is_enum(w, 'Option'):
        return match(ex, st, w, {'None': lambda s: (s, none()), 'Some': lambda s, x: (s, x)})
    return NEXT


@m('repeat_n')
def _repeat_n(ex, st, c, a):
    v, n = a[0], num(ex, st, a[1])
    return st, Iter(True, n, None, lambda e, s, p: (s, v))


@m('repeat_with')
def _repeat_with(ex, st, c, a):
    return st, Iter(True, INF, None, lambda e, s, p: e.apply(a[0], [], s))


@m('min_max', 'minmax')
def _mm(ex, st, c, a):
    return NEXT


# ------------------------------------------------------------ Option / Result
@m('filter')
def _ofilter(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not is_enum(w, 'Option'):
        return NEXT

    def go(s, x):
        s, b = ex.apply(a[1], [as_ref(ex, s, x)], s)
        return s, opt(b, lambda: x)
    return match(ex, st, w, {'None': lambda s: (s, none()), 'Some': go})


@m('take')
def _otake(ex, st, c, a):
    w = sv(ex, st, a[0])
    if len(a) != 1:
        return NEXT
    if is_enum(w, 'Option'):
        return put(ex, st, a[0], none()), w
    if isinstance(w, Arr) and w.kind == 'vec':
        return put(ex, st, a[0], Arr(IntVal(0), lambda i: Absent('element of an empty sequence'))), w
    if isinstance(w, MapV):
        return put(ex, st, a[0], empty_map(w.kind)), w
    return NEXT


@m('zip')
def _ozip(ex, st, c, a):
    w, v = sv(ex, st, a[0]), sv(ex, st, a[1])
    if not (is_enum(w, 'Option') and is_enum(v, 'Option')):
        return NEXT
    return match(ex, st, w, {'None': lambda s: (s, none()), 'Some': lambda s, x: match(ex, s, v, {'None': lambda s2: (s2, none()), 'Some': lambda s2, y: (s2, some(Tup([x, y])))})})


@m('err')
def _err(ex, st, c, a):
    return match(ex, st, sv(ex, st, a[0]), {'Err': lambda s, e: (s, some(e)), 'Ok': lambda s, x: (s, none())})


@m('unwrap_err', 'expect_err')
def _uerr(ex, st, c, a):
    b = ext.bad(ex, 'unwrap_err of a value')
    return match(ex, st, sv(ex, st, a[0]), {'Err': lambda s, e: (s, e), 'Ok': b})


@m('xor')
def _oxor(ex, st, c, a):
    return NEXT


# ------------------------------------------------------------ numbers
def _i2(name, fn):
    @m(name)
    def f(ex, st, c, a):
        if len(a) != 2:
            return NEXT
        x, y = sv(ex, st, a[0]), sv(ex, st, a[1])
        if not (is_expr(x) and is_expr(y)):
            return NEXT
        r = fn(x, y)
        return NEXT if r is None else (st, r)


_i2('abs_diff', lambda x, y: If(x >= y, x - y, y - x))
_i2('checked_div', lambda x, y: opt(y != 0, lambda: _E.idiv(x, y)))
_i2('checked_rem', lambda x, y: opt(y != 0, lambda: _E.irem(x, y)))
_i2('div_ceil', lambda x, y: (x + y - 1) / y if x.sort() == I else None)
_i2('copysign', lambda x, y: If(y >= 0, absr(x), -absr(x)))


@m('fract')
def _fract(ex, st, c, a):
    x = num(ex, st, a[0])
    return st, x - If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))


@m('is_positive', 'is_negative')
def _isp(ex, st, c, a):
    x = num(ex, st, a[0])
    return st, x > 0 if c.method == 'is_positive' else x < 0


# ------------------------------------------------------------ ndarray
@m('map')
def _nd_map(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, Arr) or len(a) != 2:
        return NEXT
    l = loc(ex, st, a[0])
    it = iter_arr(ex, st, ValRef(w), w)
    it2 = it.repl(elem=lambda e, s, p: (lambda sx: e.apply(a[1], [sx[1]], sx[0]))(it.elem(e, s, p)))
    s, out = collect_arr(ex, st, it2, 'nd1')
    return s, Arr(out.n, out.get, w.std, 'nd1')


@m('map_mut')
def _nd_map_mut(ex, st, c, a):
    return NEXT


@m('for_each')
def _nd_for_each(ex, st, c, a):
    return NEXT


def is_zip(v):
    return isinstance(v, Adt) and v.name == 'NdZip'


def nd_part(ex, st, x):
    """(length, element at p) of a producer: a reference to an array or a view of one"""
    w = sv(ex, st, x)
    if not isinstance(w, Arr):
        raise Unsupported('Zip over %s' % type(w).__name__)
    it = iter_arr(ex, st, loc(ex, st, x), w)
    return w.n, it


@m('from', 'indexed')
def _zip_from(ex, st, c, a):
    if 'Zip' not in c.raw or 'ndarray' not in c.raw:
        return NEXT
    n, it = nd_part(ex, st, a[0])
    parts = [it]
    if c.method == 'indexed':
        parts = [Iter(True, n, None, lambda e, s, p: (s, p)), it]
    return st, Adt('NdZip', 'NdZip', [n, parts])


@m('and')
def _zip_and(ex, st, c, a):
    z = a[0]
    if not is_zip(z):
        return NEXT
    n, it = nd_part(ex, st, a[1])
    st = ex.oblige(st, 'shapes agree in Zip', z.fields[0] == n, 'panic')
    return st, Adt('NdZip', 'NdZip', [z.fields[0], z.fields[1] + [it]])


def zip_iter(z):
    def el(e, s, p):
        xs = []
        for it in z.fields[1]:
            s, x = it.elem(e, s, p)
            xs.append(x)
        return s, Tup(xs)
    return Iter(True, z.fields[0], None, el)


@m('for_each', 'apply')
def _zip_each(ex, st, c, a):
    if not is_zip(a[0]):
        return NEXT
    return loops.each(ex, st, zip_iter(a[0]), lambda s, v, p: ex.apply(a[1], list(v.items), s)[0], 'zip'), UNIT


@m('map_collect', 'apply_collect')
def _zip_collect(ex, st, c, a):
    if not is_zip(a[0]):
        return NEXT
    it = zip_iter(a[0])

    def el(e, s, p):
        s, v = it.elem(e, s, p)
        return e.apply(a[1], list(v.items), s)
    return collect_arr(ex, st, it.repl(elem=el), 'nd1')


@m('fold')
def _zip_fold(ex, st, c, a):
    if not is_zip(a[0]):
        return NEXT
    return accumulate(ex, st, zip_iter(a[0]), a[1], lambda s, x, v: ex.apply(a[2], [x] + list(v.items), s), 'zip')


@m('all', 'any')
def _zip_all(ex, st, c, a):
    if not is_zip(a[0]):
        return NEXT
    if c.method == 'any':
        return accumulate(ex, st, zip_iter(a[0]), FALSE, lambda s, x, v: ext.lift(ex.apply(a[1], list(v.items), s), lambda r: Or(x, r)), 'any')
    return accumulate(ex, st, zip_iter(a[0]), TRUE, lambda s, x, v: ext.lift(ex.apply(a[1], list(v.items), s), lambda r: And(x, r)), 'all')


# models that must be tried before the general iterator ones
for _n, _f in (('fold', _zip_fold), ('for_each', _zip_each), ('all', _zip_all), ('any', _zip_all), ('map', _nd_map), ('and', _zip_and), ('from', _zip_from),
               ('filter', _ofilter), ('take', _otake), ('zip', _ozip), ('last', _last), ('min', _min), ('index', _slice_index), ('index_mut', _slice_index_mut), ('get', _slice_get), ('insert', _vinsert), ('remove', _vremove), ('swap', _vswap)):
    ext.METHODS[_n].remove(_f)
    ext.METHODS[_n].insert(0, _f)


# ------------------------------------------------------------ hash maps
@m('drain')
def _drain(ex, st, c, a):
    w = sv(ex, st, a[0])
    if isinstance(w, MapV):
        it = iter_map(ex, st, None, w, 'keys' if w.kind == 'set' else 'entries', True)
        return put(ex, st, a[0], empty_map(w.kind)), it
    return NEXT


@m('get_key_value')
def _gkv(ex, st, c, a):
    return NEXT


@m('retain')
def _retain(ex, st, c, a):
    w = sv(ex, st, a[0])
    if not isinstance(w, MapV):
        return NEXT
    it = iter_map(ex, st, ValRef(w), w, 'keys' if w.kind == 'set' else 'entries')

    def keep(k):
        ex.mute += 1
        try:
            s = st.assume(w.dom(k))
            xs = [ValRef(k)] if w.kind == 'set' else [ValRef(k), ValRef(w.val(k))]
            s, r = ex.apply(a[1], xs, s)
        finally:
            ex.mute -= 1
        return r
    q = fresh('q', I)
    s0 = st.assume(w.dom(q))
    s2, _ = ex.apply(a[1], [ValRef(q)] if w.kind == 'set' else [ValRef(q), ValRef(w.val(q))], s0)
    for k, v in s0.cells.items():
        if s2.cells.get(k) is not v:
            raise Unsupported('retain with side effects')
    return put(ex, st, a[0], MapV(lambda k: And(w.dom(k), keep(k)), w.val, kind=w.kind)), UNIT


# ------------------------------------------------------------ more arithmetic
def two(ex, st, a):
    if len(a) != 2:
        return None
    x, y = sv(ex, st, a[0]), sv(ex, st, a[1])
    return (x, y) if is_expr(x) and is_expr(y) and x.sort() == y.sort() else None


@m('abs_diff')
def _abs_diff(ex, st, c, a):
    p = two(ex, st, a)
    return (st, If(p[0] >= p[1], p[0] - p[1], p[1] - p[0])) if p else NEXT


@m('checked_div', 'checked_rem')
def _cdiv(ex, st, c, a):
    p = two(ex, st, a)
    if not p or 'usize' not in c.path:
        return NEXT
    return st, opt(p[1] != 0, p[0] / p[1] if c.method == 'checked_div' else p[0] % p[1])


@m('div_ceil')
def _div_ceil(ex, st, c, a):
    p = two(ex, st, a)
    if not p or 'usize' not in c.path:
        return NEXT
    st = ex.oblige(st, 'division by zero', p[1] != 0, 'panic')
    return st, (p[0] + p[1] - 1) / p[1]


@m('copysign')
def _copysign(ex, st, c, a):
    p = two(ex, st, a)
    return (st, If(p[1] >= 0, absr(p[0]), -absr(p[0]))) if p and p[0].sort() == R else NEXT


@m('round')
def _round(ex, st, c, a):
    x = sv(ex, st, a[0])
    if not is_expr(x) or x.sort() != R or len(a) != 1:
        return NEXT
    h = RealVal('1/2')
    return st, If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(h - x)))


@m('exp_m1', 'exp2', 'log2', 'log10', 'log')
def _exps(ex, st, c, a):
    x = sv(ex, st, a[0])
    if not is_expr(x) or x.sort() != R:
        return NEXT
    f = c.method
    if f == 'exp_m1':
        return st, EXP(som(x)) - 1
    if f == 'exp2':
        return st, EXP(som(x * LN(RealVal(2))))
    b = RealVal(2) if f == 'log2' else RealVal(10) if f == 'log10' else num(ex, st, a[1])
    return st, div(LN(som(x)), LN(som(b)))


# ------------------------------------------------------------ copies between slices, and parts of arrays
@m('copy_from_slice', 'clone_from_slice')
def _copy_from_slice(ex, st, c, a):
    w, v = seq(ex, st, a[0]), seq(ex, st, a[1])
    if w is None or v is None:
        return NEXT
    st = ex.oblige(st, 'slices of equal length', w.n == v.n, 'panic')
    return put(ex, st, a[0], Arr(w.n, v.get, w.std, w.kind)), UNIT


@m('from_vec')
def _from_vec(ex, st, c, a):
    v = seq(ex, st, a[0]) if len(a) == 1 else None
    return (st, Arr(v.n, v.get, TRUE, 'nd1')) if v is not None else NEXT


@m('mean')
def _mean(ex, st, c, a):
    w = seq(ex, st, a[0])
    if w is None:
        return NEXT
    q = fresh('q', I)
    return st, opt(w.n > 0, lambda: div(bsum(q, And(q >= 0, q < w.n), w.get(q)), z3.ToReal(w.n)))




# ------------------------------------------------------------ layout of types
_SIZE = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'f64': 8, 'usize': 8, 'isize': 8,
         'u128': 16, 'i128': 16, '()': 0}


@m('size_of', 'align_of')
def _size_of(ex, st, c, a):
    if len(a) or not re.match(r'(std|core)::mem', c.path):
        return NEXT
    t = c.generics.strip().strip('<>').strip()
    if t in _SIZE and c.method == 'size_of':
        return st, IntVal(_SIZE[t])
    # some number that depends on the type only
    k = z3.Int('%s<%s>' % (c.method, t))
    return st.fact(k >= (0 if c.method == 'size_of' else 1)), k


# ------------------------------------------------------------ ndarray slices: s![..]
@m('next_in_dim', 'next_out_dim')
def _next_dim(ex, st, c, a):
    return (st, UNIT) if 'SliceNextDim' in c.path else NEXT


@m('from')
def _slice_elem(ex, st, c, a):
    if 'SliceInfoElem' not in c.path or len(a) != 1:
        return NEXT
    return st, Adt('SliceInfoElem', 'SliceInfoElem', [sv(ex, st, a[0])])


@m('new_unchecked', 'new')
def _slice_info(ex, st, c, a):
    v = sv(ex, st, a[0]) if a else None
    return (st, Adt('SliceInfo', 'SliceInfo', [v])) if 'SliceInfo' in c.path and isinstance(v, Arr) else NEXT


def slice_bounds(ex, st, n, e):
    """the part of an axis that an element of s![..] selects: (state, lo, hi) or (state, index, None)"""
    def at(x):
        x = num(ex, st, x)
        return z3.simplify(If(x < 0, x + n, x))
    if is_expr(e):
        i = at(e)
        return ex.oblige(st, 'slice in bounds', And(i >= 0, i < n), 'panic'), i, None
    if not isinstance(e, Adt):
        return None
    f = e.fields
    if e.name == 'RangeFull':
        return st, IntVal(0), n
    if e.name == 'RangeFrom':
        lo, hi = at(f[0]), n
    elif e.name == 'RangeTo':
        lo, hi = IntVal(0), at(f[0])
    elif e.name == 'Range' and len(f) == 2:
        lo, hi = at(f[0]), at(f[1])
        hi = z3.simplify(If(hi < lo, lo, hi))
    else:
        return None
    return ex.oblige(st, 'slice in bounds', And(lo >= 0, lo <= hi, hi <= n), 'panic'), lo, hi


@m('slice', 'slice_mut', 'slice_move')
def _nd_slice(ex, st, c, a):
    w = sv(ex, st, a[0])
    e = sv(ex, st, a[1]) if len(a) == 2 else None
    if not isinstance(e, Adt) or e.name != 'SliceInfo' or not isinstance(w, (Arr, Mat)):
        return NEXT
    l = ext.loc(ex, st, a[0])
    es = [sv(ex, st, e.fields[0].get(IntVal(k))) for k in range(1 if isinstance(w, Arr) else 2)]
    es = [x.fields[0] if isinstance(x, Adt) and x.name == 'SliceInfoElem' else x for x in es]
    out = lambda r: MutView(r) if c.method == 'slice_mut' and isinstance(r, Ref) else r
    if isinstance(w, Arr):
        b = slice_bounds(ex, st, w.n, es[0])
        if b is None or b[2] is None:
            return NEXT
        st, lo, hi = b
        return st, out(ext.sub(l, w, 'sl', lo, hi)) if c.method != 'slice' else piece(w, lo, hi)
    # one whole column or row
    full = [isinstance(x, Adt) and x.name == 'RangeFull' for x in es]
    if full == [True, False] and is_expr(es[1]):
        st, j, _ = slice_bounds(ex, st, w.nc, es[1])
        return st, out(ext.sub(l, w, 'col', j))
    if full == [False, True] and is_expr(es[0]) and c.method != 'slice_mut':
        st, i, _ = slice_bounds(ex, st, w.nr, es[0])
        return st, out(ext.sub(l, w, 'row', i))
    return NEXT
