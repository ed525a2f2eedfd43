"""Contracts of src/features.rs."""
from contract import *

Z = RealVal(0)
F = 'Features'


def split(ex, st, v, hd, hs):
    """case split on the representation of a feature value"""
    v = ex.strip(st, v)
    return ext.match(ex, st, v, {'Dense': lambda s, a: hd(s, Adt(F, 'Dense', [a])), 'Sparse': lambda s, a: hs(s, Adt(F, 'Sparse', [ex.strip(s, a)]))})


def split2(ex, st, a, b, h):
    return split(ex, st, a, lambda s, x: split(ex, s, b, lambda s2, y: h(s2, x, y), lambda s2, y: h(s2, x, y)),
                 lambda s, x: split(ex, s, b, lambda s2, y: h(s2, x, y), lambda s2, y: h(s2, x, y)))


def pure(f):
    """spec that only computes a value"""
    return lambda ex, st, args: (st, f(ex, st, *args))


def both(f):
    """spec by representation of the first argument: f(ex, st, v, *rest) -> value"""
    def g(ex, st, args):
        h = lambda s, v: (s, f(ex, s, v, *args[1:]))
        return split(ex, st, args[0], h, h)
    return g


def callf(ex, st, f, *xs):
    """result of applying the user's function (which is pure by assumption)"""
    return ex.apply(f, list(xs), st)


def ap(ex, st, f):
    """f as a function on terms (f is opaque or a closure over scalars)"""
    def g(*xs):
        st2, v = ex.apply(f, list(xs), st.fork())
        return ex.strip(st2, v)
    return g


DS = ('D', 'S')


def one(by=lambda c, k: [c.ref(c.features(k, 'a'))], kinds=DS):
    return {('dense' if k == 'D' else 'sparse'): (lambda c, k=k: by(c, k)) for k in kinds}


def two(by, kinds=DS):
    nm = {'D': 'dense', 'S': 'sparse'}
    return {nm[k] + '-' + nm[l]: (lambda c, k=k, l=l: by(c, k, l)) for k in kinds for l in kinds}


def densify(v):
    return mk_arr(fdim(v), lambda k: act(v, k))


def mk_arr(n, get, kind='nd1'):
    return Arr(n, get, TRUE, kind)


# ---------------------------------------------------------------- C01 reading
@contract((F, None, 'n_features', ''), ['C01', 'C10'], one())
def _(ex, st, args):
    return both(lambda ex, s, v: fdim(v))(ex, st, args)


@contract((F, None, 'is_dense', ''), ['C03', 'C04', 'C05'], one())
def _(ex, st, args):
    return both(lambda ex, s, v: BoolVal(v.variant == 'Dense'))(ex, st, args)


@contract((F, None, 'is_sparse', ''), ['C03', 'C04', 'C05'], one())
def _(ex, st, args):
    return both(lambda ex, s, v: BoolVal(v.variant == 'Sparse'))(ex, st, args)


def idx_case(c, k):
    return [c.ref(c.features(k, 'a')), c.int('idx')]


def idx_in(ex, st, args):
    v = ex.strip(st, args[0])
    return [('index below the number of features', conj(*[Implies(g, args[1] < fdim(Adt(a.name, a.variant, [ex.strip(st, x) for x in a.fields], a.names))) for g, a in alts(v)]))]


def idx_in_dense(ex, st, args):
    v = ex.strip(st, args[0])
    return [('index below the number of features', conj(*[Implies(g, args[1] < ex.strip(st, a.fields[0]).n) for g, a in alts(v) if a.variant == 'Dense']))]


@contract((F, 'Index', 'index', ''), ['C01'], one(idx_case), idx_in_dense)
def _(ex, st, args):
    return both(lambda ex, s, v, i: ValRef(act(v, i)))(ex, st, args)


@contract((F, None, 'get', ''), ['C01'], one(idx_case))
def _(ex, st, args):
    def f(ex, s, v, i):
        if v.variant == 'Dense':
            return opt(And(i >= 0, i < fdim(v)), ValRef(act(v, i)))
        return opt(acts(v).dom(i), ValRef(acts(v).val(i)))
    return both(f)(ex, st, args)


@contract((F, None, 'uget', ''), ['C01', 'C30'], one(idx_case), idx_in)
def _(ex, st, args):
    def f(ex, s, v, i):
        if v.variant == 'Dense':
            return some(ValRef(act(v, i)))
        return opt(acts(v).dom(i), ValRef(acts(v).val(i)))
    return both(f)(ex, st, args)


@contract((F, None, 'to_dense', ''), ['C01'], one())
def _(ex, st, args):
    return both(lambda ex, s, v: v.fields[0] if v.variant == 'Dense' else densify(v))(ex, st, args)


def val1(c, k):
    return [c.features(k, 'a')]


@contract((F, None, 'into_dense', ''), ['C01'], one(val1))
def _(ex, st, args):
    return both(lambda ex, s, v: v.fields[0] if v.variant == 'Dense' else densify(v))(ex, st, args)


@contract(('DenseActivations', 'From', 'from', F), ['C01'], one(val1))
def _(ex, st, args):
    return both(lambda ex, s, v: v.fields[0] if v.variant == 'Dense' else densify(v))(ex, st, args)


@contract(('Vec', 'From', 'from', F), ['C01'], one(val1))
def _(ex, st, args):
    return both(lambda ex, s, v: mk_arr(fdim(v), lambda k: act(v, k), 'vec'))(ex, st, args)


# ---------------------------------------------------------------- C02 remove
def upd(ex, st, ref, f):
    """in-place specification: new value f(s, v) of the feature vector behind ref"""
    l = ext.loc(ex, st, ref)
    st = st.fork()
    s2, v = split(ex, st, ref, lambda s, v: (s, f(s, v)), lambda s, v: (s, f(s, v)))
    s2 = s2.fork()
    ex.write(s2, l, v)
    return s2, UNIT


@contract((F, None, 'remove', ''), ['C02'], one(idx_case))
def _(ex, st, args):
    i = args[1]

    def f(s, v):
        if v.variant == 'Dense':
            return Adt(F, 'Dense', [Arr(fdim(v), lambda k: ite(k == i, Z, act(v, k)), v.fields[0].std, 'nd1')])
        m = acts(v)
        return mksparse(ex, fdim(v), lambda k: And(m.dom(k), k != i), m.val)
    return upd(ex, st, args[0], f)


# ---------------------------------------------------------------- C03 stack
@contract((F, None, 'stack', ''), ['C03'], two(lambda c, k, l: [c.features(k, 'a'), c.features(l, 'b')]))
def _(ex, st, args):
    def f(s, a, b):
        n = fdim(a)
        if a.variant == b.variant == 'Sparse':
            m1, m2 = acts(a), acts(b)
            return s, mksparse(ex, n + fdim(b), lambda k: ite(k < n, m1.dom(k), m2.dom(k - n)),
                               lambda k: ite(k < n, m1.val(k), m2.val(k - n)))
        return s, mkdense(n + fdim(b), lambda k: ite(k < n, act(a, k), act(b, k - n)))
    return split2(ex, st, args[0], args[1], f)


# ---------------------------------------------------------------- C04 map
def mapped(ex, st, v, g):
    """value of mapping the term function g over v"""
    if v.variant == 'Dense':
        return mkdense(fdim(v), lambda k: g(act(v, k)))
    m, n = acts(v), fdim(v)
    c = z3.simplify(absr(g(Z)) < z3.RealVal('1/100000'))
    sp = mksparse(ex, n, m.dom, lambda k: g(m.val(k)))
    de = mkdense(n, lambda k: g(act(v, k)))
    return mkalt(F, [(c, sp), (Not(c), de)])


def map_spec(ex, st, args):
    g = ap(ex, st, args[1])
    return both(lambda ex, s, v, f: mapped(ex, s, v, g))(ex, st, args)


contract((F, None, 'map', ''), ['C04'], one(lambda c, k: [c.ref(c.features(k, 'a')), c.fn1()]))(map_spec)
contract((F, None, 'map_into', ''), ['C04'], one(lambda c, k: [c.features(k, 'a'), c.fn1()]))(map_spec)


@contract((F, None, 'map_inplace', ''), ['C04', 'C30'], one(lambda c, k: [c.ref(c.features(k, 'a')), c.fn1()]))
def _(ex, st, args):
    g = ap(ex, st, args[1])
    return upd(ex, st, args[0], lambda s, v: mapped(ex, s, v, g))


def opq_fn(tag):
    def ap_(ex, st, args):
        ts = [t for a in args for t in ident(ex, st, a)]
        G = z3.Function('user_' + tag + str(len(ts)), *([t.sort() for t in ts] + [R]))
        return st, G(*ts)
    return OpaqueFn(tag, ap_)


@contract((F, None, 'map_dense', ''), ['C04'], one(lambda c, k: [c.features(k, 'a'), opq_fn('fd')]), usable=lambda *a: False)
def _(ex, st, args):
    def f(s, v):
        if v.variant == 'Dense':
            s, r = ex.apply(args[1], [v.fields[0]], s)
            return s, some(r)
        return s, none()
    return split(ex, st, args[0], f, f)


@contract((F, None, 'map_sparse', ''), ['C04'], one(lambda c, k: [c.features(k, 'a'), opq_fn('fs')]), usable=lambda *a: False)
def _(ex, st, args):
    def f(s, v):
        if v.variant == 'Sparse':
            s, r = ex.apply(args[1], [v.fields[0]], s)
            return s, some(r)
        return s, none()
    return split(ex, st, args[0], f, f)


@contract((F, None, 'map_either', ''), ['C04'], one(lambda c, k: [c.features(k, 'a'), opq_fn('fd'), opq_fn('fs')]), usable=lambda *a: False)
def _(ex, st, args):
    return split(ex, st, args[0], lambda s, v: ex.apply(args[1], [v.fields[0]], s), lambda s, v: ex.apply(args[2], [v.fields[0]], s))


# ---------------------------------------------------------------- C05 merge
def same_dim(ex, st, args):
    out = []
    a, b = ex.strip(st, args[0]), ex.strip(st, args[1])
    for g, x in alts(a):
        for h, y in alts(b):
            x2, y2 = unref(ex, st, x), unref(ex, st, y)
            out.append(Implies(And(g, h), fdim(x2) == fdim(y2)))
    return [('operands of the same dimension', conj(*out))]


def unref(ex, st, x):
    return Adt(x.name, x.variant, [ex.strip(st, y) for y in x.fields], x.names)


def merge_pre(ex, st, args):
    g = ap(ex, st, args[2])
    out = same_dim(ex, st, args)
    a, b = ex.strip(st, args[0]), ex.strip(st, args[1])
    ss = [And(x, y) for x, u in alts(a) for y, w in alts(b) if u.variant == w.variant == 'Sparse']
    if ss:
        out.append(('f(0,0)=0 for two sparse operands', Implies(disj(*ss), g(Z, Z) == 0)))
    return out


def merged(ex, a, b, g):
    n = fdim(a)
    if a.variant == b.variant == 'Sparse':
        m1, m2 = acts(a), acts(b)
        return mksparse(ex, n, lambda k: Or(m1.dom(k), m2.dom(k)), lambda k: g(act(a, k), act(b, k)))
    return mkdense(n, lambda k: g(act(a, k), act(b, k)))


def merge_spec(ex, st, args):
    g = ap(ex, st, args[2])
    return split2(ex, st, args[0], args[1], lambda s, a, b: (s, merged(ex, a, b, g)))


contract((F, None, 'merge', ''), ['C05', 'C30'], two(lambda c, k, l: [c.ref(c.features(k, 'a')), c.ref(c.features(l, 'b')), c.fn2()]), merge_pre)(merge_spec)
contract((F, None, 'merge_into', ''), ['C05', 'C30'], two(lambda c, k, l: [c.features(k, 'a'), c.ref(c.features(l, 'b')), c.fn2()]), merge_pre)(merge_spec)


@contract((F, None, 'merge_inplace', ''), ['C05', 'C30'], two(lambda c, k, l: [c.ref(c.features(k, 'a')), c.ref(c.features(l, 'b')), c.fn2()]), merge_pre)
def _(ex, st, args):
    s, v = merge_spec(ex, st, args)
    s = s.fork()
    ex.write(s, ext.loc(ex, s, args[0]), v)
    return s, UNIT


# ---------------------------------------------------------------- C06 dot
def w_dim(ex, st, args):
    w = ex.strip(st, args[1])
    a = ex.strip(st, args[0])
    n = w.n if isinstance(w, Arr) else w.nr
    return [('one weight per feature', conj(*[Implies(g, fdim(unref(ex, st, x)) == n) for g, x in alts(a)]))]


def w_case(c, k):
    a = c.features(k, 'a')
    return [c.ref(a), c.ref(c.arr('w'))]


def dotspec(ex, st, args):
    w = ex.strip(st, args[1])
    return both(lambda ex, s, v, _: total(v, lambda q, x: x * w.get(q)))(ex, st, args)


is_arr = lambda ex, st, args: isinstance(ex.strip(st, args[1]), Arr)
contract((F, None, 'dot', ''), ['C06'], one(w_case), w_dim, usable=is_arr)(dotspec)
contract((F, 'Dot', 'dot', 'W'), ['C06'], one(w_case), w_dim, usable=is_arr)(dotspec)


@contract((F, 'Dot', 'dot', F), ['C06'], two(lambda c, k, l: [c.ref(c.features(k, 'a')), c.ref(c.features(l, 'b'))]), same_dim)
def _(ex, st, args):
    def f(s, a, b):
        if a.variant == 'Sparse':
            return s, total(a, lambda q, x: x * act(b, q))
        return s, total(b, lambda q, x: act(a, q) * x)
    return split2(ex, st, args[0], args[1], f)


@contract((F, None, 'matmul', ''), ['C06'], one(lambda c, k: [c.ref(c.features(k, 'a')), c.ref(c.mat('w'))]), w_dim)
def _(ex, st, args):
    w = ex.strip(st, args[1])
    return both(lambda ex, s, v, _: mk_arr(w.nc, lambda j: total(v, lambda q, x: x * w.get(q, j))))(ex, st, args)


# ---------------------------------------------------------------- C07 aggregates
@contract((F, None, 'sum', ''), ['C07'], one())
def _(ex, st, args):
    return both(lambda ex, s, v: total(v, lambda q, x: x))(ex, st, args)


@contract((F, None, 'n_active', ''), ['C07'], one())
def _(ex, st, args):
    def f(ex, s, v):
        q = fresh('q', I)
        if v.variant == 'Dense':
            return bcount(q, And(rng(q, fdim(v)), absr(act(v, q)) > z3.RealVal('1/10000000')))
        return bcount(q, acts(v).dom(q))
    return both(f)(ex, st, args)


def additive(name='g'):
    G = z3.Function('user_' + name, R, R)

    def ap_(ex, st, args):
        a, x = [ex.strip(st, y) for y in args]
        return st, a + G(x)
    o = OpaqueFn('additive_' + name, ap_)
    o.G = G
    return o


def fold_case(c, k):
    return [c.ref(c.features(k, 'a')), c.real('init'), c.fn2() if k == 'D' else additive()]


@contract((F, None, 'fold', ''), ['C07'], one(fold_case), usable=lambda *a: False)
def _(ex, st, args):
    f = args[2]
    g = ap(ex, st, f)

    def h(ex, s, v, init, _):
        if v.variant == 'Sparse':
            return init + total(v, lambda q, x: f.G(x))
        acc, p, j = fresh('acc', R), fresh('p', I), fresh('j', I)
        from loops import spec_fold
        return spec_fold(fdim(v), p, acc, g(acc, act(v, p)), init)
    return both(h)(ex, st, args)


@contract((F, None, 'fold', ''), ['C07'], {'dense-additive': lambda c: [c.ref(c.features('D', 'a')), c.real('init'), additive()]},
          usable=lambda *a: False, title='Features::fold (sums)', export=False)
def _(ex, st, args):
    f = args[2]
    return both(lambda ex, s, v, init, _: init + total(v, lambda q, x: f.G(x)))(ex, st, args)


# ---------------------------------------------------------------- C08 adding to weights
def add_spec(alpha_at, w_at):
    def sp(ex, st, args):
        al = args[alpha_at] if alpha_at is not None else RealVal(1)
        wl = ext.loc(ex, st, args[w_at])
        w = ex.strip(st, args[w_at])
        s, new = split(ex, st, args[0],
                       lambda s, v: (s, Arr(w.n, lambda k: w.get(k) + al * act(v, k), w.std, w.kind)),
                       lambda s, v: (s, Arr(w.n, lambda k: w.get(k) + al * act(v, k), w.std, w.kind)))
        s = s.fork()
        ex.write(s, wl, new)
        return s, UNIT
    return sp


def w_dim_at(i):
    return lambda ex, st, args: w_dim(ex, st, [args[0], args[i]])


def is_arr_at(i):
    return lambda ex, st, args: isinstance(ex.strip(st, args[i]), Arr)


contract((F, None, 'addto', ''), ['C08'], one(w_case), w_dim, usable=is_arr_at(1))(add_spec(None, 1))
contract((F, None, 'scaled_addto', ''), ['C08'], one(lambda c, k: [c.ref(c.features(k, 'a')), c.real('alpha'), c.ref(c.arr('w'))]),
         w_dim_at(2), usable=is_arr_at(2))(add_spec(1, 2))


# ---------------------------------------------------------------- C09 constructors
def is_plain(i):
    return lambda ex, st, args: isinstance(ex.strip(st, args[i]), Arr)


@contract((F, None, 'dense', ''), ['C09'], {'list': lambda c: [c.arr('xs', kind='vec')]}, usable=is_plain(0))
def _(ex, st, args):
    x = ex.strip(st, args[0])
    return st, mkdense(x.n, x.get)


@contract((F, 'From', 'from', 'Vec<f64>'), ['C09'], {'list': lambda c: [c.arr('xs', kind='vec')]}, usable=is_plain(0))
def _(ex, st, args):
    x = ex.strip(st, args[0])
    return st, mkdense(x.n, x.get)


@contract((F, 'FromIterator', 'from_iter', ''), ['C09'], {'list': lambda c: [c.arr('xs', kind='vec')]}, usable=is_plain(0))
def _(ex, st, args):
    x = ex.strip(st, args[0])
    return st, mkdense(x.n, x.get)


@contract((F, 'From', 'from', 'DenseActivations'), ['C09'], {'array': lambda c: [c.arr('xs')]}, usable=is_plain(0))
def _(ex, st, args):
    return st, Adt(F, 'Dense', [ex.strip(st, args[0])])


@contract((F, 'From', 'from', 'SparseActivations'), ['C09'], {'sparse': lambda c: [c.sa('xs')]})
def _(ex, st, args):
    return st, Adt(F, 'Sparse', [ex.strip(st, args[0])])


def last_pos(p, x, key):
    """position of the last element of x with the given key"""
    def f(k):
        q = fresh('q', I)
        return bwit(q, And(rng(q, x.n), key(x.get(q)) == k))
    return f


@contract((F, None, 'sparse', ''), ['C09'], {'pairs': lambda c: [c.int('dim'), c.tuples('xs', [I, R])]}, usable=is_plain(1))
def _(ex, st, args):
    x = ex.strip(st, args[1])
    q = fresh('q', I)
    w = last_pos(q, x, lambda t: t.items[0])
    return st, mksparse(ex, args[0], lambda k: bany(q, And(rng(q, x.n), x.get(q).items[0] == k)), lambda k: x.get(w(k)).items[1])


def unit_keys(x):
    q = fresh('q', I)
    return lambda k: bany(q, And(rng(q, x.n), x.get(q) == k))


@contract((F, None, 'unitary', ''), ['C09'], {'indices': lambda c: [c.int('dim'), c.arr('xs', sort=I, kind='vec')]}, usable=is_plain(1))
def _(ex, st, args):
    x = ex.strip(st, args[1])
    return st, mksparse(ex, args[0], unit_keys(x), lambda k: RealVal(1))


@contract((F, 'From', 'from', 'Vec<usize>'), ['C09'], {'indices': lambda c: [c.arr('xs', sort=I, kind='vec')]}, usable=is_plain(0))
def _(ex, st, args):
    x = ex.strip(st, args[0])
    q = fresh('q', I)
    dim = ite(x.n == 0, IntVal(0), bmax(q, rng(q, x.n), x.get(q)) + 1)
    return st, mksparse(ex, dim, unit_keys(x), lambda k: RealVal(1))


@contract((F, 'AsRef', 'as_ref', ''), ['C09'], one())
def _(ex, st, args):
    return st, args[0]


def eq_case(k):
    return lambda c: [c.ref(c.features(k, 'a')), c.ref(c.features(k, 'b'))]


@contract((F, 'PartialEq', 'eq', ''), ['C09'], {'dense': eq_case('D'), 'sparse': eq_case('S')},
          usable=lambda ex, st, a: len(alts(ex.strip(st, a[0]))) == 1 and len(alts(ex.strip(st, a[1]))) == 1 and alts(ex.strip(st, a[0]))[0][1].variant == alts(ex.strip(st, a[1]))[0][1].variant)
def _(ex, st, args):
    def f(s, a, b):
        q = fresh('q', I)
        if a.variant == 'Dense':
            return s, And(fdim(a) == fdim(b), Not(bany(q, And(rng(q, fdim(a)), act(a, q) != act(b, q)))))
        m1, m2 = acts(a), acts(b)
        return s, And(fdim(a) == fdim(b), Not(bany(q, Or(m1.dom(q) != m2.dom(q), And(m1.dom(q), m2.dom(q), m1.val(q) != m2.val(q))))))
    return split2(ex, st, args[0], args[1], f)


