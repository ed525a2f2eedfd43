"""Symbolic inputs, specification helpers and leaf-wise comparison of values."""
import z3
from terms import *
from values import *
import mirparse
import loops


class Ctx:
    """one verification case: an executor, its initial state and the schema axioms."""

    def __init__(self, ex):
        self.ex = ex
        self.st = _E.State()
        self.schema = []
        self.named = {}

    def fact(self, c):
        self.st = self.st.fact(c)

    def pre(self, c):
        self.st = self.st.assume(c)

    def int(self, name, nonneg=True):
        x = z3.Const(name, I)
        if nonneg:
            self.fact(x >= 0)
        self.named[name] = x
        return x

    def u8(self, name):
        x = self.int(name)
        self.fact(x <= 255)
        return x

    def rows(self, name, n, length, sort=R, hi=None):
        """a list of n lists; length(k) gives the length of the k-th"""
        f = z3.Function(name, I, I, sort)
        if sort == I:
            def ax(ts):
                l = [t for t in ts if z3.is_app(t) and t.decl().eq(f)]
                return [t >= 0 for t in l] + ([t <= hi for t in l] if hi is not None else [])
            self.schema.append(ax)
        return Arr(n, lambda k: Arr(length(k), lambda j: f(k, j), TRUE, 'vec'), TRUE, 'vec')

    def real(self, name):
        x = z3.Const(name, R)
        self.named[name] = x
        return x

    def arr(self, name, sort=R, kind='nd1', n=None, std=None, nonneg=True):
        n = n if n is not None else self.int('len_' + name)
        f = z3.Function(name, I, sort)
        if sort == I and nonneg:
            self.schema.append(lambda ts, f=f: [t >= 0 for t in ts if z3.is_app(t) and t.decl().eq(f)])
        s = std if std is not None else (z3.Const('std_' + name, B) if kind == 'nd1' else TRUE)
        return Arr(n, lambda i: f(i), s, kind)

    def tuples(self, name, sorts, kind='vec', n=None):
        n = n if n is not None else self.int('len_' + name)
        fs = [z3.Function('%s_%d' % (name, k), I, s) for k, s in enumerate(sorts)]
        return Arr(n, lambda i: Tup([f(i) for f in fs]), TRUE, kind)

    def map(self, name, dim=None, sort=R, kind='map'):
        d = z3.Function('has_' + name, I, B)
        v = z3.Function(name, I, sort)
        if dim is not None:
            self.schema.append(lambda ts, d=d: [Implies(t, And(t.arg(0) >= 0, t.arg(0) < dim)) for t in ts if z3.is_app(t) and t.decl().eq(d)])
        else:
            self.schema.append(lambda ts, d=d: [Implies(t, t.arg(0) >= 0) for t in ts if z3.is_app(t) and t.decl().eq(d)])
        return MapV(lambda k: d(k), (lambda k: UNIT) if kind == 'set' else (lambda k: v(k)), kind=kind)

    def mat(self, name, nr=None, nc=None):
        nr = nr if nr is not None else self.int('rows_' + name)
        nc = nc if nc is not None else self.int('cols_' + name)
        f = z3.Function(name, I, I, R)
        return Mat(nr, nc, lambda i, j: f(i, j), z3.Const('std_' + name, B))

    def struct(self, name, **kw):
        return struct(self.ex.mod, name, kw)

    def dense(self, name, n=None):
        return Adt('Features', 'Dense', [self.arr(name, n=n)])

    def sparse(self, name, dim=None):
        dim = dim if dim is not None else self.int('dim_' + name)
        return Adt('Features', 'Sparse', [self.sa(name, dim)])

    def sa(self, name, dim=None):
        dim = dim if dim is not None else self.int('dim_' + name)
        return self.struct('SparseActivations', dim=dim, activations=self.map(name, dim))

    def features(self, kind, name, n=None):
        return self.dense(name, n) if kind == 'D' else self.sparse(name, n)

    def ref(self, v, tag='A'):
        return self.ex.alloc(self.st, v, tag)

    def fn1(self, name='f'):
        F = z3.Function(name, R, R)
        return _fn(name, F)

    def fn2(self, name='f'):
        F = z3.Function(name, R, R, R)
        return _fn(name, F)


def _fn(name, F):
    def ap(ex, st, args):
        return st, F(*[ex.strip(st, a) for a in args])
    o = OpaqueFn(name, ap)
    o.F = F
    return o


import exec as _E


# ------------------------------------------------------------ layout of structs with private fields
# name in the contracts -> type in the source. Private fields may be renamed, reordered or grouped in a tuple or a
# private struct: the contracts speak of the fields by the names below, and `layout` says where each of them is.
# A wrong guess cannot make a wrong contract hold; contracts that fail under a guess count as out of reach.
FIELDS = {
    'OutputIter': [('basis', 'Features'), ('lanes', "ndarray::iter::LanesIter<'a,f64,ndarray::Ix1>")],
    'Adagrad': [('learning_rate', 'f64'), ('accumulator', 'Array1<f64>')],
    'AdaMax': [('beta1', 'f64'), ('beta1_prod', 'f64'), ('beta2', 'f64'), ('learning_rate', 'f64'), ('exp_avg', 'Array1<f64>'), ('exp_inf', 'Array1<f64>')],
    'Adam': [('beta1', 'f64'), ('beta1_prod', 'f64'), ('beta2', 'f64'), ('beta2_prod', 'f64'), ('learning_rate', 'f64'), ('exp_avg', 'Array1<f64>'), ('exp_avg_sq', 'Array1<f64>')],
    'SGDMomentum': [('momentum', 'f64'), ('learning_rate', 'f64'), ('velocity', 'Array1<f64>')],
    'NAG': [('momentum', 'f64'), ('learning_rate', 'f64'), ('velocity', 'Array1<f64>')],
    'TileCoding': [('hasher_builder', 'H'), ('n_tilings', 'usize'), ('memory_size', 'usize')],
    'Stack': [('b1', 'B1'), ('b2', 'B2')],
    'UniformGrid': [('n_features', 'usize'), ('feature_space', 'ProductSpace<Equipartition>')],
    'Closure': [('n_features', 'usize'), ('mapping', 'F')],
    'Fourier': [('order', 'u8'), ('limits', 'Vec<(f64,f64)>'), ('coefficients', 'Vec<Vec<f64>>')],
    'Polynomial': [('order', 'u8'), ('exponents', 'Vec<Vec<u8>>')],
    'Chebyshev': [('order', 'u8'), ('limits', 'Vec<(f64,f64)>'), ('polynomials', 'Vec<Vec<fn(f64)->f64>>')],
}
DERIVED = {'UniformGrid': ['n_features']}     # fields that follow from the others: they may be missing
LAYOUT = {}     # struct -> {name in the contracts: path}
GUESSED = set()     # structs whose layout is a guess
TOUCHED = set()     # those of them that the contract at hand speaks of
PLAIN = set(FIELDS) | {'SparseActivations', 'LFA', 'Error', 'Prototype', 'KernelBasis', 'RationalQuadratic', 'Interval', 'Equipartition', 'Range',
                       'Feature', 'CandidateFeature', 'IFDD', 'Exponential', 'Matern32', 'Matern52', 'ExpQuad', 'Cosine'}


def leaves(mod, name, path=(), depth=0):
    """(path, field name, type) of the fields, through tuples and through structs that the contracts do not know"""
    out = []
    for k, f in enumerate(mod.structs[name]):
        out += split_leaf(mod, path + (k,), f, mod.field_types.get((name, f)) or '', depth)
    return out


def split_leaf(mod, path, f, ty, depth):
    if depth < 3 and ty in mod.structs and ty not in PLAIN:
        return leaves(mod, ty, path, depth + 1)
    if depth < 3 and ty[:1] == '(' and ty[-1:] == ')':
        out = []
        for k, t in enumerate(mirparse.split_top(ty[1:-1])):
            if t.strip():
                out += split_leaf(mod, path + (k,), '%s.%d' % (f, k), t.strip(), depth + 1)
        return out
    return [(path, f, ty)]


def layout(mod, name):
    names = mod.structs.get(name)
    if names is None:
        raise Unsupported('struct %s not found' % name)
    if name not in LAYOUT:
        LAYOUT[name] = {f: (k,) for k, f in enumerate(names)}
        want = FIELDS.get(name)
        if want and set(names) != set(f for f, _ in want):
            have = leaves(mod, name)
            if len(have) + len(DERIVED.get(name, [])) == len(want):
                want = [(f, t) for f, t in want if f not in DERIVED[name]]
            if len(have) != len(want):
                raise Unsupported('fields of %s changed: %s' % (name, ', '.join(names)))
            lay = {}
            for f, t in want:
                hit = [x for x in have if x[1] == f and (x[2] == t or len(t) <= 2)]
                if hit:
                    lay[f] = hit[0][0]
                    have.remove(hit[0])
            rest = [(f, t) for f, t in want if f not in lay]
            for f, t in list(rest):
                hit = [x for x in have if x[2] == t]
                if hit:
                    lay[f] = hit[0][0]
                    have.remove(hit[0])
                    rest.remove((f, t))
            for (f, t), x in zip(rest, have):
                if len(rest) > 1 and not all(len(u) <= 2 for _, u in rest):
                    raise Unsupported('fields of %s changed: %s' % (name, ', '.join(names)))
                lay[f] = x[0]
            LAYOUT[name] = lay
            GUESSED.add(name)
    return LAYOUT[name]


def struct(mod, name, d):
    """a value of the struct from its fields as the contracts name them"""
    lay = layout(mod, name)
    TOUCHED.update({name} & GUESSED)
    if set(lay) != set(d) - set(DERIVED.get(name, []) if name in GUESSED else []):
        raise Unsupported('fields of %s changed: %s' % (name, ', '.join(mod.structs[name])))
    tree = {}
    for f, path in lay.items():
        t = tree
        for k in path[:-1]:
            t = t.setdefault(k, {})
        t[path[-1]] = d[f]

    def make(ty, t):
        if ty in mod.structs:
            ns = mod.structs[ty]
            return Adt(ty, ty, [make(mod.field_types.get((ty, n)) or '', t[k]) if type(t[k]) is dict else t[k] for k, n in enumerate(ns)], ns)
        tys = [x.strip() for x in mirparse.split_top(ty[1:-1]) if x.strip()]
        return Tup([make(x, t[k]) if type(t[k]) is dict else t[k] for k, x in enumerate(tys)])
    return make(name, tree)


def absent(v):
    return [f for f in DERIVED.get(v.name, []) if v.name in GUESSED and f not in LAYOUT[v.name]]


# ------------------------------------------------------------ reading specification values
def where(v, name):
    lay = LAYOUT.get(v.name)
    if v.name in GUESSED and name in lay:
        TOUCHED.add(v.name)
        return lay[name]
    if v.names is None or name not in v.names:
        raise Unsupported('field %s of %s' % (name, v.name))
    return (v.names.index(name),)


def fld(v, name):
    """named struct field"""
    for k in where(v, name):
        v = v.items[k] if isinstance(v, Tup) else v.fields[k]
    return v


def setf(v, **kw):
    def put(v, path, x):
        if not path:
            return x
        if isinstance(v, Tup):
            return Tup([put(y, path[1:], x) if k == path[0] else y for k, y in enumerate(v.items)])
        return Adt(v.name, v.variant, [put(y, path[1:], x) if k == path[0] else y for k, y in enumerate(v.fields)], v.names)
    for f, x in kw.items():
        v = put(v, where(v, f), x)
    return v


def fdim(v):
    if v.variant == 'Dense':
        return v.fields[0].n
    return fld(v.fields[0], 'dim')


def act(v, k):
    """activation at index k (0 <= k < dim)"""
    if v.variant == 'Dense':
        return v.fields[0].get(k)
    m = fld(v.fields[0], 'activations')
    return ite(m.dom(k), m.val(k), RealVal(0))


def acts(v):
    return fld(v.fields[0], 'activations')


def mkdense(n, get):
    return Adt('Features', 'Dense', [Arr(n, get, TRUE, 'nd1')])


def mksparse(ex, dim, dom, val):
    return Adt('Features', 'Sparse', [struct(ex.mod, 'SparseActivations', {'dim': dim, 'activations': MapV(dom, val)})])


def rng(q, n):
    return And(q >= 0, q < n)


def sum_range(n, f):
    q = fresh('q', I)
    return bsum(q, rng(q, n), f(q))


def sum_dom(dom, f):
    q = fresh('q', I)
    return bsum(q, dom(q), f(q))


def total(v, f):
    """sum over all indices of f(k, activation k), where f(k, 0) = 0"""
    if v.variant == 'Dense':
        return sum_range(fdim(v), lambda q: f(q, act(v, q)))
    m = acts(v)
    return sum_dom(m.dom, lambda q: f(q, m.val(q)))


# ------------------------------------------------------------ comparison
class NumFn(Val):
    """specification of a real function of one argument"""
    def __init__(self, f):
        self.f = f


MESSAGE = z3.Const('message', OP)


def equal(ex, st, a, b, label='result', hyp=()):
    """[(label, hypotheses, goal)] stating that two values are observably equal (b: specified)."""
    a, b = ex.strip(st, a), ex.strip(st, b)
    if a is b:
        return [(label, hyp, TRUE)]
    if is_expr(a) and is_expr(b):
        if a.sort() != b.sort():
            return [(label + ': type', hyp, FALSE)]
        return [(label, hyp, a == b)]
    if isinstance(a, (Poison, Uninit)) or isinstance(b, (Poison, Uninit)):
        if isinstance(a, Poison):
            raise Unsupported('%s not determined (%s)' % (label, a.why))
        if isinstance(b, Poison):
            raise Unsupported('specified %s not determined (%s)' % (label, b.why))
        return [(label + ': valid value', hyp, FALSE)]
    if isinstance(a, MaybeInit):
        return equal(ex, st, a.a, b, label, hyp + (a.c,)) + equal(ex, st, a.b, b, label, hyp + (Not(a.c),))
    if isinstance(a, Tup) and isinstance(b, Tup):
        out = []
        for k, (x, y) in enumerate(zip(a.items, b.items)):
            out += equal(ex, st, x, y, '%s.%d' % (label, k), hyp)
        return out
    if isinstance(a, Arr) and isinstance(b, Arr):
        i = fresh('i', I)
        out = [(label + ': length', hyp, a.n == b.n)]
        h = hyp + (i >= 0, i < b.n)
        s2 = st
        for c in h:
            s2 = s2.assume(c)
        return out + equal(ex, st, a.get(i), b.get(i), label + ': element', h + (a.n == b.n,))
    if isinstance(a, Iter) and isinstance(b, Iter) and a.contig and b.contig and a.n is not INF and b.n is not INF:
        i = fresh('i', I)
        left = lambda x: If(x.n - x.start >= 0, x.n - x.start, IntVal(0))
        h = hyp + (i >= 0, i < left(b))
        s2 = st
        for c in h:
            s2 = s2.assume(c)
        return [(label + ': remaining elements', hyp, left(a) == left(b))] + equal(
            ex, s2, a.elem(ex, s2, z3.simplify(a.start + i))[1], b.elem(ex, s2, z3.simplify(b.start + i))[1], label + ': element', h + (left(a) == left(b),))
    if isinstance(a, Mat) and isinstance(b, Mat):
        i, j = fresh('i', I), fresh('j', I)
        return [(label + ': shape', hyp, And(a.nr == b.nr, a.nc == b.nc)),
                (label + ': entry', hyp + (i >= 0, i < b.nr, j >= 0, j < b.nc), a.get(i, j) == b.get(i, j))]
    if isinstance(a, MapV) and isinstance(b, MapV):
        k = fresh('k', I)
        out = [(label + ': stored keys', hyp, a.dom(k) == b.dom(k))]
        if a.kind != 'set':
            da, db = z3.simplify(a.dom(k)), z3.simplify(b.dom(k))
            if not is_false(db) and not is_false(da):
                out += equal(ex, st, a.val(k), b.val(k), label + ': stored value', hyp + (da, db))
        return out
    if isinstance(a, (Adt, Alt)) and isinstance(b, (Adt, Alt)):
        if a.name != b.name:
            return [(label + ': type', hyp, FALSE)]
        out = []
        la, lb = alts(a), alts(b)
        if len(la) > 1 or len(lb) > 1 or la[0][1].variant != lb[0][1].variant:
            vs = []
            for _, x in la + lb:
                if x.variant not in vs:
                    vs.append(x.variant)
            for v in vs:
                ga = disj(*[g for g, x in la if x.variant == v])
                gb = disj(*[g for g, x in lb if x.variant == v])
                out.append(('%s: is %s' % (label, v), hyp, ga == gb))
        for ga, x in la:
            for gb, y in lb:
                if x.variant != y.variant:
                    continue
                h = hyp + tuple(c for c in (ga, gb) if not is_true(c))
                if x.name == 'Error' and y.name == 'Error' and x.names:
                    out += equal(ex, st, fld(x, 'kind'), fld(y, 'kind'), label + ': error kind', h)
                    out += equal(ex, st, fld(x, 'message'), fld(y, 'message'), label + ': error message', h)
                    continue
                for k, (p, q) in enumerate(zip(x.fields, y.fields)):
                    nm = x.names[k] if x.names and k < len(x.names) else ('' if len(x.fields) == 1 else str(k))
                    out += equal(ex, st, p, q, (label + '.' + nm if nm else label), h)
        return out
    if isinstance(a, Opq) and isinstance(b, Opq) and a.role == b.role:
        if b.term.eq(MESSAGE):     # texts built by the crate are not specified
            return []
        return [(label, hyp, a.term == b.term)]
    if isinstance(b, NumFn):
        x = fresh('x', R)
        s1, p = ex.apply(a, [x], st)
        return [(label + ': value of the function', hyp, ex.strip(s1, p) == b.f(x))]
    if isinstance(a, (Opq, Adt, Alt)) and isinstance(b, (Opq, Adt, Alt)):
        return [(label + ': value', hyp, FALSE)]
    if isinstance(a, FnItem) and isinstance(b, FnItem):
        return [(label, hyp, BoolVal(a.path == b.path))]
    if isinstance(a, OpaqueFn) and isinstance(b, OpaqueFn):
        return [(label, hyp, BoolVal(a.name == b.name))]
    if isinstance(a, BoxV) and isinstance(b, BoxV):
        return equal(ex, st, a.v, b.v, label, hyp)
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        raise Unsupported('comparison of function pointers')
    if isinstance(a, Iter) and isinstance(b, Iter):
        raise Unsupported('comparison of iterators')
    raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


# ------------------------------------------------------------ identity terms for opaque contracts
def ident(ex, st, v):
    """scalar terms that determine a value."""
    v = ex.strip(st, v)
    if is_expr(v):
        return [v]
    if isinstance(v, Tup):
        return [t for x in v.items for t in ident(ex, st, x)]
    if isinstance(v, Arr):
        q = fresh('q', I)
        el = ident(ex, st, v.get(q))
        return [v.n] + [blam(q, rng(q, v.n), e) for e in el]
    if isinstance(v, MapV):
        q = fresh('q', I)
        if v.kind == 'set':
            return [blam(q, v.dom(q), TRUE)]
        return [blam(q, v.dom(q), e) for e in ident(ex, st, v.val(q))]
    if isinstance(v, Adt):
        return [t for x in v.fields for t in ident(ex, st, x)]
    if isinstance(v, Opq):
        return [v.term]
    if isinstance(v, OpaqueFn):
        return [z3.Const('fn_' + v.name, OP)]
    raise Unsupported('identity of %s' % type(v).__name__)
