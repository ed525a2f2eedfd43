"""Contracts of src/basis: constant, closure, stack, normalisation and the trait defaults."""
from contract import *
from c_features import split, both, bcount, F, Z
import roles
from roles import basis, accepts, projection, project, failure, opaque
import ext

ONE = RealVal(1)


def finite(n):
    return Adt('Dim', 'Finite', [n])


def inp(c):
    """an input of an arbitrary type"""
    return opaque('input', 'input')


def feats_of(r):
    """the feature vectors among the possible results of a projection, with their guards"""
    for g, a in alts(r):
        if a.variant == 'Ok':
            for h, v in alts(a.fields[0]):
                yield (g, h), v


def dim_is(n):
    """the projection has exactly the advertised number of features, stored indices are below it"""
    def post(ex, r, args):
        out = []
        for hy, v in feats_of(r):
            out.append(('the projection has the advertised dimension', hy, fdim(v) == n(ex, args)))
            if v.variant == 'Sparse':
                k = fresh('k', I)
                out.append(('stored indices are below the dimension', hy + (acts(v).dom(k),), And(k >= 0, k < n(ex, args))))
        return out
    return post


def index_result(i, n, v):
    """Ok(v) below the dimension, an index error otherwise"""
    return mkalt('Result', [(And(i >= 0, i < n), ok(v)), (Not(And(i >= 0, i < n)), err(index_err()))])


def index_err():
    return Adt('Error', 'Error', [Adt('ErrorKind', 'Basis', []), Opq(z3.Const('message', OP), 'str')], ['kind', 'message'])


@contract(('Error', None, 'index_error', ''), ['C11'], {'any': lambda c: [c.int('i'), c.int('n')]})
def _(ex, st, a):
    return st, index_err()


# ---------------------------------------------------------------- trait defaults
@contract((None, 'Basis', 'n_features', ''), ['C10'], {'any basis': lambda c: [c.ref(basis(c, 'b', 'D'))]}, export=False)
def _(ex, st, a):
    return st, ex.strip(st, a[0]).aux['n']


def accepted(k=0):
    """the input is one that the basis accepts"""
    def pre(ex, st, a):
        return [('the basis accepts the input', accepts(ex, st, under(ex, st, a[0]), a[1]))]
    return pre


def under(ex, st, o):
    o = ex.strip(st, o)
    return o if isinstance(o, Opq) else ex.strip(st, o.fields[0])


DS2 = {'dense': 'D', 'sparse': 'S'}


@contract((None, 'EnumerableBasis', 'ith', ''), ['C11'], {nm: (lambda c, k=k: [c.ref(basis(c, 'b', k)), inp(c), c.int('i')]) for nm, k in DS2.items()},
          accepted(), export=False)
def _(ex, st, a):
    b = ex.strip(st, a[0])
    return st, index_result(a[2], b.aux['n'], act(projection(ex, st, b, a[1]), a[2]))


# ---------------------------------------------------------------- constants
def bias(c):
    return Adt('Bias', 'Bias', [c.real('bias')], None)


contract(('Bias', None, 'unit', ''), ['C19'], {'any': lambda c: []})(lambda ex, st, a: (st, Adt('Bias', 'Bias', [ONE], None)))
contract(('Bias', 'Space', 'dim', ''), ['C10'], {'any': lambda c: [c.ref(bias(c))]})(lambda ex, st, a: (st, finite(IntVal(1))))


@contract(('Bias', 'Basis', 'project', ''), ['C10', 'C11', 'C19'], {'any': lambda c: [c.ref(bias(c)), inp(c)]}, post=dim_is(lambda ex, a: IntVal(1)))
def _(ex, st, a):
    v = ex.strip(st, a[0]).fields[0]
    return st, ok(mkdense(IntVal(1), lambda k: v))


@contract(('Bias', 'EnumerableBasis', 'ith', ''), ['C11'], {'any': lambda c: [c.ref(bias(c)), inp(c), c.int('i')]})
def _(ex, st, a):
    return st, index_result(a[2], IntVal(1), ex.strip(st, a[0]).fields[0])


DV, SV = 'Vec<f64>', '(usize,HashSet<usize>)'


def fixed_d(c):
    return Adt('Fixed', 'Fixed', [c.arr('constants', kind='vec')], None)


def fixed_s(c):
    n = c.int('n')
    return Adt('Fixed', 'Fixed', [Tup([n, c.map('chosen', n, kind='set')])], None)


def fx(ex, st, a):
    return ex.strip(st, ex.strip(st, a[0]).fields[0])


contract(('Fixed', 'Space', 'dim', DV), ['C10'], {'any': lambda c: [c.ref(fixed_d(c))]})(lambda ex, st, a: (st, finite(fx(ex, st, a).n)))
contract(('Fixed', 'Space', 'dim', SV), ['C10'], {'any': lambda c: [c.ref(fixed_s(c))]})(lambda ex, st, a: (st, finite(fx(ex, st, a).items[0])))


@contract(('Fixed', 'Basis', 'project', DV), ['C10', 'C11', 'C19'], {'any': lambda c: [c.ref(fixed_d(c)), inp(c)]}, post=dim_is(lambda ex, a: a[0].fields[0].n))
def _(ex, st, a):
    v = fx(ex, st, a)
    return st, ok(mkdense(v.n, v.get))


@contract(('Fixed', 'EnumerableBasis', 'ith', DV), ['C11'], {'any': lambda c: [c.ref(fixed_d(c)), inp(c), c.int('i')]})
def _(ex, st, a):
    v = fx(ex, st, a)
    return st, index_result(a[2], v.n, v.get(a[2]))


@contract(('Fixed', 'Basis', 'project', SV), ['C10', 'C11', 'C19'], {'any': lambda c: [c.ref(fixed_s(c)), inp(c)]}, post=dim_is(lambda ex, a: a[0].fields[0].items[0]))
def _(ex, st, a):
    n, s = fx(ex, st, a).items
    return st, ok(mksparse(ex, n, s.dom, lambda k: ONE))


@contract(('Fixed', 'EnumerableBasis', 'ith', SV), ['C11'], {'any': lambda c: [c.ref(fixed_s(c)), inp(c), c.int('i')]})
def _(ex, st, a):
    n, s = fx(ex, st, a).items
    return st, index_result(a[2], n, ite(s.dom(a[2]), ONE, Z))


@contract(('Fixed', None, 'dense', DV), ['C19'], {'list': lambda c: [c.arr('constants', kind='vec')]})
def _(ex, st, a):
    v = ex.strip(st, a[0])
    return st, Adt('Fixed', 'Fixed', [Arr(v.n, v.get, TRUE, 'vec')], None)


@contract(('Fixed', None, 'sparse', SV), ['C19'], {'list': lambda c: [c.int('n'), c.arr('active', I, kind='vec')], 'set': lambda c: [c.int('n'), c.map('active', kind='set')]})
def _(ex, st, a):
    v = ex.strip(st, a[1])
    if isinstance(v, MapV):
        d = v.dom
    else:
        def d(k):
            q = fresh('q', I)
            return bany(q, And(rng(q, v.n), v.get(q) == k))
    return st, Adt('Fixed', 'Fixed', [Tup([a[0], MapV(d, lambda k: UNIT, kind='set')])], None)


# ---------------------------------------------------------------- closures
def user_map(c, kind, n):
    b = basis(c, 'mapping', kind, n)

    def ap_(ex, st, args):
        return st, project(ex, st, b, args[0])
    f = OpaqueFn('mapping', ap_)
    f.basis = b
    return f


def closure(c, kind):
    n = c.int('n')
    return c.struct('Closure', n_features=n, mapping=user_map(c, kind, n))


def mapping(ex, st, a):
    return ex.strip(st, fld(ex.strip(st, a[0]), 'mapping'))


contract(('Closure', None, 'new', ''), ['C19'], {'any': lambda c: [c.int('n'), user_map(c, 'D', c.int('m'))]})(
    lambda ex, st, a: (st, sym.struct(ex.mod, 'Closure', {'n_features': a[0], 'mapping': a[1]})))
contract(('Closure', 'Space', 'dim', ''), ['C10'], {'any': lambda c: [c.ref(closure(c, 'D'))]})(
    lambda ex, st, a: (st, finite(fld(ex.strip(st, a[0]), 'n_features'))))


@contract(('Closure', 'Basis', 'project', ''), ['C10', 'C19'], {nm: (lambda c, k=k: [c.ref(closure(c, k)), inp(c)]) for nm, k in DS2.items()},
          post=dim_is(lambda ex, a: fld(a[0], 'n_features')))
def _(ex, st, a):
    return st, project(ex, st, mapping(ex, st, a).basis, a[1])


# ---------------------------------------------------------------- stacks
def stack_of(c, k, l):
    return c.struct('Stack', b1=basis(c, 'b1', k), b2=basis(c, 'b2', l))


PAIRS = {a + '-' + b: (DS2[a], DS2[b]) for a in DS2 for b in DS2}


def parts(ex, st, a):
    o = ex.strip(st, a[0])
    return ex.strip(st, fld(o, 'b1')), ex.strip(st, fld(o, 'b2'))


def mk(ex, name, **d):
    return sym.struct(ex.mod, name, d)


contract(('Stack', None, 'new', ''), ['C19'], {'any': lambda c: [basis(c, 'b1', 'D'), basis(c, 'b2', 'S')]})(
    lambda ex, st, a: (st, mk(ex, 'Stack', b1=a[0], b2=a[1])))


def n_of(b):
    return b.aux['n']


@contract(('Stack', 'Space', 'dim', ''), ['C10', 'C19'], {'any': lambda c: [c.ref(stack_of(c, 'D', 'S'))]})
def _(ex, st, a):
    x, y = parts(ex, st, a)
    return st, finite(n_of(x) + n_of(y))


def concat(ex, a, b):
    n = fdim(a)
    if a.variant == b.variant == 'Sparse':
        m1, m2 = acts(a), acts(b)
        return mksparse(ex, n + fdim(b), lambda k: ite(k < n, m1.dom(k), m2.dom(k - n)), lambda k: ite(k < n, m1.val(k), m2.val(k - n)))
    return mkdense(n + fdim(b), lambda k: ite(k < n, act(a, k), act(b, k - n)))


@contract(('Stack', 'Basis', 'project', ''), ['C10', 'C11', 'C19'], {nm: (lambda c, p=p: [c.ref(stack_of(c, *p)), inp(c)]) for nm, p in PAIRS.items()},
          post=dim_is(lambda ex, a: n_of(fld(a[0], 'b1')) + n_of(fld(a[0], 'b2'))), export=False)
def _(ex, st, a):
    x, y = parts(ex, st, a)
    gx, gy = accepts(ex, st, x, a[1]), accepts(ex, st, y, a[1])
    v = concat(ex, projection(ex, st, x, a[1]), projection(ex, st, y, a[1]))
    return st, mkalt('Result', [(And(gx, gy), ok(v)), (Not(gx), err(failure(ex, st, x, a[1]))), (And(gx, Not(gy)), err(failure(ex, st, y, a[1])))])


def both_accept(ex, st, a):
    x, y = parts(ex, st, a)
    return [('both parts accept the input', And(accepts(ex, st, x, a[1]), accepts(ex, st, y, a[1])))]


@contract(('Stack', 'EnumerableBasis', 'ith', ''), ['C11', 'C19'], {nm: (lambda c, p=p: [c.ref(stack_of(c, *p)), inp(c), c.int('i')]) for nm, p in PAIRS.items()},
          both_accept, export=False)
def _(ex, st, a):
    x, y = parts(ex, st, a)
    v = concat(ex, projection(ex, st, x, a[1]), projection(ex, st, y, a[1]))
    return st, index_result(a[2], n_of(x) + n_of(y), act(v, a[2]))


# ---------------------------------------------------------------- combinators
contract((None, 'Combinators', 'stack', ''), ['C19'], {'any': lambda c: [basis(c, 'b1', 'D'), basis(c, 'b2', 'D')]})(
    lambda ex, st, a: (st, mk(ex, 'Stack', b1=a[0], b2=a[1])))
contract((None, 'Combinators', 'with_bias', ''), ['C19'], {'any': lambda c: [basis(c, 'b1', 'D')]})(
    lambda ex, st, a: (st, mk(ex, 'Stack', b1=a[0], b2=Adt('Bias', 'Bias', [ONE], None))))
for m, T in (('normalise_l0', 'L0Normaliser'), ('normalise_l1', 'L1Normaliser'), ('normalise_l2', 'L2Normaliser'), ('normalise_linf', 'LinfNormaliser')):
    contract((None, 'Combinators', m, ''), ['C20'], {'any': lambda c: [basis(c, 'b', 'D')]})(
        lambda ex, st, a, T=T: (st, Adt(T, T, [a[0]], None)))
    contract((T, None, 'new', ''), ['C20'], {'any': lambda c: [basis(c, 'b', 'D')]})(
        lambda ex, st, a, T=T: (st, Adt(T, T, [a[0]], None)))
    contract((T, 'Space', 'dim', ''), ['C10'], {'any': lambda c, T=T: [c.ref(Adt(T, T, [basis(c, 'b', 'D')], None))]})(
        lambda ex, st, a: (st, finite(n_of(under(ex, st, a[0])))))


# ---------------------------------------------------------------- normalisers
def norm(T, v):
    """the norm that the basis divides by"""
    q = fresh('q', I)
    m = None if v.variant == 'Dense' else acts(v)
    if T == 'L0Normaliser':
        if m is None:
            return z3.ToReal(bcount(q, And(rng(q, fdim(v)), absr(act(v, q)) > z3.RealVal('1/10000000'))))
        return z3.ToReal(bcount(q, m.dom(q)))
    if T == 'L1Normaliser':
        return total(v, lambda q, x: absr(x))
    if T == 'L2Normaliser':
        return SQRT(som(total(v, lambda q, x: x * x)))
    if m is None:
        return bmax(q, rng(q, fdim(v)), absr(act(v, q)))
    return bmax(q, m.dom(q), absr(m.val(q)))


def scaled(ex, v, z):
    if v.variant == 'Dense':
        return mkdense(fdim(v), lambda k: div(act(v, k), z))
    m = acts(v)
    return mksparse(ex, fdim(v), m.dom, lambda k: div(m.val(k), z))


def nz(T, strict=True):
    """the norm of the projection is not zero"""
    def pre(ex, st, a):
        b = under(ex, st, a[0])
        v = projection(ex, st, b, a[1])
        q = z3.Int('active_feature')
        nonempty = And(rng(q, fdim(v)), absr(act(v, q)) > 0) if v.variant == 'Dense' else And(acts(v).dom(q), acts(v).val(q) != 0)
        return [('the norm of the projection is not zero', Implies(accepts(ex, st, b, a[1]), And(norm(T, v) > 0, nonempty)))]
    return pre


def norm_contracts(T):
    cs = {nm: (lambda c, k=k: [c.ref(Adt(T, T, [basis(c, 'b', k)], None)), inp(c)]) for nm, k in DS2.items()}

    @contract((T, 'Basis', 'project', ''), ['C10', 'C11', 'C20'], cs, nz(T), post=dim_is(lambda ex, a: n_of(a[0].fields[0])), export=False)
    def _(ex, st, a):
        b = under(ex, st, a[0])
        v = projection(ex, st, b, a[1])
        g = accepts(ex, st, b, a[1])
        return st, mkalt('Result', [(g, ok(scaled(ex, v, norm(T, v)))), (Not(g), err(failure(ex, st, b, a[1])))])

    ci = {nm: (lambda c, k=k: [c.ref(Adt(T, T, [basis(c, 'b', k)], None)), inp(c), c.int('i')]) for nm, k in DS2.items()}

    @contract((T, 'EnumerableBasis', 'ith', ''), ['C11', 'C20'], ci, lambda ex, st, a: accepted()(ex, st, a) + nz(T)(ex, st, a), export=False)
    def _(ex, st, a):
        b = under(ex, st, a[0])
        v = projection(ex, st, b, a[1])
        return st, index_result(a[2], n_of(b), act(scaled(ex, v, norm(T, v)), a[2]))


for T in ('L0Normaliser', 'L1Normaliser', 'L2Normaliser', 'LinfNormaliser'):
    norm_contracts(T)


def unit_norm(T, k):
    """the norm of the normalised projection is 1 if the norm of the projection is not 0"""
    def b(c):
        o = basis(c, 'b', k)
        v = projection(c.ex, c.st, o, inp(c))
        z = norm(T, v)
        w = scaled(c.ex, v, z)
        hy = [z > 0]
        q = z3.Int('active_feature')
        dom = (lambda j: rng(j, fdim(v))) if k == 'D' else acts(v).dom
        c.pre(And(dom(q), act(v, q) != 0))
        if T == 'L1Normaliser':
            return [('sum of absolute values is 1', hy, norm(T, w) == z * INVF(z)), ('quotient', hy, z * INVF(z) == 1)]
        if T == 'L2Normaliser':
            s = total(v, lambda q, x: x * x)
            return [('sum of squares', hy, total(w, lambda q, x: x * x) == s * INVF(z) * INVF(z)),
                    ('is the square of the norm', hy + [s >= 0], s == z * z), ('quotient', hy, z * z * INVF(z) * INVF(z) == 1)]
        return [('largest absolute value is 1', hy, norm(T, w) == z * INVF(z)), ('quotient', hy, z * INVF(z) == 1)]
    return b


for T, s in (('L1Normaliser', 'L1'), ('L2Normaliser', 'L2'), ('LinfNormaliser', 'Linf')):
    for k, s2 in (('D', 'dense'), ('S', 'sparse')):
        lemma('%s normalised %s projections have norm 1' % (s, s2), ['C20'], unit_norm(T, k))
