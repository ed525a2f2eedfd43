"""Contracts of src/basis/polynomial, src/basis/fourier.rs and the helpers of src/basis/mod.rs."""
from contract import *
from c_basis import finite, dim_is, index_result, mk, ONE, Z
from terms import powi as POW_
import ext


def tuples(order, dim):
    """all tuples over 0..=order of the given length but the first (all zero), in lexicographic order"""
    size, tup = ext.cartesian(dim, lambda j: z3.simplify(order + 1), lambda j, d: d)
    n = z3.simplify(If(size >= 1, size - 1, IntVal(0)))
    return n, lambda k: tup(z3.simplify(k + 1))


def coeffs(order, dim, conv=lambda x: x):
    n, tup = tuples(order, dim)
    return Arr(n, lambda k: Arr(dim, lambda j: conv(tup(k).get(j)), TRUE, 'vec'), TRUE, 'vec')


def get_in(c, n):
    return {'values': c.arr('x', n=n, kind='vec'), 'references': c.ref(c.arr('x', n=n, kind='vec'))}


# ---------------------------------------------------------------- polynomial
def poly(c, d=None):
    """any polynomial basis over inputs of d dimensions: tuples may be shorter (missing exponents are 0)"""
    d = d if d is not None else c.int('d')
    n = c.int('n_terms')
    ln = z3.Function('tuple_length', I, I)
    c.schema.append(lambda ts: [And(t >= 0, t <= d) for t in ts if z3.is_app(t) and t.decl().eq(ln)])
    return c.struct('Polynomial', order=c.u8('order'), exponents=c.rows('exponent', n, lambda k: ln(k), I, 255))


def mono(x, e):
    q = fresh('q', I)
    return bprod(q, rng(q, e.n), POWI(x.get(q), e.get(q)))


def obj(ex, st, a):
    return ex.strip(st, a[0])


def in_cases(build, extra=lambda c: []):
    out = {}
    for how in ('values', 'references'):
        def b(c, how=how):
            d = c.int('d')
            o = build(c, d)
            x = c.arr('x', n=d, kind='vec')
            return [c.ref(o), x if how == 'values' else c.ref(x)] + extra(c)
        out[how] = b
    return out


def index_arg(c):
    return [c.int('i')]


contract(('Polynomial', None, 'new', ''), ['C12'], {'any': lambda c: [c.int('dim'), c.u8('order')]})(
    lambda ex, st, a: (st, mk(ex, 'Polynomial', order=a[1], exponents=coeffs(a[1], a[0]))))


@contract(('Polynomial', None, 'with_zeroth', ''), ['C12'], {'any': lambda c: [poly(c)]})
def _(ex, st, a):
    o = obj(ex, st, a)
    e = fld(o, 'exponents')
    zero = Arr(z3.simplify(If(e.n > 0, e.get(IntVal(0)).n, IntVal(0))), lambda j: IntVal(0), TRUE, 'vec')
    return st, setf(o, exponents=e.set(e.n, zero).with_n(z3.simplify(e.n + 1)))


contract(('Polynomial', 'Space', 'dim', ''), ['C10'], {'any': lambda c: [c.ref(poly(c))]})(
    lambda ex, st, a: (st, finite(fld(obj(ex, st, a), 'exponents').n)))


@contract(('Polynomial', 'Basis', 'project', ''), ['C10', 'C11', 'C12'], in_cases(poly), post=dim_is(lambda ex, a: fld(a[0], 'exponents').n))
def _(ex, st, a):
    e, x = fld(obj(ex, st, a), 'exponents'), ex.strip(st, a[1])
    return st, ok(mkdense(e.n, lambda k: mono(x, e.get(k))))


@contract(('Polynomial', 'EnumerableBasis', 'ith', ''), ['C11', 'C12'], in_cases(poly, index_arg))
def _(ex, st, a):
    e, x = fld(obj(ex, st, a), 'exponents'), ex.strip(st, a[1])
    return st, index_result(a[2], e.n, mono(x, e.get(a[2])))


def lem_zeroth(c):
    x = c.arr('x', kind='vec')
    n = c.int('n')
    c.pre(n <= x.n)
    return [('a tuple of zeros gives 1', [], mono(x, Arr(n, lambda j: IntVal(0), TRUE, 'vec')) == 1)]


lemma('the zeroth term is 1 for every input', ['C12', 'C13'], lem_zeroth)


# ---------------------------------------------------------------- Chebyshev
def cheb(n, x):
    """first-kind Chebyshev polynomial by its recurrence"""
    a, b = ONE, x
    for _ in range(n):
        a, b = b, z3.simplify(2 * x * b - a, som=True)
    return a


def cheb_deg(deg, x):
    r = RealVal(0)
    for n in range(11, -1, -1):
        r = If(deg == n, cheb(n, x), r)
    return r


def limits(c, d, name='limits'):
    """one pair of distinct bounds per dimension"""
    l = c.tuples(name, (R, R), n=d)
    f, g = [z3.Function('%s_%d' % (name, k), I, R) for k in (0, 1)]
    c.schema.append(lambda ts: [g(t.arg(0)) != f(t.arg(0)) for t in ts if z3.is_app(t) and (t.decl().eq(f) or t.decl().eq(g))])
    return l


def unit(l, x, q):
    lo, hi = l.get(q).items
    return div(x.get(q) - lo, hi - lo)


def chebyshev(c, d=None):
    d = d if d is not None else c.int('d')
    n = c.int('n_terms')
    ln = z3.Function('row_length', I, I)
    fn = z3.Function('function', I, I, OP)
    c.schema.append(lambda ts: [And(t >= 0, t <= d) for t in ts if z3.is_app(t) and t.decl().eq(ln)])
    rows = Arr(n, lambda k: Arr(ln(k), lambda j: Opq(fn(k, j), 'fnptr'), TRUE, 'vec'), TRUE, 'vec')
    return c.struct('Chebyshev', order=c.u8('order'), limits=limits(c, d), polynomials=rows)


CALL = z3.Function('call', OP, R, R)


def ch_feature(o, x, row):
    l = fld(o, 'limits')
    q = fresh('q', I)
    return bprod(q, rng(q, row.n), CALL(row.get(q).term, 2 * unit(l, x, q) - 1))


contract(('Chebyshev', 'Space', 'dim', ''), ['C10'], {'any': lambda c: [c.ref(chebyshev(c))]})(
    lambda ex, st, a: (st, finite(fld(obj(ex, st, a), 'polynomials').n)))


@contract(('Chebyshev', 'Basis', 'project', ''), ['C10', 'C11', 'C13'], in_cases(chebyshev), post=dim_is(lambda ex, a: fld(a[0], 'polynomials').n))
def _(ex, st, a):
    o, x = obj(ex, st, a), ex.strip(st, a[1])
    p = fld(o, 'polynomials')
    return st, ok(mkdense(p.n, lambda k: ch_feature(o, x, p.get(k))))


@contract(('Chebyshev', 'EnumerableBasis', 'ith', ''), ['C11', 'C13'], in_cases(chebyshev, index_arg))
def _(ex, st, a):
    o, x = obj(ex, st, a), ex.strip(st, a[1])
    p = fld(o, 'polynomials')
    return st, index_result(a[2], p.n, ch_feature(o, x, p.get(a[2])))


def ch_new(ex, order, l):
    cs = coeffs(order, l.n)
    rows = Arr(cs.n, lambda k: Arr(l.n, lambda j: sym.NumFn(lambda x: cheb_deg(cs.get(k).get(j), x)), TRUE, 'vec'), TRUE, 'vec')
    return mk(ex, 'Chebyshev', order=order, limits=Arr(l.n, l.get, TRUE, 'vec'), polynomials=rows)


def ok_order(ex, st, a):
    return [('order at most 11', a[0] <= 11)]


contract(('Chebyshev', None, 'new', ''), ['C13'], {'any': lambda c: [c.u8('order'), limits(c, c.int('d'))]}, ok_order, export=False)(
    lambda ex, st, a: (st, ch_new(ex, a[0], ex.strip(st, a[1]))))
contract(('Chebyshev', None, 'new', ''), ['C13'], {'any': lambda c: [c.u8('order'), limits(c, c.int('d'))]},
         lambda ex, st, a: [('order above 11', a[0] > 11)], export=False, must_panic=True, title='Chebyshev::new (order above 11)')(None)


@contract(('Chebyshev', None, 'with_zeroth', ''), ['C13'], {'any': lambda c: [chebyshev(c)]})
def _(ex, st, a):
    o = obj(ex, st, a)
    p, l = fld(o, 'polynomials'), fld(o, 'limits')
    rows = Arr(z3.simplify(p.n + 1), lambda k: vite_row(k < p.n, p.get(k), Arr(l.n, lambda j: sym.NumFn(lambda x: ONE), TRUE, 'vec')), TRUE, 'vec')
    return st, setf(o, polynomials=rows)


def vite_row(c, a, b):
    return Arr(ite(c, a.n, b.n), lambda j: sym.NumFn(lambda x: ite(c, CALL(a.get(j).term, x), b.get(j).f(x))), TRUE, 'vec')


for n in range(12):
    contract((None, None, 't_%d' % n, ''), ['C13'], {'any': lambda c: [c.real('x')]})(lambda ex, st, a, n=n: (st, cheb(n, a[0])))


# ---------------------------------------------------------------- Fourier
def fourier(c, d=None):
    d = d if d is not None else c.int('d')
    n = c.int('n_terms')
    ln = z3.Function('row_length', I, I)
    co = z3.Function('coefficient', I, I, R)
    c.schema.append(lambda ts: [And(t >= 0, t <= d) for t in ts if z3.is_app(t) and t.decl().eq(ln)])
    rows = Arr(n, lambda k: Arr(ln(k), lambda j: co(k, j), TRUE, 'vec'), TRUE, 'vec')
    return c.struct('Fourier', order=c.u8('order'), limits=limits(c, d), coefficients=rows)


def fo_feature(o, x, row):
    l = fld(o, 'limits')
    q = fresh('q', I)
    return COS(PI * bsum(q, rng(q, row.n), row.get(q) * unit(l, x, q)))


contract(('Fourier', 'Space', 'dim', ''), ['C10'], {'any': lambda c: [c.ref(fourier(c))]})(
    lambda ex, st, a: (st, finite(fld(obj(ex, st, a), 'coefficients').n)))


@contract(('Fourier', 'Basis', 'project', ''), ['C10', 'C11', 'C14'], in_cases(fourier), post=dim_is(lambda ex, a: fld(a[0], 'coefficients').n))
def _(ex, st, a):
    o, x = obj(ex, st, a), ex.strip(st, a[1])
    p = fld(o, 'coefficients')
    return st, ok(mkdense(p.n, lambda k: fo_feature(o, x, p.get(k))))


@contract(('Fourier', 'EnumerableBasis', 'ith', ''), ['C11', 'C14'], in_cases(fourier, index_arg))
def _(ex, st, a):
    o, x = obj(ex, st, a), ex.strip(st, a[1])
    p = fld(o, 'coefficients')
    return st, index_result(a[2], p.n, fo_feature(o, x, p.get(a[2])))


def fo_new(ex, order, l):
    return mk(ex, 'Fourier', order=order, limits=Arr(l.n, l.get, TRUE, 'vec'), coefficients=coeffs(order, l.n, z3.ToReal))


contract(('Fourier', None, 'new', ''), ['C14'], {'any': lambda c: [c.u8('order'), limits(c, c.int('d'))]})(
    lambda ex, st, a: (st, fo_new(ex, a[0], ex.strip(st, a[1]))))


# ---------------------------------------------------------------- from a product of intervals
def intervals(c, bounded=True):
    n = c.int('n_dims')
    lb, ub = [z3.Function(k, I, R) for k in ('lower_bound', 'upper_bound')]
    hl, hu = [(lambda k: TRUE) if bounded else z3.Function(k, I, B) for k in ('has_lower', 'has_upper')]
    c.schema.append(lambda ts: [ub(t.arg(0)) > lb(t.arg(0)) for t in ts if z3.is_app(t) and (t.decl().eq(lb) or t.decl().eq(ub))])

    def get(k):
        return c.struct('Interval', lb=opt(hl(k), lb(k)), ub=opt(hu(k), ub(k)))
    return Adt('ProductSpace', 'ProductSpace', [Arr(n, get, TRUE, 'vec')], None), Arr(n, lambda k: Tup([lb(k), ub(k)]), TRUE, 'vec')


def from_space(T, new, prop, pre=None):
    def b(c):
        s, l = intervals(c)
        b.l = l
        return [c.u8('order'), s]
    contract((T, None, 'from_space', ''), [prop], {'bounded': b}, pre, export=False)(lambda ex, st, a: (st, new(ex, a[0], b.l)))


from_space('Fourier', fo_new, 'C14')
from_space('Chebyshev', ch_new, 'C13', ok_order)
