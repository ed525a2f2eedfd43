"""Contracts of the kernel basis, tile coding and the uniform grid, and of the parts of the spaces crate they rest on."""
from contract import *
from c_basis import finite, dim_is, index_result, mk, opaque, ONE, Z
from c_poly import obj, intervals
import c_kernels
import roles
import ext


# ---------------------------------------------------------------- products of partitioned intervals
def partitions(c, name='', n=None):
    n = n if n is not None else c.int(name + 'n_dims')
    lb, ub, m = [z3.Function(name + f, I, s) for f, s in (('lower_bound', R), ('upper_bound', R), ('n_partitions', I))]
    c.schema.append(lambda ts: [ub(t.arg(0)) > lb(t.arg(0)) for t in ts if z3.is_app(t) and (t.decl().eq(lb) or t.decl().eq(ub))])
    c.schema.append(lambda ts: [t >= 1 for t in ts if z3.is_app(t) and t.decl().eq(m)])
    return Adt('ProductSpace', 'ProductSpace',
               [Arr(n, lambda k: c.struct('Equipartition', lb=lb(k), ub=ub(k), n_partitions=m(k)), TRUE, 'vec')], None)


def axes(ex, st, s):
    return ex.strip(st, ex.strip(st, s).fields[0])


def width(e):
    return div(fld(e, 'ub') - fld(e, 'lb'), z3.ToReal(fld(e, 'n_partitions')))


def centre(e, d):
    return fld(e, 'lb') + (z3.ToReal(d) + z3.RealVal('1/2')) * width(e)


# ---------------------------------------------------------------- kernel basis
def kernel_of(ex, st, k, x, y):
    return roles.uf('kernel', ident(ex, st, k) + ident(ex, st, x) + ident(ex, st, y), R)


def prototypes(c):
    n = c.int('n_prototypes')
    kf = z3.Function('kernel_of', I, OP)
    cs = c.rows('centroid', n, z3.Function('centroid_length', I, I), R)
    return c.struct('KernelBasis', prototypes=Arr(n, lambda k: c.struct('Prototype', centroid=cs.get(k), kernel=Opq(kf(k), 'kernel')), TRUE, 'vec'))


def kb_cases(extra=lambda c: []):
    return {'values': lambda c: [c.ref(prototypes(c)), c.arr('x', kind='vec')] + extra(c),
            'reference': lambda c: [c.ref(prototypes(c)), c.ref(c.arr('x', kind='vec'))] + extra(c)}


def protos(ex, st, a):
    return ex.strip(st, fld(obj(ex, st, a), 'prototypes'))


def feature(ex, st, p, x):
    return kernel_of(ex, st, fld(p, 'kernel'), x, fld(p, 'centroid'))


contract(('KernelBasis', None, 'new', ''), ['C16'], {'any': lambda c: [fld(prototypes(c), 'prototypes')]})(
    lambda ex, st, a: (st, mk(ex, 'KernelBasis', prototypes=a[0])))
contract(('KernelBasis', 'Space', 'dim', ''), ['C10'], {'any': lambda c: [c.ref(prototypes(c))]})(
    lambda ex, st, a: (st, finite(protos(ex, st, a).n)))


@contract(('Prototype', None, 'distance_from', ''), ['C16'], {'any': lambda c: [c.ref(fld(prototypes(c), 'prototypes').get(c.int('k'))), c.ref(c.arr('x', kind='vec'))]}, export=False)
def _(ex, st, a):
    return st, feature(ex, st, obj(ex, st, a), ex.strip(st, a[1]))


@contract(('KernelBasis', None, 'homogeneous', ''), ['C16'], {'any': lambda c: [c.rows('centroid', c.int('n'), z3.Function('centroid_length', I, I), R), opaque('kernel', 'kernel')]}, export=False)
def _(ex, st, a):
    cs = ex.strip(st, a[0])
    return st, mk(ex, 'KernelBasis', prototypes=Arr(cs.n, lambda k: mk(ex, 'Prototype', centroid=cs.get(k), kernel=a[1]), TRUE, 'vec'))


@contract(('KernelBasis', 'Basis', 'project', ''), ['C10', 'C11', 'C16'], kb_cases(), post=dim_is(lambda ex, a: fld(a[0], 'prototypes').n))
def _(ex, st, a):
    p, x = protos(ex, st, a), ex.strip(st, a[1])
    return st, ok(mkdense(p.n, lambda k: feature(ex, st, p.get(k), x)))


@contract(('KernelBasis', 'EnumerableBasis', 'ith', ''), ['C11', 'C16'], kb_cases(lambda c: [c.int('i')]))
def _(ex, st, a):
    p, x = protos(ex, st, a), ex.strip(st, a[1])
    return st, index_result(a[2], p.n, feature(ex, st, p.get(a[2]), x))


for meth, K in (('exp_quad', 'ExpQuad'), ('matern_32', 'Matern32'), ('matern_52', 'Matern52')):
    @contract(('KernelBasis', None, meth, ''), ['C16'], {'any': lambda c: [partitions(c)]})
    def _(ex, st, a, K=K):
        ax = axes(ex, st, a[0])
        n, tup = ext.cartesian(ax.n, lambda j: fld(ax.get(j), 'n_partitions'), lambda j, d: centre(ax.get(j), d))
        k = mk(ex, K, variance=ONE, lengthscales=Arr(ax.n, lambda j: width(ax.get(j)), TRUE, 'vec'))
        return st, mk(ex, 'KernelBasis', prototypes=Arr(n, lambda i: mk(ex, 'Prototype', centroid=tup(i), kernel=k), TRUE, 'vec'))


# ---------------------------------------------------------------- tile coding
def tiles(c):
    t = c.struct('TileCoding', hasher_builder=opaque('hasher_builder', 'hasher builder'), n_tilings=c.int('n_tilings'), memory_size=c.int('memory_size'))
    c.schema.append(lambda ts: [t >= 0 for t in ts if z3.is_app(t) and t.decl().eq(roles.FINISH)])
    return t


def tile_at(o, x):
    """index of the active tile of every tiling: the hash of the tiling and of the coordinates of its tile, all tilings fed to one hasher"""
    nt, mem = fld(o, 'n_tilings'), fld(o, 'memory_size')
    t, i = fresh('t', I), fresh('i', I)
    h, g = fresh('h', OP), fresh('g', OP)
    s = z3.ToInt(x.get(i) * z3.ToReal(nt))
    coord = (s + t * (1 + 2 * i)) / nt
    inner = bfold(0, x.n, i, [g], [roles.WRITE(g, coord)], [roles.WRITE(h, t)], TRUE)

    def at(k):
        before = bfold(0, k, t, [h], [inner], [roles.BUILD_HASHER(fld(o, 'hasher_builder').term)], TRUE)
        return roles.FINISH(z3.substitute(inner, (h, before), (t, k))) % mem
    return at


def memory(ex, st, a):
    return [('the memory has at least one slot', fld(obj(ex, st, a), 'memory_size') >= 1)]


def active(o, x, k):
    q = fresh('q', I)
    return bany(q, And(rng(q, fld(o, 'n_tilings')), tile_at(o, x)(q) == k))


def x_ref(build, extra=lambda c: []):
    return {'any': lambda c: [c.ref(build(c)), c.ref(c.arr('x', kind='vec'))] + extra(c)}


contract(('TileCoding', None, 'new', ''), ['C17'], {'any': lambda c: [opaque('hasher_builder', 'hasher builder'), c.int('n'), c.int('m')]})(
    lambda ex, st, a: (st, mk(ex, 'TileCoding', hasher_builder=a[0], n_tilings=a[1], memory_size=a[2])))
contract(('TileCoding', 'Space', 'dim', ''), ['C10'], {'any': lambda c: [c.ref(tiles(c))]})(
    lambda ex, st, a: (st, finite(fld(obj(ex, st, a), 'memory_size'))))


@contract(('TileCoding', 'Basis', 'project', ''), ['C10', 'C11', 'C17'], x_ref(tiles), memory, post=dim_is(lambda ex, a: fld(a[0], 'memory_size')))
def _(ex, st, a):
    o, x = obj(ex, st, a), ex.strip(st, a[1])
    return st, ok(mksparse(ex, fld(o, 'memory_size'), lambda k: active(o, x, k), lambda k: ONE))


@contract(('TileCoding', 'EnumerableBasis', 'ith', ''), ['C11', 'C17'], x_ref(tiles, lambda c: [c.int('i')]), memory)
def _(ex, st, a):
    o, x = obj(ex, st, a), ex.strip(st, a[1])
    return st, index_result(a[2], fld(o, 'memory_size'), ite(active(o, x, a[2]), ONE, Z))


# ---------------------------------------------------------------- partitions of an interval
def cell(e, x):
    """number of the part that holds x; points outside belong to the first or last part"""
    lb, ub, n = fld(e, 'lb'), fld(e, 'ub'), fld(e, 'n_partitions')
    return z3.simplify(If(x <= lb, IntVal(0), If(x >= ub, n - 1, z3.ToInt(z3.ToReal(n) * div(x - lb, ub - lb)))))


def equipartition(c):
    return partitions(c).fields[0].get(c.int('k'))


def in_range(ex, r, a):
    return [('the part exists', (), And(r >= 0, r < fld(a[0], 'n_partitions')))]


for key in (('Equipartition', None, 'to_partition', ''), ('Equipartition', 'Surjection', 'map_onto', '')):
    contract(key, ['C18'], {'any': lambda c: [c.ref(equipartition(c)), c.real('x')]}, post=in_range)(
        lambda ex, st, a: (st, cell(obj(ex, st, a), a[1])))


# ---------------------------------------------------------------- uniform grid
def cells(ax):
    """number of cells: the product of the numbers of parts"""
    q = fresh('q', I)
    return bprod(q, rng(q, ax.n), fld(ax.get(q), 'n_partitions'))


def n_cells(o):
    """stored or, where the grid does not store it, counted"""
    return cells(axes_of(o)) if 'n_features' in sym.absent(o) else fld(o, 'n_features')


def grid(c, n=None):
    s = partitions(c, n=n)
    return c.struct('UniformGrid', n_features=cells(s.fields[0]), feature_space=s)


def grid_cases(extra=lambda c: []):
    def b(c):
        n = c.int('n_dims')
        return [c.ref(grid(c, n)), c.ref(c.arr('x', n=n, kind='vec'))] + extra(c)
    return {'any': b}


def one_dim(ex, st, a):
    return [('at least one dimension', axes(ex, st, fld(obj(ex, st, a), 'feature_space')).n >= 1)]


def cell_number(ax, x):
    """the parts of all dimensions read as the digits of a number, the last dimension moving fastest"""
    k, acc = fresh('k', I), fresh('acc', I)
    e = ax.get(k + 1)
    return bfold(0, z3.simplify(ax.n - 1), k, [acc], [cell(e, x.get(k + 1)) + fld(e, 'n_partitions') * acc], [cell(ax.get(IntVal(0)), x.get(IntVal(0)))], TRUE)


def grid_index(st, o, x):
    ax = axes_of(o)
    i = cell_number(ax, x)
    # by induction over the dimensions: lemma 'the cell number is below the number of cells'
    return st.fact(And(i >= 0, i < cells(ax))), i


def axes_of(o):
    return fld(o, 'feature_space').fields[0]


def lem_cells(c):
    p, acc, d, m = [c.int(k) for k in ('cells_before', 'number_before', 'part', 'parts')]
    return [('first dimension', [d >= 0, d < m], And(d >= 0, d < m)),
            ('next dimension', [acc >= 0, acc < p, d >= 0, d < m], And(d + m * acc >= 0, d + m * acc < p * m))]


lemma('the cell number is below the number of cells (induction over the dimensions)', ['C10', 'C11', 'C18'], lem_cells)


def lem_digits(c):
    a1, a2, d1, d2, m = [c.int(k) for k in ('a1', 'a2', 'd1', 'd2', 'parts')]
    return [('two cells with the same number have the same parts', [a1 >= 0, a2 >= 0, d1 >= 0, d1 < m, d2 >= 0, d2 < m, d1 + m * a1 == d2 + m * a2], And(d1 == d2, a1 == a2))]


lemma('different cells have different numbers (induction over the dimensions)', ['C18'], lem_digits)

contract(('UniformGrid', 'Space', 'dim', ''), ['C10'], {'any': lambda c: [c.ref(grid(c))]})(
    lambda ex, st, a: (st, finite(n_cells(obj(ex, st, a)))))


@contract(('UniformGrid', 'Basis', 'project', ''), ['C10', 'C11', 'C18'], grid_cases(), one_dim, post=dim_is(lambda ex, a: n_cells(a[0])))
def _(ex, st, a):
    o, x = obj(ex, st, a), ex.strip(st, a[1])
    st, i = grid_index(st, o, x)
    return st, ok(mksparse(ex, n_cells(o), lambda k: k == i, lambda k: ONE))


@contract(('UniformGrid', 'EnumerableBasis', 'ith', ''), ['C11', 'C18'], grid_cases(lambda c: [c.int('i')]), one_dim)
def _(ex, st, a):
    o, x = obj(ex, st, a), ex.strip(st, a[1])
    st, i = grid_index(st, o, x)
    return st, index_result(a[2], n_cells(o), ite(a[2] == i, ONE, Z))


# ---------------------------------------------------------------- number of elements of a product space
def card(n):
    return Adt('Card', 'Finite', [n])


def card_mul(a, b):
    return z3.simplify(If(a == 0, b, If(b == 0, a, a * b)))


contract(('Card', 'Mul', 'mul', ''), ['C18'], {'finite': lambda c: [card(c.int('a')), card(c.int('b'))]},
         usable=lambda ex, st, a: all(isinstance(ex.strip(st, x), Adt) and ex.strip(st, x).variant == 'Finite' for x in a))(
    lambda ex, st, a: (st, card(card_mul(ex.strip(st, a[0]).fields[0], ex.strip(st, a[1]).fields[0]))))


@contract(('ProductSpace', 'Space', 'card', ''), ['C18'], {'partitions': lambda c: [c.ref(partitions(c))]})
def _(ex, st, a):
    ax = axes(ex, st, a[0])
    k, acc = fresh('k', I), fresh('acc', I)
    t = bfold(0, ax.n, k, [acc], [card_mul(acc, fld(ax.get(k), 'n_partitions'))], [IntVal(0)], TRUE)
    p = z3.simplify(If(ax.n == 0, IntVal(0), cells(ax)))
    # by induction over the dimensions: lemma 'the cardinality is the product'
    return st.fact(t == p), card(t)


def lem_card(c):
    p, m = c.int('product_before'), c.int('parts')
    c.pre(And(p >= 1, m >= 1))
    return [('first dimension', [], card_mul(IntVal(0), m) == m), ('next dimension', [], And(card_mul(p, m) == p * m, p * m >= 1))]


lemma('the cardinality is the product of the numbers of parts (induction over the dimensions)', ['C10', 'C18'], lem_card)


@contract(('UniformGrid', None, 'new', ''), ['C18'], {'any': lambda c: [partitions(c)]},
          lambda ex, st, a: [('at least one dimension', axes(ex, st, a[0]).n >= 1)])
def _(ex, st, a):
    return st, mk(ex, 'UniformGrid', n_features=cells(axes(ex, st, a[0])), feature_space=a[0])
