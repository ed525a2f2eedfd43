"""Copies and comparison (C32): `clone` gives the same value, `==` holds exactly when all parts are equal.

The fields are found in the source, so a new field has to be copied and compared as well."""
import re
from contract import *
from ext import deep_eq
from c_space import partitions

STRUCTS = ['Exponential', 'Matern32', 'Matern52', 'ExpQuad', 'Cosine', 'RationalQuadratic', 'Fourier', 'Prototype', 'KernelBasis',
           'Polynomial', 'Chebyshev', 'TileCoding', 'UniformGrid', 'Closure', 'Bias', 'Fixed', 'L0Normaliser', 'L1Normaliser', 'L2Normaliser', 'LinfNormaliser', 'Stack',
           'SGD', 'ISGD', 'SGDMomentum', 'NAG', 'Adam', 'AdaMax', 'Adagrad']
NO_EQ = ['SparseActivations', 'LFA']


def typed(c, name, ty):
    t = re.sub(r'(?:\w+::)+', '', ty or '').replace('::', '')
    t = {'IndexT': 'usize', 'ActivationT': 'f64'}.get(t, t)
    if t == 'f64':
        return c.real(name)
    if t in ('usize', 'u64', 'u32'):
        return c.int(name)
    if t == 'u8':
        return c.u8(name)
    if t in ('isize', 'i64', 'i32'):
        return c.int(name, nonneg=False)
    if t in ('Vec<f64>', 'Array1<f64>', 'DenseActivations'):
        return c.arr(name, kind='vec' if t[0] == 'V' else 'nd1')
    if t == 'Vec<(f64,f64)>':
        return c.tuples(name, (R, R))
    if t in ('Vec<Vec<f64>>', 'Vec<Vec<u8>>'):
        ln = z3.Function('len_' + name, I, I)
        c.schema.append(lambda ts: [x >= 0 for x in ts if z3.is_app(x) and x.decl().eq(ln)])
        return c.rows(name, c.int('rows_' + name), ln, R if 'f64' in t else I, None if 'f64' in t else 255)
    if re.fullmatch(r'HashMap<(IndexT|usize),(ActivationT|f64)>', t):
        return c.map(name)
    if t == 'ProductSpace<Equipartition>':
        return partitions(c, name)
    if t in c.ex.mod.structs and t not in sym.PLAIN:
        return value(c, t, name)
    if t[:1] == '(' and t[-1:] == ')':
        return Tup([typed(c, '%s.%d' % (name, k), x.strip()) for k, x in enumerate(sym.mirparse.split_top(t[1:-1])) if x.strip()])
    return Opq(z3.Const(name, OP), 'field')


def value(c, ty, name):
    mod = c.ex.mod
    names = mod.structs.get(ty)
    if not names:
        names = ['0']
    tys = mod.field_types
    get = lambda f: tys.get((ty, f)) or tys.get(('$', f))
    return Adt(ty, ty, [typed(c, '%s.%s' % (name, f), get(f)) for f in names], names)


def clone_spec(ex, st, args):
    return st, ex.strip(st, args[0])


def eq_spec(ex, st, args):
    return st, deep_eq(ex, st, args[0], args[1])


def add(ty, mk, eq=True):
    contract((ty, 'Clone', 'clone', ''), ['C32'], {k: (lambda c, f=f: [c.ref(f(c, 'a'))]) for k, f in mk.items()})(clone_spec)
    if eq:
        contract((ty, 'PartialEq', 'eq', ''), ['C32'], {'%s, %s' % (k, l): (lambda c, f=f, g=g: [c.ref(f(c, 'a')), c.ref(g(c, 'b'), 'B')]) for k, f in mk.items() for l, g in mk.items()})(eq_spec)


for ty in STRUCTS + NO_EQ:
    add(ty, {'any': lambda c, n, ty=ty: value(c, ty, n)}, ty not in NO_EQ)
add('Error', {'any': lambda c, n: value(c, 'Error', n)})
add('ErrorKind', {v: (lambda c, n, v=v: Adt('ErrorKind', v, [])) for v in ('Basis', 'Evaluation', 'Optimisation')})
add('Features', {'dense': lambda c, n: c.dense(n), 'sparse': lambda c, n: c.sparse(n)}, False)
