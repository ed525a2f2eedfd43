"""Contracts of src/basis/kernels/*.rs."""
from contract import *

KS = ['Exponential', 'Matern32', 'Matern52', 'ExpQuad', 'Cosine', 'RationalQuadratic']
R2 = lambda s: z3.RealVal(s)


def closed(name, o, r):
    v = fld(o, 'variance')
    s3, s5 = SQRT(RealVal(3)), SQRT(RealVal(5))
    if name == 'Exponential':
        return v * EXP(som(-r))
    if name == 'Matern32':
        return v * (1 + s3 * r) * EXP(som(-s3 * r))
    if name == 'Matern52':
        return v * (1 + s5 * r + R2('5/3') * r * r) * EXP(som(-s5 * r))
    if name == 'ExpQuad':
        return v * EXP(som(-r * r / 2))
    if name == 'Cosine':
        return v * COS(som(r))
    if name == 'RationalQuadratic':
        return v * EXP(som(-fld(o, 'power') * LN(som(1 + r * r / 2))))


def kern(c, name):
    ls = c.arr('ls', kind='vec')
    d = dict(variance=c.real('variance'), lengthscales=ls)
    if name == 'RationalQuadratic':
        d['power'] = c.real('power')
    return c.struct(name, **d)


def ls_at(o, k):
    ls = fld(o, 'lengthscales')
    return ls.get(ite(ls.n == 1, IntVal(0), k))


def dist(o, x, y):
    q = fresh('q', I)
    d = lambda k: div(x.get(k) - y.get(k), ls_at(o, k))
    return SQRT(som(bsum(q, rng(q, x.n), d(q) * d(q))))


def pos_ls(ex, st, o):
    return fld(o, 'lengthscales').n >= 1


def sc_pre(ex, st, args):
    o = ex.strip(st, args[0])
    return [('at least one lengthscale', fld(o, 'lengthscales').n >= 1)]


def sl_pre(ex, st, args):
    o, x, y = [ex.strip(st, a) for a in args]
    n = fld(o, 'lengthscales').n
    return [('arguments of the same length', x.n == y.n), ('one lengthscale, or one per dimension', Or(n == 1, And(n == x.n, n >= 1)))]


def slices(c, name):
    n = c.int('n')
    return [c.ref(kern(c, name)), c.ref(c.arr('x', kind='vec', n=n)), c.ref(c.arr('y', kind='vec', n=n))]


def sl_spec(name):
    def sp(ex, st, args):
        o, x, y = [ex.strip(st, a) for a in args]
        return st, closed(name, o, dist(o, x, y))
    return sp


for nm in KS:
    contract((nm, None, 'kernel_stationary', ''), ['C15'], {'any': lambda c, nm=nm: [c.ref(kern(c, nm)), c.real('r')]})(
        lambda ex, st, args, nm=nm: (st, closed(nm, ex.strip(st, args[0]), ex.strip(st, args[1]))))
    contract((nm, 'Kernel', 'kernel', 'f64'), ['C15'], {'scalar': lambda c, nm=nm: [c.ref(kern(c, nm)), c.real('x'), c.real('y')]}, sc_pre)(
        lambda ex, st, args, nm=nm: (st, closed(nm, ex.strip(st, args[0]), div(absr(args[1] - args[2]), fld(ex.strip(st, args[0]), 'lengthscales').get(IntVal(0))))))
    contract((nm, 'Kernel', 'kernel', '&[f64]'), ['C15'], {'slices': lambda c, nm=nm: slices(c, nm)}, sl_pre)(sl_spec(nm))
    contract((nm, 'Kernel', 'kernel', '&Vec<f64>'), ['C15'], {'lists': lambda c, nm=nm: slices(c, nm)}, sl_pre)(sl_spec(nm))
    extra = ['power'] if nm == 'RationalQuadratic' else []

    def mk(ex, name, variance, ls, power=None):
        d = dict(variance=variance, lengthscales=ls)
        if power is not None:
            d['power'] = power
        return sym.struct(ex.mod, name, d)

    def one_ls(l):
        return Arr(IntVal(1), lambda i: l, TRUE, 'vec')
    if nm == 'RationalQuadratic':
        contract((nm, None, 'new', ''), ['C15'], {'any': lambda c: [c.real('variance'), c.arr('ls', kind='vec'), c.real('power')]})(
            lambda ex, st, a: (st, mk(ex, 'RationalQuadratic', a[0], a[1], a[2])))
        contract((nm, None, 'non_ard', ''), ['C15'], {'any': lambda c: [c.real('power'), c.real('variance'), c.real('l')]})(
            lambda ex, st, a: (st, mk(ex, 'RationalQuadratic', a[1], one_ls(a[2]), a[0])))
        contract((nm, 'Default', 'default', ''), ['C15'], {'any': lambda c: []})(
            lambda ex, st, a: (st, mk(ex, 'RationalQuadratic', RealVal(1), one_ls(RealVal(2)), RealVal(1))))
    else:
        contract((nm, None, 'new', ''), ['C15'], {'any': lambda c: [c.real('variance'), c.arr('ls', kind='vec')]})(
            lambda ex, st, a, nm=nm: (st, mk(ex, nm, a[0], a[1])))
        contract((nm, None, 'non_ard', ''), ['C15'], {'any': lambda c: [c.real('variance'), c.real('l')]})(
            lambda ex, st, a, nm=nm: (st, mk(ex, nm, a[0], one_ls(a[1]))))
        contract((nm, 'Default', 'default', ''), ['C15'], {'any': lambda c: []})(
            lambda ex, st, a, nm=nm: (st, mk(ex, nm, RealVal(1), one_ls(RealVal(1)))))


# ---------------------------------------------------------------- lemmas over the contracts
def lem_sym(nm):
    def b(c):
        _, x, y = [c.ex.strip(c.st, a) for a in slices(c, nm)]
        o = kern(c, nm)
        a, b = c.real('a'), c.real('b')
        l = fld(o, 'lengthscales').get(IntVal(0))
        r, s = c.real('r'), c.real('s')
        # kernels are functions of the scaled distance, so that it is enough to compare distances
        return [('equal at equal distances', [r == s], closed(nm, o, r) == closed(nm, o, s)),
                ('symmetric (slices)', [], dist(o, x, y) == dist(o, y, x)),
                ('symmetric (scalars)', [], div(absr(a - b), l) == div(absr(b - a), l)),
                ('equals the variance at distance 0', [r == 0], closed(nm, o, r) == fld(o, 'variance')),
                ('distance to itself', [], dist(o, x, x) == 0),
                ('scalar form agrees with the slice form', [l > 0], div(absr(a - b), l) == SQRT(som(div(a - b, l) * div(a - b, l))))]
    return b


for nm in KS:
    lemma('%s is stationary' % nm, ['C15'], lem_sym(nm))
