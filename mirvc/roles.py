"""Assumed contracts of the generic parameters of the crate (a user's basis, optimiser, kernel,
hasher, ...): every method is an arbitrary function of its arguments that respects the
requirements documented on the trait."""
import z3
from terms import *
from values import *
import ext
from ext import role
from sym import ident, mkdense, mksparse, act, fdim, ite, ok, err, mkalt, Ctx

import exec as E


def uf(name, ts, sort):
    ts = list(ts)
    F = z3.Function(name, *([t.sort() for t in ts] + [sort]))
    return F(*ts) if ts else z3.Const(name, sort)


def opaque(name, role_, **aux):
    return Opq(z3.Const(name, OP), role_, aux)


def error(name, ts):
    """an arbitrary error value determined by ts."""
    k = uf('kind_' + name, ts, I)
    kinds = ['Basis', 'Evaluation', 'Optimisation']
    g = [k <= 0, k == 1, k >= 2]
    return Adt('Error', 'Error', [Alt('ErrorKind', [(c, Adt('ErrorKind', v, [])) for c, v in zip(g, kinds)]),
                                  Opq(uf('message_' + name, ts, OP), 'str')], ['kind', 'message'])


# ------------------------------------------------------------------ bases
def basis(c, name, kind, n=None):
    """a basis over arbitrary inputs whose projections have n features, dense or sparse."""
    n = n if n is not None else c.int('n_' + name)
    if kind == 'S':
        nm = 'has_' + name

        def ax(ts):
            return [Implies(t, And(t.arg(t.num_args() - 1) >= 0, t.arg(t.num_args() - 1) < n)) for t in ts
                    if z3.is_app(t) and t.decl().name() == nm and t.num_args() > 0]
        c.schema.append(ax)
    return Opq(z3.Const(name, OP), 'basis', dict(name=name, n=n, kind=kind))


def accepts(ex, st, b, x):
    return uf('accepts_' + b.aux['name'], ident(ex, st, x), B)


def projection(ex, st, b, x):
    """the feature vector that the basis gives for an accepted input."""
    ts = ident(ex, st, x)
    nm, n = b.aux['name'], b.aux['n']
    val = lambda k: uf('proj_' + nm, ts + [k], R)
    if b.aux['kind'] == 'S':
        return mksparse(ex, n, lambda k: uf('has_' + nm, ts + [k], B), val)
    return Adt('Features', 'Dense', [Arr(n, val, uf('std_' + nm, ts, B), 'nd1')])


def failure(ex, st, b, x):
    return error(b.aux['name'], ident(ex, st, x))


def project(ex, st, b, x):
    g = accepts(ex, st, b, x)
    return mkalt('Result', [(g, ok(projection(ex, st, b, x))), (Not(g), err(failure(ex, st, b, x)))])


@role('basis', 'project')
def _(ex, st, c, a):
    return st, project(ex, st, ext.sv(ex, st, a[0]), a[1])


@role('basis', 'ith')
def _(ex, st, c, a):
    b = ext.sv(ex, st, a[0])
    i = ext.num(ex, st, a[2])
    g = accepts(ex, st, b, a[1])
    inr = And(i >= 0, i < b.aux['n'])
    e = error('ith_' + b.aux['name'], ident(ex, st, a[1]) + [i])
    return st, mkalt('Result', [(And(inr, g), ok(act(projection(ex, st, b, a[1]), i))), (Not(And(inr, g)), err(e))])


@role('basis', 'dim')
def _(ex, st, c, a):
    return st, Adt('Dim', 'Finite', [ext.sv(ex, st, a[0]).aux['n']])


@role('basis', 'card')
def _(ex, st, c, a):
    return st, Adt('Card', 'Infinite', [])


@role('basis', 'n_features')
def _(ex, st, c, a):
    return st, ext.sv(ex, st, a[0]).aux['n']


# ------------------------------------------------------------------ kernels
@role('kernel', 'kernel')
def _(ex, st, c, a):
    ts = [t for x in a for t in ident(ex, st, ext.sv(ex, st, x))]
    return st, uf('kernel', ts, R)


@role('kernel', 'clone')
def _(ex, st, c, a):
    return st, ext.sv(ex, st, a[0])


# ------------------------------------------------------------------ hashers
BUILD_HASHER = z3.Function('build_hasher', OP, OP)
WRITE = z3.Function('hash_write', OP, I, OP)
FINISH = z3.Function('hash_finish', OP, I)


@role('hasher builder', 'build_hasher')
def _(ex, st, c, a):
    return st, Opq(BUILD_HASHER(ext.sv(ex, st, a[0]).term), 'hasher')


@role('hasher', 'write_isize')
def _(ex, st, c, a):
    h = ext.sv(ex, st, a[0])
    st = st.fork()
    ex.write(st, ex.loc(st, a[0]), Opq(WRITE(h.term, ext.num(ex, st, a[1])), 'hasher'))
    return st, UNIT


@role('hasher', 'finish')
def _(ex, st, c, a):
    t = FINISH(ext.sv(ex, st, a[0]).term)
    return st.fact(t >= 0), t


# ------------------------------------------------------------------ optimisers
def optimiser(c, name='opt'):
    """an arbitrary optimiser: a step replaces its state and the weights by functions of its state, the
    weights, the features and the scale, and succeeds or fails depending on the same."""
    return Opq(z3.Const(name, OP), 'optimiser')


def features_ident(ex, st, v):
    v = ex.strip(st, v)
    return v.variant, ident(ex, st, v)


def opt_step(ex, st, o, w, v, e):
    """(new state, new weights, success, error) of one step on weights w with features v and scale e"""
    var, fi = features_ident(ex, st, v)
    ts = [o.term] + ident(ex, st, w) + fi + [e]
    nm = 'step_' + var + '_'
    new = Arr(w.n, lambda k: uf(nm + 'weight', ts + [k], R), w.std, w.kind)
    fail = error(nm, ts)
    return Opq(uf(nm + 'state', ts, OP), o.role, o.aux), new, uf(nm + 'succeeds', ts, B), fail


@role('optimiser', 'step_scaled')
@role('optimiser', 'step')
def _(ex, st, c, a):
    fs = ex.strip(st, a[2])
    if not isinstance(fs, Adt):
        # features that are a choice between representations
        raise Unsupported('optimiser step on features of unknown representation')
    o, w = ext.sv(ex, st, a[0]), ext.sv(ex, st, a[1])
    e = ext.num(ex, st, a[3]) if c.method == 'step_scaled' else RealVal(1)
    st = ex.oblige(st, 'weights and features of an optimiser step have the same length', w.n == fdim(fs), 'panic')
    o2, w2, okk, fail = opt_step(ex, st, o, w, fs, e)
    st = st.fork()
    ex.write(st, ex.loc(st, a[0]), o2)
    ex.write(st, ext.loc(ex, st, a[1]), w2)
    return st, mkalt('Result', [(okk, ok(UNIT)), (Not(okk), err(fail))])


@role('optimiser', 'reset')
def _(ex, st, c, a):
    o = ext.sv(ex, st, a[0])
    st = st.fork()
    ex.write(st, ex.loc(st, a[0]), Opq(uf('reset_state', [o.term], OP), o.role, o.aux))
    return st, UNIT
