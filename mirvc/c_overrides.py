"""Provided trait methods that a type may override: the same contract as the provided body.

None of these overrides exists on the pinned tree; the contracts are checked as soon as one appears."""
from contract import *
from c_copy import STRUCTS, NO_EQ, value, eq_spec
from c_lfa import halfway, OUT, DS2, dot
from c_basis import mk

NONE = dict(optional=True, export=False)


def written(ex, st, a, v):
    st = st.fork()
    ex.write(st, ext.loc(ex, st, a), v)
    return st


# ---------------------------------------------------------------- Clone::clone_from, PartialEq::ne (C32)
def clone_from(ex, st, a):
    return written(ex, st, a[0], ex.strip(st, a[1])), UNIT


def ne(ex, st, a):
    return st, Not(eq_spec(ex, st, a)[1])


def copies(ty, mk_, eq):
    two = {'%s, %s' % (k, l): (lambda c, f=f, g=g: [c.ref(f(c, 'a')), c.ref(g(c, 'b'), 'B')]) for k, f in mk_.items() for l, g in mk_.items()}
    contract((ty, 'Clone', 'clone_from', ''), ['C32'], two, **NONE)(clone_from)
    if eq:
        contract((ty, 'PartialEq', 'ne', ''), ['C32'], two, **NONE)(ne)


for ty in STRUCTS + NO_EQ + ['Error']:
    copies(ty, {'any': lambda c, n, ty=ty: value(c, ty, n)}, ty not in NO_EQ)
copies('ErrorKind', {v: (lambda c, n, v=v: Adt('ErrorKind', v, [])) for v in ('Basis', 'Evaluation', 'Optimisation')}, True)
copies('Features', {'dense': lambda c, n: c.dense(n), 'sparse': lambda c, n: c.sparse(n)}, False)
feq = BY_KEY.get(('Features', 'PartialEq', 'eq', 'Features')) or BY_KEY.get(('Features', 'PartialEq', 'eq', ''))
if feq is None:
    feq = next(c for c in ALL if c.key[:3] == ('Features', 'PartialEq', 'eq'))
for k_ in {('Features', 'PartialEq', 'ne', ''), ('Features', 'PartialEq', 'ne', feq.key[3])}:
    contract(k_, ['C09'], feq.cases, feq._pre, **NONE)(lambda ex, st, a: (feq.spec(ex, st, a)[0], Not(feq.spec(ex, st, a)[1])))


# ---------------------------------------------------------------- Basis::n_features (C10)
def card_value(ex, st, d):
    d = ex.strip(st, d)
    return d.fields[0]


for c_ in [c for c in ALL if c.key[1:3] == ('Space', 'dim') and c.key[0] not in (None, 'ProductSpace')]:
    contract((c_.key[0], 'Basis', 'n_features', c_.key[3]), ['C10'], c_.cases, c_._pre, **NONE)(
        lambda ex, st, a, c_=c_: (st, card_value(ex, st, c_.spec(ex, st, a)[1])))
    # ------------------------------------------------------------ combinators (C19, C20)
    own = {k: (lambda c, f=f: [(lambda r: c.ex.strip(c.st, r))(f(c)[0])]) for k, f in c_.cases.items()}
    contract((c_.key[0], 'Combinators', 'with_bias', c_.key[3]), ['C19'], own, **NONE)(
        lambda ex, st, a: (st, mk(ex, 'Stack', b1=a[0], b2=Adt('Bias', 'Bias', [RealVal(1)], None))))
    for m_, T_ in (('normalise_l0', 'L0Normaliser'), ('normalise_l1', 'L1Normaliser'), ('normalise_l2', 'L2Normaliser'), ('normalise_linf', 'LinfNormaliser')):
        contract((c_.key[0], 'Combinators', m_, c_.key[3]), ['C20'], own, **NONE)(
            lambda ex, st, a, T_=T_: (st, Adt(T_, T_, [a[0]], None)))


# ---------------------------------------------------------------- provided methods of the output iterator (C27)
def rest(ex, st, a):
    o = ex.strip(st, a)
    it, v = fld(o, 'lanes'), ex.strip(st, fld(o, 'basis'))

    def out(k):
        col = it.elem(ex, st, k)[1]
        return dot(v, lambda q: ex.strip(st, col).get(q))
    return o, it, out


@contract(('OutputIter', 'Iterator', 'nth', ''), ['C27'], {nm: (lambda c, k=k: [c.ref(halfway(c, k)), c.int('skip')]) for nm, k in DS2.items()}, **NONE)
def _(ex, st, a):
    o, it, out = rest(ex, st, a[0])
    at = z3.simplify(it.start + a[1])
    more = at < it.n
    st = written(ex, st, a[0], setf(o, lanes=it.repl(start=If(more, at + 1, it.n))))
    return st, mkalt('Option', [(more, some(out(at))), (Not(more), none())])


@contract(('OutputIter', 'Iterator', 'count', ''), ['C27'], {nm: (lambda c, k=k: [halfway(c, k)]) for nm, k in DS2.items()}, **NONE)
def _(ex, st, a):
    o, it, out = rest(ex, st, a[0])
    return st, it.n - it.start


@contract(('OutputIter', 'Iterator', 'last', ''), ['C27'], {nm: (lambda c, k=k: [halfway(c, k)]) for nm, k in DS2.items()}, **NONE)
def _(ex, st, a):
    o, it, out = rest(ex, st, a[0])
    more = it.start < it.n
    return st, mkalt('Option', [(more, some(out(it.n - 1))), (Not(more), none())])
