"""Relational contracts: properties that compare two functions with each other.

The contracts of the single functions say more than C10, C11 and C26 ask for (the value of a feature, the
update law).  When one of them is not discharged, the property is decided by comparing the code of the two
functions directly: both are executed on the same arbitrary state and the results must agree, so that a
change which breaks the documented formula in both functions alike is reported by the property it breaks
and by no other."""
from contract import *
from c_basis import index_result, feats_of
import c_optim

GROUPS = []       # (property, keys of the members, the relational contracts that decide them)


def relation(title, key, cases, pre, f):
    c = Contract(key, [], cases, None, pre, title=title, export=False)
    c.relate = f
    ALL.append(c)
    return len(ALL) - 1


def code(ex, key, st, args):
    return ex.run_fn(fn_for(ex.mod, key), list(args), st.fork())


def facts(*sts):
    out = []
    for s in sts:
        out += [h for h in s.hyp() if not any(h is x for x in out)]
    return out


def dimension(ex, key, st, me):
    st2, d = code(ex, (key[0], 'Space', 'dim', key[3]), st, [me])
    d = ex.strip(st2, d)
    if not (isinstance(d, Adt) and d.variant == 'Finite'):
        raise Unsupported('the dimension is not finite')
    return st2, d.fields[0]


def same_dim(key):
    """C10: what project returns against what dim returns"""
    def f(ex, st0, st1, r1, args, freeze):
        st2, n = dimension(ex, key, st0, args[0])
        out = []
        for g, v in feats_of(freeze(ex, st1, r1)):
            out.append(('the projection has the advertised dimension', g, fdim(v) == n))
            if v.variant == 'Sparse':
                k = fresh('k', I)
                out.append(('stored indices are below the dimension', g + (acts(v).dom(k),), And(k >= 0, k < n)))
        return facts(st1, st2), out
    return f


def same_feature(key):
    """C11: what ith returns against the activation in what project returns"""
    def f(ex, st0, st1, r1, args, freeze):
        st2, n = dimension(ex, key, st0, args[0])
        st3, p = code(ex, (key[0], 'Basis', 'project', key[3]), st0, args[:2])
        i = args[2]
        out = []
        some = False
        for g, v in feats_of(freeze(ex, st3, p)):
            some = True
            for nm, h, goal in sym.equal(ex, st1, freeze(ex, st1, r1), index_result(i, n, act(v, i)), 'the feature is the activation of the projection'):
                out.append((nm, g + tuple(h), goal))
        if not some:
            raise Unsupported('no projection')
        return facts(st1, st2, st3), out
    return f


def same_step(name):
    """C26: step against step_scaled with factor 1"""
    def f(ex, st0, st1, r1, args, freeze):
        st2, r2 = code(ex, (name, 'Optimiser', 'step_scaled', ''), st0, list(args) + [RealVal(1)])
        out = sym.equal(ex, st1, freeze(ex, st1, r1), freeze(ex, st2, r2), 'an unscaled step is a step scaled by 1')
        for a in args[:2]:
            out += sym.equal(ex, st1, freeze(ex, st1, a), freeze(ex, st2, a), 'an unscaled step is a step scaled by 1')
        return facts(st1, st2), out
    return f


def same_new(name):
    """C26: reset against new with the hyper-parameters and the number of parameters before"""
    def f(ex, st0, st1, r1, args, freeze):
        o = ex.strip(st0, args[0])
        st2, r2 = code(ex, (name, None, 'new', ''), st0, [fld(o, c_optim.STATE[name][0]).n] + [fld(o, h) for h in c_optim.NEW[name]])
        return facts(st1, st2), sym.equal(ex, st1, freeze(ex, st1, args[0]), freeze(ex, st2, r2), 'a reset optimiser is a new one')
    return f


for c_ in [c for c in ALL if c.key[1] == 'Basis' and c.key[2] == 'project' and 'C10' in c.props and c.key[0] != 'UniformGrid']:
    # (the cell number of a grid is below the number of cells by the induction lemma of its own contract)
    dk_ = (c_.key[0], 'Space', 'dim', c_.key[3])
    GROUPS.append(('C10', {c_.key, dk_}, [relation('%s: dimension of the projection' % c_.name, c_.key, c_.cases, c_._pre, same_dim(c_.key))]))
for c_ in [c for c in ALL if c.key[0] and c.key[1] == 'EnumerableBasis' and c.key[2] == 'ith']:
    pk_ = (c_.key[0], 'Basis', 'project', c_.key[3])
    GROUPS.append(('C11', {c_.key, pk_}, [relation('%s against project' % c_.name, c_.key, c_.cases, c_._pre, same_feature(c_.key))]))
steps_ = []
for nm in c_optim.PROP:
    k_ = (nm, 'Optimiser', 'step', '')
    steps_.append(relation('%s: unscaled against scaled step' % nm, k_, c_optim.both_kinds(nm, False), c_optim.OptPre(nm), same_step(nm)))
GROUPS.append(('C26', {(nm, 'Optimiser', m, '') for nm in list(c_optim.PROP) + [None] for m in ('step', 'step_scaled')}, steps_))
for nm in c_optim.STATE:
    k_ = (nm, 'Optimiser', 'reset', '')
    GROUPS.append(('C26', {k_, (nm, None, 'new', '')},
                   [relation('%s: reset against new' % nm, k_, {'any': lambda c, nm=nm: [c.ref(c_optim.optimiser(c, nm, c.int('n')))]}, None, same_new(nm))]))
