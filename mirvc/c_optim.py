"""Contracts of src/optim/*.rs."""
from contract import *
from c_features import split, add_spec, F, Z

EPS = z3.RealVal('1/10000000')
ONE = RealVal(1)
STATE = {'SGDMomentum': ['velocity'], 'NAG': ['velocity'], 'Adagrad': ['accumulator'],
         'Adam': ['exp_avg', 'exp_avg_sq'], 'AdaMax': ['exp_avg', 'exp_inf']}
PROP = {'SGD': 'C21', 'ISGD': 'C21', 'SGDMomentum': 'C22', 'NAG': 'C22', 'Adagrad': 'C23', 'Adam': 'C24', 'AdaMax': 'C25'}


def power(c, x, t):
    """x^t of a ghost step counter t, with the recurrence that defines it"""
    c.fact(POWI(x, t + 1) == POWI(x, t) * x)
    return POWI(x, t)


def optimiser(c, name, n):
    if name in ('SGD', 'ISGD'):
        return Adt(name, name, [c.real('lr')], None)
    arrs = {a: c.arr(a, n=n, std=TRUE) for a in STATE[name]}
    if name in ('SGDMomentum', 'NAG'):
        return c.struct(name, momentum=c.real('momentum'), learning_rate=c.real('lr'), **arrs)
    if name == 'Adagrad':
        return c.struct(name, learning_rate=c.real('lr'), **arrs)
    t = c.int('t')
    c.t = t
    b1, b2 = c.real('beta1'), c.real('beta2')
    if name == 'Adam':
        return c.struct(name, beta1=b1, beta1_prod=power(c, b1, t), beta2=b2, beta2_prod=power(c, b2, t), learning_rate=c.real('lr'), **arrs)
    # invariant of AdaMax: the infinity norm is not negative (beta2 is in [0, 1])
    u = arrs['exp_inf']
    c.pre(b2 >= 0)
    D = u.get(IntVal(0)).decl()
    c.schema.append(lambda ts: [t >= 0 for t in ts if z3.is_app(t) and t.decl().eq(D)])
    return c.struct(name, beta1=b1, beta1_prod=power(c, b1, t), beta2=b2, learning_rate=c.real('lr'), **arrs)


def view(c, arr):
    """&mut ArrayViewMut1 of a weight array with arbitrary memory layout"""
    return c.ref(MutView(c.ref(arr)))


def step_case(name, kind, scaled=True):
    def b(c):
        n = c.int('n')
        o = optimiser(c, name, n)
        a = [c.ref(o), view(c, c.arr('w', n=n)), c.ref(c.features(kind, 'phi', n))]
        return a + [c.real('e')] if scaled else a
    return b


def both_kinds(name, scaled=True):
    return {'dense': step_case(name, 'D', scaled), 'sparse': step_case(name, 'S', scaled)}


def obj(ex, st, a):
    return ex.strip(st, a)


def next_pow(st, o, prod, beta):
    """beta^(t+1) where the stored product is beta^t"""
    p, b = fld(o, prod), fld(o, beta)
    if z3.is_app(p) and p.decl().eq(POWI) and p.arg(0).eq(b):
        return POWI(b, p.arg(1) + 1)
    return p * b


def law(name):
    """the documented update rule: (o, act, n, stored, w, e) -> (new fields, new weight at k)"""
    def sgd(o, v, w, e):
        a = o.fields[0]
        return {}, lambda k: w.get(k) + a * e * act(v, k)

    def isgd(o, v, w, e):
        a = o.fields[0]
        nrm = total(v, lambda q, x: x * x)
        return {}, lambda k: w.get(k) + div(a, 1 + a * nrm) * e * act(v, k)

    def mom(o, v, w, e, nag=False):
        m, a, vel = fld(o, 'momentum'), fld(o, 'learning_rate'), fld(o, 'velocity')
        nv = lambda k: m * vel.get(k) + e * act(v, k)
        if nag:
            return {'velocity': nv}, lambda k: w.get(k) + a * (m * nv(k) + e * act(v, k))
        return {'velocity': nv}, lambda k: w.get(k) + a * nv(k)

    def adagrad(o, v, w, e):
        a, acc = fld(o, 'learning_rate'), fld(o, 'accumulator')
        g = lambda k: e * act(v, k)
        na = lambda k: acc.get(k) + g(k) * g(k)
        return {'accumulator': na}, lambda k: w.get(k) + div(a * g(k), SQRT(som(na(k))) + EPS)

    def adam(o, v, w, e):
        a, b1, b2 = fld(o, 'learning_rate'), fld(o, 'beta1'), fld(o, 'beta2')
        m, s = fld(o, 'exp_avg'), fld(o, 'exp_avg_sq')
        p1, p2 = next_pow(None, o, 'beta1_prod', 'beta1'), next_pow(None, o, 'beta2_prod', 'beta2')
        g = lambda k: e * act(v, k)
        nm = lambda k: b1 * m.get(k) + (1 - b1) * g(k)
        ns = lambda k: b2 * s.get(k) + (1 - b2) * g(k) * g(k)
        moved = lambda k: w.get(k) + a * div(div(nm(k), 1 - p1), SQRT(som(div(ns(k), 1 - p2))) + EPS)
        nw = moved if v.variant == 'Dense' else (lambda k: ite(acts(v).dom(k), moved(k), w.get(k)))
        return {'exp_avg': nm, 'exp_avg_sq': ns, 'beta1_prod': p1, 'beta2_prod': p2}, nw

    def adamax(o, v, w, e):
        a, b1, b2 = fld(o, 'learning_rate'), fld(o, 'beta1'), fld(o, 'beta2')
        m, u = fld(o, 'exp_avg'), fld(o, 'exp_inf')
        p1 = next_pow(None, o, 'beta1_prod', 'beta1')
        g = lambda k: e * act(v, k)
        nm = lambda k: b1 * m.get(k) + (1 - b1) * g(k)
        nu = lambda k: fmax(b2 * u.get(k), absr(g(k)))
        moved = lambda k: w.get(k) + a * div(div(nm(k), 1 - p1), nu(k) + EPS)
        nw = moved if v.variant == 'Dense' else (lambda k: ite(acts(v).dom(k), moved(k), w.get(k)))
        return {'exp_avg': nm, 'exp_inf': nu, 'beta1_prod': p1}, nw
    return {'SGD': sgd, 'ISGD': isgd, 'SGDMomentum': mom, 'NAG': lambda *a: mom(*a, nag=True),
            'Adagrad': adagrad, 'Adam': adam, 'AdaMax': adamax}[name]


def step_spec(name, scaled=True):
    def sp(ex, st, args):
        o, w = obj(ex, st, args[0]), obj(ex, st, args[1])
        e = args[3] if scaled else ONE
        ol, wl = ext.loc(ex, st, args[0]), ext.loc(ex, st, args[1])

        def f(s, v):
            flds, nw = law(name)(o, v, w, e)
            new = {}
            for k, x in flds.items():
                new[k] = Arr(fld(o, k).n, x, fld(o, k).std, 'nd1') if callable(x) else x
            no = setf(o, **new) if new else o
            s = s.fork()
            ex.write(s, ol, no)
            ex.write(s, wl, Arr(w.n, nw, w.std, w.kind))
            return s, ok(UNIT)
        return split(ex, st, args[2], f, f)
    return sp


def dims(ex, st, args):
    w = obj(ex, st, args[1])
    v = obj(ex, st, args[2])
    o = obj(ex, st, args[0])
    out = []
    for g, a in alts(v):
        a = Adt(a.name, a.variant, [ex.strip(st, x) for x in a.fields], a.names)
        out.append(Implies(g, fdim(a) == w.n))
    if isinstance(o, Adt) and o.name in STATE:
        out += [fld(o, a).n == w.n for a in STATE[o.name]]
    return [('one weight (and state entry) per feature', conj(*out))]


def state_facts(name):
    """representation invariants of the optimiser's state (established by the constructor,
    preserved by every step: see the '... preserves its invariant' obligations)"""
    return []


def invariant(name, of):
    """the state stays contiguous, and AdaMax's norm stays non-negative"""
    def post(ex, r, args):
        o = of(r, args)
        out = []
        for a in STATE.get(name, []):
            x = fld(o, a)
            out.append(('%s preserves its invariant: %s is contiguous' % (name, a), (), x.std))
            if a == 'exp_inf':
                i = fresh('i', I)
                out.append(('%s preserves its invariant: %s is not negative' % (name, a), (rng(i, x.n),), x.get(i) >= 0))
        return out
    return post


class OptPre:
    def __init__(self, name):
        self.name = name

    def __call__(self, ex, st, args):
        return dims(ex, st, args)


for nm in PROP:
    contract((nm, 'Optimiser', 'step_scaled', ''), [PROP[nm], 'C26'], both_kinds(nm), OptPre(nm), post=invariant(nm, lambda r, a: a[0]))(step_spec(nm))
    # its own unscaled step, or the provided one
    contract((nm, 'Optimiser', 'step', ''), [PROP[nm], 'C26'], both_kinds(nm, False), OptPre(nm), post=invariant(nm, lambda r, a: a[0]))(step_spec(nm, False))


# the default unscaled step, for the optimisers that do not override it
def default_step(ex, st, args):
    return step_spec(obj(ex, st, args[0]).name, False)(ex, st, args)


contract((None, 'Optimiser', 'step', ''), ['C26'],
         {nm + '-' + k: step_case(nm, 'D' if k == 'dense' else 'S', False) for nm in STATE for k in ('dense', 'sparse')},
         dims, usable=lambda ex, st, a: isinstance(obj(ex, st, a[0]), Adt))(default_step)


# ---------------------------------------------------------------- C26 construction and reset
def fresh_state(ex, name, n, hyper):
    d = dict(hyper)
    for a in STATE[name]:
        d[a] = Arr(n, lambda k: Z, TRUE, 'nd1')
    for p in ('beta1_prod', 'beta2_prod'):
        if p in sym.layout(ex.mod, name):
            d[p] = ONE
    return sym.struct(ex.mod, name, d)


NEW = {'SGDMomentum': ['momentum', 'learning_rate'], 'NAG': ['momentum', 'learning_rate'], 'Adagrad': ['learning_rate'],
       'Adam': ['learning_rate', 'beta1', 'beta2'], 'AdaMax': ['learning_rate', 'beta1', 'beta2']}


def new_spec(name):
    def sp(ex, st, args):
        return st, fresh_state(ex, name, args[0], dict(zip(NEW[name], args[1:])))
    return sp


def reset_spec(name):
    def sp(ex, st, args):
        o = obj(ex, st, args[0])
        l = ext.loc(ex, st, args[0])
        s = st.fork()
        ex.write(s, l, fresh_state(ex, name, fld(o, STATE[name][0]).n, {h: fld(o, h) for h in NEW[name]}))
        return s, UNIT
    return sp


for nm in STATE:
    contract((nm, None, 'new', ''), [PROP[nm], 'C26'], {'any': lambda c, nm=nm: [c.int('n')] + [c.real(h) for h in NEW[nm]]}, post=invariant(nm, lambda r, a: r))(new_spec(nm))
    contract((nm, 'Optimiser', 'reset', ''), ['C26'], {'any': lambda c, nm=nm: [c.ref(optimiser(c, nm, c.int('n')))]}, post=invariant(nm, lambda r, a: a[0]))(reset_spec(nm))


for nm in ('SGD', 'ISGD'):
    contract((nm, 'Optimiser', 'reset', ''), ['C26'], {'any': lambda c, nm=nm: [c.ref(optimiser(c, nm, c.int('n')))]})(lambda ex, st, a: (st, UNIT))


@contract((None, 'Optimiser', 'reset', ''), ['C26'], {nm: (lambda c, nm=nm: [c.ref(optimiser(c, nm, c.int('n')))]) for nm in ('SGD', 'ISGD')},
          usable=lambda ex, st, a: isinstance(obj(ex, st, a[0]), Adt) and obj(ex, st, a[0]).name in ('SGD', 'ISGD'))
def _(ex, st, args):
    return st, UNIT
