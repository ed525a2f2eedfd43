"""Contracts and their verification, function by function."""
import time
import traceback
import z3
from terms import *
from values import *
import exec as E
import ext
import ext2  # noqa: F401
import sym
import prove
from sym import *

ALL = []          # contracts in order of definition
BY_KEY = {}


class Contract:
    """specification of one function of /repo.
    cases: name -> build(ctx) -> argument list (symbolic inputs of every shape)
    pre(ex, st, args) -> [(name, condition)]   documented requirements of the caller
    spec(ex, st, args) -> (st, value)          the postcondition, as the state and value required
    """
    usable_ = None
    relate = None       # relational contracts (c_relate.py) compare two functions instead

    def __init__(self, key, props, cases, spec, pre=None, usable=None, must_panic=False, watch=(), inline=(), title=None, export=True, post=None, optional=False):
        self.optional = optional    # a method that the type may override
        self.key, self.props, self.cases, self.spec = key, props, cases, spec
        self._pre, self._usable = pre, usable
        self.must_panic, self.watch, self.inline = must_panic, watch, set(inline)
        self.name = title or key_name(key)
        self.export = export
        self.post = post
        self.module = next(iter(cases.values())).__module__

    def pre(self, ex, st, args):
        return self._pre(ex, st, args) if self._pre else []

    def usable(self, ex, st, args):
        if not self.export:
            return False
        try:
            return self._usable is None or bool(self._usable(ex, st, args))
        except Unsupported:
            return False


def key_name(k):
    s, t, m, g = k
    n = m
    if s and t:
        n = '<%s as %s%s>::%s' % (s, t, '<%s>' % g if g else '', m)
    elif s:
        n = '%s%s::%s' % (s, '<%s>' % g if g else '', m)
    elif t:
        n = '%s::%s' % (t, m)
    return n


def contract(key, props, cases, pre=None, usable=None, **kw):
    def d(f):
        c = Contract(key, props, cases, f, pre, usable, **kw)
        ALL.append(c)
        if c.export:
            BY_KEY.setdefault(key, c)
        return f
    return d


class Lemma:
    """consequence of the contracts: build(ctx) -> [(name, hypotheses, goal)]"""
    def __init__(self, name, props, build):
        self.name, self.props, self.build = name, props, build
        self.key = ('lemma', name)


LEMMAS = []


def lemma(name, props, build):
    LEMMAS.append(Lemma(name, props, build))


def verify_lemma(mod, l, timeout=4000, verbose=False):
    res = Result(l)
    t0 = time.time()
    q0, s0 = prove.STATS['queries'], prove.STATS['time']
    try:
        ctx = Ctx(E.Ex(mod, {}))
        goals = l.build(ctx)
        pv = prove.Prover(ctx.schema, timeout)
        for nm, h, g in goals:
            hy = ctx.st.hyp() + list(h)
            if pv.check(hy, FALSE, 2000) == z3.unsat:
                raise Unsupported('lemma %s is vacuous' % nm)
            r = pv.prove(hy, g)
            if verbose and r != 'proved':
                print('   %s %s' % (r, nm), str(z3.simplify(g))[:500])
            res.obls.append(dict(case='lemma', name=nm, kind='lemma', status=r, where=l.name))
    except Unsupported as e:
        res.error = str(e)
    res.time = time.time() - t0
    res.queries = prove.STATS['queries'] - q0
    res.solver = prove.STATS['time'] - s0
    return res


# ------------------------------------------------------------------ verification
class Result:
    """outcome of verifying one contract"""
    def __init__(self, c):
        self.contract = c
        self.obls = []        # dicts: case, name, kind, status, where
        self.error = None     # why the function could not be verified at all
        self.used, self.inlined, self.trusted, self.assumptions = set(), set(), set(), set()
        self.time = 0.0
        self.queries = 0
        self.solver = 0.0

    def status(self, kinds=None):
        """'proved', 'refuted', 'unknown' or 'unsupported' (for the obligations of the given kinds)"""
        if self.error:
            return 'unsupported'
        st = 'proved'
        for o in self.obls:
            if kinds and o['kind'] not in kinds:
                continue
            if o['status'] == 'refuted':
                return 'refuted'
            if o['status'] != 'proved':
                st = 'unknown' if st in ('proved', 'unknown') else st
        return st


def freeze(ex, st, v):
    """deep copy of a result without references into the state"""
    if isinstance(v, (Ref, ValRef, MutView)):
        return freeze(ex, st, ex.strip(st, v))
    if isinstance(v, sym.NumFn):
        return v
    if isinstance(v, BoxV):
        return BoxV(freeze(ex, st, v.v))
    if isinstance(v, Tup):
        return Tup([freeze(ex, st, x) for x in v.items])
    if isinstance(v, Adt):
        return Adt(v.name, v.variant, [freeze(ex, st, x) for x in v.fields], v.names)
    if isinstance(v, Alt):
        return Alt(v.name, [(g, freeze(ex, st, x)) for g, x in v.alts])
    if isinstance(v, Arr):
        return Arr(v.n, lambda i, v=v: freeze(ex, st, v.get(i)), v.std, v.kind)
    return v


def find_fn(mod, key):
    fs = [f for f in mod.fns.values() if '{closure' not in f.name and 'promoted' not in f.name and not getattr(f, 'const', False)] if isinstance(mod.fns, dict) else mod.fns
    out = []
    for f in fs:
        try:
            if E.fn_key(f) == key:
                out.append(f)
        except Exception:
            pass
    uniq = {id(f): f for f in out}
    return list(uniq.values())


_index = {}


def fn_for(mod, key):
    if id(mod) not in _index:
        d = {}
        for f in (mod.fns.values() if isinstance(mod.fns, dict) else mod.fns):
            if '{closure' in f.name or 'promoted' in f.name:
                continue
            try:
                d.setdefault(E.fn_key(f), []).append(f)
            except Exception:
                pass
        _index[id(mod)] = d
    l = _index[id(mod)].get(key, [])
    if not l and key[1] in ('Optimiser',):
        # the type uses the provided method
        l = _index[id(mod)].get((None, key[1], key[2], ''), [])
    if len(l) != 1:
        raise Unsupported('%d functions match %s' % (len(l), key_name(key)))
    return l[0]


def absent(mod, c):
    """an override that the current tree does not contain"""
    if not c.optional:
        return False
    try:
        fn_for(mod, c.key)
    except Unsupported as e:
        return str(e).startswith('0 ')
    return False


def verify(mod, c, registry, timeout=4000, only_case=None, verbose=False):
    res = Result(c)
    t0 = time.time()
    q0, s0 = prove.STATS['queries'], prove.STATS['time']
    sym.TOUCHED.clear()
    try:
        f = fn_for(mod, c.key)
        for cname, build in c.cases.items():
            if only_case and cname != only_case:
                continue
            verify_case(mod, c, f, cname, build, registry, res, timeout, verbose)
    except E.Diverges as e:
        res.obls.append(dict(case='', name='%s returns' % c.name, kind='panic', status='unknown', where=str(e)))
    except Unsupported as e:
        res.error = str(e) or type(e).__name__
    except RecursionError:
        res.error = 'recursion limit of the verifier'
    except z3.Z3Exception as e:
        res.error = 'z3: %s' % e
    except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError, NotImplementedError) as e:
        res.error = 'internal: %s: %s' % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
    if sym.TOUCHED and not res.error and res.status() != 'proved':
        res.error = 'fields of %s changed' % ', '.join(sorted(sym.TOUCHED))
    res.time = time.time() - t0
    res.queries = prove.STATS['queries'] - q0
    res.solver = prove.STATS['time'] - s0
    return res


def verify_case(mod, c, f, cname, build, registry, res, timeout, verbose):
    ex = E.Ex(mod, {k: v for k, v in registry.items() if k not in c.inline})
    ex.verifying = registry.get(c.key)
    ctx = Ctx(ex)
    args = build(ctx)
    st0 = ctx.st
    for nm, g in c.pre(ex, st0, args):
        st0 = st0.assume(g)
    roots = [(('argument %d' % k), a) for k, a in enumerate(args) if isinstance(a, (Ref, MutView))]
    ex.watch = [r for k, r in enumerate(roots)]
    pv = prove.Prover(ctx.schema, timeout)
    div = False
    try:
        st1, r1 = ex.run_fn(f, args, st0.fork())
    except E.Diverges:
        div = True
    obls = [(o.name, o.hyp, o.goal, o.kind, o.where) for o in ex.obls]
    if c.must_panic:
        # every panic is welcome here; the function must not return
        res.obls.append(dict(case=cname, name='%s rejects the input' % c.name, kind='post',
                             status='proved' if div else 'refuted', where=f.name))
        merge_use(res, ex)
        return
    if not div:
        if c.relate:
            hyp, goals = c.relate(ex, st0, st1, r1, args, freeze)
            obls = [(o.name, o.hyp, o.goal, o.kind, o.where) for o in ex.obls]
        ex.mute += 1
    if not div and not c.relate:
        st2, r2 = c.spec(ex, st0.fork(), list(args))
        hyp = st1.hyp() + [h for h in st2.hyp() if not any(h is x for x in st1.hyp())]
        v1, v2 = freeze(ex, st1, r1), freeze(ex, st2, r2)
        goals = sym.equal(ex, st1, v1, v2, 'result')
        for nm, r in roots:
            w1, w2 = freeze(ex, st1, r), freeze(ex, st2, r)
            goals += sym.equal(ex, st1, w1, w2, nm + ' afterwards')
        if c.post:
            goals += c.post(ex, v1, [freeze(ex, st1, a) for a in args])
    if not div:
        for nm, h, g in goals:
            obls.append((nm, hyp + list(h), g, 'post', f.name))
        obls.append(('the contract is not vacuous', hyp, FALSE, 'vacuity', f.name))
        # facts generated while reading the results
    elif not any(k in ('panic', 'pre') for _, _, _, k, _ in obls):
        res.obls.append(dict(case=cname, name='%s returns' % c.name, kind='panic', status='unknown', where=f.name))
    real_arithmetic(res, [x for nm, h, g, kind, where in obls if kind != 'vacuity' for x in list(h) + [g]])
    seen = set()
    for nm, h, g, kind, where in obls:
        k = (nm, g.get_id(), tuple(x.get_id() for x in h), kind)
        if k in seen:
            continue
        seen.add(k)
        if kind == 'vacuity':
            r = pv.check(h, FALSE, 3000)
            if r == z3.unsat:
                raise Unsupported('contract of %s (%s) is vacuous' % (c.name, cname))
            continue
        r = pv.prove(h, g)
        if verbose and r != 'proved':
            print('   %s [%s] %s (%s): %s' % (r, cname, nm, kind, where))
            print('      goal:', str(z3.simplify(g))[:600])
            for x in h:
                print('      hyp :', str(x)[:300])
            if r == 'refuted' and pv.model is not None:
                print('      model:', str(pv.model)[:800])
        res.obls.append(dict(case=cname, name=nm, kind=kind, status=r, where=where))
    merge_use(res, ex)


ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER}
ORDER = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}     # (== of results is identity here; == in the code is noted where it is executed)


def real_arithmetic(res, terms):
    """notes in the evidence that the argument treats floats as reals, where it does"""
    work, seen = list(terms), set()
    while work:
        t = work.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        k = t.decl().kind()
        if k in ARITH and t.sort() == R or z3.is_app(t) and t.decl() in (INVF, SQRT, EXP, COS, LN, POWF, POWI):
            res.assumptions.add(E.EXACT)
        elif k in ORDER and t.num_args() and t.arg(0).sort() == R:
            res.assumptions.add(E.TOTAL)
        work += t.children()
        if is_big(t):
            d = bigdef(t)
            work += [x for x in [d.guard] + list(d.body if isinstance(d.body, tuple) else [d.body]) if z3.is_expr(x)]
            if d.op in ('sum', 'prod') and t.sort() == R:
                res.assumptions.add(E.EXACT)


def merge_use(res, ex):
    res.used |= set(ex.used_contracts)
    res.inlined |= set(ex.inlined)
    res.trusted |= set(ex.trusted)
    res.assumptions |= set(ex.assumptions)
