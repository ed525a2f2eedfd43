"""Contracts of src/lib.rs: linear function approximators."""
from contract import *
from c_features import split, F
from c_basis import inp, DS2, under
import roles
from roles import basis, accepts, projection, failure, opt_step, uf
import ext


def lfa(c, k, vector=False, n=None):
    """an approximator with one weight (row) per feature of its basis"""
    b = basis(c, 'b', k, n)
    w = c.mat('w', nr=b.aux['n']) if vector else c.arr('w', n=b.aux['n'])
    return c.struct('LFA', basis=b, weights=w, optimiser=roles.optimiser(c))


def cases(*rest, vector=False):
    return {nm: (lambda c, k=k: [c.ref(lfa(c, k, vector)), inp(c)] + [r(c) for r in rest]) for nm, k in DS2.items()}


def parts(ex, st, a):
    o = ex.strip(st, a[0])
    return o, ex.strip(st, fld(o, 'basis')), ex.strip(st, fld(o, 'weights')), ex.strip(st, fld(o, 'optimiser'))


def dot(v, get):
    return total(v, lambda q, x: x * get(q))


def project_or(ex, st, a, good):
    """what happens after projecting the input: good(projection) or the basis' error, nothing changed"""
    o, b, w, opt_ = parts(ex, st, a)
    g = accepts(ex, st, b, a[1])
    return g, projection(ex, st, b, a[1]), err(failure(ex, st, b, a[1]))


def eval_result(ex, st, a, value):
    g, v, e = project_or(ex, st, a, None)
    return mkalt('Result', [(g, ok(value(v))), (Not(g), e)])


def LF(ex, b, w, o):
    return sym.struct(ex.mod, 'LFA', dict(basis=b, weights=w, optimiser=o))


# ---------------------------------------------------------------- construction
contract(('LFA', None, 'new', ''), ['C27'], {'any': lambda c: [basis(c, 'b', 'D'), c.arr('w'), roles.optimiser(c)]})(
    lambda ex, st, a: (st, LF(ex, a[0], a[1], a[2])))


@contract(('ScalarLFA', None, 'scalar', ''), ['C27'], {'any': lambda c: [basis(c, 'b', 'D'), roles.optimiser(c)]})
def _(ex, st, a):
    n = ex.strip(st, a[0]).aux['n']
    return st, LF(ex, a[0], Arr(n, lambda k: RealVal(0), TRUE, 'nd1'), a[1])


@contract(('VectorLFA', None, 'vector', ''), ['C27'], {'any': lambda c: [basis(c, 'b', 'D'), roles.optimiser(c), c.int('m')]})
def _(ex, st, a):
    n = ex.strip(st, a[0]).aux['n']
    return st, LF(ex, a[0], Mat(n, a[2], lambda i, j: RealVal(0)), a[1])


@contract(('VectorLFA', None, 'n_outputs', ''), ['C27'], {'any': lambda c: [c.ref(lfa(c, 'D', True))]})
def _(ex, st, a):
    return st, parts(ex, st, a)[2].nc


# ---------------------------------------------------------------- evaluation
@contract(('ScalarLFA', None, 'evaluate', ''), ['C27'], cases(), export=False)
def _(ex, st, a):
    w = parts(ex, st, a)[2]
    return st, eval_result(ex, st, a, lambda v: dot(v, w.get))


@contract(('VectorLFA', None, 'evaluate', ''), ['C27'], cases(vector=True), export=False)
def _(ex, st, a):
    w = parts(ex, st, a)[2]
    return st, eval_result(ex, st, a, lambda v: Arr(w.nc, lambda j: dot(v, lambda q: w.get(q, j)), TRUE, 'nd1'))


def index_ok(ex, st, a):
    w = parts(ex, st, a)[2]
    b = parts(ex, st, a)[1]
    return [('the output exists', Implies(accepts(ex, st, b, a[1]), And(a[2] >= 0, a[2] < w.nc)))]


@contract(('VectorLFA', None, 'evaluate_index', ''), ['C27'], cases(lambda c: c.int('j'), vector=True), index_ok, export=False)
def _(ex, st, a):
    w = parts(ex, st, a)[2]
    return st, eval_result(ex, st, a, lambda v: dot(v, lambda q: w.get(q, a[2])))


# ---------------------------------------------------------------- scalar updates
def one_step(ex, st, a, wref, opt_, w, v, e):
    """one optimiser step on w: -> state, Result"""
    o2, w2, okk, fail = opt_step(ex, st, opt_, w, v, e)
    return o2, w2, mkalt('Result', [(okk, ok(UNIT)), (Not(okk), err(fail))])


def updated(ex, st, a, how):
    """state and result of an update: how(v) -> (new optimiser, new weights, result) on success of the projection"""
    o, b, w, opt_ = parts(ex, st, a)
    g = accepts(ex, st, b, a[1])
    v = projection(ex, st, b, a[1])
    o2, w2, r = how(v, w, opt_)
    st = st.fork()
    new = setf(o, optimiser=Opq(ite(g, o2.term, opt_.term), opt_.role, opt_.aux), weights=merge(g, w2, w))
    ex.write(st, ext.loc(ex, st, a[0]), new)
    return st, mkalt('Result', [(And(g, h), x) for h, x in alts(r)] + [(Not(g), err(failure(ex, st, b, a[1])))])


def merge(g, x, y):
    if isinstance(x, Mat):
        return Mat(y.nr, y.nc, lambda i, j: ite(g, x.get(i, j), y.get(i, j)), y.std)
    return Arr(y.n, lambda i: ite(g, x.get(i), y.get(i)), y.std, y.kind)


@contract(('ScalarLFA', None, 'update', ''), ['C28'], cases(lambda c: c.real('e')), export=False)
def _(ex, st, a):
    return updated(ex, st, a, lambda v, w, o: one_step(ex, st, a, None, o, w, v, a[2]))


def user_error(c):
    """the user's error computation: an arbitrary function of the features and the prediction"""
    def ap_(ex, st, args):
        return st, user_err(ex, st, args)
    return OpaqueFn('error_of', ap_)


def user_err(ex, st, args):
    return uf('error_of', [t for x in args for t in ident(ex, st, x)], R)


@contract(('ScalarLFA', None, 'update_with', ''), ['C28'], cases(user_error), export=False)
def _(ex, st, a):
    return updated(ex, st, a, lambda v, w, o: one_step(ex, st, a, None, o, w, v, user_err(ex, st, [v, dot(v, w.get)])))


# ---------------------------------------------------------------- vector updates
@contract(('VectorLFA', None, 'update_index', ''), ['C29'], cases(lambda c: c.int('j'), lambda c: c.real('e'), vector=True), index_ok, export=False)
def _(ex, st, a):
    j = a[2]

    def how(v, w, o):
        col = Arr(w.nr, lambda i: w.get(i, j), FALSE, 'nd1')
        o2, c2, r = one_step(ex, st, a, None, o, col, v, a[3])
        return o2, Mat(w.nr, w.nc, lambda i, k: ite(k == j, c2.get(i), w.get(i, k)), w.std), r
    return updated(ex, st, a, how)


def all_columns(ex, st, v, w, o, errs):
    """one step per output, in order, on column j with the j-th error; the first failure is reported"""
    n = z3.simplify(If(errs.n <= w.nc, errs.n, w.nc))
    p, s = fresh('p', I), fresh('s', OP)
    step = lambda j, t: opt_step(ex, st, Opq(t, o.role, o.aux), Arr(w.nr, lambda i: w.get(i, j), FALSE, 'nd1'), v, errs.get(j))
    before = lambda j: bfold(0, j, p, [s], [step(p, s)[0].term], [o.term], TRUE)
    w2 = Mat(w.nr, w.nc, lambda i, j: ite(j < n, step(j, before(j))[1].get(i), w.get(i, j)), w.std)
    q = fresh('q', I)
    failed = lambda q: And(q >= 0, q < n, Not(step(q, before(q))[2]))
    f = bfirst(q, failed(q))
    some_failed = bany(q, failed(q))
    return Opq(before(n), o.role, o.aux), w2, mkalt('Result', [(Not(some_failed), ok(UNIT)), (some_failed, err(step(f, before(f))[3]))])


@contract(('VectorLFA', None, 'update', ''), ['C29'], cases(lambda c: c.arr('e', kind='vec'), vector=True), export=False)
def _(ex, st, a):
    return updated(ex, st, a, lambda v, w, o: all_columns(ex, st, v, w, o, ex.strip(st, a[2])))


def user_errors(c):
    """the user's computation of all errors: an array that is an arbitrary function of the features and the predictions"""
    def ap_(ex, st, args):
        r = user_errs(ex, st, args)
        return st.fact(r.n >= 0), r
    return OpaqueFn('errors_of', ap_)


def user_errs(ex, st, args):
    ts = [t for x in args for t in ident(ex, st, x)]
    return Arr(uf('n_errors_of', ts, I), lambda k: uf('errors_of', ts + [k], R), uf('errors_std', ts, B), 'nd1')


@contract(('VectorLFA', None, 'update_with', ''), ['C29'], cases(user_errors, vector=True), export=False)
def _(ex, st, a):
    def how(v, w, o):
        pred = Arr(w.nc, lambda j: dot(v, lambda q: w.get(q, j)), TRUE, 'nd1')
        return all_columns(ex, st, v, w, o, user_errs(ex, st, [v, pred]))
    return updated(ex, st, a, how)


# ---------------------------------------------------------------- output iterators
def outputs(ex, v, w):
    """the iterator over the outputs that have not been produced yet"""
    lanes = Iter(True, w.nc, None, lambda e, s, p: (s, ValRef(w.col(p))))
    return sym.struct(ex.mod, 'OutputIter', dict(basis=v, lanes=lanes))


@contract(('VectorLFA', None, 'try_iter', ''), ['C27'], cases(vector=True), export=False)
def _(ex, st, a):
    w = parts(ex, st, a)[2]
    return st, eval_result(ex, st, a, lambda v: outputs(ex, v, w))


def accepted(ex, st, a):
    return [('the basis accepts the input', accepts(ex, st, parts(ex, st, a)[1], a[1]))]


@contract(('VectorLFA', None, 'iter', ''), ['C27'], cases(vector=True), accepted, export=False)
def _(ex, st, a):
    o, b, w, _ = parts(ex, st, a)
    return st, outputs(ex, projection(ex, st, b, a[1]), w)


def halfway(c, k):
    """an output iterator after any number of steps"""
    n, m, taken = c.int('n'), c.int('m'), c.int('taken')
    c.pre(taken <= m)
    o = outputs(c.ex, c.features(k, 'phi', n), c.mat('w', n, m))
    return setf(o, lanes=fld(o, 'lanes').repl(start=taken))


OUT = {nm: (lambda c, k=k: [c.ref(halfway(c, k))]) for nm, k in DS2.items()}


@contract(('OutputIter', 'Iterator', 'next', ''), ['C27'], OUT, export=False)
def _(ex, st, a):
    o = ex.strip(st, a[0])
    it, v = fld(o, 'lanes'), ex.strip(st, fld(o, 'basis'))
    st = st.fork()
    more = it.start < it.n
    s2, col = it.elem(ex, st, it.start)
    ex.write(st, ext.loc(ex, st, a[0]), setf(o, lanes=it.repl(start=z3.simplify(it.start + 1))))
    x = dot(v, lambda q: ex.strip(st, col).get(q))
    return st, mkalt('Option', [(more, some(x)), (Not(more), none())])


@contract(('OutputIter', 'Iterator', 'size_hint', ''), ['C27'], OUT, export=False)
def _(ex, st, a):
    it = fld(ex.strip(st, a[0]), 'lanes')
    return st, Tup([it.n - it.start, some(it.n - it.start)])


@contract(('OutputIter', 'ExactSizeIterator', 'len', ''), ['C27'], OUT, export=False)
def _(ex, st, a):
    it = fld(ex.strip(st, a[0]), 'lanes')
    return st, it.n - it.start
