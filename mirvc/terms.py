"""Scalar terms (Z3), uninterpreted real functions, big operators.

A big operator (sum, product, max, exists, first witness, lambda, fold) over
an index is represented by an application of an uninterpreted symbol to the
free constants of its body; the symbol is hash-consed on the canonical body,
so two syntactically equal bodies give the same symbol, and other equalities
are proved pointwise (see prove.py).
"""
import itertools
import z3
from z3 import And, Or, Not, If, IntVal, RealVal, BoolVal, Implies, is_true, is_false

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
OP = z3.DeclareSort('Opaque')

_cnt = itertools.count()
TRUE, FALSE = BoolVal(True), BoolVal(False)


class Unsupported(Exception):
    pass


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_cnt)), sort)


def fresh_fun(name, *sorts):
    return z3.Function('%s!%d' % (name, next(_cnt)), *sorts)


SQRT = z3.Function('sqrt', R, R)
EXP = z3.Function('exp', R, R)
COS = z3.Function('cos', R, R)
SIN = z3.Function('sin', R, R)
LN = z3.Function('ln', R, R)
LN1P = z3.Function('ln_1p', R, R)
INVF = z3.Function('inv', R, R)
POWI = z3.Function('powi', R, I, R)
POWF = z3.Function('powf', R, R, R)
FMAX = z3.Function('fmax', R, R, R)
FMIN = z3.Function('fmin', R, R, R)
FLOOR = z3.Function('floor', R, R)
NINF = z3.Const('NEG_INF', R)
PINF = z3.Const('POS_INF', R)
PI = z3.Const('PI', R)
ISNAN = z3.Function('is_nan', R, B)


def is_expr(x):
    return isinstance(x, z3.ExprRef)


def simp(e):
    return z3.simplify(e)


def som(e):
    return z3.simplify(e, som=True, sort_sums=True, local_ctx=False, hoist_mul=False)


def eq_id(a, b):
    return a is b or (is_expr(a) and is_expr(b) and a.eq(b))


def conj(*cs):
    out = []
    for c in cs:
        if c is True or (is_expr(c) and is_true(c)):
            continue
        if c is False or (is_expr(c) and is_false(c)):
            return FALSE
        out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else And(*out)


def disj(*cs):
    out = []
    for c in cs:
        if c is False or (is_expr(c) and is_false(c)):
            continue
        if c is True or (is_expr(c) and is_true(c)):
            return TRUE
        out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Or(*out)


def neg(c):
    if is_true(c):
        return FALSE
    if is_false(c):
        return TRUE
    if z3.is_not(c):
        return c.arg(0)
    return Not(c)


def ite(c, a, b):
    if is_true(c) or a is b or a.eq(b):
        return a
    if is_false(c):
        return b
    return If(c, a, b)


def to_real(e):
    return e if e.sort() == R else (z3.ToReal(e))


def inv(b):
    if z3.is_mul(b):
        # one factor at a time: how a product of sums is multiplied out must not matter
        out = None
        for c in b.children():
            t = inv(c)
            out = t if out is None else out * t
        return out
    b = z3.simplify(b, som=True)
    return _inv(b)


def _inv(b):
    if z3.is_rational_value(b):
        if b.numerator_as_long() == 0:
            return INVF(b)
        n, d = b.numerator_as_long(), b.denominator_as_long()
        return RealVal('%d/%d' % (d if n > 0 else -d, abs(n)))  # z3 drops the sign of a denominator
    if z3.is_mul(b):
        out = None
        for c in b.children():
            t = _inv(c)
            out = t if out is None else out * t
        return out
    if z3.is_app(b) and b.decl().eq(INVF):
        return b.arg(0)
    if z3.is_app_of(b, z3.Z3_OP_ITE):
        return If(b.arg(0), _inv(b.arg(1)), _inv(b.arg(2)))
    if z3.is_app_of(b, z3.Z3_OP_POWER) and z3.is_rational_value(b.arg(1)):
        return INVF(b.arg(0)) ** b.arg(1)
    if z3.is_add(b):
        # normalise the sign and scale of the leading coefficient
        c0 = lead(b.arg(0))
        if c0 is not None and c0 != 1:
            t = z3.simplify(b * RealVal(1) / RealVal(str(c0)), som=True)
            return INVF(t) * RealVal(1) / RealVal(str(c0))
    return INVF(b)


def lead(m):
    if z3.is_rational_value(m):
        return None
    if z3.is_mul(m) and z3.is_rational_value(m.arg(0)):
        from fractions import Fraction
        a = m.arg(0)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return 1


def div(a, b):
    return a * inv(b)


def powi(x, n):
    n = z3.simplify(n)
    if z3.is_int_value(n):
        k = n.as_long()
        if 0 <= k <= 16:
            if k == 0:
                return RealVal(1)
            return z3.Product(*[x] * k) if k > 1 else x
        if -16 <= k < 0:
            return inv(powi(x, IntVal(-k)))
    return POWI(x, n)


def absr(x):
    return If(x >= 0, x, -x)


def fmax(a, b):
    for x, y in ((a, b), (b, a)):
        if x.eq(NINF):
            return y
    return FMAX(a, b)


# ------------------------------------------------------------ free symbols
_fc_cache = {}


def consts_of(e):
    """ordered list of free 0-ary uninterpreted constants of e."""
    seen, out, st = set(), [], [e]
    while st:
        t = st.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() not in GLOBAL_CONSTS:
                    out.append(t)
            else:
                st.extend(reversed(t.children()))
    return out


GLOBAL_CONSTS = {'NEG_INF', 'POS_INF', 'PI'}


def has_const(e, c):
    seen, st = set(), [e]
    cid = c.get_id()
    while st:
        t = st.pop()
        k = t.get_id()
        if k == cid:
            return True
        if k in seen:
            continue
        seen.add(k)
        st.extend(t.children())
    return False


def subterms(e, out=None):
    seen, st, res = set(), [e] if is_expr(e) else list(e), []
    while st:
        t = st.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        res.append(t)
        st.extend(t.children())
    return res


# ------------------------------------------------------------ big operators
class BigDef:
    """op over index variable(s) `vars` with body expressions, parameters `params`."""
    __slots__ = ('op', 'vars', 'params', 'guard', 'body', 'decl', 'extra', 'funs')

    def inst(self, args, *idx):
        pairs = list(zip(self.params, args)) + list(zip(self.vars, idx))
        g = z3.substitute(self.guard, *pairs) if pairs else self.guard
        if isinstance(self.body, tuple):
            b = tuple(z3.substitute(x, *pairs) if pairs else x for x in self.body)
        else:
            b = z3.substitute(self.body, *pairs) if pairs else self.body
        return g, b


BIG = {}       # decl name -> BigDef
_bigkey = {}
_canon = {}


def canon_var(kind, i, sort):
    k = (kind, i, sort.name())
    if k not in _canon:
        _canon[k] = z3.Const('$%s%d_%s' % (kind, i, sort.name()), sort)
    return _canon[k]


_depth = [0]


def bigop(op, variables, guard, body, ressort, extra=()):
    """application term for op over `variables` (fresh consts used in guard/body)."""
    guard = z3.simplify(guard)
    bodies = body if isinstance(body, tuple) else (body,)
    bodies = tuple(som(b) if b.sort() in (R, I) else z3.simplify(b) for b in bodies)
    # nesting level of canonical index variables, to avoid capture
    vids = {v.get_id() for v in variables}
    frees = []
    seen = set()
    lvl = 0
    for e in (guard,) + bodies:
        for c in consts_of(e):
            nm = c.decl().name()
            if nm.startswith('$'):
                if nm.startswith('$v'):
                    pass
            if c.get_id() in vids or c.get_id() in seen:
                continue
            seen.add(c.get_id())
            frees.append(c)
    cvars = [canon_var('v', i, v.sort()) for i, v in enumerate(variables)]
    cpar = [canon_var('a', i, c.sort()) for i, c in enumerate(frees)]
    # two-step renaming avoids capture between $-names and arguments
    tmpv = [fresh('tv', v.sort()) for v in variables]
    tmpa = [fresh('ta', c.sort()) for c in frees]
    def ren(e):
        prs = list(zip(variables, tmpv)) + list(zip(frees, tmpa))
        if prs:
            e = z3.substitute(e, *prs)
            e = z3.substitute(e, *(list(zip(tmpv, cvars)) + list(zip(tmpa, cpar))))
        return e
    g2 = ren(guard)
    b2 = tuple(ren(b) for b in bodies)
    g2 = z3.simplify(g2)
    b2 = tuple(som(b) if b.sort() in (R, I) else z3.simplify(b) for b in b2)
    key = (op, g2.sexpr(), tuple(b.sexpr() for b in b2), tuple(v.sort().name() for v in variables),
           tuple(c.sort().name() for c in frees), extra)
    if key not in _bigkey:
        d = BigDef()
        d.op, d.vars, d.params, d.guard, d.extra = op, cvars, cpar, g2, extra
        d.body = b2 if isinstance(body, tuple) else b2[0]
        nm = '%s#%d' % (op, len(_bigkey))
        xs = [] if not isinstance(extra, tuple) else []
        d.decl = z3.Function(nm, *([c.sort() for c in frees] + [ressort])) if frees else z3.Const(nm, ressort).decl()
        d.funs = None
        BIG[nm] = d
        _bigkey[key] = d
    d = _bigkey[key]
    return d.decl(*frees) if frees else d.decl()


def is_big(t):
    return z3.is_app(t) and t.decl().name() in BIG


def bigdef(t):
    return BIG[t.decl().name()]


def factors(m):
    if z3.is_mul(m):
        out = []
        for c in m.children():
            out += factors(c)
        return out
    return [m]


def prod(fs, one):
    out = None
    for f in fs:
        out = f if out is None else out * f
    return one if out is None else out


def bsum(p, guard, body):
    """sum over all integers p with guard(p) of body(p); factors free of p are pulled out."""
    guard = z3.simplify(guard)
    if is_false(guard):
        return RealVal(0) if body.sort() == R else IntVal(0)
    body = som(body)
    zero = RealVal(0) if body.sort() == R else IntVal(0)
    one = RealVal(1) if body.sort() == R else IntVal(1)
    if z3.is_app_of(body, z3.Z3_OP_TO_REAL):
        return z3.ToReal(bsum(p, guard, body.arg(0)))
    mons = body.children() if z3.is_add(body) else [body]
    total = zero
    for m in mons:
        if z3.is_rational_value(m) and m.as_fraction() == 0 or z3.is_int_value(m) and m.as_long() == 0:
            continue
        fs = factors(m)
        out = [f for f in fs if not has_const(f, p)]
        inn = [f for f in fs if has_const(f, p)]
        b = prod(inn, one)
        b, g = hoist(b, guard)
        total = total + prod(out, one) * bigop('sum', [p], g, b, b.sort())
    return total


def hoist(b, guard):
    """ite(c, x, 0) under guard -> x under guard and c."""
    if z3.is_app_of(b, z3.Z3_OP_ITE):
        c, x, y = b.children()
        if is_zero(y):
            return hoist(x, z3.simplify(And(guard, c)))
        if is_zero(x):
            return hoist(y, z3.simplify(And(guard, Not(c))))
    return b, guard


def is_zero(x):
    return (z3.is_rational_value(x) and x.as_fraction() == 0) or (z3.is_int_value(x) and x.as_long() == 0)


def bprod(p, guard, body):
    return bigop('prod', [p], guard, body, body.sort())


def bmax(p, guard, body, op='max'):
    return bigop(op, [p], guard, body, body.sort())


def bany(p, cond):
    cond = z3.simplify(cond)
    if not has_const(cond, p) and is_false(cond):
        return FALSE
    return bigop('any', [p], cond, TRUE, B)


def bwit(p, cond):
    """some index with cond (the last one, when several)"""
    return bigop('wit', [p], cond, TRUE, I)


def bfirst(p, cond):
    return bigop('first', [p], cond, TRUE, I)


def bcount(p, guard):
    return bigop('sum', [p], guard, IntVal(1), I)


def blam(p, guard, body):
    """lambda-term (identity of a sequence or partial function)"""
    return bigop('lam', [p], guard, body, OP)


def bfold(j, n, p, svars, steps, inits, guard):
    """state component j after the first n steps of S' = steps(S, p), S0 = inits."""
    assert len(svars) == len(steps) == len(inits)
    variables = [p] + list(svars)
    t = bigop('fold', variables, guard, tuple(steps), svars[j].sort(), ('comp', j, len(svars)))
    # application carries n and the initial values besides the free constants
    d = bigdef(t)
    nm = d.decl.name() + '@'
    args = list(t.children())
    sorts = [n.sort()] + [i.sort() for i in inits] + [a.sort() for a in args] + [svars[j].sort()]
    F = z3.Function(nm, *sorts)
    if nm not in BIG:
        d2 = BigDef()
        d2.op, d2.vars, d2.params, d2.guard, d2.body, d2.extra, d2.funs = 'foldn', d.vars, d.params, d.guard, d.body, d.extra, None
        d2.decl = F
        BIG[nm] = d2
    return F(n, *(list(inits) + args))


# ------------------------------------------------------------ rewriting
def rewrite(e, fmap, cmap=(), cache=None):
    """replace applications f(args) for f in fmap (name -> python function on rewritten args)
    and constants (cmap pairs), descending into the bodies of big operators."""
    if cmap:
        e = z3.substitute(e, *cmap)
    if not fmap:
        return e
    if cache is None:
        cache = {}

    def rw(t):
        k = t.get_id()
        if k in cache:
            return cache[k][1]
        if not z3.is_app(t):
            r = t
        elif t.num_args() == 0 and t.decl().name() not in BIG:
            f = fmap.get(t.decl().name())
            r = f() if f else t
        else:
            ch = [rw(c) for c in t.children()]
            nm = t.decl().name()
            f = fmap.get(nm)
            if f:
                r = f(*ch)
            elif nm in BIG and big_mentions(BIG[nm], fmap):
                r = rebuild(t, ch, fmap)
            elif all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            else:
                r = t.decl()(*ch)
        cache[k] = (t, r)
        return r
    return rw(e)


def big_mentions(d, names):
    if d.funs is None:
        fs = set()
        bodies = d.body if isinstance(d.body, tuple) else (d.body,)
        for t in subterms([d.guard] + list(bodies)):
            if z3.is_app(t):
                nm = t.decl().name()
                fs.add(nm)
                if nm in BIG:
                    fs |= {x for x in all_funs(BIG[nm])}
        d.funs = fs
    return any(n in d.funs for n in names)


def all_funs(d):
    big_mentions(d, ())
    return d.funs


def rebuild(t, ch, fmap):
    d = bigdef(t)
    fv = [fresh('rb', v.sort()) for v in d.vars]
    if d.op == 'foldn':
        m = d.extra[2]
        n, inits, args = ch[0], ch[1:1 + m], ch[1 + m:]
        g, b = d.inst(args, *fv)
        g2 = rewrite(g, fmap)
        b2 = [rewrite(x, fmap) for x in b]
        return bfold(d.extra[1], n, fv[0], fv[1:], b2, inits, g2)
    g, b = d.inst(ch, *fv)
    g2 = rewrite(g, fmap)
    if isinstance(b, tuple):
        b2 = tuple(rewrite(x, fmap) for x in b)
    else:
        b2 = rewrite(b, fmap)
    if d.op == 'sum':
        return bsum(fv[0], g2, b2)
    return bigop(d.op, fv, g2, b2, t.sort(), d.extra)
