"""Discharge of obligations with Z3 (and congruence rules for big operators)."""
import time
import z3
import poly
from terms import *
from loops import uniq

DEPTH = 5
STATS = {'queries': 0, 'time': 0.0}


class Prover:
    def __init__(self, schema=(), timeout=6000):
        self.schema = list(schema)   # functions: list of subterms -> list of axioms
        self.timeout = timeout
        self.cache = {}
        self.model = None

    # -- basic query
    def check(self, hyp, goal, timeout=None, axioms=()):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for h in hyp:
            s.add(h)
        for a in axioms:
            s.add(a)
        s.add(Not(goal))
        t = time.time()
        r = s.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        self.model = s.model() if r == z3.sat else None
        return r

    def axioms(self, es, nonlinear=False):
        out = []
        seen = set()
        work = list(es)
        for rnd in range(3):
            ts = subterms(work)
            new = []
            for sc in self.schema:
                new += sc(ts)
            ints = None
            for t in ts:
                if not z3.is_app(t):
                    continue
                k = t.decl()
                if t.num_args() == 1 and k.eq(SQRT):
                    new.append(Implies(t.arg(0) >= 0, t >= 0))
                    if nonlinear:
                        new.append(Implies(t.arg(0) >= 0, t * t == t.arg(0)))
                    new.append(Implies(t.arg(0) == 0, t == 0))
                    new.append(Implies(t.arg(0) == 1, t == 1))
                elif k.eq(EXP):
                    new.append(t > 0)
                    new.append(Implies(t.arg(0) == 0, t == 1))
                elif k.eq(COS):
                    new.append(And(t <= 1, t >= -1, Implies(t.arg(0) == 0, t == 1)))
                    for u in ts:
                        if z3.is_app(u) and u.decl().eq(COS) and u.get_id() < t.get_id():
                            new.append(Implies(t.arg(0) + u.arg(0) == 0, t == u))
                elif k.eq(LN):
                    new.append(Implies(t.arg(0) == 1, t == 0))
                elif k.eq(POWF):
                    new.append(Implies(t.arg(0) > 0, t == EXP(som(t.arg(1) * LN(som(t.arg(0)))))))
                elif k.eq(INVF):
                    new.append(Implies(t.arg(0) > 0, t > 0))
                    if nonlinear:
                        new.append(Implies(t.arg(0) != 0, t * t.arg(0) == 1))
                elif t.num_args() == 2 and k.name() in ('fmax', 'fmin'):
                    a, b = t.arg(0), t.arg(1)
                    new.append(And(t >= a, t >= b) if k.name() == 'fmax' else And(t <= a, t <= b))
                    new.append(Or(t == a, t == b))
                elif k.name() == 'digit':
                    new.append(Implies(t.arg(2) > 0, And(t >= 0, t < t.arg(2))))
                elif k.eq(POWI):
                    new.append(Implies(t.arg(1) == 0, t == 1))
                    new.append(Implies(t.arg(1) == 1, t == t.arg(0)))
                elif is_big(t):
                    d = bigdef(t)
                    if d.op == 'any':
                        w = self.witness(t)
                        g, _ = d.inst(list(t.children()), w)
                        new.append(Implies(t, g))
                        if ints is None:
                            ints = self.index_terms(ts)
                        for x in ints[:20]:
                            g, _ = d.inst(list(t.children()), x)
                            new.append(Implies(g, t))
                    elif d.op == 'wit':
                        if ints is None:
                            ints = self.index_terms(ts)
                        g0, _ = d.inst(list(t.children()), t)
                        for x in ints[:20]:
                            g, _ = d.inst(list(t.children()), x)
                            new.append(Implies(g, And(g0, x <= t)))
                    elif d.op == 'first':
                        if ints is None:
                            ints = self.index_terms(ts)
                        g0, _ = d.inst(list(t.children()), t)
                        for x in ints[:20]:
                            g, _ = d.inst(list(t.children()), x)
                            new.append(Implies(g, And(g0, t <= x)))
                    elif d.op in ('max', 'min'):
                        if ints is None:
                            ints = self.index_terms(ts)
                        for x in ints[:20]:
                            g, b = d.inst(list(t.children()), x)
                            new.append(Implies(g, b <= t if d.op == 'max' else b >= t))
                        w = self.witness(t)
                        gw, bw = d.inst(list(t.children()), w)
                        for x in ints[:20]:
                            g, b = d.inst(list(t.children()), x)
                            new.append(Implies(g, And(gw, bw == t)))
                    elif d.op == 'foldn':
                        n = t.arg(0)
                        m = d.extra[2]
                        new.append(Implies(n <= 0, t == t.arg(1 + d.extra[1])))
                    elif d.op == 'sum' and not isinstance(d.body, tuple):
                        # sums of syntactically non-negative bodies
                        if z3.is_int_value(d.body) and d.body.as_long() == 1:
                            new.append(t >= 0)
            new = [a for a in uniq(new) if a.get_id() not in seen and not is_true(a)]
            for a in new:
                seen.add(a.get_id())
            if not new:
                break
            out += new
            work = new
        return out

    def witness(self, t):
        return z3.Function('wit_' + t.decl().name(), *([c.sort() for c in t.children()] + [I]))(*t.children()) if t.num_args() else z3.Const('wit_' + t.decl().name(), I)

    def index_terms(self, ts):
        """integer terms occurring as function arguments, and integer constants"""
        out = [IntVal(0)]
        for t in ts:
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for c in t.children():
                    if c.sort() == I:
                        out.append(c)
                if t.num_args() == 0 and t.sort() == I:
                    out.append(t)
        return uniq(out)

    # -- main entry
    def prove(self, hyp, goal, depth=DEPTH):
        """'proved' | 'refuted' | 'unknown'"""
        goal = z3.simplify(goal)
        if is_true(goal):
            return 'proved'
        key = (goal.get_id(), tuple(h.get_id() for h in hyp))
        if key in self.cache:
            return self.cache[key][0]
        r = self._prove(hyp, goal, depth)
        self.cache[key] = (r, goal, hyp)
        return r

    def _prove(self, hyp, goal, depth):
        if z3.is_and(goal):
            res = 'proved'
            for c in goal.children():
                r = self.prove(hyp, c, depth)
                if r == 'refuted':
                    return r
                if r != 'proved':
                    res = r
            return res
        if z3.is_implies(goal):
            return self.prove(list(hyp) + [goal.arg(0)], goal.arg(1), depth)
        hyp = self.relevant(hyp, goal)
        if z3.is_eq(goal) and goal.arg(0).sort() == B:
            x, y = goal.children()
            for is_, mk, ng in ((z3.is_and, And, False), (z3.is_or, Or, True)):
                if is_(x) and is_(y):
                    both = [c for c in x.children() if any(c.eq(d) for d in y.children())]
                    if both:
                        u, w = [mk(*[c for c in z.children() if not any(c.eq(d) for d in both)]) for z in (x, y)]
                        r = self.prove(list(hyp) + [Not(c) if ng else c for c in both], u == w, depth)
                        if r == 'proved':
                            return r
                        break
        if z3.is_eq(goal) and goal.arg(0).sort() == R and self.by_cases(hyp, goal):
            return 'proved'
        r = self.check(hyp, goal, 2000)
        if r == z3.unsat:
            return 'proved'
        g2 = som(goal) if goal.sort() != B else self.norm_eq(goal)
        if is_true(g2):
            return 'proved'
        ax = self.axioms(list(hyp) + [goal])
        if ax:
            r = self.check(hyp, goal, None, ax)
            if r == z3.unsat:
                return 'proved'
        if depth > 0:
            facts = self.congruence(hyp, goal, ax, depth)
            if facts:
                r = self.check(hyp, goal, None, ax + facts)
                if r == z3.unsat:
                    return 'proved'
            if depth == DEPTH:
                more = self.known(list(hyp) + facts, goal, depth)
                if more and self.check(hyp, goal, None, ax + facts + more) == z3.unsat:
                    return 'proved'
        ax2 = self.axioms(list(hyp) + [goal], True)
        if len(ax2) > len(ax):
            r2 = self.check(hyp, goal, None, ax2)
            if r2 == z3.unsat:
                return 'proved'
            r = r2
        if r == z3.sat and not self.abstract([goal] + list(hyp)):
            return 'refuted'
        return 'unknown'

    def by_cases(self, hyp, goal, limit=4):
        """an equation of reals by splitting on the conditions of its case distinctions and comparing polynomial normal forms"""
        can = poly.Canon()
        todo = [(list(hyp), goal.arg(0) - goal.arg(1), limit)]
        n = 0
        while todo:
            n += 1
            if n > 40:
                return False
            h, g, lim = todo.pop()
            if poly.zero(g, can):
                continue
            c = self.condition(g)
            if c is None or lim == 0:
                if not poly.zero(self.powers(h, g), can):
                    return False
                continue
            for lit, val in ((c, TRUE), (Not(c), FALSE)):
                if self.check(h, lit, 500) == z3.unsat:   # only this case is left
                    todo.append((h, z3.simplify(z3.substitute(g, (c, val))), lim - 1))
                    break
            else:
                for lit, val in ((c, TRUE), (Not(c), FALSE)):
                    todo.append((h + [lit], z3.simplify(z3.substitute(g, (c, val))), lim - 1))
        return True

    def condition(self, g):
        """an atom that decides a case distinction inside the equation"""
        for t in subterms([g]):
            if z3.is_app_of(t, z3.Z3_OP_ITE) and t.sort() != B:
                c = t.arg(0)
                while True:
                    if z3.is_not(c) or z3.is_and(c) or z3.is_or(c):
                        c = c.arg(0)
                    else:
                        break
                if not is_true(c) and not is_false(c) and not any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in subterms([c])):
                    return c
        return None

    def powers(self, hyp, g):
        """powi(x, n + k) as powi(x, n) * x^k, where n >= 0 is known"""
        sub = []
        for t in subterms([g]):
            if z3.is_app(t) and t.decl().eq(POWI):
                n = z3.simplify(t.arg(1))
                if z3.is_add(n):
                    ks = [x.as_long() for x in n.children() if z3.is_int_value(x)]
                    if len(ks) == 1 and 0 < ks[0] <= 4:
                        base = z3.simplify(n - ks[0])
                        if self.check(hyp, base >= 0, 500) == z3.unsat:
                            e = POWI(t.arg(0), base)
                            for _ in range(ks[0]):
                                e = e * t.arg(0)
                            sub.append((t, e))
        return z3.substitute(g, *sub) if sub else g

    def norm_eq(self, g):
        if z3.is_eq(g) and g.arg(0).sort() in (R, I):
            return z3.simplify(som(g.arg(0) - g.arg(1)) == 0)
        return g

    def relevant(self, hyp, goal):
        return [h for h in hyp if not is_true(h)]

    def abstract(self, es):
        """terms whose meaning Z3 does not know fully: a model need not be a real counterexample."""
        for t in subterms(es):
            if is_big(t):
                return True
            if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    t.decl().name() in ('sqrt', 'exp', 'cos', 'sin', 'ln', 'ln_1p', 'inv', 'powi', 'powf', 'fmax', 'fmin', 'floor'):
                return True
        return False

    def known(self, hyp, goal, depth):
        """big operators of the goal that equal one that a hypothesis speaks of"""
        mine = [t for t in subterms([goal]) if is_big(t)]
        theirs = [t for t in subterms(hyp) if is_big(t) and not any(t.eq(x) for x in mine)]
        out = []
        folds = [t for t in theirs if bigdef(t).op == 'foldn']
        pairs = [(a, b) for a in mine for b in theirs] + [(a, b) for i, a in enumerate(folds) for b in folds[:i]]
        if len(pairs) > 60:
            return out
        for a, b in pairs:
            if a.sort() == b.sort() and bigdef(a).op == bigdef(b).op and bigdef(a).op in ('foldn', 'sum', 'prod', 'max', 'min', 'count'):
                out += [a == b] if self.same(hyp, a, b, depth - 1) else self.peel(hyp, a, b, depth - 1)
        return out

    def congruence(self, hyp, goal, ax, depth):
        bigs = [t for t in subterms([goal]) if is_big(t)]
        if len(bigs) > 24:
            return []
        ufs = [t for t in subterms([goal]) if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
               and not is_big(t) and t.sort() != B and t.decl().name() in ('sqrt', 'exp', 'cos', 'sin', 'ln', 'inv', 'powi', 'powf')]
        facts = []
        bigs.sort(key=size)
        done = set()
        for i in range(len(bigs)):
            t = bigs[i]
            e = self.empty(hyp, t, depth)
            if e is not None:
                facts.append(e)
            facts += self.sign(hyp, t)
        for i in range(len(bigs)):
            for j in range(i + 1, len(bigs)):
                a, b = bigs[i], bigs[j]
                if a.sort() != b.sort() or bigdef(a).op != bigdef(b).op or a.eq(b):
                    continue
                if self.same(hyp + facts, a, b, depth - 1):
                    facts.append(a == b)
                else:
                    facts += self.peel(hyp + facts, a, b, depth - 1)
                    if depth == DEPTH:
                        facts += self.cards(hyp, goal, a, b)
        if depth == DEPTH:
            facts += self.linear(hyp, goal, depth)
        facts += self.scaling(hyp + facts, goal, bigs, depth)
        for i in range(len(ufs)):
            for j in range(i + 1, len(ufs)):
                a, b = ufs[i], ufs[j]
                if a.decl().eq(b.decl()) and not a.eq(b):
                    if all(self.prove(hyp + facts, x == y, depth - 1) == 'proved' for x, y in zip(a.children(), b.children())):
                        facts.append(a == b)
        return facts

    def cards(self, hyp, goal, a, b):
        """finite sets of the same size, one inside the other, are equal"""
        da, db = bigdef(a), bigdef(b)
        if da.op != 'sum' or a.sort() != I or any(len(d.vars) != 1 or isinstance(d.body, tuple) or not z3.is_int_value(d.body) or d.body.as_long() != 1 for d in (da, db)):
            return []
        if not any(is_big(t) and bigdef(t).op == 'any' for t in subterms([goal])):
            return []
        q = fresh('q', I)
        ga, gb = da.inst(list(a.children()), q)[0], db.inst(list(b.children()), q)[0]
        x, y = bany(q, And(ga, Not(gb))), bany(q, And(gb, Not(ga)))
        out = [Implies(And(Not(x), a == b), Not(y)), Implies(And(Not(y), a == b), Not(x)), Implies(And(Not(x), Not(y)), a == b),
               Implies(Not(x), a <= b), Implies(Not(y), b <= a)]
        return out + self.axioms(out + list(hyp) + [goal])

    def linear(self, hyp, goal, depth):
        """linear (in)equations between sums over the same index, and counts 0 <= x < n, element by element"""
        if not (z3.is_eq(goal) or z3.is_le(goal) or z3.is_ge(goal)) or goal.arg(0).sort() not in (R, I):
            return []
        so = goal.arg(0).sort()
        zero, one = (RealVal(0), RealVal(1)) if so == R else (IntVal(0), IntVal(1))
        e = som(goal.arg(0) - goal.arg(1))
        mons = e.children() if z3.is_add(e) else [e]
        if len(mons) > 6:
            return []
        x = fresh('c', I)
        tot, sums = zero, 0
        for m in mons:
            c, t = one, None
            for f in factors(m):
                if z3.is_int_value(f) or z3.is_rational_value(f):
                    c = c * f
                elif t is None:
                    t = f
                else:
                    return []
            if t is None:
                return []
            if is_big(t) and bigdef(t).op == 'sum' and len(bigdef(t).vars) == 1 and not isinstance(bigdef(t).body, tuple):
                g, b = bigdef(t).inst(list(t.children()), x)
                sums += 1
            else:
                n = t.arg(0) if z3.is_app_of(t, z3.Z3_OP_TO_REAL) else t
                if n.sort() != I or is_big(n) or not self.quick(hyp, n >= 0):
                    return []
                g, b = And(x >= 0, x < n), one
            tot = tot + c * If(g, b, zero)
        if sums and self.prove(hyp, z3.simplify(tot == zero if z3.is_eq(goal) else tot <= zero if z3.is_le(goal) else tot >= zero), depth - 1) == 'proved':
            return [goal]
        return []

    def peel(self, hyp, a, b, depth):
        """a == b apart from one element (the first one) that only one of them has"""
        da, db = bigdef(a), bigdef(b)
        if depth <= 0:
            return []
        if da.op == 'foldn':
            return self.shift(hyp, a, b, depth) or self.shift(hyp, b, a, depth)
        if da.op not in ('sum', 'prod') or len(da.vars) != 1 or len(db.vars) != 1 or isinstance(da.body, tuple) or isinstance(db.body, tuple):
            return []
        x = fresh('c', I)
        ga, ba = da.inst(list(a.children()), x)
        gb, bb = db.inst(list(b.children()), x)
        z = (RealVal(0) if a.sort() == R else IntVal(0)) if da.op == 'sum' else (RealVal(1) if a.sort() == R else IntVal(1))
        if not self.maybe(hyp + [x != 0], If(ga, ba, z), If(gb, bb, z), depth):
            return []
        ga, ba = da.inst(list(a.children()), IntVal(0))
        gb, bb = db.inst(list(b.children()), IntVal(0))
        u, w = If(ga, ba, z), If(gb, bb, z)
        if da.op == 'sum':
            return [a - u == b - w]
        return [Implies(w == z, a == b * u), Implies(u == z, b == a * w)]

    def maybe(self, hyp, u, w, depth):
        u, w = z3.simplify(u), z3.simplify(w)
        if u.eq(w):
            return True
        return self.check(hyp, u == w, 1000) == z3.unsat or self.prove(hyp, u == w, depth) == 'proved'

    def shift(self, hyp, a, b, depth):
        """a fold of n steps is the fold of the remaining n - 1 steps from the result of the first one"""
        da, db = bigdef(a), bigdef(b)
        if da.extra != db.extra or any(x.sort() != y.sort() for x, y in zip(da.vars, db.vars)) or len(da.vars) != len(db.vars):
            return []
        m = da.extra[2]
        ca, cb = list(a.children()), list(b.children())
        if self.check(hyp, And(ca[0] >= 1, cb[0] == ca[0] - 1), 1000) != z3.unsat:
            return []
        _, first = da.inst(ca[1 + m:], IntVal(0), *ca[1:1 + m])
        for u, w in zip(first, cb[1:1 + m]):
            if not self.maybe(hyp, u, w, depth):
                return []
        xs = [fresh('c', v.sort()) for v in da.vars]
        _, ba = da.inst(ca[1 + m:], xs[0] + 1, *xs[1:])
        _, bb = db.inst(cb[1 + m:], *xs)
        h = list(hyp) + [xs[0] >= 0, xs[0] < cb[0]]
        return [a == b] if all(self.maybe(h, u, w, depth) for u, w in zip(ba, bb)) else []

    def scaling(self, hyp, goal, bigs, depth):
        """sum of c*f = c * sum of f, and the same for maxima with c >= 0"""
        out = []
        if not z3.is_eq(goal) or goal.arg(0).sort() != R or depth <= 0:
            return out
        mons = []
        for side in goal.children():
            e = som(side)
            mons += e.children() if z3.is_add(e) else [e]
        for m in mons:
            fs = factors(m)
            for b in fs:
                if len(fs) < 2 or not is_big(b) or bigdef(b).op not in ('sum', 'max'):
                    continue
                rest = [f for f in fs if not f.eq(b)]
                if len(rest) != len(fs) - 1:
                    continue
                c = prod(rest, RealVal(1))
                for a in bigs:
                    if a.eq(b) or a.sort() != b.sort() or bigdef(a).op != bigdef(b).op:
                        continue
                    x = fresh('c', I)
                    ga, fa = bigdef(a).inst(list(a.children()), x)
                    gb, fb = bigdef(b).inst(list(b.children()), x)
                    if bigdef(a).op == 'sum':
                        if self.prove(hyp, If(ga, fa, RealVal(0)) == c * If(gb, fb, RealVal(0)), depth - 1) == 'proved':
                            out.append(a == c * b)
                    elif self.prove(hyp, And(c >= 0, ga == gb), depth - 1) == 'proved' and self.prove(list(hyp) + [ga], fa == c * fb, depth - 1) == 'proved':
                        y = self.witness(b)
                        g, _ = bigdef(b).inst(list(b.children()), y)
                        out.append(Implies(g, a == c * b))
        return out

    def empty(self, hyp, t, depth):
        d = bigdef(t)
        if d.op in ('sum', 'prod', 'any'):
            x = fresh('e', I)
            g, b = d.inst(list(t.children()), x)
            neutral = {'sum': lambda: RealVal(0) if t.sort() == R else IntVal(0), 'prod': lambda: RealVal(1), 'any': lambda: FALSE}[d.op]()
            goal = neg(g) if d.op == 'any' else Implies(g, b == neutral)
            if self.quick(hyp, goal):
                return t == neutral
        return None

    def sign(self, hyp, t):
        """sums and products of numbers that are not negative, products of positive numbers"""
        d = bigdef(t)
        if d.op not in ('sum', 'prod') or isinstance(d.body, tuple) or t.sort() == B:
            return []
        x = fresh('s', I)
        g, b = d.inst(list(t.children()), x)
        if d.op == 'prod' and self.quick(hyp, Implies(g, b > 0)):
            return [t >= 1] if t.sort() == I else [t > 0]
        if self.quick(hyp, Implies(g, b >= 0)):
            return [t >= 0]
        return []

    def quick(self, hyp, goal):
        goal = z3.simplify(goal)
        if is_true(goal):
            return True
        r = self.check(hyp, goal, 1500)
        if r == z3.unsat:
            return True
        ax = self.axioms(list(hyp) + [goal])
        return bool(ax) and self.check(hyp, goal, 2500, ax) == z3.unsat

    def same(self, hyp, a, b, depth):
        return self.direct(hyp, a, b, depth) or self.reindexed(hyp, a, b, depth)

    def reindexed(self, hyp, a, b, depth):
        """the elements of one range in the opposite order (possibly only under a condition that no index occurs in)"""
        da, db = bigdef(a), bigdef(b)
        if depth <= 0 or da.op not in ('sum', 'prod', 'any', 'max', 'min') or isinstance(da.body, tuple) or isinstance(db.body, tuple) or \
                len(da.vars) != 1 or len(db.vars) != 1 or da.vars[0].sort() != I:
            return False
        x = fresh('c', I)
        ga, ba = da.inst(list(a.children()), x)
        gb, bb = db.inst(list(b.children()), x)
        flips = [t for t in subterms([ga, ba, gb, bb]) if z3.is_app_of(t, z3.Z3_OP_ITE) and t.sort() == I and not has_const(t.arg(0), x) and has_const(t, x)]
        ends = {}
        for t in () if flips else subterms([ga, ba, gb, bb]):
            if t.sort() == I and has_const(t, x):
                e = z3.simplify(t + x, som=True)
                if not has_const(e, x):
                    ends[e.get_id()] = e
        cases = [(list(hyp), ga, ba, gb, bb)]
        if flips:
            c = flips[0].arg(0)
            cases = [([*hyp, l], *[z3.simplify(z3.substitute(e, (c, v))) for e in (ga, ba, gb, bb)]) for l, v in ((c, TRUE), (Not(c), FALSE))]
            for t in flips:
                for e in (t.arg(1), t.arg(2)):
                    e = z3.simplify(e + x, som=True)
                    if not has_const(e, x):
                        ends[e.get_id()] = e
        if not ends or len(ends) > 2:
            return False
        z = None if da.op in ('max', 'min') else FALSE if da.op == 'any' else (RealVal if a.sort() == R else IntVal)(0 if da.op == 'sum' else 1)

        def agree(h, g1, b1, g2, b2):
            if z is None:
                return self.prove(h, g1 == g2, depth - 1) == 'proved' and self.prove(h + [g1], b1 == b2, depth - 1) == 'proved'
            if da.op == 'any':
                return self.prove(h, g1 == g2, depth - 1) == 'proved'
            return self.prove(h, If(g1, b1, z) == If(g2, b2, z), depth - 1) == 'proved'
        for h, g1, b1, g2, b2 in cases:
            if agree(h, g1, b1, g2, b2):
                continue
            if not any(agree(h, z3.simplify(z3.substitute(g1, (x, e - x))), z3.simplify(z3.substitute(b1, (x, e - x))), g2, b2) for e in ends.values()):
                return False
        return True

    def direct(self, hyp, a, b, depth):
        da, db = bigdef(a), bigdef(b)
        if len(da.vars) != len(db.vars) or any(x.sort() != y.sort() for x, y in zip(da.vars, db.vars)):
            return False
        xs = [fresh('c', v.sort()) for v in da.vars]
        if da.op == 'foldn':
            m = da.extra[2]
            if db.extra != da.extra:
                return False
            ca, cb = list(a.children()), list(b.children())
            for u, w in zip(ca[:1 + m], cb[:1 + m]):
                if self.prove(hyp, u == w, depth) != 'proved':
                    return False
            n = ca[0]
            ga, ba = da.inst(ca[1 + m:], *xs)
            gb, bb = db.inst(cb[1 + m:], *xs)
            h = list(hyp) + [xs[0] >= 0, xs[0] < n]
            return all(self.prove(h, u == w, depth) == 'proved' for u, w in zip(ba, bb))
        ga, ba = da.inst(list(a.children()), *xs)
        gb, bb = db.inst(list(b.children()), *xs)
        if da.op == 'sum':
            z = RealVal(0) if a.sort() == R else IntVal(0)
            if z3.simplify(ga).eq(z3.simplify(gb)) and self.prove(list(hyp) + [ga], ba == bb, depth) == 'proved':
                return True
            return self.prove(hyp, If(ga, ba, z) == If(gb, bb, z), depth) == 'proved'
        if da.op == 'prod':
            return self.prove(hyp, If(ga, ba, RealVal(1)) == If(gb, bb, RealVal(1)), depth) == 'proved'
        if self.prove(hyp, ga == gb, depth) != 'proved':
            return False
        if da.op in ('any', 'wit', 'first'):
            return True
        ua = ba if isinstance(ba, tuple) else (ba,)
        ub = bb if isinstance(bb, tuple) else (bb,)
        if da.extra != db.extra or len(ua) != len(ub):
            return False
        return all(self.prove(list(hyp) + [ga], u == w, depth) == 'proved' for u, w in zip(ua, ub))


def size(t):
    return len(subterms([t]))
