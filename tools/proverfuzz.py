"""does the prover accept false statements? (development tool)

Every obligation of every contract, and random one-place changes of its goal, go to the prover; whatever it
proves is then evaluated in random finite models (concrete integers, rationals and tables for the uninterpreted
functions).  A model that satisfies the hypotheses and not the proved goal is printed as UNSOUND.

usage: proverfuzz.py MIR SRC SEED MUTANTS [NAME-SUBSTRING]
"""
import os, sys, math, random, hashlib
from fractions import Fraction
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/mirvc')
sys.setrecursionlimit(20000)
import z3
import exec as E
import contract, contracts_all, prove, terms
from terms import *

MIR, SRC, SEED, NMUT = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
SUB = sys.argv[5] if len(sys.argv) > 5 else ''
RNG = random.Random(SEED)
LO, HI = -2, 6


class Skip(Exception):
    pass


class Model:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = self.r.choice([0, 1, 2, 3])
        self.tab = {}
        self.bigs = {}

    def draw(self, name, sort, args):
        k = (name,) + args
        if k in self.tab:
            return self.tab[k]
        r = self.r
        if sort == B:
            ints = [a for a in args if isinstance(a, int) and not isinstance(a, bool)]
            v = r.random() < .6 and all(0 <= a < max(self.n, 1) for a in ints)
            if ints and self.n == 0:
                v = False
        elif sort == I:
            v = self.n if r.random() < .6 else r.randint(0, 4)
        elif sort == R:
            v = Fraction(r.choice([-3, -2, -1, -1, 0, 0, 1, 1, 2, 3, 4]), r.choice([1, 1, 1, 2]))
        else:
            v = 'o%d' % r.randint(0, 2)
        self.tab[k] = v
        return v

    def ev(self, t, env=None):
        memo = {}
        return self._ev(t, memo)

    def _ev(self, t, memo):
        i = t.get_id()
        if i in memo:
            return memo[i]
        v = self.__ev(t, memo)
        memo[i] = v
        return v

    def __ev(self, t, memo):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if not z3.is_app(t):
            raise Skip('term')
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ITE:
            return self._ev(ch[1] if self._ev(ch[0], memo) else ch[2], memo)
        if k == z3.Z3_OP_AND:
            return all(self._ev(c, memo) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self._ev(c, memo) for c in ch)
        if k == z3.Z3_OP_IMPLIES:
            return (not self._ev(ch[0], memo)) or self._ev(ch[1], memo)
        if is_big(t):
            return self.big(t, [self._ev(c, memo) for c in ch])
        a = [self._ev(c, memo) for c in ch]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return eq(a[0], a[1])
        if k == z3.Z3_OP_DISTINCT:
            return all(not eq(x, y) for i, x in enumerate(a) for y in a[:i])
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1] or eq(a[0], a[1])
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1] or eq(a[0], a[1])
        if k == z3.Z3_OP_LT:
            return a[0] < a[1] and not eq(a[0], a[1])
        if k == z3.Z3_OP_GT:
            return a[0] > a[1] and not eq(a[0], a[1])
        if k == z3.Z3_OP_ADD:
            return sum(a[1:], a[0])
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[2:], a[1])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            return math.prod(a)
        if k == z3.Z3_OP_DIV:
            return inv(a[1]) * a[0]
        if k == z3.Z3_OP_IDIV:
            if a[1] == 0:
                raise Skip('div 0')
            q = a[0] // abs(a[1])
            return q if a[1] > 0 else -q
        if k == z3.Z3_OP_MOD:
            if a[1] == 0:
                raise Skip('mod 0')
            return a[0] % abs(a[1])
        if k == z3.Z3_OP_POWER:
            return power(a[0], a[1])
        if k == z3.Z3_OP_TO_REAL:
            return Fraction(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k != z3.Z3_OP_UNINTERPRETED:
            raise Skip('operator %s' % t.decl())
        f = t.decl()
        if f.eq(INVF):
            return inv(a[0])
        if f.eq(SQRT):
            if a[0] < 0:
                raise Skip('sqrt')
            return math.sqrt(a[0])
        if f.eq(EXP):
            return math.exp(a[0])
        if f.eq(COS):
            return math.cos(a[0])
        if f.eq(LN):
            if a[0] <= 0:
                raise Skip('ln')
            return math.log(a[0])
        if f.eq(POWF):
            if a[0] <= 0:
                raise Skip('powf')
            return float(a[0]) ** float(a[1])
        if f.eq(POWI):
            return power(a[0], a[1])
        n = f.name()
        if n == 'PI':
            return math.pi
        if n == 'NEG_INF':
            return Fraction(-10 ** 6)
        if n == 'POS_INF':
            return Fraction(10 ** 6)
        if n == 'fmax':
            return max(a)
        if n == 'fmin':
            return min(a)
        return self.draw(n, t.sort(), tuple(a))

    def big(self, t, a):
        d = bigdef(t)
        key = (t.decl().name(), tuple(a))
        if key in self.bigs:
            return self.bigs[key]
        vals = None
        if d.op == 'foldn':
            m = d.extra[2]
            n, inits, args = a[0], list(a[1:1 + m]), a[1 + m:]
            if n > 6:
                raise Skip('long')
            st = inits
            for p in range(n):
                vars_ = [p] + st
                st = [self.at(b, d, args, vars_) for b in d.body]
            v = st[d.extra[1]]
        else:
            idx = []
            if len(d.vars) != 1:
                raise Skip('vars')
            for p in range(LO, HI + 1):
                if self.at(d.guard, d, a, [p]):
                    if p in (LO, HI) and d.op not in ('lam',):
                        raise Skip('unbounded')
                    idx.append(p)
            bs = [self.at(d.body, d, a, [p]) for p in idx] if not isinstance(d.body, tuple) else [tuple(self.at(b, d, a, [p]) for b in d.body) for p in idx]
            if d.op == 'sum':
                v = sum(bs, Fraction(0) if t.sort() == R else 0)
            elif d.op == 'prod':
                v = math.prod(bs) if t.sort() == R else math.prod(bs)
            elif d.op in ('max', 'min'):
                v = (max if d.op == 'max' else min)(bs) if bs else self.draw('empty ' + d.op, t.sort(), ())
            elif d.op == 'any':
                v = bool(idx)
            elif d.op == 'wit':
                v = idx[-1] if idx else self.draw('empty ' + d.op, t.sort(), ())
            elif d.op == 'first':
                v = idx[0] if idx else self.draw('empty ' + d.op, t.sort(), ())
            elif d.op == 'lam':
                v = 'lam' + repr(list(zip(idx, bs)))
            else:
                raise Skip('big ' + d.op)
        self.bigs[key] = v
        return v

    def at(self, e, d, args, idx):
        memo = {}
        for c, x in list(zip(d.params, args)) + list(zip(d.vars, idx)):
            memo[c.get_id()] = x
        return self._ev(e, memo)


def inv(x):
    if x == 0:
        return Fraction(0)
    return 1 / x


def power(x, n):
    if isinstance(n, Fraction) and n.denominator != 1 or isinstance(n, float):
        raise Skip('power')
    n = int(n)
    if n >= 0:
        return x ** n
    return inv(x ** -n)


def eq(x, y):
    if isinstance(x, (float, Fraction)) and isinstance(y, (float, Fraction)) and (isinstance(x, float) or isinstance(y, float)):
        return abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))
    return x == y


# ------------------------------------------------------------ changed goals
def children_of(t):
    return t.children()


def mutate(g):
    """one random change somewhere in the goal"""
    ts = [t for t in subterms([g]) if z3.is_app(t)]
    for _ in range(30):
        t = RNG.choice(ts)
        r = change(t)
        if r is not None and not r.eq(t):
            try:
                return z3.substitute(g, (t, r))
            except z3.Z3Exception:
                continue
    return None


def change(t):
    k = t.decl().kind()
    ch = t.children()
    if z3.is_int_value(t):
        return IntVal(t.as_long() + RNG.choice([-1, 1]))
    if z3.is_rational_value(t):
        return RNG.choice([-t, t + 1, t * 2])
    if t.sort() == R and RNG.random() < .3:
        return -t
    if t.sort() == I and RNG.random() < .2:
        return t + RNG.choice([-1, 1])
    if k == z3.Z3_OP_LE:
        return ch[0] < ch[1]
    if k == z3.Z3_OP_GE:
        return ch[0] > ch[1]
    if k == z3.Z3_OP_ITE:
        return If(ch[0], ch[2], ch[1])
    if k == z3.Z3_OP_ADD and len(ch) > 1:
        i = RNG.randrange(len(ch))
        ch[i] = -ch[i]
        return sum(ch[1:], ch[0])
    if k == z3.Z3_OP_MUL and len(ch) > 1:
        i = RNG.randrange(len(ch))
        del ch[i]
        return prod(ch, None)
    if is_big(t):
        d = bigdef(t)
        m = d.extra[2] if d.op == 'foldn' else 0
        args = ch[1 + m:] if d.op == 'foldn' else ch
        fv = [fresh('mb', v.sort()) for v in d.vars]
        gd, b = d.inst(args, *fv)
        try:
            if d.op == 'foldn':
                b = list(b)
                j = RNG.randrange(len(b))
                b[j] = mutate(b[j])
                if b[j] is None:
                    return None
                return bfold(d.extra[1], ch[0], fv[0], fv[1:], b, ch[1:1 + m], gd)
            if isinstance(b, tuple):
                return None
            if RNG.random() < .5:
                b2, g2 = mutate(b), gd
            else:
                b2, g2 = b, mutate(gd)
            if b2 is None or g2 is None:
                return None
            if d.op == 'sum':
                return bsum(fv[0], g2, b2)
            return bigop(d.op, fv, g2, b2, t.sort())
        except z3.Z3Exception:
            return None
    if k == z3.Z3_OP_UNINTERPRETED and len(ch) > 1:
        i = RNG.randrange(len(ch))
        js = [j for j in range(len(ch)) if j != i and ch[j].sort() == ch[i].sort() and not ch[j].eq(ch[i])]
        if js:
            j = RNG.choice(js)
            ch[i], ch[j] = ch[j], ch[i]
            return t.decl()(*ch)
    if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1 and ch[0].sort() == t.sort():
        return ch[0]
    return None


COUNT = dict(proved=0, mutants=0, mproved=0, modelled=0, unsound=0)
SEEN = set()


def examine(pv, hyp, goal, what, tries=60):
    good = 0
    ax = []
    for sc in pv.schema:
        ax += sc(subterms(list(hyp) + [goal]))
    for k in range(tries):
        m = Model(RNG.random())
        try:
            if not all(m.ev(h) for h in list(hyp) + ax):
                continue
            ok = m.ev(goal)
        except (Skip, OverflowError, ZeroDivisionError, TypeError):
            continue
        good += 1
        if not ok:
            COUNT['unsound'] += 1
            print('UNSOUND %s\n   goal %s' % (what, str(goal)[:700]))
            for h in list(hyp):
                print('   hyp  %s' % str(h)[:300])
            for t in subterms([goal]):
                if is_big(t):
                    d = bigdef(t)
                    print('   big  %s %s | %s | %s' % (t.decl().name(), d.op, str(d.guard)[:200], str(d.body)[:300]))
            print('   model', {k: str(v) for k, v in list(m.tab.items())[:30]}, flush=True)
            return
        if good >= 8:
            break
    COUNT['modelled'] += good > 0


real_prove = prove.Prover.prove
DEPTH_IN = [0]


def patched(self, hyp, goal, depth=prove.DEPTH):
    if DEPTH_IN[0]:
        return real_prove(self, hyp, goal, depth)
    DEPTH_IN[0] = 1
    try:
        r = real_prove(self, hyp, goal, depth)
        if is_true(z3.simplify(goal)):
            return r
        if r == 'proved':
            COUNT['proved'] += 1
            examine(self, hyp, goal, NAME[0])
            for _ in range(NMUT):
                g = mutate(z3.simplify(goal))
                if g is None or is_true(z3.simplify(g)):
                    continue
                COUNT['mutants'] += 1
                t = self.timeout
                self.timeout = 500
                try:
                    p = real_prove(self, hyp, g)
                except Exception as e:
                    print('ERR', type(e), e)
                    p = 'err'
                self.timeout = t
                if p == 'proved':
                    COUNT['mproved'] += 1
                    examine(self, hyp, g, NAME[0] + ' (changed)')
        return r
    finally:
        DEPTH_IN[0] = 0


NAME = ['']
prove.Prover.prove = patched
mod = E.Module(open(MIR).read(), SRC)
for c in [x for x in contract.ALL if not contract.absent(mod, x)]:
    if SUB and SUB not in c.name:
        continue
    NAME[0] = c.name
    contract.verify(mod, c, contract.BY_KEY)
for c in contract.LEMMAS:
    if SUB and SUB not in c.name:
        continue
    NAME[0] = c.name
    contract.verify_lemma(mod, c)
print(COUNT)
