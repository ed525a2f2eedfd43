"""canonical polynomials over uninterpreted terms, for equations between real (or integer) expressions"""
from fractions import Fraction
import z3
from terms import *

LIMIT = 4000


class TooBig(Exception):
    pass


class Canon:
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.keys = {}

    def intern(self, k):
        return self.keys.setdefault(k, len(self.keys))

    def atom(self, k):
        return {((self.intern(k), 1),): Fraction(1)}

    def pkey(self, p):
        return self.intern(('poly', tuple(sorted((m, c) for m, c in p.items()))))

    def key(self, t):
        """canonical key of any term"""
        if t.sort() in (R, I):
            return self.pkey(self.poly(t))
        if z3.is_app(t):
            return self.intern((t.decl().kind(), t.decl().name(), tuple(self.key(c) for c in t.children())))
        return self.intern(('raw', t.sexpr()))

    def mul(self, p, q):
        if len(p) * len(q) > LIMIT:
            raise TooBig()
        out = {}
        for m, c in p.items():
            for n, d in q.items():
                e = dict(m)
                for a, k in n:
                    e[a] = e.get(a, 0) + k
                key = tuple(sorted(e.items()))
                v = out.get(key, 0) + c * d
                if v:
                    out[key] = v
                else:
                    out.pop(key, None)
        return out

    def add(self, p, q, s=1):
        out = dict(p)
        for m, c in q.items():
            v = out.get(m, 0) + s * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def poly(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        p = self._poly(t)
        self.memo[i] = p
        self.keep.append(t)
        return p

    def _poly(self, t):
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_int_value(t):
            return {(): Fraction(t.as_long())} if t.as_long() else {}
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                p = {}
                for c in ch:
                    p = self.add(p, self.poly(c))
                return p
            if k == z3.Z3_OP_SUB:
                p = self.poly(ch[0])
                for c in ch[1:]:
                    p = self.add(p, self.poly(c), -1)
                return p
            if k == z3.Z3_OP_UMINUS:
                return self.add({}, self.poly(ch[0]), -1)
            if k == z3.Z3_OP_MUL:
                p = {(): Fraction(1)}
                for c in ch:
                    p = self.mul(p, self.poly(c))
                return p
            if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 12:
                p = {(): Fraction(1)}
                for _ in range(ch[1].as_long()):
                    p = self.mul(p, self.poly(ch[0]))
                return p
            if k == z3.Z3_OP_TO_REAL:
                q = self.poly(ch[0])
                if all(m == () for m in q):
                    return q
            if t.decl().eq(INVF):
                q = self.poly(ch[0])
                if len(q) == 1 and () in q:
                    return {(): 1 / q[()]}
            return self.atom((k, t.decl().name(), tuple(self.key(c) for c in ch)))
        return self.atom(('raw', t.sexpr()))


def zero(t, canon=None):
    """is the expression identically zero as a polynomial over its uninterpreted subterms?"""
    try:
        return not (canon or Canon()).poly(t)
    except (TooBig, RecursionError):
        return False
