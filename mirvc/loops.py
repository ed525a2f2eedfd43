"""Exact summaries of loops and of iterator consumption.

A loop body is run once, from a state in which every location that the body
modifies holds an unconstrained value; from the resulting transition function
each modified location is classified (counter, sum, product, maximum, boolean
accumulation, pointwise array / map update, last value, general fold) and the
state after any number of iterations is written in closed form.  Locations that
fit no class are poisoned (reading them later is refused).  The body is then
run once more from the closed form of the state before iteration p, for an
arbitrary p of the domain, and the obligations of that run are kept.
"""
import z3
from terms import *
from values import *
import terms as _t


class SV:
    """one scalar component of a modified location"""
    def __init__(self, init, name):
        self.init = init
        self.h = fresh('hv_' + name, init.sort())
        self.f = None       # value after the body, in terms of the h's
        self.pre = None     # value before iteration p
        self.fin = None     # value after the loop
        self.kind = None
        self.is_kind = False


class Leaf:
    def __init__(self, cell, path, kind, init):
        self.cell, self.path, self.kind, self.init = cell, path, kind, init
        self.svs = []
        self.hval = None
        self.reads = []
        self.after = None
        self.pre = self.fin = None     # values for content leaves
        self.dead = False


# ------------------------------------------------------------ havoc by shape
def havoc_like(v, idx, name):
    if is_expr(v):
        if not idx:
            return fresh(name, v.sort())
        return fresh_fun(name, *([i.sort() for i in idx] + [v.sort()]))(*idx)
    if isinstance(v, Tup):
        return Tup([havoc_like(x, idx, name) for x in v.items])
    if isinstance(v, Adt):
        return Adt(v.name, v.variant, [havoc_like(x, idx, name) for x in v.fields], v.names)
    if isinstance(v, Alt):
        tag = havoc_like(IntVal(0), idx, name + '_tag')
        out = []
        for k, (g, a) in enumerate(v.alts):
            c = tag == k if k + 1 < len(v.alts) else Not(Or(*[tag == j for j in range(k)])) if k else TRUE
            out.append((c, havoc_like(a, idx, name)))
        return Alt(v.name, out)
    if isinstance(v, Arr):
        n = havoc_like(v.n, idx, name + '_n')
        x = fresh('hx', I)
        try:
            el = havoc_like(v.get(x), list(idx) + [x], name)
        except Unsupported:
            el = Poison('havocked')
        return Arr(n, lambda i: vsubst(el, [(x, i)]), v.std, v.kind)
    if isinstance(v, Opq):
        return Opq(havoc_like(v.term, idx, name), v.role, v.aux)
    if isinstance(v, (Uninit, Poison, MaybeInit)):
        return Poison('havocked')
    if isinstance(v, BoxV):
        return BoxV(havoc_like(v.v, idx, name))
    if isinstance(v, ValRef):
        return ValRef(havoc_like(v.v, idx, name))
    if isinstance(v, (FnItem, OpaqueFn, Ref, MutView, Clos)):
        return v
    return Poison('havocked %s' % type(v).__name__)


# ------------------------------------------------------------ paths
def diff(a, b, path=()):
    """changed leaves between two values of the same location: (path, kind, before, after)."""
    if a is b:
        return []
    if is_expr(a) and is_expr(b):
        return [] if a.eq(b) else [(path, 'scalar', a, b)] if a.sort() == b.sort() else [(path, 'other', a, b)]
    if isinstance(a, Poison):
        return [(path, 'other', a, b)]
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        out = []
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            out += diff(x, y, path + (('f', i),))
        return out
    if isinstance(a, Adt) and isinstance(b, Adt) and a.variant == b.variant and a.name == b.name and len(a.fields) == len(b.fields):
        out = []
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            out += diff(x, y, path + (('f', i),))
        return out
    if isinstance(a, Clos) and isinstance(b, Clos) and a.fn is b.fn:
        out = []
        for i, (x, y) in enumerate(zip(a.caps, b.caps)):
            out += diff(x, y, path + (('f', i),))
        return out
    if isinstance(a, (Adt, Alt)) and isinstance(b, (Adt, Alt)) and a.name == b.name:
        return [(path, 'enum', a, b)]
    if isinstance(a, BoxV) and isinstance(b, BoxV):
        return diff(a.v, b.v, path + (('box',),))
    if isinstance(a, Opq) and isinstance(b, Opq):
        return [] if a.term.eq(b.term) else [(path, 'opq', a, b)]
    if isinstance(a, Arr) and isinstance(b, Arr):
        out = []
        if not a.n.eq(b.n):
            out.append((path + (('n',),), 'scalar', a.n, b.n))
        l = b.log(a)
        if l != ():
            out.append((path, 'arr', a, b))
        return out
    if isinstance(a, MapV) and isinstance(b, MapV):
        return [] if b.log(a) == () and b is a else [(path, 'map', a, b)]
    if isinstance(a, Mat) and isinstance(b, Mat):
        return [] if b.log(a) == () else [(path, 'mat', a, b)]
    if isinstance(a, Iter) and isinstance(b, Iter) and (a.elem is b.elem):
        out = []
        if not a.start.eq(b.start):
            out.append((path + (('start',),), 'scalar', a.start, b.start))
        if a.phase != b.phase:
            out.append((path, 'phase', a, b))
        return out
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.proj) == len(b.proj) and all(proj_eq(x, y) for x, y in zip(a.proj, b.proj)):
        return []
    if isinstance(a, ValRef) and isinstance(b, ValRef):
        return diff(a.v, b.v, path + (('vr',),))
    if isinstance(a, MutView) and isinstance(b, MutView):
        d = diff(a.ref, b.ref)
        return [] if not d else [(path, 'other', a, b)]
    if isinstance(a, FnItem) and isinstance(b, FnItem) and a.path == b.path:
        return []
    return [(path, 'other', a, b)]


def getp(v, path):
    for s in path:
        k = s[0]
        if k == 'f':
            if isinstance(v, Tup):
                v = v.items[s[1]]
            elif isinstance(v, Adt):
                v = v.fields[s[1]]
            elif isinstance(v, Clos):
                v = v.caps[s[1]]
            else:
                raise Unsupported('loop path')
        elif k in ('box', 'vr'):
            v = v.v
        elif k == 'n':
            v = v.n
        elif k == 'start':
            v = v.start
        else:
            raise Unsupported('loop path')
    return v


def putp(v, path, new):
    if not path:
        return new
    s, rest = path[0], path[1:]
    k = s[0]
    if k == 'f':
        i = s[1]
        if isinstance(v, Tup):
            it = list(v.items)
            it[i] = putp(it[i], rest, new)
            return Tup(it)
        if isinstance(v, Adt):
            it = list(v.fields)
            it[i] = putp(it[i], rest, new)
            return Adt(v.name, v.variant, it, v.names)
        if isinstance(v, Clos):
            it = list(v.caps)
            it[i] = putp(it[i], rest, new)
            return Clos(v.fn, it)
    if k == 'box':
        return BoxV(putp(v.v, rest, new))
    if k == 'vr':
        return ValRef(putp(v.v, rest, new))
    if k == 'n':
        return v.with_n(new)
    if k == 'start':
        return v.repl(start=new)
    raise Unsupported('loop path')


# ------------------------------------------------------------ enum shapes
def enum_variants(*vals):
    out = {}
    for v in vals:
        for _, a in alts(v):
            if a.variant not in out:
                out[a.variant] = a
    return out


def flat(v, out):
    """scalar components of a plain value, or Unsupported."""
    if is_expr(v):
        out.append(v)
    elif isinstance(v, (Tup,)):
        for x in v.items:
            flat(x, out)
    elif isinstance(v, Adt):
        for x in v.fields:
            flat(x, out)
    elif isinstance(v, Opq):
        out.append(v.term)
    elif isinstance(v, (ValRef, BoxV)):
        flat(v.v, out)
    elif isinstance(v, FnItem):
        pass
    elif isinstance(v, Alt) and v.name == 'ErrorKind' and all(not a.fields for _, a in v.alts):
        out.append(kind_tag(v))
    else:
        raise Unsupported('loop state of type %s' % type(v).__name__)
    return out


KINDS = []


def kind_tag(v):
    """a payload-free enum value as a number"""
    t = None
    for g, a in reversed(v.alts):
        if a.variant not in KINDS:
            KINDS.append(a.variant)
        k = IntVal(KINDS.index(a.variant))
        t = k if t is None else ite(g, k, t)
    return z3.simplify(t)


def kind_flags(v):
    """which components of flat(v) are numbers of payload-free variants"""
    if isinstance(v, (Tup, Adt)):
        return [k for x in (v.items if isinstance(v, Tup) else v.fields) for k in kind_flags(x)]
    if isinstance(v, (ValRef, BoxV)):
        return kind_flags(v.v)
    return [isinstance(v, Alt)] * len(flat(v, []))


def unflat(v, it):
    if is_expr(v):
        return next(it)
    if isinstance(v, Alt):
        t = next(it)
        return mkalt(v.name, [(t == k if k + 1 < len(KINDS) else t >= k, Adt(v.name, nm, [])) for k, nm in enumerate(KINDS)])
    if isinstance(v, Tup):
        return Tup([unflat(x, it) for x in v.items])
    if isinstance(v, Adt):
        return Adt(v.name, v.variant, [unflat(x, it) for x in v.fields], v.names)
    if isinstance(v, Opq):
        return Opq(next(it), v.role, v.aux)
    if isinstance(v, ValRef):
        return ValRef(unflat(v.v, it))
    if isinstance(v, BoxV):
        return BoxV(unflat(v.v, it))
    return v


class EnumShape:
    def __init__(self, name, variants):
        self.name, self.vs = name, variants
        self.order = list(variants)

    def split(self, v, dflt):
        """tag and payload scalars of v; payloads of absent variants come from dflt."""
        tag = None
        by = {}
        lst = alts(v)
        for g, a in reversed(lst):
            k = IntVal(self.order.index(a.variant))
            tag = k if tag is None else ite(g, k, tag)
            by[a.variant] = a
        out = [z3.simplify(tag)]
        pos = 1
        for nm in self.order:
            n = len(flat(self.vs[nm], []))
            if nm in by:
                x = flat(by[nm], [])
                if len(x) != n:
                    raise Unsupported('loop state changes shape')
                out += x
            else:
                out += dflt[pos:pos + n]
            pos += n
        return out

    def join(self, ts):
        tag = ts[0]
        it = iter(ts[1:])
        out = []
        n = len(self.order)
        for k, nm in enumerate(self.order):
            a = unflat(self.vs[nm], it)
            g = tag == k if k + 1 < n else Not(Or(*[tag == j for j in range(k)])) if k else TRUE
            out.append((z3.simplify(g), a))
        return mkalt(self.name, out)


# ------------------------------------------------------------ summary
def shift_of(w, p):
    """w = s*p + c with s = +-1 and c free of p -> (s, c)"""
    c = z3.simplify(w - p, som=True)
    if not has_const(c, p):
        return 1, c
    c = z3.simplify(w + p, som=True)
    if not has_const(c, p):
        return -1, c
    return None


def inverse_of(w, p):
    """the inverse of p -> w, where it is a translation or a reflection (chosen by conditions free of p)"""
    if z3.is_app_of(w, z3.Z3_OP_ITE) and not has_const(w.arg(0), p):
        a, b = inverse_of(w.arg(1), p), inverse_of(w.arg(2), p)
        return a and b and (lambda j: If(w.arg(0), a(j), b(j)))
    sc = shift_of(w, p)
    return sc and (lambda j: z3.simplify((j - sc[1]) if sc[0] == 1 else (sc[1] - j)))


def cnum(c):
    nm = c.decl().name()
    k = nm.rfind('!')
    if k >= 0 and nm[k + 1:].isdigit():
        return int(nm[k + 1:])
    return -1


class Leaves(Exception):
    """a loop that some iteration may leave before its bound"""


class Summ:
    stay = None     # what holds of an iteration that is not the last
    known = ()      # counters in terms of the iteration number

    def __init__(self, ex, st0, p, contig, ordered, dom, N, body, name='loop', domfree=None):
        self.ex, self.st0, self.p, self.contig, self.ordered = ex, st0, p, contig, ordered
        self.dom, self.N, self.body, self.name = dom, N, body, name
        self.leaves = {}
        self.mark = next(_t._cnt)

    # -- running the body
    def state(self, mode):
        s = self.st0.fork()
        for (cell, path), lf in self.leaves.items():
            v = s.cells[cell]
            s.cells[cell] = putp(v, path, self.value(lf, mode, getp_or(s.cells[cell], path, lf)))
        return s

    def value(self, lf, mode, cur):
        """value of a leaf: havoc | prefix | final"""
        if lf.kind == 'dead' or lf.dead:
            return Poison('loop state not summarised (%s)' % (lf.why if hasattr(lf, 'why') else lf.kind))
        if lf.kind in ('scalar', 'opq', 'enum'):
            # an unsummarised value before an arbitrary iteration is arbitrary (the havoc constant)
            ts = [sv.h if mode == 'havoc' or (mode == 'prefix' and sv.pre is None) else sv.pre if mode == 'prefix' else sv.fin for sv in lf.svs]
            if any(t is None for t in ts):
                return Poison('loop state not summarised')
            if lf.kind == 'scalar':
                return ts[0]
            if lf.kind == 'opq':
                return Opq(ts[0], lf.init.role, lf.init.aux)
            return lf.shape.join(ts)
        if lf.kind in ('arr', 'map', 'mat'):
            v = lf.hval if mode == 'havoc' else lf.pre if mode == 'prefix' else lf.fin
            if v is None:
                return Poison('loop state not summarised')
            if lf.kind == 'arr' and isinstance(cur, Arr):
                return v.with_n(cur.n)
            return v
        if lf.kind == 'phase':
            return lf.init.repl(phase=('head', self.p, self.more)) if mode != 'final' else lf.init.repl(phase='done')
        raise Unsupported('loop state %s' % lf.kind)

    def add_leaf(self, cell, path, kind, init, after):
        lf = Leaf(cell, path, kind, init)
        nm = str(path[-1][0]) if path else 'c'
        if kind == 'scalar':
            lf.svs = [SV(init, nm)]
        elif kind == 'opq':
            lf.svs = [SV(init.term, nm)]
        elif kind == 'enum':
            lf.shape = EnumShape(init.name, enum_variants(init, after))
            try:
                dflt = [IntVal(0)]
                for v in lf.shape.order:
                    dflt += [fresh('hv_dead', t.sort()) for t in flat(lf.shape.vs[v], [])]
                lf.svs = [SV(t, nm) for t in lf.shape.split(init, dflt)]
                for sv, d in zip(lf.svs[1:], dflt[1:]):
                    sv.undef = sv.init.eq(d)
                ks = [k for v in lf.shape.order for k in kind_flags(lf.shape.vs[v])]
                for sv, k in zip(lf.svs[1:], ks):
                    sv.is_kind = k
            except Unsupported as e:
                lf.dead, lf.why = True, str(e)
        elif kind == 'arr':
            self.mk_arr(lf, init)
        elif kind == 'map':
            self.mk_map(lf, init)
        elif kind == 'mat':
            self.mk_mat(lf, init)
        elif kind == 'phase':
            pass
        else:
            lf.dead, lf.why = True, 'value of a type that cannot be summarised'
        self.leaves[(cell, path)] = lf

    def mk_arr(self, lf, init):
        x = fresh('hx', I)
        try:
            smp = init.get(x)
        except Unsupported:
            smp = Poison('elements')
        if isinstance(smp, (Poison, Uninit, MaybeInit)):
            el = smp if isinstance(smp, Uninit) else Poison('element modified in a loop')
            lf.hfun = None
        else:
            el = havoc_like(smp, [x], 'ha')
            lf.hfun = True
        lf.hx, lf.hel = x, el

        def get(i):
            lf.reads.append(i)
            return vsubst(el, [(x, i)]) if lf.hfun else el
        lf.hval = Arr(init.n, get, init.std, init.kind)

    def mk_map(self, lf, init):
        d = fresh_fun('hd', I, B)
        x = fresh('hx', I)
        try:
            smp = init.val(x)
        except Unsupported:
            smp = Poison('elements')
        el = Poison('map') if isinstance(smp, Poison) else havoc_like(smp, [x], 'hm')
        lf.hx, lf.hel, lf.hd = x, el, d

        def dom(k):
            lf.reads.append(k)
            return d(k)

        def val(k):
            lf.reads.append(k)
            return vsubst(el, [(x, k)]) if not isinstance(el, Poison) else el
        lf.hval = MapV(dom, val, kind=init.kind)

    def mk_mat(self, lf, init):
        h = fresh_fun('hM', I, I, R)
        lf.hM = h

        def get(i, j):
            lf.reads.append(j)
            return h(i, j)
        lf.hval = Mat(init.nr, init.nc, get, init.std)

    def discover(self):
        ex = self.ex
        ex.mute += 1
        try:
            for _ in range(12):
                s1 = self.state('havoc')
                for c in self.pc():
                    s1 = s1.assume(c)
                s1n = s1.fork()
                s2, cont = self.body(s1)
                new = []
                for cell in self.st0.cells:
                    if cell not in s2.cells:
                        continue
                    for path, kind, a, b in diff(s1n.cells[cell], s2.cells[cell]):
                        key = (cell, path)
                        if key in self.leaves:
                            continue
                        # inside an already havocked leaf (enum payload etc.): ignore
                        if any(cell == c and path[:len(q)] == q and self.leaves[(c, q)].kind in ('enum', 'dead') for (c, q) in self.leaves):
                            continue
                        if any(cell == c and path[:len(q)] == q and self.leaves[(c, q)].dead for (c, q) in self.leaves):
                            continue
                        if any(cell == c and path == q for (c, q) in self.leaves):
                            continue
                        new.append((cell, path, kind, a, b))
                if not new:
                    return s1n, s2, cont
                for cell, path, kind, a, b in new:
                    init = getp(self.st0.cells[cell], path)
                    if isinstance(init, Poison) and kind != 'other':
                        kind = 'other'
                    # a shape change above existing leaves removes them
                    for k in [k for k in self.leaves if k[0] == cell and k[1][:len(path)] == path and kind in ('other', 'enum')]:
                        del self.leaves[k]
                    self.add_leaf(cell, path, kind, init, b)
            raise Unsupported('loop state does not stabilise')
        finally:
            ex.mute -= 1

    def pc(self):
        r = [self.p >= 0] if self.contig and self.N is None else [self.dom(self.p)]
        # an iteration that does not go on changes nothing in the final values
        c = getattr(self, 'cont', None)
        if self.contig and self.N is None and is_expr(c):
            alts = [list(x.children()) if z3.is_and(x) else [x] for x in (c.children() if z3.is_or(c) else [c])]
            for x in alts[0]:
                if all(any(x.eq(y) for y in a) for a in alts[1:]):
                    x = z3.substitute(x, *self.sub) if self.sub else x
                    if not self.deps(x, self.unresolved):
                        r.append(x)
        return r + list(self.known) + ([self.stay(self.p)] if self.stay else [])

    # -- classification
    def classify(self, s1, s2, cont):
        ex, p = self.ex, self.p
        # contents that every iteration reads only where it writes itself
        self.sub, self.contmap, self.cont = [], {}, cont
        self.unresolved = {sv.h.get_id() for lf in self.leaves.values() for sv in lf.svs}
        # counters first: they say which element an iteration is about
        for (cell, path), lf in self.leaves.items():
            if lf.dead or lf.kind != 'scalar' or len(lf.svs) != 1 or lf.svs[0].h.sort() != I:
                continue
            sv = lf.svs[0]
            try:
                v = getp(s2.cells[cell], path)
            except (Unsupported, AttributeError, KeyError):
                continue
            if is_expr(v) and self.deps(v, self.unresolved) == {sv.h.get_id()} and consts_of(v) and all(c.eq(sv.h) for c in consts_of(v)):
                sv.f = v
                self.resolve(sv, True)
                if sv.kind == 'affine':
                    self.sub.append((sv.h, sv.pre))
                    self.unresolved.discard(sv.h.get_id())
                else:
                    sv.pre = None
        for (cell, path), lf in self.leaves.items():
            if not lf.dead and lf.kind in ('arr', 'map', 'mat'):
                try:
                    self.analyse(lf, getp(s2.cells[cell], path))
                except Unsupported:
                    pass
        svs = []
        for (cell, path), lf in self.leaves.items():
            if lf.dead or lf.kind not in ('scalar', 'opq', 'enum'):
                continue
            try:
                v = getp(s2.cells[cell], path)
                if isinstance(v, Poison):
                    raise Unsupported('poisoned')
                if lf.kind == 'scalar':
                    ts = [v]
                elif lf.kind == 'opq':
                    ts = [v.term]
                else:
                    ts = lf.shape.split(v, [sv.h for sv in lf.svs])
                for sv, t in zip(lf.svs, ts):
                    if sv.pre is None:
                        sv.f = rewrite(t, self.contmap) if self.contmap else t
            except (Unsupported, AttributeError, KeyError) as e:
                lf.dead, lf.why = True, str(e)
                continue
            svs += lf.svs
        hs = {sv.h.get_id(): sv for sv in svs}
        allh = {sv.h.get_id() for lf in self.leaves.values() for sv in lf.svs}
        sub = self.sub
        pending = [sv for sv in svs if sv.pre is None]
        self.cont, self.sub = cont, sub
        while pending:
            prog = False
            for sv in list(pending):
                if sv not in pending:
                    continue
                if sub:
                    sv.f = z3.substitute(sv.f, *sub)
                deps = self.deps(sv.f, allh - {s.h.get_id() for s in svs if s.pre is not None})
                others = deps - {sv.h.get_id()}
                if others:
                    continue
                if sv.h.get_id() in deps:
                    grp = self.absorbing(sv, allh)
                    if grp:
                        for s in grp:
                            sub.append((s.h, s.pre))
                            if s in pending:
                                pending.remove(s)
                        prog = True
                        continue
                self.resolve(sv, sv.h.get_id() in deps)
                pending.remove(sv)
                prog = True
                if sv.pre is not None:
                    sub.append((sv.h, sv.pre))
            if prog:
                continue
            # strongly connected group: joint fold
            grp = self.pick_scc(pending, allh)
            if grp is None or not (self.contig and self.ordered):
                for sv in pending:
                    sv.kind = 'none'
                break
            if any(self.has_content_reads(sv.f) for sv in grp) or any(self.strange(sv.f) for sv in grp):
                for sv in grp:
                    sv.kind = 'none'
                    pending.remove(sv)
                continue
            q = fresh('fp', I)
            steps = [z3.substitute(sv.f, (p, q)) for sv in grp]
            for j, sv in enumerate(grp):
                sv.kind = 'fold'
                sv.pre = bfold(j, p, q, [s.h for s in grp], steps, [s.init for s in grp], TRUE)
            for sv in grp:
                sub.append((sv.h, sv.pre))
                pending.remove(sv)
        self.sub = sub
        unresolved = {sv.h.get_id() for lf in self.leaves.values() for sv in lf.svs if sv.pre is None}
        self.unresolved = unresolved
        for lf in self.leaves.values():
            if lf.kind in ('scalar', 'opq', 'enum') and not lf.dead:
                pass

    def absorbing(self, tag, allh):
        """a two-way choice (Result, Option, flag) that stays as it is once it has left its initial
        variant: its tag says whether some earlier iteration left, its payload is that of the first."""
        lf = next((l for l in self.leaves.values() if l.kind == 'enum' and l.svs and l.svs[0] is tag), None)
        if lf is None or len(lf.shape.order) != 2 or not (self.contig and self.ordered):
            return None
        a = z3.simplify(tag.init)
        if not z3.is_int_value(a) or a.as_long() not in (0, 1):
            return None
        b = IntVal(1 - a.as_long())
        if flat(lf.shape.vs[lf.shape.order[a.as_long()]], []):
            return None
        h, p = tag.h, self.p
        if not self.valid(z3.substitute(tag.f, (h, b)) == b):
            return None
        leave = z3.simplify(z3.substitute(tag.f, (h, a)) == b)
        if not self.valid(Or(z3.substitute(tag.f, (h, a)) == b, z3.substitute(tag.f, (h, a)) == a)):
            return None
        pays = lf.svs[1:]
        new = []
        for s in pays:
            if not hasattr(s, 'f') or s.f is None:
                return None
            f = z3.substitute(s.f, *self.sub) if self.sub else s.f
            rg = And(s.h >= 0, s.h < len(KINDS)) if s.is_kind else TRUE
            if not self.valid(Implies(rg, z3.substitute(f, (h, b)) == s.h)):
                return None
            d = z3.simplify(z3.substitute(f, (h, a)))
            d = self.under(d, leave)
            new.append(d)
        for t in [leave] + new:
            if self.deps(t, allh) or self.strange(t) or self.has_content_reads(t):
                return None
        q = fresh('q', I)
        at = lambda e, x: z3.substitute(e, (p, x))
        hit = And(q >= 0, q < p, at(leave, q))
        tag.kind, tag.pre = 'leaves', ite(bany(q, hit), b, a)
        q2 = fresh('q', I)
        f = bfirst(q2, And(q2 >= 0, q2 < p, at(leave, q2)))
        for s, d in zip(pays, new):
            s.kind, s.pre = 'leaves', at(d, f)
        return lf.svs

    def under(self, e, c):
        """e where c is known to hold"""
        for k in (c.children() if z3.is_and(c) else [c]):
            e = z3.simplify(z3.substitute(e, (k.arg(0), FALSE) if z3.is_not(k) else (k, TRUE)))
        while z3.is_app_of(e, z3.Z3_OP_ITE):
            k, x, y = e.children()
            if self.valid(Implies(c, k)):
                e = x
            elif self.valid(Implies(c, Not(k))):
                e = y
            else:
                break
        return e

    def deps(self, e, ids):
        return {t.get_id() for t in subterms(e) if t.get_id() in ids} if ids else set()

    def pick_scc(self, pending, allh):
        ids = {sv.h.get_id(): sv for sv in pending}
        und = {h for h in allh if h not in ids and not any(s.h.get_id() == h and s.pre is not None for lf in self.leaves.values() for s in lf.svs)}
        g = {}
        for sv in pending:
            g[sv] = {ids[k] for k in self.deps(sv.f, set(ids))}
            if self.deps(sv.f, und):
                g[sv] = None
        best = None
        for sv in pending:
            seen, st = set(), [sv]
            okk = True
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if g[x] is None:
                    okk = False
                    break
                st += list(g[x])
            if okk and (best is None or len(seen) < len(best)):
                best = [s for s in pending if s in seen]
        return best

    def has_content_reads(self, e):
        """e mentions the havocked content of an array modified by this loop"""
        names = set()
        for lf in self.leaves.values():
            if lf.kind in ('arr', 'map', 'mat') and hasattr(lf, 'hval'):
                if lf.kind == 'mat':
                    names.add(lf.hM.name())
                else:
                    for t in scalars_deep(lf.hel):
                        if z3.is_app(t) and t.num_args():
                            names.add(t.decl().name())
                    if lf.kind == 'map':
                        names.add(lf.hd.name())
        if not names:
            return False
        for t in subterms(e):
            if z3.is_app(t) and t.decl().name() in names:
                return True
            if is_big(t) and big_mentions(bigdef(t), names):
                return True
        return False

    def strange(self, e):
        """constants created while running the body that are not functions of p"""
        for c in consts_of(e):
            if c.eq(self.p):
                continue
            n = cnum(c)
            if n >= self.mark and not c.decl().name().startswith('hv_'):
                return True
        return False

    def resolve(self, sv, selfdep):
        p, h, f = self.p, sv.h, sv.f
        sv.kind = 'none'
        if self.strange(f) or self.has_content_reads(f):
            return
        init = sv.init
        N = self.N
        D = self.dom(p) if not (self.contig and N is None) else None
        q = fresh('q', I)

        def at(e, x):
            return z3.substitute(e, (p, x))
        if not selfdep:
            if f.eq(init):
                sv.kind, sv.pre = 'const', init
                return
            if self.contig and self.ordered:
                sv.kind = 'last'
                sv.pre = ite(p > 0, z3.simplify(at(f, p - 1)), init)
                sv.undef_first = True
                return
            sv.kind = 'lastu'
            return
        if h.sort() in (R, I):
            zero = RealVal(0) if h.sort() == R else IntVal(0)
            d = som(z3.substitute(f, (h, zero)))
            if self.valid(f == h + d):
                if not has_const(d, p) and self.contig:
                    sv.kind, sv.d = 'affine', d
                    sv.pre = z3.simplify(init + d * (z3.ToReal(p) if h.sort() == R else p))
                    return
                sv.kind, sv.d = 'sum', d
                if self.contig:
                    sv.pre = init + bsum(q, And(q >= 0, q < p), at(d, q))
                elif self.ordered:
                    sv.pre = init + bsum(q, And(self.dom(q), q < p), at(d, q))
                return
        if h.sort() in (R, I):
            d = som(z3.substitute(f, (h, RealVal(1)))) if h.sort() == R else None
            if d is not None and self.valid(f == h * d):
                sv.kind, sv.d = 'prod', d
                if self.contig:
                    sv.pre = init * bprod(q, And(q >= 0, q < p), at(d, q))
                return
            m = self.max_form(f, h)
            if m is not None:
                sv.kind, sv.d = m
                op = 'max' if sv.kind == 'max' else 'min'
                if self.contig:
                    sv.pre = self.mx(op, init, bmax(q, And(q >= 0, q < p), at(sv.d, q), op), p > 0)
                return
        if h.sort() == B:
            d = z3.simplify(z3.substitute(f, (h, FALSE)))
            t = z3.simplify(z3.substitute(f, (h, TRUE)))
            if is_true(t):
                sv.kind, sv.d = 'any', d
                if self.contig:
                    sv.pre = z3.simplify(Or(init, bany(q, And(q >= 0, q < p, at(d, q)))))
                return
            if is_false(d):
                sv.kind, sv.d = 'all', t
                if self.contig:
                    sv.pre = z3.simplify(And(init, Not(bany(q, And(q >= 0, q < p, Not(at(t, q)))))))
                return
        if self.contig and self.ordered:
            q = fresh('fp', I)
            sv.kind = 'fold'
            sv.step = z3.substitute(f, (p, q))
            sv.q = q
            sv.pre = bfold(0, p, q, [h], [sv.step], [init], TRUE)

    def mx(self, op, a, b, some):
        if b.sort() == I:
            return ite(some, If(a >= b, a, b) if op == 'max' else If(a <= b, a, b), a)
        return fmax(a, b) if op == 'max' else FMIN(a, b)

    def max_form(self, f, h):
        if z3.is_app(f) and f.decl().name() in ('fmax', 'fmin'):
            a, b = f.children()
            k = 'max' if f.decl().name() == 'fmax' else 'min'
            if a.eq(h) and not has_const(b, h):
                return k, b
            if b.eq(h) and not has_const(a, h):
                return k, a
        if z3.is_app_of(f, z3.Z3_OP_ITE):
            c, a, b = f.children()
            e = b if a.eq(h) else a if b.eq(h) else None
            if e is not None and not has_const(e, h):
                if self.valid(f == If(h >= e, h, e)):
                    return 'max', e
                if self.valid(f == If(h <= e, h, e)):
                    return 'min', e
        return None

    def valid(self, g):
        g = z3.simplify(g, som=True)
        if is_true(g):
            return True
        if is_false(g):
            return False
        s = z3.Solver()
        s.set('timeout', 1500)
        for c in self.pc():
            s.add(c)
        s.add(Not(g))
        return s.check() == z3.unsat

    def finals(self):
        """values after the loop (N known for contiguous domains)."""
        p, N = self.p, self.N
        q = fresh('q', I)
        for lf in self.leaves.values():
            for sv in lf.svs:
                if sv.kind in (None, 'none', 'lastu'):
                    sv.fin = None
                    continue
                if self.contig and sv.pre is not None:
                    sv.fin = z3.simplify(z3.substitute(sv.pre, (p, N)))
                    continue
                g = self.dom(q)
                d = z3.substitute(sv.d, (p, q)) if hasattr(sv, 'd') else None
                if sv.kind == 'const':
                    sv.fin = sv.init
                elif sv.kind == 'sum':
                    sv.fin = sv.init + bsum(q, g, d)
                elif sv.kind == 'prod':
                    sv.fin = sv.init * bprod(q, g, d)
                elif sv.kind in ('max', 'min'):
                    sv.fin = self.mx(sv.kind, sv.init, bmax(q, g, d, sv.kind), bany(q, g))
                elif sv.kind == 'any':
                    sv.fin = z3.simplify(Or(sv.init, bany(q, And(g, d))))
                elif sv.kind == 'all':
                    sv.fin = z3.simplify(And(sv.init, Not(bany(q, And(g, Not(d))))))

    # -- arrays, maps, matrices
    def contents(self, s2):
        self.contmap = {}
        for (cell, path), lf in self.leaves.items():
            if not lf.dead and lf.kind in ('arr', 'map', 'mat'):
                try:
                    self.analyse(lf, getp(s2.cells[cell], path))
                except Unsupported:
                    pass
        for (cell, path), lf in self.leaves.items():
            if lf.dead or lf.kind not in ('arr', 'map', 'mat'):
                continue
            try:
                self.content(lf, getp(s2.cells[cell], path))
            except Unsupported as e:
                lf.dead, lf.why = True, str(e)

    def clean(self, v):
        """substitute resolved loop state; refuse unresolved state."""
        if self.sub:
            v = vsubst(v, self.sub)
        return v

    def check_term(self, e):
        self.check_state(e)
        if self.has_content_reads(e):
            raise Unsupported('loop reads what other iterations write')

    def check_state(self, e):
        if self.deps(e, self.unresolved):
            raise Unsupported('array written from unsummarised loop state')
        if self.strange(e):
            raise Unsupported('array written from a value chosen inside the loop')

    def analyse(self, lf, after):
        """writes of one iteration: the index written and [(guard, value)];
        registers that reads see the initial content when an iteration reads only what it writes itself."""
        if isinstance(after, Poison):
            raise Unsupported('array poisoned in loop')
        log = after.log(lf.hval)
        if log is None:
            raise Unsupported('array replaced in loop')
        writes = []
        w0 = None
        for g, w, v in log:
            g, w = z3.simplify(self.clean(g)), z3.simplify(self.clean(w))
            self.check_state(w)
            if w0 is None:
                w0 = w
            elif not self.valid(w == w0):
                raise Unsupported('array written at several places per iteration')
            writes.append((g, self.clean(v) if v is not None else None))
        # force evaluation so that reads are recorded
        for g, v in writes:
            if v is not None:
                force(v)
        if w0 is None:
            raise Unsupported('array log')
        reads = [z3.simplify(z3.substitute(r, *self.sub)) if self.sub else z3.simplify(r) for r in lf.reads]
        own = all(self.valid(Implies(self.dom_or_pos(), r == w0)) for r in uniq(reads))
        sc = inverse_of(w0, self.p)
        if own and sc is not None and has_const(w0, self.p):
            self.contmap.update(self.replacements(lf))
        return w0, writes, reads, own, sc

    def content(self, lf, after):
        p = self.p
        w0, writes, reads, own, sc = self.analyse(lf, after)
        init = lf.init
        if lf.kind == 'map' and sc is None:
            if any(v is None for _, v in writes) or not writes:
                raise Unsupported('map updated at computed keys')
            g, v = writes[0]
            for g2, v2 in writes[1:]:   # same key: the last write counts
                g, v = z3.simplify(Or(g, g2)), vite(g2, v2, v)
            return self.map_scatter(lf, w0, (g, v))
        if sc is None:
            raise Unsupported('array written at a non-invertible index')
        if not own:
            raise Unsupported('loop reads what other iterations write')
        if not has_const(w0, p):
            raise Unsupported('array written at a fixed index')

        def inv(j):
            return z3.simplify(sc(j))
        if lf.kind == 'arr':
            rep = self.rep
            wr = [(rep(g), rep(v)) for g, v in writes]
            for g, v in wr:
                for t in scalars_deep(v) + [g]:
                    self.check_term(t)

            def after_get(upto):
                def get(j):
                    pj = inv(j)
                    out = init.get(j)
                    for g, v in wr:
                        cond = z3.simplify(And(upto(pj), z3.substitute(g, (p, pj))))
                        out = vite(cond, vsubst(v, [(p, pj)]), out)
                    return out
                return get

            def pre_get(j):
                # state before iteration p: own location still has its initial value
                if self.valid(Implies(self.dom_or_pos(), j == w0)):
                    return init.get(j)
                if lf.hfun:
                    return vsubst(lf.hel, [(lf.hx, j)])
                return lf.hel
            lf.pre = Arr(init.n, pre_get, init.std, init.kind)
            lf.mkfin = lambda: Arr(init.n, after_get(self.fdom), init.std, init.kind)
        elif lf.kind == 'map':
            rep = self.rep
            wr = [(rep(g), rep(v) if v is not None else None) for g, v in writes]
            for g, v in wr:
                for t in (scalars_deep(v) if v is not None else []) + [g]:
                    self.check_term(t)

            def fin():
                def cond(k, g):
                    pk = inv(k)
                    return z3.simplify(And(self.fdom(pk), z3.substitute(g, (p, pk))))

                def dom(k):
                    d = init.dom(k)
                    for g, v in wr:
                        c_ = cond(k, g)
                        d = z3.simplify(And(d, Not(c_)) if v is None else Or(d, c_))
                    return d

                def val(k):
                    v0 = init.val(k)
                    for g, v in wr:
                        if v is not None:
                            v1 = vsubst(v, [(p, inv(k))])
                            c_ = cond(k, g)
                            v0 = v1 if isinstance(v0, Poison) else vite(c_, v1, v0)
                    return v0
                return MapV(dom, val, kind=init.kind)
            lf.mkfin = fin

            def pdom(k):
                if self.valid(Implies(self.dom_or_pos(), k == w0)):
                    return init.dom(k)
                return lf.hd(k)

            def pval(k):
                if self.valid(Implies(self.dom_or_pos(), k == w0)):
                    return init.val(k)
                return vsubst(lf.hel, [(lf.hx, k)]) if not isinstance(lf.hel, Poison) else lf.hel
            lf.pre = MapV(pdom, pval, kind=init.kind)
        else:
            h = lf.hM
            m = self.contmap
            wr = []
            for g, v in writes:
                wr.append((rewrite(g, m), Arr(v.n, lambda i, v=v: vmapi_(v, i, lambda t: rewrite(t, m)), v.std, v.kind)))
            x = fresh('ix', I)
            for g, v in wr:
                for t in scalars_deep(v.get(x)) + [g]:
                    self.check_term_except(t, x)

            def get(i, j):
                pj = inv(j)
                out = init.get(i, j)
                for g, v in wr:
                    c_ = z3.simplify(And(self.fdom(pj), z3.substitute(g, (p, pj))))
                    out = ite(c_, z3.substitute(v.get(i), (p, pj)), out)
                return out
            lf.mkfin = lambda: Mat(init.nr, init.nc, get, init.std)

            def pre(i, j):
                if self.valid(Implies(self.dom_or_pos(), j == w0)):
                    return init.get(i, j)
                return h(i, j)
            lf.pre = Mat(init.nr, init.nc, pre, init.std)

    def check_term_except(self, e, x):
        y = fresh('y', I)
        self.check_term(z3.substitute(e, (x, self.p)))

    def replacements(self, lf):
        """functions standing for the content before an iteration -> initial content"""
        init = lf.init
        if lf.kind == 'mat':
            return {lf.hM.name(): lambda i, j: init.get(i, j)}
        m = {}
        for k, t in enumerate(scalars_deep(lf.hel)):
            if z3.is_app(t) and t.num_args():
                def mk(k):
                    def f(*a):
                        x = a[0]
                        if len(a) > 1:
                            raise Unsupported('nested content')
                        v = init.get(x) if lf.kind == 'arr' else init.val(x)
                        return scalars_deep(v)[k]
                    return f
                m[t.decl().name()] = mk(k)
        if lf.kind == 'map':
            m[lf.hd.name()] = lambda k: init.dom(k)
        return m

    def rep(self, v):
        m = self.contmap
        return vmap(v, lambda t: rewrite(t, m)) if m else v

    def dom_or_pos(self):
        return self.p >= 0 if self.contig and self.N is None else self.dom(self.p)

    def fdom(self, x):
        if self.contig:
            return And(x >= 0, x < self.N)
        return self.dom(x)

    def map_scatter(self, lf, w0, write):
        p, init = self.p, lf.init
        g, v = write
        for t in [g, w0] + scalars_deep(v):
            self.check_term(t)
        if self.has_content_reads(g) or self.has_content_reads(w0) or any(self.has_content_reads(t) for t in scalars_deep(v)):
            raise Unsupported('map updated from its own content')
        q = fresh('q', I)

        def fin():
            def hit(k):
                return And(self.fdom(q), z3.substitute(g, (p, q)), z3.substitute(w0, (p, q)) == k)

            def dom(k):
                return z3.simplify(Or(init.dom(k), bany(q, hit(k))))

            def val(k):
                try:
                    v0 = init.val(k)
                except Unsupported:
                    v0 = Poison('absent')
                wit = bwit(q, hit(k))
                v1 = vsubst(v, [(p, wit)])
                if isinstance(v0, Poison) or is_false(init.dom(k)):
                    return v1
                return vite(bany(q, hit(k)), v1, v0)
            return MapV(dom, val, kind=init.kind)
        lf.mkfin = fin
        lf.pre = lf.hval

    # -- all together
    def examine(self, twice):
        s1, s2, cont = self.discover()
        self.classify(s1, s2, cont)
        if twice:
            # again, knowing where the counters stand in iteration p
            svs = [sv for lf in self.leaves.values() if not lf.dead for sv in lf.svs]
            self.known = [sv.h == sv.pre for sv in svs if sv.kind == 'affine']
            for sv in svs:
                sv.pre, sv.kind = None, None
            s1, s2, cont = self.discover()
            self.classify(s1, s2, cont)
        return s1, s2, cont

    def run(self, N_from_cont=False):
        ex = self.ex
        self.more = fresh('more', B)
        s1, s2, cont = self.examine(self.stay is not None)
        if self.contig and self.N is None:
            c = z3.simplify(z3.substitute(cont, *self.sub)) if self.sub else z3.simplify(cont)
            self.N = self.find_N(c)
            Nn = self.N
            self.dom = lambda x: And(x >= 0, x < Nn)
        self.contents(s2)
        self.finals()
        for lf in self.leaves.values():
            if lf.kind in ('arr', 'map', 'mat') and not lf.dead and getattr(lf, 'mkfin', None):
                lf.fin = lf.mkfin()
        # obligations of an arbitrary iteration
        sp = self.state('prefix')
        for c in self.pc():
            sp = sp.assume(c)
        if ex.feasible(sp, TRUE):
            self.body(sp)
        out = self.state('final')
        if self.contig:
            out = out.fact(self.N >= 0)
        return out

    def leaving(self):
        """the condition under which iteration x (below the given bound) is the last, and the bounded
        'some iteration leaves' and 'the first that leaves'"""
        s1, s2, cont = self.examine(True)
        c = z3.simplify(z3.substitute(cont, *self.sub)) if self.sub else z3.simplify(cont)
        if self.strange_cont(c) or self.has_content_reads(c):
            raise Unsupported('loop left early depending on unsummarised state')
        q = fresh('q', I)

        def leave(x):
            return z3.simplify(Not(z3.substitute(c, (self.p, x))))
        cond = And(q >= 0, q < self.N, leave(q))
        return leave, bany(q, cond), bfirst(q, cond)

    def find_N(self, c):
        p = self.p
        if self.strange_cont(c):
            raise Unsupported('loop condition depends on unsummarised state')
        cands = []
        for t in subterms(c):
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and t.arg(0).sort() == I:
                e = z3.simplify(t.arg(0) - t.arg(1), som=True)
                sh = shift_of(e, p)
                if sh:
                    s, k = sh
                    base = z3.simplify(-k if s == 1 else k)
                    cands += [base, z3.simplify(base + 1), z3.simplify(base - 1)]
        for b in cands:
            if has_const(b, p):
                continue
            N = z3.simplify(If(b >= 0, b, IntVal(0)))
            if self.valid2(c == (p < N)):
                return N if not self.valid2(b >= 0) else b
        # a loop that may be left before its bound: it runs up to the first iteration that leaves
        for b in cands:
            if has_const(b, p):
                continue
            N = z3.simplify(If(b >= 0, b, IntVal(0)))
            if self.valid2(Implies(c, p < N)) and not self.valid2(Implies(c, p < N - 1)):
                if self.valid2(b >= 0):
                    N = b
                raise Leaves(N)
        raise Unsupported('trip count of loop not found')

    def strange_cont(self, c):
        return bool(self.deps(c, self.unresolved)) or self.strange(c)

    def valid2(self, g):
        s = z3.Solver()
        s.set('timeout', 1500)
        for c in self.st0.hyp():
            s.add(c)
        s.add(self.p >= 0)
        s.add(Not(g))
        return s.check() == z3.unsat


def spec_fold(n, p, acc, step, init):
    """left fold over positions 0..n-1: acc := step(acc, p)"""
    return bfold(0, n, p, [acc], [step], [init], TRUE)


def vmapi_(v, i, f):
    x = fresh('ix', I)
    return z3.substitute(f(v.get(x)), (x, i))


def getp_or(v, path, lf):
    try:
        return getp(v, path)
    except Exception:
        return None


def uniq(ts):
    seen, out = set(), []
    for t in ts:
        if t.get_id() not in seen:
            seen.add(t.get_id())
            out.append(t)
    return out


def force(v):
    scalars_deep(v)


def scalars_deep(v, out=None):
    if out is None:
        out = []
    if is_expr(v):
        out.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            scalars_deep(x, out)
    elif isinstance(v, Adt):
        for x in v.fields:
            scalars_deep(x, out)
    elif isinstance(v, Alt):
        for g, a in v.alts:
            out.append(g)
            scalars_deep(a, out)
    elif isinstance(v, Arr):
        out.append(v.n)
        try:
            scalars_deep(v.get(fresh_probe()), out)
        except Unsupported:
            pass
    elif isinstance(v, MapV):
        k = fresh_probe()
        out.append(v.dom(k))
        scalars_deep(v.val(k), out)
    elif isinstance(v, Mat):
        scalars_deep(v.get(fresh_probe(), fresh_probe()), out)
    elif isinstance(v, (ValRef, BoxV)):
        scalars_deep(v.v, out)
    elif isinstance(v, Opq):
        out.append(v.term)
    elif isinstance(v, MaybeInit):
        out.append(v.c)
        scalars_deep(v.a, out)
        scalars_deep(v.b, out)
    elif isinstance(v, Clos):
        for x in v.caps:
            scalars_deep(x, out)
    return out


_probe = [0]


def fresh_probe():
    # probes are universally quantified indices, never counted as values chosen by the body
    _probe[0] += 1
    return z3.Const('probe%d' % _probe[0], I)


# ------------------------------------------------------------ entry points
def each(ex, st, it, body, name='each'):
    """run body(st, v, p) -> st for every element of the iterator value `it`."""
    if it.contig:
        if it.n is INF:
            raise Unsupported('consuming an endless iterator')
        N = z3.simplify(it.n - it.start)
        if z3.is_int_value(N) and N.as_long() <= 6:
            s = st
            for k in range(max(0, N.as_long())):
                s, v = it.elem(ex, s, z3.simplify(it.start + k))
                s = body(s, v, IntVal(k))
            return s
        if not ex.implied(st, N >= 0):
            N = z3.simplify(If(N >= 0, N, IntVal(0)))
        p = fresh('p', I)

        def b(s):
            s, v = it.elem(ex, s, z3.simplify(it.start + p))
            return body(s, v, p), TRUE
        sm = Summ(ex, st, p, True, it.ordered, lambda x: And(x >= 0, x < N), N, b, name)
        return sm.run()
    if it.phase != 'init':
        raise Unsupported('partially consumed iterator')
    p = fresh('p', I)

    def b(s):
        s, v = it.elem(ex, s, p)
        return body(s, v, p), TRUE
    sm = Summ(ex, st, p, False, it.ordered, lambda x: it.dom(x), None, b, name)
    return sm.run()


UNROLL = 8


def mir_loop(ex, fr, head, body, st, heads, within):
    keep = len(ex.obls), ex.mute, list(ex.stack)
    try:
        return summarised(ex, fr, head, body, st, heads, within)
    except Unsupported:
        mute, stack = ex.mute, ex.stack
        n, ex.mute, ex.stack = keep[0], keep[1], list(keep[2])
        rest = ex.obls[n:]
        del ex.obls[n:]
        r = unrolled(ex, fr, head, body, st, heads, within)
        if r is not None:
            return r
        ex.mute, ex.stack = keep[1], list(keep[2])
        del ex.obls[n:]
        from exec import panicking
        dead = panicking(fr.fn, body)
        if dead:
            try:
                return summarised(ex, fr, head, body | dead, st, heads, within, True)
            except Unsupported:
                pass
        ex.obls[n:] = rest
        ex.mute, ex.stack = mute, stack
        raise


def unrolled(ex, fr, head, body, st, heads, within):
    """a loop that makes a known, small number of iterations: each is executed in turn, until none
    follows; None if the number is not known"""
    marker = (fr.id, head)
    s = st
    try:
        for _ in range(UNROLL):
            s = s.fork()
            s.cells[marker] = UNIT
            outs = ex.run(fr, head, s, heads | {head}, body)
            back = [o for o in outs if o[0] == 'back' and o[1] == head and ex.feasible(o[2], TRUE)]
            rest = [o for o in outs if not (o[0] == 'back' and o[1] == head) and ex.feasible(o[2], TRUE)]
            if not back:
                return finish(ex, sole(s, rest), marker, within, heads)
            if rest:
                return None
            s, _v = ex.merge(s, [(o[2], UNIT) for o in back])
            s = s.fork()
            s.cells.pop(marker, None)
    except Unsupported:
        pass
    return None


def summarised(ex, fr, head, body, st, heads, within, widened=False):
    marker = (fr.id, head)
    inner = heads | {head}
    # which iterators drive the loop: decided by whether a non-contiguous iterator changes phase
    noncontig = {}

    def runbody(s):
        s = s.fork()
        nb, nf = len(s.pc), len(s.facts)
        s.cells[marker] = UNIT
        panics = ex.panics
        outs = ex.run(fr, head, s, inner, body)
        panics = ex.panics > panics
        backs, exits = [], []
        for o in outs:
            if o[0] == 'back' and o[1] == head:
                backs.append(o[2])
            else:
                exits.append(o)
        if not backs:
            raise NoBack(exits)
        for o in backs:
            o.cells.pop(marker, None)
        s2, _ = ex.merge(s, [(x, UNIT) for x in backs])
        cont = z3.simplify(disj(*[conj(*x.pc[nb:]) for x in backs]))
        if panics and widened:
            # a path that ends in a panic is an obligation of its own, not a way out of the loop
            cont = z3.simplify(neg(disj(*[conj(*x[2].pc[nb:]) for x in exits])))
        return s2, cont, exits, nb

    class NoBack(Exception):
        pass

    p = fresh('p', I)
    # probe: does a non-contiguous iterator drive the loop?
    nc = []
    for c, v in st.cells.items():
        for path, itv in iters_in(v):
            if not itv.contig and itv.phase == 'init':
                nc.append((c, path, itv))

    def plain(s):
        s2, cont, ex_, nb = runbody(s)
        plain.exits = ex_
        return s2, cont
    drivers = []
    if nc:
        # mark each as being at a loop head and see which one advances
        ex.mute += 1
        try:
            for c, path, itv in nc:
                s = st.fork()
                mr = fresh('more', B)
                s.cells[c] = putp(s.cells[c], path, itv.repl(phase=('head', p, mr)))
                s = s.assume(mr)
                try:
                    s2, cont, _, _ = runbody(s)
                except NoBack as e:
                    if not e.args[0]:
                        drivers.append((c, path, itv))   # no way through the body: it must be unreachable
                    continue
                except Unsupported:
                    continue
                try:
                    if getp(s2.cells[c], path).phase != getp(s.cells[c], path).phase:
                        drivers.append((c, path, itv))
                except (Unsupported, AttributeError, KeyError):
                    pass
        finally:
            ex.mute -= 1
    if len(drivers) > 1:
        raise Unsupported('several unordered iterators drive one loop')
    if drivers:
        c, path, itv = drivers[0]
        s0 = st.fork()

        def b(s):
            s = s.fork()
            s.cells[c] = putp(s.cells[c], path, itv.repl(phase=('head', p, TRUE)))
            try:
                s2, cont, exits, nb = runbody(s)
            except NoBack as e:
                if e.args[0]:
                    raise Unsupported('loop over an unordered collection always left early')
                ex.oblige(s, 'an iteration that cannot complete does not start', FALSE, 'panic')
                s2, cont, exits = s.fork(), TRUE, []
            if any(ex.feasible(o[2], TRUE) for o in exits):
                b.early = cont
            s2 = s2.fork()
            s2.cells[c] = putp(s2.cells[c], path, itv)
            return s2, TRUE
        b.early = None
        sm = Summ(ex, s0, p, False, itv.ordered, lambda x: itv.dom(x), None, b, 'loop')
        out = sm.run()
        if b.early is not None:
            return search(ex, fr, head, body, st, heads, within, c, path, itv, sm, p, b.early, marker)
        out = out.fork()
        out.cells[c] = putp(out.cells[c], path, itv.repl(phase='done'))
    else:
        def b(s):
            s2, cont, exits, nb = runbody(s)
            b.exits, b.nb = exits, nb
            return s2, cont
        try:
            sm = Summ(ex, st, p, True, True, None, None, b, 'loop')
            out = sm.run()
        except Leaves as e:
            # every iteration up to the bound stays, or the first one that leaves comes after ones that stay
            N = e.args[0]
            leave, hit, T = Summ(ex, st, p, True, True, lambda x: And(x >= 0, x < N), N, b, 'loop').leaving()
            fin = []
            for s, n, done in ((st.assume(Not(hit)), N, True), (st.assume(hit).fact(And(T >= 0, T < N, leave(T))), T, False)):
                sm = Summ(ex, s, p, True, True, lambda x, n=n: And(x >= 0, x < n), n, b, 'loop')
                sm.stay = lambda x: Not(leave(x))
                s = sm.run().fork()
                if b.exits:
                    raise Unsupported('loop left early')
                s.cells[marker] = UNIT
                # no way back: leave(T), or the bound is reached
                fin += sole(s, [o for o in ex.run(fr, head, s, inner, body) if o[0] != 'back' or o[1] != head])
            return finish(ex, fin, marker, within, heads)
        except NoBack:
            # the body never comes back: execute it once
            s = st.fork()
            s.cells[marker] = UNIT
            res = ex.run(fr, head, s, inner, body)
            return finish(ex, res, marker, within, heads)
    # leave the loop: run the head once more from the final state
    s = out.fork()
    s.cells[marker] = UNIT
    res = ex.run(fr, head, s, inner, body)
    fin = []
    for o in res:
        if o[0] == 'back' and o[1] == head:
            if ex.feasible(o[2], TRUE):
                raise Unsupported('loop exit not established')
            continue
        fin.append(o)
    # an exit inside an iteration other than by the loop condition is an early exit
    if not drivers and not early_free(ex, sm, b):
        raise Unsupported('loop left early')
    return finish(ex, fin, marker, within, heads)


def sole(s, outs):
    """the only possible outcome: the conditions on its path are facts"""
    if len(outs) == 1:
        o = outs[0]
        t = o[2].fork()
        t.facts = t.facts + t.pc[len(s.pc):]
        t.pc = s.pc
        return [(o[0], o[1], t)]
    return outs


def search(ex, fr, head, body, st, heads, within, c, path, itv, sm, p, cont, marker):
    """a loop over an unordered collection that changes nothing and is left at some element: at an
    arbitrary element that leaves it, or after the last when none does."""
    if any(not lf.dead for lf in sm.leaves.values()) or sm.strange(cont):
        raise Unsupported('loop over an unordered collection changes state and is left early')

    def leave(x):
        return And(itv.dom(x), Not(z3.substitute(cont, (p, x))))
    q = fresh('q', I)
    hit = bany(q, leave(q))
    w = fresh('some', I)
    res = []
    for s, ph in ((st.assume(hit).fact(leave(w)), ('head', w, TRUE)), (st.assume(Not(hit)), 'done')):
        s = s.fork()
        s.cells[marker] = UNIT
        s.cells[c] = putp(s.cells[c], path, itv.repl(phase=ph))
        # no way back: leave(w), or no element is left
        res += sole(s, [o for o in ex.run(fr, head, s, heads | {head}, body) if o[0] != 'back' or o[1] != head])
    return finish(ex, res, marker, within, heads)


def early_free(ex, sm, b):
    """in the run of an arbitrary iteration p < N, no exit is feasible."""
    return not b.exits


def finish(ex, outs, marker, within, heads):
    res = []
    for o in outs:
        s = o[2].fork()
        s.cells.pop(marker, None)
        if o[0] == 'exit':
            if o[1] in heads:
                res.append(('back', o[1], s))
            elif within is not None and o[1] not in within:
                res.append(('exit', o[1], s))
            else:
                res.append(('goto', o[1], s))
        else:
            res.append((o[0], o[1], s))
    return res


def iters_in(v, path=()):
    if isinstance(v, Iter):
        yield path, v
    elif isinstance(v, Tup):
        for i, x in enumerate(v.items):
            yield from iters_in(x, path + (('f', i),))
    elif isinstance(v, Adt):
        for i, x in enumerate(v.fields):
            yield from iters_in(x, path + (('f', i),))
