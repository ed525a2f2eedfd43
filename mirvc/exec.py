"""Symbolic executor / verification-condition generator over MIR."""
import re
import itertools
import z3
from terms import *
from values import *
import mirparse


EXACT = 'floating-point arithmetic is treated as exact real arithmetic (no rounding, overflow or NaN)'
TOTAL = 'floating-point comparisons do not meet NaN'


class Diverges(Exception):
    """no normal return path (all paths panic)."""


class Budget(Unsupported):
    pass


_fid = itertools.count()

ENUMS = {
    'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
    'Dim': ['Finite', 'Infinite'], 'Card': ['Finite', 'Infinite'],
    'Entry': ['Occupied', 'Vacant'], 'Cow': ['Borrowed', 'Owned'],
}
DISCR = {('Ordering', 'Less'): -1, ('Ordering', 'Equal'): 0, ('Ordering', 'Greater'): 1}


def has_ref(v):
    if isinstance(v, (Ref, ValRef)):
        return True
    if isinstance(v, Tup):
        return any(has_ref(x) for x in v.items)
    if isinstance(v, Adt):
        return any(has_ref(x) for x in v.fields)
    if isinstance(v, Alt):
        return any(has_ref(x) for _, x in v.alts)
    return False


class State:
    __slots__ = ('cells', 'pc', 'facts')

    def __init__(self, cells=None, pc=(), facts=()):
        self.cells = dict(cells or {})
        self.pc, self.facts = tuple(pc), tuple(facts)

    def fork(self):
        return State(self.cells, self.pc, self.facts)

    def assume(self, c):
        s = self.fork()
        c = z3.simplify(c)
        if not is_true(c):
            s.pc = s.pc + (c,)
        return s

    def fact(self, c):
        s = self.fork()
        if not is_true(c):
            s.facts = s.facts + (c,)
        return s

    def hyp(self):
        return list(self.pc) + list(self.facts)


class Obl:
    def __init__(self, name, hyp, goal, kind, where):
        self.name, self.hyp, self.goal, self.kind, self.where = name, hyp, goal, kind, where


class Frame:
    def __init__(self, fn):
        self.fn, self.id = fn, next(_fid)
        self.done = set()

    def cell(self, n):
        return ('L', self.id, n)


def norm(s):
    return re.sub(r"\s+", ' ', s)


def last_seg(path):
    """last path segment of a type path, without generics."""
    path = path.strip()
    while path.startswith(('&', '*')):
        path = re.sub(r"^(&'\w+ mut |&'\w+ |&mut |&|\*const |\*mut )", '', path)
    if path.startswith('['):
        return '[]'
    if path.startswith('('):
        return '()'
    if path.startswith('{closure'):
        return '{closure}'
    m = re.match(r"^((?:[\w]+::)*)([\w]+)", path)
    return m.group(2) if m else path


class Callee:
    __slots__ = ('raw', 'selfty', 'trait', 'traitargs', 'method', 'path', 'generics')

    def __repr__(self):
        return 'Callee(%s|%s|%s|%s)' % (self.selfty, self.trait, self.method, self.path)


def parse_callee(t):
    c = Callee()
    c.raw = t
    c.selfty = c.trait = c.traitargs = None
    c.generics = ''
    t = t.strip()
    # strip trailing ::<...>
    if t.endswith('>'):
        d = 0
        k = len(t) - 1
        while k >= 0:
            if t[k] == '>' and t[k - 1] not in '-=':
                d += 1
            elif t[k] == '<':
                d -= 1
                if d == 0:
                    break
            k -= 1
        if t[k - 2:k] == '::' and not t[k:].startswith('<impl '):
            c.generics = t[k + 1:-1]
            t = t[:k - 2]
    if t.startswith('<') and not t.startswith('<impl '):
        j = mirparse.scan(t, 1, '>')
        inner = t[1:j]
        rest = t[j + 1:]
        k = mirparse.find_as(inner)
        if k is None:
            c.selfty = inner
        else:
            c.selfty = inner[:k]
            tr = inner[k + 4:]
            m = mirparse.scan(tr, 0, '<', angle=False)
            c.trait = last_seg(tr)
            c.traitargs = tr[m + 1:-1] if m >= 0 else ''
        c.method = rest.lstrip(':')
        c.path = t
        return c
    m = re.match(r'^(.*)<impl (?!at )(.*)>::(\w+)$', t)
    if m:
        inner = m.group(2)
        k = mirparse.find_as(inner)
        mm = re.match(r'^(.*) for (.*)$', inner)
        c.selfty = mm.group(2) if mm else inner
        c.trait = last_seg(mm.group(1)) if mm else None
        c.method, c.path = m.group(3), t
        return c
    # path::Type::<..>::method or free function
    segs = []
    i = 0
    while True:
        j = i
        d = 0
        while j < len(t):
            if t[j] in '<([{':
                d += 1
            elif t[j] in ')]}' or (t[j] == '>' and t[j - 1] not in '-='):
                d -= 1
            elif d == 0 and t.startswith('::', j):
                break
            j += 1
        segs.append(t[i:j])
        if j >= len(t):
            break
        i = j + 2
    segs2 = [s for s in segs if not s.startswith('<') or s.startswith('<impl at')]
    c.method = segs2[-1]
    c.path = '::'.join(segs2)
    if len(segs2) >= 2 and (segs2[-2][:1].isupper() or segs2[-2].startswith('<impl at')):
        c.selfty = segs2[-2]
    return c


class Module:
    """functions of the crate, indexed by what they implement."""

    def __init__(self, text, srcroot):
        self.fns = mirparse.parse_module(text)
        self.src = srcroot
        self.srccache = {}
        self.methods = {}     # method -> [(selfty, trait, traitargs, fn, header)]
        self.free = {}
        self.consts = {}
        self.aliases = {}     # type alias -> (parameters, definition)
        self.structs = {}     # name -> field names
        self.field_types = {}   # (name or '$', field) -> type
        self.enums = dict(ENUMS)
        self.tuple_structs = set()
        self.parse_sources(self.src)
        for d in sorted(set(re.findall(r'<impl at (/[^:>]*/spaces-[\d.]+)/', text))):
            self.parse_sources(d)
        for f in self.fns:
            if f.is_const:
                self.consts[f.name] = f
                continue
            if f.parent is not None:
                continue
            self.index(f)
        for f in self.fns:
            for b in f.blocks.values():
                for s in b.stmts:
                    if s[0] == 'assign' and s[2][0] == 'struct':
                        nm = last_seg(s[2][1])
                        self.structs.setdefault(nm, [k for k, _ in s[2][2]])

    def parse_sources(self, root):
        import os
        for dp, _, fs in os.walk(os.path.join(root, 'src')):
            for f in fs:
                if not f.endswith('.rs'):
                    continue
                t = open(os.path.join(dp, f)).read()
                t = re.sub(r'//[^\n]*', '', t)
                for m in re.finditer(r'\bstruct\s+(\w+)\s*(?:<[^{;]*>)?\s*(?:where[^{;]*)?\{([^}]*)\}', t):
                    body = re.sub(r'#\[[^\]]*(?:\[[^\]]*\][^\]]*)*\]', '', m.group(2))
                    names = re.findall(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:(?!:)', re.sub(r'::', '', body))
                    self.structs.setdefault(m.group(1), names)
                for m in re.finditer(r'\bstruct\s+(\w+|\$\w+)\s*(?:<[^{;(]*>)?\s*(?:where[^{;]*)?([{(])', t):
                    brace = m.group(2) == '{'
                    e = re.compile(r'\}' if brace else r'\)\s*(?:where[^;]*)?;').search(t, m.end())
                    body = re.sub(r'#\[[^\]]*(?:\[[^\]]*\][^\]]*)*\]', '', t[m.end():e.start()] if e else '')
                    for k, part in enumerate(mirparse.split_top(body)):
                        part = re.sub(r'^\s*pub(?:\([^)]*\))?\s+', '', part.strip())
                        mm = re.match(r'(\w+)\s*:(?!:)\s*(.*)$', part, re.S) if brace else None
                        f, ty = (mm.group(1), mm.group(2)) if mm else (str(k), part)
                        self.field_types.setdefault((m.group(1) if m.group(1)[0] != '$' else '$', f), re.sub(r'\s+', '', ty))
                self.tuple_structs |= set(re.findall(r'\bstruct\s+(\w+)\s*(?:<[^({;]*>)?\s*\(', t))
                for m in re.finditer(r'\btype\s+(\w+)\s*<([^>=;]*)>\s*=\s*([^;]+);', t):
                    self.aliases.setdefault(m.group(1), (mirparse.split_top(m.group(2)), m.group(3).strip()))
                for m in re.finditer(r'\benum\s+(\w+)\s*(?:<[^{]*>)?\s*\{', t):
                    i = m.end()
                    d, j = 1, i
                    while d and j < len(t):
                        d += t[j] == '{'
                        d -= t[j] == '}'
                        j += 1
                    body = t[i:j - 1]
                    body = re.sub(r'#\[[^\]]*\]', '', body)
                    vs = []
                    for part in mirparse.split_top(body):
                        mm = re.match(r'\s*(\w+)', part)
                        if mm:
                            vs.append(mm.group(1))
                    self.enums.setdefault(m.group(1), vs)

    def srctext(self, path):
        import os
        if path not in self.srccache:
            try:
                self.srccache[path] = open(os.path.join(self.src, path)).read().split('\n')
            except OSError:
                self.srccache[path] = []
        return self.srccache[path]

    def header(self, file, l1, c1, l2, c2):
        L = self.srctext(file)
        if not L or l2 > len(L):
            return ''
        if l1 == l2:
            return L[l1 - 1][c1 - 1:c2 - 1]
        return ' '.join([L[l1 - 1][c1 - 1:]] + L[l1:l2 - 1] + [L[l2 - 1][:c2 - 1]])

    def index(self, f):
        m = re.match(r'^(.*?)<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(\w+)$', f.name)
        if not m:
            segs = f.name.split('::')
            if len(segs) >= 2 and segs[-2][:1].isupper():
                self.methods.setdefault(segs[-1], []).append((None, segs[-2], '', f, 'default'))
            else:
                self.free.setdefault(segs[-1], []).append(f)
            return
        hd = norm(self.header(m.group(2), *[int(m.group(i)) for i in (3, 4, 5, 6)]))
        method = m.group(7)
        selfty = trait = None
        targs = ''
        if hd.startswith('impl'):
            h = hd[4:].strip()
            if h.startswith('<'):
                h = h[mirparse.scan(h, 1, '>') + 1:].strip()
            h = re.split(r'\bwhere\b', h)[0].strip().rstrip('{').strip()
            k = -1
            # top-level ' for '
            pos = 0
            while True:
                q = h.find(' for ', pos)
                if q < 0:
                    break
                pre = h[:q]
                if pre.count('<') == pre.replace('->', '').count('>'):
                    k = q
                    break
                pos = q + 1
            if k >= 0:
                tr, selfty = h[:k].strip(), h[k + 5:].strip()
                trait = last_seg(tr)
                j = tr.find('<')
                targs = tr[j + 1:-1] if j >= 0 else ''
            else:
                selfty = h
        else:
            trait = last_seg(hd) if re.match(r'^[\w:]+$', hd or '') else None
        if selfty is None or '$' in (selfty or ''):
            cand = [t for _, t in f.args[:1]] + [f.ret]
            for t in cand:
                ls = last_seg(t)
                if ls in self.structs or ls in self.enums or ls[:1].isupper():
                    selfty = t
                    if ls not in ('Option', 'Result', 'Vec', 'ArrayBase'):
                        break
        f.impl_self, f.impl_trait, f.impl_targs = selfty, trait, targs
        self.methods.setdefault(method, []).append((self.expand(selfty), trait, targs, f, hd))

    def expand(self, t):
        """t with a leading type alias of the crate replaced by its definition"""
        m = re.match(r'^(\w+)(?:<(.*)>)?$', t or '')
        if not m or m.group(1) not in self.aliases:
            return t
        ps, body = self.aliases[m.group(1)]
        args = mirparse.split_top(m.group(2) or '')
        if len(ps) != len(args):
            return t
        d = {p.strip(): a.strip() for p, a in zip(ps, args)}
        return re.sub(r'\b\w+\b', lambda x: d.get(x.group(0), x.group(0)), body)

    def find(self, selfty, trait, method, pred=None):
        out = []
        for s, t, ta, f, hd in self.methods.get(method, []):
            if selfty is not None and (s is None or last_seg(s) != selfty):
                continue
            if trait is not None and t != trait:
                continue
            if trait is None and t is not None and selfty is not None and trait != '*':
                continue
            if pred and not pred(s, t, ta, f):
                continue
            out.append(f)
        return out

    def default(self, trait, method):
        for s, t, ta, f, hd in self.methods.get(method, []):
            if s is None and t == trait:
                return f
        return None

    def variants(self, name):
        return self.enums.get(name)


def successors(fn):
    succ = {}
    for b, bl in fn.blocks.items():
        if bl.cleanup:
            continue
        t = bl.term
        s = []
        if t is None:
            pass
        elif t[0] == 'goto':
            s = [t[1]]
        elif t[0] == 'switch':
            s = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        elif t[0] == 'drop':
            s = [t[2]]
        elif t[0] == 'assert':
            s = [t[4]]
        elif t[0] == 'call':
            s = [t[4]] if t[4] is not None else []
        succ[b] = s
    return succ


def panicking(fn, body):
    """the blocks next to a loop body from which every path ends in a panic"""
    succ = successors(fn)

    def dead(b, path=()):
        if b in path or b in body:
            return None
        t = fn.blocks[b].term if b in fn.blocks else None
        if t is None or t[0] == 'return':
            return None
        got = {b}
        for x in succ.get(b, []):
            d = dead(x, path + (b,))
            if d is None:
                return None
            got |= d
        return got
    more = set()
    for b in body:
        for x in succ.get(b, []):
            if x not in body:
                more |= dead(x) or set()
    return more


def natural_loops(fn):
    """head -> set of blocks (non-cleanup CFG)."""
    succ = successors(fn)
    # dominators (small graphs)
    nodes, st = [], [0]
    seen = set()
    while st:
        b = st.pop()
        if b in seen or b not in succ:
            continue
        seen.add(b)
        nodes.append(b)
        st += succ[b]
    preds = {b: [] for b in nodes}
    for b in nodes:
        for s in succ[b]:
            if s in preds:
                preds[s].append(b)
    dom = {b: set(nodes) for b in nodes}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b == 0:
                continue
            ps = [dom[p] for p in preds[b]]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in nodes:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x not in body:
                        body.add(x)
                        stk += preds[x]
    return loops


def memory_order(v, std=None):
    """the elements of a contiguous one-dimensional array as they lie in memory: its stride is 1 or -1"""
    std = v.std if std is None else std
    return Arr(v.n, lambda k: v.get(z3.simplify(If(std, k, v.n - 1 - k))), TRUE, 'vec')


class Ex:
    def __init__(self, mod, registry=None):
        self.mod = mod
        self.contracts = registry or {}
        self.obls = []
        self.panics = 0
        self.mute = 0
        self.stack = []
        self.used_contracts = set()
        self.inlined = set()
        self.trusted = set()
        self.assumptions = set()
        self.verifying = None
        self.loops = {}
        self.steps = 0
        self.feas = z3.Solver()
        self.feas.set('timeout', 250)
        self.watch = []        # &mut roots that must stay valid when user code panics
        import ext
        self.ext = ext

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind):
        goal = z3.simplify(goal)
        where = self.stack[-1].name if self.stack else '?'
        if not self.mute:
            self.obls.append(Obl(name, st.hyp(), goal, kind, where))
        return st.fact(goal)

    def trust(self, what):
        self.trusted.add(what)

    def feasible(self, st, c):
        c = z3.simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        self.feas.push()
        try:
            for h in st.pc:
                self.feas.add(h)
            for h in st.facts:
                self.feas.add(h)
            self.feas.add(c)
            return self.feas.check() != z3.unsat
        finally:
            self.feas.pop()

    def implied(self, st, c):
        c = z3.simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        return not self.feasible(st, Not(c))

    # ------------------------------------------------------------ memory
    def alloc(self, st, v, tag='H'):
        c = (tag, next(_fid))
        st.cells[c] = v
        return Ref(c)

    def norm_ref(self, st, r):
        """follow MutView handles on the path of r; result path has none."""
        cell, proj = r.cell, r.proj
        guard = 0
        while True:
            guard += 1
            if guard > 50:
                raise Unsupported('reference cycle')
            if cell not in st.cells:
                raise Unsupported('dangling reference %r' % (cell,))
            v = st.cells[cell]
            k = 0
            redirected = False
            while True:
                if isinstance(v, MutView) and k < len(proj):
                    cell, proj = v.ref.cell, v.ref.proj + tuple(proj[k:])
                    redirected = True
                    break
                if k >= len(proj):
                    break
                v = self.step(v, proj[k])
                k += 1
            if not redirected:
                return Ref(cell, proj)

    def step(self, v, s):
        k = s[0]
        if isinstance(v, Poison):
            raise Unsupported('use of uninitialised or unsummarised value (%s)' % v.why)
        if k == 'f':
            if isinstance(v, Tup):
                return v.items[s[1]]
            if isinstance(v, Adt):
                return v.fields[s[1]]
            if isinstance(v, Clos):
                return v.caps[s[1]]
            if isinstance(v, Alt):
                a = [x for _, x in v.alts]
                if len({x.variant for x in a}) == 1:
                    return mkalt(v.name, v.alts).fields[s[1]]
            if isinstance(v, BoxV):
                return v if s[1] == 0 else v.v
            if isinstance(v, MaybeInit) or isinstance(v, Uninit):
                return v
            if isinstance(v, Ref) and s[1] == 0:
                return v      # the pointer inside a Box
            raise Unsupported('field %s of %s' % (s[1], type(v).__name__))
        if k == 'v':
            lst = [(g, a) for g, a in alts(v) if a.variant == s[1]]
            if not lst:
                raise Unsupported('variant %s of %r' % (s[1], v))
            return mkalt(lst[0][1].name, lst)
        if k == 'i':
            if isinstance(v, Arr):
                return v.get(s[1])
            raise Unsupported('index into %s' % type(v).__name__)
        if k == 'k':
            if isinstance(v, MapV):
                return v.val(s[1])
        if k == 'col' and isinstance(v, Mat):
            return v.col(s[1])
        if k == 'row' and isinstance(v, Mat):
            return v.row(s[1])
        if k == 'ij' and isinstance(v, Mat):
            return v.get(s[1], s[2])
        if k == 'mo' and isinstance(v, Arr):
            return memory_order(v)
        if k == 'sl' and isinstance(v, Arr):
            lo = s[1]
            return Arr(z3.simplify(s[2] - lo), lambda i: v.get(z3.simplify(lo + i)), v.std, v.kind)
        if k == 'box':
            if isinstance(v, BoxV):
                return v.v
        raise Unsupported('projection %s of %s' % (k, type(v).__name__))

    def upd(self, v, proj, new):
        if not proj:
            return new
        s = proj[0]
        k = s[0]
        if k == 'f':
            if isinstance(v, Tup):
                it = list(v.items)
                it[s[1]] = self.upd(it[s[1]], proj[1:], new)
                return Tup(it)
            if isinstance(v, Adt):
                it = list(v.fields)
                it[s[1]] = self.upd(it[s[1]], proj[1:], new)
                return Adt(v.name, v.variant, it, v.names)
            if isinstance(v, Clos):
                it = list(v.caps)
                it[s[1]] = self.upd(it[s[1]], proj[1:], new)
                return Clos(v.fn, it)
            if isinstance(v, BoxV):
                return BoxV(self.upd(v.v, proj[1:], new)) if s[1] else self.upd(v, proj[1:], new)
            if isinstance(v, (Uninit, MaybeInit)) and len(proj) >= 1:
                return self.upd(v, proj[1:], new)
        elif k == 'v':
            return self.upd(self.step(v, s), proj[1:], new)
        elif k == 'i' and isinstance(v, Arr):
            x = new if len(proj) == 1 else self.upd(v.get(s[1]), proj[1:], new)
            return v.set(s[1], x)
        elif k == 'k' and isinstance(v, MapV):
            x = new if len(proj) == 1 else self.upd(v.val(s[1]), proj[1:], new)
            return v.insert(s[1], x)
        elif k == 'col' and isinstance(v, Mat):
            x = new if len(proj) == 1 else self.upd(v.col(s[1]), proj[1:], new)
            return v.setcol(s[1], x)
        elif k == 'ij' and isinstance(v, Mat):
            return v.set(s[1], s[2], new)
        elif k == 'mo' and isinstance(v, Arr) and len(proj) > 1 and proj[1][0] == 'i':
            return self.upd(v, (('i', z3.simplify(If(v.std, proj[1][1], v.n - 1 - proj[1][1]))),) + tuple(proj[2:]), new)
        elif k == 'mo' and isinstance(v, Arr):
            x = memory_order(self.upd(memory_order(v), proj[1:], new), v.std)
            return Arr(v.n, x.get, v.std, v.kind)
        elif k == 'sl' and isinstance(v, Arr) and len(proj) > 1 and proj[1][0] == 'i':
            return self.upd(v, (('i', z3.simplify(s[1] + proj[1][1])),) + tuple(proj[2:]), new)
        elif k == 'sl' and isinstance(v, Arr):
            x = new if len(proj) == 1 else self.upd(self.step(v, s), proj[1:], new)
            lo, hi = s[1], s[2]
            return Arr(v.n, lambda i: vite(And(i >= lo, i < hi), x.get(z3.simplify(i - lo)), v.get(i)), v.std, v.kind)
        elif k == 'box' and isinstance(v, BoxV):
            return BoxV(self.upd(v.v, proj[1:], new))
        raise Unsupported('write through %s of %s' % (k, type(v).__name__))

    def read(self, st, r):
        if isinstance(r, ValRef):
            return r.v
        if not isinstance(r, Ref):
            raise Unsupported('dereference of %s' % type(r).__name__)
        r = self.norm_ref(st, r)
        v = st.cells[r.cell]
        for s in r.proj:
            v = self.step(v, s)
        return v

    def write(self, st, r, new):
        if isinstance(r, ValRef):
            raise Unsupported('write through shared reference')
        r = self.norm_ref(st, r)
        st.cells[r.cell] = self.upd(st.cells[r.cell], r.proj, new)

    def strip(self, st, v):
        """follow references/handles down to a plain value."""
        while True:
            if isinstance(v, (Ref, ValRef)):
                v = self.read(st, v)
            elif isinstance(v, MutView):
                v = self.read(st, v.ref)
            elif isinstance(v, BoxV):
                v = v.v
            else:
                return v

    def loc(self, st, v):
        """innermost location that v denotes (for in-place operations)."""
        while True:
            if isinstance(v, MutView):
                v = v.ref
                continue
            if isinstance(v, ValRef):
                if isinstance(v.v, (Ref, MutView, ValRef)):
                    v = v.v
                    continue
                return v
            if isinstance(v, Ref):
                x = self.read(st, v)
                if isinstance(x, (Ref, MutView, ValRef)):
                    v = x
                    continue
                return v
            raise Unsupported('not a location: %s' % type(v).__name__)

    # ------------------------------------------------------------ places
    def place(self, fr, st, p):
        k = p[0]
        if k == 'local':
            return Ref(fr.cell(p[1]))
        if k == 'deref':
            v = self.pread(fr, st, p[1])
            if isinstance(v, (Ref, ValRef)):
                return v
            if isinstance(v, BoxV):
                b = self.place(fr, st, p[1])
                return b.ext(('box',)) if isinstance(b, Ref) else ValRef(v.v)
            raise Unsupported('deref of %s' % type(v).__name__)
        base = self.place(fr, st, p[1])
        if k == 'field':
            s = ('f', p[2])
        elif k == 'downcast':
            s = ('v', p[2])
        elif k == 'index':
            s = ('i', self.pread(fr, st, p[2]))
        elif k == 'cindex':
            v = self.strip(st, self.read(st, base))
            s = ('i', v.n - p[2] if p[3] else IntVal(p[2]))
        else:
            raise Unsupported('place %s' % k)
        if isinstance(base, ValRef):
            return ValRef(self.step(base.v, s))
        return base.ext(s)

    def pread(self, fr, st, p):
        r = self.place(fr, st, p)
        if isinstance(r, Ref) and r.cell not in st.cells:
            raise Unsupported('read of unassigned local')
        v = self.read(st, r)
        if isinstance(v, Poison):
            raise Unsupported('read of %s value' % v.why)
        return v

    def operand(self, fr, st, o):
        if o[0] in ('copy', 'move'):
            return self.pread(fr, st, o[1])
        return self.const(fr, st, o[1])

    def const(self, fr, st, t):
        t = t.strip()
        m = re.fullmatch(r'(-?)(\d[\d_]*(?:\.\d+)?(?:[eE][+-]?\d+)?)_?(f64|f32)', t)
        if m:
            from fractions import Fraction
            x = Fraction(m.group(2).replace('_', ''))
            # decimals written in the source print as 17-digit doubles: take the shortest equal decimal
            d = float(x)
            x = Fraction(repr(d))
            return RealVal(str(-x if m.group(1) else x))
        m = re.fullmatch(r'(-?\d+)_(usize|isize|[ui]\d+)', t)
        if m:
            return IntVal(m.group(1))
        if t == 'true':
            return TRUE
        if t == 'false':
            return FALSE
        if t == '()':
            return UNIT
        if t.startswith('"') or t.startswith('b"'):
            return ValRef(Opq(fresh('str', OP), 'str'))
        if t.startswith('ZeroSized: '):
            return self.zst(fr, t[len('ZeroSized: '):])
        if t.startswith('{closure@'):
            return self.zst(fr, t)
        if re.fullmatch(r'-?[+]?(inf|NaN)_?f64', t):
            return NINF if t.startswith('-') else PINF
        m = re.fullmatch(r'(?:core::num::<impl )?([iu](?:size|\d+))>?::(MIN|MAX)', t)
        if m:
            return IntVal(INT_RANGE[m.group(1)][m.group(2) == 'MAX'])
        if re.search(r'f64>?::EPSILON$', t):
            return RealVal('1/%d' % 2 ** 52)
        if re.search(r'f64>?::MIN_POSITIVE$', t):
            return RealVal('1/%d' % 2 ** 1022)
        m = re.search(r'f64.*::(NEG_INFINITY|INFINITY|MAX|MIN|EPSILON|consts::PI|PI)$', t)
        if t.endswith('NEG_INFINITY'):
            return NINF
        if t.endswith('::INFINITY'):
            return PINF
        if t.endswith('consts::PI'):
            return PI
        if re.fullmatch(r"'.*'", t):
            return IntVal(ord(t[1]))
        m = re.match(r'^(.*)::promoted\[(\d+)\]$', t)
        if m:
            for f in self.promoteds(fr.fn):
                if f.name.endswith('promoted[%s]' % m.group(2)):
                    return self.run_const(st, f)
        for nm, f in self.mod.consts.items():
            if nm == t or nm.endswith('::' + t) or t.endswith('::' + nm):
                return self.run_const(st, f)
        if re.fullmatch(r'(?:std::option::|core::option::)?Option::<.*>::None', t):
            return none()
        if last_seg(t) == 'RangeFull':
            return Adt('RangeFull', 'RangeFull', [], [])
        return FnItem(t)

    def promoteds(self, fn):
        f = fn
        while f is not None:
            for c in f.children:
                if c.is_const:
                    yield c
            f = None

    def run_const(self, st, f):
        if f.value is not None:
            return self.const(None, st, f.value[6:] if f.value.startswith('const ') else f.value)
        st2, v = self.run_fn(f, [], st)
        # constants are immutable snapshots
        return self.snapshot(st2, v)

    def snapshot(self, st, v):
        if isinstance(v, Ref):
            return ValRef(self.snapshot(st, self.read(st, v)))
        if isinstance(v, Tup):
            return Tup([self.snapshot(st, x) for x in v.items])
        return v

    def zst(self, fr, t):
        m = re.match(r'^\{closure@([^}]*)\}', t)
        if m:
            return Clos(self.closure_fn(fr.fn, m.group(1)), [])
        return FnItem(t)

    def closure_fn(self, fn, span):
        f = fn
        while f is not None:
            st = [f]
            while st:
                x = st.pop(0)
                if x.span == span:
                    return x
                st += x.children
            f = f.parent
        for f in self.mod.fns:
            if f.span == span:
                return f
        raise Unsupported('closure body not found: %s' % span)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref':
            r = self.place(fr, st, rv[2])
            return r
        if k == 'bin':
            a, b = [self.operand(fr, st, o) for o in rv[2]]
            return self.binop(st, rv[1], a, b, self.int_type(fr, rv[2]))
        if k == 'un':
            a = self.operand(fr, st, rv[2][0])
            if rv[1] == 'Neg':
                return -a
            if rv[1] == 'Not':
                return neg(a)
            if rv[1] == 'PtrMetadata':
                return self.strip(st, a).n
        if k == 'discr':
            return self.discr(self.pread(fr, st, rv[1]))
        if k == 'len':
            return self.strip(st, self.pread(fr, st, rv[1])).n
        if k == 'cast':
            v = self.operand(fr, st, rv[1])
            return self.cast(fr, st, v, rv[2], rv[3])
        if k == 'tuple':
            return Tup([self.operand(fr, st, o) for o in rv[1]])
        if k == 'array':
            items = [self.operand(fr, st, o) for o in rv[1]]
            return lit_arr(items)
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            m = re.match(r'(\d+)', rv[2])
            if not m:
                raise Unsupported('repeat')
            return Arr(IntVal(m.group(1)), lambda i: v)
        if k == 'closure':
            return Clos(self.closure_fn(fr.fn, rv[1]), [self.operand(fr, st, o) for o in rv[2]])
        if k == 'struct':
            nm = last_seg(rv[1])
            segs = strip_generics(rv[1]).split('::')
            vals = [self.operand(fr, st, o) for _, o in rv[2]]
            names = [n for n, _ in rv[2]]
            if nm in self.mod.structs or True:
                ty = segs[-2] if len(segs) >= 2 and segs[-2] in self.mod.enums else None
                if ty:
                    return Adt(ty, segs[-1], vals, names)
                if segs[-1] in ('Range', 'RangeInclusive'):
                    return Adt('Range', 'Range', vals, names)
                return Adt(segs[-1], segs[-1], vals, names)
        if k == 'adt':
            t = strip_generics(rv[1])
            segs = t.split('::')
            vals = [self.operand(fr, st, o) for o in rv[2]]
            if len(segs) >= 2 and segs[-2] in self.mod.enums:
                return Adt(segs[-2], segs[-1], vals)
            if len(segs) >= 2 and segs[-2] == 'Ordering':
                return Adt('Ordering', segs[-1], vals)
            if segs[-1] in self.mod.structs or vals or segs[-1][:1].isupper():
                return Adt(segs[-1], segs[-1], vals)
        raise Unsupported('rvalue %r' % (rv,))

    def discr(self, v):
        lst = alts(v)
        out = None
        for g, a in reversed(lst):
            d = self.discr_of(a)
            out = IntVal(d) if out is None else ite(g, IntVal(d), out)
        return out

    def discr_of(self, a):
        if (a.name, a.variant) in DISCR:
            return DISCR[(a.name, a.variant)]
        vs = self.mod.variants(a.name)
        if vs and a.variant in vs:
            return vs.index(a.variant)
        raise Unsupported('discriminant of %s::%s' % (a.name, a.variant))

    def int_type(self, fr, ops):
        """integer type of the operands, when it is known"""
        for o in ops:
            t = None
            if o[0] == 'const':
                m = re.search(r'_([iu](?:size|\d+))$', o[1].strip())
                t = m.group(1) if m else None
            elif o[1][0] == 'local':
                t = fr.fn.locals.get(o[1][1])
            if t is not None and t.strip() in INT_RANGE:
                return t.strip()
        return None

    def cast(self, fr, st, v, ty, kind):
        ty = ty.strip()
        if ty == 'f32':
            # single precision rounds: an unknown function of the value, so that nothing proved for the
            # exact value carries over
            return _single(v if v.sort() == R else z3.ToReal(v))
        if kind == 'IntToFloat':
            return z3.ToReal(v)
        if kind == 'FloatToInt':
            self.assumptions.add('float-to-integer casts do not meet NaN or values beyond 64 bits')
            t = trunc(v)
            lo, hi = INT_RANGE.get(ty, (None, None))
            if lo is not None and ty not in ('isize', 'i64', 'i128'):
                t = If(t < lo, IntVal(lo), t)
                if ty not in ('usize', 'u64', 'u128'):
                    t = If(t > hi, IntVal(hi), t)
            return t
        if kind == 'IntToInt':
            if is_expr(v) and v.sort() == B:
                return If(v, IntVal(1), IntVal(0))
            if isinstance(v, (Adt, Alt)):
                return self.discr(v)
            lo, hi = INT_RANGE.get(ty, (None, None))
            if lo is None:
                raise Unsupported('cast to %s' % ty)
            if ty in WIDE:
                if lo == 0 and not self.implied(st, v >= 0):
                    return If(v >= 0, v, v + (hi + 1))
                self.assumptions.add('64-bit integers are treated as mathematical integers')
                return v
            if self.implied(st, And(v >= lo, v <= hi)):
                return v
            w = (v - lo) % (hi - lo + 1) + lo
            return z3.simplify(w)
        if kind == 'FloatToFloat':
            return v
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'Subtype'):
            if isinstance(v, BoxV):
                return v
            return v
        raise Unsupported('cast %s' % kind)

    def binop(self, st, op, a, b, ty=None):
        if op in ('Eq', 'Ne') and not (is_expr(a) and is_expr(b)):
            raise Unsupported('comparison of %s' % type(a).__name__)
        if not (is_expr(a) and is_expr(b)):
            raise Unsupported('arithmetic on %s' % type(a).__name__)
        real = a.sort() == R
        if real:
            self.assumptions.add(TOTAL if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else EXACT)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[base]
            r = z3.simplify(r) if not real else r
            if op.endswith('WithOverflow'):
                if ty in INT_RANGE and ty not in WIDE:
                    lo, hi = INT_RANGE[ty]
                    return Tup([r, Or(r < lo, r > hi)])
                self.assumptions.add('integer additions and multiplications do not overflow (64-bit integers treated as mathematical)')
                return Tup([r, FALSE if base != 'Sub' or ty in ('isize', 'i64', 'i128') else a < b])
            return r
        if op == 'Div':
            if real:
                return div(a, b)
            return idiv(a, b)
        if op == 'Rem':
            if real:
                raise Unsupported('float remainder')
            return irem(a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b,
                    'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
        if op in ('BitAnd', 'BitOr', 'BitXor') and a.sort() == B:
            return {'BitAnd': And(a, b), 'BitOr': Or(a, b), 'BitXor': z3.Xor(a, b)}[op]
        raise Unsupported('operator %s' % op)

    # ------------------------------------------------------------ functions
    def run_fn(self, fn, args, st):
        """inline execution; returns (state, value) merged over normal returns."""
        if len(self.stack) > 40 or sum(1 for f in self.stack if f is fn) > 2:
            raise Unsupported('recursion in %s' % fn.name)
        fr = Frame(fn)
        st = st.fork()
        if len(args) != len(fn.args):
            raise Unsupported('arity of %s' % fn.name)
        for (n, _), v in zip(fn.args, args):
            st.cells[fr.cell(n)] = v
        for n, t in fn.locals.items():
            # a value without data may be used without ever being assigned
            if t.strip() in ('std::ops::RangeFull', 'RangeFull') and fr.cell(n) not in st.cells:
                st.cells[fr.cell(n)] = Adt('RangeFull', 'RangeFull', [])
        self.stack.append(fn)
        try:
            outs = self.run(fr, 0, st, frozenset(), None)
        finally:
            self.stack.pop()
        rets = []
        for kind, tgt, s in outs:
            assert kind == 'ret', kind
            v = s.cells.get(fr.cell(0), UNIT)
            if fn.is_const:
                v = self.snapshot(s, v)
            rets.append((s, v))
        if not rets:
            raise Diverges(fn.name)
        out, v = self.merge(st, [(s, v) for s, v in rets], fr)
        return out, v

    def merge(self, st0, rets, fr=None):
        """merge states (with a value each) that extend st0."""
        nb = len(st0.pc)
        nf = len(st0.facts)

        def drop(s):
            if fr is not None:
                for k in [k for k in s.cells if k[0] == 'L' and k[1] == fr.id]:
                    del s.cells[k]
        if len(rets) == 1:
            s, v = rets[0]
            # keep only facts/pc
            s = s.fork()
            drop(s)
            return s, v
        guards = [conj(*s.pc[nb:]) for s, _ in rets]
        res = State(st0.cells, st0.pc, st0.facts)
        for g, (s, _) in zip(guards, rets):
            for f in s.facts[nf:]:
                res.facts = res.facts + (Implies(g, f),)
        allg = z3.simplify(disj(*guards))
        if not is_true(allg):
            res.facts = res.facts + (allg,)
        for s, _ in rets:
            drop(s)
        keys = set(rets[0][0].cells)
        for s, _ in rets[1:]:
            keys &= set(s.cells)
        for k in keys:
            v = rets[-1][0].cells[k]
            for g, (s, _) in reversed(list(zip(guards[:-1], rets[:-1]))):
                w = s.cells[k]
                if w is v:
                    continue
                try:
                    v = vite(g, w, v)
                except MergeFail as ex:
                    v = Poison('unmergeable (%s)' % ex)
                    break
            if isinstance(v, Poison) and has_ref(rets[0][0].cells[k]):
                # references to different places: what they point to now
                try:
                    vs = [self.frozen(s, s.cells[k]) for s, _ in rets]
                    v = vs[-1]
                    for g, w in reversed(list(zip(guards[:-1], vs[:-1]))):
                        v = vite(g, w, v)
                except (MergeFail, Unsupported, KeyError) as ex:
                    v = Poison('unmergeable (%s)' % ex)
            res.cells[k] = v
        for k in [k for k in res.cells if k not in keys]:
            del res.cells[k]
        def join(vs):
            v = vs[-1]
            for g, w in reversed(list(zip(guards[:-1], vs[:-1]))):
                v = None if w is None or v is None else vite(g, w, v)
            return v
        vs = [w for _, w in rets]
        try:
            return res, join(vs)
        except MergeFail:
            if not any(has_ref(w) for w in vs):
                raise
            return res, join([self.frozen(s, w) for s, w in rets])

    def frozen(self, st, v):
        """references as snapshots of what they point to (writing through one is refused later)"""
        if isinstance(v, Ref):
            return ValRef(self.strip(st, v))
        if isinstance(v, Tup):
            return Tup([self.frozen(st, x) for x in v.items])
        if isinstance(v, Adt):
            return Adt(v.name, v.variant, [self.frozen(st, x) for x in v.fields], v.names)
        if isinstance(v, Alt):
            return Alt(v.name, [(g, self.frozen(st, x)) for g, x in v.alts])
        return v

    def run(self, fr, bb, st, heads, within):
        """execute from bb. heads: active loop heads (reaching one ends the path with 'back').
        within: block set; leaving it ends the path with 'exit'."""
        outs = []
        work = [(bb, st, True)]
        while work:
            b, s, first = work.pop()
            self.steps += 1
            if self.steps > 60000:
                raise Budget('step budget')
            if not first:
                if b in heads:
                    outs.append(('back', b, s))
                    continue
                if within is not None and b not in within:
                    outs.append(('exit', b, s))
                    continue
            loops = self.fn_loops(fr.fn)
            if b in loops and b not in heads and (fr.id, b) not in s.cells:
                for o in self.loop(fr, b, loops[b], s, heads, within):
                    if o[0] == 'goto':
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            blk = fr.fn.blocks.get(b)
            if blk is None:
                raise Unsupported('block %s of %s' % (b, fr.fn.name))
            s = s.fork()
            for stm in blk.stmts:
                self.stmt(fr, s, stm)
            for o in self.term(fr, s, blk.term):
                if o[0] == 'goto':
                    work.append((o[1], o[2], False))
                else:
                    outs.append(o)
        return outs

    def fn_loops(self, fn):
        k = id(fn)
        if k not in self.loops:
            self.loops[k] = natural_loops(fn)
        return self.loops[k]

    def stmt(self, fr, st, s):
        if s[0] == 'assign':
            v = self.rvalue(fr, st, s[2])
            self.assign(fr, st, s[1], v)
        else:
            raise Unsupported('statement %s' % (s[1],))

    def assign(self, fr, st, p, v):
        if p[0] == 'local':
            st.cells[fr.cell(p[1])] = v
            return
        if p[0] == 'field' and p[1][0] == 'local' and fr.cell(p[1][1]) not in st.cells:
            st.cells[fr.cell(p[1][1])] = Tup([Poison()] * 12)
        self.write(st, self.place(fr, st, p), v)

    def term(self, fr, st, t):
        k = t[0]
        if k == 'goto':
            return [('goto', t[1], st)]
        if k == 'return':
            return [('ret', None, st)]
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            outs = []
            others = []
            for c, b in t[2]:
                if is_expr(v) and v.sort() == B:
                    cond = neg(v) if c == 0 else v
                elif is_expr(v):
                    cond = z3.simplify(v == c)
                else:
                    raise Unsupported('switch on %s' % type(v).__name__)
                others.append(neg(z3.simplify(cond)))
                if self.unreach(fr.fn, b):
                    continue
                if self.feasible(st, cond):
                    outs.append(('goto', b, st.assume(cond)))
            if t[3] is not None and not self.unreach(fr.fn, t[3]):
                cond = conj(*others)
                if self.feasible(st, cond):
                    outs.append(('goto', t[3], st.assume(cond)))
            return outs
        if k == 'drop':
            try:
                v = self.pread(fr, st, t[1])
            except Unsupported:
                v = None
            if isinstance(v, Gone):
                self.oblige(st, 'dropped value is valid', FALSE, 'mem')
            return [('goto', t[2], st)]
        if k == 'assert':
            v = self.operand(fr, st, t[1])
            goal = v if t[2] else neg(v)
            msg = t[3]
            s2 = self.oblige(st, msgname(msg), goal, 'panic')
            return [('goto', t[4], s2)]
        if k == 'unreachable':
            return []
        if k == 'resume':
            return []
        if k == 'call':
            return self.term_call(fr, st, t)
        raise Unsupported('terminator %s' % (t[1] if len(t) > 1 else k))

    def unreach(self, fn, b):
        bl = fn.blocks.get(b)
        return bl is not None and not bl.stmts and bl.term == ('unreachable',)

    def term_call(self, fr, st, t):
        _, dest, callee, args, ret, unwind = t
        vals = [self.operand(fr, st, a) for a in args]
        if ret is None:
            # diverging call: panic
            self.panics += 1
            self.oblige(st, 'unreachable: ' + short(callee[1] if callee[0] == 'path' else 'fn pointer'), FALSE, 'panic')
            return []
        try:
            if callee[0] == 'op':
                f = self.operand(fr, st, callee[1])
                st2, v = self.apply(f, vals, st)
            else:
                if self.watch and not self.mute and not re.search(r'(?:clone|drop|forget|deref|as_ref|borrow)$', callee[1]):
                    # the callee may call the user's function, which may panic
                    for u in {id(u): u for a in vals for u in self.user_fns(st, a)}.values():
                        self.check_watch(st, u.name)
                st2, v = self.call_path(fr, callee[1], vals, st)
        except Diverges:
            return []
        st2 = st2.fork()
        self.assign(fr, st2, dest, v)
        return [('goto', ret, st2)]

    def user_fns(self, st, v, depth=4):
        """the user's functions that a value carries"""
        if depth == 0:
            return []
        if isinstance(v, OpaqueFn):
            return [v]
        if isinstance(v, (Ref, ValRef)):
            try:
                return self.user_fns(st, self.read(st, v), depth - 1)
            except (Unsupported, KeyError):
                return []
        if isinstance(v, Clos):
            return [u for x in v.caps for u in self.user_fns(st, x, depth - 1)]
        if isinstance(v, Tup):
            return [u for x in v.items for u in self.user_fns(st, x, depth - 1)]
        return []

    # ------------------------------------------------------------ calls
    def apply(self, f, args, st):
        """call a function value with unpacked arguments."""
        while isinstance(f, (Ref, ValRef)) and not isinstance(self.read(st, f), (Clos,)):
            f = self.read(st, f)
        if isinstance(f, (Ref, ValRef)):
            c = self.read(st, f)
            return self.call_closure(c, f, args, st)
        if isinstance(f, Clos):
            ty = f.fn.args[0][1]
            if ty.startswith('&'):
                st = st.fork()
                r = self.alloc(st, f, 'C')
                s2, v = self.call_closure(f, r, args, st)
                if not self.unchanged(s2, r, f):
                    raise Unsupported('closure that changes its own captured values')
                return s2, v
            return self.run_fn_closure(f.fn, [f] + list(args), st)
        if isinstance(f, OpaqueFn):
            self.check_watch(st, f.name)
            return f.apply(self, st, args)
        if isinstance(f, FnItem):
            return self.call_path(None, f.path, list(args), st)
        if isinstance(f, FnPtr):
            rets = []
            for g, x in f.alts:
                if not self.feasible(st, g):
                    continue
                s2, v = self.apply(x, args, st.assume(g))
                rets.append((s2, v))
            return self.merge(st, rets)
        if isinstance(f, Opq) and 'call' in f.aux:
            self.check_watch(st, f.role)
            return f.aux['call'](self, st, args)
        if isinstance(f, Opq) and f.role == 'fnptr':
            return st, z3.Function('call', OP, R, R)(f.term, *[self.strip(st, a) for a in args])
        raise Unsupported('call of %s %s' % (type(f).__name__, getattr(f, 'name', '')))

    def unchanged(self, st, ref, f):
        g = self.read(st, ref)
        return g is f or isinstance(g, Clos) and all(a is b or is_expr(a) and is_expr(b) and a.eq(b) for a, b in zip(g.caps, f.caps))

    def has_state(self, f, args, st):
        """does calling the closure change the values it captured?"""
        if not isinstance(f, Clos) or not f.fn.args[0][1].startswith('&') or not f.caps:
            return False
        if not f.fn.args[0][1].startswith('&mut'):
            return False
        st = st.fork()
        r = self.alloc(st, f, 'C')
        self.mute += 1
        try:
            s2, _ = self.call_closure(f, r, args, st)
            return not self.unchanged(s2, r, f)
        except Diverges:
            return False
        finally:
            self.mute -= 1

    def call_closure(self, c, ref, args, st):
        ty = c.fn.args[0][1]
        selfv = ref if ty.startswith('&') else c
        return self.run_fn_closure(c.fn, [selfv] + list(args), st)

    def run_fn_closure(self, fn, args, st):
        self.inlined.add(fn.name)
        return self.run_fn(fn, args, st)

    def check_watch(self, st, who):
        """a user function may panic here: everything reachable through the roots must be valid."""
        if self.mute:
            return
        for nm, r in self.watch:
            try:
                v = self.strip(st, r)
            except Unsupported:
                continue
            g = self.valid(v)
            self.obls.append(Obl('valid if %s panics: %s' % (who, nm), st.hyp(), g, 'unwind', self.stack[-1].name if self.stack else ''))

    def valid(self, v):
        if isinstance(v, (Uninit, Poison)):
            return FALSE
        if isinstance(v, MaybeInit):
            return And(Implies(v.c, self.valid(v.a)), Implies(Not(v.c), self.valid(v.b)))
        if isinstance(v, Tup):
            return conj(*[self.valid(x) for x in v.items])
        if isinstance(v, Adt):
            return conj(*[self.valid(x) for x in v.fields])
        if isinstance(v, Alt):
            return conj(*[Implies(g, self.valid(a)) for g, a in v.alts])
        if isinstance(v, Arr):
            i = fresh('vi', I)
            x = self.valid(v.get(i))
            return TRUE if is_true(z3.simplify(x)) else Implies(And(i >= 0, i < v.n), x)
        if isinstance(v, MapV):
            i = fresh('vi', I)
            x = self.valid(v.val(i))
            return TRUE if is_true(z3.simplify(x)) else Implies(v.dom(i), x)
        return TRUE

    def type_name(self, st, v):
        v = self.strip(st, v)
        if isinstance(v, (Adt, Alt)):
            return v.name
        return None

    def call_path(self, fr, path, args, st):
        c = parse_callee(path)
        f = self.resolve(c, args, st)
        if f is not None and c.trait in ('Iterator', 'ExactSizeIterator') and args and isinstance(self.strip(st, args[0]), Iter):
            f = None        # an iterator of the crate that into_iter has already expanded by its own next
        if f is not None:
            return self.call_fn(f, args, st)
        return self.ext.call(self, st, c, args)

    def call_fn(self, f, args, st):
        ct = self.contracts.get(fn_key(f))
        if ct is not None and ct is not self.verifying and ct.usable(self, st, args):
            self.used_contracts.add(ct.key)
            for nm, g in ct.pre(self, st, args):
                st = self.oblige(st, 'precondition of %s: %s' % (ct.name, nm), g, 'pre')
            self.stack.append(f)
            try:
                s2, r = ct.spec(self, st.fork(), args)
                if ct.post is not None and is_expr(r):
                    import contract
                    for nm, h, g in ct.post(self, r, [contract.freeze(self, st, a) for a in args]):
                        s2 = s2.fact(Implies(And(*h), g) if h else g)
                return s2, r
            finally:
                self.stack.pop()
        self.inlined.add(f.name)
        return self.run_fn(f, args, st)

    def resolve(self, c, args, st):
        """local function implementing the call, or None."""
        mod = self.mod
        if c.selfty is None:
            for f in mod.free.get(c.method, []):
                a, b = f.name.split('::'), c.path.split('::')
                n = min(len(a), len(b))
                if a[-n:] == b[-n:]:
                    return f
            return None
        sname = last_seg(c.selfty)
        rt = self.type_name(st, args[0]) if args else None
        cands = []
        for s, t, ta, f, hd in mod.methods.get(c.method, []):
            if c.selfty.startswith('<impl at'):
                if f.name.endswith(c.path):
                    return f
                continue
            if s is None:
                continue
            if c.trait is None:
                if t is not None and not (t == sname):
                    continue
                if last_seg(s) == sname:
                    cands.append((s, t, ta, f))
            else:
                if t != c.trait:
                    continue
                ls = last_seg(s)
                if ls == sname or (ls == rt and (is_generic(c.selfty) or sname in ('Self',))):
                    cands.append((s, t, ta, f))
        if not cands and c.trait == 'Into' and c.method == 'into':
            c2 = parse_callee('<%s as From<%s>>::from' % (c.traitargs, c.selfty))
            return self.resolve(c2, args, st)
        if len(cands) > 1:
            cands = self.disambiguate(c, cands, args, st)
        if len(cands) == 1:
            return cands[0][3]
        if len(cands) > 1:
            raise Unsupported('ambiguous call %s (%d candidates)' % (c.raw, len(cands)))
        # trait default method
        tr = c.trait
        if tr is None and c.selfty and (None, c.selfty) and mod.default(sname, c.method):
            tr = sname
        if tr is not None:
            d = mod.default(tr, c.method)
            if d is not None:
                v = self.strip(st, args[0]) if args else None
                if isinstance(v, Opq) and tr != 'Combinators':
                    # a generic parameter may override the default (nobody overrides the combinators)
                    return None
                if isinstance(v, (Adt, Alt)) and c.trait is not None:
                    own = [f for s, t, ta, f, hd in mod.methods.get(c.method, []) if s is not None and t == tr and last_seg(s) == v.name]
                    if len(own) == 1:
                        return own[0]
                return d
        return None

    def disambiguate(self, c, cands, args, st):
        def nrm(s):
            s = re.sub(r"'\w+ ?", '', s or '')
            s = re.sub(r'\b(?:\w+::)+', '', s)
            s = s.replace(' ', '')
            for k in '12':
                s = s.replace('Array%s<f64>' % k, 'ArrayBase<OwnedRepr<f64>,Dim<[usize;%s]>>' % k)
            return s.replace('ActivationT', 'f64').replace('IndexT', 'usize').replace('DenseActivations', 'ArrayBase<OwnedRepr<f64>,Dim<[usize;1]>>')
        ex = [x for x in cands if nrm(x[2]) == nrm(c.traitargs) and nrm(x[0]) == nrm(c.selfty)]
        if len(ex) == 1:
            return ex
        ex = [x for x in (ex or cands) if nrm(x[0]) == nrm(c.selfty)] or cands
        if len(ex) == 1:
            return ex
        ex2 = [x for x in ex if nrm(x[2]) == nrm(c.traitargs)]
        if len(ex2) == 1:
            return ex2
        # by the runtime class of the arguments
        ok_ = []
        for x in ex:
            f = x[3]
            if len(f.args) == len(args) and all(self.type_fits(st, t, a) for (_, t), a in zip(f.args, args)):
                ok_.append(x)
        return ok_ or ex

    def type_fits(self, st, ty, v):
        ty = ty.strip()
        isref = isinstance(v, (Ref, ValRef))
        w = self.strip(st, v)
        ls = last_seg(ty)
        if is_expr(w):
            if w.sort() == R:
                return ls in ('f64',) or is_generic(ty)
            if w.sort() == I:
                return ls in ('usize', 'isize', 'u8', 'i32', 'u64') or is_generic(ty)
            return True
        if isinstance(w, (Adt, Alt)):
            if ls == w.name:
                # Fixed<Vec<f64>> vs Fixed<(usize, HashSet<usize>)>
                if isinstance(w, Adt) and w.fields and '<' in ty:
                    inner = ty[ty.index('<') + 1:-1]
                    if not is_generic(inner) and len(w.fields) == 1:
                        return self.type_fits(st, inner, w.fields[0])
                return True
            return is_generic(ty)
        if isinstance(w, Arr):
            if ls == 'Vec' or ls == '[]':
                m = re.search(r'[<\[]\s*(\w+)', ty)
                try:
                    x = w.get(fresh('ix', I))
                    if is_expr(x) and m:
                        return (x.sort() == R) == (m.group(1) == 'f64') if m.group(1) in ('f64', 'usize', 'isize', 'u8') else True
                except Unsupported:
                    pass
                return True
            return ls == 'ArrayBase' or is_generic(ty)
        if isinstance(w, Tup):
            return ty.startswith('(')
        return True

    # ------------------------------------------------------------ loops
    def loop(self, fr, head, body, st, heads, within):
        import loops
        return loops.mir_loop(self, fr, head, body, st, heads, within)


def msgname(m):
    m = m.strip().strip('"')
    return re.sub(r'\{[^}]*\}', '_', m)


def short(p):
    return re.sub(r'::<.*', '', p)


def is_generic(t):
    t = t.strip()
    while t.startswith('&'):
        t = re.sub(r"^(&'\w+ mut |&'\w+ |&mut |&)", '', t)
    return bool(re.fullmatch(r'[A-Z][0-9]?|Self|impl .*|[A-Z]\w*::\w+|<.*', t)) or t.startswith('impl ')


def strip_generics(t):
    out, d, i = '', 0, 0
    while i < len(t):
        ch = t[i]
        if ch == '<':
            d += 1
            if out.endswith('::'):
                out = out[:-2]
        elif ch == '>' and t[i - 1] not in '-=':
            d -= 1
        elif d == 0:
            out += ch
        i += 1
    return out


_single = z3.Function('single', R, R)


INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE['u%d' % _b] = (0, 2 ** _b - 1)
    INT_RANGE['i%d' % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT_RANGE['usize'], INT_RANGE['isize'] = INT_RANGE['u64'], INT_RANGE['i64']
WIDE = ('usize', 'isize', 'u64', 'i64', 'u128', 'i128')


def idiv(a, b):
    """Rust integer division truncates; operands here are unsigned unless shown otherwise."""
    if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
        x, y = a.as_long(), b.as_long()
        q = abs(x) // abs(y)
        return IntVal(q if (x >= 0) == (y >= 0) else -q)
    # truncating division expressed with Euclidean div
    return If(a >= 0, a / b, -((-a) / b))


def irem(a, b):
    return If(a >= 0, a % b, -((-a) % b))


def trunc(x):
    if z3.is_app(x) and x.decl().eq(FLOOR):
        return z3.ToInt(x.arg(0))
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def lit_arr(items):
    def get(i):
        if z3.is_int_value(i) and 0 <= i.as_long() < len(items):
            return items[i.as_long()]
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            v = vite(z3.simplify(i == k), items[k], v)
        return v
    if not items:
        return Arr(IntVal(0), lambda i: Poison('element of empty array'))
    return Arr(IntVal(len(items)), get)


def fn_key(f):
    """(self type, trait, method, discriminating generics)"""
    s = getattr(f, 'impl_self', None)
    if s is None:
        segs = f.name.split('::')
        if len(segs) >= 2 and segs[-2][:1].isupper():
            return (None, segs[-2], segs[-1], '')
        return (None, None, segs[-1], '')
    g = ''
    norm_ = lambda t: re.sub(r"'\w+ ?", '', re.sub(r'\b(?:\w+::)+', '', t)).replace(' ', '').replace('ActivationT', 'f64').replace('IndexT', 'usize')
    m = re.search(r'<(.*)>', s)
    if last_seg(s) in ('Fixed', 'LFA') and m:
        g = norm_(m.group(1))
        if re.fullmatch(r'[A-Z]\d?(,[A-Z]\d?)*', g):
            g = ''      # type parameters, whatever they are called
    if last_seg(s) == 'ScalarLFA' or last_seg(s) == 'VectorLFA':
        return (last_seg(s), f.impl_trait, f.name.split('::')[-1], '')
    ta = norm_(f.impl_targs or '')
    if f.impl_trait in ('From', 'Dot', 'Kernel') and ta:
        g = ta
    return (last_seg(s), f.impl_trait, f.name.split('::')[-1], g)
