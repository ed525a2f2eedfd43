"""Parser for the textual MIR that rustc prints with -Zunpretty=mir.

Only syntax is handled here; nothing is dropped silently: a statement or
terminator that is not understood becomes ('unsupported', text) and the
executor refuses to go past it.
"""
import re


class Fn:
    def __init__(self, name, args, ret):
        self.name, self.args, self.ret = name, args, ret
        self.blocks = {}
        self.locals = {}
        self.children = []   # closures
        self.parent = None
        self.span = None
        self.line = 0
        self.is_const = False
        self.debug = {}
        self.text = ''

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Block:
    __slots__ = ('stmts', 'term', 'cleanup')

    def __init__(self, cleanup):
        self.stmts, self.term, self.cleanup = [], None, cleanup


OPEN = {'(': ')', '[': ']', '{': '}'}


def scan(s, i, stop, angle=True):
    """Return the index of the first char of `stop` at nesting depth 0 from i."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                if s[i] == '\\':
                    i += 1
                i += 1
        elif depth == 0 and c in stop:
            return i
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif angle and c == '<' and s[i + 1:i + 2] != '=':
            depth += 1
        elif angle and c == '>' and s[i - 1] not in '-=':
            depth -= 1
        i += 1
    return -1


def split_top(s, sep=','):
    out, i = [], 0
    while True:
        j = scan(s, i, sep)
        if j < 0:
            t = s[i:].strip()
            if t:
                out.append(t)
            return out
        out.append(s[i:j].strip())
        i = j + 1


# ---------------------------------------------------------------- places
def parse_place(s):
    s = s.strip()
    p, i = _place(s, 0)
    if i != len(s):
        raise ValueError('place: %r rest %r' % (s, s[i:]))
    return p


def _place(s, i):
    if s[i] == '_':
        m = re.match(r'_\d+', s[i:])
        p = ('local', int(m.group(0)[1:]))
        i += len(m.group(0))
    elif s[i] == '(':
        if s[i + 1] == '*':
            p, i = _place(s, i + 2)
            assert s[i] == ')', s
            p = ('deref', p)
            i += 1
        else:
            p, i = _place(s, i + 1)
            if s[i] == '.':
                m = re.match(r'\.(\d+): ', s[i:])
                idx = int(m.group(1))
                j = scan(s, i + len(m.group(0)), ')')
                ty = s[i + len(m.group(0)):j]
                p = ('field', p, idx, ty)
                i = j + 1
            elif s.startswith(' as ', i):
                j = scan(s, i, ')')
                v = s[i + 4:j]
                p = ('downcast', p, v)
                i = j + 1
            else:
                raise ValueError('place %r at %d' % (s, i))
    else:
        raise ValueError('place %r at %d' % (s, i))
    while i < len(s) and s[i] == '[':
        j = scan(s, i + 1, ']')
        inner = s[i + 1:j]
        if re.fullmatch(r'_\d+', inner):
            p = ('index', p, ('local', int(inner[1:])))
        else:
            m = re.fullmatch(r'(-?)(\d+) of (\d+)', inner)
            if m:
                p = ('cindex', p, int(m.group(2)), bool(m.group(1)))
            else:
                raise ValueError('index %r' % inner)
        i = j + 1
    return p, i


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if re.fullmatch(r'_\d+', s):
        return ('copy', parse_place(s))
    # bare constants (function items) may appear without `const`
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'BitAnd', 'BitOr',
          'BitXor', 'Shl', 'Shr', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow',
          'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'Offset', 'Cmp'}
UNOPS = {'Neg', 'Not', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    m = re.match(r'^(\w+)\(', s)
    if m and (m.group(1) in BINOPS or m.group(1) in UNOPS):
        j = scan(s, len(m.group(0)), ')')
        if j == len(s) - 1:
            ops = [parse_operand(x) for x in split_top(s[len(m.group(0)):j])]
            return ('bin' if m.group(1) in BINOPS else 'un', m.group(1), ops)
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[len('discriminant('):-1]))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1]))
    if s.startswith('&'):
        t = s[1:]
        kind = 'shared'
        for pre, k in (('raw const (fake) ', 'raw'), ('raw const ', 'raw'), ('raw mut ', 'rawmut'), ('mut ', 'mut'),
                       ('fake shallow ', 'shared'), ('fake ', 'shared'), ('two_phase ', 'mut')):
            if t.startswith(pre):
                t = t[len(pre):]
                kind = k
                break
        return ('ref', kind, parse_place(t))
    if s.startswith('{closure@'):
        j = scan(s, 1, '}', angle=False)
        span = s[len('{closure@'):j]
        rest = s[j + 1:].strip()
        fields = []
        if rest.startswith('{'):
            fields = [parse_operand(x.split(': ', 1)[1]) for x in split_top(rest[1:-1].strip())]
        return ('closure', span, fields)
    if s.startswith(('copy ', 'move ', 'const ')):
        # operand or cast
        j = find_as(s)
        if j is not None:
            op = parse_operand(s[:j])
            m = re.match(r'^(.*) \(([A-Za-z]+(?:\(.*\))?)\)$', s[j + 4:])
            if m:
                return ('cast', op, m.group(1), m.group(2))
        return ('use', parse_operand(s))
    j = find_as(s)
    if j is not None:       # function items are printed without `const`
        m = re.match(r'^(.*) \((PointerCoercion\(.*\))\)$', s[j + 4:])
        if m:
            return ('cast', ('const', s[:j]), m.group(1), m.group(2))
    if s.startswith('['):
        inner = s[1:-1]
        j = scan(inner, 0, ';')
        if j >= 0:
            return ('repeat', parse_operand(inner[:j]), inner[j + 1:].strip())
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    # struct / enum aggregates
    j = scan(s, 0, '({ ') if True else -1
    j1 = scan(s, 0, '(')
    j2 = scan(s, 0, '{')
    if j2 >= 0 and (j1 < 0 or j2 < j1) and s.endswith('}'):
        name = s[:j2].strip()
        fields = []
        for x in split_top(s[j2 + 1:-1].strip()):
            k, v = x.split(': ', 1)
            fields.append((k, parse_operand(v)))
        return ('struct', name, fields)
    if j1 >= 0 and s.endswith(')'):
        return ('adt', s[:j1].strip(), [parse_operand(x) for x in split_top(s[j1 + 1:-1])])
    if re.match(r'^[\w:<>, &\'\[\]();{}@./\-]+$', s):
        return ('adt', s, [])
    raise ValueError('rvalue %r' % s)


def find_as(s):
    i = 0
    while True:
        i = s.find(' as ', i)
        if i < 0:
            return None
        # depth check
        if scan(s, 0, '\0') == -1:
            d = 0
            k = 0
            ok = True
            while k < i:
                c = s[k]
                if c in '([{':
                    d += 1
                elif c in ')]}':
                    d -= 1
                elif c == '<':
                    d += 1
                elif c == '>' and s[k - 1] not in '-=':
                    d -= 1
                k += 1
            if d == 0:
                return i
        i += 4


TARGET_RE = re.compile(r' -> (\[.*\]|bb\d+|unwind .*)$', re.S)


def parse_targets(t):
    d = {}
    t = t.strip()
    if t.startswith('['):
        for x in split_top(t[1:-1]):
            k, _, v = x.partition(': ')
            if not v:
                k, _, v = x.partition(' ')
            d[k] = v
    elif t.startswith('bb'):
        d['return'] = t
    else:
        d['unwind'] = t
    return d


def bbn(s):
    m = re.fullmatch(r'bb(\d+)', s.strip())
    return int(m.group(1)) if m else None


def parse_term(s):
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s == 'resume' or s.startswith('terminate'):
        return ('resume',)
    m = re.fullmatch(r'goto -> bb(\d+)', s)
    if m:
        return ('goto', int(m.group(1)))
    if s.startswith('switchInt('):
        j = scan(s, 10, ')')
        op = parse_operand(s[10:j])
        t = parse_targets(s[j + 1:].strip()[3:])
        cases = [(int(k), bbn(v)) for k, v in t.items() if k != 'otherwise']
        return ('switch', op, cases, bbn(t['otherwise']) if 'otherwise' in t else None)
    if s.startswith('drop('):
        j = scan(s, 5, ')')
        t = parse_targets(s[j + 1:].strip()[3:])
        return ('drop', parse_place(s[5:j]), bbn(t['return']))
    if s.startswith('assert('):
        j = scan(s, 7, ')')
        parts = split_top(s[7:j])
        c = parts[0]
        neg = c.startswith('!')
        if neg:
            c = c[1:]
        t = parse_targets(s[j + 1:].strip()[3:])
        return ('assert', parse_operand(c), not neg, parts[1] if len(parts) > 1 else '', bbn(t.get('success', t.get('return', ''))),
                [parse_operand(x) for x in parts[2:]] if False else [])
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'real: bb(\d+)', s)
        return ('goto', int(m.group(1)))
    m = TARGET_RE.search(s)
    if m:
        t = parse_targets(m.group(1))
        body = s[:m.start()]
        j = scan(body, 0, '=')
        # ' = ' separates destination
        k = body.find(' = ')
        dest = parse_place(body[:k])
        rest = body[k + 3:]
        if rest.startswith('move _') or rest.startswith('copy _'):
            i = scan(rest, 5, '(')
            callee = ('op', parse_operand(rest[:i]))
        else:
            i = scan(rest, 0, '(')
            callee = ('path', rest[:i])
        a = rest[i + 1:scan(rest, i + 1, ')')]
        args = [parse_operand(x) for x in split_top(a)]
        return ('call', dest, callee, args, bbn(t['return']) if 'return' in t else None, t.get('unwind'))
    return ('unsupported', s)


def parse_stmt(s):
    for pre in ('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'ConstEvalCounter',
                'Coverage', 'Retag', 'BackwardIncompatibleDropHint'):
        if s.startswith(pre):
            return None
    k = s.find(' = ')
    if k > 0:
        if s.startswith('discriminant('):
            return ('setdiscr', parse_place(s[13:s.index(')', 13)]), int(s[k + 3:]))
        return ('assign', parse_place(s[:k]), parse_rvalue(s[k + 3:]))
    return ('unsupported', s)


HEAD = re.compile(r'^(fn|const|static) (.*)$')


def parse_module(text):
    """-> list of Fn in file order (consts too)."""
    out = []
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('//') or not ln.strip():
            i += 1
            continue
        m = HEAD.match(ln)
        if not m:
            i += 1
            continue
        if m.group(1) in ('const', 'static'):
            body = m.group(2)
            mm = re.match(r'^(.*?): (.*?) = (.*)$', split_const(body))
            if body.rstrip().endswith(';'):
                nm, ty, val = split_const3(body.rstrip()[:-1])
                f = Fn(nm, [], ty)
                f.is_const = True
                f.value = val
                out.append(f)
                i += 1
                continue
            nm, ty, _ = split_const3(body)
            f = Fn(nm, [], ty)
            f.is_const = True
            f.value = None
        else:
            h = m.group(2)
            j = scan(h, 0, '(')
            e = scan(h, j + 1, ')')
            args = []
            for a in split_top(h[j + 1:e]):
                k, t = a.split(': ', 1)
                args.append((int(k[1:]), t))
            ret = h[e + 1:].strip()
            ret = ret[3:] if ret.startswith('-> ') else '()'
            ret = ret.rstrip('{').strip()
            f = Fn(h[:j], args, ret)
        f.line = i
        start = i
        i += 1
        cur = None
        while i < n and lines[i] != '}':
            l = lines[i].strip()
            mb = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', l)
            if mb:
                cur = Block(bool(mb.group(2)))
                f.blocks[int(mb.group(1))] = cur
                i += 1
                items = []
                buf = ''
                while lines[i].strip() != '}':
                    t = lines[i].strip()
                    buf = (buf + ' ' + t) if buf else t
                    if buf.endswith(';'):
                        items.append(buf[:-1])
                        buf = ''
                    i += 1
                for q, it in enumerate(items):
                    try:
                        if q == len(items) - 1:
                            cur.term = parse_term(it)
                        else:
                            st = parse_stmt(it)
                            if st:
                                cur.stmts.append(st)
                    except Exception as ex:
                        if q == len(items) - 1:
                            cur.term = ('unsupported', it + '  # %r' % ex)
                        else:
                            cur.stmts.append(('unsupported', it + '  # %r' % ex))
                i += 1
                continue
            ml = re.match(r'^let (?:mut )?_(\d+): (.*);$', l)
            if ml:
                f.locals[int(ml.group(1))] = ml.group(2)
            md = re.match(r'^debug (\S+) => _(\d+);$', l)
            if md:
                f.debug[md.group(1)] = int(md.group(2))
            i += 1
        f.text = '\n'.join(lines[start:i + 1])
        for a, t in f.args:
            f.locals[a] = t
        out.append(f)
        i += 1
    link(out)
    return out


def split_const(s):
    return s


def split_const3(s):
    # NAME: TYPE = VALUE  -- NAME may contain <impl at f:1:2: 3:4>
    i = scan(s, 0, ':')
    while s[i:i + 2] == '::':
        i = scan(s, i + 2, ':')
    nm = s[:i]
    j = s.find(' = ', i)
    return nm, s[i + 2:j], s[j + 3:]


CLO = re.compile(r'\{closure@([^}]*)\}')


def link(fns):
    """Attach closures (and promoteds) to the function instance they follow."""
    last = {}
    for f in fns:
        p = None
        m = re.match(r'^(.*)::(\{closure#\d+\}|promoted\[\d+\])$', f.name)
        if m:
            p = last.get(m.group(1))
            if p is not None:
                f.parent = p
                p.children.append(f)
            if m.group(2).startswith('{closure'):
                ma = CLO.search(f.args[0][1]) if f.args else None
                if ma:
                    f.span = ma.group(1)
        last[f.name] = f


if __name__ == '__main__':
    import sys
    fns = parse_module(open(sys.argv[1]).read())
    bad = 0
    for f in fns:
        for b, bl in f.blocks.items():
            for s in bl.stmts + [bl.term]:
                if s is None or s[0] == 'unsupported':
                    bad += 1
                    print(f.name, b, s)
    print(len(fns), 'functions', bad, 'unparsed')
