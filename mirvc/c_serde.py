"""Saving and loading (C31): every type with Serialize and Deserialize is its own inverse through
any lawful format.

The MIR is that of the crate built with the `serde` feature: the code the derive macros generate,
and Chebyshev's hand-written one. The format itself is assumed: it stores what the serializer is
given (names, keys, order, values) and replays it. It is replayed in the four ways the serde data
model allows a struct to be read: keys as strings, keys as bytes, keys as positions, and without
keys (a sequence of as many elements as the type asked for). Values of types outside of the crate
(numbers, ndarray, HashMap, ...) and of type parameters are assumed to load back as they were saved.
Values of the crate's own types are taken at their own contract here.
"""
import re
import z3
from terms import *
from values import *
import exec as E
import contract
import prove
from c_basis import ONE
import sym
from sym import Ctx, ok, err
from c_poly import ch_new, limits
from ext import none, some

PRIMS = {'bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'i128', 'u128', 'char', 'str'}
SERDE_TRAITS = {'Serializer', 'Deserializer', 'SerializeStruct', 'SerializeTupleStruct', 'SerializeTuple', 'SerializeSeq', 'SerializeStructVariant',
                'SerializeTupleVariant', 'MapAccess', 'SeqAccess', 'EnumAccess', 'VariantAccess'}


def nty(t):
    """a type without paths, lifetimes and blanks"""
    t = re.sub(r"'\w+ ?", '', t)
    t = re.sub(r'\b(?:\w+::)+(?=\w)', '', t)
    t = t.replace('DenseActivations', 'ArrayBase<OwnedRepr<f64>,Dim<[usize;1]>>').replace('ActivationT', 'f64').replace('IndexT', 'usize')
    return re.sub(r'\s+', '', t).replace('<,', '<').replace(',>', '>').replace('<>', '')


def split(g):
    import mirparse
    return [x.strip() for x in mirparse.split_top(g)]


class SEx(E.Ex):
    """execution of serde code: loops over the saved fields are executed field by field, all of them"""

    def fn_loops(self, fn):
        if '::deserialize' in fn.name or '::serialize' in fn.name:
            return {}
        return super().fn_loops(fn)

    def const(self, fr, st, t):
        s = t.strip()
        m = re.fullmatch(r'b?"((?:[^"\\]|\\.)*)"', s)
        if m:
            return ValRef(Opq(z3.Const('str "%s"' % m.group(1), OP), 'str', dict(text=m.group(1))))
        m = re.search(r"<impl (?:\w+::)*Deserialize<'de> for (.*)>::(deserialize::(?:FIELDS|VARIANTS))(::promoted\[\d+\])?$", s) or re.match(
            r"^<(.*) as (?:\w+::)*Deserialize<'de>>::(deserialize::(?:FIELDS|VARIANTS))(::promoted\[\d+\])?$", s)
        if m:
            want = nty(m.group(1))
            f = self.owned().get((want.split('<')[0], m.group(2) + (m.group(3) or '')))
            if f is not None:
                return self.run_const(st, f)
            raise Unsupported('constant %s' % s)
        if re.search(r'::__\w*Visitor(::<.*>)?( \{.*\})?$', s):
            return Opq(fresh('visitor', OP), 'visitor')
        return super().const(fr, st, t)

    def owned(self):
        """(type, item) -> constant of that type's Deserialize impl (impls made by a macro share their names, so by order)"""
        if not hasattr(self.mod, 'serde_owned'):
            d, cur, at = {}, None, {}
            place = lambda f: re.search(r'<impl at ([^>]*)>::deserialize', f.name)
            for f in self.mod.fns:
                m = re.match(r'std::result::Result<(.*), <\w+ as (?:\w+::)*Deserializer<', f.ret or '')
                if m and f.name.endswith('>::deserialize') and 'deserialize::' not in m.group(1) and not re.search(r'(?:^|::)Field$', m.group(1)):
                    cur = nty(m.group(1)).split('<')[0]
                    if place(f):
                        at.setdefault(place(f).group(1), set()).add(cur)
                m = re.search(r'(?:deserialize::|^)((?:FIELDS|VARIANTS)(?:::promoted\[\d+\])?)$', f.name)
                if f.is_const and m:
                    d.setdefault((place(f).group(1) if place(f) else None, 'deserialize::' + m.group(1)), []).append((cur, f))
            d, by = {}, d
            for (where, item), fs in by.items():
                one = at.get(where, ())
                for cur, f in fs:
                    d[(min(one) if len(one) == 1 else cur, item)] = f
            self.mod.serde_owned = d
        return self.mod.serde_owned

    def rvalue(self, fr, st, rv):
        if rv[0] in ('adt', 'struct') and re.search(r'::__Field(<.*>)?::\w+$', rv[1]):
            return Adt('__Field of ' + nty(fr.fn.ret), rv[1].split('::')[-1], [self.operand(fr, st, o if rv[0] == 'adt' else o[1]) for o in rv[2]])
        return super().rvalue(fr, st, rv)

    def discr_of(self, a):
        if a.name.startswith('__Field of '):
            m = re.match(r'__field(\d+)$', a.variant)
            if m:
                return int(m.group(1))
            n = 0
            for f in self.mod.fns:
                if not f.is_const and nty(f.ret or '') == a.name[11:]:
                    for b in f.blocks.values():
                        for s in b.stmts:
                            m = re.search(r'::__field(\d+)\b', str(s))
                            n = max(n, int(m.group(1)) + 1) if m else n
            return n
        return super().discr_of(a)

    def resolve(self, c, args, st):
        if c.trait in SERDE_TRAITS or (c.trait in ('Deserialize', 'Serialize') and c.method in ('deserialize', 'serialize')) or (c.trait == 'Error' and c.method in MESSAGES):
            return None
        return super().resolve(c, args, st)

    def call_path(self, fr, path, args, st):
        c = E.parse_callee(path)
        h = HANDLERS.get(c.method)
        if h and (c.trait in SERDE_TRAITS or c.trait in ('Deserialize', 'Serialize') or (c.trait == 'Error' and c.method in MESSAGES)):
            return h(self, st, c, args, fr)
        if c.selfty == 'str' and c.method in ('eq', 'ne'):
            x, y = text(self, st, args[0]), text(self, st, args[1])
            return st, TRUE if (x == y) == (c.method == 'eq') else FALSE
        return super().call_path(fr, path, args, st)

    def serde_fn(self, method, first=None, ret=None):
        """the function of the crate with this name whose first argument, or whose result, has the type"""
        out = []
        for f in self.mod.fns:
            if f.is_const or not f.name.endswith('>::' + method) or 'spaces' in f.name:
                continue
            if first is not None and nty(f.args[0][1]).lstrip('&') != first:
                continue
            if ret is not None:
                m = re.match(r'std::result::Result<(.*), <', f.ret)
                if not m or nty(m.group(1)) != ret:
                    continue
            out.append(f)
        if len(out) > 1:
            raise Unsupported('%d functions %s for %s' % (len(out), method, first or ret))
        return out[0] if out else None


HANDLERS = {}
MESSAGES = ('duplicate_field', 'missing_field', 'invalid_length', 'unknown_field', 'unknown_variant', 'invalid_value', 'custom', 'invalid_type')


def h(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def text(ex, st, v):
    w = ex.strip(st, v)
    if isinstance(w, Opq) and w.aux and 'text' in w.aux:
        return w.aux['text']
    raise Unsupported('a name that is not a literal')


def gho(tree, role):
    return Opq(fresh('serde', OP), role, dict(tree=tree))


def aux(ex, st, v):
    w = ex.strip(st, v)
    if not isinstance(w, Opq) or not w.aux:
        raise Unsupported('serde access that is not the assumed format')
    return w.aux


@h(*MESSAGES)
def _(ex, st, c, a, fr):
    return st, Opq(fresh('error', OP), 'error')


# ------------------------------------------------------------------ saving
def node(ex, st, ty, v, fr):
    """what the format stores for a value of type ty"""
    t = nty(ty)
    if '__SerializeWith' in t or ('serialize::' in ty and '__' in t):
        f = ex.serde_fn('serialize', first=t)
        if f is None:
            raise Unsupported('serialisation of %s' % ty)
        st, r = ex.run_fn(f, [v, gho(None, 'serializer')], st)
        return st, tree_of(ex, st, r)
    return st, ('value', t, contract.freeze(ex, st, v))


def tree_of(ex, st, r):
    r = ex.strip(st, r)
    if isinstance(r, Adt) and r.variant == 'Ok':
        w = ex.strip(st, r.fields[0])
        if isinstance(w, Opq) and w.aux and 'tree' in w.aux:
            return w.aux['tree']
    raise Unsupported('saving does not succeed')


def saved(t):
    return ok(gho(t, 'saved'))


@h('serialize_struct', 'serialize_tuple_struct', 'serialize_tuple', 'serialize_seq')
def _(ex, st, c, a, fr):
    named = c.method in ('serialize_struct', 'serialize_tuple_struct')
    n = z3.simplify(ex.strip(st, a[-1])) if c.method != 'serialize_seq' else None
    return st, ok(gho((c.method, text(ex, st, a[1]) if named else '', n, []), 'compound'))


@h('serialize_struct_variant', 'serialize_tuple_variant')
def _(ex, st, c, a, fr):
    i = z3.simplify(ex.strip(st, a[2]))
    return st, ok(gho((c.method, text(ex, st, a[1]), z3.simplify(ex.strip(st, a[4])), [], i, text(ex, st, a[3])), 'compound'))


@h('serialize_field', 'serialize_element')
def _(ex, st, c, a, fr):
    w = aux(ex, st, a[0])['tree']
    key = text(ex, st, a[1]) if len(a) == 3 else None
    st, x = node(ex, st, split(c.generics)[0], a[-1], fr)
    new = gho(w[:3] + (w[3] + [(key, x)],) + w[4:], 'compound')
    return ex.write(st, ex.loc(st, a[0]), new) or st, ok(UNIT)


@h('skip_field')
def _(ex, st, c, a, fr):
    return st, ok(UNIT)


@h('end')
def _(ex, st, c, a, fr):
    w = aux(ex, st, a[0])['tree']
    if w[2] is not None:
        st = ex.oblige(st, 'as many fields saved as announced', w[2] == len(w[3]), 'post')
    return st, saved(w)


@h('serialize_unit_struct')
def _(ex, st, c, a, fr):
    return st, saved(('unit', text(ex, st, a[1])))


@h('serialize_unit')
def _(ex, st, c, a, fr):
    return st, saved(('unit', None))


@h('serialize_newtype_struct')
def _(ex, st, c, a, fr):
    st, x = node(ex, st, split(c.generics)[0], a[2], fr)
    return st, saved(('newtype', text(ex, st, a[1]), x))


@h('serialize_unit_variant')
def _(ex, st, c, a, fr):
    return st, saved(('variant', text(ex, st, a[1]), z3.simplify(ex.strip(st, a[2])), text(ex, st, a[3]), None))


@h('serialize_newtype_variant')
def _(ex, st, c, a, fr):
    st, x = node(ex, st, split(c.generics)[0], a[4], fr)
    return st, saved(('variant', text(ex, st, a[1]), z3.simplify(ex.strip(st, a[2])), text(ex, st, a[3]), x))


for p in PRIMS - {'str'}:
    @h('serialize_' + p)
    def _(ex, st, c, a, fr, p=p):
        return st, saved(('value', p, contract.freeze(ex, st, a[1])))


@h('serialize')
def _(ex, st, c, a, fr):
    """<T as Serialize>::serialize(&value, serializer): the value saved on its own"""
    st, x = node(ex, st, c.selfty, a[0], fr)
    return st, saved(x)


# ------------------------------------------------------------------ loading
def visit(ex, st, c, visitor, methods, k):
    """call the first of the visitor's methods that exists: (method, ghost argument)"""
    vt = nty(split(c.generics)[0])
    for mth, arg in methods:
        f = ex.serde_fn(mth, first=vt)
        if f is not None:
            return ex.run_fn(f, [visitor, arg], st)
    raise Missing('%s has no %s' % (vt, ' or '.join(m_ for m_, _ in methods)))


class Missing(Unsupported):
    pass


def fields_of(tree):
    return tree[3]


def access(kind, **kw):
    return Opq(fresh('access', OP), kind, kw)


@h('deserialize_struct', 'deserialize_tuple_struct', 'deserialize_tuple', 'deserialize_seq', 'deserialize_any', 'deserialize_map')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    tree, mode = d['tree'], d['mode']
    n = None
    if c.method == 'deserialize_struct':
        lst = ex.strip(st, a[2])
        n = z3.simplify(lst.n).as_long() if isinstance(lst, Arr) else len(lst.items)
    elif c.method in ('deserialize_tuple_struct', 'deserialize_tuple'):
        n = z3.simplify(ex.strip(st, a[-2])).as_long()
    if tree[0] not in ('serialize_struct', 'serialize_tuple_struct', 'serialize_tuple', 'serialize_seq'):
        st = ex.oblige(st, 'loaded in the form in which it was saved (%s)' % tree[0], FALSE, 'post')
        return st, err(Opq(fresh('error', OP), 'error'))
    if c.method in ('deserialize_struct', 'deserialize_tuple_struct') and tree[1]:
        st = ex.oblige(st, 'loaded under the name it was saved with', TRUE if text(ex, st, a[1]) == tree[1] else FALSE, 'post')
    fs = tree[3]
    if tree[0] == 'serialize_struct' and c.method in ('deserialize_struct', 'deserialize_map', 'deserialize_any') and mode != 'positions only':
        return visit(ex, st, c, a[-1], [('visit_map', access('map', fields=fs, at=0, mode=mode, value=False))], fr)
    if tree[0] == 'serialize_struct' and c.method != 'deserialize_struct':
        raise Unsupported('a struct loaded as something else')
    return visit(ex, st, c, a[-1], [('visit_seq', access('seq', fields=fs[:n] if n is not None else fs, at=0, mode=mode))], fr)


@h('deserialize_newtype_struct')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    tree, mode = d['tree'], d['mode']
    if tree[0] != 'newtype':
        st = ex.oblige(st, 'loaded in the form in which it was saved (%s)' % tree[0], FALSE, 'post')
        return st, err(Opq(fresh('error', OP), 'error'))
    st = ex.oblige(st, 'loaded under the name it was saved with', TRUE if text(ex, st, a[1]) == tree[1] else FALSE, 'post')
    if mode == 'positions only':
        return visit(ex, st, c, a[-1], [('visit_seq', access('seq', fields=[(None, tree[2])], at=0, mode=mode))], fr)
    return visit(ex, st, c, a[-1], [('visit_newtype_struct', access('deserializer', tree=tree[2], mode=mode))], fr)


@h('deserialize_unit_struct', 'deserialize_unit')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    if d['tree'][0] != 'unit':
        st = ex.oblige(st, 'loaded in the form in which it was saved (%s)' % d['tree'][0], FALSE, 'post')
    vt = nty(split(c.generics)[0])
    f = ex.serde_fn('visit_unit', first=vt)
    if f is None:
        raise Unsupported('%s has no visit_unit' % vt)
    return ex.run_fn(f, [a[-1]], st)


@h('deserialize_enum')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    tree, mode = d['tree'], d['mode']
    if tree[0] not in ('variant', 'serialize_struct_variant', 'serialize_tuple_variant'):
        st = ex.oblige(st, 'loaded in the form in which it was saved (%s)' % tree[0], FALSE, 'post')
        return st, err(Opq(fresh('error', OP), 'error'))
    st = ex.oblige(st, 'loaded under the name it was saved with', TRUE if text(ex, st, a[1]) == tree[1] else FALSE, 'post')
    return visit(ex, st, c, a[-1], [('visit_enum', access('enum', tree=tree, mode=mode))], fr)


def key(ex, st, ty, name, pos, mode):
    """load a field or variant name as type ty"""
    f = ex.serde_fn('deserialize', ret=nty(ty))
    if f is None:
        raise Unsupported('key type %s' % ty)
    return ex.run_fn(f, [access('key', name=name, pos=pos, mode=mode)], st)


@h('deserialize_identifier', 'deserialize_str', 'deserialize_string', 'deserialize_u64', 'deserialize_u32')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    if 'pos' not in d:
        raise Unsupported('%s on a value' % c.method)
    s = ValRef(Opq(z3.Const('str "%s"' % d['name'], OP), 'str', dict(text=d['name'])))
    byname = [('visit_str', s), ('visit_borrowed_str', s), ('visit_string', s)]
    if d['mode'] == 'keys as bytes':
        s = ValRef(E.lit_arr([IntVal(x) for x in d['name'].encode()]))
        return visit(ex, st, c, a[-1], [('visit_bytes', s), ('visit_borrowed_bytes', s)], fr)
    if d['mode'] in ('keys as positions', 'positions only'):
        return visit(ex, st, c, a[-1], [('visit_u64', IntVal(d['pos'])), ('visit_u32', IntVal(d['pos']))], fr)
    return visit(ex, st, c, a[-1], byname, fr)


@h('next_key', 'next_entry')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    if c.method == 'next_entry' or d['value']:
        raise Unsupported('map access out of the usual order')
    if d['at'] >= len(d['fields']):
        return st, ok(none())
    st, k = key(ex, st, split(c.generics)[0], d['fields'][d['at']][0], d['at'], d['mode'])
    st = ex.write(st, ex.loc(st, a[0]), access('map', **dict(d, value=True))) or st
    return st, wrap_some(ex, st, k)


def wrap_some(ex, st, r):
    r = ex.strip(st, r)
    if isinstance(r, Adt) and r.variant == 'Ok':
        return ok(some(r.fields[0]))
    if isinstance(r, Adt):
        return r
    raise Unsupported('a key that is sometimes accepted')


def load(ex, st, ty, x, mode):
    """what the format gives for a stored node read as type ty"""
    t = nty(ty)
    if t == 'IgnoredAny':
        return st, ok(UNIT)
    if '__DeserializeWith' in t or x[0] != 'value':
        f = ex.serde_fn('deserialize', ret=t)
        if f is None:
            raise Unsupported('loading %s' % ty)
        return ex.run_fn(f, [access('deserializer', tree=x, mode=mode)], st)
    if x[1] != t:
        i = {'usize': 'u64', 'isize': 'i64'}
        if i.get(x[1], x[1]) != i.get(t, t):
            raise Unsupported('saved as %s, loaded as %s' % (x[1], t))
    return st, ok(x[2])


@h('next_value')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    if not d['value']:
        raise Unsupported('map access out of the usual order')
    r0, x = st, d['fields'][d['at']][1]
    st = ex.write(st, ex.loc(st, a[0]), access('map', **dict(d, value=False, at=d['at'] + 1))) or st
    return load(ex, st, split(c.generics)[0], x, d['mode'])


@h('next_element')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    if d['at'] >= len(d['fields']):
        return st, ok(none())
    st = ex.write(st, ex.loc(st, a[0]), access('seq', **dict(d, at=d['at'] + 1))) or st
    st, r = load(ex, st, split(c.generics)[0], d['fields'][d['at']][1], d['mode'])
    return st, wrap_some(ex, st, r)


@h('variant')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    tree = d['tree']
    i, name = (tree[2], tree[3]) if tree[0] == 'variant' else (tree[4], tree[5])
    st, k = key(ex, st, split(c.generics)[0], name, i.as_long(), d['mode'])
    k = ex.strip(st, k)
    if not isinstance(k, Adt):
        raise Unsupported('a variant that is sometimes accepted')
    return st, (ok(Tup([k.fields[0], access('variant', tree=tree, mode=d['mode'])])) if k.variant == 'Ok' else k)


@h('newtype_variant')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    if d['tree'][0] != 'variant' or d['tree'][4] is None:
        st = ex.oblige(st, 'variant loaded in the form in which it was saved', FALSE, 'post')
        return st, err(Opq(fresh('error', OP), 'error'))
    return load(ex, st, split(c.generics)[0], d['tree'][4], d['mode'])


@h('unit_variant')
def _(ex, st, c, a, fr):
    d = aux(ex, st, a[0])
    if d['tree'][0] != 'variant' or d['tree'][4] is not None:
        st = ex.oblige(st, 'variant loaded in the form in which it was saved', FALSE, 'post')
        return st, err(Opq(fresh('error', OP), 'error'))
    return st, ok(UNIT)


@h('deserialize')
def _(ex, st, c, a, fr):
    """<T as Deserialize>::deserialize(deserializer): a value loaded on its own"""
    d = aux(ex, st, a[0])
    return load(ex, st, c.selfty, d['tree'], d['mode'])


# ------------------------------------------------------------------ contracts
MODES = ('keys as strings', 'keys as bytes', 'keys as positions', 'positions only')


class RoundTrip:
    """loading gives back what saving stored"""
    module = 'c_serde'
    export = False

    def __init__(self, ty, props, cases):
        self.ty, self.props, self.cases = ty, props, cases
        self.name = '%s loads back' % ty
        self.key = ('round trip', ty)

    def verify(self, mod, registry, timeout=4000, verbose=False):
        res = contract.Result(self)
        import time
        t0 = time.time()
        q0, s0 = prove.STATS['queries'], prove.STATS['time']
        try:
            for cname, build in self.cases.items():
                self.case(mod, registry, cname, build, res, timeout, verbose)
        except E.Diverges as e:
            res.obls.append(dict(case='', name='%s returns' % self.name, kind='panic', status='unknown', where=str(e)))
        except Unsupported as e:
            res.error = str(e) or type(e).__name__
        except RecursionError:
            res.error = 'recursion limit of the verifier'
        except z3.Z3Exception as e:
            res.error = 'z3: %s' % e
        except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError, NotImplementedError) as e:
            res.error = 'internal: %s: %s' % (type(e).__name__, e)
            if verbose:
                import traceback
                traceback.print_exc()
        res.time = time.time() - t0
        res.queries = prove.STATS['queries'] - q0
        res.solver = prove.STATS['time'] - s0
        return res

    def case(self, mod, registry, cname, build, res, timeout, verbose):
        for mode in MODES:
            ex = SEx(mod, registry)
            ex.verifying = None
            ctx = Ctx(ex)
            v = build(ctx)
            sf = ex.serde_fn('serialize', first=self.find(ex, 'serialize', lambda f: nty(f.args[0][1]).lstrip('&')))
            df = ex.serde_fn('deserialize', ret=self.find(ex, 'deserialize', lambda f: nty(re.match(r'std::result::Result<(.*), <', f.ret).group(1))))
            st = ctx.st
            st, r = ex.run_fn(sf, [ctx_ref(ex, st, v), gho(None, 'serializer')], st)
            tree = tree_of(ex, st, r)
            if verbose:
                print(mode, str(tree)[:300])
            try:
                st, r = ex.run_fn(df, [access('deserializer', tree=tree, mode=mode)], st)
            except Missing:
                if mode in ('keys as bytes', 'keys as positions'):
                    continue   # formats of this kind need a method that the type chose not to offer
                raise
            want = contract.freeze(ex, st, ok(v))
            got = contract.freeze(ex, st, r)
            goals = [(o.name, o.hyp, o.goal, o.kind, o.where) for o in ex.obls]
            for nm, hy, g in sym.equal(ex, st, got, want, 'loaded value'):
                goals.append((nm, st.hyp() + list(hy), g, 'post', df.name))
            pv = prove.Prover(ctx.schema, timeout)
            if pv.check(st.hyp(), FALSE, 2000) == z3.unsat:
                raise Unsupported('contract of %s (%s) is vacuous' % (self.name, cname))
            for nm, hy, g, kind, where in goals:
                s = pv.prove(hy, g)
                if verbose and s != 'proved':
                    print('   %s [%s, %s] %s: %s' % (s, cname, mode, nm, str(z3.simplify(g))[:300]))
                res.obls.append(dict(case='%s, %s' % (cname, mode), name=nm, kind=kind, status=s, where=where))
            contract.merge_use(res, ex)
        res.assumptions.add('serialisation formats store and replay what they are given (C31)')
        res.assumptions.add('numbers, ndarray, HashMap and the types of spaces load back as they were saved (C31)')

    def find(self, ex, method, ty):
        out = set()
        for f in ex.mod.fns:
            if f.is_const or not f.name.endswith('>::' + method) or '__' in f.name.split('::')[-1]:
                continue
            try:
                t = ty(f)
            except AttributeError:
                continue
            if re.split(r'[<]', t)[0] == self.ty and 'Visitor' not in t:
                out.add(t)
        if len(out) != 1:
            raise Unsupported('%d impls of %s for %s' % (len(out), method, self.ty))
        return out.pop()


def ctx_ref(ex, st, v):
    return ValRef(v)


ROUND = []


def opaque_struct(ty, names):
    return lambda c: Adt(ty, ty, [Opq(z3.Const('%s.%s' % (ty, n), OP), 'field') for n in names], list(names))


def chebyshev(zeroth):
    """what the constructors build: new(order, limits), then with_zeroth any number of times"""
    def build(c):
        o = c.u8('order')
        c.pre(o <= 11)
        d = c.int('d')
        v = ch_new(c.ex, o, limits(c, d))
        if zeroth:
            k, (p, l) = c.int('k'), [sym.fld(v, x) for x in ('polynomials', 'limits')]
            rows = Arr(z3.simplify(p.n + k), lambda i: Arr(l.n, lambda j: sym.NumFn(lambda x: ite(i < p.n, p.get(i).get(j).f(x), ONE)), TRUE, 'vec'), TRUE, 'vec')
            v = sym.setf(v, polynomials=rows)
        return v
    return build


class Auto:
    """the fields come from the source, so that a new field has to be saved as well"""
    def __init__(self, ty):
        self.ty = ty

    def __call__(self, c):
        names = c.ex.mod.structs.get(self.ty)
        if not names:
            names = ['0']
        return opaque_struct(self.ty, names)(c)


def enum_case(ty, variant, n):
    return lambda c: Adt(ty, variant, [Opq(z3.Const('%s.%s.%d' % (ty, variant, k), OP), 'field') for k in range(n)])


for ty in ('SparseActivations', 'Exponential', 'Matern32', 'Matern52', 'ExpQuad', 'Cosine', 'RationalQuadratic', 'Fourier', 'Prototype', 'KernelBasis',
           'Polynomial', 'TileCoding', 'UniformGrid', 'Closure', 'Bias', 'Fixed', 'L0Normaliser', 'L1Normaliser', 'L2Normaliser', 'LinfNormaliser', 'Stack',
           'SGD', 'ISGD', 'SGDMomentum', 'NAG', 'Adam', 'AdaMax', 'Adagrad', 'LFA', 'Error'):
    ROUND.append(RoundTrip(ty, ['C31'], {'any': Auto(ty)}))
ROUND.append(RoundTrip('Features', ['C31'], {'dense': enum_case('Features', 'Dense', 1), 'sparse': enum_case('Features', 'Sparse', 1)}))
ROUND.append(RoundTrip('ErrorKind', ['C31'], {v: enum_case('ErrorKind', v, 0) for v in ('Basis', 'Evaluation', 'Optimisation')}))
ROUND.append(RoundTrip('Chebyshev', ['C31'], {'new': chebyshev(False), 'with_zeroth': chebyshev(True)}))
