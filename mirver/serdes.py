"""Saved data: serialisation followed by deserialisation of the code the derive macros (or a hand-written
impl) put in the crate.  The serialiser is a contract on serde's data model: what is given to it is kept as a
tree; the deserialiser hands the same tree back, a record as a sequence of named entries in the order in
which they were written.  Values of std and chrono types, and of crate types whose round trip has a contract
of its own, are leaves that come back as they were put in."""
import re
from .terms import *
from .values import *
from .mir import split_top
from . import text

OK_, ERR = lambda v: VEnum('Result', IntC(0), {0: (v,)}), lambda: VEnum('Result', IntC(1), {1: (VAgg('ser.err', []),)})
TYPES = []         # types whose round trip has a contract
RON = ('Accounts', 'ValuationModel')        # saved in a format whose maps have keys of any kind; the others also in one with text keys (JSON)
SER, KEYLEAF = VAgg('ser.to', []), ('NaiveDate', 'String', 'str', 'char', 'bool', 'NaiveDateTime')


def string(v):
    v = deref(v)
    if isinstance(v, VText) and all(n[0] == 'lit' for n in v.nodes):
        return ''.join(n[1] for n in v.nodes)
    raise Unsupported('name in serialised data')


def norm(eng, ty):
    """a type's text without lifetimes, references and paths"""
    ty = re.sub(r"'\w+\s*,?\s*", '', ty.strip())
    while ty.startswith('&'):
        ty = re.sub(r'^&\s*(?:mut\s+)?', '', ty)
    if ty.startswith('('):
        return '(%s)' % ', '.join(norm(eng, x) for x in split_top(ty[1:-1]))
    r = eng.sym.resolve(ty)
    if r != ty:
        return norm(eng, r)
    m = re.match(r'^([\w:]+?)(?:::)?<(.*)>$', ty, re.S)
    if m:
        a = [norm(eng, x) for x in split_top(m.group(2))]
        return '%s<%s>' % (m.group(1).split('::')[-1], ', '.join(x for x in a if x))
    return ty.split('::')[-1] if re.match(r'^[\w:]+$', ty) else ty


def unify(a, b):
    """equal types, up to parameters (single capital letters) left open"""
    if a == b or re.match(r'^_*[A-Z]\d?$', a) or re.match(r'^_*[A-Z]\d?$', b):
        return True
    pa, pb = re.match(r'^(\w*)[<(](.*)[>)]$', a, re.S), re.match(r'^(\w*)[<(](.*)[>)]$', b, re.S)
    if not pa or not pb or pa.group(1) != pb.group(1):
        return False
    x, y = split_top(pa.group(2)), split_top(pb.group(2))
    return len(x) == len(y) and all(unify(p.strip(), q.strip()) for p, q in zip(x, y))


def index(eng):
    if hasattr(eng, '_serde'):
        return eng._serde
    ser, de, vis = {}, {}, {}
    for name, fs in eng.mir.fns.items():
        meth = name.split('::')[-1]
        if '{closure' in name or '<impl at' not in name:
            continue
        for f in fs:
            f.parse()
            if meth == 'serialize' and len(f.args) == 2:
                ser.setdefault(key(eng, f.args[0][1]), []).append(f)
            elif meth == 'deserialize' and len(f.args) == 1:
                m = re.match(r'^std::result::Result<(.*)>$', f.ret, re.S)
                if m:
                    de.setdefault(key(eng, split_top(m.group(1))[0]), []).append(f)
            elif meth.startswith('visit_') and f.args:
                vis[key(eng, f.args[0][1]), meth] = f
    eng._serde = ser, de, vis
    return eng._serde


def only(fs):
    """the function of a name; several (wrappers of several fields) must do the same, types apart"""
    def code(f):
        x, d, out = '\n'.join(f.file.lines[f.lo:f.hi]), 0, []
        x = x[x.index('bb0:'):].replace('->', '~')
        for ch in x:
            d -= ch == '>'
            if not d:
                out.append(ch)
            d += ch == '<'
        return ''.join(out)
    if len(fs) > 1 and len({code(f) for f in fs}) > 1:
        raise Unsupported('several ways to save a field')
    return fs[0]


def key(eng, ty):
    """name under which the impls of a type are found"""
    ty = ty.strip()
    if '<impl ' in ty or '{' in ty:
        ty = re.sub(r"^&\s*(?:'\w+\s+)?", '', ty)
        return re.sub(r"'\w+|\s|<,*>|<_?>", '', re.sub(r"<'_>", '', ty))
    return norm(eng, ty)


def contracted(eng, ty):
    """round trips of the crate's types in ty, for which there are contracts"""
    return [n for n in eng.serdes if re.search(r'\b%s\b' % n, ty)]


def wide(ty):
    """keys of maps in ty"""
    out = []
    for m in re.finditer(r'\b(?:BTreeMap|HashMap)<', ty):
        d, i = 1, m.end()
        while d and i < len(ty):
            d += {'<': 1, '(': 1, '>': -1, ')': -1}.get(ty[i], 0)
            i += 1
        out.append(split_top(ty[m.end():i - 1])[0].strip())
    return out


def node(eng, st, v, ty):
    """the tree of a value"""
    ser, _, _ = index(eng)
    v = eng.dd(st, v)
    k = key(eng, ty)
    if k in ser and k not in eng.serdes or k in eng.serdes and k == eng.sertop:
        r = eng.exec_fn(only(ser[k]), [VShared(v), SER], st)
        return done(eng, r)
    t = norm(eng, ty)
    return st, leaf(eng, st, v, t)


def leaf(eng, st, v, t):
    """a value that is written and read as its type does it"""
    for n in contracted(eng, t):
        eng.used_contracts.add('serde ' + n)
    for q in wide(t) if eng.sertop not in RON else ():
        if not (q in KEYLEAF or re.match(r'^[iu](8|16|32|64|128|size)$', q) or q in eng.types.enums and all(not a for _, a in eng.types.enums[q])):
            eng.serbad.append('%s is written as a JSON object, whose keys are strings, not %s' % (t, q))
    return VAgg('ser.leaf', [eng.dd_deep(st, v), VOpaque(t)])


def done(eng, r):
    """(state, value) of a call that must return Ok"""
    if r is None:
        raise Unsupported('serialisation does not return')
    st, v = r
    if not (isinstance(v, VEnum) and isc(v.d)):
        raise Unsupported('outcome of serialisation depends on the data')
    if cv(v.d) != 0:
        raise Unsupported('serialisation fails')
    return st, v.p[0][0]


def denode(eng, st, n, ty):
    """(state, Result) of reading tree n at type ty"""
    _, de, _ = index(eng)
    k = key(eng, ty)
    if k == 'IgnoredAny':
        return st, OK_(VAgg('IgnoredAny', []))
    if n.name == 'ser.leaf':
        if unify(norm(eng, ty), n.f[1].what):
            return st, OK_(n.f[0])
        if k not in de:
            raise Unsupported('%s read from %s' % (norm(eng, ty), n.f[1]))
    if k in de:
        return eng.exec_fn(only(de[k]), [n], st)
    raise Unsupported('%s read from a tree' % norm(eng, ty))


def visit(eng, st, v, vty, meth, arg):
    _, _, vis = index(eng)
    f = vis.get((key(eng, vty), meth))
    if f is None:
        raise Unsupported('%s of %s' % (meth, vty))
    return eng.exec_fn(f, [v, arg], st)


def call(eng, t, full, args, st, fr):
    """models of serde's traits; NotImplemented where the call is none of them"""
    m = re.match(r'^<(.*) as (?:[\w:]*)\b(Serialize|Serializer|SerializeStruct|SerializeTuple|SerializeTupleStruct|SerializeSeq|Deserialize|Deserializer|MapAccess|SeqAccess|EnumAccess|VariantAccess|Error)\b(?:<.*?>)?>::(\w+)(?:::<(.*)>)?$', full, re.S)
    if m is None:
        m2 = re.search(r"::de::missing_field::<(.*)>$", full, re.S)
        if m2 and 'serde' in full:
            ty = norm(eng, [x for x in split_top(m2.group(1)) if not x.strip().startswith("'")][0])
            return st, OK_(VEnum('Option', IntC(0), {})) if ty.startswith('Option<') else ERR()
        return NotImplemented
    sty, tr, meth, g = m.groups()
    if tr == 'Error':
        return (st, VAgg('ser.err', [])) if 'serde' in full else NotImplemented
    if not getattr(eng, 'serdes', None):
        return NotImplemented
    ga = split_top(g) if g else []
    if tr == 'Serialize' and meth == 'serialize':
        st, n = node(eng, st, args[0], sty)
        return st, OK_(n)
    if tr == 'Serializer':
        if meth == 'serialize_unit_variant':
            return st, OK_(VAgg('ser.variant', [args[3]]))
        if meth == 'serialize_struct':
            return st, OK_(VAgg('ser.open', []))
        if meth in ('serialize_tuple', 'serialize_tuple_struct', 'serialize_seq'):
            return st, OK_(VAgg('ser.open', []))
        m = re.match(r'^serialize_(f64|f32|bool|[iu](?:8|16|32|64))$', meth)
        if m:
            return st, OK_(leaf(eng, st, args[1], m.group(1)))
        if meth == 'serialize_newtype_struct':
            st, n = node(eng, st, args[2], ga[0])
            return st, OK_(n)
        if meth == 'serialize_str':
            return st, OK_(VAgg('ser.variant', [args[1]]))
        if meth in ('collect_seq', 'collect_map'):
            from . import models
            v = eng.dd(st, args[1])
            it = v if isinstance(v, VIter) else models.to_iter(eng, st, v, None, 'ref')
            x = models.collect(eng, st, it, 'std::vec::Vec<?>')
            g = norm(eng, ga[0])
            m = re.match(r'^(BTreeMap|HashMap)<(.*)>$', g, re.S)
            m = m and 'Vec<(%s)>' % m.group(2) or re.sub(r'^(BTreeSet|HashSet|Vec)<', 'Vec<', g)
            if meth == 'collect_map' or not m.startswith('Vec<'):
                raise Unsupported('Serializer::' + meth)
            return st, OK_(leaf(eng, st, x, m))
        raise Unsupported('Serializer::' + meth)
    if tr == 'SerializeStruct':
        if meth == 'skip_field':
            return st, OK_(UNIT)
        if meth == 'end':
            return st, OK_(VAgg('ser.map', args[0].f))
        st, n = node(eng, st, args[2], ga[0])
        cur = eng.load(st, args[0])
        st = st.copy()
        eng.store(st, args[0], VAgg('ser.open', list(cur.f) + [VAgg('ser.entry', [args[1], n])]))
        return st, OK_(UNIT)
    if tr in ('SerializeTuple', 'SerializeTupleStruct', 'SerializeSeq'):
        if meth == 'end':
            return st, OK_(VAgg('ser.tuple', args[0].f))
        st, n = node(eng, st, args[1], ga[0])
        cur = eng.load(st, args[0])
        st = st.copy()
        eng.store(st, args[0], VAgg('ser.open', list(cur.f) + [n]))
        return st, OK_(UNIT)
    if tr == 'Deserialize':
        return denode(eng, st, args[0], sty)
    if tr == 'Deserializer':
        n, v = args[0], args[-1]
        vty = ga[-1]
        if not isinstance(n, VAgg) or n.name not in ('ser.map', 'ser.tuple', 'ser.variant', 'ser.str', 'ser.leaf'):
            raise Unsupported('deserialiser')
        if meth in ('deserialize_struct', 'deserialize_map', 'deserialize_any') and n.name == 'ser.map':
            s = st.copy()
            return visit(eng, s, v, vty, 'visit_map', VAgg('ser.read', list(n.f)))
        if meth in ('deserialize_tuple', 'deserialize_tuple_struct', 'deserialize_seq', 'deserialize_any') and n.name == 'ser.tuple':
            return visit(eng, st.copy(), v, vty, 'visit_seq', VAgg('ser.read', list(n.f)))
        if meth == 'deserialize_enum' and n.name == 'ser.variant':
            return visit(eng, st, v, vty, 'visit_enum', n)
        if meth in ('deserialize_identifier', 'deserialize_str', 'deserialize_string', 'deserialize_any') and n.name in ('ser.str', 'ser.variant'):
            return visit(eng, st, v, vty, 'visit_str', VShared(n.f[0]))
        if meth == 'deserialize_newtype_struct':
            return visit(eng, st, v, vty, 'visit_newtype_struct', n)
        raise Unsupported('%s of %s' % (meth, n.name))
    if tr == 'MapAccess':
        cur = eng.load(st, args[0])
        if meth == 'next_key':
            if not cur.f:
                return st, OK_(VEnum('Option', IntC(0), {}))
            r = denode(eng, st, VAgg('ser.str', [cur.f[0].f[0]]), ga[0])
            if r is None:
                return None
            s, v = r
            if not isc(v.d):
                raise Unsupported('name of an entry')
            return s, (OK_(VEnum('Option', IntC(1), {1: (v.p[0][0],)})) if cv(v.d) == 0 else v)
        if meth == 'next_value':
            s = st.copy()
            eng.store(s, args[0], VAgg('ser.read', list(cur.f[1:])))
            return denode(eng, s, cur.f[0].f[1], ga[0])
        raise Unsupported('MapAccess::' + meth)
    if tr == 'SeqAccess':
        cur = eng.load(st, args[0])
        if meth == 'size_hint':
            return st, VEnum('Option', IntC(1), {1: (IntC(len(cur.f)),)})
        if meth != 'next_element':
            raise Unsupported('SeqAccess::' + meth)
        if not cur.f:
            return st, OK_(VEnum('Option', IntC(0), {}))
        s = st.copy()
        eng.store(s, args[0], VAgg('ser.read', list(cur.f[1:])))
        r = denode(eng, s, cur.f[0], ga[0])
        if r is None:
            return None
        s, v = r
        if not isc(v.d):
            raise Unsupported('element of a sequence')
        return s, (OK_(VEnum('Option', IntC(1), {1: (v.p[0][0],)})) if cv(v.d) == 0 else v)
    if tr == 'EnumAccess' and meth == 'variant':
        r = denode(eng, st, VAgg('ser.str', [args[0].f[0]]), ga[0])
        if r is None:
            return None
        s, v = r
        if not isc(v.d):
            raise Unsupported('name of a variant')
        return s, (OK_(VAgg('tuple', [v.p[0][0], args[0]])) if cv(v.d) == 0 else v)
    if tr == 'VariantAccess' and meth == 'unit_variant':
        return st, OK_(UNIT)
    raise Unsupported('%s::%s' % (tr, meth))


def cases(eng, T):
    """(label, value) of the kinds of values of type T: each variant, or each choice of the fields there are"""
    if T in eng.types.enums:
        for i, (n, a) in enumerate(eng.types.enums[T]):
            if a:
                raise Unsupported('variant with data')
            yield n, VEnum(T, IntC(i), {})
        return
    v = deref(eng.sym.make(T, 'a0'))
    opt = [i for i, x in enumerate(v.f) if isinstance(deref(x), VEnum) and deref(x).ty == 'Option']
    for b in range(2 ** len(opt)):
        f = list(v.f)
        for j, i in enumerate(opt):
            x = deref(f[i])
            on = b >> j & 1
            f[i] = VEnum('Option', IntC(on), {1: x.p[1]} if on else {})
        yield (format(b, 'b') if opt else ''), VAgg(v.name, f)


def verify(eng, c, rep, stop):
    from . import engine as E, vc, smt
    T = c.serde
    ser, de, _ = index(eng)
    if T not in ser or T not in de:
        raise Unsupported('no serialisation of ' + T)
    eng.serdes, eng.sertop, eng.serbad = TYPES, T, []
    eng.used_contracts, eng.inlined, eng.models_used = set(), set(), set()
    eng.current = c
    try:
        for what, v in cases(eng, T):
            st = E.State({}, ())
            eng.sinks.append([])
            try:
                st, n = node(eng, st, v, T)
                r = denode(eng, st, n, T)
            finally:
                pan = eng.sinks.pop()
            for p in pan:
                rep.obls.append(vc.Obl('no panic: ' + p.msg, False, 'path', str(p.pc)[:500]))
            if r is None:
                rep.obls.append(vc.Obl('reading back returns ' + what, False, 'path', ''))
                continue
            st, w = r
            g = [('data written is read back ' + what, Eq(w.d, IntC(0)))]
            if 0 in w.p:
                g += vc.cmpv(eng, eng.dd_deep(st, w.p[0][0]), v, what)
            for l, x in g:
                o = smt.prove(list(st.pc), x, dict(vc.LIM))
                rep.obls.append(vc.Obl(l, o.ok, o.how, o.detail, o.model, o.time))
                if stop and not o.ok:
                    return
    finally:
        eng.serdes, eng.sertop, eng.current = (), None, None
        rep.used, rep.inlined, rep.models = set(eng.used_contracts), set(eng.inlined), set(eng.models_used)
    for b in sorted(set(eng.serbad)):
        rep.obls.append(vc.Obl('keys can be written: ' + b, False, 'syntactic', b))
