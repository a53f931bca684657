"""Text built by the formatting machinery: ropes of literals, displayed values,
conditional parts and parts repeated for every iteration of a loop.

What is kept of core::fmt: the order of literal pieces and arguments of a format
template and the precision of each argument; padding, alignment and sign options
are dropped (they add blanks only)."""
import re
from .terms import *
from .values import *

_any = [0]


def unescape(s):
    """contents of a Rust string / byte-string / char constant as MIR prints it"""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        e = s[i + 1]
        i += 2
        if e == 'x':
            out.append(chr(int(s[i:i + 2], 16)))
            i += 2
        elif e == 'u':
            j = s.index('}', i)
            out.append(chr(int(s[i + 1:j], 16)))
            i = j + 1
        else:
            out.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(e, e))
    return ''.join(out)


def constant(t):
    m = re.match(r'''^b?(["'])(.*)\1$''', t, re.S)
    if not m:
        return VText((unknown(),))
    try:
        return lit(unescape(m.group(2)))
    except (ValueError, IndexError):
        return VText((unknown(),))


def lit(s):
    return VText((('lit', s),) if s else ())


def unknown():
    _any[0] += 1
    return ('any', _any[0])


def cat(*vs):
    out = []
    for v in vs:
        v = deref(v)
        for n in v.nodes if isinstance(v, VText) else (unknown(),):
            if n[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + n[1])
            else:
                out.append(n)
    return VText(tuple(out))


def shown(v, ty, prec=None):
    """what displaying a value of the given type adds to the text"""
    v = deref(v)
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty.strip())
    if isinstance(v, VText) and prec is None:
        return v
    if isinstance(v, VEnum) and not v.p:
        return VText((('arg', v, None),))
    if isinstance(v, T) and v.sort in (I, R) and (ty in INT or ty in ('f64', 'f32')):
        return VText((('arg', v, prec),))
    return VText((unknown(),))


def template(b, args):
    """text of core::fmt::Arguments from its encoded template"""
    out, i, nxt = [], 0, 0
    b = [ord(c) for c in b]
    while True:
        c = b[i]
        i += 1
        if c == 0:
            return cat(*out)
        if c < 0x80 or c == 0x80:
            n = c
            if c == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append(lit(bytes(b[i:i + n]).decode('utf8')))
            i += n
            continue
        if c < 0xC0:
            raise Unsupported('format template')
        prec = None
        if c & 1:
            fl = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
            if fl & 0x02800000 or fl & 0x04000000:
                raise Unsupported('alternate or hexadecimal format')
            prec = 0 if fl & 0x10000000 else None
            i += 4
        if c & 2:
            i += 2
        if c & 4:
            prec = b[i] | b[i + 1] << 8
            i += 2
        if c & 8:
            nxt = b[i] | b[i + 1] << 8
            i += 2
        if c & 0x20:
            raise Unsupported('format precision from an argument')
        ty, v = args[nxt]
        nxt += 1
        out.append(shown(v, ty, prec))


def rep(n, el):
    """el(0) el(1) ... el(n-1)"""
    if isc(n):
        return cat(*[el(IntC(i)) for i in range(cv(n))])
    j = fresh('tj', I)
    b = cat(el(j)).nodes
    return VText((('rep', n, j, b),) if b else ())


def cond(c, a, b=None):
    return mergetext(c, cat(a), cat(b) if b is not None else VText(()))


# ---------------------------------------------------------------- loops
def pieces(back, op):
    """what one iteration appends to the text whose value at its start is op"""
    if not isinstance(back, VText) or not back.nodes or back.nodes[0][0] != 'open' or back.nodes[0][1] is not op:
        raise Unsupported('text of a loop is not extended at its end')
    return back.nodes[1:]


def opens(nodes):
    for n in nodes:
        if n[0] == 'open':
            yield n[1]
        elif n[0] == 'if':
            yield from opens(n[2])
            yield from opens(n[3])
        elif n[0] == 'rep':
            yield from opens(n[3])


def closed(v, m):
    """replace the open header texts by their closed form"""
    if isinstance(v, VText):
        if not any(o in m for o in opens(v.nodes)):
            return v

        def go(ns):
            out = []
            for n in ns:
                if n[0] == 'open' and n[1] in m:
                    out.append(m[n[1]])
                elif n[0] == 'if':
                    out.append(VText((('if', n[1], go(n[2]), go(n[3])),)))
                elif n[0] == 'rep':
                    out.append(VText((('rep', n[1], n[2], go(n[3])),)))
                else:
                    out.append(VText((n,)))
            return cat(*out).nodes
        return VText(go(v.nodes))
    if isinstance(v, VAgg):
        f = [closed(x, m) for x in v.f]
        return v if all(a is b for a, b in zip(f, v.f)) else VAgg(v.name, f)
    if isinstance(v, VEnum):
        p = {k: tuple(closed(x, m) for x in xs) for k, xs in v.p.items()}
        return v if all(a is b for k in p for a, b in zip(p[k], v.p[k])) else VEnum(v.ty, v.d, p)
    if isinstance(v, VShared):
        w = closed(v.v, m)
        return v if w is v.v else VShared(w)
    return v


# ---------------------------------------------------------------- comparison
def squeeze(s, nl):
    """literal text without letters and blanks; line breaks as separate nodes, only after something on the line"""
    out = []
    for c in s:
        if c == '\n':
            if not nl:
                out.append(('nl',))
            nl = True
        elif c.isspace():
            pass
        else:
            nl = False
            if not c.isalpha():
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + c)
                else:
                    out.append(('lit', c))
    return out, nl


def canon(nodes, nl=True):
    out = []

    def add(ns):
        for n in ns:
            if n[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + n[1])
            else:
                out.append(n)
    for n in nodes:
        if n[0] == 'lit':
            ns, nl = squeeze(n[1], nl)
            add(ns)
        elif n[0] == 'if':
            a, na = canon(n[2], nl)
            b, nb = canon(n[3], nl)
            nl = na and nb
            while a and b and nodesame(a[0], b[0]):
                add([a[0]])
                a, b = a[1:], b[1:]
            post = []
            while a and b and nodesame(a[-1], b[-1]):
                post.insert(0, a[-1])
                a, b = a[:-1], b[:-1]
            if a or b:
                add([('if', n[1], a, b)])
            add(post)
        elif n[0] == 'rep':
            b, nb = canon(n[3], nl)
            if nb != nl:
                b, nb = canon(n[3], False)
            nl = nl and nb
            if b:
                add([('rep', n[1], n[2], b)])
        else:
            nl = False
            add([n])
    return tuple(out), nl


class Mismatch(Exception):
    pass


def leaves(n, g=TRUE):
    for c, br in ((n[1], n[2]), (Not(n[1]), n[3])):
        if len(br) == 1 and br[0][0] == 'if':
            yield from leaves(br[0], And(g, c))
        else:
            yield And(g, c), br


def goals(a, b):
    """[(label, goal)]: the actual text a shows what the specified text b shows"""
    out = []
    try:
        _go(canon(a.nodes)[0], canon(b.nodes)[0], TRUE, ['text'], out)
    except Mismatch as e:
        raise Unsupported('text is put together differently: %s' % e)
    return out


def _label(ns):
    for n in ns:
        if n[0] == 'arg' and isinstance(n[1], VEnum):
            return n[1]
    return None


def _go(a, b, g, where, out):
    if len(a) != len(b):
        raise Mismatch('%s: %d parts, specified %d' % (where[0], len(a), len(b)))
    for x, y in zip(a, b):
        if x[0] != y[0]:
            raise Mismatch('%s: %s, specified %s' % (where[0], x[0], y[0]))
        if x[0] == 'nl':
            continue
        if x[0] in ('lit', 'str'):
            if x[1] != y[1]:
                raise Mismatch('%s: %r, specified %r' % (where[0], x[1], y[1]))
        elif x[0] == 'arg':
            u, v = x[1], y[1]
            if isinstance(u, VEnum) != isinstance(v, VEnum):
                raise Mismatch('%s: kind of value' % where[0])
            if isinstance(v, VEnum):
                if u.ty != v.ty:
                    raise Mismatch('%s: %s, specified %s' % (where[0], u.ty, v.ty))
                if isc(v.d):
                    where[0] = '%s %d' % (v.ty, cv(v.d))
                out.append((where[0] + ' label', Implies(g, Eq(u.d, v.d))))
                continue
            if not (x[2] is None or y[2] is not None and x[2] >= y[2]):
                raise Mismatch('%s: precision %s, specified %s' % (where[0], x[2], y[2]))
            if u.sort != v.sort:
                u, v = (ToReal(z) if z.sort == I else z for z in (u, v))
            out.append((where[0] + ' value', Implies(g, Eq(u, v))))
        elif x[0] == 'if':
            lb = list(leaves(y))
            for ga, na in leaves(x):
                for gb, nb in lb:
                    h = And(g, ga, gb)
                    if h is FALSE:
                        continue
                    w, sub = [where[0]], []
                    e = _label(nb) or _label(na)
                    if e is not None and isc(e.d):
                        w = ['%s %d' % (e.ty, cv(e.d))]
                    try:
                        _go(na, nb, h, w, sub)
                        out.extend(sub)
                    except Mismatch:
                        out.append((w[0] + ' shown or not', Not(h)))
        elif x[0] == 'rep':
            out.append((where[0] + ' columns', Implies(g, Eq(x[1], y[1]))))
            j = fresh('tj', I)
            p, q = VText(x[3]), VText(y[3])
            _go(substv(p, {x[2]: j}).nodes, substv(q, {y[2]: j}).nodes, And(g, Le(IntC(0), j), Lt(j, y[1])), [where[0]], out)
        else:
            raise Mismatch('%s: %s' % (where[0], x[0]))


# ---------------------------------------------------------------- concrete
TOK = re.compile(r'\n|(?<!\d)-?\d+(?:\.\d+)?|\d+(?:\.\d+)?|[A-Za-z]+|[^\sA-Za-z0-9-]')


def tokens(s, names):
    """lines, numbers, line names and punctuation of a text"""
    for t in TOK.findall(s):
        if t[0].isalpha() and t not in names:
            continue
        yield t


def render(sym, env, nodes, names):
    for n in nodes:
        if n[0] == 'lit':
            yield from tokens(n[1], names)
        elif n[0] == 'str':
            yield from tokens(env.text[n[1]], names)
        elif n[0] == 'arg':
            if isinstance(n[1], VEnum):
                yield sym.types.enums[n[1].ty][env.ev(n[1].d)][0]
            else:
                v = env.ev(n[1])
                yield (v, 0.0, n[2]) if n[1].sort == I else (v[0], v[1], n[2])
        elif n[0] == 'if':
            yield from render(sym, env, n[2] if env.ev(n[1]) else n[3], names)
        elif n[0] == 'rep':
            for i in range(env.ev(n[1])):
                env.bind_[n[2]], env.local = i, {}
                yield from render(sym, env, n[3], names)
            env.local = {}
        else:
            raise Unsupported('text specified through ' + n[0])


def lines(ts):
    out = [[]]
    for t in ts:
        if t == '\n':
            if out[-1]:
                out.append([])
        else:
            out[-1].append(t)
    return [x for x in out if x]


def difference(sym, env, act, exp, path, fuzzy):
    names = {n for e in ('BsType', 'PlType', 'CfType', 'FinOthersTyp', 'Currency') if e in sym.types.enums for n, _ in sym.types.enums[e]}
    try:
        want = lines(render(sym, env, exp.nodes, names))
    except fuzzy:
        return None
    got = lines(tokens(act, names))

    def ok(g, w):
        if not isinstance(w, tuple):
            return g == w
        try:
            x = float(g)
        except (ValueError, TypeError):
            return False
        v, er, prec = w
        return abs(x - v) <= (0.5 * 10.0 ** -prec if prec is not None else 0) * (1 + 1e-9) + 1e-9 * abs(v) + 1e3 * er

    def show(l):
        return ' '.join(t if isinstance(t, str) else '%g' % t[0] for t in l)
    for i in range(max(len(got), len(want))):
        g, w = got[i] if i < len(got) else [], want[i] if i < len(want) else []
        if len(g) != len(w) or not all(ok(a, b) for a, b in zip(g, w)):
            return '%s: line %d shows [%s], specified [%s]' % (path, i + 1, show(g), show(w))
    return None


def brief(nodes, d=0):
    """one-line summary of a text, for diagnostics"""
    o = []
    for n in nodes:
        if n[0] == 'arg':
            o.append('%s:%s' % (n[1].ty, n[1].d) if isinstance(n[1], VEnum) else '.%s' % n[2])
        elif n[0] == 'if':
            o.append('if(%s|%s)' % (brief(n[2]), brief(n[3])))
        elif n[0] == 'rep':
            o.append('rep(%s)' % brief(n[3]))
        else:
            o.append(repr(n[1]) if len(n) > 1 else n[0])
    return ' '.join(o)
