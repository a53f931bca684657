"""Parser for rustc's textual MIR (--emit=mir).

The MIR is produced from /repo's working tree by rustc itself on every run; this
module only reads it.  Function bodies are parsed lazily (derive(Serialize) etc.
produce a lot of MIR that no contract touches)."""
import re, os, bisect

class MirError(Exception):
    pass

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {')', ']', '}', '>'}


def split_top(s, sep=','):
    """split s at top-level separators"""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or (s[i + 1] == '\\')):
            j = s.find("'", i + 2)
            if s[i + 1] == '\\':
                cur.append(s[i:j + 1]); i = j + 1; continue
            cur.append(s[i:i + 3]); i += 3; continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            cur.append('->'); i += 2; continue
        if c == '=' and i + 1 < n and s[i + 1] == '>':
            cur.append('=>'); i += 2; continue
        if c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur).strip()); cur = []
        else:
            cur.append(c)
        i += 1
    t = ''.join(cur).strip()
    if t:
        out.append(t)
    return out


def match_close(s, i):
    """index of the bracket closing s[i]"""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
            i += 1
            continue
        if c == "'" and i + 2 < n and s[i + 2] == "'":
            i += 3
            continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s[:120])


# ---- places: (local, proj tuple) ; proj elements:
#   ('deref',) ('field', i, ty) ('variant', name) ('index', local) ('cindex', i, from_end)
def parse_place(s):
    s = s.strip()
    p, rest = _place(s)
    if rest.strip():
        raise MirError('place trailing: %r in %r' % (rest, s))
    return p


def _place(s):
    if s.startswith('('):
        e = match_close(s, 0)
        inner, rest = s[1:e].strip(), s[e + 1:]
        if inner.startswith('*'):
            loc, pr = parse_place(inner[1:])
            p = (loc, pr + (('deref',),))
        else:
            base, r = _place(inner)
            r = r.strip()
            if r.startswith('as '):
                v = r[3:].strip()
                p = (base[0], base[1] + (('variant', v),))
            elif r.startswith('.'):
                m = re.match(r'\.(\d+): (.*)$', r, re.S)
                if not m:
                    raise MirError('field: ' + s)
                p = (base[0], base[1] + (('field', int(m.group(1)), m.group(2)),))
            elif r == '':
                p = base
            else:
                raise MirError('place: ' + s)
    else:
        m = re.match(r'_(\d+)', s)
        if not m:
            raise MirError('place: ' + s)
        p = (int(m.group(1)), ())
        rest = s[m.end():]
    while rest.startswith('['):
        e = match_close(rest, 0)
        ix = rest[1:e]
        rest = rest[e + 1:]
        m = re.match(r'_(\d+)$', ix)
        if m:
            p = (p[0], p[1] + (('index', int(m.group(1))),))
            continue
        m = re.match(r'(-?)(\d+) of (\d+)$', ix)
        if m:
            p = (p[0], p[1] + (('cindex', int(m.group(2)), bool(m.group(1))),))
            continue
        raise MirError('index: ' + ix)
    return p, rest


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:].strip()
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    # bare function item
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'BitAnd', 'BitOr', 'BitXor',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Shl', 'Shr', 'Offset', 'Cmp',
          'AddUnchecked', 'SubUnchecked', 'MulUnchecked'}
UNOPS = {'Neg', 'Not', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&raw '):
        r = s[5:].strip()
        for k in ('const (fake) ', 'const ', 'mut '):
            if r.startswith(k):
                return ('ref', 'mut' if k == 'mut ' else 'shared', parse_place(r[len(k):]))
    if s.startswith('&mut '):
        return ('ref', 'mut', parse_place(s[5:]))
    if s.startswith('&'):
        r = s[1:].strip()
        if r.startswith('fake '):
            r = r[r.index('('):] if '(' in r else r.split(' ')[-1]
        return ('ref', 'shared', parse_place(r))
    m = re.match(r'([A-Z][A-Za-z]+)\(', s)
    if m and s.endswith(')') and match_close(s, m.end() - 1) == len(s) - 1:
        nm = m.group(1)
        if nm in BINOPS:
            a, b = split_top(s[m.end():-1])
            return ('bin', nm, parse_operand(a), parse_operand(b))
        if nm in UNOPS:
            return ('un', nm, parse_operand(s[m.end():-1]))
        if nm == 'Len':
            return ('len', parse_place(s[m.end():-1]))
        if nm == 'CopyForDeref':
            return ('use', ('copy', parse_place(s[m.end():-1])))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[len('discriminant('):-1]))
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    core = s[9:].strip() if s.startswith('no_retag ') else s
    if core.startswith(('copy ', 'move ', 'const ')):
        # maybe a cast:  OP as TY (Kind)
        mm = re.search(r' as (.*) \(([A-Za-z]+(?:\(.*\))?(?:, [A-Za-z]+)?)\)$', s, re.S)
        if mm and not core.startswith('const "'):
            opx = s[:mm.start()]
            try:
                op = parse_operand(opx)
                return ('cast', op, mm.group(1), mm.group(2))
            except MirError:
                pass
        return ('use', parse_operand(s))
    if s.startswith('('):
        e = match_close(s, 0)
        if e == len(s) - 1:
            return ('agg', 'tuple', None, [parse_operand(x) for x in split_top(s[1:-1])], None)
    if s.startswith('['):
        inner = s[1:-1]
        semi = split_top(inner, ';')
        if len(semi) == 2:
            return ('repeat', parse_operand(semi[0]), semi[1])
        return ('agg', 'array', None, [parse_operand(x) for x in split_top(inner)], None)
    if s.startswith('{closure@'):
        e = match_close(s, 0)
        name = s[1:e]
        rest = s[e + 1:].strip()
        ops, fn = [], []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1].strip()):
                k, v = f.split(':', 1)
                fn.append(k.strip()); ops.append(parse_operand(v))
        return ('agg', 'closure', name, ops, fn)
    # struct / enum aggregates
    if s.endswith('}'):
        i = _find_top_brace(s)
        name = s[:i].strip()
        ops, fn = [], []
        for f in split_top(s[i + 1:-1].strip()):
            k, v = f.split(':', 1)
            fn.append(k.strip()); ops.append(parse_operand(v))
        return ('agg', 'adt', name, ops, fn)
    if s.endswith(')'):
        i = _find_last_paren(s)
        return ('agg', 'adt', s[:i].strip(), [parse_operand(x) for x in split_top(s[i + 1:-1])], None)
    if re.match(r'[A-Za-z_<]', s):
        return ('agg', 'adt', s, [], None)
    raise MirError('rvalue: ' + s)


def _find_top_brace(s):
    depth = 0
    for i, c in enumerate(s):
        if c == '{' and depth == 0:
            return i
        if c in '(<[':
            depth += 1
        elif c in ')]' or (c == '>' and s[i - 1] != '-'):
            depth -= 1
    raise MirError('agg: ' + s)


def _find_last_paren(s):
    depth = 0
    for i in range(len(s) - 1, -1, -1):
        c = s[i]
        if c == ')':
            depth += 1
        elif c == '(':
            depth -= 1
            if depth == 0:
                return i
    raise MirError('call: ' + s)


def parse_targets(s):
    """'[return: bb1, unwind: bb2]' / 'unwind continue' / 'bb3'"""
    s = s.strip()
    t = {}
    if s.startswith('['):
        for p in split_top(s[1:-1]):
            if ':' in p:
                k, v = p.split(':', 1)
                v = v.strip()
                t[k.strip()] = int(v[2:]) if re.match(r'bb\d+$', v) else v
    elif s.startswith('bb'):
        t['goto'] = int(s[2:])
    return t


def _arrow(s):
    """split at the last top-level ' -> ' """
    depth, i, n, last = 0, 0, len(s), -1
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
            i += 1
            continue
        if c == '-' and s[i:i + 2] == '->':
            if depth == 0:
                last = i
            i += 2
            continue
        if c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
        i += 1
    return last


class Fn:
    def __init__(self, name, sig_args, ret, lo, hi, mirfile, kind='fn'):
        self.name, self.args, self.ret, self.lo, self.hi, self.file, self.kind = name, sig_args, ret, lo, hi, mirfile, kind
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self.locals, self.debug, self.blocks = {}, {}, {}
        lines = self.file.lines[self.lo:self.hi]
        cur, i = None, 0
        for n, t in self.args:
            self.locals[n] = t
        while i < len(lines):
            l = lines[i].strip()
            i += 1
            if not l or l.startswith('//'):
                continue
            if cur is None:
                m = re.match(r'let (mut )?_(\d+): (.*);$', l)
                if m:
                    self.locals[int(m.group(2))] = m.group(3)
                    continue
                m = re.match(r'debug (.*?) => (.*);$', l)
                if m:
                    self.debug[m.group(1)] = m.group(2)
                    continue
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', l)
            if m:
                cur = int(m.group(1))
                self.blocks[cur] = ([], bool(m.group(2)))
                continue
            if l == '}':
                cur = None
                continue
            if cur is not None:
                self.blocks[cur][0].append(l)
        self.code = {}
        for b, (ls, cleanup) in self.blocks.items():
            if cleanup:
                continue
            self.code[b] = self._block(ls)
        self._parsed = True
        return self

    def _block(self, ls):
        st = []
        for i, l in enumerate(ls[:-1]):
            s = self._stmt(l)
            if s:
                if s[0] == 'assign' and s[2][0] == 'agg' and s[2][1] == 'closure':
                    s = s[:2] + (self._captures(ls, i, s[2]),) + s[3:]
                st.append(s)
        return (st, self._term(ls[-1]))

    def _captures(self, ls, i, rv):
        """the printed form of a closure omits captures when several are parts of one variable; the operands are the
        temporaries prepared, in order, right before it"""
        f = self.file.closures.get(rv[2])
        if f is None:
            return rv
        body = '\n'.join(self.file.lines[f.lo:f.hi])
        used = [int(m) for m in re.findall(r'\((?:\(\*_1\)|_1)\.(\d+): ', body)]
        need = max(used) + 1 if used else 0
        if need <= len(rv[3]):
            return rv
        types = dict((int(n), t) for n, t in re.findall(r'\((?:\(\*_1\)|_1)\.(\d+): ((?:[^()]|\([^()]*\))*)\)', body))
        dest = re.match(r'_(\d+) = ', ls[i])
        temps, j = [], i - 1
        while j >= 0 and dest and ls[j] != 'StorageLive(_%s);' % dest.group(1):
            m = re.match(r'StorageLive\(_(\d+)\);', ls[j])
            if m:
                temps.insert(0, int(m.group(1)))
            j -= 1
        ops = [parse_operand('move _%d' % t) for t in temps]
        if j < 0 or len(ops) != need or list(rv[3]) != ops[:len(rv[3])] or any(
                self.locals.get(t) != types[n] for n, t in enumerate(temps) if n in types):
            raise MirError('captures of %s are not all printed' % rv[2])
        return rv[:3] + (ops, ['?'] * need)

    def _stmt(self, l):
        l = l.rstrip(';')
        if l.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'ConstEvalCounter',
                         'AscribeUserType', 'Retag', 'Coverage', 'BackwardIncompatible')):
            return None
        if l.startswith('discriminant('):
            a, b = l.split(' = ')
            return ('setdiscr', parse_place(a[len('discriminant('):-1]), int(b), l)
        if l.startswith('assume(') or l.startswith('Intrinsic') or l.startswith('intrinsic'):
            return None
        i = self._eq(l)
        return ('assign', parse_place(l[:i]), parse_rvalue(l[i + 3:]), l)

    def _eq(self, l):
        depth = 0
        for i, c in enumerate(l):
            if c in '([{':
                depth += 1
            elif c in ')]}':
                depth -= 1
            elif c == '=' and depth == 0 and l[i - 1] == ' ' and l[i + 1] == ' ':
                return i - 1
        raise MirError('stmt: ' + l)

    def _term(self, l):
        l = l.rstrip(';')
        if l == 'return':
            return ('return',)
        if l == 'unreachable':
            return ('unreachable',)
        if l.startswith('resume') or l.startswith('terminate') or l.startswith('abort'):
            return ('resume',)
        if l.startswith('goto -> '):
            return ('goto', int(l[10:]))
        if l.startswith('switchInt('):
            e = match_close(l, 9)
            op = parse_operand(l[10:e])
            tg = l[l.index('-> [', e) + 4:-1]
            cases, other = [], None
            for p in split_top(tg):
                k, v = p.rsplit(':', 1)
                v = v.strip()
                v = int(v[2:])
                if k.strip() == 'otherwise':
                    other = v
                else:
                    cases.append((int(k.strip()), v))
            return ('switch', op, cases, other)
        if l.startswith('drop('):
            e = match_close(l, 4)
            t = parse_targets(l[l.index('->', e) + 2:])
            return ('goto', t.get('return', t.get('goto')))
        if l.startswith('assert('):
            e = match_close(l, 6)
            parts = split_top(l[7:e])
            c = parts[0]
            neg = c.startswith('!')
            t = parse_targets(l[l.index('->', e) + 2:])
            return ('assert', parse_operand(c[1:] if neg else c), not neg, ','.join(parts[1:]), t['success'])
        if l.startswith('falseEdge') or l.startswith('falseUnwind'):
            m = re.search(r'real: bb(\d+)', l)
            return ('goto', int(m.group(1)))
        # call
        i = self._eq(l)
        dest = parse_place(l[:i])
        rhs = l[i + 3:]
        a = _arrow(rhs)
        t = parse_targets(rhs[a + 2:])
        call = rhs[:a].strip()
        j = _find_last_paren(call)
        fn = call[:j].strip()
        args = [parse_operand(x) for x in split_top(call[j + 1:-1])]
        return ('call', dest, fn, args, t.get('return'), l)


class MirFile:
    def __init__(self, path):
        with open(path) as f:
            self.lines = f.read().split('\n')
        self.fns = {}        # name -> [Fn]
        self.consts = {}
        self.literals = {}      # constants printed with their value
        self.statics = {}
        self.allocs = {}     # number of an allocation -> static it is
        self.closures = {}   # span -> Fn
        self.order = []
        self._index()

    def _index(self):
        ls = self.lines
        i, n = 0, len(ls)
        while i < n:
            l = ls[i]
            if l.startswith('fn ') and l.endswith('{'):
                j = i + 1
                while ls[j] != '}':
                    j += 1
                hdr = l[3:-1].strip()
                self._header(hdr, i + 1, j)
                i = j + 1
                continue
            m = re.match(r'(const|static|static mut|promoted\[\d+\] in) (.*) = \{$', l)
            if m:
                j = i + 1
                while ls[j] != '}':
                    j += 1
                nm = self._const_name(m.group(2))
                f = Fn(nm[0], [], nm[1], i + 1, j, self, 'const')
                (self.statics if m.group(1).startswith('static') else self.consts)[nm[0]] = f
                self.order.append(f)
                i = j + 1
                continue
            m = re.match(r'alloc(\d+) \(static: (.*?)(?:, size: .*)?\)', l)
            if m:
                if self.allocs.setdefault(m.group(1), m.group(2)) != m.group(2):
                    self.allocs[m.group(1)] = None
            m = re.match(r'const (.*) = const (.*);$', l)
            if m:
                nm, _ = self._const_name(m.group(1))
                self.literals[nm] = m.group(2) if self.literals.get(nm, m.group(2)) == m.group(2) else None
            i += 1

    def _const_name(self, s):
        # "path: type", where path may contain "<impl at f:l:c: l:c>"
        depth = 0
        for i, c in enumerate(s):
            if c in '<([{':
                depth += 1
            elif c in ')]}' or (c == '>' and s[i - 1] != '-'):
                depth -= 1
            elif c == ':' and depth == 0 and s[i + 1] == ' ':
                return s[:i], s[i + 2:]
        raise MirError(s)

    def _header(self, hdr, lo, hi):
        # name(args) -> ret
        depth, i = 0, 0
        while True:
            c = hdr[i]
            if c == '(' and depth == 0 and hdr[i + 1] in '_)':
                break
            if c in '<{[(':
                depth += 1
            elif c in '}])' or (c == '>' and hdr[i - 1] != '-'):
                depth -= 1
            i += 1
        e = match_close(hdr, i)
        name = hdr[:i]
        args = []
        for a in split_top(hdr[i + 1:e]):
            m = re.match(r'_(\d+): (.*)$', a, re.S)
            args.append((int(m.group(1)), m.group(2)))
        ret = hdr[e + 1:].strip()
        ret = ret[3:].strip() if ret.startswith('->') else '()'
        f = Fn(name, args, ret, lo, hi, self)
        self.fns.setdefault(name, []).append(f)
        self.order.append(f)
        if '{closure#' in name and args:
            m = re.search(r'\{(closure@[^}]*)\}', args[0][1])
            if m:
                self.closures.setdefault(m.group(1), f)
