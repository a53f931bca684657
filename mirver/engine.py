"""Symbolic executor for rustc MIR: turns every function under contract into
verification conditions.  Control flow is merged at join points, callees with a
contract are replaced by that contract, loops are replaced by inferred closed
forms / recurrences that hold for every iteration count (no bound)."""
import os, re
from fractions import Fraction
from decimal import Decimal
from .terms import *
from .values import *
from .mir import MirFile, split_top, MirError
from . import smt, text, serdes

UNROLL = 130
OUT = ('out', 'fs')
EARLY_UNROLL = 24


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc

    def copy(self):
        return State(dict(self.mem), self.pc)

    def assume(self, *cs):
        """new state with extra path conditions, or None if syntactically impossible"""
        pc = self.pc
        have = set(pc)
        for c in cs:
            for x in (c.args if c.op == 'and' else (c,)):
                if x is TRUE or x in have:
                    continue
                if x is FALSE or Not(x) in have:
                    return None
                have.add(x)
                pc = pc + (x,)
        if pc is not self.pc:
            for f in pc:
                if f.op == 'or':
                    rest = [d for d in f.args if Not(d) not in have]
                    if len(rest) == 1 and rest[0] not in have:
                        have.add(rest[0])
                        pc = pc + (rest[0],)
                    elif not rest:
                        return None
        return State(dict(self.mem), pc)


class Panic:
    def __init__(self, pc, msg, where):
        self.pc, self.msg, self.where, self.loop = pc, msg, where, False


VARIANTS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
            'Ordering': ['Less', 'Equal', 'Greater'], 'Entry': ['Occupied', 'Vacant'], 'Bound': ['Included', 'Excluded', 'Unbounded']}


def strip_generics(s):
    """remove ::<...> turbofish"""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('::<', i) and not s.startswith('::<impl ', i):
            d, j = 0, i + 2
            while True:
                if s[j] == '<':
                    d += 1
                elif s[j] == '>' and s[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


class Engine:
    def __init__(self, mirpath, repo):
        self.mir = MirFile(mirpath)
        self.repo = repo
        self.types = Types(os.path.join(repo, 'src'))
        self.sym = Sym(self.types)
        self.contracts = {}
        self.current = None
        self.sinks = [[]]
        self.loopvars = []
        self.nframe = 0
        self.nheap = 0
        self.nsk = 0
        self.cache_static = {}
        self._boxcells = set()
        self.depth = 0
        self.loopstack = []
        self.inlined = set()
        self.used_contracts = set()
        self.models_used = set()
        self.applied = set()
        self.ghost, self.uses = [], []
        self.serdes, self.sertop, self.serbad = (), None, []
        self.want_panics = False
        self.passed = []
        self.cfgs = {}
        self._names()

    # ------------------------------------------------------------- names
    def _names(self):
        self.canon = {}
        self.traitimpl = {}
        self.provided = {}
        self._src = {}
        for name, fs in self.mir.fns.items():
            if '{closure#' in name:
                continue
            c, tr = self.canonical(name)
            if c is None:
                continue
            if tr:
                for f in fs:
                    self.traitimpl.setdefault((tr[0], tr[2]), {}).setdefault(tr[1], []).append(f)
            self.canon.setdefault(c, fs[0])
        self.lazy = {}
        for i, f in enumerate(self.mir.order):
            m = re.match(r'^&(?:\'\w+ )?(.*)$', f.args[0][1]) if f.args else None
            if f.name.endswith('>::deref') and 'lazy_static' in f.name and m:
                for g in self.mir.order[i + 1:i + 4]:
                    if g.name.endswith('__static_ref_initialize'):
                        self.lazy[m.group(1)] = g
                        break

    def _line(self, f, l):
        if f not in self._src:
            p = f if os.path.isabs(f) else os.path.join(self.repo, f)
            self._src[f] = open(p).read().split('\n') if os.path.exists(p) else []
        s = self._src[f]
        return s[l - 1] if 0 < l <= len(s) else ''

    def canonical(self, name):
        """def-path with <impl at ..> replaced by the implementing type"""
        m = re.search(r'<impl at ([^>]*?):(\d+):(\d+): (\d+):(\d+)>', name)
        if not m:
            return name, None
        if 'lazy_static' in m.group(1) or 'registry' in m.group(1):
            return None, None
        line = self._line(m.group(1), int(m.group(2)))[int(m.group(3)) - 1:]
        mm = re.match(r'(?:unsafe )?impl(?:<[^{]*?>)?\s+(?:(.*?)\s+for\s+)?(.*?)\s*(?:where.*)?(?:\{|$)', line)
        if not mm or not line.startswith('impl'):
            return None, None      # derive
        ty = re.sub(r'<.*', '', mm.group(2)) if mm.group(2) in self.types.structs else mm.group(2)
        meth = name[m.end() + 2:]
        if mm.group(1):
            tr = short(mm.group(1))
            return name[:m.start()] + short(ty) + '::' + meth, (tr, self.tykey(mm.group(2)), meth)
        return name[:m.start()] + short(ty) + '::' + meth, None

    def tykey(self, ty):
        ty = self.sym.resolve(ty)
        s = short(ty)
        if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            return 'map:' + self.sym.kt(tyargs(ty)[0])[0]
        return s

    def valkey(self, v):
        if isinstance(v, VMap):
            return 'map:' + (v.kt[0] if v.kt else '?')
        if isinstance(v, VEnum):
            return v.ty
        if isinstance(v, VAgg):
            return v.name
        return '?'

    def ckey(self, canon):
        """contract key: Type::method or free function name"""
        parts = canon.split('::')
        if len(parts) >= 2 and parts[-2][:1].isupper():
            return parts[-2] + '::' + parts[-1]
        return parts[-1]

    def find(self, key):
        for c, f in self.canon.items():
            if self.ckey(c) == key:
                return f
        return None

    # ------------------------------------------------------------- symbols
    def skolem(self, prefix, sort):
        self.nsk += 1
        return App('%s~%d' % (prefix, self.nsk), tuple(self.loopvars), sort)

    def newcell(self, st, v):
        self.nheap += 1
        c = ('h', self.nheap)
        st.mem[c] = v
        return c

    # ------------------------------------------------------------- memory
    def rd(self, v, path):
        for p in path:
            if isinstance(v, VShared):
                v = v.v
            if p[0] == 'f':
                if isinstance(v, VAgg):
                    v = v.f[p[1]]
                elif isinstance(v, VOpaque):
                    if not v.what.startswith('static '):
                        continue
                    raise Unsupported('read of ' + v.what)
                else:
                    raise Unsupported('field of %r' % type(v).__name__)
            elif p[0] == 'v':
                if not isinstance(v, VEnum):
                    raise Unsupported('variant field of %r' % type(v).__name__)
                if p[1] not in v.p:
                    return VOpaque('missing payload')
                v = v.p[p[1]][p[2]]
            elif p[0] == 'idx':
                v = v.at(p[1])
            elif p[0] == 'key':
                v = v.get(p[1])[1]
        return v

    def wr(self, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        if p[0] == 'f':
            if isinstance(v, Undef):
                f = []
            else:
                f = list(v.f)
            while len(f) <= p[1]:
                f.append(UNDEF)
            f[p[1]] = self.wr(f[p[1]], rest, new)
            return VAgg(v.name if isinstance(v, VAgg) else 'tuple', f)
        if p[0] == 'v':
            pl = list(v.p[p[1]])
            pl[p[2]] = self.wr(pl[p[2]], rest, new)
            d = dict(v.p)
            d[p[1]] = tuple(pl)
            return VEnum(v.ty, v.d, d)
        if p[0] == 'idx':
            return v.set(p[1], self.wr(v.at(p[1]), rest, new) if rest else new)
        if p[0] == 'key':
            pr, w = v.get(p[1])
            return MPut(v, p[1], pr, self.wr(w, rest, new) if rest else new)
        raise Unsupported('write path')

    def load(self, st, ref):
        """value behind a reference"""
        if isinstance(ref, VShared):
            return ref.v
        if isinstance(ref, VMut):
            return self.rd(st.mem[ref.cell], ref.path)
        if isinstance(ref, VMutIte):
            return mergev(ref.c, self.load(st, ref.a), self.load(st, ref.b))
        raise Unsupported('deref of %r' % (type(ref).__name__,))

    def dd(self, st, v):
        """fully dereference"""
        while isinstance(v, (VShared, VMut, VMutIte)):
            v = self.load(st, v)
        return v

    def store(self, st, ref, v):
        if isinstance(ref, VMut):
            st.mem[ref.cell] = self.wr(st.mem[ref.cell], ref.path, v)
        elif isinstance(ref, VMutIte):
            a, b = self.load(st, ref.a), self.load(st, ref.b)
            self.store(st, ref.a, mergev(ref.c, v, a))
            # aliasing: re-read b's current value
            b = self.load(st, ref.b)
            self.store(st, ref.b, mergev(ref.c, b, v))
        else:
            raise Unsupported('store through %r' % type(ref).__name__)

    # place resolution -> ('loc', VMut) or ('val', v)
    def resolve(self, st, fr, place):
        local, proj = place
        cur = VMut((fr.id, local), ())
        val = None
        variant = None
        for p in proj:
            k = p[0]
            if k == 'deref':
                v = val if cur is None else self.load(st, cur)
                if isinstance(v, VShared):
                    cur, val = None, v.v
                elif isinstance(v, (VMut, VMutIte)):
                    cur, val = v, None
                elif isinstance(v, VText) or isinstance(v, VOpaque) and not v.what.startswith('static '):
                    cur, val = None, v
                else:
                    raise Unsupported('deref of %r in %s' % (v, fr.fn.name))
                continue
            if k == 'variant':
                variant = p[1]
                continue
            if k == 'field':
                if re.match(r'(std|core|alloc)::(ptr::Unique|mem::ManuallyDrop|mem::MaybeDangling|mem::MaybeUninit|mem::maybe_dangling::MaybeDangling)<', p[2]):
                    continue
                if cur is not None and isinstance(cur, VMut) and cur.cell in st.mem and cur.cell[0] == 'h' and \
                        getattr(self, '_boxcells', None) and cur.cell in self._boxcells and not isinstance(self.load(st, cur), VAgg):
                    continue
                if variant is not None:
                    v = val if cur is None else self.load(st, cur)
                    vi = self.variant_index(v, variant)
                    step = ('v', vi, p[1])
                    variant = None
                else:
                    step = ('f', p[1])
            elif k == 'index':
                step = ('idx', st.mem[(fr.id, p[1])])
            elif k == 'cindex':
                v = val if cur is None else self.load(st, cur)
                step = ('idx', Sub(v.n, IntC(p[1])) if p[2] else IntC(p[1]))
            else:
                raise Unsupported('projection ' + k)
            if cur is None:
                val = self.rd(val, (step,))
            elif isinstance(cur, VMut):
                cur = VMut(cur.cell, cur.path + (step,))
            else:
                cur = self._miext(cur, step)
        return cur, val

    def _miext(self, m, step):
        if isinstance(m, VMut):
            return VMut(m.cell, m.path + (step,))
        return VMutIte(m.c, self._miext(m.a, step), self._miext(m.b, step))

    def variant_index(self, v, name):
        ty = v.ty if isinstance(v, VEnum) else None
        if ty in self.types.enums:
            for i, (n, _) in enumerate(self.types.enums[ty]):
                if n == name:
                    return i
        if ty in VARIANTS and name in VARIANTS[ty]:
            return VARIANTS[ty].index(name)
        for vs in VARIANTS.values():
            if name in vs:
                return vs.index(name)
        raise Unsupported('variant %s of %r' % (name, v))

    def read_place(self, st, fr, place):
        cur, val = self.resolve(st, fr, place)
        if cur is None:
            return val
        return self.load(st, cur)

    def write_place(self, st, fr, place, v):
        local, proj = place
        if not proj:
            st.mem[(fr.id, local)] = v
            return
        cur, val = self.resolve(st, fr, place)
        if cur is None:
            raise Unsupported('write through shared reference')
        if isinstance(cur, VMut) and cur.cell not in st.mem:
            st.mem[cur.cell] = UNDEF
        self.store(st, cur, v)

    # ------------------------------------------------------------- operands
    def operand(self, st, fr, op):
        if op[0] in ('copy', 'move'):
            return self.read_place(st, fr, op[1])
        return self.const(st, fr, op[1])

    def const(self, st, fr, t):
        t = t.strip()
        if t in ('true', 'false'):
            return BoolC(t == 'true')
        if t == '()':
            return UNIT
        m = re.match(r'^(-?[\d_]+)_?(usize|isize|[iu]\d+)$', t)
        if m:
            return IntC(int(m.group(1).replace('_', '')))
        m = re.match(r'^(-?[\d.]+(?:[eE][-+]?\d+)?)_?f(64|32)$', t)
        if m:
            return RealC(Fraction(Decimal(repr(float(m.group(1))))))
        m = re.match(r'^([iu]\d+|usize|isize)::(MIN|MAX)$', t)
        if m:
            return IntC(INT[m.group(1)][m.group(2) == 'MAX'])
        if t.startswith('"') or t.startswith("'") or t.startswith('b"'):
            return text.constant(t)
        m = re.match(r'^\{alloc(\d+): &(.*)\}$', t, re.S)
        if m:
            if m.group(2) in self.lazy:
                return VShared(VOpaque('static ' + m.group(2)))
            # a static without interior change, or one built once by its initialiser
            nm = self.mir.allocs.get(m.group(1))
            f = self.mir.statics.get(nm)
            inner = re.sub(r'^std::sync::LazyLock<', '', m.group(2))
            if f is None or re.search(r'Atomic|Mutex|RwLock|Cell|Once|Lazy|\*mut|dyn ', inner):
                raise Unsupported('static ' + m.group(2))
            return VShared(self.eval_const(f))
        m = re.search(r'::promoted\[(\d+)\]$', t)
        if m:
            key = fr.fn.name + t[m.start():]
            f = self.mir.consts.get(key)
            if f is None:
                raise Unsupported('promoted ' + t)
            return self.eval_const(f)
        f = self.mir.consts.get(t)
        if f is not None:
            return self.eval_const(f)
        if self.mir.literals.get(t) is not None and t != self.mir.literals[t]:
            return self.const(st, fr, self.mir.literals[t])
        if not hasattr(self, '_canonconst'):
            self._canonconst = {}
            for k in list(self.mir.consts) + list(self.mir.literals):
                if '<impl at' in k:
                    c = self.canonical(k)[0]
                    if c is not None:
                        self._canonconst.setdefault(c, set()).add(k)
        al = self._canonconst.get(t, ())
        if len(al) == 1:
            return self.const(st, fr, next(iter(al)))
        near = [k for k in list(self.mir.consts) + list(self.mir.literals) if k.endswith('::' + t)]
        if near:
            if len(near) > 1:
                raise Unsupported('ambiguous constant ' + t)
            if near[0] in self.mir.consts:
                return self.eval_const(self.mir.consts[near[0]])
            return self.const(st, fr, self.mir.literals[near[0]])
        m = re.match(r'^(?:(?:std|core)::)?f64::(?:consts::|<impl f64>::)?(\w+)$', t)
        if m:
            vals = {'EPSILON': Fraction(1, 2 ** 52), 'PI': None}
            if vals.get(m.group(1)) is not None:
                return RealC(vals[m.group(1)])
        if t in self.canon or strip_generics(t) in self.canon or re.match(r'^[A-Za-z_<]', t):
            if '{closure' in t:
                m = re.search(r'\{(closure@[^}]*)\}', t)
                if m:
                    return VAgg(m.group(1), [])
            return VFn(t)
        raise Unsupported('constant ' + t)

    def eval_const(self, f):
        if f.name in self.cache_static:
            return self.cache_static[f.name]
        st = State({}, ())
        r = self.exec_fn(f, [], st)
        if r is None:
            raise Unsupported('const eval')
        v = self.dd_deep(r[0], r[1])
        self.cache_static[f.name] = v
        return v

    def dd_deep(self, st, v):
        """turn references into snapshots"""
        if isinstance(v, (VMut, VMutIte)):
            return VShared(self.dd_deep(st, self.load(st, v)))
        if isinstance(v, VShared):
            return VShared(self.dd_deep(st, v.v))
        if isinstance(v, VAgg):
            return VAgg(v.name, [self.dd_deep(st, x) for x in v.f])
        return v

    def static(self, name):
        key = 'static ' + name
        if key not in self.cache_static:
            f = self.lazy.get(name)
            if f is None:
                raise Unsupported('static ' + name)
            r = self.exec_fn(f, [], State({}, ()))
            if r is None:
                raise Unsupported('static init ' + name)
            self.cache_static[key] = VShared(self.dd_deep(r[0], r[1]))
        return self.cache_static[key]

    # ------------------------------------------------------------- statements
    def rvalue(self, st, fr, rv, place):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            cur, val = self.resolve(st, fr, rv[2])
            if rv[1] == 'mut':
                if cur is None:
                    return VShared(val)
                return cur
            v = val if cur is None else self.load(st, cur)
            if isinstance(v, VOpaque) and v.what.startswith('static '):
                return VShared(v)
            return VShared(v)
        if k == 'bin':
            return self.binop(st, fr, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), fr.ty(place))
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Neg':
                return Neg(v)
            if rv[1] == 'Not':
                if v.sort == B:
                    return Not(v)
                raise Unsupported('bitwise not')
            if rv[1] == 'PtrMetadata':
                return self.dd(st, v).n
        if k == 'len':
            return self.read_place(st, fr, rv[1]).n
        if k == 'discr':
            v = self.read_place(st, fr, rv[1])
            if not isinstance(v, VEnum):
                raise Unsupported('discriminant of %r' % (v,))
            if v.ty == 'Ordering':
                return Ite(Eq(v.d, IntC(0)), IntC(255), Sub(v.d, IntC(1)))
            return v.d
        if k == 'cast':
            return self.cast(st, self.operand(st, fr, rv[1]), rv[2], rv[3], rv[1], fr)
        if k == 'agg':
            return self.aggregate(st, fr, rv)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            n = re.match(r'(?:const )?(\d+)', rv[2])
            if not n:
                raise Unsupported('array length ' + rv[2])
            n = int(n.group(1))
            return VSeq.lst([v] * n) if n <= 64 else VSeq(IntC(n), lambda j: v)
        raise Unsupported('rvalue ' + k)

    def aggregate(self, st, fr, rv):
        kind, name, ops, fnames = rv[1], rv[2], rv[3], rv[4]
        vs = [self.operand(st, fr, o) for o in ops]
        if kind == 'tuple':
            return VAgg('tuple', vs) if vs else UNIT
        if kind == 'array':
            return VSeq.lst(vs)
        if kind == 'closure':
            return VAgg(name, vs)
        nm = strip_generics(name)
        parts = nm.split('::')
        last = parts[-1]
        if len(parts) >= 2 and parts[-2] == '__Field' and 'serde' in name:
            m = re.match(r'^__field(\d+)$', last)
            return VEnum('__Field', IntC(int(m.group(1)) if m else 1 << 20), {})
        if len(parts) >= 2 and parts[-2] in self.types.enums:
            ty = parts[-2]
            vi = [n for n, _ in self.types.enums[ty]].index(last)
            if fnames:
                decl = [n for n, _ in self.types.enums[ty][vi][1]]
                vs = [vs[fnames.index(n)] for n in decl]
            return VEnum(ty, IntC(vi), {vi: tuple(vs)} if vs else {})
        if last in self.types.structs:
            if fnames:
                decl = [n for n, _ in self.types.structs[last]]
                vs = [vs[fnames.index(n)] for n in decl]
            return VAgg(last, vs)
        ty = parts[-2] if len(parts) >= 2 else ''
        if ty in VARIANTS and last in VARIANTS[ty]:
            vi = VARIANTS[ty].index(last)
            return VEnum(ty, IntC(vi), {vi: tuple(vs)} if vs else {})
        if last == 'Range':
            from .models import mkrange
            return mkrange(vs[0], vs[1])
        return VAgg(last, vs)

    def cast(self, st, v, ty, kind, op, fr):
        if kind.startswith('BoxDeref'):
            return v
        if kind == 'IntToFloat':
            return ToReal(v)
        if kind == 'FloatToInt':
            lo, hi = INT[ty]
            z = RealC(0)
            tr = Ite(Le(z, v), Floor(v), Neg(Floor(Neg(v))))
            if v.op == 'toreal':
                tr = v.args[0]
            elif isc(v):
                tr = IntC(int(cv(v)))
            if lo == 0:
                return Max(IntC(0), tr) if not isc(tr) else IntC(max(0, cv(tr)))
            if ty == 'i32' and not isc(tr):
                return Max(IntC(lo), Min(IntC(hi), tr))
            return tr
        if kind == 'IntToInt':
            if isinstance(v, VEnum):
                return v.d
            if v.sort == B:
                return Ite(v, IntC(1), IntC(0))
            lo, hi = INT[ty]
            if isc(v):
                if lo <= cv(v) <= hi:
                    return v
                m = hi - lo + 1
                return IntC((cv(v) - lo) % m + lo)
            sty = fr.ty(op[1]) if op[0] != 'const' else None
            if sty in INT and INT[sty][0] >= lo and INT[sty][1] <= hi:
                return v
            inr = And(Le(IntC(lo), v), Le(v, IntC(hi)))
            if inr is TRUE or smt.Ctx(st.pc).valid(inr):
                return v
            return Ite(inr, v, App('wrap_' + ty, (v,), I))
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute'):
            return v
        if kind == 'FloatToFloat':
            raise Unsupported('f32')
        raise Unsupported('cast ' + kind)

    def binop(self, st, fr, name, a, b, dty):
        if isinstance(a, VEnum) and isinstance(b, VEnum):
            a, b = a.d, b.d
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsupported('operator %s on %s' % (name, type(a).__name__))
        if name in ('Add', 'AddUnchecked'):
            return Add(a, b)
        if name in ('Sub', 'SubUnchecked'):
            return Sub(a, b)
        if name in ('Mul', 'MulUnchecked'):
            return Mul(a, b)
        if name == 'Div':
            return Div(a, b) if a.sort == R else IDiv(a, b)
        if name == 'Rem':
            if a.sort == R:
                if isc(b):
                    q = Div(a, b)
                    tr = Ite(Le(RealC(0), q), Floor(q), Neg(Floor(Neg(q))))
                    return Sub(a, Mul(b, ToReal(tr)))
                raise Unsupported('float remainder')
            return IRem(a, b)
        if name in ('Lt', 'Le', 'Gt', 'Ge'):
            if a.sort == B:
                raise Unsupported('bool order')
            return {'Lt': Lt, 'Le': Le, 'Gt': Gt, 'Ge': Ge}[name](a, b)
        if name == 'Eq':
            return Eq(a, b)
        if name == 'Ne':
            return Not(Eq(a, b))
        if name in ('BitAnd', 'BitOr', 'BitXor') and a.sort == B:
            return And(a, b) if name == 'BitAnd' else (Or(a, b) if name == 'BitOr' else Not(Iff(a, b)))
        if name == 'BitAnd' and isc(b) and (cv(b) & (cv(b) + 1)) == 0 and cv(b) > 0:
            # x & (2^n - 1): remainder (euclidean)
            r = IRem(a, IntC(cv(b) + 1))
            return Ite(Le(IntC(0), r), r, Add(r, IntC(cv(b) + 1)))
        if name.endswith('WithOverflow'):
            r = {'Add': Add, 'Sub': Sub, 'Mul': Mul}[name[:3]](a, b)
            ity = split_top(dty[1:-1])[0] if dty else 'i64'
            lo, hi = INT[ity]
            ok = And(Le(IntC(lo), r), Le(r, IntC(hi)))
            return VAgg('tuple', [r, Not(ok)])
        if name == 'Cmp':
            return VEnum('Ordering', Ite(Lt(a, b), IntC(0), Ite(Eq(a, b), IntC(1), IntC(2))))
        raise Unsupported('operator ' + name)

    # ------------------------------------------------------------- CFG
    def cfg(self, fn):
        c = self.cfgs.get(fn)
        if c is None:
            c = CFG(fn)
            self.cfgs[fn] = c
        return c

    def panic(self, st, cond, msg, where):
        s = st.assume(cond)
        if s is not None:
            self.sinks[-1].append(Panic(s.pc, msg, where))

    def merge(self, sts):
        while len(sts) > 1:
            b = sts.pop()
            a = sts.pop()
            sts.append(self.merge2(a, b))
        return sts[0]

    def merge2(self, a, b):
        n = 0
        pa, pb = a.pc, b.pc
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        sa, sb = set(pa), set(pb)
        ra = [x for x in pa[n:] if x not in sb]
        rb = [x for x in pb[n:] if x not in sa]
        common = [x for x in pa[n:] if x in sb]
        ca, cb = And(*ra), And(*rb)
        pc = pa[:n] + tuple(common)
        alt = Or(ca, cb)
        for x in (alt.args if alt.op == 'and' else (alt,)):
            if x is not TRUE:
                pc = pc + (x,)
        na = len(ca.args) if ca.op == 'and' else 1
        nb = len(cb.args) if cb.op == 'and' else 1
        mem = {}
        for k in a.mem:
            if k in b.mem:
                x, y = a.mem[k], b.mem[k]
                if x is y:
                    mem[k] = x
                    continue
                try:
                    mem[k] = mergev(ca, x, y) if na <= nb else mergev(cb, y, x)
                except Unsupported:
                    mem[k] = UNDEF
        if (OUT in a.mem) != (OUT in b.mem):
            mem[OUT] = UNDEF
        return State(mem, pc)

    argtys = None

    def exec_fn(self, fn, args, st, argtys=None):
        """-> (State, value) or None when it never returns"""
        if self.depth > 40:
            raise Unsupported('call depth')
        fn.parse()
        self.depth += 1
        self.nframe += 1
        fr = Frame(self.nframe, fn, unify([t for _, t in fn.args], argtys or []))
        st = st.copy()
        for (n, ty), v in zip(fn.args, args):
            st.mem[(fr.id, n)] = v
        saved = self.loopstack
        self.loopstack = []
        try:
            rets, exits, backs = self.run(fr, None, 0, st, None)
        finally:
            self.loopstack = saved
            self.depth -= 1
        if not rets:
            return None
        s = self.merge(rets)
        v = s.mem.get((fr.id, 0), UNIT)
        s.mem = {k: x for k, x in s.mem.items() if k[0] != fr.id}
        return s, v

    def run(self, fr, allowed, entry, st, header):
        g = self.cfg(fr.fn)
        pending = {entry: [st]}
        rets, exits, backs = [], [], []
        first = True

        def route(t, s):
            if t == 'ret':
                rets.append(s)
            elif t == header:
                backs.append(s)
            elif allowed is not None and t not in allowed:
                exits.append((t, s))
            else:
                pending.setdefault(t, []).append(s)
        n = 0
        while pending:
            n += 1
            if n > 5000:
                raise Unsupported('region too long')
            b = min(pending, key=lambda x: g.rpo[x])
            s = self.merge(pending.pop(b))
            if b in g.loops and not (b == header and first):
                for t, s2 in self.do_loop(fr, b, s):
                    route(t, s2)
            else:
                for t, s2 in self.exec_block(fr, b, s, backs if header is not None else None):
                    route(t, s2)
            first = False
        return rets, exits, backs

    def exec_block(self, fr, b, st, backs):
        stmts, term = fr.fn.code[b]
        st = st.copy()
        for s in stmts:
            if s[0] == 'assign':
                try:
                    v = self.rvalue(st, fr, s[2], s[1])
                except (AttributeError, AssertionError, IndexError, KeyError) as e:
                    raise Unsupported('%s: %s (%r)' % (fr.fn.name, s[3], e))
                self.write_place(st, fr, s[1], v)
            elif s[0] == 'setdiscr':
                v = self.read_place(st, fr, s[1])
                self.write_place(st, fr, s[1], VEnum(v.ty, IntC(s[2]), v.p))
        k = term[0]
        if k == 'return':
            return [('ret', st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'goto':
            return [(term[1], st)]
        if k == 'switch':
            v = self.operand(st, fr, term[1])
            out = []
            if self.loopstack:
                L = self.loopstack[-1]
                if L['frame'] is fr and not isc(v):
                    tg = [t for _, t in term[2]] + ([term[3]] if term[3] is not None else [])
                    if any(self._leaves(L, t) for t in tg):
                        L['symexit'] = True
            rest = []
            for val, t in term[2]:
                c = (v if val else Not(v)) if v.sort == B else Eq(v, IntC(val))
                s = st.assume(c)
                if s is not None:
                    out.append((t, s))
                rest.append(Not(c))
            if term[3] is not None:
                s = st.assume(*rest)
                if s is not None:
                    code = fr.fn.code[term[3]]
                    if not (not code[0] and code[1][0] == 'unreachable'):
                        out.append((term[3], s))
            return out
        if k == 'assert':
            v = self.operand(st, fr, term[1])
            good = v if term[2] else Not(v)
            if good is not TRUE:
                self.panic(st, Not(good), term[3], fr.fn.name)
                s = st.assume(good)
                return [(term[4], s)] if s is not None else []
            return [(term[4], st)]
        if k == 'call':
            _, dest, fntext, args, ret, text = term
            vals = [self.operand(st, fr, a) for a in args]
            self._dest_ty = fr.ty(dest)
            self.argtys = [fr.ty(a[1]) if a[0] != 'const' else None for a in args]
            fntext = fr.rs(fntext)
            try:
                r = self.call(fntext, vals, st, fr, backs)
            except (AttributeError, AssertionError, IndexError, KeyError, TypeError) as e:
                import traceback
                if os.environ.get('MV_DEBUG'):
                    traceback.print_exc()
                raise Unsupported('%s: call %s (%r)' % (fr.fn.name, fntext[:120], e))
            if r is None or ret is None:
                return []
            s, v = r
            self.write_place(s, fr, dest, v)
            return [(ret, s)]
        raise Unsupported('terminator ' + k)

    def _leaves(self, L, t):
        return t not in L['body'] and t in L['live']

    # ------------------------------------------------------------- calls
    def contract_for(self, key):
        c = self.contracts.get(key)
        if c is None or c is self.current and not c.recursive:
            return None
        return c

    def call(self, text, args, st, fr, backs=None):
        from . import models
        at, self.argtys = self.argtys, None
        t = strip_generics(text)
        if 'serde' in text:
            r = serdes.call(self, t, text, args, st, fr)
            if r is not NotImplemented:
                return r
        # closures / function pointers through the Fn traits
        m = re.match(r'^<(.*) as (?:std|core)::ops::(Fn|FnMut|FnOnce)<.*>>::(call|call_mut|call_once)$', t, re.S)
        if m:
            tup = args[1]
            return self.call_value(args[0], list(tup.f), st)
        m = re.match(r'^<(.*) as ([\w:]+?)(?:<.*>)?>::(\w+)$', t, re.S)
        if m:
            tr, meth, sty = short(m.group(2)), m.group(3), m.group(1)
            std = re.match(r'(?:std|core|alloc|chrono|serde|num_traits)::', m.group(2))
            fty = sty
            if std and tr == 'Into' and ('From', 'from') in self.traitimpl:
                mm = re.search(r'Into<(.*)>>::into$', text, re.S)
                if mm and self.tykey(mm.group(1)) in self.traitimpl['From', 'from']:
                    tr, meth, sty, fty = 'From', 'from', mm.group(1), m.group(1)
            elif std and tr == 'From':
                mm = re.search(r' as (?:std|core)::convert::From<(.*)>>::from$', text, re.S)
                fty = mm.group(1) if mm else None
            impls = self.traitimpl.get((tr, meth))
            prov = None
            for c, f in self.canon.items():
                if c.endswith('::%s::%s' % (tr, meth)) or c == '%s::%s' % (tr, meth):
                    prov = f
            if impls or prov:
                key = self.tykey(re.sub(r"^&(?:'\w+ )?(?:mut )?", '', sty))
                if key not in (impls or {}) and args and not (std and tr in ('From', 'Default', 'FromIterator')):
                    key = self.valkey(self.dd(st, args[0]))
                fs = (impls or {}).get(key, [])
                if len(fs) > 1:
                    fs = [f for f in fs if f.args and re.sub(r"'\w+ ", '', f.args[0][1]) == re.sub(r"'\w+ ", '', fty or '?')]
                    if len(fs) != 1:
                        raise Unsupported('dispatch %s among several' % t)
                if fs:
                    return self.call_fn(fs[0], args, st, at)
                if prov is not None:
                    return self.call_fn(prov, args, st, at)
                if not std:
                    raise Unsupported('dispatch %s on %s' % (t, key))
        f = self.canon.get(t)
        if f is not None:
            return self.call_fn(f, args, st, at)
        if '{closure#' in t and t in self.mir.fns:
            return self.call_fn(self.mir.fns[t][0], args, st)
        return models.call(self, t, text, args, st, fr, backs)

    def call_fn(self, f, args, st, argtys=None):
        c, _ = self.canonical(f.name)
        key = self.ckey(c) if c else None
        k = self.contract_for(key) if key else None
        if k is not None:
            self.used_contracts.add(key)
            return k.apply(self, args, st)
        self.inlined.add(key or f.name)
        return self.exec_fn(f, args, st, argtys)

    def call_value(self, fv_, args, st):
        v = self.dd(st, fv_) if not (isinstance(fv_, VMut)) else self.load(st, fv_)
        if isinstance(v, (VShared, VMut)):
            v = self.dd(st, v)
        if isinstance(v, VFn):
            if v.uf:
                return st, v.uf(*[self.dd(st, a) for a in args])
            m = re.match(r'^(?:std::option::)?Option(?:::<.*>)?::Some$', v.name)
            if m:
                return st, VEnum('Option', IntC(1), {1: (args[0],)})
            return self.call(v.name, args, st, None)
        if isinstance(v, VAgg) and v.name.startswith('closure@'):
            f = self.mir.closures.get(v.name)
            if f is None:
                raise Unsupported('closure ' + v.name)
            t0 = f.args[0][1]
            if t0.startswith('&mut'):
                if isinstance(fv_, VMut):
                    a0 = fv_
                else:
                    st = st.copy()
                    a0 = VMut(self.newcell(st, v), ())
            elif t0.startswith('&'):
                a0 = VShared(v)
            else:
                a0 = v
            return self.exec_fn(f, [a0] + args, st)
        raise Unsupported('call of %r' % (v,))

    def pure_call(self, fv_, args, st, extra=()):
        """call a closure that must not change memory; returns (value, pc residual)"""
        s = st.assume(*extra)
        if s is None:
            return None
        r = self.call_value(fv_, args, s)
        if r is None:
            return None
        s2, v = r
        for c, x in s.mem.items():
            if c in s2.mem and not same(s2.mem[c], x):
                raise Unsupported('closure with side effects in an iterator chain')
        for c in s2.mem:
            if c not in st.mem:
                st.mem[c] = s2.mem[c]
        return v

    # ------------------------------------------------------------- loops
    def do_loop(self, fr, h, st0):
        g = self.cfg(fr.fn)
        body = g.loops[h]
        L = {'frame': fr, 'body': body, 'live': g.live, 'symexit': False, 'remain': None, 'header': h}

        def iterate(st):
            self.loopstack.append(L)
            try:
                rets, exits, backs = self.run(fr, body, h, st, h)
            finally:
                self.loopstack.pop()
            assert not rets
            return (self.merge(list(backs)) if backs else None), exits

        # trial
        self.sinks.append([])
        try:
            back, exits = iterate(st0)
        finally:
            self.sinks.pop()
        rem = L['remain']
        unroll = (not L['symexit'] and (rem is None or rem <= UNROLL)) or (rem is not None and rem <= EARLY_UNROLL)
        if L['symexit'] and rem is None:
            unroll = False
        if unroll:
            out, st, n = [], st0, 0
            while st is not None:
                n += 1
                if n > UNROLL + 5:
                    raise Unsupported('loop unrolling')
                back, exits = iterate(st)
                out.extend(exits)
                st = back
            return self._join(out)

        from .loops import summarize

        def step(st, k):
            return iterate(st)
        return self._join(summarize(self, st0, step, '%s:bb%d' % (fr.fn.name, h)))

    def _join(self, exits):
        by = {}
        for t, s in exits:
            by.setdefault(t, []).append(s)
        return [(t, self.merge(ss)) for t, ss in by.items()]


def unify(params, argtys):
    """the type parameters of a generic callee, by the types of its arguments"""
    sub = {}

    def go(p, a):
        p, a = p.strip(), a.strip()
        while p[:1] == '&':
            if a[:1] != '&':
                return
            cut = lambda t: re.sub(r"^&('\w+ )?(mut )?", '', t)
            p, a = cut(p), cut(a)
        if re.match(r'^[A-Z][A-Z0-9]?$', p):
            if not re.match(r'^[A-Z][A-Z0-9]?$', a):
                sub.setdefault(p, a)
            return
        if p[:1] == '(' and a[:1] == '(':
            x, y = split_top(p[1:-1]), split_top(a[1:-1])
        elif '<' in p and '<' in a and p.split('<', 1)[0] == a.split('<', 1)[0] and p[-1] == a[-1] == '>':
            x, y = (split_top(t[t.index('<') + 1:-1]) for t in (p, a))
        else:
            return
        if len(x) == len(y):
            for u, v in zip(x, y):
                go(u, v)
    for p, a in zip(params, argtys):
        if a:
            go(p, a)
    return sub


class Frame:
    def __init__(self, id, fn, sub=None):
        self.id, self.fn, self.sub = id, fn, sub

    def rs(self, t):
        """the text t with the type parameters of this frame replaced"""
        if self.sub and t:
            return re.sub(r'(?<![\w:])(%s)(?![\w:])' % '|'.join(self.sub), lambda m: self.sub[m.group(1)], t)
        return t

    def ty(self, place):
        return self.rs(self.ty_(place))

    def ty_(self, place):
        if place is None:
            return None
        local, proj = place
        if not proj:
            return self.fn.locals.get(local, self.fn.ret if local == 0 else None)
        for p in reversed(proj):
            if p[0] == 'field':
                return p[2]
        return None


class CFG:
    def __init__(self, fn):
        fn.parse()
        code = fn.code
        self.succ = {}
        for b, (s, t) in code.items():
            k = t[0]
            if k == 'goto':
                o = [t[1]]
            elif k == 'switch':
                o = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == 'assert':
                o = [t[4]]
            elif k == 'call':
                o = [t[4]] if t[4] is not None else []
            else:
                o = []
            self.succ[b] = [x for x in o if x in code]
        order, seen = [], set()

        def dfs(b):
            st = [(b, iter(self.succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                n = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk.extend(pred[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise Unsupported('irreducible control flow')
        # blocks from which a return is reachable
        live = {b for b in order if code[b][1][0] == 'return'}
        stk = list(live)
        while stk:
            x = stk.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    stk.append(p)
        self.live = live
