"""Loop summarisation: closed forms (counters, sums, products, conjunctions,
last/unique writes, per-key updates) or recurrences for every location a loop
modifies, valid for any number of iterations."""
from .terms import *
from .values import *
from . import smt, text

import os, re
DEBUG = os.environ.get("MV_DEBUG")
_loopid = [0]


def build(v0, alt, name, idx, leaf, fix=True):
    """value of the shape of v0/alt whose scalars are leaf(name, idx, sort);
    fix: components v0 and alt share are unchanged by the loop (not so when one merely lends its shape to the other)"""
    if isinstance(v0, T):
        return leaf(name, idx, v0.sort)
    if isinstance(v0, VAgg):
        if not isinstance(alt, VAgg) or len(alt.f) != len(v0.f):
            alt = v0
        return VAgg(v0.name, [a if fix and fixed(a, b) else build(a, b, '%s.%d' % (name, i), idx, leaf, fix)
                              for i, (a, b) in enumerate(zip(v0.f, alt.f))])
    if isinstance(v0, VEnum):
        p = {}
        for k in set(v0.p) | set(alt.p):
            a, b = v0.p.get(k, alt.p.get(k)), alt.p.get(k, v0.p.get(k))
            f = fix and k in v0.p and k in alt.p
            p[k] = tuple(build(x, y, '%s.%d_%d' % (name, k, i), idx, leaf, f) for i, (x, y) in enumerate(zip(a, b)))
        return VEnum(v0.ty, leaf(name + '.d', idx, I), p)
    if isinstance(v0, VShared):
        return VShared(build(v0.v, alt.v, name, idx, leaf, fix))
    if isinstance(v0, VSeq):
        if isc(v0.n) and v0.n is alt.n:
            n = v0.n
        else:
            n = leaf(name + '.n', idx, I)
        pe, ae = seqproto(v0, alt)
        return VSeq(n, lambda j: build(pe, ae, name + '[]', idx + (j,), leaf, False))
    if isinstance(v0, VMap):
        kt = v0.kt or alt.kt
        if isinstance(v0, MEmpty) and isinstance(alt, MEmpty):
            return v0
        key = tuple(fresh('kk', I) for _ in range(kt[1]))
        pv, av = mapproto(v0, alt, key)
        if perkey(kt, idx, pv):
            def at(i):
                return leaf('%s.h#%d' % (name, i), idx, B), leaf('%s.v#%d' % (name, i), idx, pv.sort)

            def get(key):
                i = key[0]
                if isc(i):
                    return at(cv(i)) if 0 <= cv(i) < kt[2] else (FALSE, VOpaque('absent'))
                p, v = at(0)
                for j in range(1, kt[2]):
                    q, w = at(j)
                    e = Eq(i, IntC(j))
                    p, v = Ite(e, q, p), Ite(e, w, v)
                return p, v
            return MFun(kt, get)
        return MFun(kt, lambda key: (leaf(name + '.h', idx + key, B), build(pv, av, name + '.v', idx + key, leaf, False)))
    if isinstance(v0, VIter):
        return v0.at(leaf(name + '.pos', idx, I))
    if isinstance(v0, VText):
        return VText((('open', leaf(name + '.text', idx, B)),))
    if fix and same(v0, alt):
        return v0
    raise Unsupported('loop modifies %s' % type(v0).__name__)


def perkey(kt, idx, proto):
    """map over an enumeration type, outermost: one location per key"""
    return kt[2] is not None and kt[1] == 1 and not idx and isinstance(proto, T)


def hname_of(n):
    m = re.match(r'(.*)\.v(#\d+)?$', n)
    return m.group(1) + '.h' + (m.group(2) or '') if m else None


def fixed(a, b):
    """component the loop never changes"""
    return not isinstance(a, Undef) and (a is b or not isinstance(a, T) and same(a, b))


def accum(v0, alt, back, head):
    """alternative value of a modified cell, with newly changed components marked"""
    if isinstance(v0, VAgg) and isinstance(alt, VAgg) and isinstance(back, VAgg) and len(v0.f) == len(alt.f) == len(back.f):
        return VAgg(alt.name, [accum(a, b, c, d) for a, b, c, d in zip(v0.f, alt.f, back.f, head.f)])
    if fixed(v0, alt) and not same(back, head):
        return back
    return alt


def family(v):
    return VMap if isinstance(v, VMap) else type(v)


def seqproto(v0, alt):
    def el(s):
        try:
            if s.items is not None:
                return s.items[-1] if s.items else None
            return s.at(fresh('pj', I))
        except Unsupported:
            return None
    a, b = el(v0), el(alt)
    a, b = (a if a is not None else b), (b if b is not None else a)
    if a is None:
        raise Unsupported('empty sequence in loop')
    return a, b


def mapproto(v0, alt, key):
    a, b = v0.get(key)[1], alt.get(key)[1]
    if isinstance(a, VOpaque):
        a = b
    if isinstance(b, VOpaque):
        b = a
    return a, b


def under(h, v):
    """h ? v : 0, case by case when both are decided by the same condition"""
    if h.op == 'ite' and v.op == 'ite' and h.args[0] is v.args[0]:
        return Ite(h.args[0], under(h.args[1], v.args[1]), under(h.args[2], v.args[2]))
    return Ite(h, v, RealC(0))


def flatten(v, shape, name, idx, out, guard=None, mask=None):
    """out[name] = (idx, term) for every scalar of v, in the shape built above"""
    if isinstance(shape, T):
        if isinstance(v, (VOpaque, Undef)):
            out[name] = (idx, None)
            return
        if guard is not None and shape.sort == R:
            h, sh = guard
            if not (h is sh and v is shape):
                v = subst(under(h, v), {Ite(sh, shape, RealC(0)): shape})
        out[name] = (idx, v)
    elif isinstance(shape, VAgg):
        for i, (a, s) in enumerate(zip(v.f, shape.f)):
            mk_ = None
            if mask is not None and isinstance(mask[0], VAgg) and isinstance(mask[1], VAgg) and len(mask[0].f) == len(mask[1].f):
                mk_ = (mask[0].f[i], mask[1].f[i])
                if fixed(*mk_):
                    continue
            flatten(a, s, '%s.%d' % (name, i), idx, out, None, mk_)
    elif isinstance(shape, VEnum):
        if isinstance(v, VOpaque):
            return
        out[name + '.d'] = (idx, v.d)
        for k in shape.p:
            for i, s in enumerate(shape.p[k]):
                if k in v.p:
                    flatten(v.p[k][i], s, '%s.%d_%d' % (name, k, i), idx, out)
                else:
                    flatten(s, s, '%s.%d_%d' % (name, k, i), idx, out)
    elif isinstance(shape, VShared):
        flatten(v.v, shape.v, name, idx, out)
    elif isinstance(shape, VSeq):
        if not isc(shape.n):
            out[name + '.n'] = (idx, v.n)
        j = fresh('fj', I)
        try:
            el = v.at(j)
        except Unsupported:
            el = VOpaque('empty')
        if isinstance(el, VOpaque) and not isinstance(shape.at(j), T):
            flatnone(shape.at(j), name + '[]', idx + (j,), out)
            return
        flatten(el, shape.at(j), name + '[]', idx + (j,), out)
    elif isinstance(shape, VMap) and shape.kt[2] is not None and perkey(shape.kt, idx, shape.get((IntC(0),))[1]):
        for i in range(shape.kt[2]):
            key = (IntC(i),)
            h, w = v.get(key)
            sh, sv = shape.get(key)
            out['%s.h#%d' % (name, i)] = (idx, h)
            if isinstance(w, VOpaque):
                flattenop(sv, '%s.v#%d' % (name, i), idx, out)
            else:
                flatten(w, sv, '%s.v#%d' % (name, i), idx, out, guard=(h, sh))
    elif isinstance(shape, VMap):
        key = tuple(fresh('fk', I) for _ in range(shape.kt[1]))
        h, w = v.get(key)
        out[name + '.h'] = (idx + key, h)
        sv = shape.get(key)[1]
        if isinstance(w, VOpaque):
            flattenop(sv, name + '.v', idx + key, out)
        else:
            flatten(w, sv, name + '.v', idx + key, out, guard=(h, shape.get(key)[0]) if isinstance(sv, T) else None)
    elif isinstance(shape, VIter):
        out[name + '.pos'] = (idx, v.pos)


def flatnone(shape, name, idx, out):
    """element of an empty sequence: nothing is known and nothing is read"""
    if isinstance(shape, T):
        out[name] = (idx, None)
    elif isinstance(shape, VAgg):
        for i, s in enumerate(shape.f):
            flatnone(s, '%s.%d' % (name, i), idx, out)
    elif isinstance(shape, VEnum):
        out[name + '.d'] = (idx, None)
        for k in shape.p:
            for i, s in enumerate(shape.p[k]):
                flatnone(s, '%s.%d_%d' % (name, k, i), idx, out)
    elif isinstance(shape, VShared):
        flatnone(shape.v, name, idx, out)
    elif isinstance(shape, VSeq):
        if not isc(shape.n):
            out[name + '.n'] = (idx, None)
        j = fresh('fj', I)
        flatnone(shape.at(j), name + '[]', idx + (j,), out)
    elif isinstance(shape, VMap):
        key = tuple(fresh('fk', I) for _ in range(shape.kt[1]))
        out[name + '.h'] = (idx + key, None)
        flatnone(shape.get(key)[1], name + '.v', idx + key, out)
    else:
        raise Unsupported('empty sequence of %s' % type(shape).__name__)


def flattenop(shape, name, idx, out):
    """absent map value: scalars are irrelevant (0 for reals)"""
    if isinstance(shape, T):
        out[name] = (idx, RealC(0) if shape.sort == R else None)
    elif isinstance(shape, VAgg):
        for i, s in enumerate(shape.f):
            flattenop(s, '%s.%d' % (name, i), idx, out)
    elif isinstance(shape, VMap):
        key = tuple(fresh('fk', I) for _ in range(shape.kt[1]))
        out[name + '.h'] = (idx + key, None)
        flattenop(shape.get(key)[1], name + '.v', idx + key, out)
    else:
        raise Unsupported('absent value in loop state')


def apps(t):
    return {x.args[0] for x in walk(t) if x.op == 'app'}


def conds(t, out, via=None):
    """the facts deciding between the cases of t (only of cases mentioning the function via, if given)"""
    for x in walk(t):
        if x.op == 'ite' and (via is None or via in apps(x.args[1]) or via in apps(x.args[2])):
            for a in smt._atoms(x.args[0]):
                if a not in out and not smt.hasbound(a):
                    out.append(a)
    return out


def casetree(t, atoms, leaf):
    """leaf(t) at the leaves of the decision tree of t over atoms"""
    if not atoms:
        return leaf(t)
    a = atoms[0]
    l = casetree(smt.simp_under(t, [a]), atoms[1:], leaf)
    r = casetree(smt.simp_under(t, [Not(a)]), atoms[1:], leaf)
    if l is None or r is None:
        return None
    return Ite(a, l, r)


class Fam:
    pass


def summarize(eng, st0, step, where):
    _loopid[0] += 1
    lid = 'L%d' % _loopid[0]
    outer = tuple(eng.loopvars)
    k = fresh('k', I)
    eng.loopvars.append(k)
    eng.sinks.append([])
    try:
        res = _summ(eng, st0, step, where, lid, outer, k)
    finally:
        eng.sinks.pop()
        eng.loopvars.pop()
    exits, last = res
    for p in last:
        p.loop = True
    eng.sinks[-1].extend(last)
    return exits


def _summ(eng, st0, step, where, lid, outer, k):
    kfact = Le(IntC(0), k)
    # 1. modified cells
    mods = {}
    hdr = st0
    shape = {}

    def trial(st):
        eng.sinks.append([])
        try:
            s = st.assume(kfact)
            return step(s, k)
        finally:
            eng.sinks.pop()
    X = lambda name, idx, sort: App(name, outer + (k,) + idx, sort)

    def header(leaf):
        st = st0.copy()
        for c, (v0, alt) in mods.items():
            if v0 is UNDEF:
                st.mem[c] = UNDEF
            else:
                st.mem[c] = build(v0, alt, '%s:%s_%s' % (lid, c[0], c[1]), (), leaf)
        return st

    for _ in range(12):
        st = header(X) if mods else st0
        back, exits = trial(st)
        if back is None:
            if not mods:
                return [(t, s) for t, s in exits], _rerun(eng, st0, step, k)
            break
        ch = False
        for c, (v0, alt) in list(mods.items()):
            if v0 is not UNDEF and isinstance(v0, VAgg):
                a2 = accum(v0, alt, back.mem[c], st.mem[c])
                if not same(a2, alt):
                    mods[c] = (v0, a2)
                    ch = True
        for c in st0.mem:
            if c in back.mem and c not in mods and not same(back.mem[c], st.mem[c]):
                a, b = st0.mem[c], back.mem[c]
                if isinstance(a, Undef) or family(a) is not family(b) and not (isinstance(a, (VMut, VMutIte))):
                    # temporary reassigned in each iteration
                    mods[c] = (UNDEF, UNDEF)
                elif isinstance(a, (VMut, VMutIte, VFn)) or isinstance(a, VOpaque):
                    mods[c] = (UNDEF, UNDEF)
                else:
                    try:
                        build(a, b, 'probe', (), lambda n, i, s: App('probe', i, s))
                        mods[c] = (a, b)
                    except Unsupported:
                        mods[c] = (UNDEF, UNDEF)
                ch = True
        if not ch:
            break
    # 2. families
    fams = {}
    closed = {}
    rec = {}
    recseq = {}

    def leaf(name, idx, sort):
        f = closed.get(name)
        if f is not None:
            return f(k, idx)
        return X(name, idx, sort)

    def initial():
        out = {}
        for c, (v0, alt) in mods.items():
            if v0 is not UNDEF:
                sh = build(v0, alt, '%s:%s_%s' % (lid, c[0], c[1]), (), X)
                flatten(v0, sh, '%s:%s_%s' % (lid, c[0], c[1]), (), out, None, (v0, alt))
        return out
    init = initial()
    names = set(init)
    sorts = {}

    def initfn(name):
        ivs, t = init[name]

        def f(idx):
            if t is None:
                return None
            return subst(t, dict(zip(ivs, idx)))
        return f
    pend = {}
    for rnd in range(40):
        st = header(leaf)
        back, exits = trial(st)
        if back is None:
            break
        after = {}
        for c, (v0, alt) in mods.items():
            if v0 is not UNDEF:
                sh = build(v0, alt, '%s:%s_%s' % (lid, c[0], c[1]), (), X)
                flatten(back.mem[c], sh, '%s:%s_%s' % (lid, c[0], c[1]), (), after, None, (v0, alt))
        unresolved = {n for n in after if n not in closed}
        if not unresolved:
            break
        progress = False
        for n, f in keygroups(after, unresolved, closed, k, outer, initfn).items():
            closed[n] = f
            progress = True
        if progress:
            continue
        for n in sorted(unresolved):
            ivs, t = after[n]
            if t is None:
                continue
            f = classify(eng, n, ivs, t, k, outer, initfn(n), unresolved, st0, recseq, back)
            if f is not None:
                closed[n] = f
                progress = True
        if progress:
            continue
        for n in sorted(unresolved):
            ivs, t = after[n]
            f = t is not None and classify(eng, n, ivs, t, k, outer, initfn(n), unresolved, st0, recseq, back, True)
            if f:
                closed[n] = f
                progress = True
        if progress:
            continue
        # values that depend on an accumulator still open: name what is written
        for n in sorted(unresolved):
            ivs, t = after[n]
            if t is not None and ivs and n not in closed:
                f = classify(eng, n, ivs, t, k, outer, initfn(n), unresolved, st0, recseq, back, lax=True)
                if f:
                    closed[n] = f
                    progress = True
                    break
        if progress:
            continue
        # no closed form: recurrence for one scalar
        cand = [n for n in sorted(unresolved) if after[n][1] is not None and not after[n][0]]
        cand = [n for n in cand if not (apps(after[n][1]) & (unresolved - {n}))] or cand
        if not cand:
            bad = sorted(unresolved)
            if DEBUG:
                for b in bad:
                    print("   ", b, after[b])
            raise Unsupported('loop %s: no closed form for %s' % (where, bad[:3]))
        n = cand[0]
        srt = after[n][1].sort
        closed[n] = lambda kk, idx, n=n, srt=srt: App(n, outer + (kk,) + idx, srt)
        rec[n] = srt
    else:
        raise Unsupported('loop %s does not stabilise' % where)
    # 3. final run
    st = header(leaf)
    st = st.assume(kfact)
    facts = []

    def recfacts(kk):
        """facts about recurrences up to iteration kk"""
        out = []
        j = fresh('rj', I)
        for n in rec:
            iv = initfn(n)(())
            if iv is not None:
                out.append(Eq(App(n, outer + (IntC(0),), rec[n]), iv))
            if n in after_final and after_final[n][1] is not None:
                body = Eq(App(n, outer + (Add(j, IntC(1)),), rec[n]), subst(after_final[n][1], {k: j}))
                out.append(All(kk, j, body))
        for n, (lhs, guard, new) in recseq_final.items():
            out.append(All(kk, j, Implies(subst(guard, {k: j}), Eq(subst(lhs, {k: j}), subst(new, {k: j})))))
        return out
    after_final, recseq_final = {}, {}
    if rec or recseq:
        back, exits = trial(header(leaf))
        if back is not None:
            for c, (v0, alt) in mods.items():
                if v0 is not UNDEF:
                    sh = build(v0, alt, '%s:%s_%s' % (lid, c[0], c[1]), (), X)
                    flatten(back.mem[c], sh, '%s:%s_%s' % (lid, c[0], c[1]), (), after_final, None, (v0, alt))
            for n, (a, srt, rest) in recseq.items():
                ivs, t = after_final[n]
                # value written at index k + a in iteration k
                lhs = App(n + '.Y', outer + ivs[:-1] + (Add(k, a),), srt)
                new = subst(t, {ivs[-1]: Add(k, a)})
                recseq_final[n] = (lhs, rest, new)
        pre = recfacts(k)
        st = st.assume(*pre) or st
        inv = houdini(eng, rec, after_final, outer, k, back, initfn, st0) if rec and back is not None else []
        if inv:
            st = st.assume(*[i(k) for i in inv]) or st
    else:
        inv = []
    mark = len(eng.sinks[-1])
    base = set(st.pc)
    back, exits = step(st, k)
    stops = [Le(k, a) for a in stopat(back, k, base) if smt.Ctx(st0.pc).valid(Le(IntC(0), a))] if back is not None else []
    if stops and not all(f in base for f in stops):
        # every earlier iteration went on, so none of them was the one that leaves
        st = st.assume(*stops) or st
        del eng.sinks[-1][mark:]
        base = set(st.pc)
        back, exits = step(st, k)
    final_panics = eng.sinks[-1][mark:]
    grown = []
    if back is not None:
        for c, (v0, alt) in mods.items():
            if v0 is not UNDEF:
                texts(v0, st.mem[c], back.mem[c], grown, (v0, alt))
        ops = {op for op, _, _ in grown}
        for op, w0, ps in grown:
            if ops & set(text.opens(ps)):
                raise Unsupported('text of a loop appended to another')
    # exits
    rels = []
    for t, s in exits:
        rels.append(And(*[c for c in s.pc if c not in base]))
    if not exits:
        return [], final_panics
    E = Or(*rels)
    Tt, extra = exit_index(eng, E, rels, k, st0, lid, outer, back, base)
    out = []
    jfacts = list(extra)
    if rec or recseq:
        jfacts += recfacts(Tt)
        jfacts += [i(Tt) for i in inv]
    for (t, s), rel in zip(exits, rels):
        m, jf = {k: Tt}, jfacts
        if Tt.op == 'app' and Tt.args[0] == lid + '.T':
            # this exit determines the iteration: T >= a from the exit, T <= a from the bound
            for c in (rel.args if rel.op == 'and' else (rel,)):
                a = kbound(c, k) if c.op == 'le0' else None
                if a is not None and not isc(a) and Le(Tt, Max(a, IntC(0))) in jfacts and smt.Ctx(st0.pc).valid(Le(IntC(0), a)):
                    m = {k: a}
                    jf = [subst(f, {Tt: a}) for f in jfacts]
                    break
        r2 = subst(rel, m)
        if r2 is FALSE:
            continue
        ns = st0.assume(*jf)
        if ns is not None:
            ns = ns.assume(r2)
        if ns is None:
            continue
        cl = {op: text.cat(w0, text.rep(m[k], lambda i: VText(substnodes(ps, {k: i})))) for op, w0, ps in grown}
        for c, v in s.mem.items():
            if c in st0.mem and st0.mem[c] is v:
                continue
            if cl:
                v = text.closed(substv(v, m), {subst(o, m): x for o, x in cl.items()}) if not isinstance(v, Undef) else v
                ns.mem[c] = v
                continue
            ns.mem[c] = substv(v, m) if not isinstance(v, Undef) else v
        out.append((t, ns))
    return out, final_panics


def texts(v0, head, back, out, fix=None):
    """[(open header text, initial text, what one iteration appends)]"""
    if fix is not None and fixed(*fix):
        return
    if isinstance(v0, VText):
        if not isinstance(head, VText):
            return
        out.append((head.nodes[0][1], v0, text.pieces(back, head.nodes[0][1])))
    elif isinstance(v0, VAgg):
        for i, (a, h, b) in enumerate(zip(v0.f, head.f, back.f)):
            f2 = None
            if fix is not None and isinstance(fix[0], VAgg) and isinstance(fix[1], VAgg) and len(fix[0].f) == len(fix[1].f):
                f2 = (fix[0].f[i], fix[1].f[i])
            texts(a, h, b, out, f2)


def _rerun(eng, st0, step, k):
    mark = len(eng.sinks[-1])
    step(st0.assume(Le(IntC(0), k)), k)
    return eng.sinks[-1][mark:]


def stopat(back, k, base):
    """indices a such that an iteration numbered a leaves the loop: iteration k goes on only when k != a"""
    out = []
    for c in back.pc:
        if c not in base:
            for x in (c.args if c.op == 'and' else (c,)):
                if x.op == 'not' and x.args[0].op == 'eq0':
                    b = kbound(x.args[0], k)
                    if b is not None:
                        out.append(b)
    return out


def kbound(e, k):
    # k >= a  |  k = a
    if e.op in ('le0', 'eq0'):
        d = e.args[0]
        if d is k and e.op == 'eq0':
            return IntC(0)
        if d.op == 'lin':
            c = dict(d.args[1]).get(k)
            rest = None
            if c == -1:
                rest = Add(d, k)
            elif c == 1 and e.op == 'eq0':
                rest = Neg(Sub(d, k))
            if rest is not None and k not in fv(rest):
                return rest
    return None


def exit_index(eng, E, rels, k, st0, lid, outer, back, base):
    """iteration index at which the loop leaves; (term, facts about it)"""
    def passed(n):
        """what held in every completed iteration"""
        if back is None:
            return []
        C = And(*[c for c in back.pc if c not in base])
        j = fresh('tj', I)
        return [All(n, j, subst(C, {k: j}))]
    if E is TRUE:
        return IntC(0), []
    a = kbound(E, k)
    if a is not None:
        nn = Le(IntC(0), a)
        if nn is TRUE or smt.Ctx(st0.pc).valid(nn):
            return a, passed(a) if eng.want_panics else []
        if E.op == 'le0':
            return Max(a, IntC(0)), []
    Tt = App(lid + '.T', outer, I)
    facts = [Le(IntC(0), Tt)]
    facts += passed(Tt)
    if back is not None:
        # iteration T-1 was completed: what it had to satisfy bounds T
        for c in back.pc:
            if c not in base:
                for x in (c.args if c.op == 'and' else (c,)):
                    b = kbound(Not(x), k)
                    if b is not None and x.op == 'le0':
                        facts.append(Le(Tt, Max(b, IntC(0))))
        for b in stopat(back, k, base):
            facts.append(Implies(Le(IntC(0), b), Le(Tt, b)))
    else:
        facts.append(Le(Tt, IntC(0)))
    return Tt, facts


def classify(eng, n, ivs, t, k, outer, init, unresolved, st0, recseq, back, anylast=False, lax=False):
    others = unresolved - {n}
    own = {hname_of(n)} & others if re.search(r'#\d+$', n) else set()
    X = App(n, outer + (k,) + ivs, t.sort)
    if t is X:
        return lambda kk, idx: init(idx)
    A = apps(t)
    if A & (others - own) and (not lax or t.sort == B):
        return None
    if n not in A and not (A & others):
        # last value written in every iteration
        def last(kk, idx):
            m = dict(zip(ivs, idx))
            m[k] = Sub(kk, IntC(1))
            i0 = init(idx)
            v = subst(t, m)
            if i0 is None:
                return v
            return Ite(Eq(kk, IntC(0)), i0, v)
        return last
    if t.sort == B:
        p, q = subst(t, {X: TRUE}), subst(t, {X: FALSE})
        if n in apps(p) or n in apps(q):
            return None
        if p is TRUE:
            return lambda kk, idx: Or(init(idx), _any(kk, k, subst(q, dict(zip(ivs, idx)))))
        if q is FALSE:
            return lambda kk, idx: And(init(idx), _all(kk, k, subst(p, dict(zip(ivs, idx)))))
        if not (ivs and t.op == 'ite'):
            return None
    hname = hname_of(n)
    atoms = conds(t, [])
    if len(atoms) > 8:
        atoms = conds(t, [], n)
    if len(atoms) > 8:
        return None

    def prep(x):
        return x
    hatom = None
    if hname is not None:
        hs = [a for a in atoms if a.op == 'app' and a.args[0] == hname]
        if hs:
            hatom = hs[0]
        # order: presence atoms last
        atoms = [a for a in atoms if a not in hs] + hs

    def tree(leaf):
        def go(t, ats, facts):
            if not ats:
                return leaf(t, facts)
            a = ats[0]
            l = go(smt.simp_under(t, [a]), ats[1:], facts + [a])
            r = go(smt.simp_under(t, [Not(a)]), ats[1:], facts + [Not(a)])
            if l is None or r is None:
                return None
            if l is r:
                return l
            return Ite(a, l, r)
        return go(t, atoms, [])

    def absent(x, facts):
        # not present => total value is 0
        if hname is not None and t.sort == R:
            for f in facts:
                if f.op == 'not' and f.args[0].op == 'app' and f.args[0].args[0] == hname:
                    return subst(x, {App(n, f.args[0].args[1:], R): RealC(0)})
        return x

    def canon(x, facts):
        return absent(x, facts)

    # additive
    def addleaf(x, facts):
        d = canon(Sub(x, X), facts)
        return d if n not in apps(d) else None
    d = None
    if t.sort != B:
        d = addleaf(t, [])
        if d is None:
            d = tree(addleaf)
    if d is not None and not (apps(d) & unresolved):
        if t.sort == R:
            return lambda kk, idx: Add(init(idx), Sum(kk, k, subst(d, dict(zip(ivs, idx)))))
        if isc(d):
            return lambda kk, idx: Add(init(idx), Scale(cv(d), kk))
        if k not in fv(d):
            return lambda kk, idx: Add(init(idx), Mul(subst(d, dict(zip(ivs, idx))), kk))
        # integer total: a sum of integers
        return lambda kk, idx: Add(init(idx), Floor(Sum(kk, k, ToReal(subst(d, dict(zip(ivs, idx)))))))
    # multiplicative
    if t.sort == R:
        def mulleaf(x, facts):
            x = canon(x, facts)
            if x is X:
                return RealC(1)
            q = None
            if x.op == 'mul' and X in x.args:
                l = list(x.args)
                l.remove(X)
                q = Mul(*l)
            elif x.op == 'lin' and x.args[0] == 0 and len(x.args[1]) == 1:
                q1 = mulleaf(x.args[1][0][0], facts)
                q = Scale(x.args[1][0][1], q1) if q1 is not None else None
            elif x.op == 'div':
                q1 = mulleaf(x.args[0], facts)
                q = Div(q1, x.args[1]) if q1 is not None else None
            if q is None or n in apps(q):
                return None
            return q
        m = mulleaf(t, [])
        if m is None:
            m = tree(mulleaf)
        if m is not None and not (apps(m) & unresolved):
            return lambda kk, idx: Mul(init(idx), Prod(kk, k, subst(m, dict(zip(ivs, idx)))))
    # overwrite under a condition

    def kind(x, facts):
        x = canon(x, facts)
        if t.sort == B and x is not X and n in apps(x):
            return None
        return FALSE if x is X or canon(X, facts) is x else TRUE
    c = tree(kind)
    if c is None:
        return None

    def newleaf(x, facts):
        x = canon(x, facts)
        return X if (x is X or canon(X, facts) is x) else x
    new = tree(newleaf)
    if new is None:
        return None
    new = smt.simp_under(new, [c] if c.op != 'and' else list(c.args))
    if (anylast or own) and not ((apps(c) | apps(new)) & (unresolved | {n})):
        # the last iteration that writes decides
        def lw(kk, idx):
            m = dict(zip(ivs, idx))
            j = fresh('lw', I)
            m[k] = j
            cc = subst(c, m)
            i0 = init(idx)
            w = subst(subst(new, m), {j: LastIx(kk, j, cc)})
            return w if i0 is None else Ite(_any(kk, j, cc), w, i0)
    else:
        lw = None
    conj = c.args if c.op == 'and' else (c,)
    if ivs:
        # unique writer: idx = k + a
        j = ivs[-1]
        for at in conj:
            s = solve_for(k, at)
            if s is not None and j in fv(s):
                a = Sub(j, s)           # idx = k + a
                if j in fv(a) or k in fv(a):
                    continue
                rest = And(*[x for x in conj if x is not at])
                if (apps(rest) & unresolved):
                    continue
                if not (apps(new) & unresolved):
                    def uw(kk, idx, s=s, rest=rest, new=new):
                        m0 = dict(zip(ivs, idx))
                        s2 = subst(s, m0)
                        m1 = dict(m0)
                        m1[k] = s2
                        i0 = init(idx)
                        w = subst(new, m1)
                        if i0 is None:
                            return w
                        return Ite(And(Le(IntC(0), s2), Lt(s2, kk), subst(rest, m1)), w, i0)
                    return uw
                if (n in apps(new) and not (apps(new) & others) or lax) and not fv(rest) & set(ivs):
                    # named by the value the run writes there, with the equation it satisfies
                    srt = t.sort

                    def rs(kk, idx, s=s, rest=rest):
                        m0 = dict(zip(ivs, idx))
                        s2 = subst(s, m0)
                        m0[k] = s2
                        i0 = init(idx)
                        y = App(n + '.Y', outer + idx, srt)
                        if i0 is None:
                            return y
                        return Ite(And(Le(IntC(0), s2), Lt(s2, kk), subst(rest, m0)), y, i0)
                    recseq[n] = (a, srt, rest)
                    return rs
        if lax:
            return None
        # enumerated keys
        if (apps(c) | apps(new)) & others:
            return None
        for fname, (m, ncomp, N, K) in KEYENUM.items():
            Ks = K(k)
            keyiv = ivs[-ncomp:]
            if all(any(Eq(a, b) is at for at in conj) for a, b in zip(keyiv, Ks)):
                eqs = [Eq(a, b) for a, b in zip(keyiv, Ks)]
                rest = And(*[x for x in conj if x not in eqs])
                back_ = dict(zip(Ks, keyiv))
                rest = subst(rest, back_)
                nw = subst(new, back_)
                if k in fv(rest) or k in fv(nw):
                    continue
                if n in apps(nw):
                    # value read from the location being updated: not visited before
                    def self_init(x):
                        mm = {}
                        for y in walk(x):
                            if y.op == 'app' and y.args[0] == n:
                                mm[y] = init(y.args[1 + len(outer) + 1:])
                        return subst(x, mm)
                    nw = self_init(nw)
                if (apps(rest) | apps(nw)) & unresolved:
                    continue

                def ku(kk, idx, fname=fname, rest=rest, nw=nw, ncomp=ncomp):
                    m0 = dict(zip(ivs, idx))
                    g = And(App('before:' + fname, (kk,) + tuple(idx[-ncomp:]), B), subst(rest, m0))
                    w = subst(nw, m0)
                    i0 = init(idx)
                    return w if i0 is None else Ite(g, w, i0)
                return ku
    return lw


KEYENUM = {}


def kill(t, eqs):
    """simplify t under  not (and eqs)"""
    memo = {}
    es = set(eqs)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('var', 'c') or smt.hasbound(x):
            r = x
        elif len(es) == 1 and x in es:
            r = FALSE
        elif x.op == 'and' and es <= set(x.args):
            r = FALSE
        elif x.op in ('sum', 'prod', 'all', 'exq'):
            r = x
        else:
            r = rebuild(x, [go(y) for y in kids(x)])
        memo[x] = r
        return r
    return go(t)


def keygroups(after, unresolved, closed, k, outer, initfn):
    """maps updated only at the key visited in this iteration (each key is visited once)"""
    out = {}
    hs = [n for n in after if n.endswith('.h') and not any(n != m and m.endswith('.h') and n.startswith(m[:-2] + '.') for m in after)]
    for hn in hs:
        P = hn[:-2]
        grp = [n for n in after if n == hn or n.startswith(P + '.v')]
        if not any(n in unresolved for n in grp) or any(after[n][1] is None for n in grp):
            continue
        for fname, (m, nc, N, K) in KEYENUM.items():
            Ks = K(k)
            if any(len(after[n][0]) < nc for n in grp) or not any(Ks[0] in set(walk(after[n][1])) for n in grp):
                continue
            ok, res = True, {}
            for n in grp:
                ivs, t = after[n]
                q = ivs[:nc]
                eqs = [Eq(a, b) for a, b in zip(q, Ks)]
                X = App(n, outer + (k,) + ivs, t.sort)
                cur = closed[n](k, ivs) if n in closed else X
                u = kill(t, eqs)
                if n.endswith('.v') and t.sort == R:
                    hX = App(n[:-2] + '.h', outer + (k,) + ivs, B)
                    u = subst(u, {Ite(hX, X, RealC(0)): X})
                if u is not X and u is not cur:
                    ok = False
                    break
                nw = subst(t, dict(zip(q, Ks)))
                mm = {}
                for y in walk(nw):
                    if y.op == 'app' and y.args[0] in grp and y.args[0] not in closed:
                        a = y.args[1 + len(outer) + 1:]
                        if y.args[1 + len(outer)] is not k or a[:nc] != tuple(Ks):
                            ok = False
                            break
                        i0 = initfn(y.args[0])(a)
                        if i0 is None:
                            # absent before this key was visited: the value is never looked at
                            i0 = {B: FALSE, I: IntC(0), R: RealC(0)}.get(y.sort)
                            if i0 is None:
                                ok = False
                                break
                        mm[y] = i0
                if not ok:
                    break
                nw = subst(subst(nw, mm), dict(zip(Ks, q)))
                if k in fv(nw) or apps(nw) & unresolved:
                    ok = False
                    break
                res[n] = (ivs, nw)
            if not ok:
                continue
            for n, (ivs, nw) in res.items():
                if n in closed:
                    continue

                def f(kk, idx, n=n, ivs=ivs, nw=nw, fname=fname, nc=nc):
                    i0 = initfn(n)(idx)
                    w = subst(nw, dict(zip(ivs, idx)))
                    if i0 is None or i0 is w:
                        return w
                    return Ite(App('before:' + fname, (kk,) + tuple(idx[:nc]), B), w, i0)
                out[n] = f
            break
    return out


def _any(kk, k, body):
    return Any(kk, k, body)


def _all(kk, k, body):
    return All(kk, k, body)


def houdini(eng, rec, after, outer, k, back, initfn, st0):
    """inductive bounds on recurrences, from a fixed template set"""
    from . import models
    cands = []
    for n, srt in rec.items():
        if srt == I:
            i0 = initfn(n)(())
            x = lambda kk, n=n: App(n, outer + (kk,), I)
            if i0 is not None:
                cands.append((n, lambda kk, x=x, i0=i0: Le(x(kk), i0)))
                cands.append((n, lambda kk, x=x, i0=i0: Le(i0, x(kk))))
            cands.append((n, lambda kk, x=x: And(*models.date_range(x(kk)))))
            if i0 is not None and n in after and after[n][1] is not None and uses(after[n][1], 'date.ymd'):
                cands.append((n, lambda kk, x=x, i0=i0: Le(Sub(models.Year(i0), kk), models.Year(x(kk)))))
        elif srt == R:
            x = lambda kk, n=n: App(n, outer + (kk,), R)
            cands.append((n, lambda kk, x=x: Lt(RealC(0), x(kk))))
    # base
    keep = []
    for n, f in cands:
        i0 = initfn(n)(())
        if i0 is None:
            continue
        g = subst(f(IntC(0)), {App(n, outer + (IntC(0),), rec[n]): i0})
        if g is TRUE or smt.Ctx(st0.pc).valid(g, 1000):
            keep.append((n, f))
    ch = True
    while ch and keep:
        ch = False
        hyp = [f(k) for _, f in keep]
        for n, f in list(keep):
            if n not in after or after[n][1] is None:
                keep.remove((n, f))
                ch = True
                continue
            g = subst(f(Add(k, IntC(1))), {App(n, outer + (Add(k, IntC(1)),), rec[n]): after[n][1]})
            if not smt.Ctx(tuple(back.pc) + tuple(hyp)).valid(g, 2000):
                keep.remove((n, f))
                ch = True
    return [f for _, f in keep] + folds(rec, after, outer, k, back, initfn, [f(k) for _, f in keep])


def uses(t, name):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'app' and x.args[0] == name:
            return True
        todo += kids(x)
    return False


def folds(rec, after, outer, k, back, initfn, hyp):
    """running maxima and minima: x(k+1) is x(k) or e(k), whichever is larger (smaller)"""
    out = []
    names = set(rec)

    def pure(t):
        return not any(uses(t, m) for m in names)

    def leaves(t, pc):
        if t.op == 'ite':
            return leaves(t.args[1], pc + [t.args[0]]) + leaves(t.args[2], pc + [Not(t.args[0])])
        return [(t, pc)]
    for n, srt in rec.items():
        if srt not in (I, R) or n not in after or after[n][1] is None:
            continue
        i0 = initfn(n)(())
        xk = App(n, outer + (k,), srt)
        ls = leaves(after[n][1], [])
        es = []
        for t, pc in ls:
            if t is not xk and not any(t is e for e in es):
                es.append(t)
        if i0 is None or len(es) != 1 or len(ls) < 2 or not pure(es[0]) or len(ls) > 6:
            continue
        e = es[0]
        conds = []
        for t, pc in ls:
            if t is e:
                for c in pc:
                    conds += list(c.args) if c.op == 'and' else [c]
        g = And(*[c for c in dict.fromkeys(conds) if pure(c)]) if sum(t is e for t, _ in ls) == 1 else TRUE
        ctx = smt.Ctx(tuple(back.pc) + tuple(hyp))
        a = after[n][1]
        for rel in (lambda u, v: Le(v, u), lambda u, v: Le(u, v)):
            if ctx.valid(And(rel(a, xk), Implies(g, rel(a, e))), 2000):
                def f(kk, e=e, g=g, n=n, i0=i0, rel=rel, srt=srt):
                    j = fresh('fj', I)
                    x = App(n, outer + (kk,), srt)
                    b, h = subst(e, {k: j}), subst(g, {k: j})
                    return And(All(kk, j, Implies(h, rel(x, b))), rel(x, i0), Or(Eq(x, i0), Any(kk, j, And(h, Eq(x, b)))))
                out.append(f)
                break
    return out
