"""Decides whether two value graphs denote the same value for every input: lockstep descent over gates, records and
sequences; gate combinations that contradict each other (interval / difference bounds / order of reals) are skipped."""
import math
import terms as tm
from terms import T, t, TRUE, FALSE, ite, and_, not_, atom, okey, cof, isflt, rng, poly_parts
from loops import cof_atom


class Diff(Exception):
    def __init__(self, facts, a, b, path):
        self.facts, self.a, self.b, self.path = facts, a, b, path


LIMIT = 60000
PTRS_ = ('sub', 'alloc', 'root', 'null', 'addr', 'mit', 'rec')


class Cmp:
    def __init__(self, facts=()):
        self.n = 0
        self.leaves = 0
        self.depth = 0
        self.limit = LIMIT
        self.memo = set()
        self.resid = []
        self.facts = list(facts)

    def equal(self, a, b, path=()):
        """None when equal, else a Diff"""
        try:
            self.go(a, b, tuple(self.facts), path)
            return None
        except Diff as d:
            return d

    def go(self, a, b, facts, path):
        if a is b:
            self.leaves += 1
            return
        self.n += 1
        if self.n > self.limit:
            raise tm.Blowup()
        if a.op == 'ite' or b.op == 'ite':
            tops = [z.a[0] for z in (a, b) if z.op == 'ite']
            top = min(tops, key=okey)
            a1, a0 = cof(a, top, 0)
            b1, b0 = cof(b, top, 0)
            f1 = facts + ((top, True),)
            f0 = facts + ((top, False),)
            if not (a1 is b1) and feasible(f1):
                self.go(restrict(a1, top, True), restrict(b1, top, True), f1, path)
            if not (a0 is b0) and feasible(f0):
                self.go(restrict(a0, top, False), restrict(b0, top, False), f0, path)
            return
        self.leaf(a, b, facts, path)

    def fail(self, facts, a, b, path):
        """a and b differ, unless what holds for every element rules the case out"""
        if self.resid:
            g = dict(facts)
            for c in self.resid:
                c = tm.restrict(c, g)
                if c is FALSE or len(top_atoms(c)) <= 24 and implied(facts, not_(c)):
                    return
        raise Diff(facts, a, b, path)

    def leaf(self, a, b, facts, path):
        if (a, b) in self.memo:
            return
        if a.op == 'rec' and b.op == 'rec':
            if a.a[0] == b.a[0]:
                da, db = dict(a.a[1]), dict(b.a[1])
                for f in dict.fromkeys(list(da) + list(db)):
                    if f not in da or f not in db:
                        return self.fail(facts, a, b, path)
                    self.go(da[f], db[f], facts, path + ('.' + f.split('::')[-1],))
                return
            return self.fail(facts, a, b, path)
        if a.op == 'rec' and a.a[1] and b.op in OPAQUE:
            return self.eta(a, b, facts, path)
        if b.op == 'rec' and b.a[1] and a.op in OPAQUE:
            return self.eta(b, a, facts, path)
        if a.op in SEQ or b.op in SEQ:
            if self.seq(a, b, facts, path):
                return
        if (arraylike(a) or arraylike(b)) and self.pointwise(a, b, facts, path):
            return
        if a.op == b.op and a.op in ('vflat', 'sum') and a.a[1].op == b.a[1].op == 'lam' and a.a[1].a[1] != b.a[1].a[1]:
            return self.bodies(a, b, facts, path)
        if a.op == b.op and len(a.a) == len(b.a) and a.op in CONG:
            fs, more = under_binder(a, b, facts)
            self.resid += more
            try:
                ok = self.kids(a.a, b.a, fs, path + (a.op,))
            finally:
                if more:
                    del self.resid[-len(more):]
            if ok:
                self.memo.add((a, b)) if not facts else None
                return
        # equal integers by bounds
        if (a in tm.RANGES or a.op in tm.NUMI) and (b in tm.RANGES or b.op in tm.NUMI):
            e = tm.ieq(a, b)
            if e is TRUE or implied(facts, e):
                return
        if facts:
            a2, b2 = under_facts(a, facts), under_facts(b, facts)
            if a2 is not a or b2 is not b:
                return self.go(a2, b2, facts, path)
        return self.fail(facts, a, b, path)

    def bodies(self, a, b, facts, path):
        """binders of different depth: the bodies agree for an arbitrary element"""
        self.go(a.a[0], b.a[0], facts, path)
        self.depth += 1
        bv = tm.t_bv(1000 + self.depth)
        x, y = tm.beta(a.a[1], bv), tm.beta(b.a[1], bv)
        fs = facts + tuple(f for f in necessary(tm.ilt(bv, a.a[0])) if f not in facts)
        fs += instances(fs, (x, y, bv))
        more = instance_conds(fs, (x, y, bv))
        self.resid += more
        try:
            if feasible(fs):
                self.go(x, y, fs, path + ('[i]',))
        finally:
            if more:
                del self.resid[-len(more):]
            self.depth -= 1

    def kids(self, x, y, facts, path):
        for p, q in zip(x, y):
            if isinstance(p, T) and isinstance(q, T):
                self.go(p, q, facts, path)
            elif isinstance(p, tuple) and isinstance(q, tuple):
                if len(p) != len(q) or not self.kids(p, q, facts, path):
                    return False
            elif p != q:
                return False
        return True

    def eta(self, a, b, facts, path):
        for f, v in a.a[1]:
            self.go(v, tm.fld(b, f), facts, path + ('.' + f.split('::')[-1],))

    def pointwise(self, a, b, facts, path):
        """sequences of one length agree when they agree at an arbitrary position"""
        if a.op in NOTSEQ or b.op in NOTSEQ:
            return False
        n, m = tm.vlen(a), tm.vlen(b)
        n, m = tm.PINS.get(n, n), tm.PINS.get(m, m)
        if n is not m and not implied(facts, tm.ieq(n, m)):
            return False
        ps = vparts1(b)
        if len(ps) == 1 and len(vparts1(a)) > 1:
            a, b, ps = b, a, vparts1(a)
        off = tm.ZERO
        for lit, p in ps:
            if lit:
                x = velem(a, off)
                fs = facts + instances(facts, (x, p))
                if feasible(fs):
                    self.go(x, p, fs, path + ('[%s]' % tm.show(off),))
                off = tm.iadd(off, tm.ONE)
                continue
            self.depth += 1
            bv = tm.t_bv(1000 + self.depth)
            k = tm.vlen(p)
            inside = tm.ilt(bv, k)
            if inside is not FALSE:
                x, y = velem(a, tm.iadd(off, bv)), velem(p, bv)
                fs = facts + tuple(f for f in necessary(inside) if f not in facts)
                fs += instances(fs, (x, y))
                if feasible(fs):
                    self.go(x, y, fs, path + ('[i]' if off is tm.ZERO else '[%s+i]' % tm.show(off),))
            self.depth -= 1
            off = tm.iadd(off, k)
        return True

    def seq(self, a, b, facts, path):
        pa, pb = tm.unit_parts(a), tm.unit_parts(b)
        i = 0
        while i < len(pa) and i < len(pb):
            (la, x), (lb, y) = pa[i], pb[i]
            if x is y and la == lb:
                i += 1
                continue
            if la == lb:
                if not la and (x.op == 'ite' or y.op == 'ite'):
                    break
                if not la and (arraylike(x) or arraylike(y)) and not implied(facts, tm.ieq(tm.vlen(x), tm.vlen(y))):
                    break
                self.go(x, y, facts, path + ('[%d]' % i,))
                i += 1
                continue
            break
        if i == len(pa) and i == len(pb):
            return True
        ra, rb = pa[i:], pb[i:]
        for rest in (ra, rb):
            for l, z in rest:
                if not l and z.op == 'ite':
                    at = z.a[0]
                    for v in (True, False):
                        f = facts + ((at, v),)
                        if feasible(f):
                            self.go(restrict(tm.from_parts(ra), at, v), restrict(tm.from_parts(rb), at, v), f, path + ('[%d..]' % i,))
                    return True
        if any(not l and arraylike(z) for l, z in ra + rb) and not any(tok(z) for l, z in ra + rb):
            if self.pointwise(tm.from_parts(ra), tm.from_parts(rb), facts, path + (('[%d..]' % i,) if i else ())):
                return
        if i:
            self.go(tm.from_parts(ra), tm.from_parts(rb), facts, path + ('[%d..]' % i,))
            return True
        self.fail(facts, a, b, path)
        return True


def under_binder(a, b, facts):
    """what the facts say about every element, said about the one the bodies of a and b talk about: (facts with the
    literals that follow, the conditions which are more than literals)"""
    ex = [at for at, v in facts if at.op == 'exists' and not v]
    if not ex or a.a[0] is not b.a[0]:
        return facts, []
    lv = {z.a[1] for z in a.a + b.a if isinstance(z, T) and z.op == 'lam'}
    if len(lv) != 1:
        return facts, []
    bv = t('bv', lv.pop())
    out = list(facts)
    more = []
    for at in ex:
        if at.a[0] is a.a[0]:
            c = not_(tm.beta(at.a[1], bv))
            for f in necessary(c):
                if f not in out:
                    out.append(f)
            more.append(c)
    return tuple(out), more


def tok(z):
    return z.op in ('tk', 'tkx')


def vparts1(x):
    """(is it one element, part)"""
    if x.op not in ('vlit', 'vcat'):
        return [(False, x)]
    return tm.unit_parts(x)


def velem(x, j):
    """element j of x, resolved by cases on the position"""
    if x.op in ('vlit', 'vcat') and j.op != 'int':
        r = tm.velem(x, j)
        if r.op != 'elem' or r.a[0] is not x:
            return r
        ps = vparts1(x)
        if any(tok(z) for l, z in ps):
            return r
        offs = []
        off = tm.ZERO
        for lit, p in ps:
            offs.append(off)
            off = tm.iadd(off, tm.ONE if lit else tm.vlen(p))
        r = None
        for (lit, p), o in reversed(list(zip(ps, offs))):
            v = p if lit else velem(p, tm.isub(j, o))
            r = v if r is None else ite(tm.ilt(j, tm.iadd(o, tm.ONE if lit else tm.vlen(p))), v, r)
        return r
    return tm.velem(x, j)


def instances(facts, xs):
    """what `no element satisfies P` says about the elements xs mention"""
    out = []
    for c in instance_conds(facts, xs):
        for f in necessary(c):
            if f not in facts and f not in out:
                out.append(f)
    return tuple(out)


_inst = {}


def instance_conds(facts, xs):
    ex = [at for at, v in facts if at.op == 'exists' and not v]
    out = []
    if not ex:
        return out
    base = tuple(f for f in facts if f[0].op != 'exists')
    idx = {}
    for x in xs:
        for z in subterms(x):
            if z.op == 'elem' and not bound_below(z):
                idx[z.a[1]] = 1
            elif z.op == 'bv' and z.a[0] >= 999:
                idx[z] = 1
    for at in ex:
        n, p = at.a
        for i in list(idx)[:40]:
            c = not_(tm.and_(tm.ile(tm.ZERO, i), tm.ilt(i, n)))
            d = _inst.get((p, i))
            if d is None:
                d = _inst[(p, i)] = not_(tm.beta(p, i))
            out.append(d if implied(base, not_(c)) else tm.or_(c, d))
    return out


def bound_below(z):
    return any(y.op == 'bv' and y.a[0] < 999 for y in subterms(z))


_subt = {}


def subterms(x):
    r = _subt.get(x)
    if r is None:
        seen = {}
        st = [x]
        while st:
            z = st.pop()
            if z in seen:
                continue
            seen[z] = 1
            st.extend(tm.kids_of(z.a))
        r = _subt[x] = list(seen)
    return r


def arraylike(x):
    return x.op in ('vstore', 'vrep', 'slice', 'splice', 'vupd') or x.op == 'vflat' and x.a[1].a[0].op == 'vlit' and tm.vlen(x.a[1].a[0]) is tm.I(1)


OPAQUE = {'elem', 'in', 'deref', 'fld'}
NOTSEQ = {'unk', 'rec', 'undef', 'str', 'global'}
SEQ = {'vlit', 'vcat'}
CONG = {'fadd', 'fmul', 'fdiv', 'fneg', 'tk', 'tkx', 'box', 'call', 'ext', 'post', 'slice', 'vflat', 'lam', 'lamx', 'f2i', 'i2f',
        'fround', 'ffloor', 'fceil', 'scale2', 'idiv', 'imod', 'elem', 'fld', 'rdseq', 'vrep', 'fold', 'tup', 'step', 'trips',
        'first', 'sum', 'upd', 'dec', 'heap', 'hmap', 'mput', 'len', 'vupd', 'call2', 'fsqrt', 'flog2', 'wrap', 'cstr', 'vstore',
        'deref', 'sub', 'mget', 'box', 'splice', 'padcopy', 'f32', 'ipow2', 'tobytes', 'fpow', 'reload'}


def restrict(x, at, v):
    """replace atom `at` by v everywhere below x (also inside operators)"""
    if not mentions(x, at):
        return x
    memo = {}

    def go(z):
        r = memo.get(z)
        if r is not None:
            return r
        if not mentions(z, at) or not z.a:
            return z
        if z.op == 'ite':
            if z.a[0] is at:
                r = go(z.a[1] if v else z.a[2])
            else:
                p, q = go(z.a[1]), go(z.a[2])
                g = go(z.a[0])
                c = atom(g) if g.op != 'ite' and g not in (TRUE, FALSE) else g
                r = ite(c, p, q) if c not in (TRUE, FALSE) else (p if c is TRUE else q)
        else:
            na = gt(z.a)
            r = z if na == z.a else tm.rebuild(z.op, na, z)
        memo[z] = r
        return r

    def gt(a):
        return tuple(go(c) if isinstance(c, T) else gt(c) if isinstance(c, tuple) else c for c in a)
    return go(x)


def under_facts(x, facts):
    """x re-normalised with the bounds the facts give single quantities"""
    box = {}
    for at, v in facts:
        if at.op != 'le':
            continue
        s, k = at.a
        c, ms = poly_parts(s)
        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][1] == 1:
            z = ms[0][0][0]
            lo, hi = box.get(z) or rng(z)
            box[z] = (lo, min(hi, k)) if v else (max(lo, k + 1), hi)
    if not box:
        return x
    keys = set(box)
    one = {z: tm.I(lo) for z, (lo, hi) in box.items() if lo == hi}
    memo = {}
    tm.CTX.append(box)
    try:
        def go(z):
            r = memo.get(z)
            if r is not None:
                return r
            if z in one:
                return one[z]
            if not z.a:
                return z
            na = gt(z.a)
            if z.op in ('wrap', 'poly', 'idiv', 'imod', 'le', 'ite', 'bits', 'f2i') or na != z.a:
                r = tm.rebuild(z.op, na, z)
            else:
                r = z
            memo[z] = r
            return r

        def gt(a):
            return tuple(go(c) if isinstance(c, T) else gt(c) if isinstance(c, tuple) else c for c in a)
        return go(x)
    finally:
        tm.CTX.pop()


_atoms = {}


def atoms_of(x):
    """all gate atoms below x"""
    r = _atoms.get(x)
    if r is None:
        s = set()
        seen = set()
        st = [x]
        while st:
            z = st.pop()
            if z in seen:
                continue
            seen.add(z)
            c = _atoms.get(z)
            if c is not None:
                s |= c
                continue
            if z.op == 'ite':
                s.add(z.a[0])
            st.extend(tm.kids_of(z.a))
        r = _atoms[x] = frozenset(s)
    return r


def mentions(x, at):
    return at in atoms_of(x)


def implied(facts, c):
    """facts entail the boolean diagram c"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    at, hi, lo = c.a
    f1, f0 = facts + ((at, True),), facts + ((at, False),)
    return (not feasible(f1) or implied(f1, hi)) and (not feasible(f0) or implied(f0, lo))


_nec = {}


def necessary(p):
    """gate outcomes every execution satisfying p has"""
    r = _nec.get(p)
    if r is not None:
        return r
    r = []
    ats = [a for a in top_atoms(p)]
    if len(ats) <= 60:
        for at in ats:
            if cof_atom(p, at, True) is FALSE:
                r.append((at, False))
            elif cof_atom(p, at, False) is FALSE:
                r.append((at, True))
    _nec[p] = r
    return r


def top_atoms(c):
    out = []
    seen = set()
    st = [c]
    while st:
        z = st.pop()
        if z.op != 'ite' or z in seen:
            continue
        seen.add(z)
        out.append(z.a[0])
        st += [z.a[1], z.a[2]]
    return list(dict.fromkeys(out))


_syms = {}


def syms(x):
    """atomic quantities of comparisons in x (not descending into them, except conversions)"""
    r = _syms.get(x)
    if r is not None:
        return r
    s = set()
    seen = set()
    st = [x]
    while st:
        z = st.pop()
        if z in seen:
            continue
        seen.add(z)
        if z.op in ('ite', 'le', 'frel', 'poly', 'wrap', 'eqlit', 'bits', 'bit', 'idiv', 'imod'):
            st.extend(tm.kids_of(z.a))
        elif z.a:
            s.add(z)
    r = _syms[x] = frozenset(s)
    return r


# ------------------------------------------------------------------ contradiction of a set of gate outcomes
def unwrap_facts(facts, dist):
    """the facts with conversions dropped where the bounds show that they keep the value"""
    ws = {z for at, v in facts if at.op == 'le' for z in syms(at.a[0]) | {at.a[0]} for m in poly_parts(z)[1] for z in m[0]
          if z.op == 'wrap' and z.a[2].op in ('poly', 'len') and not has_ite(z.a[2])}
    if not ws:
        return None
    box = {}
    for (i, j), k in dist.items():
        if j == 0 and i != 0 and i[0] == 'm' and len(i[1]) == 1:
            lo, hi = box.get(i[1][0]) or rng(i[1][0])
            box[i[1][0]] = (lo, min(hi, k))
        elif i == 0 and j != 0 and j[0] == 'm' and len(j[1]) == 1:
            lo, hi = box.get(j[1][0]) or rng(j[1][0])
            box[j[1][0]] = (max(lo, -k), hi)
    m = {}
    for w in ws:
        c, ms = poly_parts(w.a[2])
        lo = hi = c
        for mm, q in ms:
            if len(mm) != 1:
                l, h = float('-inf'), float('inf')
            else:
                l, h = box.get(mm[0]) or rng(mm[0])
            lo += q * l if q > 0 else q * h
            hi += q * h if q > 0 else q * l
        for at, v in facts:
            if at.op == 'le':
                c2, ms2 = poly_parts(at.a[0])
                if ms2 == ms:
                    if v:
                        hi = min(hi, at.a[1] - c2 + c)
                    else:
                        lo = max(lo, at.a[1] + 1 - c2 + c)
        l, h = tm.trange(w.a[0], w.a[1])
        if l <= lo and hi <= h:
            m[w] = w.a[2]
        elif lo > float('-inf') and hi < float('inf') and (lo - l) >> w.a[0] == (hi - l) >> w.a[0]:
            m[w] = tm.isub(w.a[2], tm.I(((lo - l) >> w.a[0]) << w.a[0]))
    if not m:
        return None
    out = []
    for at, v in facts:
        if at.op == 'le':
            s = tm.subst(at.a[0], m)
            if s is not at.a[0]:
                d = tm.ile(s, tm.I(at.a[1]))
                if d in (TRUE, FALSE):
                    if (d is TRUE) != v:
                        return ((at, True), (at, False))
                    continue
                if d.a[1] is TRUE and d.a[2] is FALSE:
                    out.append((d.a[0], v))
                elif d.a[1] is FALSE and d.a[2] is TRUE:
                    out.append((d.a[0], not v))
                continue
        out.append((at, v))
    return tuple(out)


def has_ite(x):
    return any(z.op == 'ite' for z in subterms(x))


_divs = {}


def divided(x):
    """quantities whose quotient by a constant occurs in x"""
    r = _divs.get(x)
    if r is None:
        s = set()
        for z in subterms(x):
            if z.op in ('idiv', 'imod') and z.a[1].op == 'int' and z.a[0].op != 'int':
                s |= syms(z.a[0])
            elif z.op in ('bits', 'bit'):
                s |= syms(z)
        r = _divs[x] = frozenset(s)
    return r


_feas = {}


def feasible(facts):
    k = frozenset(facts)
    r = _feas.get(k)
    if r is None:
        r = _feas[k] = _feasible(k)
    return r


def _feasible(facts):
    ints = {}
    les = []
    frel = []
    notnan = set()
    d = {}
    for at, v in facts:
        if d.get(at, v) != v:
            return False
        d[at] = v
        if at.op == 'le':
            s, k = at.a
            if v:
                les.append((s, k, 1))
            else:
                les.append((s, -k - 1, -1))
        elif at.op == 'frel':
            frel.append((at.a[0], at.a[1], at.a[2], v))
        elif v and at.op == 'eq' and not (at.a[0].op in PTRS_ or at.a[1].op in PTRS_):
            # equal sequences are equally long
            n = tm.isub(tm.vlen(at.a[0]), tm.vlen(at.a[1]))
            for x in (tm.ile(n, tm.ZERO), tm.ile(tm.ineg(n), tm.ZERO)):
                if x is FALSE:
                    return False
                if x.op == 'ite' and x.a[0].op == 'le':
                    les.append((x.a[0].a[0], x.a[0].a[1] if x.a[1] is TRUE else -x.a[0].a[1] - 1, 1 if x.a[1] is TRUE else -1))
        elif at.op == 'notnan' and not v and not tm.NAN[0]:
            return False
    # an element satisfying Q is one satisfying P when Q implies P
    some = [at for at, v in facts if at.op == 'exists' and v]
    if some:
        none = [at for at, v in facts if at.op == 'exists' and not v]
        for q in some:
            bv = tm.t_bv(1 + max([4999] + [z.a[0] for at, _ in facts for z in subterms(at) if z.op == 'bv' and z.a[0] >= 5000]))
            c = tm.beta(q.a[1], bv)
            base = tuple(f for f in facts if f[0].op != 'exists') + tuple(necessary(tm.ilt(bv, q.a[0])))
            for d in instance_conds(base + tuple((p, False) for p in none), (c, bv)):
                c = tm.and_(c, d)
            if implied(base, not_(c)):
                return False
    # conversions that do not change the value under the single-quantity bounds
    box = {}
    for s, k, sg in les:
        c, ms = poly_parts(s)
        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][1] == 1:
            x = ms[0][0][0]
            lo, hi = box.get(x) or rng(x)
            if sg > 0:
                hi = min(hi, k)
            else:
                lo = max(lo, -k)
            box[x] = (lo, hi)
    for x, (lo, hi) in box.items():
        if lo > hi:
            return False
    pinned = {x: tm.I(lo) for x, (lo, hi) in box.items() if lo == hi}
    if pinned:
        # quotients of quantities whose value is known
        out = []
        for at, v in facts:
            if any(x in pinned for x in divided(at)):
                c = tm.subst(atom(at) if at.op != 'ite' else at, pinned)
                if c in (TRUE, FALSE):
                    if (c is TRUE) != v:
                        return False
                    continue
                if c.op == 'ite' and {c.a[1], c.a[2]} == {TRUE, FALSE}:
                    out.append((c.a[0], v == (c.a[1] is TRUE)))
                    continue
            out.append((at, v))
        if len(out) != len(facts) or frozenset(out) != facts:
            return feasible(frozenset(out))

    def plain(m):
        if len(m) == 1 and m[0].op == 'wrap':
            x = m[0].a[2]
            if x.op not in ('poly', 'ite'):
                lo, hi = box.get(x) or rng(x)
                l, h = tm.trange(m[0].a[0], m[0].a[1])
                if l <= lo and hi <= h:
                    return (x,)
        return m
    # difference bounds: sum = +-x +-y
    edges = {}

    def add(u, v, k):
        # u - v <= k
        o = edges.get((u, v))
        if o is None or k < o:
            edges[(u, v)] = k
    nodes = set()
    general = []
    todo = []
    for s, k, sg in les:
        c, ms = poly_parts(s)
        todo.append(([(plain(m), q * sg) for m, q in ms], k, s, sg))
    # sums of two bounds in which terms cancel
    if len(todo) <= 24:
        for ts, k, _, _ in list(todo):
            if len(ts) < 3:
                continue
            for us, l, _, _ in list(todo):
                if us is ts:
                    continue
                d = {}
                n0 = len({m for m, q in ts})
                for m, q in ts + us:
                    d[m] = d.get(m, 0) + q
                d = {m: q for m, q in d.items() if q}
                if not d:
                    if k + l < 0:
                        return False
                elif len(d) <= 2 and len(d) < n0:
                    g = math.gcd(*[abs(q) for q in d.values()])
                    if g > 1 or len(d) == 1:
                        r = sorted(((m, q // g) for m, q in d.items()), key=lambda z: tuple(x.id for x in z[0]))
                        sg = 1 if r[0][1] > 0 else -1
                        todo.append((r, (k + l) // g, tm.mkpoly(0, {m: q * sg for m, q in r}), sg))
    for terms, k, s, sg in todo:
        if len(terms) == 2 and terms[0][0] == terms[1][0]:
            if sum(q for _, q in terms) == 0:
                if k < 0:
                    return False
                continue
        # terms sum <= k   (c is 0)
        if len(terms) == 1 and abs(terms[0][1]) == 1:
            m, q = terms[0]
            x = ('m', m)
            nodes.add(x)
            if q > 0:
                add(x, 0, k)
            else:
                add(0, x, k)
        elif len(terms) == 2 and sorted(q for _, q in terms) == [-1, 1]:
            p = next(('m', m) for m, q in terms if q == 1)
            n = next(('m', m) for m, q in terms if q == -1)
            nodes |= {p, n}
            add(p, n, k)
        else:
            general.append((terms, k))
            for m, q in terms:
                nodes.add(('m', m))
            x = ('p', s)
            nodes.add(x)
            if sg > 0:
                add(x, 0, k)
            else:
                add(0, x, k)
    for n in nodes:
        if n[0] == 'm' and len(n[1]) == 1:
            lo, hi = rng(n[1][0])
        elif n[0] == 'p':
            lo, hi = rng(n[1])
        else:
            continue
        if lo != float('-inf') and abs(lo) < 1 << 64:
            add(0, n, -lo)
        if hi != float('inf') and abs(hi) < 1 << 64:
            add(n, 0, hi)
        if n[0] == 'm' and len(n[1]) == 1 and n[1][0].op == 'len' and n[1][0].a[0].op == 'cstr':
            # the text of a string up to its first zero is not longer than the string
            m = ('m', (tm.vlen(n[1][0].a[0].a[0]),))
            if m in nodes:
                add(n, m, 0)
    if len(nodes) > 1 or edges:
        vs = list(nodes) + [0]
        if len(vs) <= 40:
            dist = dict(edges)
            for k in vs:
                for i in vs:
                    ik = dist.get((i, k))
                    if ik is None:
                        continue
                    for j in vs:
                        kj = dist.get((k, j))
                        if kj is None:
                            continue
                        if i == j:
                            if ik + kj < 0:
                                return False
                            continue
                        o = dist.get((i, j))
                        if o is None or ik + kj < o:
                            dist[(i, j)] = ik + kj
            if general and out_of_bounds(general, dist, vs):
                return False
            again = unwrap_facts(facts, dist)
            if again is not None and not feasible(again):
                return False
    # order of reals
    if frel:
        le = {}
        ns = set()

        def fe(u, v, strict):
            ns.add(u)
            ns.add(v)
            o = le.get((u, v))
            le[(u, v)] = strict or bool(o)
        ne = []
        by = {}
        for a, b, r, v in frel:
            by.setdefault((a, b), {})[r] = v
        for (a, b), m in by.items():
            if m.get(0) and m.get(1):
                return False
            if m.get(0):
                fe(a, b, True)
            elif m.get(1):
                fe(a, b, False)
                fe(b, a, False)
            elif m.get(2):
                fe(b, a, True)
            elif not tm.NAN[0]:
                if m.get(0) is False and m.get(1) is False:
                    fe(b, a, True)
                elif m.get(0) is False:
                    fe(b, a, False)
                elif m.get(1) is False:
                    ne.append((a, b))
        cs = [n for n in ns if isflt(n)]
        for i in cs:
            for j in cs:
                if i is not j and i.a[0] <= j.a[0]:
                    fe(i, j, i.a[0] < j.a[0])
        ns = list(ns)
        if len(ns) <= 40:
            for k in ns:
                for i in ns:
                    if (i, k) not in le:
                        continue
                    for j in ns:
                        if (k, j) in le:
                            s = le[(i, k)] or le[(k, j)]
                            o = le.get((i, j))
                            if o is None or s and not o:
                                le[(i, j)] = s
            for n in ns:
                if le.get((n, n)):
                    return False
            for a, b in ne:
                if (a, b) in le and (b, a) in le:
                    return False
    return True


def out_of_bounds(general, dist, nodes):
    """a sum over quantities in known relation to each other that cannot be as small as stated"""
    rep = {}
    for n in nodes:
        for r in ([0] if 0 in nodes else []) + list(rep):
            a, b = dist.get((n, r)), dist.get((r, n))
            if n == r or a is not None and b is not None and a == -b:
                rep[n] = rep[r] if r in rep else (0, 0)
                rep[n] = (rep[n][0], rep[n][1] + (a or 0))
                break
        else:
            rep[n] = (n, 0)
    for terms, k in general:
        low = 0
        sums = {}
        for m, q in terms:
            r, o = rep[('m', m)]
            low += q * o
            if r != 0:
                sums[r] = sums.get(r, 0) + q
        for r, q in sums.items():
            if q == 0:
                continue
            b = dist.get((0, r)) if q > 0 else dist.get((r, 0))
            if b is None:
                break
            low += q * (-b if q > 0 else b)
        else:
            if low > k:
                return True
    return False


def show_facts(facts, limit=14):
    out = []
    for at, v in facts:
        s = tm.show(at)
        if len(s) > 160:
            s = s[:160] + '…'
        out.append(s if v else 'not ' + s)
    if len(out) > limit:
        out = out[:limit] + ['… %d more' % (len(out) - limit)]
    return '; '.join(out) or 'always'
