"""Loop summaries: a loop is unrolled when its condition is decided by constants; otherwise every location it modifies
is expressed as a comprehension over the iteration number (append, store, sum, exists, pointwise heap update) or, when
nothing simpler fits, as a fold."""
import copy
import terms as tm
from terms import (T, t, I as N, TRUE, FALSE, UNDEF, ZERO, ONE, ite, and_, or_, not_, atom, iadd, isub, imul, vcat, vlen, velem,
                   fld, subst, lam, leaves, ile, ilt, ieq)
from engine import root, sub, split, Unsupported, Exit, isbool, unk, rec, is_oob

MAXUNROLL = 300


def run_loop(I, s, do):
    fr = I.frames[-1]

    def cond():
        if 'cv' in s:
            I.block(s['cv'])
        if 'c' not in s:
            return TRUE
        return I.cond(s['c'])

    def body():
        if 'rv' in s:
            I.block(s['rv'])
        I.block(s['b'])

    def inc():
        if 'inc' in s:
            I.effect(s['inc'])
    loop(I, cond, body, inc, do)


def for_range_k(I, p, q, f):
    uid = I.uid('it')
    I.env[uid] = ZERO
    I.frames[-1].roots.append(uid)
    r = root(uid)
    import stl
    n = stl.rlen(I, p, q)
    loop(I, lambda: ilt(I.load(r), n), lambda: f(I.ptradd(p, I.load(r)), I.load(r)),
         lambda: I.store(r, iadd(I.load(r), ONE)), False)


def for_range(I, p, q, f):
    for_range_k(I, p, q, lambda it, k: f(it))


def exists_call(I, n, f):
    """some 0 <= i < n with f(i) (f has no effects)"""
    if n.op == 'int' and n.a[0] <= 64:
        r = FALSE
        for i in range(n.a[0]):
            r = or_(r, f(N(i)))
        return r
    v = fresh('loopvar')
    tm.RANGES.pop(v, None)
    tm.note_range(v, 0, 1 << 62)
    return tm.exists(n, v, within(I, v, n, f))


def within(I, v, n, f):
    """f(v) for some v < n"""
    I.outer.append(ilt(v, n))
    try:
        return f(v)
    finally:
        I.outer.pop()


def first_call(I, n, f):
    if n.op == 'int' and n.a[0] <= 64:
        r = n
        for i in reversed(range(n.a[0])):
            r = ite(f(N(i)), N(i), r)
        return r
    v = fresh('loopvar')
    tm.note_range(v, 0, 1 << 62)
    return first(n, v, within(I, v, n, f))


def first(n, v, c):
    if c is FALSE:
        return n
    r = t('first', n, lam(v, c))
    tm.note_range(r, 0, 1 << 62)
    return r


_fc = [0]


def fresh(kind, *a):
    _fc[0] += 1
    return t(kind, _fc[0], *a)


# ------------------------------------------------------------------ driver
def loop(I, cond, body, inc, do):
    I.loops += 1
    snap = (I.pc, dict(I.env), list(I.exits))
    if unrolled(I, cond, body, inc, do):
        return
    I.pc, I.env, I.exits = snap[0], dict(snap[1]), list(snap[2])
    if not do and gated(I, cond, body, inc):
        return
    I.pc, I.env, I.exits = snap[0], snap[1], snap[2]
    symbolic(I, cond, body, inc, do)


def gated(I, cond, body, inc):
    """the trip count is a constant on each side of a few gates which the loop does not change: one unrolling per case"""
    pc0, env0, ex0 = I.pc, dict(I.env), list(I.exits)
    c = cond()
    if c in (TRUE, FALSE):
        return False
    c = I.under_pc(c)
    if c in (TRUE, FALSE) or not 1 <= len(gate_atoms(c)) <= 4:
        return False
    outs, exits = [], []

    def go(z, pc):
        if pc is FALSE:
            return True
        if z is FALSE:
            I.pc, I.env, I.exits = pc, dict(env0), []
            cond()
            outs.append((I.pc, I.env))
            exits.extend(I.exits)
            return True
        if z is TRUE:
            I.pc, I.env, I.exits = pc, dict(env0), []
            if not unrolled(I, cond, body, inc, False):
                return False
            outs.append((I.pc, I.env))
            exits.extend(I.exits)
            return True
        g = atom(z.a[0])
        return go(z.a[1], and_(pc, g)) and go(z.a[2], and_(pc, not_(g)))
    if not go(c, pc0):
        return False
    I.exits = ex0 + exits
    I.pc, I.env = pc0, env0
    I.join(outs)
    return True


def unrolled(I, cond, body, inc, do):
    """concrete unrolling; False when the trip count is not decided by constants"""
    save, I.exits = I.exits, []
    outs = []
    keep = []
    first_it = do
    n = 0
    pc0 = I.pc
    while True:
        if not first_it:
            c = cond()
            c2 = c if c in (TRUE, FALSE) else I.under_pc(c)
            if c2 not in (TRUE, FALSE):
                return False
            if c2 is FALSE:
                outs.append((I.pc, I.env))
                break
        first_it = False
        n += 1
        if n > MAXUNROLL:
            return False
        body()
        conts = [(I.pc, I.env)]
        ex, I.exits = I.exits, []
        brk = False
        for x in ex:
            if x.kind == 'continue':
                conts.append((x.pc, x.env))
            elif x.kind == 'break':
                outs.append((x.pc, x.env))
                brk = True
            else:
                keep.append(x)
        I.join(conts)
        if I.pc is FALSE:
            break
        if n > 40 and I.pc is not pc0:
            return False
        inc()
    I.exits = save + keep
    I.join(outs)
    return True


class Leaf:
    __slots__ = ('root', 'path', 'acc', 'init', 'next', 'ptr')


def unptr(shape, v):
    """index of iterator value v, which must point into the same sequence as shape"""
    def g(q):
        if shape.op == 'sub' and q.op == 'sub' and q.a[0] is shape.a[0] and q.a[1][:-1] == shape.a[1][:-1] and \
                q.a[1][-1][0] == 'i':
            return q.a[1][-1][1]
        if shape.op == 'mit' and q.op == 'mit' and q.a[0] is shape.a[0]:
            return q.a[2]
        raise Unsupported('loop-carried pointer changes its target')
    return tm.lift(g, v)


def reptr(shape, i):
    if shape.op == 'sub':
        return tm.lift(lambda z: t('sub', shape.a[0], shape.a[1][:-1] + (('i', z),)), i)
    return tm.lift(lambda z: t('mit', shape.a[0], shape.a[1], z, shape.a[3]), i)


def symbolic(I, cond, body, inc, do):
    env0, pc0, save = I.env, I.pc, I.exits
    it = fresh('loopvar')
    tm.note_range(it, 0, 1 << 62)
    lvs = {}
    heapkeys = {}
    whole_heap = [False]
    accs = {}
    for rnd in range(12):
        I.env = dict(env0)
        I.pc, I.exits = TRUE, []
        for lf in lvs.values():
            put(I, lf, lf.acc)
        if whole_heap[0]:
            pass
        pre = dict(I.env)
        c = cond() if not do else TRUE
        cexits, I.exits = I.exits, []
        mid_pc = I.pc
        I.pc = TRUE
        I.outer.append(c)
        try:
            body()
        finally:
            I.outer.pop()
        conts = [(I.pc, I.env)]
        ex, I.exits = I.exits, []
        for x in ex:
            if x.kind == 'continue':
                conts.append((x.pc, x.env))
        exits = [x for x in ex if x.kind != 'continue']
        I.join(conts)
        if I.pc is not FALSE:
            I.outer.append(c)
            try:
                inc()
            finally:
                I.outer.pop()
            exits += I.exits
            I.exits = []
            cont_pc = I.pc
            if do:
                c = cond()
        else:
            cont_pc = FALSE
            if do:
                c = FALSE
        post = I.env
        new = False
        accset = set(l.acc for l in lvs.values())
        for k in pre:
            if k not in env0 or k == '#H':
                continue
            if k in post and post[k] is not pre[k] or any(x.env.get(k, pre[k]) is not pre[k] for x in exits):
                for e in [post] + [x.env for x in exits]:
                    if k in e:
                        new |= diff(I, lvs, k, (), env0[k], pre[k], e[k])
        # heap (only once the local locations are known: a store through a moving index is no store at its first value)
        if new:
            continue
        for e in [post] + [x.env for x in exits]:
            h = e['#H']
            if h is pre['#H']:
                continue
            for p in heap_keys(h, pre['#H']):
                if p.fv and (it in p.fv or p.fv & accset):
                    whole_heap[0] = True
                    continue
                if p.op == 'alloc' and hsel_raw(env0['#H'], p) is None and p.a[2] is UNDEF and not p.a[1]:
                    continue           # created in this iteration
                new |= diff(I, lvs, p, (), tm.hsel(env0['#H'], p), tm.hsel(pre['#H'], p), tm.hsel(h, p))
        if not new:
            break
    else:
        raise Unsupported('loop does not stabilise')

    L = list(lvs.values())
    for l in L:
        l.next = getleaf(I, l, post) if cont_pc is not FALSE else l.acc
    accs = frozenset(l.acc for l in L)

    # objects created in one iteration get an identity per iteration
    m = {}
    newallocs = [p for p in heap_keys(post['#H'], None) if p.op == 'alloc' and hsel_raw(env0['#H'], p) is None and not p.a[1]]
    for p in newallocs:
        m[p] = t('alloc', p.a[0], (it,), tm.hsel(post['#H'], p))
        if p in I.dyn:
            I.dyn[m[p]] = I.dyn[p]
    postH = drop_keys(post['#H'], set(newallocs))

    def sub_all(f):
        nonlocal c, postH, cont_pc
        c = f(c)
        postH = f(postH)
        cont_pc = f(cont_pc)
        for l in L:
            l.next = f(l.next)
            l.init = l.init
        for x in exits:
            x.pc = f(x.pc)
            if x.val is not None and isinstance(x.val, T):
                x.val = f(x.val)
            x.env = {k: (f(v) if not (k in env0 and v is env0[k]) else v) for k, v in x.env.items()}
    if m:
        for _ in range(3):
            m2 = {k: subst(v, {a: b for a, b in m.items() if a is not k}) for k, v in m.items()}
            if m2 == m:
                break
            m = m2
        sub_all(lambda z: subst(z, m))

    # induction variables, and locations which hold the same value in every iteration
    known = {}
    while True:
        ch = True
        while ch:
            ch = False
            for l in L:
                if l.acc in known:
                    continue
                nx = subst(l.next, known) if known else l.next
                v = induct(I, l, nx, it, accs - set(known), subst(c, known) if known else c)
                if v is None and l.acc.op != 'ite' and nx.fv and it in nx.fv and not nx.fv & accs:
                    # what the previous iteration left, which at the first iteration is what was there before the loop
                    p = subst(nx, {it: isub(it, ONE)})
                    if subst(p, {it: ZERO}) is l.init:
                        v = p
                if v is not None:
                    known[l.acc] = v
                    ch = True
        if known:
            sub_all(lambda z: subst(z, known))
        same = twins(list({l.acc: l for l in L if l.acc not in known}.values()))
        if not same:
            break
        m = {accvar(l): accvar(r) for l, r in same.items()}
        sub_all(lambda z: subst(z, m))
        m = {l.acc: r.acc for l, r in same.items()}
        for l in L:
            l.acc = m.get(l.acc, l.acc)
    L = list(L)
    seen = set()
    uniq = [l for l in L if not (l.acc in seen or seen.add(l.acc))]
    rest = [l for l in uniq if l.acc not in known]
    restacc = frozenset(l.acc for l in rest)

    def dep(x):
        return x.fv is not None and bool(x.fv & restacc)

    # ---- trip count
    group = rest
    ex_conds = [x for x in exits if x.kind in ('break', 'ret')]
    thr = [x for x in exits if x.kind == 'throw']
    gen_exit = any(dep(x.pc) for x in ex_conds)
    if do:
        # body runs, then the condition decides
        stop = not_(c)
        n = trip_do(stop, it, dep, rest)
    else:
        n = trip(I, c, it, dep, rest)
    e = FALSE
    for x in ex_conds:
        e = or_(e, x.pc)
    # conditional continuation: iterations that end the loop by exits
    if e is not FALSE:
        if dep(e):
            key = fold_key(rest)
            j = t('trips', N(1), n, key, close(e, it, rest))
            tm.note_range(j, 0, 1 << 62)
            ex_any = atom(t('b', t('exits', n, key, close(e, it, rest))))
        else:
            j = first(n, it, e)
            ex_any = tm.exists(n, it, e)
    else:
        j, ex_any = n, FALSE

    # ---- values after k iterations
    def values(k):
        out = {}
        for l in rest:
            out[l.acc] = final(I, l, it, k, rest, restacc)
        for l in L:
            if l.acc in known:
                out[l.acc] = subst(known[l.acc], {it: k})
        return out

    H0 = env0['#H']

    def heap_after(k):
        return heap_loop(I, H0, postH, L, it, k, restacc, lvs)

    # throws (in any executed iteration)
    tc = FALSE
    tcs = {}
    keep = {}
    if any(is_oob(x) for x in thr):
        for l in rest:
            # the body keeps the length of the sequence
            if l.acc.op != 'ite' and vlen(l.next) is vlen(l.acc):
                keep[vlen(l.acc)] = vlen(l.init)
    for x in thr:
        if is_oob(x):
            if keep:
                x.pc = subst(x.pc, keep)
            if not do:
                x.pc = inside_div(and_(ilt(it, n), x.pc), n, it, lambda c: at_entry(I, pc0, c))
            if x.pc is FALSE:
                continue
        # the throwing iteration itself is executed when no earlier exit happened
        kk = j if not any_exit_before(e) else j
        if dep(x.pc):
            key = fold_key(rest)
            cc = atom(t('b', t('exits', kk, key, close(x.pc, it, rest))))
        else:
            upper = kk if e is FALSE else ite(ex_any, iadd(j, ONE), j)
            cc = tm.exists(upper, it, x.pc)
        tc = or_(tc, cc)
        k = x.val if is_oob(x) else None
        tcs[k] = or_(tcs.get(k, FALSE), cc)
    I.exits = save
    I.pc = pc0
    I.env = dict(env0)
    if tc is not FALSE:
        for k, z in tcs.items():
            I.exits.append(Exit('throw', and_(pc0, z), env0, 'loop' if k is None else k, None))
        I.pc = and_(I.pc, not_(tc))
    # normal completion
    vals = values(n if ex_any is FALSE else j)
    envn = dict(env0)
    I.env = envn
    I.env['#H'] = heap_after(n if ex_any is FALSE else j)
    for l in L:
        put(I, l, vals[l.acc])
    norm_env = I.env
    if ex_any is FALSE:
        return
    pcx = and_(I.pc, ex_any)
    outs = [(and_(I.pc, not_(ex_any)), norm_env)]
    base = {a: v for a, v in vals.items()}

    def at_exit(z):
        return subst(z, {**base, it: j})
    multi = len(ex_conds) > 1
    taken = FALSE
    for x in ex_conds:
        if not multi:
            xpc = pcx
        elif x is ex_conds[-1]:
            # one of the exits is taken at the first iteration that satisfies any of their conditions
            xpc = and_(pcx, not_(taken))
        else:
            c = at_exit(x.pc)
            taken = or_(taken, c)
            xpc = and_(pcx, c)
        env = dict(env0)
        I.env = env
        I.env['#H'] = norm_env['#H']
        # exit-iteration values
        for l in L:
            put(I, l, at_exit(getleaf(I, l, x.env)))
        hx = x.env['#H']
        for p in heap_keys(hx, H0):
            if p.fv and it in p.fv:
                I.env['#H'] = tm.hput2(I.env['#H'], at_exit(p), at_exit(tm.hsel(hx, p)))
        if x.kind == 'break':
            outs.append((xpc, I.env))
        else:
            v = at_exit(x.val) if isinstance(x.val, T) else x.val
            I.exits.append(Exit('ret', xpc, I.env, v, x.line))
    I.join(outs)


def at_entry(I, pc0, c):
    """c holds whenever the loop is reached"""
    from compare import implied, subterms
    c = or_(not_(pc0), c)
    for p in reversed(I.outer + [I.assumed]):
        d = or_(not_(p), c)
        if len(subterms(d)) > 600:
            break
        c = d
    return implied((), c)


def inside_div(c, n, it, knows):
    """c for it < n: when n is L / p, record number it of size p ends inside L"""
    if n.op == 'ite':
        g = atom(n.a[0])
        return ite(g, inside_div(and_(g, c), n.a[1], it, lambda x: knows(or_(not_(g), x))),
                   inside_div(and_(not_(g), c), n.a[2], it, lambda x: knows(or_(g, x))))
    if n.op != 'idiv' or c is FALSE:
        return c
    L, p = n.a
    m = {}
    for k in (ZERO, ONE):
        a = ile(iadd(imul(p, it), imul(p, k)), L)
        if a.op == 'ite' and a.a[1] is TRUE and a.a[2] is FALSE:
            m[a.a[0]] = TRUE
    start = isub(imul(p, it), L)

    from compare import syms
    left = [64]

    def excess(z):
        # p * it - L + r <= k for every r - k <= p
        if z.op == 'le' and it in syms(z.a[0]):
            r = isub(z.a[0], iadd(start, N(z.a[1])))
            if it not in syms(r):
                return ile(r, p)
        return FALSE

    def go(z, facts, over):
        if z is FALSE:
            return z
        if z.op != 'ite':
            for x in over:
                for f in facts:
                    x = or_(not_(f), x)
                left[0] -= 1
                if left[0] >= 0 and knows(x):
                    return FALSE
            return z
        g = atom(z.a[0])
        if z.a[0] in m:
            return go(z.a[1], facts, over)
        x = excess(z.a[0])
        return ite(g, go(z.a[1], facts + [g], over), go(z.a[2], facts + [not_(g)], over if x is FALSE else over + [x]))
    return go(c, [], [])


def any_exit_before(e):
    return e is not FALSE


def accvar(l):
    return l.acc.a[0].a[0] if l.acc.op == 'ite' else l.acc


def twins(ls):
    """the coarsest partition of the locations into classes of equal value: equal before the loop and, assuming they are
    equal before an iteration, equal after it; returns {member: representative} without the representatives"""
    cls = {}
    for l in ls:
        cls.setdefault((l.init, l.acc.op == 'ite', l.acc in tm.FLOATS, l.ptr), []).append(l)
    cls = [c for c in cls.values() if len(c) > 1]
    while cls:
        m = {accvar(l): accvar(c[0]) for c in cls for l in c[1:]}
        nxt = []
        for c in cls:
            parts = {}
            for l in c:
                parts.setdefault(subst(l.next, m), []).append(l)
            nxt.append(list(parts.values()))
        if all(len(p) == 1 for p in nxt):
            return {l: c[0] for c in cls for l in c[1:]}
        cls = [q for p in nxt for q in p if len(q) > 1]
    return {}


def hsel_raw(h, p):
    while h.op == 'heap':
        for k, v in h.a[1]:
            if k is p:
                return v
        h = h.a[0]
    return None


def heap_keys(h, base):
    out = []
    st = [h]
    while st:
        z = st.pop()
        if z is base:
            continue
        if z.op == 'heap':
            for k, v in z.a[1]:
                if base is None or tm.hsel(base, k) is not v:
                    out.append(k)
            st.append(z.a[0])
        elif z.op == 'ite':
            st += [z.a[1], z.a[2]]
    return list(dict.fromkeys(out))


def drop_keys(h, ks):
    if not ks:
        return h
    if h.op == 'heap':
        es = tuple((k, v) for k, v in h.a[1] if k not in ks)
        b = drop_keys(h.a[0], ks)
        return t('heap', b, es) if es else b
    if h.op == 'ite':
        a, b = drop_keys(h.a[1], ks), drop_keys(h.a[2], ks)
        return a if a is b else t('ite', h.a[0], a, b)
    return h


def put(I, l, v):
    if l.ptr is not None:
        v = reptr(l.ptr, v)
    b = root(l.root) if isinstance(l.root, str) else l.root
    if l.path:
        x = setp(I, I.getroot(b), l.path, v)
    else:
        x = v
    I.setroot(b, x)


def setp(I, cur, path, v):
    if not path:
        return v
    f = path[0]
    if cur.op not in ('rec', 'upd') and False:
        pass
    return tm.upd(cur, f, setp(I, fld(cur, f), path[1:], v))


def getleaf(I, l, env):
    if isinstance(l.root, str):
        v = env.get(l.root, UNDEF)
    else:
        v = tm.hsel(env['#H'], l.root)
    for f in l.path:
        v = fld(v, f)
    if l.ptr is not None:
        v = unptr(l.ptr, v)
    return v


def diff(I, lvs, rt, path, init, pre, post):
    """record the leaf locations where post differs from pre; True when a new one appears"""
    if pre is post:
        return False
    k = (rt, path)
    if k in lvs:
        return False
    if pre.op == 'rec' and post.op == 'rec' and pre.a[0] == post.a[0]:
        new = False
        dp, dq = dict(pre.a[1]), dict(post.a[1])
        for f in dp:
            if f in dq:
                new |= diff(I, lvs, rt, path + (f,), fld(init, f), dp[f], dq[f])
        return new
    if post.op == 'upd' or pre.op == 'upd':
        bp = pre.a[0] if pre.op == 'upd' else pre
        bq = post.a[0] if post.op == 'upd' else post
        if bp is bq:
            new = False
            fs = [f for z in (pre, post) if z.op == 'upd' for f, _ in z.a[1]]
            for f in dict.fromkeys(fs):
                new |= diff(I, lvs, rt, path + (f,), fld(init, f), fld(pre, f), fld(post, f))
            return new
    for (r2, p2) in lvs:
        if r2 is rt and p2 == path[:len(p2)]:
            return False
    l = Leaf()
    l.ptr = None
    a = fresh('acc')
    if init.op == 'mit' or (init.op == 'sub' and init.a[1][-1][0] == 'i'):
        l.ptr = init
        init = unptr(init, init)
        post = unptr(l.ptr, post)
    l.root, l.path, l.init = rt, path, init
    if init.op == 'undef':
        # indeterminate before the loop: the type of the symbol follows the stored value
        typelike(a, post)
    else:
        typelike(a, init)
        if init in tm.RANGES or init.op in tm.NUMI:
            typelike(a, post, weak=True)
    l.acc = atom(t('b', a)) if (isbool(init) and init.op != 'undef') or (init.op == 'undef' and isbool(post)) else a
    lvs[k] = l
    return True


def typelike(a, x, weak=False):
    for z in leaves(x):
        if z in tm.FLOATS or z.op in tm.NUMF:
            tm.FLOATS.add(a)
            return
        if z in tm.RANGES and z.op not in tm.NUMI:
            lo, hi = tm.RANGES[z]
            o = tm.RANGES.get(a)
            tm.RANGES[a] = (min(lo, o[0]) if o else lo, max(hi, o[1]) if o else hi)
        elif z.op in tm.NUMI:
            o = tm.RANGES.get(a)
            lo, hi = tm.rng(z)
            # a counter that starts non-negative may grow up to the type's limit
            lo = 0 if lo >= 0 else -(1 << 63)
            tm.RANGES[a] = (min(lo, o[0]) if o else lo, 1 << 62)


def no_wrap(l, d, w, it, c, accs):
    """the counter never leaves its type: where the loop goes on it is below a limit the type can hold"""
    lo, hi = tm.rng(l.init)
    if lo < 0 or d.op != 'int' or d.a[0] <= 0:
        return False
    x = iadd(l.init, imul(d, it))
    cc = subst(c, {l.acc: x})
    if cc.fv and cc.fv & (accs - {l.acc}):
        return False
    n = None
    if cc is not FALSE and cc is not TRUE:
        n = bound_trip(cc, it)
    if n is None:
        return False
    return hi + d.a[0] * n < 1 << w


def bound_trip(c, it):
    """largest possible number of iterations with c true (None: no bound found)"""
    if c is FALSE:
        return 0
    if c is TRUE:
        return None
    if not (c.fv and it in c.fv):
        return None
    n = closed_trip(c, it)
    if n is not None:
        hi = max(tm.rng(z)[1] for z in leaves(n))
        return hi if hi < 1 << 62 else None
    at = next((z for z in gate_atoms(c) if not (z.fv and it in z.fv)), None)
    if at is not None:
        x, y = bound_trip(cof_atom(c, at, True), it), bound_trip(cof_atom(c, at, False), it)
        return None if x is None or y is None else max(x, y)
    at = c.a[0]
    if at.fv and it in at.fv:
        # one conjunct bounding the counter is enough
        for keep in (True, False):
            k = c.a[1] if keep else c.a[2]
            o = c.a[2] if keep else c.a[1]
            if o is FALSE:
                lit = atom(at) if keep else not_(atom(at))
                n = closed_trip(lit, it)
                if n is not None:
                    hi = max(tm.rng(z)[1] for z in leaves(n))
                    if hi < 1 << 62:
                        return hi
                return bound_trip(k, it)
        return None
    x, y = bound_trip(c.a[1], it), bound_trip(c.a[2], it)
    return None if x is None or y is None else max(x, y)


def induct(I, l, nx, it, accs, c=TRUE):
    """value at iteration `it` when it has a closed form that does not need the other accumulators"""
    a = l.acc
    if a.op == 'ite':
        return None
    if nx is a:
        return l.init
    if nx.op == 'wrap' and not nx.a[1] and num(nx):
        d = isub(nx.a[2], a)
        if d.op == 'int' and no_wrap(l, d, nx.a[0], it, c, accs):
            return iadd(l.init, imul(d, it))
    d = isub(nx, a) if (a in tm.RANGES or l.init.op in tm.NUMI) and num(nx) else None
    if d is not None and not d.fv:
        if d is ZERO:
            return l.init
        return iadd(l.init, imul(d, it))
    return None


def num(x):
    return all(z.op in tm.NUMI or z in tm.RANGES for z in leaves(x))


def trip(I, c, it, dep, rest):
    """number of iterations with c true"""
    if c is FALSE:
        return ZERO
    if c is TRUE:
        r = t('forever')
        tm.note_range(r, 0, 1 << 62)
        return r
    if not dep(c):
        for at in gate_atoms(c):
            if not (at.fv and it in at.fv):
                # the gate does not change during the loop
                return ite(atom(at), trip(I, cof_atom(c, at, True), it, dep, rest),
                           trip(I, cof_atom(c, at, False), it, dep, rest))
        n = closed_trip(c, it)
        if n is not None:
            return n
        r = t('first', t('forever'), lam(it, not_(c)))
        tm.note_range(r, 0, 1 << 62)
        return r
    r = t('trips', ZERO, t('forever'), fold_key(rest), close(not_(c), it, rest))
    tm.note_range(r, 0, 1 << 62)
    return r


def gate_atoms(c):
    out = []
    seen = set()
    st = [c]
    while st:
        z = st.pop()
        if z.op != 'ite' or z in seen:
            continue
        seen.add(z)
        out.append(z.a[0])
        st += [z.a[1], z.a[2]]
    return list(dict.fromkeys(out))


def trip_do(stop, it, dep, rest):
    if stop is TRUE:
        return ONE
    if not dep(stop):
        n = closed_trip(not_(stop), it)
        if n is not None:
            return iadd(n, ONE)
    r = t('trips', ONE, t('forever'), fold_key(rest), close(stop, it, rest))
    tm.note_range(r, 1, 1 << 62)
    return r


def closed_trip(c, it):
    """c is a conjunction of bounds on it: the first iteration where it fails"""
    if c is TRUE:
        return None
    if not (c.fv and it in c.fv):
        return None
    # c == (p <= k) with p = +it + rest  -> it <= k - rest ; or its negation with -it
    if c.op == 'ite' and c.a[0].op == 'le':
        s, k = c.a[0].a
        c0, ms = tm.poly_parts(s)
        co = 0
        others = ZERO
        for mono, q in ms:
            if mono == (it,):
                co = q
            elif it in mono or any(z.fv and it in z.fv for z in mono):
                return None
            else:
                others = iadd(others, tm.mkpoly(0, {mono: q}))
        hi, lo = c.a[1], c.a[2]
        if co > 0 and lo is FALSE and hi is TRUE:
            # co*it + others <= k
            r = isub(N(k), others)
            q = tm.idiv(iadd(r, N(co)), N(co)) if co != 1 else iadd(r, ONE)
            return max0(q)
        if co < 0 and hi is FALSE and lo is TRUE:
            # not(co*it + others <= k)  <=>  -co*it - others < -k ... it < (others - k)/(-co)
            r = isub(others, N(k))
            m = -co
            q = r if m == 1 else tm.idiv(iadd(r, N(m - 1)), N(m))
            return max0(q)
        # i != n  (as an equality test on a unit-step counter that starts at or below n)
        eqv = eq_form(c, it)
        if eqv is not None:
            return eqv
    return None


def eq_form(c, it):
    """not (it == n): c is ite(le(s,k), ite(le(s,k-1), T, F), T) for s = +-it + rest"""
    a = c.a[0]
    s, k = a.a
    # canonical: ite(le(s,k-1), TRUE, ite(le(s,k), FALSE, TRUE))
    if c.a[1] is TRUE and c.a[2].op == 'ite' and c.a[2].a[0].op == 'le' and c.a[2].a[0].a[0] is s and \
            c.a[2].a[0].a[1] == k + 1 and c.a[2].a[1] is FALSE and c.a[2].a[2] is TRUE:
        v = k + 1                       # s != v
        c0, ms = tm.poly_parts(s)
        co = 0
        others = ZERO
        for mono, q in ms:
            if mono == (it,):
                co = q
            elif any(z is it or (z.fv and it in z.fv) for z in mono):
                return None
            else:
                others = iadd(others, tm.mkpoly(0, {mono: q}))
        if co == 1:
            return isub(N(v), others)
        if co == -1:
            return isub(others, N(v))
    # one-sided forms when the range of s makes one of the bounds trivial: it != n  with n >= 0 known
    return None


def max0(q):
    lo, hi = tm.rng(q)
    if lo >= 0:
        return q
    return tm.lift(lambda z: z if tm.rng(z)[0] >= 0 else ZERO if tm.rng(z)[1] <= 0 else ite(ile(ZERO, z), z, ZERO), q)


def order(rest):
    return rest


def close(x, it, rest):
    """x with the loop variable and the accumulators abstracted"""
    m = {}
    lv = x.lvl + 1
    for l in rest:
        lv = max(lv, l.next.lvl + 1)
    m[it] = tm.t_bv(lv)
    for i, l in enumerate(rest):
        a = l.acc
        if a.op == 'ite':
            a = a.a[0].a[0]
        v = t('bacc', lv, i, str(tm.RANGES.get(a)), a in tm.FLOATS)
        if a in tm.RANGES:
            tm.RANGES[v] = tm.RANGES[a]
        if a in tm.FLOATS:
            tm.FLOATS.add(v)
        m[a] = v
    return t('lamx', subst(x, m), lv)


def fold_key(rest):
    return t('tup', tuple(t('step', l.init, close(l.next, None_it(), rest)) for l in rest))


_nit = []


def None_it():
    if not _nit:
        _nit.append(t('loopvar', -1))
    return _nit[0]


def final(I, l, it, k, rest, restacc):
    """value of leaf l after k iterations"""
    a, nx, init = l.acc, l.next, l.init
    others = restacc - {a}

    def dep_on(x, s):
        return x.fv is not None and bool(x.fv & accs_of(s))

    def accs_of(s):
        out = set()
        for z in s:
            out |= set(z.fv or ())
        return out
    if nx is a:
        return init
    # append
    if a.op != 'ite':
        ps = tm.vparts(nx)
        if len(ps) > 1 and ps[0] is a:
            x = tm.from_parts(tm.unit_parts(t('vcat', ps[1:]) if len(ps) > 2 else ps[1]))
            if not dep_on(x, restacc):
                return vcat(init, vflat(k, it, x))
        if len(ps) > 1 and ps[-1] is a:
            x = tm.from_parts(tm.unit_parts(t('vcat', ps[:-1]) if len(ps) > 2 else ps[0]))
            if not dep_on(x, restacc):
                return vcat(t('vrev', vflat(k, it, x)), init)
        # sum
        if num(nx) and (a in tm.RANGES or num(init)):
            d = isub(nx, a)
            if not dep_on(d, restacc):
                return iadd(init, tsum(k, it, d))
        # store at the iteration index
        v = store_form(nx, a, it, restacc)
        if v is not None:
            idx, val = v
            return pointwise(init, k, it, idx, val, a)
    else:
        # booleans
        hi = tm.hi_under(subst_bool(nx, a, True), a.a[0])
        lo = subst_bool(nx, a, False)
        if not dep_on(lo, restacc) and not dep_on(hi, restacc):
            if hi is TRUE:
                return or_(init, tm.exists(k, it, lo))
            if lo is FALSE:
                return and_(init, not_(tm.exists(k, it, not_(hi))))
    # last value
    if not dep_on(nx, restacc):
        last = subst(nx, {it: isub(k, ONE)})
        if last is nx and not (nx.fv and it in nx.fv):
            return ite(ilt(ZERO, k), nx, init)
        return ite(ilt(ZERO, k), last, init)
    # a gate which is the same in every iteration
    if nx.op == 'ite' and a.op != 'ite':
        g = nx.a[0]
        if not (g.fv and (it in g.fv or g.fv & accvars(restacc))):
            r = []
            for v in (True, False):
                z = copy.copy(l)
                z.next, z.init = cof_atom(nx, g, v), cof_atom(init, g, v)
                r.append(final(I, z, it, k, [z if y is l else y for y in rest], restacc))
            return ite(atom(g), r[0], r[1])
    # general fold over the accumulators this one depends on
    grp = closure(l, rest)
    key = t('tup', tuple(t('step', z.init, close(z.next, it, grp)) for z in grp))
    r = t('fold', k, key, grp.index(l))
    if a.op == 'ite':
        return atom(t('b', r))
    if a in tm.RANGES:
        tm.RANGES.setdefault(r, tm.RANGES[a])
    if a in tm.FLOATS:
        tm.FLOATS.add(r)
    return r


def closure(l, rest):
    out = [l]
    i = 0
    while i < len(out):
        fv = out[i].next.fv or ()
        for z in rest:
            a = z.acc if z.acc.op != 'ite' else z.acc.a[0].a[0]
            if a in fv and z not in out:
                out.append(z)
        i += 1
    return [out[0]] + sorted(out[1:], key=lambda z: (tm.show(z.init), z.next.id))


def subst_bool(x, a, v):
    return subst(x, {a.a[0]: TRUE if v else FALSE}) if False else cof_atom(x, a.a[0], v)


def cof_atom(x, at, v):
    """cofactor of diagram x on atom at"""
    memo = {}

    def go(z):
        if z.op != 'ite':
            return z
        if z in memo:
            return memo[z]
        if z.a[0] is at:
            r = z.a[1] if v else z.a[2]
        else:
            r = ite(atom(z.a[0]), go(z.a[1]), go(z.a[2]))
        memo[z] = r
        return r
    return go(x)


def store_form(nx, a, it, restacc):
    if nx.op == 'vstore' and nx.a[0] is a:
        idx, val = nx.a[1], nx.a[2]
        if idx.fv and it in idx.fv and not (idx.fv & accvars(restacc)):
            d = isub(idx, it)
            if d.fv and it in d.fv:
                return None
            own = t('elem', a, idx)
            v2 = subst(val, {own: t('self')}) if not isself(val) else val
            if v2.fv and v2.fv & accvars(restacc):
                return None
            return idx, v2
    return None


def isself(v):
    return False


def accvars(restacc):
    out = set()
    for z in restacc:
        out |= set(z.fv or ())
    return out


def pointwise(init, k, it, idx, val, a):
    off = isub(idx, it)
    if off is ZERO and vlen(init) is k and not contains(val, t('self')):
        return vflat(k, it, tm.vlit(val))
    if off is ZERO and vlen(init) is k:
        return vflat(k, it, tm.vlit(subst(val, {t('self'): velem(init, it)})))
    return t('vupd', init, off, k, lam(it, val))


def contains(x, y):
    seen = set()
    st = [x]
    while st:
        z = st.pop()
        if z is y:
            return True
        if z in seen:
            continue
        seen.add(z)
        st.extend(tm.kids_of(z.a))
    return False


def vflat(n, it, x):
    """concatenation of x(0) .. x(n-1)"""
    if x is tm.EMPTY or n is ZERO:
        return tm.EMPTY
    if n.op == 'int' and n.a[0] <= 16:
        r = tm.EMPTY
        for i in range(n.a[0]):
            r = vcat(r, subst(x, {it: N(i)}))
        return r
    if n.op == 'ite':
        return tm.lift(lambda m: vflat(m, it, x), n)
    # identity comprehension
    if x.op == 'vlit' and len(x.a[0]) == 1 and x.a[0][0].op == 'elem' and x.a[0][0].a[1] is it and \
            not (x.a[0][0].a[0].fv and it in x.a[0][0].a[0].fv) and vlen(x.a[0][0].a[0]) is n:
        return x.a[0][0].a[0]
    if not (x.fv and it in x.fv) and x.op == 'vlit' and len(x.a[0]) == 1 and \
            x.a[0][0].op not in ('tk', 'tkx'):
        return tm.vrep(n, x.a[0][0])
    return t('vflat', n, lam(it, x))


def tsum(n, it, d):
    if d is ZERO or n is ZERO:
        return ZERO
    if not (d.fv and it in d.fv):
        return imul(n, d)
    if n.op == 'int' and n.a[0] <= 32:
        r = ZERO
        for i in range(n.a[0]):
            r = iadd(r, subst(d, {it: N(i)}))
        return r
    return t('sum', n, lam(it, d))


def heap_loop(I, H0, postH, L, it, k, restacc, lvs):
    """heap after k iterations: locations keyed by the iteration become a pointwise update"""
    h = H0
    lost = [p for p in heap_keys(postH, None) if p.fv and p.fv & restacc and not (p.op == 'alloc')]
    if lost:
        return unk('heap changed at locations which depend on the course of the loop')
    ks = [p for p in heap_keys(postH, None) if p.fv and it in p.fv]
    for p in ks:
        v = tm.hsel(postH, p)
        if p.op == 'alloc' and v is p.a[2]:
            continue
        h = t('hmap', h, k, lam(it, p), lam(it, v))
    return h


def _reb_vflat(n, l):
    if n is ZERO:
        return tm.EMPTY
    if n.op == 'int' and n.a[0] <= 16:
        r = tm.EMPTY
        for i in range(n.a[0]):
            r = vcat(r, tm.beta(l, N(i)))
        return r
    if n.op == 'ite':
        return tm.lift(lambda m: _reb_vflat(m, l), n)
    return t('vflat', n, l)


tm.REBUILD['vflat'] = _reb_vflat
