"""Value-graph dataflow over the resolved program.

Every function is summarised once, joins merge values with gates (no path is enumerated and no solver is used): the
result of a function is a canonical term for its return value, its final heap, its stream effects and the condition
under which it throws, all in terms of its inputs.  Loops become comprehensions / folds."""
import os
import terms as tm
from front import REPO
from terms import (T, t, I, F, TRUE, FALSE, UNDEF, NULL, ZERO, ONE, ite, and_, or_, not_, atom, lift, rng, veq, ieq, ile,
                   ilt, iadd, isub, imul, vcat, vlen, velem, vstore, fld, hsel, leaves)


MAXREC = 6


class Endless(Exception):
    def __init__(self, id):
        self.id = id


class Unsupported(Exception):
    pass


class NeedSym(Exception):
    pass


UNKS = {}


def unk(why):
    r = t('unk', why)
    UNKS[r] = tm.CUR[0]
    return r


def wrapped64(v):
    """does the value hold a 64-bit conversion of something which may be negative"""
    def w(z):
        return z.op == 'wrap' and z.a[0] == 64
    return w(v) or v.op == 'poly' and any(w(z) for m, _ in v.a[1] for z in m)


def root(uid):
    return t('root', uid)


def sub(p, sel):
    def g(q):
        if q.op == 'sub':
            b, path = q.a
            return t('sub', b, path + (sel,))
        if q.op == 'mpair' and sel[0] == 'f':
            if sel[1] == 'second':
                return sub(q.a[0], ('k', q.a[1]))
            if sel[1] == 'first':
                return t('const', q.a[1])
        return t('sub', q, (sel,))
    return lift(g, p) if p.op == 'ite' else g(p)


def split(p):
    if p.op == 'sub':
        return p.a
    return p, ()


def rec(cls, fs):
    return t('rec', cls, tuple(fs))


def is_rec(x, cls):
    return x.op == 'rec' and x.a[0] == cls


STREAM = 'std::stream'
INTS = ('int',)


class Frame:
    __slots__ = ('n', 'fn', 'vars', 'this', 'types', 'rets', 'roots', 'lamcaps', 'retty')


class Exit:
    __slots__ = ('kind', 'pc', 'env', 'val', 'line')

    def __init__(self, kind, pc, env, val=None, line=None):
        self.kind, self.pc, self.env, self.val, self.line = kind, pc, env, val, line


class Interp:
    def __init__(self, prog, opaque=(), pure=(), limit=400000):
        self.p = prog
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.env = {'#H': t('H0')}
        self.pc = TRUE
        self.exits = []             # exits of the current function/loop/switch nest (Exit)
        self.frames = []
        self.nuid = 0
        self.dyn = {}
        self.stack = []
        self.norec = set()
        self.assumed = TRUE
        self.used = {}              # functions analysed -> file:line
        self.steps = 0
        self.limit = limit
        self.loops = 0
        self.calls_ext = {}
        self.throws = []            # (absolute description) for reports
        self.depth = 0
        self.unroll_budget = 40000
        self.trace = None
        self.badpos = False
        self.safe = False           # accesses outside their buffer, table or record leave the function (see oob)
        self.sites = {}             # accesses looked at: (place, what) -> count
        self.arrlen = {}            # arrays of fixed length: place -> number of elements
        self.given = {}             # literals assumed by the law
        self.resid = []             # assumed disjunctions
        self.outer = []             # conditions under which the enclosing frames / loop bodies run

    # ------------------------------------------------------------------ heap / memory
    def uid(self, s='t'):
        self.nuid += 1
        return '%s%d' % (s, self.nuid)

    def getroot(self, b):
        if b.op == 'root':
            v = self.env.get(b.a[0])
            return UNDEF if v is None else v
        if b.op == 'const':
            return b.a[0]
        if b.op in ('null', 'undef'):
            return UNDEF
        if b.op == 'mpair':
            return rec('std::pair', (('first', b.a[1]), ('second', self.load(sub(b.a[0], ('k', b.a[1]))))))
        return hsel(self.env['#H'], b)

    def setroot(self, b, v):
        if b.op == 'root':
            self.env[b.a[0]] = v
        elif b.op in ('null', 'undef', 'const'):
            pass
        else:
            self.env['#H'] = tm.hput(self.env['#H'], b, v)

    def load(self, p, ty=None):
        def g(q):
            b, path = split(q)
            v = self.getroot(b)
            for s in path:
                v = self.getsel(v, s)
            return v
        v = lift(g, p) if p.op == 'ite' else g(p)
        return self.typed(v, ty)

    def getsel(self, v, s):
        if s[0] == 'f':
            return fld(v, s[1])
        if s[0] == 'i':
            return self.elem(v, s[1])
        if s[0] == 'k':
            return tm.mget(v, s[1])
        raise Unsupported('sel')

    def elem(self, v, i):
        return velem(v, i)

    def setsel(self, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == 'f':
            return tm.upd(v, s[1], self.setsel(fld(v, s[1]), path[1:], x))
        if s[0] == 'i':
            return vstore(v, s[1], self.setsel(self.elem(v, s[1]), path[1:], x))
        if s[0] == 'k':
            return tm.mput(v, s[1], self.setsel(tm.mget(v, s[1]), path[1:], x))
        raise Unsupported('sel')

    def store(self, p, x):
        if p.op == 'ite':
            # gated pointer: weak update of every target
            for q in leaves(p):
                c = self.ptr_is(p, q)
                old = self.load(q)
                self.store(q, self.merge(c, x, old))
            return
        b, path = split(p)
        if path:
            x = self.setsel(self.getroot(b), path, x)
        self.setroot(b, x)

    def ptr_is(self, p, q):
        if p is q:
            return TRUE
        if p.op == 'ite':
            return ite(atom(p.a[0]), self.ptr_is(p.a[1], q), self.ptr_is(p.a[2], q))
        return FALSE

    def typed(self, v, ty):
        """annotate / normalise a value loaded with static type ty"""
        if ty is None:
            return v
        k = ty.k
        if k == 'bool':
            return self.tobool(v)
        if k == 'int':
            lo, hi = tm.trange(ty.w, ty.s)
            if ty.w == 64:
                hi = (1 << 63) - 1
            for l in leaves(v):
                if l in (TRUE, FALSE):
                    return ite(v, ONE, ZERO)
                tm.note_range(l, lo, hi)
            return v
        if k == 'float':
            for l in leaves(v):
                if l.op not in ('undef',):
                    tm.FLOATS.add(l)
            return v
        if k == 'rec':
            if ty.n == 'std::array' and len(ty.a) > 1 and isinstance(ty.a[1], dict):
                return self.table(v, ty.a[0], int(ty.a[1].get('v') or 0))
            return self.expand(v, ty)
        if k == 'arr' and isinstance(ty.n, int):
            return self.table(v, ty.t, ty.n)
        return v

    def table(self, v, et, n):
        """whole value of a small fixed array: its elements"""
        if et.k not in ('int', 'float', 'bool') or not 0 < n <= 32:
            return v

        def g(x):
            if x.op in ('vlit', 'padcopy', 'undef', 'unk', 'str'):
                return x
            return t('vlit', tuple(self.typed(velem(x, I(i)), et) for i in range(n)))
        return lift(g, v)

    def tobool(self, v):
        def g(x):
            if x is TRUE or x is FALSE:
                return x
            if x.op == 'int':
                return TRUE if x.a[0] else FALSE
            if x.op == 'undef':
                return atom(t('b', x))
            return atom(t('b', x))
        if v.op != 'ite':
            return g(v)
        if isbool(v):
            return v
        return lift(g, v)

    def expand(self, v, ty):
        """whole-record value of static class ty.n (bases' fields first), so that two copies of a record are identical"""
        n = ty.n
        if n == 'std::pair' and len(ty.a) >= 2:
            return lift(lambda x: x if x.op in ('rec', 'undef') else rec('std::pair', (
                ('first', self.typed(fld(x, 'first'), ty.a[0])), ('second', self.typed(fld(x, 'second'), ty.a[1])))), v)
        if n == 'std::optional':
            return lift(lambda x: x if x.op in ('rec', 'undef') else rec('std::optional', (
                ('has', self.tobool(fld(x, 'has'))), ('val', self.typed(fld(x, 'val'), ty.a[0])))), v)
        if n in STREAMS:
            return lift(lambda x: x if x.op in ('rec', 'undef') else self.stream_of(x), v)
        fs = self.p.allfields(n)
        if fs is None or not self.expandable(n):
            return v

        def g(x):
            if x.op == 'undef':
                return x
            if x.op == 'rec':
                if x.a[0] == n:
                    return x
                have = dict(x.a[1])
                if all(f in have for f, _ in fs):
                    return rec(n, [(f, have[f]) for f, _ in fs])
            return rec(n, [(f, self.typed(fld(x, f), ft)) for f, ft in fs])
        return lift(g, v) if v.op == 'ite' else g(v)

    def expandable(self, n):
        r = self.p.recs.get(n)
        return r is not None and not r.get('union') and '(lambda' not in n and (
            r.get('repo') or n in EXT_EXPAND or n.startswith('lazperf::eb_vlr::') or n.startswith('lazperf::header'))

    def merge(self, c, a, b):
        """c ? a : b for memory contents"""
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a.op == 'heap' or b.op == 'heap' or a.op == 'H0' or b.op == 'H0':
            ba, ea = a.a if a.op == 'heap' else (a, ())
            bb, eb = b.a if b.op == 'heap' else (b, ())
            if ba is bb:
                h = ba
                seen = set()
                for p, _ in ea + eb:
                    if p in seen:
                        continue
                    seen.add(p)
                    h = tm.hput(h, p, self.merge(c, hsel(a, p), hsel(b, p)))
                return h
            # put the smaller difference on top of a common base when one extends the other
            return t('ite', c.a[0], a, b) if c.a[1] is TRUE and c.a[2] is FALSE else ite(c, a, b)
        if a.op in ('rec', 'upd') or b.op in ('rec', 'upd'):
            if a.op == 'undef' or b.op == 'undef':
                return b if a.op == 'undef' else a
            if a.op == 'rec' and b.op == 'rec':
                if a.a[0] == b.a[0]:
                    da, db = dict(a.a[1]), dict(b.a[1])
                    ks = [f for f, _ in a.a[1]] + [f for f, _ in b.a[1] if f not in da]
                    return rec(a.a[0], [(f, self.merge(c, da.get(f, UNDEF), db.get(f, UNDEF))) for f in ks])
            elif a.op != 'ite' and b.op != 'ite':
                x, y = (a, b)
                if x.op == 'rec' or y.op == 'rec':
                    r = x if x.op == 'rec' else y
                    return rec(r.a[0], [(f, self.merge(c, fld(x, f), fld(y, f))) for f, _ in r.a[1]])
                bx = x.a[0] if x.op == 'upd' else x
                by = y.a[0] if y.op == 'upd' else y
                if bx is by:
                    fs = [f for z in (x, y) if z.op == 'upd' for f, _ in z.a[1]]
                    out = bx
                    for f in dict.fromkeys(fs):
                        out = tm.upd(out, f, self.merge(c, fld(x, f), fld(y, f)))
                    return out
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if (isbool(a) != isbool(b)):
            a, b = (self.tobool(a), self.tobool(b))
        return ite(c, a, b)

    def merge_env(self, c, e1, e2):
        if e1 is e2:
            return dict(e1)
        out = {}
        for k in e1:
            if k in e2:
                a, b = e1[k], e2[k]
                out[k] = a if a is b else self.merge(c, a, b)
            else:
                out[k] = e1[k]
        for k in e2:
            if k not in out:
                out[k] = e2[k]
        return out

    # ------------------------------------------------------------------ statements
    def loc(self, line):
        if self.frames:
            tm.CUR[0] = (self.frames[-1].fn.file if self.frames[-1].fn else None, line)

    def block(self, s):
        k = s['k']
        if self.pc is FALSE:
            return
        self.steps += 1
        if self.steps > self.limit:
            raise Unsupported('analysis budget exceeded')
        if 'l' in s:
            self.loc(s['l'])
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s' % (s.get('cls') or k))
        m(s)

    def s_seq(self, s):
        for x in s['s']:
            self.block(x)

    def s_blk(self, s):
        ds = self.dtor_vars(s)
        if not ds:
            return self.s_seq(s)
        n = len(self.exits)
        self.s_seq(s)
        fr = self.frames[-1]

        def run():
            for uid, ty in reversed(ds):
                if uid % fr.n in self.env:
                    self.destroy(root(uid % fr.n), ty.n)
        for x in self.exits[n:]:
            if x.kind != 'throw':
                keep = self.env, self.pc
                self.env, self.pc = dict(x.env), x.pc
                run()
                x.env, x.pc = self.env, self.pc
                self.env, self.pc = keep
        if self.pc is not FALSE:
            run()

    def dtor_vars(self, s):
        fr = self.frames[-1]
        out = s.get('_dt')
        if out is None:
            out = []
            for x in s['s']:
                if x['k'] == 'decl':
                    for d in x['d']:
                        ty = fr.types[d['t']]
                        if ty.k == 'rec' and not d.get('static') and (self.p.has_dtor(ty.n) or self.p.is_file(ty)):
                            out.append(('v%%d.%d' % d['id'], ty))
            s['_dt'] = out
        return out

    def destroy(self, p, cls):
        """run the destructor chain of the object at p"""
        if cls in STREAMS and 'fstream' in cls and self.pc is not FALSE:
            import stl
            stl.close_file(self, p)
            return
        r = self.p.recs.get(cls)
        if r is None or self.pc is FALSE or not self.p.has_dtor(cls):
            return
        old = self.dyn.get(p)
        self.dyn[p] = cls
        d = self.p.decls.get(r.get('dtor'))
        if d is not None and d.id in self.p.funcs and not d.defaulted:
            self.inline(d, self.p.funcs[d.id], p, [])
        for f in reversed(r['fields']):
            ft = f['t']
            if self.pc is FALSE:
                return
            q = sub(p, ('f', f['n']))
            if ft.k == 'rec' and ft.n in STREAMS and 'fstream' in ft.n:
                import stl
                stl.close_file(self, q)
            elif ft.k == 'rec' and ft.n in ('std::shared_ptr', 'std::unique_ptr'):
                v = self.load(q)
                if v.op == 'alloc':
                    # the only owner as far as the analysis can see
                    c = self.dyn.get(v) or (ft.a[0].n if ft.a and ft.a[0].k == 'rec' else None)
                    self.destroy(v, c)
            elif ft.k == 'rec':
                self.destroy(q, ft.n)
        for b in reversed(r['bases']):
            if self.pc is FALSE:
                return
            self.destroy(p, b.n)
        if old is not None:
            self.dyn[p] = old

    def s_nop(self, s):
        pass

    def s_unk(self, s):
        raise Unsupported('statement ' + str(s.get('cls')))

    def s_ex(self, s):
        self.effect(s['e'])

    def s_decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        ty = fr.types[d['t']]
        if d.get('static'):
            # function-local static: a constant when its initialiser is one
            ini = d.get('init')
            key = 'static:%s:%s' % (fr.fn.id, d['name'])
            if ini is not None and (ty.c or not self.p.written(None, key)):
                fr.vars[d['id']] = t('const', self.rv(ini, ty))
                return
            fr.vars[d['id']] = t('global', key)
            return
        if ty.k == 'ref':
            p = self.refarg(d['init'], ty) if d.get('init') else UNDEF
            fr.vars[d['id']] = p
            target = p
        else:
            uid = 'v%d.%d' % (fr.n, d['id'])
            r = root(uid)
            fr.roots.append(uid)
            fr.vars[d['id']] = r
            self.env[uid] = self.initial(ty)
            if ty.k == 'rec':
                self.dyn[r] = ty.n
            ini = d.get('init')
            if ini is not None:
                self.init_into(r, ty, ini)
            target = r
        for b in d.get('bind', ()):
            if 'f' in b:
                fr.vars[b['id']] = sub(target, ('f', b['f']))
            elif self.strip(ty).n == 'std::pair':
                fr.vars[b['id']] = sub(target, ('f', ('first', 'second')[b['ix']]))
            elif self.strip(ty).n == 'std::tuple':
                fr.vars[b['id']] = sub(target, ('f', str(b['ix'])))
            else:
                fr.vars[b['id']] = sub(target, ('i', I(b['ix'])))

    def initial(self, ty):
        if ty.k == 'arr':
            return tm.vrep(I(ty.n if isinstance(ty.n, int) else 0), self.initial(ty.t)) if isinstance(ty.n, int) else UNDEF
        if ty.k == 'rec' and ty.n == 'std::array':
            n = ty.a[1]
            n = n.get('v') if isinstance(n, dict) else None
            return tm.vrep(I(int(n)), self.initial(ty.a[0])) if n is not None else UNDEF
        return UNDEF

    def strip(self, ty):
        while ty is not None and ty.k == 'ref':
            ty = ty.t
        return ty

    def init_into(self, p, ty, e):
        """initialise the object at p (of type ty) from expression e"""
        if e['k'] == 'ctor' and ty.k == 'rec':
            self.construct(p, ty, e)
            return
        if e['k'] == 'arrcopy' or ty.k == 'arr':
            v = self.rv(e, ty)
            self.store(p, v)
            return
        v = self.rv(e, ty)
        self.store(p, v)

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if 'e' in s:
            if fr.retty is not None and fr.retty.k == 'ref':
                v = self.refarg(s['e'], fr.retty)
            elif fr.retty is not None and fr.retty.k == 'void':
                self.effect(s['e'])
            else:
                v = self.rv(s['e'], fr.retty)
        if self.pc is FALSE:
            return
        self.exits.append(Exit('ret', self.pc, self.env, v, s.get('l')))
        self.env = dict(self.env)
        self.pc = FALSE

    def s_break(self, s):
        self.exits.append(Exit('break', self.pc, self.env))
        self.env = dict(self.env)
        self.pc = FALSE

    def s_continue(self, s):
        self.exits.append(Exit('continue', self.pc, self.env))
        self.env = dict(self.env)
        self.pc = FALSE

    def throw(self, c, what, line=None):
        """the current execution throws under c"""
        c = and_(self.pc, c)
        if c is FALSE:
            return
        self.exits.append(Exit('throw', c, self.env, what, line))
        self.pc = and_(self.pc, not_(c))

    def oob(self, bad, what):
        """an access which is outside its object under `bad`: as if it left the function there"""
        if not self.safe or self.pc is FALSE:
            return
        f, l = tm.CUR[0] or (None, 0)
        if f is None or not f.startswith(REPO):
            return
        k = ('%s:%s' % (os.path.relpath(f, REPO), l), what)
        self.sites[k] = self.sites.get(k, 0) + 1
        if bad is not FALSE:
            bad = self.under_pc(bad)
            c = and_(self.pc, bad)
            for p in reversed(self.outer):
                if c is FALSE:
                    return
                c = and_(p, c)
            if c is FALSE:
                return
        self.throw(bad, t('oob', what, k[0]), k[0])

    def capacity(self, q):
        """(elements of the sequence a pointer q points into, position of q) or None"""
        if q.op == 'const':
            return (iadd(vlen(q.a[0]), ONE), ZERO) if q.a[0].op == 'str' else None
        if q.op == 'sub' and q.a[1][-1][0] == 'i':
            base = t('sub', q.a[0], q.a[1][:-1]) if len(q.a[1]) > 1 else q.a[0]
            n = self.arrlen.get(base)
            if n is None and base.op == 'const' and base.a[0].op == 'str':
                n = len(base.a[0].a[0]) + 1
            if n is None:
                n = vlen(self.load(base))
            else:
                n = I(n)
            return n, q.a[1][-1][1]
        return None

    def fixed(self, p, ty):
        """p is an array of fixed length"""
        if not self.safe or ty is None:
            return
        ty = self.strip(ty)
        n = ty.n if ty.k == 'arr' else None
        if ty.k == 'rec' and ty.n == 'std::array' and len(ty.a) > 1 and isinstance(ty.a[1], dict):
            n = int(ty.a[1].get('v') or 0)
        if isinstance(n, int):
            for q in leaves(p):
                self.arrlen[q] = n

    def access(self, p, k=ONE, what='access', end=ZERO):
        """k elements at p are used; null and out of range are bad"""
        if not self.safe:
            return
        for q in leaves(p):
            c = self.ptr_is(p, q)
            if q is NULL:
                self.oob(c, 'null pointer')
                continue
            if q.op == 'bytes':
                sz = q.a[2]
                cap = None
                if elements_of(q):
                    b, kind, size = q.a
                    cap = self.capacity(b)
                    if cap is not None and size:
                        have = tm.imul(isub(*cap), I(size))
                        self.oob(and_(c, and_(ilt(ZERO, k), ilt(have, k))), what)
                        self.oob(and_(c, and_(ilt(ZERO, k), ilt(cap[1], ZERO))), what)
                        continue
                self.oob(and_(c, ilt(I(sz), k)), what)
                continue
            cap = self.capacity(q)
            if cap is None:
                continue
            n, i = cap
            bad = or_(ilt(i, ZERO), ilt(iadd(n, end), iadd(i, k)))
            self.oob(and_(c, and_(ilt(ZERO, k), bad)), what)

    def s_if(self, s):
        for k in ('init', 'cv'):
            if k in s:
                self.block(s[k])
        c = self.cond(s['c'])
        if self.pc is FALSE:
            return
        self.branch(c, lambda: self.block(s['a']), (lambda: self.block(s['b'])) if 'b' in s else None)

    def branch(self, c, f, g):
        c = self.under_pc(c)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g() if g else None
        pc0, env0 = self.pc, self.env
        self.env = dict(env0)
        self.pc = and_(pc0, c)
        if self.pc is not FALSE:
            f()
        pc1, env1 = self.pc, self.env
        self.env = dict(env0)
        self.pc = and_(pc0, not_(c))
        if self.pc is not FALSE and g:
            g()
        pc2, env2 = self.pc, self.env
        self.pc = or_(pc1, pc2)
        if pc1 is FALSE:
            self.env = env2
        elif pc2 is FALSE:
            self.env = env1
        else:
            self.env = self.merge_env(c, env1, env2)

    def under_pc(self, c):
        if self.given:
            c = tm.restrict(c, self.given)
        if c is TRUE or c is FALSE:
            return c
        if and_(self.pc, c) is FALSE:
            return FALSE
        if and_(self.pc, not_(c)) is FALSE:
            return TRUE
        if c.op == 'ite':
            # `no element satisfies P` holds here: what it says about the elements c mentions
            from compare import necessary, instance_conds
            facts = tuple(f for p in self.outer + [self.pc] if p.op == 'ite' for f in necessary(p))
            if any(at.op == 'exists' and not v for at, v in facts):
                d = TRUE
                for x in instance_conds(facts, (c,)):
                    d = and_(d, x)
                if and_(d, c) is FALSE:
                    return FALSE
                if and_(d, not_(c)) is FALSE:
                    return TRUE
        return c

    def s_switch(self, s):
        for k in ('init', 'cv'):
            if k in s:
                self.block(s[k])
        v = self.rv(s['c'])
        pc0, env0 = self.pc, self.env
        items = s['items']
        conds = []
        none = TRUE
        for it in items:
            if it['k'] == 'case':
                x = self.rv(it['v'])
                c = ieq(v, x) if 'hi' not in it else and_(ile(x, v), ile(v, self.rv(it['hi'])))
                conds.append(c)
                none = and_(none, not_(c))
            else:
                conds.append(None)
        save = self.exits
        self.exits = []
        self.pc = FALSE
        self.env = dict(env0)
        entered = FALSE
        for it, c in zip(items, conds):
            if it['k'] in ('case', 'default'):
                c = c if it['k'] == 'case' else none
                ent = and_(pc0, c)
                if ent is not FALSE:
                    self.env = self.merge_env(c, env0, self.env) if self.pc is not FALSE else dict(env0)
                    self.pc = or_(self.pc, ent)
            elif self.pc is not FALSE:
                self.block(it)
        outs = [(self.pc, self.env)]
        if not any(i['k'] == 'default' for i in items):
            outs.append((and_(pc0, none), env0))
        rest = []
        for x in self.exits:
            if x.kind == 'break':
                outs.append((x.pc, x.env))
            else:
                rest.append(x)
        self.exits = save + rest
        self.join(outs)

    def join(self, outs):
        outs = [(c, e) for c, e in outs if c is not FALSE]
        if not outs:
            self.pc = FALSE
            return
        pc, env = outs[-1]
        for c, e in reversed(outs[:-1]):
            env = self.merge_env(c, e, env)
            pc = or_(pc, c)
        self.pc, self.env = pc, dict(env)

    def s_try(self, s):
        save = self.exits
        self.exits = []
        self.block(s['b'])
        mine, self.exits = self.exits, save
        thr = [x for x in mine if x.kind == 'throw' and not is_oob(x)]
        self.exits += [x for x in mine if x.kind != 'throw' or is_oob(x)]
        if not thr:
            return
        outs = [(self.pc, self.env)]
        allthr = FALSE
        self.join([(x.pc, x.env) for x in thr])
        # every handler that may match runs; types are not distinguished beyond catch-all / std::exception
        h = s['h'][-1]
        fr = self.frames[-1]
        if 'v' in h:
            uid = self.uid('exc')
            self.env[uid] = t('exc')
            fr.vars[h['v']['id']] = root(uid)
        self.exits_catch = None
        self.block(h['b'])
        outs.append((self.pc, self.env))
        self.join(outs)

    # ------------------------------------------------------------------ loops
    def s_for(self, s):
        if 'init' in s:
            self.block(s['init'])
        from loops import run_loop
        run_loop(self, s, False)

    def s_do(self, s):
        from loops import run_loop
        run_loop(self, s, True)

    # ------------------------------------------------------------------ expressions
    def ty(self, e):
        return self.frames[-1].types[e['t']]

    def cond(self, e):
        v = self.rv(e)
        v = self.tobool(v)
        if self.given:
            v = tm.restrict(v, self.given)
        for r in self.resid:
            if v.op != 'ite':
                break
            if and_(r, v) is FALSE:
                return FALSE
            if and_(r, not_(v)) is FALSE:
                return TRUE
        return v

    def effect(self, e):
        if self.pc is FALSE:
            return
        if e.get('lv') and e['k'] in ('call', 'asg', 'asgop', 'un', 'var', 'mem', 'idx', 'gvar', 'cond', 'cast', 'bin'):
            self.lv(e)
        else:
            self.rv(e)

    def rv(self, e, want=None):
        """value of e (loading it when e is a glvalue)"""
        k = e['k']
        if e.get('lv') and k not in ('str',):
            p = self.lv(e)
            ty = self.ty(e)
            if ty.k == 'arr':
                return self.load(p, None)
            return self.load(p, ty if ty.k != 'rec' or want is None or self.strip(want).k != 'rec' or
                             self.strip(want).n == ty.n else self.strip(want))
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % (e.get('cls') or k))
        return m(e)

    def lv(self, e):
        """pointer to the object e designates"""
        k = e['k']
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            return m(e)
        if not e.get('lv') or k in ('str',):
            return self.temp(e)
        raise Unsupported('lvalue %s' % (e.get('cls') or k))

    def temp(self, e, ty=None):
        ty = ty or self.ty(e)
        if e['k'] in ('int', 'flt', 'str'):
            return t('const', self.rv(e))
        uid = self.uid('tmp')
        fr = self.frames[-1]
        fr.roots.append(uid)
        r = root(uid)
        if ty.k == 'rec':
            self.dyn[r] = ty.n
        self.env[uid] = self.initial(ty)
        self.init_into(r, ty, e)
        return r

    def tempv(self, v, cls=None):
        uid = self.uid('tmp')
        self.frames[-1].roots.append(uid)
        self.env[uid] = v
        r = root(uid)
        if cls:
            self.dyn[r] = cls
        return r

    def refarg(self, e, ty):
        if e.get('lv'):
            p = self.lv(e)
            return p
        return self.temp(e)

    # -- simple
    def e_int(self, e):
        v = int(e['v'])
        ty = self.ty(e)
        if ty.k == 'bool':
            return TRUE if v else FALSE
        return I(v)

    def e_flt(self, e):
        return F(float(e['v']))

    def e_str(self, e):
        return t('str', e['v'])

    def e_null(self, e):
        return NULL

    def e_fn(self, e):
        return t('fnref', e['fn'])

    l_fn = e_fn

    def e_unk(self, e):
        return unk(e.get('cls', '?'))

    def l_unk(self, e):
        return unk(e.get('cls', '?'))

    def e_this(self, e):
        return self.frames[-1].this

    def l_var(self, e):
        fr = self.frames[-1]
        p = fr.vars.get(e['id'])
        if p is None:
            return unk('var ' + e.get('name', '?'))
        return p

    def l_gvar(self, e):
        n = e['name']
        g = self.p.globals.get(n)
        if g is None and n in ('std::cout', 'std::cerr', 'std::clog'):
            return t('cout')
        if g is not None and 'init' in g and (g['const'] or g['t'].c or not self.p.written(n)):
            self.push_dummy(g)
            try:
                return t('const', self.rv(g['init'], g['t']))
            finally:
                self.frames.pop()
        return t('global', n)

    def push_dummy(self, g):
        fr = Frame()
        fr.n, fr.fn, fr.vars, fr.this, fr.types, fr.rets, fr.roots, fr.retty = 0, None, {}, None, g['types'], [], [], None
        self.frames.append(fr)

    def l_mem(self, e):
        b = self.rv(e['b']) if e['arrow'] else self.lv(e['b'])
        if self.safe and e['arrow']:
            self.access(b, ONE, 'dereference')
        p = sub(b, ('f', e['f']))
        return self.load(p) if e.get('rf') else p

    def e_mem(self, e):
        if e.get('rf'):
            return self.load(self.l_mem(e), self.ty(e))
        b = self.rv(e['b'])
        return self.typed(fld(b, e['f']), self.ty(e))

    def l_mptr(self, e):
        return t('mptr', e['f'])

    e_mptr = l_mptr

    def l_pm(self, e):
        """object.*member and object->*member"""
        b = self.rv(e['a']) if e['op'] == '->*' else self.lv(e['a'])
        m = self.rv(e['b'])
        if m.op != 'mptr':
            return self.tempv(unk('pointer to member'))
        return sub(b, ('f', m.a[0]))

    def e_pm(self, e):
        return self.load(self.l_pm(e), self.ty(e))

    def l_un(self, e):
        op = e['op']
        if op == '*':
            p = self.rv(e['e'])
            if self.safe:
                self.access(p, ONE, 'dereference')
            return p
        if op in ('++', '--'):
            p = self.lv(e['e'])
            ty = self.ty(e)
            self.store(p, self.arith('+' if op == '++' else '-', self.load(p, ty), ONE, ty))
            return p
        if op == '__extension__':
            return self.lv(e['e'])
        raise Unsupported('unary ' + op)

    def e_un(self, e):
        op = e['op']
        ty = self.ty(e)
        if op == '&':
            return self.lv(e['e'])
        if op in ('post++', 'post--'):
            p = self.lv(e['e'])
            v = self.load(p, ty)
            self.store(p, self.arith('+' if op == 'post++' else '-', v, ONE, ty))
            return v
        v = self.rv(e['e'])
        if op == '!':
            return not_(self.tobool(v))
        if op == '-':
            if ty.k == 'float':
                return tm.fneg(v)
            return self.wrapty(tm.ineg(v), ty)
        if op == '+':
            return v
        if op == '~':
            return self.wrapty(tm.bnot(v), ty)
        raise Unsupported('unary ' + op)

    def wrapty(self, v, ty):
        if ty.k != 'int':
            return v
        lo, hi = rng(v)
        if ty.s:
            return v            # signed overflow is undefined: exact arithmetic
        if ty.w == 64 and lo >= 0 and v.op != 'int' and not wrapped64(v):
            return v
        return self.wrapk(ty.w, False, v)

    def wrapk(self, w, s, v):
        """conversion to w bits; the identity where the path condition bounds the value"""
        r = tm.wrap(w, s, v)
        if r is v or v.op == 'int' or r.op == 'bits':
            return r
        lo, hi = tm.trange(w, s)
        if w == 64:
            hi = (1 << 63) - 1
        if self.knows(and_(ile(I(lo), v), ile(v, I(hi)))):
            return v
        return r

    def knows(self, c):
        """the conditions under which the current statement runs imply c"""
        if c is TRUE:
            return True
        from compare import implied, necessary, syms
        want = syms(c)
        facts = []
        for p in self.outer + [self.pc, self.assumed]:
            if p is not TRUE:
                facts += [f for f in necessary(p) if syms(f[0]) & want]
        if not facts:
            return False
        return implied(tuple(dict.fromkeys(facts)), c)

    def arith(self, op, a, b, ty):
        if ty.k == 'ptr' or (ty.k == 'rec' and 'iterator' in (ty.n or '')):
            return self.ptradd(a, b if op == '+' else tm.ineg(b))
        if ty.k == 'float':
            f = {'+': tm.fadd, '-': tm.fsub, '*': tm.fmul, '/': tm.fdiv}[op]
            return f(a, b)
        if ty.k == 'bool':
            a, b = self.toint(a), self.toint(b)
        if op == '+':
            r = iadd(a, b)
        elif op == '-':
            r = isub(a, b)
        elif op == '*':
            r = imul(a, b)
        elif op == '/':
            r = tm.idiv(a, b)
        elif op == '%':
            r = tm.imod(a, b)
        elif op == '&':
            r = tm.band(a, b)
        elif op == '|':
            r = tm.bor(a, b)
        elif op == '^':
            r = tm.bxor(a, b)
        elif op == '<<':
            r = tm.shl(a, b)
        elif op == '>>':
            r = tm.shr(a, b)
        else:
            raise Unsupported('operator ' + op)
        return self.wrapty(r, ty)

    def toint(self, v):
        if isbool(v):
            return ite(v, ONE, ZERO)
        return v

    def ptradd(self, p, k):
        def g(q, n):
            if q.op == 'sub' and q.a[1][-1][0] == 'i':
                return t('sub', q.a[0], q.a[1][:-1] + (('i', iadd(q.a[1][-1][1], n)),))
            if q.op == 'mit':
                return t('mit', q.a[0], q.a[1], iadd(q.a[2], n), q.a[3])
            if n is ZERO:
                return q
            return t('sub', q, (('i', n),)) if q.op in ('root', 'alloc', 'deref', 'fld') else t('padd', q, n)
        return lift(g, p, k)

    def ptrcmp(self, op, a, b):
        def g(p, q):
            if p is q:
                return TRUE if op in ('==', '<=', '>=') else FALSE
            if p.op == 'sub' and q.op == 'sub' and p.a[0] is q.a[0] and p.a[1][:-1] == q.a[1][:-1] and \
                    p.a[1][-1][0] == 'i' and q.a[1][-1][0] == 'i':
                return self.icmp(op, p.a[1][-1][1], q.a[1][-1][1])
            if p.op == 'mit' and q.op == 'mit' and p.a[0] is q.a[0]:
                return self.icmp(op, p.a[2], q.a[2])
            for x, y in ((p, q), (q, p)):
                if x.op == 'mfind' and y.op == 'mit' and op in ('==', '!=') and x.a[0] is y.a[0]:
                    r = not_(tm.mhas(x.a[1], x.a[2]))
                    return r if op == '==' else not_(r)
            r = self.ptreq(p, q)
            if op == '==':
                return r
            if op == '!=':
                return not_(r)
            return atom(t('pcmp', op, p, q))
        return lift(g, a, b)

    def ptreq(self, p, q):
        fresh = ('alloc', 'root', 'const')
        if (p.op in fresh or q.op in fresh or p.op == 'sub' or q.op == 'sub') and (p is NULL or q is NULL):
            return FALSE
        if p.op in fresh and q.op in fresh:
            return FALSE
        u, v = sorted((p, q), key=lambda z: z.id)
        if v is NULL:
            u, v = v, u
        if u is NULL:
            return atom(t('isnull', v))
        return atom(t('eq', u, v))

    def icmp(self, op, a, b):
        if op == '==':
            return ieq(a, b)
        if op == '!=':
            return not_(ieq(a, b))
        if op == '<':
            return ilt(a, b)
        if op == '<=':
            return ile(a, b)
        if op == '>':
            return ilt(b, a)
        if op == '>=':
            return ile(b, a)
        raise Unsupported(op)

    def compare(self, op, a, b, ty):
        if ty.k == 'float':
            w = {'==': '=', '<': '<', '>': '>', '<=': '<=', '>=': '>='}
            if op == '!=':
                return not_(tm.frel(a, b, '='))
            return tm.frel(a, b, w[op])
        if ty.k == 'bool':
            a, b = self.toint(a), self.toint(b)
            return self.icmp(op, a, b)
        if ty.k == 'int':
            return self.icmp(op, self.toint(a), self.toint(b))
        return self.ptrcmp(op, a, b)

    def e_bin(self, e):
        op = e['op']
        ty = self.ty(e)
        if op == '&&' or op == '||':
            a = self.cond(e['a'])
            box = [None]

            def rhs():
                box[0] = self.cond(e['b'])
            c = a if op == '&&' else not_(a)
            if c is FALSE:
                return a
            self.branch(c, rhs, None)
            b = box[0]
            if b is None:
                return a
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == ',':
            self.effect(e['a'])
            return self.rv(e['b'])
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        ta = self.ty(e['a'])
        tb = self.ty(e['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if ta.k == 'nullptr':
                ta = tb
            return self.compare(op, a, b, ta)
        if ta.k == 'ptr' or ta.k == 'arr':
            if op == '-' and tb.k in ('ptr', 'arr'):
                return self.ptrdiff(a, b)
            return self.ptradd(a, b if op == '+' else tm.ineg(b))
        if tb.k == 'ptr':
            return self.ptradd(b, a)
        if op in ('/', '%') and ty.k == 'int':
            self.divzero(b)
        return self.arith(op, a, b, ty)

    def divzero(self, b):
        pass

    def ptrdiff(self, a, b):
        def g(p, q):
            if p is q:
                return ZERO
            if p.op == 'sub' and q.op == 'sub' and p.a[0] is q.a[0] and p.a[1][:-1] == q.a[1][:-1]:
                return isub(p.a[1][-1][1], q.a[1][-1][1])
            return unk('ptrdiff')
        return lift(g, a, b)

    def l_bin(self, e):
        if e['op'] == ',':
            self.effect(e['a'])
            return self.lv(e['b'])
        return self.temp(e)

    def l_asg(self, e):
        # right operand first (C++17)
        ty = self.ty(e)
        if ty.k == 'rec':
            v = self.rv(e['b'], ty)
        else:
            v = self.rv(e['b'])
        p = self.lv(e['a'])
        self.store(p, v)
        return p

    def e_asg(self, e):
        return self.load(self.l_asg(e), self.ty(e))

    def l_asgop(self, e):
        fr = self.frames[-1]
        b = self.rv(e['b'])
        p = self.lv(e['a'])
        ta = self.ty(e['a'])
        ct = fr.types[e['ct']]
        a = self.load(p, ta)
        if ta.k == 'ptr':
            r = self.ptradd(a, b if e['op'] == '+' else tm.ineg(b))
        else:
            a = self.convert(a, ta, fr.types[e['clt']])
            r = self.arith(e['op'], a, b, ct)
            r = self.convert(r, ct, ta)
        self.store(p, r)
        return p

    def e_asgop(self, e):
        return self.load(self.l_asgop(e), self.ty(e))

    def convert(self, v, a, b):
        """value conversion between arithmetic types"""
        if b.k == 'bool':
            if a.k == 'bool':
                return v
            if a.k == 'float':
                return not_(tm.frel(v, F(0.0), '='))
            if a.k == 'int':
                return not_(ieq(v, ZERO))
            return not_(self.ptrcmp('==', v, NULL))
        if b.k == 'int':
            if a.k == 'bool' or isbool(v):
                return self.toint(v)
            if a.k == 'float':
                return tm.f2i(v, b.w, b.s)
            if a.k == 'int':
                lo, hi = rng(v)
                if b.w == 64 and lo >= 0 and not wrapped64(v):
                    return v
                if a.s and b.s and b.w >= a.w:
                    return v            # value preserving (overflow of signed arithmetic is undefined)
                return self.wrapk(b.w, b.s, v)
            return v
        if b.k == 'float':
            if a.k == 'bool':
                return ite(v, F(1.0), F(0.0))
            if a.k == 'int':
                if a.s and a.w <= 32:       # 1 << k leaves its type above 2^30
                    v = lift(lambda x: ite(ile(x.a[0], I(30)), x, t('shiftout', x)) if x.op == 'ipow2' else x, v)
                r = tm.i2f(v)
            else:
                r = v
            if b.w == 32 and (a.k == 'int' or a.w == 64):
                if not (a.k == 'int' and a.w <= 16):
                    r = lift(lambda x: self.f32(x), r)
            for l in leaves(r):
                tm.FLOATS.add(l)
            return r
        return v

    def f32(self, x):
        if tm.isflt(x):
            import struct
            try:
                return F(struct.unpack('f', struct.pack('f', x.a[0]))[0])
            except OverflowError:
                return F(float('inf'))
        return t('f32', x)

    def e_cond(self, e):
        c = self.cond(e['c'])
        out = {}
        ty = self.ty(e)
        self.branch(c, lambda: out.__setitem__(1, self.rv(e['a'], ty)), lambda: out.__setitem__(0, self.rv(e['b'], ty)))
        if 1 not in out:
            return out.get(0, UNDEF)
        if 0 not in out:
            return out[1]
        return self.merge(c, out[1], out[0])

    def l_cond(self, e):
        c = self.cond(e['c'])
        out = {}
        self.branch(c, lambda: out.__setitem__(1, self.lv(e['a'])), lambda: out.__setitem__(0, self.lv(e['b'])))
        if 1 not in out:
            return out.get(0, UNDEF)
        if 0 not in out:
            return out[1]
        return ite(c, out[1], out[0])

    def l_cast(self, e):
        ck = e['ck']
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            p = self.lv(e['e'])
            self.note_dyn(p, self.ty(e['e']))
            return p
        if ck in ('BaseToDerived', 'NoOp', 'LValueBitCast', 'Dynamic'):
            return self.lv(e['e'])
        if ck == 'ArrayToPointerDecay':
            return self.decay(e['e'])
        if self.ty(e).k in ('int', 'float', 'bool'):
            return self.temp(e)
        raise Unsupported('cast ' + ck)

    def note_dyn(self, p, ty):
        ty = self.strip(ty)
        if ty.k == 'ptr':
            ty = ty.t
        if ty.k == 'rec':
            for l in leaves(p):
                self.dyn.setdefault(l, ty.n)

    def decay(self, e):
        p = self.lv(e)
        self.fixed(p, self.ty(e))
        return sub(p, ('i', ZERO))

    def e_cast(self, e):
        ck = e['ck']
        if ck == 'ArrayToPointerDecay':
            return self.decay(e['e'])
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            v = self.rv(e['e'])
            self.note_dyn(v, self.ty(e['e']))
            return v
        if ck == 'Dynamic':
            v = self.rv(e['e'])
            return self.dyncast(v, self.strip(self.ty(e)).t)
        if ck == 'ToVoid':
            self.effect(e['e'])
            return UNDEF
        v = self.rv(e['e'])
        a, b = self.strip(self.ty(e['e'])), self.strip(self.ty(e))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast',
                  'FloatingToBoolean', 'BooleanToSignedIntegral'):
            return self.convert(v, a, b)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return not_(self.ptrcmp('==', v, NULL))
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'BitCast':
            return self.bitcast(v, a, b)
        if ck in ('BaseToDerived', 'NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'Dependent'):
            return v
        if ck == 'VectorSplat':
            raise Unsupported(ck)
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            return t('p2i', v)
        raise Unsupported('cast ' + ck)

    def bitcast(self, v, a, b):
        """view of an object as raw bytes (T* -> char* / void*), and back"""
        if a.k != 'ptr' or b.k != 'ptr':
            return v
        x, y = a.t, b.t
        raw = lambda z: z.k == 'void' or (z.k == 'int' and z.w == 8)
        if raw(y) and not raw(x):
            kind, size = self.bytekind(x)

            def g(q):
                if q.op in ('null', 'undef'):
                    return q
                return t('bytes', q, kind, size)
            return lift(g, v)
        if raw(y) and raw(x) and x.k != 'void' and y.k != 'void':
            # a one-byte object (not an element of a byte array)
            return lift(lambda q: t('bytes', q, 'u1' if not x.s else 'i1', 1)
                        if q.op == 'root' or (q.op == 'sub' and q.a[1][-1][0] == 'f') else q, v)
        if raw(x) and not raw(y):
            return lift(lambda q: q.a[0] if q.op == 'bytes' else q, v)
        return v

    def bytekind(self, x):
        if x.k == 'int':
            return ('i' if x.s else 'u') + str(x.w // 8), x.w // 8
        if x.k == 'float':
            return 'f' + str(x.w // 8), x.w // 8
        if x.k == 'bool':
            return 'bool', 1
        if x.k == 'arr':
            k, n = self.bytekind(x.t)
            return 'arr:%s:%d' % (k, n), n * x.n
        if x.k == 'rec':
            return 'rec:' + (x.n or '?'), x.sz or 0
        return x.k, 8

    def dyncast(self, v, ty):
        def g(p):
            if p is NULL:
                return NULL
            d = self.dyn.get(p)
            if p.op == 'alloc' and d is not None:
                return p if self.p.derives(d, ty.n) or d == ty.n else NULL
            c = atom(t('isa', ty.n, p))
            return ite(c, p, NULL)
        return lift(g, v)

    def l_idx(self, e):
        b = self.rv(e['b'])
        i = self.rv(e['i'])
        if self.ty(e['i']).k == 'ptr':
            b, i = i, b
        p = self.ptradd(b, i)
        if self.safe:
            self.access(p, ONE, 'array index')
        return p

    def e_zero(self, e):
        return self.zero(self.ty(e))

    def zero(self, ty):
        if ty.k == 'int':
            return ZERO
        if ty.k == 'float':
            return F(0.0)
        if ty.k == 'bool':
            return FALSE
        if ty.k in ('ptr', 'nullptr'):
            return NULL
        if ty.k == 'arr':
            return tm.vrep(I(ty.n), self.zero(ty.t))
        if ty.k == 'rec':
            import stl
            v = stl.default_value(self, ty)
            if v is not None:
                return v
            fs = self.p.allfields(ty.n)
            if fs is not None:
                return rec(ty.n, [(f, self.zero(ft)) for f, ft in fs])
        return UNDEF

    def default_of(self, ty):
        """default-initialised value of a type (class types: their default constructor)"""
        if ty.k == 'rec':
            import stl
            v = stl.default_value(self, ty)
            if v is not None:
                return v
            uid = self.uid('tmp')
            r = root(uid)
            self.env[uid] = UNDEF
            self.dyn[r] = ty.n
            c = self.pick_ctor(ty.n, [])
            if c is None:
                self.default_fields(r, ty.n)
            else:
                self.run_ctor(r, ty, c, [])
            v = self.env.pop(uid)
            return v
        return UNDEF

    def value_init(self, ty):
        if ty.k == 'rec':
            import stl
            v = stl.default_value(self, ty)
            if v is not None:
                return v
            z = self.zero(ty) if not self.has_user_ctor(ty.n) else None
            d = self.default_of(ty)
            if z is not None and z.op == 'rec' and d.op == 'rec':
                return rec(ty.n, [(f, v if v is not UNDEF else fld(z, f)) for f, v in d.a[1]])
            return d
        return self.zero(ty)

    def has_user_ctor(self, n):
        r = self.p.recs.get(n)
        return r is None or any(self.p.decls[m].ctor and self.p.decls[m].default and not self.p.decls[m].defaulted
                                for m in r['methods'] if m in self.p.decls)

    def e_ilist(self, e):
        ty = self.ty(e)
        if ty.k in ('arr',) or (ty.k == 'rec' and ty.n in ('std::array', 'std::initializer_list')):
            et = ty.t if ty.k == 'arr' else ty.a[0]
            es = e['e']
            if ty.k == 'rec' and ty.n == 'std::array' and len(es) == 1 and (es[0]['k'] in ('ilist', 'str') or self.ty(es[0]).k == 'arr'):
                return self.rv(dict(es[0]))
            n = ty.n if ty.k == 'arr' else None
            if len(es) == 1 and es[0]['k'] == 'str' and et.ch:
                s = es[0]['v']
                return t('vlit', tuple([I(ord(c)) for c in s] + [ZERO] * ((n or len(s)) - len(s))))
            vs = [self.rv(x, et) for x in es]
            if isinstance(n, int) and n > len(vs):
                fill = self.rv(e['fill'], et) if e.get('fill') else self.zero(et)
                if n - len(vs) > 64 and not vs:
                    return tm.vrep(I(n), fill)
                vs += [fill] * (n - len(vs))
            return t('vlit', tuple(vs))
        if ty.k == 'rec':
            r = self.p.recs.get(ty.n)
            if r is None:
                if not e['e']:
                    return self.zero(ty)
                if len(e['e']) == 1:
                    return self.rv(e['e'][0], ty)
                return unk('ilist ' + str(ty))
            fs = []
            es = list(e['e'])
            for b in r['bases']:
                v = self.rv(es.pop(0), b) if es else self.zero(b)
                fs += list(v.a[1]) if v.op == 'rec' else []
            for f in r['fields']:
                if es:
                    x = es.pop(0)
                    fs.append((f['n'], self.rv(x, f['t'])))
                elif 'init' in f:
                    self.push_dummy(r)
                    fs.append((f['n'], self.rv(f['init'], f['t'])))
                    self.frames.pop()
                else:
                    fs.append((f['n'], self.zero(f['t'])))
            return rec(ty.n, fs)
        if not e['e']:
            return self.zero(ty)
        return self.rv(e['e'][0], ty)

    def e_arrcopy(self, e):
        return self.load(self.lv(e['e']))

    def e_new(self, e):
        fr = self.frames[-1]
        ty = fr.types[e['nt']]
        if e.get('arr'):
            n = self.rv(e['n'])
            x = self.zero(ty) if e.get('e') is not None else UNDEF
            return sub(self.alloc(tm.vrep(n, x), None), ('i', ZERO))
        p = self.alloc(UNDEF, ty.n if ty.k == 'rec' else None)
        if e.get('e') is not None:
            self.init_into(p, ty, e['e'])
        return p

    def alloc(self, v, cls):
        p = t('alloc', self.uid('a'), (), UNDEF)
        if cls:
            self.dyn[p] = cls
        self.setroot(p, v)
        return p

    def e_delete(self, e):
        p = self.rv(e['e'])
        self.calls_ext['delete'] = self.calls_ext.get('delete', 0) + 1
        for q in leaves(p):
            if q.op in ('sub', 'fld', 'var', 'alloc', 'box', 'hsel', 'deref') or q.op not in ('null', 'int', 'undef'):
                c = self.dyn.get(q)
                if c is not None:
                    self.destroy(q, c)
                if self.pc is FALSE:
                    return UNDEF
                if p is q:
                    self.store(q, t('freed'))
                else:
                    self.store(q, self.merge(tm.atom(t('b', t('is', p, q))), t('freed'), self.load(q)))
        return UNDEF

    def e_throw(self, e):
        self.throw(TRUE, 'throw', e.get('l'))
        return UNDEF

    def e_lambda(self, e):
        fr = self.frames[-1]
        caps = []
        for c in e['caps']:
            if c.get('this'):
                caps.append(('this', fr.this if not c.get('copy') else self.tempv(self.load(fr.this))))
            elif c.get('init') is not None:
                if c['byref']:
                    caps.append((c['id'], self.lv(c['init'])))
                else:
                    caps.append((c['id'], t('const', self.rv(c['init']))))
            elif c['byref']:
                caps.append((c['id'], fr.vars[c['id']]))
            else:
                caps.append((c['id'], t('const', self.load(fr.vars[c['id']]))))
        outer = tuple(caps)
        return t('closure', e.get('fn', '?'), outer)

    # ------------------------------------------------------------------ calls
    def args(self, d, es):
        """evaluate arguments: pointers for reference parameters, values otherwise"""
        out = []
        ps = d.ps
        for i, x in enumerate(es):
            pt = ps[i] if i < len(ps) else None
            if pt is not None and pt.k == 'ref':
                out.append(self.refarg(x, pt))
            elif pt is None:
                out.append(self.rv(x))
            else:
                out.append(self.rv(x, pt))
        return out

    def e_call(self, e):
        r = self.call_expr(e)
        d = self.p.decls.get(e.get('fn')) if isinstance(e.get('fn'), str) else None
        ty = self.ty(e)
        if d is not None and d.ret is not None and d.ret.k == 'ref':
            return self.load(r, self.strip(d.ret))
        if ty.k in ('int', 'bool', 'float', 'rec') and r is not None:
            return self.typed(r, ty)
        return r if r is not None else UNDEF

    def l_call(self, e):
        d = self.p.decls.get(e.get('fn')) if isinstance(e.get('fn'), str) else None
        if d is not None and d.ret is not None and d.ret.k == 'ref':
            r = self.call_expr(e)
            return r if r is not None else UNDEF
        if 'callee' in e:
            return self.call_expr(e)
        return self.tempv(self.e_call(e), self.ty(e).n if self.ty(e).k == 'rec' else None)

    def call_expr(self, e):
        if self.pc is FALSE:
            return UNDEF
        self.loc(e['l'])
        if 'fn' not in e or not isinstance(e['fn'], str):
            f = self.rv(e['callee'])
            es = e['args']
            if f.op == 'fnref':
                d = self.p.decls[f.a[0]]
                return self.invoke(d, None, self.args(d, es), es)
            if f.op == 'closure':
                return self.call_value(f, [self.lv(x) for x in es])
            return unk('indirect call')
        d = self.p.decls[e['fn']]
        obj = None
        if e.get('obj') is not None:
            o = e['obj']
            if e.get('oper') or not e.get('arrow'):
                obj = self.lv(o)
                self.note_dyn(obj, self.ty(o))
            else:
                obj = self.rv(o)
                self.note_dyn(obj, self.ty(o))
                if self.safe:
                    self.access(obj, ONE, 'call through a pointer')
            if self.pc is FALSE:
                return UNDEF
        import stl
        h = stl.lookup(self, d)
        if h is not None:
            a = self.args(d, e['args'])
            if self.pc is FALSE:
                return UNDEF
            return h(self, d, obj, a, e)
        if d.copyassign and (d.defaulted or d.id not in self.p.funcs) and obj is not None and d.rec in self.p.recs:
            src = self.args(d, e['args'])[0]
            cls = d.rect
            v = self.load(src, cls)
            self.store(obj, v) if self.dyn.get(obj) == cls.n or obj.op != 'root' else self.store(obj, v)
            return obj
        a = self.args(d, e['args'])
        if self.pc is FALSE:
            return UNDEF
        if e.get('virt'):
            d = self.dispatch(d, obj)
        if obj is not None and d.name.endswith('operator()'):
            f = self.load(obj)
            if f.op == 'closure':
                return self.invoke(self.p.decls[f.a[0]], None, a, e['args'], caps=f.a[1])
        return self.invoke(d, obj, a, e['args'])

    def dispatch(self, d, obj):
        cls = None
        for l in leaves(obj):
            c = self.dyn.get(l)
            if c is None or (cls is not None and c != cls):
                return d
            cls = c
        if cls is None or not self.p.derives(cls, d.rec):
            return d
        short = d.name.split('::')[-1]
        return self.find_method(cls, short, d) or d

    def find_method(self, cls, short, d):
        r = self.p.recs.get(cls)
        if r is None:
            return None
        for m in r['methods']:
            x = self.p.decls[m]
            if x.name.split('::')[-1] == short and len(x.ps) == len(d.ps) and (x.virtual or x.id == d.id or x.ov):
                if all(a.str == b.str for a, b in zip(x.ps, d.ps)):
                    return x
        for b in r['bases']:
            x = self.find_method(b.n, short, d)
            if x is not None:
                return x
        return None

    def call_value(self, f, ptrs, vals=None):
        """call a closure / function reference with arguments given by pointers"""
        def one(g):
            if g.op == 'closure':
                fid = g.a[0]
                d = self.p.decls.get(fid)
                fn = self.p.funcs.get(fid)
                if fn is None:
                    return unk('lambda body')
                a = []
                for p, pt in zip(ptrs, d.ps):
                    a.append(p if pt.k == 'ref' else self.load(p, pt))
                r = self.invoke(d, None, a, None, caps=g.a[1])
                if d.ret is not None and d.ret.k == 'ref':
                    return self.load(r, self.strip(d.ret))
                return r if r is not None else UNDEF
            if g.op == 'fnref':
                d = self.p.decls[g.a[0]]
                a = [p if pt.k == 'ref' else self.load(p, pt) for p, pt in zip(ptrs, d.ps)]
                return self.invoke(d, None, a, None)
            if g.op == 'functor':
                v = [self.load(p) for p in ptrs]
                return functor(self, g, v)
            return unk('call of ' + g.op)
        if f.op == 'ite':
            raise Unsupported('gated callee')
        return one(f)

    def invoke(self, d, this, a, es, caps=None):
        n = d.name
        fn = self.p.funcs.get(d.id)
        if n in self.opaque or n in self.pure or fn is None or self.depth > 60:
            return self.extcall(d, this, a, recursive=fn is not None)
        deep = self.stack.count(d.id)
        if deep == 0:
            # a recursion which ends on its own is followed; any other is summarised by its arguments
            env, exits, pc = dict(self.env), list(self.exits), self.pc
            try:
                return self.inline(d, fn, this, a, caps)
            except Endless as x:
                if x.id != d.id:
                    raise
            self.env, self.exits, self.pc = env, exits, pc
            self.norec.add(d.id)
            try:
                return self.inline(d, fn, this, a, caps)
            finally:
                self.norec.discard(d.id)
        if d.id in self.norec:
            return self.extcall(d, this, a, recursive=True)
        if deep > MAXREC:
            raise Endless(d.id)
        return self.inline(d, fn, this, a, caps)

    def inline(self, d, fn, this, a, caps=None, ctor_loc=None):
        self.used[fn.id] = fn
        fr = Frame()
        self.nuid += 1
        fr.n, fr.fn, fr.types, fr.this, fr.vars, fr.roots, fr.rets = self.nuid, fn, fn.types, this, {}, [], []
        fr.retty = d.ret
        if caps:
            for c, v in caps:
                if c == 'this':
                    fr.this = v
                else:
                    fr.vars[c] = v
        for i, p in enumerate(fn.ps):
            ty = fn.types[p['t']]
            v = a[i] if i < len(a) else UNDEF
            if ty.k == 'ref':
                fr.vars[p['id']] = v
            else:
                uid = 'v%d.%d' % (fr.n, p['id'])
                fr.roots.append(uid)
                self.env[uid] = v
                fr.vars[p['id']] = root(uid)
                if ty.k == 'rec':
                    self.dyn[root(uid)] = ty.n
        self.frames.append(fr)
        self.stack.append(fn.id)
        self.depth += 1
        cur = tm.CUR[0]
        pc0, ex0 = self.pc, self.exits
        self.outer.append(pc0)
        self.pc, self.exits = TRUE, []
        try:
            if fn.inits is not None and this is not None:
                self.run_inits(fn, this, d)
            if self.pc is not FALSE:
                self.block(fn.body)
            rets = [x for x in self.exits if x.kind == 'ret']
            thr = [x for x in self.exits if x.kind == 'throw']
            for x in self.exits:
                if x.kind not in ('ret', 'throw'):
                    raise Unsupported('stray ' + x.kind)
            if self.pc is not FALSE:
                rets.append(Exit('ret', self.pc, self.env, None))
        finally:
            self.frames.pop()
            self.stack.pop()
            self.outer.pop()
            self.depth -= 1
            tm.CUR[0] = cur
        self.exits = ex0
        for x in thr:
            c = and_(pc0, x.pc)
            if c is not FALSE:
                self.exits.append(Exit('throw', c, x.env, x.val, x.line))
        val = None
        if not rets:
            self.pc = FALSE
            return UNDEF
        last = rets[-1]
        env, val, pc = last.env, last.val, last.pc
        for x in reversed(rets[:-1]):
            env = self.merge_env(x.pc, x.env, env)
            if x.val is not None:
                val = x.val if val is None else self.merge(x.pc, x.val, val)
            pc = or_(pc, x.pc)
        env = dict(env)
        for r in fr.roots:
            env.pop(r, None)
        self.env = env
        self.pc = and_(pc0, pc)
        return val

    # -- constructors
    def e_ctor(self, e):
        ty = self.ty(e)
        import stl
        d = self.p.decls[e['fn']]
        h = stl.ctor(self, ty, d, e)
        if h is not None:
            return h
        uid = self.uid('tmp')
        r = root(uid)
        self.dyn[r] = ty.n
        self.env[uid] = UNDEF
        self.construct(r, ty, e)
        return self.env.pop(uid, UNDEF)

    def e_inhctor(self, e):
        return UNDEF

    def construct(self, p, ty, e):
        d = self.p.decls[e['fn']]
        import stl
        v = stl.ctor(self, ty, d, e)
        if v is not None:
            self.store(p, v)
            return
        if (d.copy or d.move) and d.id not in self.p.funcs or (d.copy or d.move) and d.defaulted:
            src = self.refarg(e['args'][0], d.ps[0])
            self.store(p, self.copyval(src, ty))
            return
        a = self.args(d, e['args'])
        if self.pc is FALSE:
            return
        if e.get('zero'):
            self.store(p, self.zero(ty))
        self.run_ctor(p, ty, d, a)

    def copyval(self, src, ty):
        """memberwise copy; members with user-written copy constructors run them"""
        if not self.deep_udcopy(ty.n):
            return self.load(src, ty)
        fs = []
        r = self.p.recs[ty.n]
        for b in r['bases']:
            fs += list(self.copy_any(src, b).a[1])
        for f in r['fields']:
            fs.append((f['n'], self.copy_any(sub(src, ('f', f['n'])), f['t'])))
        return rec(ty.n, fs)

    def copy_any(self, src, ty):
        if ty.k != 'rec' or ty.n not in self.p.recs or not self.deep_udcopy(ty.n):
            return self.load(src, ty)
        for m in self.p.recs[ty.n]['methods']:
            d = self.p.decls[m]
            if d.ctor and d.copy and not d.defaulted and m in self.p.funcs:
                uid = self.uid('tmp')
                self.env[uid] = UNDEF
                self.run_ctor(root(uid), ty, d, [src])
                return self.env.pop(uid)
        return self.copyval(src, ty)

    def deep_udcopy(self, n, seen=()):
        r = self.p.recs.get(n)
        if r is None or n in seen:
            return False
        if r.get('udcopy') and r.get('repo'):
            return True
        return any(self.deep_udcopy(b.n, seen + (n,)) for b in r['bases']) or \
            any(f['t'].k == 'rec' and self.deep_udcopy(f['t'].n, seen + (n,)) for f in r['fields'])

    def run_ctor(self, p, ty, d, a):
        import stl
        h = stl.LZCTOR.get(d.rec)
        if h is not None:
            h(self, p, d, a)
            return
        fn = self.p.funcs.get(d.id)
        if d.name in self.opaque or fn is None or d.id in self.stack:
            if fn is None and (d.defaulted or d.default) and d.rec in self.p.recs and not a and \
                    (self.p.recs[d.rec].get('repo') or self.expandable(d.rec) or d.defaulted or
                     d.rec.startswith('lazperf')):
                self.default_fields(p, ty.n)
                return
            av = [self.load(x) if pt.k == 'ref' else x for x, pt in zip(a, d.ps)]
            self.store(p, t('ext', d.name, tuple(av)))
            self.calls_ext[d.name] = self.calls_ext.get(d.name, 0) + 1
            return
        self.inline(d, fn, p, a)

    def default_fields(self, p, cls):
        r = self.p.recs.get(cls)
        if r is None:
            return
        cur = self.load(p)
        fs = []
        for b in r['bases']:
            v = self.default_of(b)
            fs += list(v.a[1]) if v.op == 'rec' else []
        for f in r['fields']:
            if 'init' in f:
                self.push_dummy(r)
                if f['init']['k'] == 'this':
                    v = UNDEF
                else:
                    v = self.rv(f['init'], f['t'])
                self.frames.pop()
            elif f['t'].k == 'rec':
                v = self.default_of(f['t'])
            else:
                v = fld(cur, f['n']) if cur.op == 'rec' else UNDEF
                if f['t'].k == 'arr':
                    v = self.initial(f['t'])
            fs.append((f['n'], v))
        self.store(p, rec(cls, fs))

    def run_inits(self, fn, this, d):
        cls = d.rec
        r = self.p.recs.get(cls)
        deleg = any(i.get('deleg') for i in fn.inits)
        if not deleg and r is not None:
            cur = self.load(this)
            dynn = cls
            if cur.op != 'rec':
                # start from an object whose fields are indeterminate
                fs = [(f, self.initial(ft)) for f, ft in self.p.allfields(cls)]
                self.store(this, rec(self.dyn.get(this) or cls, fs) if self.dyn.get(this) == cls or True else cur)
        for i in fn.inits:
            if self.pc is FALSE:
                return
            e = i['e']
            if i.get('deleg'):
                self.construct_base(this, d.rect, e)
            elif 'base' in i:
                self.construct_base(this, fn.types[i['base']], e)
            else:
                ft = None
                for f, x in self.p.allfields(cls) or ():
                    if f == i['f']:
                        ft = x
                loc = sub(this, ('f', i['f']))
                if ft is not None and ft.k == 'ref':
                    self.store(loc, self.refarg(e, ft))
                elif ft is not None:
                    self.init_into(loc, ft, e)
                else:
                    self.store(loc, self.rv(e))

    def construct_base(self, this, ty, e):
        if e['k'] == 'inhctor':
            # inherited constructor: forward this function's parameters
            fr = self.frames[-1]
            d = self.p.decls[e['fn']]
            a = []
            for p, pt in zip(fr.fn.ps, d.ps):
                v = fr.vars[p['id']]
                a.append(v if pt.k == 'ref' else self.load(v, pt))
            self.run_ctor_base(this, ty, d, a)
            return
        if e['k'] != 'ctor':
            v = self.rv(e, ty)
            self.put_fields(this, v)
            return
        d = self.p.decls[e['fn']]
        if ty.n not in self.p.recs:
            import stl
            v = stl.ctor(self, ty, d, e)
            return
        if (d.copy or d.move) and (d.defaulted or d.id not in self.p.funcs):
            src = self.refarg(e['args'][0], d.ps[0])
            self.put_fields(this, self.copyval(src, ty))
            return
        a = self.args(d, e['args'])
        if self.pc is FALSE:
            return
        self.run_ctor_base(this, ty, d, a)

    def run_ctor_base(self, this, ty, d, a):
        fn = self.p.funcs.get(d.id)
        if fn is None:
            uid = self.uid('tmp')
            self.env[uid] = UNDEF
            self.run_ctor(root(uid), ty, d, a)
            self.put_fields(this, self.env.pop(uid))
            return
        self.inline(d, fn, this, a)

    def put_fields(self, this, v):
        if v.op == 'rec':
            for f, x in v.a[1]:
                self.store(sub(this, ('f', f)), x)

    def pick_ctor(self, cls, argts):
        """constructor overload for argument types (used for make_shared / emplace)"""
        r = self.p.recs.get(cls)
        if r is None:
            return None
        best, bs = None, None
        for m in r['methods']:
            d = self.p.decls[m]
            if not d.ctor or d.deleted:
                continue
            ps = d.ps
            if len(argts) > len(ps):
                continue
            if len(argts) < len(ps):
                fn = self.p.funcs.get(m)
                nd = (d.ndef or 0)
                if len(argts) < len(ps) - nd:
                    continue
            sc = 0
            for a, pt in zip(argts, ps):
                s = self.conv_score(a, pt)
                if s is None:
                    sc = None
                    break
                sc += s
            if sc is None:
                continue
            if bs is None or sc < bs:
                best, bs = d, sc
        return best

    def conv_score(self, a, b):
        a, b2 = self.strip(a), self.strip(b)
        if a is None:
            return 1
        if a.k == 'arr':
            if b2.k == 'rec' and b2.n == 'std::basic_string':
                return 2
            return 0 if b2.k == 'ptr' else None
        if a.k in ('int', 'float', 'bool') and b2.k in ('int', 'float', 'bool'):
            if a.k == b2.k and a.w == b2.w and a.s == b2.s:
                return 0
            if b.k == 'ref' and not b.t.c and not b.rv:
                return None
            return 1 if a.k == b2.k else 2
        if a.k == 'rec' and b2.k == 'rec':
            if a.n == b2.n:
                if [x if isinstance(x, dict) else x.str.replace('const ', '') for x in a.a] != \
                   [x if isinstance(x, dict) else x.str.replace('const ', '') for x in b2.a]:
                    return None if a.n not in ('std::shared_ptr',) else 3
                return 0
            if self.p.derives(a.n, b2.n):
                return 1
            if b2.n in ('std::function', 'std::optional'):
                return 3
            return None
        if a.k == 'ptr' and b2.k == 'ptr':
            return 0
        if a.k == 'nullptr' and (b2.k == 'ptr' or (b2.k == 'rec' and b2.n == 'std::shared_ptr')):
            return 1
        if a.k == 'ptr' and b2.k == 'rec' and b2.n == 'std::basic_string':
            return 2
        if b2.k == 'rec' and b2.n in ('std::optional',) and b2.a:
            s = self.conv_score(a, b2.a[0])
            return None if s is None else s + 2
        return None

    def make(self, ty, ptrs, argts):
        """value of a new object of type ty from argument pointers"""
        import stl
        if ty.k != 'rec':
            if not ptrs:
                return self.zero(ty)
            at = self.strip(argts[0])
            v = self.load(ptrs[0], at)
            return self.convert(v, at, ty) if at.k in ('int', 'float', 'bool') else v
        if ty.n not in self.p.recs:
            v = stl.make_std(self, ty, ptrs, argts)
            if v is not None:
                return v
            return unk('make ' + str(ty))
        if len(ptrs) == 1 and self.strip(argts[0]).n is not None and self.p.derives(self.strip(argts[0]).n, ty.n):
            return self.copy_any(ptrs[0], ty)
        d = self.pick_ctor(ty.n, argts)
        if d is None:
            if not ptrs:
                return self.value_init(ty)
            return unk('constructor of ' + ty.n)
        uid = self.uid('tmp')
        r = root(uid)
        self.env[uid] = UNDEF
        self.dyn[r] = ty.n
        a = []
        for i, pt in enumerate(d.ps):
            if i >= len(ptrs):
                a.append(self.default_arg(d, i))
                continue
            at = self.strip(argts[i])
            b2 = self.strip(pt)
            same = at is not None and (at.k != b2.k or (at.k in ('int', 'float') and (at.w != b2.w or at.s != b2.s or at.k != b2.k)))
            if pt.k == 'ref' and not same:
                a.append(ptrs[i])
                continue
            v = self.load(ptrs[i], b2 if at is None or at.k == 'rec' and at.n == b2.n else at)
            if at is not None and at.k in ('int', 'float', 'bool') and b2.k in ('int', 'float', 'bool'):
                v = self.convert(v, at, b2)
            elif b2.k == 'rec' and b2.n == 'std::optional' and not (at.k == 'rec' and at.n == 'std::optional'):
                v = rec('std::optional', (('has', TRUE), ('val', v)))
            elif at is not None and at.k == 'rec' and b2.k == 'rec' and at.n != b2.n:
                v = self.load(ptrs[i], b2)
            a.append(self.tempv(v) if pt.k == 'ref' else v)
        if (d.copy or d.move) and (d.defaulted or d.id not in self.p.funcs):
            self.env[uid] = self.copyval(a[0], ty)
        else:
            if not ptrs and not self.has_user_ctor(ty.n):
                self.env[uid] = self.zero(ty)
            self.run_ctor(r, ty, d, a)
        return self.env.pop(uid, UNDEF)

    def default_arg(self, d, i):
        pd = (d.defs or {}).get(str(i)) if d.defs else None
        if pd is None:
            return UNDEF
        pt = d.ps[i]
        fr = Frame()
        fr.n, fr.fn, fr.vars, fr.this, fr.types, fr.rets, fr.roots, fr.retty = 0, None, {}, None, d.types, [], [], None
        self.frames.append(fr)
        try:
            return self.refarg(pd, pt) if pt.k == 'ref' else self.rv(pd, pt)
        finally:
            self.frames.pop()

    # -- uninterpreted functions
    def extcall(self, d, this, a, recursive=False):
        n = d.name
        self.calls_ext[n] = self.calls_ext.get(n, 0) + 1
        vals = []
        muts = []
        streams = []
        for x, pt in zip(a, d.ps):
            if pt.k == 'ref':
                tt = pt.t
                if tt.k == 'rec' and tt.n in STREAMS:
                    streams.append(x)
                    continue
                vals.append(self.reify(self.load(x, tt)))
                if not tt.c and not pt.rv:
                    muts.append(x)
            elif pt.k == 'ptr':
                vals.append(self.snap_ptr(x, pt))
                if not pt.t.c and pt.t.k != 'rec':
                    muts.append(x)
            else:
                vals.append(self.reify(x))
        short = n
        st = None
        if this is not None and not d.static:
            st = self.reify(self.load(this, d.rect if d.rec in self.p.recs else None))
        base = (short, st if st is not None else UNDEF, tuple(vals))
        ret = d.ret
        if n in self.pure:
            r = t('call', *base)
            return self.ret_of(r, ret)
        ext = not recursive
        if this is not None and not d.const and not d.static:
            self.store(this, self.post(t('post', 'this', *base), d.rect))
        for i, m in enumerate(muts):
            if m.op != 'const':
                pt = [q for q in d.ps if q.k in ('ref', 'ptr')]
                self.store(m, t('post', 'arg%d' % i, *base))
        for x in streams:
            import stl
            stl.ext_stream(self, x, base)
        r = t('call', *base)
        return self.ret_of(r, ret)

    def post(self, x, ty):
        return x

    def snap_ptr(self, x, pt):
        v = self.load(x)
        if v.op == 'undef':
            return x
        if x.op == 'sub' and x.a[1][-1][0] == 'i':
            arr = self.load(t('sub', x.a[0], x.a[1][:-1]) if len(x.a[1]) > 1 else x.a[0])
            i = x.a[1][-1][1]
            return self.reify(arr if i is ZERO else t('drop', arr, i))
        return self.reify(v)

    def ret_of(self, r, ty):
        if ty is None or ty.k == 'void':
            return UNDEF
        if ty.k == 'ref':
            return r
        return self.typed(r, ty)

    # ------------------------------------------------------------------ reification of fresh pointers
    def reify(self, v, H=None, depth=0):
        """replace pointers to objects created by the analysed code by boxes holding their contents"""
        H = H or self.env['#H']
        memo = {}
        busy = set()

        def go(z):
            r = memo.get(z)
            if r is not None:
                return r
            if not z.a:
                return z
            if z.op == 'alloc':
                if z in busy:
                    return t('cycle')
                busy.add(z)
                r = t('box', go(hsel(H, z)))
                busy.discard(z)
                memo[z] = r
                return r
            if z.op == 'root':
                c = self.env.get(z.a[0])
                if c is None or z in busy:
                    return z
                busy.add(z)
                r = t('box', go(c))
                busy.discard(z)
                memo[z] = r
                return r
            na = gt(z.a)
            r = z if na == z.a else tm.rebuild(z.op, na, z)
            memo[z] = r
            return r

        def gt(a):
            return tuple(go(c) if isinstance(c, T) else gt(c) if isinstance(c, tuple) else c for c in a)
        return go(v)


def is_oob(x):
    return isinstance(x.val, T) and x.val.op == 'oob'


def elements_of(q):
    return q.a[0].op == 'sub' and q.a[0].a[1][-1][0] == 'i'


def isbool(v):
    while v.op == 'ite':
        v = v.a[1]
    return v is TRUE or v is FALSE


def functor(self, g, v):
    n = g.a[0]
    if n == 'std::plus':
        return iadd(*v)
    return unk('functor ' + n)


STREAMS = {'std::basic_ostream', 'std::basic_istream', 'std::basic_iostream', 'std::basic_fstream', 'std::basic_ofstream',
           'std::basic_ifstream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream',
           'std::basic_ios', 'std::ios_base'}
EXT_EXPAND = {'lazperf::chunk', 'lazperf::vector3', 'lazperf::copc_info_vlr', 'lazperf::vlr_header', 'lazperf::evlr_header',
              'lazperf::eb_vlr', 'lazperf::wkt_vlr'}


def _stream_of(self, x):
    rp, wp = fld(x, 'rpos'), fld(x, 'wpos')
    tm.note_range(rp, 0, 1 << 62)
    tm.note_range(wp, 0, 1 << 62)
    en = t('endauto')
    tm.note_range(en, 0, 1 << 62)
    return rec(STREAM, (('src', fld(x, 'src')), ('rpos', rp), ('log', fld(x, 'log')), ('wpos', wp), ('own', FALSE),
                        ('cur', wp), ('end', en), ('name', UNDEF)))


Interp.stream_of = _stream_of
