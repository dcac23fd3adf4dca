"""Python bindings: the module function is interpreted with a stand-in for pybind11 whose every registration ends in
pybound_register(class, name, kind, callable, extras...).  Laws then call what is registered under a name with
pybound<R>(class, name, kind, arguments...)."""
import stl
import summ
import terms as tm
from terms import t, I as N, TRUE, FALSE, UNDEF, and_, not_, or_, ile
from engine import unk, rec, rng


class Entry:
    """one registration: callable, names and defaults of the parameters"""
    __slots__ = ('cls', 'name', 'kind', 'f', 'names', 'defaults', 'line')


def text(I, p):
    v = p
    if v.op == 'sub' and v.a[0].op == 'const':
        v = v.a[0].a[0]
    elif v.op not in ('str',):
        v = I.load(v)
    if v.op == 'sub' and v.a[0].op == 'const':
        v = v.a[0].a[0]
    return v.a[0] if v.op == 'str' else None


def registry(P):
    """(class, name, kind) -> registrations in order"""
    if getattr(P, 'pybound', None) is not None:
        return P.pybound
    reg = {}
    P.pybound = reg
    P.pyclasses = {}

    def m(I, d, o, a, e):
        x = Entry()
        x.cls, x.name, x.kind = [text(I, p) for p in a[:3]]
        x.f = I.load(a[3])
        x.names, x.defaults = [], []
        for p, ty in zip(a[4:], d.ps[4:]):
            n = I.strip(ty).n
            if n in ('pybind11::arg', 'pybind11::arg_v'):
                x.names.append(text(I, I.load(stl.sub(p, ('f', 'pybind11::%s::name' % n.split('::')[1])))))
                if n.endswith('_v'):
                    ty = I.strip(I.strip(ty).a[0])
                    v = I.load(stl.sub(p, ('f', 'pybind11::arg_v::value')))
                    x.defaults.append((v if ty.k == 'ptr' else I.reify(v), ty))
                else:
                    x.defaults.append(None)
        x.line = tm.CUR[0]
        reg.setdefault((x.cls, x.name, x.kind), []).append(x)
        return None
    stl.H['pybind11::pybound_register'] = m
    s = summ.summarise(P, P.find('pybound_module')[0])
    if s.exc is not FALSE:
        reg.clear()
    return reg


def ident(ty):
    return ty.str.replace('const ', '').strip()


class NoMatch(Exception):
    pass


def signature(I, x):
    """declaration and the types of all parameters, `this` included"""
    d = I.p.decls.get(x.f.a[0]) if x.f.op in ('fnref', 'closure') else None
    if d is None:
        return None, None
    ps = [I.strip(p) for p in d.ps]
    if x.f.op == 'fnref' and d.rec and not d.static and d.rect is not None:
        ps = [d.rect] + ps
    return d, ps


def convert(I, v, a, p):
    """(condition under which the value is refused, converted value)"""
    if a.k == 'bool' and p.k == 'bool' or ident(a) == ident(p):
        return FALSE, v
    if a.k in ('int', 'bool') and p.k == 'int':
        if a.k == 'bool':
            v = tm.ite(v, N(1), N(0))
        if a.enum or p.enum:
            raise NoMatch
        lo, hi = tm.trange(p.w, p.s)
        r = rng(v)
        if lo <= r[0] and r[1] <= hi:
            return FALSE, v
        return not_(and_(ile(N(lo), v), ile(v, N(hi)))), tm.wrap(p.w, p.s, v)
    if a.k in ('int', 'float') and p.k == 'float':
        return FALSE, I.convert(v, a, p)
    if a.k == 'ptr' and p.k == 'rec' and p.n == 'std::basic_string' and text(I, v) is not None:
        return FALSE, t('str', text(I, v))
    if p.k == 'rec' and p.n == 'std::optional':
        if a.k == 'rec' and a.n == 'pybind11::none':
            return FALSE, rec('std::optional', (('has', FALSE), ('val', UNDEF)))
        bad, w = convert(I, v, a, p.a[0])
        return bad, rec('std::optional', (('has', TRUE), ('val', w)))
    if a.k == 'rec' and p.k == 'rec' and I.p.derives(a.n, p.n):
        return FALSE, None
    raise NoMatch


def m_accepts(I, d, o, a, e):
    return m_pybound(I, d, o, a, e, False)


def m_pybound(I, d, o, a, e, perform=True):
    key = tuple(text(I, p) for p in a[:3])
    cands = registry(I.p).get(key, [])
    given = [I.strip(p) for p in d.ps[3:]]
    fits = []
    for x in cands:
        fd, ps = signature(I, x)
        if fd is None:
            return unk('what is bound to %s.%s' % key[:2])
        if len(ps) < len(given):
            continue
        dn = len(ps) - len(x.defaults)
        if any(i < dn or x.defaults[i - dn] is None for i in range(len(given), len(ps))):
            continue
        fits.append((sum(ident(p) != ident(q) for p, q in zip(ps, given)), x, fd, ps, dn))
    if not fits and not perform:
        return FALSE
    if not fits:
        I.throw(TRUE, 'no such binding')
        return UNDEF
    fits.sort(key=lambda f: f[0])
    for bad, x, fd, ps, dn in fits:
        ptrs = []
        try:
            refuse = FALSE
            for i, p in enumerate(ps):
                if i >= len(given):
                    v, ty = x.defaults[i - dn]
                    ptrs.append(I.tempv(convert(I, v, ty, p)[1], p.n if p.k == 'rec' else None))
                    continue
                if ident(p) == ident(given[i]):
                    ptrs.append(a[3 + i])
                    continue
                c, v = convert(I, I.load(a[3 + i], given[i]), given[i], p)
                if v is None:
                    ptrs.append(a[3 + i])
                    continue
                refuse = or_(refuse, c)
                ptrs.append(I.tempv(v, p.n if p.k == 'rec' else None))
        except NoMatch:
            continue
        if not perform:
            return not_(refuse)
        if refuse is not FALSE:
            I.throw(refuse, 'conversion')
        if I.pc is FALSE:
            return UNDEF
        return result(I, d, call(I, x, fd, ptrs, ps), fd)
    if not perform:
        return FALSE
    I.throw(TRUE, 'incompatible arguments')
    return UNDEF


def call(I, x, fd, ptrs, ps):
    if x.f.op == 'fnref' and fd.rec and not fd.static and fd.rect is not None:
        this = ptrs[0]
        ptrs = ptrs[1:]
        I.note_dyn(this, ps[0])
        if fd.virtual:
            fd = I.dispatch(fd, this)
        av = [p if pt.k == 'ref' else I.load(p, pt) for p, pt in zip(ptrs, fd.ps)]
        r = I.invoke(fd, this, av, None)
        if fd.ret is not None and fd.ret.k == 'ref':
            return I.load(r, I.strip(fd.ret))
        return r
    return I.call_value(x.f, ptrs)


def result(I, d, r, fd):
    want = I.strip(d.ret)
    got = I.strip(fd.ret) if fd.ret is not None else None
    if want.k == 'void' or got is None or got.k == 'void':
        return t('nothing') if want.k != 'void' else None
    if r is None:
        return UNDEF
    if ident(want) == ident(got) or want.k in ('int', 'bool', 'float') and got.k == want.k:
        return r
    if want.k == 'rec' and want.n == 'std::shared_ptr' and got.k == 'ptr':
        return r
    if want.k == 'rec' and got.k == 'ptr' and got.t.k == 'rec' and got.t.n == want.n:
        return I.load(r, want)
    return t('as', ident(got), r)


stl.H['pybind11::pybound'] = m_pybound
stl.H['pybind11::accepts'] = m_accepts


# ------------------------------------------------------------------ tuples and bytes of pickled state
def obj(I, v, ty):
    return rec('pybind11::item', (('ty', t('str', ident(ty))), ('v', v)))


@stl.model('pybind11::make_tuple')
def m_tuple(I, d, o, a, e):
    es = []
    for p, ty in zip(a, d.ps):
        ty = I.strip(ty)
        es.append((str(len(es)), obj(I, I.reify(I.load(p, ty)), ty)))
    return rec('pybind11::tuple', [('n', N(len(es)))] + es)


@stl.model('pybind11::tuple::size')
def m_tsize(I, d, o, a, e):
    return tm.fld(I.load(o), 'n')


@stl.model('pybind11::tuple::operator[]')
def m_tindex(I, d, o, a, e):
    v = I.load(o)
    i = I.load(a[0]) if d.ps[0].k == 'ref' else a[0]
    if v.op != 'rec' or i.op != 'int':
        return unk('tuple index')
    fs = dict(v.a[1])
    if str(i.a[0]) not in fs:
        I.throw(TRUE, 'index_error')
        return UNDEF
    return fs[str(i.a[0])]


@stl.model('pybind11::item::cast')
def m_cast(I, d, o, a, e):
    v = I.load(o)
    want = I.strip(d.ret)
    if v.op != 'rec' or v.a[0] != 'pybind11::item' or not v.a[1]:
        return unk('cast of a Python object')
    fs = dict(v.a[1])
    ty, x = fs['ty'].a[0], fs['v']
    if x.op == 'rec' and x.a[0] == 'pybind11::bytes':
        if want.n == 'std::basic_string':
            return tm.fld(x, 'v')
    elif ty == ident(want):
        return x
    if want.k in ('int', 'bool', 'float') and x.op != 'rec':
        src = BASIC.get(ty)
        if src is None:
            return unk('cast of ' + ty)
        if want.k == 'float':
            return I.convert(x, src, want)
        if src.k == 'float':
            I.throw(TRUE, 'cast_error')
            return UNDEF
        if want.k == 'bool':
            if src.k != 'bool':
                I.throw(TRUE, 'cast_error')
                return UNDEF
            return x
        try:
            bad, x = convert(I, x, src, want)
        except NoMatch:
            bad = TRUE
        I.throw(bad, 'cast_error')
        return x
    I.throw(TRUE, 'cast_error')
    return UNDEF


class Basic:
    def __init__(self, k, w=None, s=None, name=''):
        self.k, self.w, self.s, self.str, self.enum, self.n = k, w, s, name, None, None


BASIC = {n: Basic('int', w, s, n) for n, w, s in (
    ('signed char', 8, True), ('unsigned char', 8, False), ('short', 16, True), ('unsigned short', 16, False),
    ('int', 32, True), ('unsigned int', 32, False), ('long', 64, True), ('unsigned long', 64, False),
    ('long long', 64, True), ('unsigned long long', 64, False), ('char', 8, True))}
BASIC.update({'double': Basic('float', 64, None, 'double'), 'float': Basic('float', 32, None, 'float'),
              'bool': Basic('bool', 1, None, 'bool'), '_Bool': Basic('bool', 1, None, 'bool')})


@stl.model('pybind11::make_iterator')
def m_iter(I, d, o, a, e):
    return rec('pybind11::iterator', tuple((str(i), I.load(p) if q.k == 'ref' else p) for i, (p, q) in enumerate(zip(a, d.ps))))


@stl.lzctor('pybind11::bytes')
def z_bytes(I, p, d, a):
    I.store(p, rec('pybind11::bytes', (('v', I.load(a[0], I.strip(d.ps[0]))),)))


@stl.lzctor('pybind11::slice')
def z_slice(I, p, d, a):
    vs = [I.load(x) if q.k == 'ref' else x for x, q in zip(a, d.ps)]
    I.store(p, rec('pybind11::slice', tuple(zip(('start', 'stop', 'step'), vs))))


@stl.model('pybind11::slice::compute')
def m_slice(I, d, o, a, e):
    """PySlice_Unpack and PySlice_AdjustIndices for literal bounds and a sequence of known length"""
    s = I.load(o)
    n = I.load(a[0]) if d.ps[0].k == 'ref' else a[0]
    vs = [tm.fld(s, f) for f in ('start', 'stop', 'step')] + [tm.subst(n, dict(tm.PINS))]
    if any(v.op != 'int' for v in vs) or vs[2].a[0] == 0:
        return unk('slice bounds')
    b, c, st, n = [v.a[0] for v in vs]
    lo, hi = (-1, n - 1) if st < 0 else (0, n)
    b, c = [min(max(x + n if x < 0 else x, lo), hi) for x in (b, c)]
    cnt = max(0, (c - b + st + (1 if st < 0 else -1)) // st)
    for p, ty, v in zip(a[1:], d.ps[1:], (b, c, st, cnt)):
        q = I.strip(ty)
        q = q.t if q.k == 'ptr' else q
        I.store(p, N(v if q.s else v % (1 << 64)))
    return TRUE
