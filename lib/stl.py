"""Models of the standard-library operations the library uses (values, containers, streams, algorithms)."""
import terms as tm
from terms import (T, t, I as N, F, TRUE, FALSE, UNDEF, NULL, ZERO, ONE, ite, and_, or_, not_, atom, lift, veq, ieq, ile, ilt,
                   iadd, isub, imul, vcat, vlen, velem, vstore, fld, EMPTY, leaves)
from engine import sub, rec, unk, STREAMS, STREAM, root, split, Unsupported

H = {}


def model(*names):
    def dec(f):
        for n in names:
            H[n] = f
        return f
    return dec


def lookup(I, d):
    n = d.name
    h = H.get(n)
    if h is not None:
        return h
    if n.startswith('std::') or n.startswith('__gnu_cxx::'):
        parts = n.split('::')
        cls, meth = parts[-2], parts[-1]
        if cls.startswith('_') or cls.startswith('basic_') or cls in CLSALIAS:
            c = CLSALIAS.get(cls)
            if c:
                h = H.get('std::%s::%s' % (c, meth))
                if h is not None:
                    return h
    return None


CLSALIAS = {'__shared_ptr': 'shared_ptr', '__shared_ptr_access': 'shared_ptr', '__normal_iterator': 'iter',
            '_Rb_tree_const_iterator': 'iter', '_Rb_tree_iterator': 'iter', '_Node_iterator': 'iter', '_Node_iterator_base': 'iter',
            '_Node_const_iterator': 'iter', 'basic_string': 'string', 'basic_ostream': 'ostream', 'basic_istream': 'istream',
            'basic_fstream': 'fstream', 'basic_ifstream': 'fstream', 'basic_ofstream': 'fstream', 'basic_ios': 'ios',
            'ios_base': 'ios', 'basic_stringstream': 'sstream', 'basic_ostringstream': 'sstream', '_Bit_reference': 'bitref',
            'basic_istringstream': 'sstream', 'unordered_set': 'set', 'unordered_map': 'map', 'multimap': 'map',
            '_Optional_base_impl': 'optional', '_Optional_base': 'optional', '_Bit_iterator': 'iter', '_Bit_const_iterator': 'iter',
            'reverse_iterator': 'riter', '_Base_bitset': 'bitset', '__detail': 'x', 'basic_iostream': 'ostream',
            '_Bit_iterator_base': 'iter', '__array_traits': 'array', 'array': 'array', 'initializer_list': 'ilist'}

VEC = ('std::vector', 'std::basic_string', 'std::deque', 'std::initializer_list')
MAPS = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')
PTRS = ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr')
EMPTYMAP = t('mempty')
EMPTYSTR = t('str', '')


def tyname(I, e):
    ty = I.strip(I.ty(e))
    return ty.n if ty.k == 'rec' else None


# ------------------------------------------------------------------ default / constructors
def new_stream(src=EMPTY, rpos=ZERO, log=EMPTY, wpos=ZERO, own=FALSE, end=ZERO, name=UNDEF):
    # own: an in-memory stream, what is read is what was written; cur: where the last write ended (the next write
    # is preceded by a seek when it goes elsewhere); end: end of the contents
    return rec(STREAM, (('src', src), ('rpos', rpos), ('log', log), ('wpos', wpos), ('own', own), ('cur', wpos), ('end', end),
                        ('name', name)))


def default_value(I, ty):
    n = ty.n
    if n in ('std::vector', 'std::deque', 'std::list'):
        return EMPTY
    if n == 'std::basic_string':
        return EMPTYSTR
    if n in MAPS:
        return EMPTYMAP
    if n in PTRS:
        return NULL
    if n == 'std::optional':
        return rec('std::optional', (('has', FALSE), ('val', UNDEF)))
    if n == 'std::function':
        return NULL
    if n in STREAMS:
        return new_stream(own=TRUE if 'stringstream' in n else FALSE)
    if n in ('std::pair',):
        return rec('std::pair', (('first', I.value_init(ty.a[0])), ('second', I.value_init(ty.a[1]))))
    if n == 'std::array':
        k = int(ty.a[1]['v'])
        return tm.vrep(N(k), I.default_of(ty.a[0]) if ty.a[0].k == 'rec' else UNDEF)
    if n and n.startswith('std::') and n.split('::')[-1] in ('allocator', 'hash', 'less', 'equal_to', 'plus', 'multiplies',
                                                             'runtime_error', 'exception', 'mutex', 'lock_guard', 'minus'):
        return t('functor', n)
    return None


def ctor(I, ty, d, e):
    n = ty.n
    if n in I.p.recs:
        return None
    es = e['args']
    es = [x for x in es if not (x['k'] == 'ctor' and tyname(I, x) == 'std::allocator')]
    if d is not None and (d.copy or d.move) and es:
        p = I.refarg(es[0], d.ps[0])
        return I.load(p, ty)
    if n in VEC:
        ps, ats = [], []
        for x in es:
            if x['k'] == 'cast' and x['ck'] == 'ArrayToPointerDecay':
                ps.append(I.lv(x['e']))
                ats.append(I.ty(x['e']))
            else:
                ps.append(I.lv(x))
                ats.append(I.ty(x))
        return make_seq(I, ty, ps, ats)
    if n == 'std::array':
        if not es:
            return default_value(I, ty)
        return I.rv(es[0])
    if n in PTRS:
        if not es:
            return NULL
        return I.rv(es[0])
    if n in MAPS:
        if not es:
            return EMPTYMAP
        x = I.rv(es[0])
        return map_from(I, x, n)
    if n in ('std::pair', 'std::tuple'):
        if not es:
            return default_value(I, ty)
        vs = []
        for i, x in enumerate(es):
            at = I.strip(I.ty(x))
            v = I.rv(x)
            bt = ty.a[i] if i < len(ty.a) else at
            if bt.k in ('int', 'float', 'bool') and at.k in ('int', 'float', 'bool'):
                v = I.convert(v, at, bt)
            vs.append(v)
        if n == 'std::pair':
            if len(vs) == 1:
                return I.expand(vs[0], ty)
            return rec('std::pair', (('first', vs[0]), ('second', vs[1])))
        return rec('std::tuple', [(str(i), v) for i, v in enumerate(vs)])
    if n == 'std::optional':
        if not es or tyname(I, es[0]) == 'std::nullopt_t':
            return rec('std::optional', (('has', FALSE), ('val', UNDEF)))
        st = I.strip(I.ty(es[0]))
        if st.k == 'rec' and st.n == 'std::optional':
            return I.rv(es[0])
        v = I.rv(es[0])
        if ty.a[0].k in ('int', 'float', 'bool'):
            v = I.convert(v, st, ty.a[0])
        return rec('std::optional', (('has', TRUE), ('val', v)))
    if n in STREAMS:
        if 'fstream' in n:
            if not es:
                return new_stream()
            f = I.rv(es[0])
            m = I.rv(es[1]) if len(es) > 1 else ZERO
            return open_file(I, f, m)
        if es and tyname(I, es[0]) == 'std::basic_string':
            s = I.rv(es[0])
            return new_stream(log=s, own=TRUE)
        if es and I.ty(es[0]).k in ('ptr', 'arr'):
            s = cstr(I, I.lv(es[0]))
            return new_stream(log=s, own=TRUE)
        return new_stream(own=TRUE if 'stringstream' in n else FALSE)
    if n == 'std::function':
        if not es:
            return NULL
        return I.rv(es[0])
    if n in ('std::fpos', 'std::allocator', 'std::chrono::duration'):
        if not es:
            return ZERO
        return I.rv(es[0])
    if n and 'iterator' in n:
        if n == 'std::ostreambuf_iterator':
            x = I.lv(es[0])
            return t('oiter', x, 'char')
        if n == 'std::ostream_iterator':
            ch = ty.a and ty.a[0].k == 'int' and ty.a[0].w == 8
            return t('oiter', I.lv(es[0]), 'char' if ch else 'text')
        if es:
            return I.rv(es[0])
        return NULL
    if n and n.startswith('std::') and ('error' in n or 'exception' in n or n.split('::')[-1] in ('out_of_range', 'invalid_argument')):
        return t('exc')
    v = default_value(I, ty) if not es else None
    if v is not None:
        return v
    if n and (n.startswith('std::')):
        if not es:
            return t('functor', n)
        return t('ext', n, tuple(I.reify(I.rv(x)) for x in es))
    if '(lambda' in (n or ''):
        return I.rv(es[0]) if es else UNDEF
    if n and n.startswith('lazperf'):
        return None
    return None


def map_from(I, x, n):
    def g(a):
        if a.op == 'vlit':
            m = EMPTYMAP
            for p in a.a[0]:
                if 'set' in n:
                    m = tm.mput(m, p, TRUE)
                else:
                    m = tm.mput(m, fld(p, 'first'), fld(p, 'second'))
            return m
        return a
    return lift(g, x)


def make_std(I, ty, ptrs, ats):
    n = ty.n
    if n in VEC:
        return make_seq(I, ty, ptrs, ats)
    if n in PTRS:
        return I.load(ptrs[0]) if ptrs else NULL
    if n in ('std::pair',):
        if len(ptrs) == 1:
            return I.load(ptrs[0], ty)
        if len(ptrs) == 2:
            vs = []
            for p, at, bt in zip(ptrs, ats, ty.a):
                vs.append(I.make(bt, [p], [at]))
            return rec('std::pair', (('first', vs[0]), ('second', vs[1])))
    if n in MAPS:
        return I.load(ptrs[0]) if ptrs else EMPTYMAP
    if n in STREAMS:
        if 'fstream' in n:
            if not ptrs:
                return new_stream()
            f = I.load(ptrs[0])
            if I.strip(ats[0]).k in ('ptr', 'arr'):
                f = cstr(I, f)
            return open_file(I, f, I.load(ptrs[1]) if len(ptrs) > 1 else ZERO)
        if ptrs:
            s = I.load(ptrs[0])
            return new_stream(log=s, own=TRUE)
        return new_stream(own=TRUE if 'stringstream' in n else FALSE)
    if n == 'std::optional':
        if not ptrs:
            return rec('std::optional', (('has', FALSE), ('val', UNDEF)))
        if I.strip(ats[0]).k == 'rec' and I.strip(ats[0]).n == 'std::optional':
            return I.load(ptrs[0], ty)
        return rec('std::optional', (('has', TRUE), ('val', I.load(ptrs[0], ty.a[0]))))
    v = default_value(I, ty) if not ptrs else None
    if v is None and ptrs:
        return t('ext', n, tuple(I.reify(I.load(p)) for p in ptrs))
    return v


OUT, IN, TRUNC = 16, 8, 32


def open_file(I, f, mode):
    # a file name ends at its first NUL
    f = lift(lambda z: z if z.op in ('cstr', 'str', 'undef', 'const') else t('cstr', z), f)
    m = mode.a[0] if mode.op == 'int' else None
    end = ZERO if m is not None and m & OUT and (m & TRUNC or not m & IN) and not m & 1 else t('endpos', t('file', f))
    return new_stream(src=t('file', f), log=t('opened', f, mode), end=end, name=t('opened', f, mode))


def close_file(I, o):
    # the contents of the file become visible under its name
    c = isopen(I, o)
    if c is FALSE:
        return
    nm = sf(I, o, 'name')
    keep = I.load(o)
    if nm.op == 'opened' and not (nm.a[1].op == 'int' and not nm.a[1].a[0] & OUT):
        k = t('fsys', nm.a[0])
        I.store(k, I.merge(c, sf(I, o, 'log'), I.load(k)))
    tok = t('tkx', 'close', UNDEF, ())
    tm.TKLEN[tok] = ZERO
    upds(I, o, log=vcat(sf(I, o, 'log'), tm.vlit(tok)))
    if c is not TRUE:
        I.store(o, I.merge(c, I.load(o), keep))


def isopen(I, o):
    def shut(z):
        return TRUE if z.op == 'vlit' and z.a[0] and z.a[0][-1].op == 'tkx' and z.a[0][-1].a[0] == 'close' else FALSE
    def g(l, n):
        c = FALSE
        if l.op == 'vcat':
            c = lift(shut, l.a[0][-1])
        if c is TRUE:
            return FALSE
        if n.op == 'opened':
            return and_(not_(c), atom(t('b', t('good', n))))      # open exactly when opening it did not fail
        return and_(not_(c), atom(t('b', t('isopen', n))))
    return lift(g, sf(I, o, 'log'), sf(I, o, 'name'))


def cstr(I, p):
    """C string at pointer p"""
    def g(q):
        if q.op == 'sub' and q.a[1][-1][0] == 'i':
            base = t('sub', q.a[0], q.a[1][:-1]) if len(q.a[1]) > 1 else q.a[0]
            s = I.load(base)
            i = q.a[1][-1][1]
            if i is ZERO and q.a[0].op == 'const' or s.op == 'str':
                return s if i is ZERO else t('cstr', t('drop', s, i))
            r = s if i is ZERO else t('drop', s, i)
            if r.op == 'vlit':
                cs = r.a[0]
                out = []
                for c in cs:
                    if c.op != 'int':
                        break
                    if c.a[0] == 0:
                        return t('str', ''.join(map(chr, out)))
                    out.append(c.a[0] & 255)
            return lift(lambda z: t('cstr', z), r)
        if q.op == 'const':
            return q.a[0]
        if q.op == 'str':
            return q
        return t('cstr', t('deref', q))
    return lift(g, p)


def EL(z, lit):
    return t('vlit', (z,)) if lit else z


def vslice(s, off, n):
    def g(x, o, k):
        if k is ZERO:
            return EMPTY
        if k is ONE and x.op not in ('rdseq', 'slice', 'mem') and not (x.op == 'vlit' and any(e.op in ('tk', 'tkx') for e in x.a[0])) \
                and x.op != 'vcat':
            return t('vlit', (velem(x, o),))
        ln = vlen(x)
        if o is ZERO and (ln is k):
            return x
        if x.op == 'padcopy' and o is ZERO:
            if vlen(x.a[0]) is k:
                return x.a[0]
        if x.op == 'vlit' and o.op == 'int' and k.op == 'int' and all(e.op not in ('tk', 'tkx') for e in x.a[0]):
            return t('vlit', x.a[0][o.a[0]:o.a[0] + k.a[0]])
        if x.op == 'str' and o.op == 'int' and k.op == 'int':
            return t('str', x.a[0][o.a[0]:o.a[0] + k.a[0]])
        ps = [EL(z, lit) for lit, z in tm.unit_parts(x)] if x.op in ('vlit', 'vcat') else [x]
        if len(ps) > 1:
            # cut at part boundaries where positions agree
            pos = ZERO
            start = None
            out = EMPTY
            end = iadd(o, k)
            for p in ps:
                if pos is o:
                    start = True
                if pos is end and start:
                    return out
                if start:
                    out = vcat(out, p)
                pos = iadd(pos, vlen(p))
            if pos is end and start:
                return out
        if x.op == 'rdseq':
            return rdseq(x.a[0], iadd(x.a[1], o), k)
        if x.op == 'slice':
            return t('slice', x.a[0], iadd(x.a[1], o), k)
        return t('slice', x, o, k)
    return lift(g, s, off, n)


def make_seq(I, ty, ptrs, ats):
    n = ty.n
    isstr = n == 'std::basic_string'
    if not ptrs:
        return EMPTYSTR if isstr else EMPTY
    at = [I.strip(a) for a in ats]
    if len(ptrs) >= 1 and at[0].k == 'rec' and at[0].n in ('std::allocator',):
        return EMPTY
    if isstr and at[0].k in ('ptr', 'arr'):
        p = I.load(ptrs[0]) if at[0].k == 'ptr' else sub(ptrs[0], ('i', ZERO))
        if len(ptrs) == 1 or (len(at) > 1 and at[1].k == 'rec' and at[1].n == 'std::allocator'):
            return cstr(I, p)
        if at[1].k in ('ptr', 'arr'):
            q = I.load(ptrs[1]) if at[1].k == 'ptr' else sub(ptrs[1], ('i', ZERO))
            return rangeseq(I, p, q)
        k = I.toint(I.load(ptrs[1], at[1]))
        return ptrseq(I, p, k)
    if at[0].k == 'int':
        k = I.load(ptrs[0], at[0])
        if at[0].s and at[0].w < 64:
            k = tm.wrap(64, False, k)
        if len(ptrs) > 1 and not (at[1].k == 'rec' and at[1].n == 'std::allocator'):
            x = I.load(ptrs[1], at[1])
            et = ty.a[0]
            if at[1].k in ('int', 'float', 'bool') and et.k in ('int', 'float', 'bool'):
                x = I.convert(x, at[1], et)
        else:
            x = I.value_init(ty.a[0])
        return tm.vrep(k, x)
    if at[0].k == 'rec' and at[0].n in ('std::initializer_list', 'std::vector', 'std::basic_string'):
        v = I.load(ptrs[0])
        if at[0].n == 'std::basic_string' and len(ptrs) == 3 and at[1].k == 'int':
            return vslice(v, I.load(ptrs[1], at[1]), I.load(ptrs[2], at[2]))
        return v
    if len(ptrs) >= 2 and at[0].k == 'arr' and at[1].k in ('ptr', 'arr'):
        return rangeseq(I, sub(ptrs[0], ('i', ZERO)), I.load(ptrs[1]) if at[1].k == 'ptr' else sub(ptrs[1], ('i', ZERO)))
    if len(ptrs) >= 2 and (at[0].k == 'ptr' or (at[0].k == 'rec' and 'iterator' in at[0].n)):
        p, q = I.load(ptrs[0]), I.load(ptrs[1])
        return rangeseq(I, p, q)
    if at[0].k == 'arr':
        return I.load(ptrs[0])
    return unk('sequence constructor %s' % [str(x) for x in at])


def ptrseq(I, p, k):
    """k elements at pointer p"""
    if I.safe:
        I.access(p, k, 'read of a range')

    def g(q):
        if q.op == 'bytes':
            return typed_bytes(I, q, k)
        if q.op == 'sub' and q.a[1][-1][0] == 'i':
            base = t('sub', q.a[0], q.a[1][:-1]) if len(q.a[1]) > 1 else q.a[0]
            return vslice(I.load(base), q.a[1][-1][1], k)
        if q.op == 'const':
            return vslice(q.a[0], ZERO, k)
        return vslice(t('mem', I.load(q)), ZERO, k)
    return lift(g, p)


def typed_bytes(I, q, k):
    p, kind, size = q.a
    if k.op == 'int' and k.a[0] == size:
        v = I.load(p)
        return enc(v, kind, size)
    if elements(p, kind, size, k):
        r = EMPTY
        for i in range(k.a[0] // size):
            r = vcat(r, enc(I.load(I.ptradd(p, N(i))), kind, size))
        return r
    if k.op == 'int':
        return vslice(enc(I.load(p), kind, size), ZERO, k)
    return t('slice', enc(I.load(p), kind, size), ZERO, k)


def elements(p, kind, size, n):
    """do the n bytes at the first byte of *p cover several elements of an array of scalars?"""
    return (n.op == 'int' and size and n.a[0] > size and n.a[0] % size == 0 and n.a[0] // size <= 64
            and kind[:1] in 'iuf' and p.op == 'sub' and p.a[1][-1][0] == 'i')


def enc(v, kind, size):
    if v.op == 'vlit' and kind.startswith('arr'):
        ek, es = kind.split(':')[1], int(kind.split(':')[2])
        r = EMPTY
        for x in v.a[0]:
            r = vcat(r, enc(x, ek, es))
        return r
    if size == 1:
        if kind == 'bool':
            return tm.vlit(ite(v, ONE, ZERO))
        return tm.vlit(tm.wrap(8, False, v))
    return tm.vlit(t('tk', size, kind, v))


def dec(I, b, kind, size):
    """value of `kind` decoded from byte sequence b (of length size)"""
    def g(x):
        if x.op == 'vlit' and len(x.a[0]) == 1:
            e = x.a[0][0]
            if e.op == 'tk' and e.a[0] == size:
                k2 = e.a[1]
                if k2 == kind:
                    return e.a[2]
                if k2[0] in 'iu' and kind[0] in 'iu' and k2 != 'bool':
                    return tm.wrap(8 * size, kind[0] == 'i', e.a[2])
            if size == 1 and e.op != 'tk':
                if kind == 'bool':
                    return not_(ieq(e, ZERO))
                return tm.wrap(8, kind[0] == 'i', e)
        y = x.a[0] if x.op == 'slice' else x
        if y.op == 'vrep' and y.a[1] is ZERO and (kind[0] in 'iuf' or kind == 'bool'):
            # bytes of zeros; a slice which leaves them is never decoded (the read failed)
            return F(0.0) if kind[0] == 'f' else FALSE if kind == 'bool' else ZERO
        r = t('dec', kind, size, x)
        return mark(I, r, kind, size)
    return lift(g, b)


def mark(I, r, kind, size):
    if kind == 'bool':
        return atom(t('b', r))
    if kind[0] == 'f':
        tm.FLOATS.add(r)
    elif kind[0] in 'iu' and kind[1:].isdigit():
        lo, hi = tm.trange(8 * size, kind[0] == 'i')
        tm.note_range(r, lo, min(hi, (1 << 63) - 1))
    return r


def rangeseq(I, p, q):
    if p.op == 'mit':
        ks = p.a[1]
        if q.op == 'mit':
            return vslice(map_items(I, p.a[0], ks), p.a[2], isub(q.a[2], p.a[2]))
    k = I.ptrdiff(p, q)
    if I.safe and k.op != 'unk':
        I.oob(ilt(ZERO, k), 'range')
    return ptrseq(I, p, tm.ineg(k) if k.op != 'unk' else k)


def map_items(I, mp, ks):
    return t('items', I.load(mp))


# ------------------------------------------------------------------ scalars
@model('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def m_move(I, d, o, a, e):
    return a[0]


def ldarg(I, d, a, i, e=None):
    pt = d.ps[i]
    if pt.k == 'ref':
        return I.load(a[i], pt.t)
    return a[i]


@model('std::max', 'std::min')
def m_max(I, d, o, a, e):
    if len(a) == 1 or (len(a) > 1 and I.strip(d.ps[0]).n == 'std::initializer_list'):
        s = ldarg(I, d, a, 0)
        if s.op != 'vlit':
            return unk('max of list')
        et = I.strip(d.ps[0]).a[0]
        r = s.a[0][0]
        for x in s.a[0][1:]:
            r = pick(I, d, r, x, et)
        return r
    x, y = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    ty = I.strip(d.ps[0])
    if len(a) == 3:
        return unk('max with comparator')
    return I.tempv(pick(I, d, x, y, ty))


def pick(I, d, x, y, ty):
    if d.name.endswith('max'):
        return ite(I.compare('<', x, y, ty), y, x)
    return ite(I.compare('<', y, x, ty), y, x)


@model('std::clamp')
def m_clamp(I, d, o, a, e):
    v, lo, hi = [ldarg(I, d, a, i) for i in range(3)]
    ty = I.strip(d.ps[0])
    return I.tempv(ite(I.compare('<', v, lo, ty), lo, ite(I.compare('<', hi, v, ty), hi, v)))


@model('std::swap', 'std::iter_swap')
def m_swap(I, d, o, a, e):
    x, y = I.load(a[0]), I.load(a[1])
    I.store(a[0], y)
    I.store(a[1], x)
    return UNDEF


@model('std::exchange')
def m_exchange(I, d, o, a, e):
    x = I.load(a[0])
    I.store(a[0], ldarg(I, d, a, 1))
    return x


def fl(I, x):
    for l in leaves(x):
        tm.FLOATS.add(l)
    return x


def fun1(op):
    def h(I, d, o, a, e):
        x = ldarg(I, d, a, 0)
        pt = I.strip(d.ps[0])
        if pt.k == 'int':
            x = tm.i2f(x)
        return fl(I, lift(lambda z: t(op, z), x))
    return h


for _n, _op in (('round', 'fround'), ('floor', 'ffloor'), ('ceil', 'fceil'), ('sqrt', 'fsqrt'), ('trunc', 'ftrunc'),
                ('log2', 'flog2'), ('log', 'flog'), ('rint', 'frint'), ('nearbyint', 'frint'), ('sin', 'fsin'),
                ('cos', 'fcos'), ('log10', 'flog10'), ('exp', 'fexp'), ('cbrt', 'fcbrt')):
    for _p in ('', 'std::'):
        H[_p + _n] = fun1(_op)
        H[_p + _n + 'f'] = fun1(_op)


@model('std::lround', 'lround', 'std::llround', 'llround')
def m_lround(I, d, o, a, e):
    x = ldarg(I, d, a, 0)
    return tm.f2i(fl(I, lift(lambda z: t('fround', z), x)), 64, True)


@model('fabs', 'std::fabs', 'std::abs', 'abs', 'labs', 'llabs')
def m_abs(I, d, o, a, e):
    x = ldarg(I, d, a, 0)
    ty = I.strip(d.ps[0])
    if ty.k == 'float':
        return fl(I, ite(tm.frel(x, F(0.0), '<'), tm.fneg(x), x))
    if ty.k == 'int' and I.strip(d.ret).k == 'float':
        x = tm.i2f(x)
        return ite(tm.frel(x, F(0.0), '<'), tm.fneg(x), x)
    return ite(ilt(x, ZERO), tm.ineg(x), x)


@model('fmax', 'std::fmax', 'fmin', 'std::fmin')
def m_fmax(I, d, o, a, e):
    x, y = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    c = tm.frel(x, y, '<')
    return ite(c, y, x) if 'max' in d.name else ite(c, x, y)


def isfint(x):
    return tm.isflt(x) and float(x.a[0]).is_integer() and abs(x.a[0]) < 1e9


def aspow(I, x):
    """integer term k with x == k as a float, or None"""
    if isfint(x):
        return N(int(x.a[0]))
    if x.op == 'i2f':
        return x.a[0]
    return None


@model('pow', 'std::pow', 'powf')
def m_pow(I, d, o, a, e):
    x, y = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    tx, ty = I.strip(d.ps[0]), I.strip(d.ps[1])
    if tx.k == 'int':
        x = tm.i2f(x)
    if ty.k == 'int':
        y = tm.i2f(y)

    def g(p, q):
        k = aspow(I, q)
        if tm.isflt(p) and p.a[0] == 2.0 and k is not None:
            return tm.fpow2(k)
        if k is not None and k.op == 'int' and 0 <= k.a[0] <= 4:
            r = F(1.0)
            for _ in range(k.a[0]):
                r = tm.fmul(r, p)
            return r
        if tm.isflt(p) and p.a[0] == 0.5 and k is not None:
            return tm.fpow2(tm.ineg(k))
        return t('fpow', p, q)
    return fl(I, lift(g, x, y))


@model('exp2', 'std::exp2')
def m_exp2(I, d, o, a, e):
    x = ldarg(I, d, a, 0)
    if I.strip(d.ps[0]).k == 'int':
        x = tm.i2f(x)
    return fl(I, lift(lambda q: tm.fpow2(aspow(I, q)) if aspow(I, q) is not None else t('fpow', F(2.0), q), x))


@model('ldexp', 'std::ldexp', 'scalbn', 'std::scalbn')
def m_ldexp(I, d, o, a, e):
    x, k = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    if I.strip(d.ps[0]).k == 'int':
        x = tm.i2f(x)
    return fl(I, tm.scale2(x, k))


@model('std::isnan', 'isnan', '__builtin_isnan')
def m_isnan(I, d, o, a, e):
    return not_(tm.r_notnan(ldarg(I, d, a, 0))) if tm.NAN[0] else FALSE


@model('std::isfinite', 'isfinite', 'std::isinf', 'isinf')
def m_isfinite(I, d, o, a, e):
    return lift(lambda z: atom(t('b', t('call', d.name.split('::')[-1], UNDEF, (z,)))), ldarg(I, d, a, 0))


@model('std::to_string')
def m_tostring(I, d, o, a, e):
    return lift(lambda z: t('tostr', z), a[0]) if not (a[0].op == 'ite') else t('tostr', a[0])


@model('std::setprecision', 'std::setw', 'std::setfill', 'std::hex', 'std::fixed', 'std::endl', 'std::flush')
def m_manip(I, d, o, a, e):
    return t('manip', d.name)


@model('std::hash::operator()')
def m_hash(I, d, o, a, e):
    x = ldarg(I, d, a, 0)
    r = t('hash', x)
    tm.note_range(r, 0, (1 << 63) - 1)
    return r


# ------------------------------------------------------------------ smart pointers
@model('std::make_shared', 'std::make_unique')
def m_make(I, d, o, a, e):
    ty = d.ret.a[0]
    ats = [I.ty(x) for x in e['args']]
    ptrs = []
    for x, pt in zip(a, d.ps):
        ptrs.append(x if pt.k == 'ref' else I.tempv(x))
    ats = [pt.t if pt.k == 'ref' else pt for pt in d.ps]
    v = I.make(ty, ptrs, ats)
    if I.pc is FALSE:
        return UNDEF
    return I.alloc(v, ty.n if ty.k == 'rec' else None)


@model('std::shared_ptr::operator*', 'std::shared_ptr::operator->', 'std::unique_ptr::operator*', 'std::unique_ptr::operator->',
       'std::shared_ptr::get', 'std::unique_ptr::get')
def m_deref(I, d, o, a, e):
    p = I.load(o)
    if I.safe and not d.name.endswith('::get'):
        for q in leaves(p):
            if q is NULL:
                I.oob(I.ptr_is(p, q), 'null pointer')
    rt = d.ret
    if rt is not None and rt.k in ('ref', 'ptr') and rt.t.k == 'rec':
        for l in leaves(p):
            pass
    return p


@model('std::shared_ptr::#ctor', 'std::unique_ptr::#ctor')
def m_spctor(I, d, o, a, e):
    return UNDEF


@model('std::shared_ptr::operator=', 'std::unique_ptr::operator=')
def m_spasg(I, d, o, a, e):
    v = ldarg(I, d, a, 0)
    I.store(o, v)
    return o


@model('std::shared_ptr::#conv', 'std::unique_ptr::#conv', 'std::shared_ptr::operator bool')
def m_spbool(I, d, o, a, e):
    return not_(I.ptrcmp('==', I.load(o), NULL))


@model('std::shared_ptr::reset', 'std::unique_ptr::reset')
def m_reset(I, d, o, a, e):
    v = NULL
    if a:
        v = ldarg(I, d, a, 0)
    I.store(o, v)
    return UNDEF


@model('std::unique_ptr::release')
def m_release(I, d, o, a, e):
    v = I.load(o)
    I.store(o, NULL)
    return v


@model('std::shared_ptr::use_count', 'std::shared_ptr::unique')
def m_usecount(I, d, o, a, e):
    return unk('use_count')


@model('std::shared_ptr::swap', 'std::vector::swap', 'std::string::swap', 'std::map::swap', 'std::unique_ptr::swap')
def m_mswap(I, d, o, a, e):
    return m_swap(I, d, None, [o, a[0]], e)


@model('std::dynamic_pointer_cast')
def m_dpc(I, d, o, a, e):
    v = ldarg(I, d, a, 0)
    return I.dyncast(v, d.ret.a[0])


@model('std::static_pointer_cast', 'std::const_pointer_cast', 'std::reinterpret_pointer_cast')
def m_spc(I, d, o, a, e):
    return ldarg(I, d, a, 0)


# ------------------------------------------------------------------ iterators
def it_deref(I, p):
    if I.safe:
        for q in leaves(p):
            c = I.ptr_is(p, q)
            if q.op == 'mfind':
                I.oob(and_(c, not_(tm.mhas(q.a[1], q.a[2]))), 'lookup that may fail')
            elif q.op == 'mit':
                I.oob(and_(c, not_(and_(ile(ZERO, q.a[2]), ilt(q.a[2], vlen(q.a[1]))))), 'iterator')
            else:
                cap = I.capacity(q)
                if cap is not None:
                    I.oob(and_(c, not_(and_(ile(ZERO, cap[1]), ilt(cap[1], cap[0])))), 'iterator')

    def g(q):
        if q.op == 'mit':
            mp, ks, i, kind = q.a
            k = velem(ks, i)
            return t('const', k) if kind == 'set' else t('mpair', mp, k)
        if q.op == 'mfind':
            return t('mpair', q.a[0], q.a[2]) if q.a[3] == 'map' else t('const', q.a[2])
        return q
    return lift(g, p)


@model('std::iter::operator*', 'std::iter::operator->')
def m_itderef(I, d, o, a, e):
    return it_deref(I, I.load(o))


@model('std::iter::operator++', 'std::iter::operator--')
def m_itinc(I, d, o, a, e):
    v = I.load(o)
    I.store(o, I.ptradd(v, ONE if d.name.endswith('++') else N(-1)))
    if len(a) == 1:
        return v
    return o


@model('std::iter::operator+', 'std::iter::operator-', '__gnu_cxx::operator-', '__gnu_cxx::operator+')
def m_itadd(I, d, o, a, e):
    if o is None:
        x, y = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
        if I.strip(d.ps[0]).k == 'int':
            return I.ptradd(y, x)
    else:
        x, y = I.load(o), ldarg(I, d, a, 0)
    pt = I.strip(d.ps[-1])
    if pt.k == 'int':
        return I.ptradd(x, y if d.name.endswith('+') else tm.ineg(y))
    return I.ptrdiff(x, y)


@model('std::iter::operator+=', 'std::iter::operator-=')
def m_itaddeq(I, d, o, a, e):
    y = ldarg(I, d, a, 0)
    I.store(o, I.ptradd(I.load(o), y if d.name.endswith('+=') else tm.ineg(y)))
    return o


@model('std::iter::operator[]')
def m_itidx(I, d, o, a, e):
    return it_deref(I, I.ptradd(I.load(o), ldarg(I, d, a, 0)))


@model('__gnu_cxx::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator<', 'std::__detail::operator!=',
       'std::__detail::operator==', 'std::iter::operator!=', 'std::iter::operator==', '__gnu_cxx::operator>',
       '__gnu_cxx::operator<=', '__gnu_cxx::operator>=')
def m_itcmp(I, d, o, a, e):
    if o is not None:
        x, y = I.load(o), ldarg(I, d, a, 0)
    else:
        x, y = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    return I.ptrcmp(d.name.split('operator')[-1], x, y)


@model('std::distance')
def m_distance(I, d, o, a, e):
    x, y = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    if x.op == 'mit' and y.op == 'mit':
        return isub(y.a[2], x.a[2])
    return I.ptrdiff(y, x)


@model('std::next', 'std::prev')
def m_next(I, d, o, a, e):
    k = ldarg(I, d, a, 1) if len(a) > 1 else ONE
    return I.ptradd(ldarg(I, d, a, 0), k if d.name.endswith('next') else tm.ineg(k))


@model('std::advance')
def m_advance(I, d, o, a, e):
    I.store(a[0], I.ptradd(I.load(a[0]), ldarg(I, d, a, 1)))
    return UNDEF


def cbegin(I, o, ty):
    I.fixed(o, ty)
    n = ty.n if ty is not None and ty.k == 'rec' else None
    if n in MAPS:
        m = I.load(o)
        return t('mit', o, keys(I, m), ZERO, 'set' if 'set' in n else 'map')
    return sub(o, ('i', ZERO))


def cend(I, o, ty):
    n = ty.n if ty is not None and ty.k == 'rec' else None
    if n in MAPS:
        m = I.load(o)
        k = keys(I, m)
        return t('mit', o, k, vlen(k), 'set' if 'set' in n else 'map')
    if ty is not None and ty.k == 'arr':
        return sub(o, ('i', N(ty.n)))
    if n == 'std::array':
        return sub(o, ('i', N(int(ty.a[1]['v']))))
    return sub(o, ('i', vlen(I.load(o))))


def keys(I, m):
    """keys in order of iteration; the unspecified order of the standard containers is taken to be that of the keys"""
    def order(k):
        if k.op == 'int':
            return (0, k.a[0])
        if k.op == 'rec' and all(v.op == 'int' for _, v in k.a[1]):
            return (1,) + tuple(v.a[0] for _, v in k.a[1])
        if k.op == 'str':
            return (2, k.a[0])
        if k.op == 'alloc':
            v = tm.hsel(I.env['#H'], k)
            if v.op == 'rec':
                for f, x in v.a[1]:
                    if f.endswith('::key') and x.op == 'rec' and all(y.op == 'int' for _, y in x.a[1]):
                        return (3,) + tuple(y.a[0] for _, y in x.a[1])
        return None

    def g(a):
        if a.op == 'mempty':
            return EMPTY
        r = tm.ground(a)
        if r is not None:
            ks = [k for k, _ in r]
            os_ = [order(k) for k in ks]
            if all(x is not None for x in os_):
                ks = [k for _, k in sorted(zip(os_, ks), key=lambda z: z[0])]
            return tm.vlit(*ks)
        return t('keys', a)
    return lift(g, m)


for _c in ('vector', 'string', 'map', 'set', 'array', 'ilist', 'deque'):
    for _m in ('begin', 'cbegin'):
        H['std::%s::%s' % (_c, _m)] = lambda I, d, o, a, e: cbegin(I, o, d.rect)
    for _m in ('end', 'cend'):
        H['std::%s::%s' % (_c, _m)] = lambda I, d, o, a, e: cend(I, o, d.rect)


@model('std::begin', 'std::cbegin')
def m_begin(I, d, o, a, e):
    return cbegin(I, a[0], I.strip(d.ps[0]))


@model('std::end', 'std::cend')
def m_end(I, d, o, a, e):
    return cend(I, a[0], I.strip(d.ps[0]))


@model('std::size')
def m_size_free(I, d, o, a, e):
    ty = I.strip(d.ps[0])
    return N(ty.n) if ty.k == 'arr' else vlen(I.load(a[0]))


@model('std::data')
def m_data_free(I, d, o, a, e):
    return sub(a[0], ('i', ZERO))


# ------------------------------------------------------------------ sequences
@model('std::vector::size', 'std::string::size', 'std::string::length', 'std::array::size', 'std::ilist::size', 'std::deque::size')
def m_size(I, d, o, a, e):
    if d.rect is not None and d.rect.n == 'std::array':
        return N(int(d.rect.a[1]['v']))
    return vlen(I.load(o))


@model('std::vector::empty', 'std::string::empty', 'std::deque::empty')
def m_empty(I, d, o, a, e):
    return ieq(vlen(I.load(o)), ZERO)


@model('std::vector::reserve', 'std::string::reserve', 'std::vector::shrink_to_fit', 'std::string::shrink_to_fit', 'std::map::reserve',
       'std::map::rehash', 'std::set::reserve')
def m_nop(I, d, o, a, e):
    return UNDEF


@model('std::vector::capacity', 'std::vector::max_size', 'std::string::max_size')
def m_cap(I, d, o, a, e):
    return unk('capacity')


@model('std::vector::operator[]', 'std::string::operator[]', 'std::array::operator[]', 'std::deque::operator[]')
def m_index(I, d, o, a, e):
    i = ldarg(I, d, a, 0)
    bounds(I, d, o, i)
    return sub(o, ('i', i))


def bounds(I, d, o, i, what='index'):
    if I.safe:
        n = size_of(I, d, o)
        # the terminator of a string may be read
        hi = ile(i, n) if d.rect is not None and 'string' in d.rect.n else ilt(i, n)
        I.oob(not_(and_(ile(ZERO, i), hi)), what)


def size_of(I, d, o):
    ty = d.rect
    if ty is not None and ty.n == 'std::array' and len(ty.a) > 1 and isinstance(ty.a[1], dict):
        return N(int(ty.a[1].get('v') or 0))
    return vlen(I.load(o))


@model('std::vector::at', 'std::string::at', 'std::array::at')
def m_at(I, d, o, a, e):
    i = ldarg(I, d, a, 0)
    n = m_size(I, d, o, a, e)
    I.throw(not_(and_(ile(ZERO, i), ilt(i, n))), 'out_of_range')
    return sub(o, ('i', i))


@model('std::vector::front', 'std::string::front', 'std::array::front')
def m_front(I, d, o, a, e):
    bounds(I, d, o, ZERO, 'front')
    return sub(o, ('i', ZERO))


@model('std::vector::back', 'std::string::back', 'std::array::back')
def m_back(I, d, o, a, e):
    if I.safe:
        I.oob(ilt(size_of(I, d, o), ONE), 'back')
    return sub(o, ('i', isub(m_size(I, d, o, a, e), ONE)))


@model('std::vector::data', 'std::string::data', 'std::string::c_str', 'std::array::data')
def m_data(I, d, o, a, e):
    I.fixed(o, d.rect)
    return sub(o, ('i', ZERO))


def append(I, o, s):
    I.store(o, vcat(I.load(o), s))


@model('std::vector::push_back', 'std::string::push_back')
def m_push(I, d, o, a, e):
    pt = d.ps[0]
    v = I.load(a[0], pt.t) if pt.k == 'ref' else a[0]
    if pt.k == 'ref' and pt.t.k == 'rec' and pt.t.n in I.p.recs and not pt.rv:
        v = I.copy_any(a[0], pt.t)
    append(I, o, tm.vlit(v))
    return UNDEF


@model('std::vector::emplace_back')
def m_emplace(I, d, o, a, e):
    et = d.rect.a[0]
    ptrs = [x if pt.k == 'ref' else I.tempv(x) for x, pt in zip(a, d.ps)]
    v = I.make(et, ptrs, [I.strip(p) for p in d.ps])
    if I.pc is FALSE:
        return UNDEF
    append(I, o, tm.vlit(v))
    return sub(o, ('i', isub(vlen(I.load(o)), ONE)))


@model('std::vector::pop_back', 'std::string::pop_back')
def m_pop(I, d, o, a, e):
    s = I.load(o)
    if I.safe:
        I.oob(ilt(vlen(s), ONE), 'pop_back')
    I.store(o, vslice(s, ZERO, isub(vlen(s), ONE)))
    return UNDEF


@model('std::vector::clear')
def m_clear(I, d, o, a, e):
    I.store(o, EMPTY)
    return UNDEF


@model('std::string::clear')
def m_clears(I, d, o, a, e):
    I.store(o, EMPTYSTR)
    return UNDEF


@model('std::vector::resize', 'std::string::resize')
def m_resize(I, d, o, a, e):
    n = ldarg(I, d, a, 0)
    s = I.load(o)
    et = d.rect.a[0]
    x = ldarg(I, d, a, 1) if len(a) > 1 else I.value_init(et)

    def g(z, k):
        if z is EMPTY or (z.op == 'str' and z.a[0] == ''):
            return tm.vrep(k, x)
        ln = vlen(z)
        if ln is k:
            return z
        return ite(ile(k, ln), vslice(z, ZERO, k), vcat(z, tm.vrep(isub(k, ln), x)))
    I.store(o, lift(g, s, n))
    return UNDEF


@model('std::vector::assign', 'std::string::assign')
def m_assign(I, d, o, a, e):
    ats = [I.strip(p) for p in d.ps]
    ptrs = [x if pt.k == 'ref' else I.tempv(x) for x, pt in zip(a, d.ps)]
    I.store(o, make_seq(I, d.rect, ptrs, ats))
    return o


@model('std::vector::operator=', 'std::string::operator=', 'std::map::operator=', 'std::array::operator=', 'std::set::operator=',
       'std::optional::operator=', 'std::pair::operator=', 'std::function::operator=', 'std::deque::operator=',
       'std::iter::operator=', 'std::riter::operator=')
def m_seqasg(I, d, o, a, e):
    pt = d.ps[0]
    st = I.strip(pt)
    if d.rect.n == 'std::basic_string' and st.k in ('ptr', 'arr'):
        v = cstr(I, a[0] if pt.k != 'ref' else I.load(a[0]))
    elif d.rect.n == 'std::optional' and not (st.k == 'rec' and st.n == 'std::optional'):
        if st.k == 'rec' and st.n == 'std::nullopt_t':
            v = rec('std::optional', (('has', FALSE), ('val', UNDEF)))
        else:
            v = rec('std::optional', (('has', TRUE), ('val', ldarg(I, d, a, 0))))
    elif d.rect.n in MAPS and st.k == 'rec' and st.n == 'std::initializer_list':
        v = map_from(I, ldarg(I, d, a, 0), d.rect.n)
    else:
        v = I.load(a[0], st) if pt.k == 'ref' else a[0]
    I.store(o, v)
    return o


@model('std::vector::insert', 'std::string::insert')
def m_insert(I, d, o, a, e):
    pos = ldarg(I, d, a, 0)
    s = I.load(o)
    ps = [I.strip(x) for x in d.ps]
    if pos.op == 'sub':
        k = pos.a[1][-1][1]
    elif ps[0].k == 'int':
        k = pos
    else:
        return unk('insert position')
    if len(a) == 2:
        if ps[1].k == 'rec' and ps[1].n in ('std::initializer_list',) or (d.rect.n == 'std::basic_string' and ps[1].k == 'rec'):
            x = ldarg(I, d, a, 1)
        elif d.rect.n == 'std::basic_string' and ps[1].k == 'ptr':
            x = cstr(I, a[1])
        else:
            x = tm.vlit(ldarg(I, d, a, 1))
    else:
        if ps[1].k == 'int':
            x = tm.vrep(ldarg(I, d, a, 1), ldarg(I, d, a, 2))
        else:
            x = rangeseq(I, ldarg(I, d, a, 1), ldarg(I, d, a, 2))
    ln = vlen(s)
    if k is ln:
        r = vcat(s, x)
    elif k is ZERO:
        r = vcat(x, s)
    else:
        r = vcat(vcat(vslice(s, ZERO, k), x), vslice(s, k, isub(ln, k)))
    I.store(o, r)
    return sub(o, ('i', k))


@model('std::vector::erase', 'std::string::erase')
def m_erase(I, d, o, a, e):
    s = I.load(o)
    ps = [I.strip(x) for x in d.ps]
    p = ldarg(I, d, a, 0)
    if ps[0].k == 'int':
        k = p
        n = ldarg(I, d, a, 1) if len(a) > 1 else isub(vlen(s), k)
    else:
        if p.op != 'sub':
            return unk('erase')
        k = p.a[1][-1][1]
        n = ONE if len(a) == 1 else I.ptrdiff(ldarg(I, d, a, 1), p)
    ln = vlen(s)
    I.store(o, vcat(vslice(s, ZERO, k), vslice(s, iadd(k, n), isub(ln, iadd(k, n)))))
    return sub(o, ('i', k))


def streq(I, x, y, d, ti, tj):
    return veq(x, y)


def seqval(I, p, ty):
    ty2 = I.strip(ty)
    v = I.load(p, ty2) if ty.k == 'ref' else p
    if ty2.k == 'ptr':
        return cstr(I, v)
    if ty2.k == 'arr':
        return cstr(I, sub(p, ('i', ZERO)))
    return v


@model('std::operator==', 'std::operator!=')
def m_eq(I, d, o, a, e):
    x, y = seqval(I, a[0], d.ps[0]), seqval(I, a[1], d.ps[1])
    t0, t1 = I.strip(d.ps[0]), I.strip(d.ps[1])
    if t0.k == 'rec' and t0.n in PTRS or t1.k == 'rec' and t1.n in PTRS:
        r = I.ptrcmp('==', x, y)
    elif t0.k == 'rec' and t0.n == 'std::optional':
        if t1.k == 'rec' and t1.n == 'std::optional':
            r = ite(fld(x, 'has'), and_(fld(y, 'has'), veq(fld(x, 'val'), fld(y, 'val'))), not_(fld(y, 'has')))
        else:
            r = and_(fld(x, 'has'), veq(fld(x, 'val'), y))
    elif t0.k == 'rec' and t0.n == 'std::vector' and t0.a[0].k == 'rec' and t0.a[0].n in I.p.recs:
        r = vec_eq(I, a[0], a[1], t0.a[0])
    elif t0.k == 'rec' and 'iterator' in t0.n:
        r = I.ptrcmp('==', x, y)
    elif t0.k == 'rec' and t0.n == 'std::pair':
        r = veq(x, y)
    else:
        r = veq(x, y)
    return r if d.name.endswith('==') else not_(r)


def vec_eq(I, p, q, et):
    eqd = None
    for c in I.p.byname.get('%s::operator==' % et.n, []) + [i for n, ids in I.p.byname.items() if n.endswith('operator==') for i in ids]:
        dd = I.p.decls[c]
        ps = ([dd.rect] if dd.rect is not None and not dd.static and len(dd.ps) == 1 else []) + [I.strip(x) for x in dd.ps]
        if len(ps) == 2 and all(x is not None and x.k == 'rec' and x.n == et.n for x in ps) and c in I.p.funcs:
            eqd = dd
            break
    x, y = I.load(p), I.load(q)
    if eqd is None:
        return veq(x, y)
    import loops
    n = vlen(x)
    same = ieq(n, vlen(y))
    out = loops.exists_call(I, n, lambda i: not_(I.invoke(eqd, sub(p, ('i', i)) if len(eqd.ps) == 1 else None,
                                                          ([] if len(eqd.ps) == 1 else [sub(p, ('i', i))]) + [sub(q, ('i', i))], None)))
    return and_(same, not_(out))


@model('std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=')
def m_lt(I, d, o, a, e):
    x, y = seqval(I, a[0], d.ps[0]), seqval(I, a[1], d.ps[1])
    t0 = I.strip(d.ps[0])
    op = d.name.split('operator')[-1]
    if op in ('>', '<='):
        x, y = y, x
    r = atom(t('slt', x, y)) if x is not y else FALSE
    return r if op in ('<', '>') else not_(r)


@model('std::operator+', 'std::string::operator+=', 'std::string::append')
def m_cat(I, d, o, a, e):
    def one(p, ty):
        ty2 = I.strip(ty)
        if ty2.k == 'int':
            return tm.vlit(ldv(I, p, ty))
        return seqval(I, p, ty)
    if o is not None:
        if len(a) == 2:
            ats = [I.strip(p) for p in d.ps]
            x = make_seq(I, d.rect, [q if pt.k == 'ref' else I.tempv(q) for q, pt in zip(a, d.ps)], ats)
        else:
            x = one(a[0], d.ps[0])
        I.store(o, vcat(I.load(o), x))
        return o
    return vcat(one(a[0], d.ps[0]), one(a[1], d.ps[1]))


def ldv(I, p, ty):
    return I.load(p, ty.t) if ty.k == 'ref' else p


@model('std::string::substr')
def m_substr(I, d, o, a, e):
    s = I.load(o)
    off = ldarg(I, d, a, 0)
    n = ldarg(I, d, a, 1) if len(a) > 1 else None
    ln = vlen(s)
    I.throw(ilt(ln, off), 'out_of_range')
    rem = isub(ln, off)
    if n is None:
        return vslice(s, off, rem)
    return vslice(s, off, ite(ile(n, rem), n, rem))


def pystr(v):
    """the text of a literal string"""
    if v.op == 'str':
        return v.a[0]
    if v.op == 'vlit' and all(c.op == 'int' for c in v.a[0]):
        return ''.join(chr(c.a[0] & 255) for c in v.a[0])
    return None


@model('std::string::find', 'std::string::rfind', 'std::string::compare', 'std::string::find_first_of')
def m_find(I, d, o, a, e):
    vs = tuple(seqval(I, x, pt) if I.strip(pt).k in ('rec', 'ptr') else ldv(I, x, pt) for x, pt in zip(a, d.ps))
    s = I.load(o)
    k = d.name.split('::')[-1]
    if k == 'compare' and (len(a) == 1 or len(a) == 3 and I.strip(d.ps[2]).k in ('rec', 'ptr')):
        if len(a) == 3:
            off, n = vs[0], vs[1]
            ln = vlen(s)
            I.throw(ilt(ln, off), 'out_of_range')
            rem = isub(ln, off)
            s = vslice(s, off, ite(ile(n, rem), n, rem))
        x = vs[-1]
        p, q = pystr(s), pystr(x)
        if p is not None and q is not None:
            return tm.I((p > q) - (p < q))
        return ite(veq(s, x), ZERO, ite(atom(t('slt', s, x)), tm.I(-1), ONE))
    if k in ('find', 'rfind') and I.strip(d.ps[0]).k in ('rec', 'ptr') and (len(a) == 1 or len(a) == 2 and vs[1].op == 'int'):
        p, q = pystr(s), pystr(vs[0])
        if p is not None and q is not None:
            at = (vs[1].a[0],) if len(a) == 2 else ()
            r = p.find(q, *at) if k == 'find' else p.rfind(q) if not at or at[0] >= len(p) else p.rfind(q, 0, at[0] + len(q))
            if r >= 0:
                return tm.I(r)
    r = t('call', d.name, s, vs)
    tm.note_range(r, -1, 1 << 62)
    return r


# ------------------------------------------------------------------ maps and sets
@model('std::map::size', 'std::set::size')
def m_msize(I, d, o, a, e):
    return vlen(keys(I, I.load(o)))


@model('std::map::empty', 'std::set::empty')
def m_mempty(I, d, o, a, e):
    return ieq(vlen(keys(I, I.load(o))), ZERO)


@model('std::map::clear', 'std::set::clear')
def m_mclear(I, d, o, a, e):
    I.store(o, EMPTYMAP)
    return UNDEF


def mkey(I, d, a, i):
    return I.reify_key(ldarg(I, d, a, i)) if hasattr(I, 'reify_key') else ldarg(I, d, a, i)


@model('std::map::operator[]')
def m_mindex(I, d, o, a, e):
    k = mkey(I, d, a, 0)
    m = I.load(o)
    vt = d.rect.a[1]
    has = I.under_pc(tm.mhas(m, k))
    if has is not TRUE:
        v = I.value_init(vt)
        I.store(o, I.merge(has, m, tm.mput(m, k, v)) if has is not FALSE else tm.mput(m, k, v))
    return sub(o, ('k', k))


@model('std::map::at')
def m_mat(I, d, o, a, e):
    k = mkey(I, d, a, 0)
    I.throw(not_(tm.mhas(I.load(o), k)), 'out_of_range')
    return sub(o, ('k', k))


@model('std::map::count', 'std::set::count')
def m_mcount(I, d, o, a, e):
    return ite(tm.mhas(I.load(o), mkey(I, d, a, 0)), ONE, ZERO)


@model('std::map::contains', 'std::set::contains')
def m_mcontains(I, d, o, a, e):
    return tm.mhas(I.load(o), mkey(I, d, a, 0))


@model('std::map::find', 'std::set::find')
def m_mfind(I, d, o, a, e):
    k = mkey(I, d, a, 0)
    return t('mfind', o, I.load(o), k, 'set' if 'set' in d.rect.n else 'map')


@model('std::map::insert', 'std::map::emplace', 'std::map::try_emplace', 'std::map::insert_or_assign')
def m_minsert(I, d, o, a, e):
    m = I.load(o)
    nm = d.name.split('::')[-1]
    kt, vt = d.rect.a[0], d.rect.a[1]
    if nm in ('insert',) or (nm == 'emplace' and len(a) == 1):
        if len(a) == 2:
            return unk('range insert')
        pt = I.strip(d.ps[0])
        x = ldarg(I, d, a, 0)
        if pt.k == 'rec' and pt.n == 'std::initializer_list':
            return unk('list insert')
        k, v = fld(x, 'first'), fld(x, 'second')
        k, v = I.typed(k, kt), I.typed(v, vt)
    else:
        ptrs = [x if pt.k == 'ref' else I.tempv(x) for x, pt in zip(a, d.ps)]
        ats = [I.strip(p) for p in d.ps]
        k = I.make(kt, [ptrs[0]], [ats[0]])
        v = I.make(vt, ptrs[1:], ats[1:])
    if nm == 'insert_or_assign':
        I.store(o, tm.mput(m, k, v))
        return UNDEF
    has = tm.mhas(m, k)
    I.store(o, I.merge(has, m, tm.mput(m, k, v)) if has is not FALSE else tm.mput(m, k, v))
    return rec('std::pair', (('first', t('mfind', o, I.load(o), k, 'map')), ('second', not_(has))))


@model('std::set::insert', 'std::set::emplace')
def m_sinsert(I, d, o, a, e):
    m = I.load(o)
    if len(a) == 2:
        return unk('range insert')
    pt = I.strip(d.ps[0])
    x = ldarg(I, d, a, 0)
    has = tm.mhas(m, x)
    I.store(o, I.merge(has, m, tm.mput(m, x, TRUE)) if has is not FALSE else tm.mput(m, x, TRUE))
    return rec('std::pair', (('first', t('mfind', o, I.load(o), x, 'set')), ('second', not_(has))))


@model('std::map::erase', 'std::set::erase')
def m_merase(I, d, o, a, e):
    m = I.load(o)
    x = ldarg(I, d, a, 0)

    def g(z):
        if z.op == 'mfind':
            return z.a[2]
        if z.op == 'mit':
            return velem(z.a[1], z.a[2])
        return z
    k = lift(g, x)
    had = tm.mhas(m, k)
    I.store(o, tm.mdel(m, k))
    if d.ret is not None and d.ret.k == 'int':
        return ite(had, ONE, ZERO)
    return UNDEF


# ------------------------------------------------------------------ pair / tuple / optional / function
@model('std::make_pair')
def m_mkpair(I, d, o, a, e):
    return rec('std::pair', (('first', ldarg(I, d, a, 0)), ('second', ldarg(I, d, a, 1))))


@model('std::make_tuple', 'std::tie', 'std::forward_as_tuple')
def m_mktuple(I, d, o, a, e):
    return rec('std::tuple', [(str(i), ldarg(I, d, a, i)) for i in range(len(a))])


@model('std::get')
def m_get(I, d, o, a, e):
    ty = I.strip(d.ps[0])
    i = int((d.targs or ['0'])[0])
    if ty.n == 'std::pair':
        return sub(a[0], ('f', ('first', 'second')[i]))
    if ty.n == 'std::array':
        return sub(a[0], ('i', N(i)))
    return sub(a[0], ('f', str(i)))


@model('std::optional::operator*', 'std::optional::operator->')
def m_optderef(I, d, o, a, e):
    return sub(o, ('f', 'val'))


@model('std::optional::value')
def m_optvalue(I, d, o, a, e):
    I.throw(not_(I.tobool(I.load(sub(o, ('f', 'has'))))), 'bad_optional')
    return sub(o, ('f', 'val'))


@model('std::optional::has_value', 'std::optional::#conv', 'std::optional::_M_is_engaged')
def m_opthas(I, d, o, a, e):
    return I.tobool(I.load(sub(o, ('f', 'has'))))


@model('std::optional::value_or')
def m_optor(I, d, o, a, e):
    x = I.load(o, d.rect)
    return ite(fld(x, 'has'), fld(x, 'val'), ldarg(I, d, a, 0))


@model('std::optional::reset')
def m_optreset(I, d, o, a, e):
    I.store(o, rec('std::optional', (('has', FALSE), ('val', UNDEF))))
    return UNDEF


@model('std::function::operator()')
def m_fncall(I, d, o, a, e):
    f = I.load(o)
    ptrs = [x if pt.k == 'ref' else I.tempv(x) for x, pt in zip(a, d.ps)]
    return I.call_value(f, ptrs)


@model('std::function::#conv')
def m_fnbool(I, d, o, a, e):
    return not_(I.ptrcmp('==', I.load(o), NULL)) if I.load(o).op not in ('closure', 'fnref') else TRUE


# ------------------------------------------------------------------ memory functions
@model('memcpy', 'std::memcpy', 'memmove', 'std::memmove')
def m_memcpy(I, d, o, a, e):
    put_bytes(I, a[0], ptrseq(I, a[1], a[2]), a[2])
    return a[0]


@model('memset', 'std::memset')
def m_memset(I, d, o, a, e):
    p, v, n = a
    if v is ZERO:
        def g(q):
            if q.op == 'bytes' and n.op == 'int' and n.a[0] == q.a[2]:
                k = q.a[1]
                z = F(0.0) if k[0] == 'f' else FALSE if k == 'bool' else ZERO
                if k.startswith('arr'):
                    cur = I.load(q.a[0])
                    z = tm.vrep(vlen(cur), ZERO)
                I.store(q.a[0], z)
                return TRUE
            return FALSE
        if p.op == 'bytes' and g(p) is TRUE:
            return p
    put_bytes(I, p, tm.vrep(n, tm.wrap(8, False, v)), n)
    return p


def put_bytes(I, p, s, n):
    """store the byte sequence s (length n) at pointer p"""
    if I.safe:
        I.access(p, n, 'write of a range')
        if I.pc is FALSE:
            return
    put_at(I, p, s, n)


def put_at(I, p, s, n):
    if p.op == 'ite':
        for q in leaves(p):
            c = I.ptr_is(p, q)
            b = split(q.a[0] if q.op == 'bytes' else q)[0]
            old = I.getroot(b)
            put_at(I, q, s, n)
            I.setroot(b, I.merge(c, I.getroot(b), old))
        return
    if p.op == 'bytes':
        q, kind, size = p.a
        if elements(q, kind, size, n):
            for i in range(n.a[0] // size):
                I.store(I.ptradd(q, N(i)), dec(I, vslice(s, N(i * size), N(size)), kind, size))
            return
        if n.op == 'int' and n.a[0] == size:
            if kind.startswith('arr'):
                ek, es = kind.split(':')[1], int(kind.split(':')[2])
                cnt = size // es
                I.store(q, t('vlit', tuple(dec(I, vslice(s, N(i * es), N(es)), ek, es) for i in range(cnt)))
                        if cnt <= 64 else t('decarr', kind, s))
            else:
                I.store(q, dec(I, s, kind, size))
            return
        I.store(q, t('partial', kind, s, n, I.load(q)))
        return
    if p.op == 'sub' and p.a[1][-1][0] == 'i':
        base = t('sub', p.a[0], p.a[1][:-1]) if len(p.a[1]) > 1 else p.a[0]
        i = p.a[1][-1][1]
        cur = I.load(base)
        ln = vlen(cur)
        if i is ZERO and ln is n:
            I.store(base, s)
            return
        I.store(base, splice(cur, i, n, s))
        return
    I.store(p, t('partial', 'raw', s, n, I.load(p)))


def splice(cur, i, n, s):
    def g(c, j, k):
        if c.op == 'vlit' and j.op == 'int' and k.op == 'int' and s.op == 'vlit' and len(s.a[0]) == k.a[0]:
            xs = list(c.a[0])
            xs[j.a[0]:j.a[0] + k.a[0]] = s.a[0]
            return t('vlit', tuple(xs))
        if c.op == 'splice' and c.a[1] is j and c.a[2] is k:
            return t('splice', c.a[0], j, k, s)
        return t('splice', c, j, k, s)
    return lift(g, cur, i, n)


@model('memcmp', 'std::memcmp')
def m_memcmp(I, d, o, a, e):
    x, y = ptrseq(I, a[0], a[2]), ptrseq(I, a[1], a[2])
    return ite(veq(x, y), ZERO, ONE)


@model('strcmp', 'std::strcmp')
def m_strcmp(I, d, o, a, e):
    return ite(veq(cstr(I, a[0]), cstr(I, a[1])), ZERO, ONE)


@model('strlen', 'std::strlen')
def m_strlen(I, d, o, a, e):
    return vlen(cstr(I, a[0]))


@model('strncpy', 'std::strncpy')
def m_strncpy(I, d, o, a, e):
    s = cstr(I, a[1])
    put_bytes(I, a[0], t('padcopy', s, a[2]), a[2])
    return a[0]


@model('strcpy', 'std::strcpy')
def m_strcpy(I, d, o, a, e):
    s = cstr(I, a[1])
    put_bytes(I, a[0], vcat(s, tm.vlit(ZERO)), iadd(vlen(s), ONE))
    return a[0]


@model('strnlen')
def m_strnlen(I, d, o, a, e):
    r = t('strnlen', ptrseq(I, a[0], a[1]))
    tm.note_range(r, 0, tm.rng(a[1])[1])
    return r


# ------------------------------------------------------------------ algorithms
@model('std::fill')
def m_fill(I, d, o, a, e):
    p, q = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    n = tm.ineg(I.ptrdiff(p, q))
    put_bytes(I, p, tm.vrep(n, convarg(I, d, a, 2, p)), n)
    return UNDEF


def convarg(I, d, a, i, p):
    return ldarg(I, d, a, i)


@model('std::fill_n')
def m_filln(I, d, o, a, e):
    p, n = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    v = ldarg(I, d, a, 2)
    return emit(I, p, tm.vrep(n, tm.wrap(8, True, v) if p.op == 'oiter' and p.a[1] == 'char' else v), n)


def emit(I, out, s, n):
    """write sequence s to an output iterator"""
    if out.op == 'binserter':
        append(I, out.a[0], s)
        return out
    if out.op == 'oiter':
        if out.a[1] == 'char':
            log_append(I, out.a[0], s, n)
        else:
            log_append(I, out.a[0], tm.vlit(t('txts', s)))
        return out
    put_bytes(I, out, s, n)
    return I.ptradd(out, n)


@model('std::back_inserter', 'std::inserter')
def m_binserter(I, d, o, a, e):
    return t('binserter', a[0])


@model('std::copy', 'std::copy_n', 'std::uninitialized_copy')
def m_copy(I, d, o, a, e):
    p = ldarg(I, d, a, 0)
    if d.name.endswith('_n'):
        n = ldarg(I, d, a, 1)
    else:
        q = ldarg(I, d, a, 1)
        if p.op == 'mit':
            s = rangeseq(I, p, q)
            return emit(I, ldarg(I, d, a, 2), s, vlen(s))
        n = tm.ineg(I.ptrdiff(p, q))
    s = ptrseq(I, p, n)
    return emit(I, ldarg(I, d, a, 2), s, n)


@model('std::for_each')
def m_foreach(I, d, o, a, e):
    import loops
    p, q, f = ldarg(I, d, a, 0), ldarg(I, d, a, 1), ldarg(I, d, a, 2)
    loops.for_range(I, p, q, lambda it: I.call_value(f, [it_deref(I, it)]))
    return f


@model('std::copy_if', 'std::remove_copy_if')
def m_copyif(I, d, o, a, e):
    import loops
    p, q, out, f = [ldarg(I, d, a, i) for i in range(4)]
    neg = 'remove' in d.name
    if out.op != 'binserter':
        return unk('std::copy_if')
    filtered(I, p, q, f, neg, out.a[0])
    return out


def filtered(I, p, q, f, neg, dst):
    import loops

    def body(it):
        c = I.tobool(I.call_value(f, [it_deref(I, it)]))
        old = I.load(dst)
        append(I, dst, tm.vlit(I.load(it_deref(I, it))))
        c = not_(c) if neg else c
        I.store(dst, ite(c, I.load(dst), old))
    loops.for_range(I, p, q, body)


@model('std::remove_if')
def m_removeif(I, d, o, a, e):
    p, q, f = [ldarg(I, d, a, i) for i in range(3)]
    if p.op != 'sub' or p.a[1][-1][0] != 'i' or p.a[1][-1][1] is not ZERO:
        return unk('std::remove_if')
    base = t('sub', p.a[0], p.a[1][:-1]) if len(p.a[1]) > 1 else p.a[0]
    src = I.load(base)
    if rlen(I, p, q) is not vlen(src):
        return unk('std::remove_if')
    uid = I.uid('tmp')
    I.env[uid] = EMPTY
    r = root(uid)
    I.frames[-1].roots.append(uid)
    filtered(I, p, q, f, True, r)
    kept = I.load(r)
    rest = t('call', d.name, UNDEF, (src, kept))
    tm_len(rest, isub(vlen(src), vlen(kept)))
    I.store(base, vcat(kept, rest))
    return I.ptradd(p, vlen(kept))


@model('std::transform')
def m_transform(I, d, o, a, e):
    import loops
    A = [ldarg(I, d, a, i) for i in range(len(a))]
    if len(A) == 4:
        p, q, out, f = A
        body = lambda it, k: I.call_value(f, [it_deref(I, it)])
    else:
        p, q, p2, out, f = A
        body = lambda it, k: I.call_value(f, [it_deref(I, it), it_deref(I, I.ptradd(p2, k))])
    if out.op == 'binserter':
        loops.for_range_k(I, p, q, lambda it, k: append(I, out.a[0], tm.vlit(body(it, k))))
    else:
        loops.for_range_k(I, p, q, lambda it, k: I.store(it_deref(I, I.ptradd(out, k)), body(it, k)))
    return UNDEF


@model('std::any_of', 'std::all_of', 'std::none_of')
def m_anyof(I, d, o, a, e):
    import loops
    p, q, f = ldarg(I, d, a, 0), ldarg(I, d, a, 1), ldarg(I, d, a, 2)
    n = rlen(I, p, q)
    neg = d.name.endswith('all_of')
    r = loops.exists_call(I, n, lambda i: (not_ if neg else (lambda z: z))(I.tobool(I.call_value(f, [it_deref(I, I.ptradd(p, i))]))))
    return r if d.name.endswith('any_of') else not_(r)


def rlen(I, p, q):
    if p.op == 'mit':
        return isub(q.a[2], p.a[2])
    return tm.ineg(I.ptrdiff(p, q))


@model('std::find_if', 'std::find', 'std::find_if_not')
def m_findif(I, d, o, a, e):
    import loops
    p, q = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    n = rlen(I, p, q)
    if d.name.endswith('find'):
        x = ldarg(I, d, a, 2)
        et = I.strip(d.ps[2])
        c = rangeseq(I, p, q)
        if c.op == 'padcopy' and x is ZERO:
            # a copied C string ends where it ended
            ln = vlen(c.a[0])
            tm.note_range(ln, 0, 1 << 31)
            return I.ptradd(p, ite(ile(ln, n), ln, n))
        f = lambda i: veq(I.load(it_deref(I, I.ptradd(p, i)), et), x)
    else:
        g = ldarg(I, d, a, 2)
        f = lambda i: I.tobool(I.call_value(g, [it_deref(I, I.ptradd(p, i))]))
        if d.name.endswith('not'):
            f0 = f
            f = lambda i: not_(f0(i))
    k = loops.first_call(I, n, f)
    return I.ptradd(p, k)


@model('std::count_if', 'std::count')
def m_countif(I, d, o, a, e):
    import loops
    p, q = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    uid = I.uid('tmp')
    I.env[uid] = ZERO
    r = root(uid)
    I.frames[-1].roots.append(uid)

    def body(it):
        if d.name.endswith('_if'):
            c = I.tobool(I.call_value(ldarg(I, d, a, 2), [it_deref(I, it)]))
        else:
            c = veq(I.load(it_deref(I, it), I.strip(d.ps[2])), ldarg(I, d, a, 2))
        I.store(r, iadd(I.load(r), ite(c, ONE, ZERO)))
    loops.for_range(I, p, q, body)
    return I.load(r)


@model('std::accumulate')
def m_accumulate(I, d, o, a, e):
    import loops
    p, q, z = ldarg(I, d, a, 0), ldarg(I, d, a, 1), ldarg(I, d, a, 2)
    uid = I.uid('tmp')
    I.env[uid] = z
    r = root(uid)
    I.frames[-1].roots.append(uid)
    ty = I.strip(d.ps[2])

    def body(it):
        if len(a) == 4:
            v = I.call_value(ldarg(I, d, a, 3), [r, it_deref(I, it)])
        else:
            x = I.load(it_deref(I, it), ty if ty.k != 'rec' else None)
            v = I.arith('+', I.load(r, ty), x, ty)
        I.store(r, v)
    loops.for_range(I, p, q, body)
    return I.load(r, ty)


@model('std::equal')
def m_equal(I, d, o, a, e):
    p, q, p2 = [ldarg(I, d, a, i) for i in range(3)]
    n = rlen(I, p, q)
    x, y = ptrseq(I, p, n), ptrseq(I, p2, n)
    return veq(x, y)


@model('std::sort', 'std::stable_sort', 'std::reverse', 'std::iota', 'std::unique')
def m_sort(I, d, o, a, e):
    p, q = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    n = rlen(I, p, q)
    s = ptrseq(I, p, n)
    r = t('call', d.name, UNDEF, (s,) + tuple(ldarg(I, d, a, i) for i in range(2, len(a))))
    tm_len(r, n)
    put_bytes(I, p, r, n)
    return UNDEF


def tm_len(r, n):
    tm.SEQLEN[r] = n


@model('std::min_element', 'std::max_element')
def m_minel(I, d, o, a, e):
    p, q = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    n = rlen(I, p, q)
    k = t('call', d.name, UNDEF, (ptrseq(I, p, n),) + tuple(ldarg(I, d, a, i) for i in range(2, len(a))))
    tm.note_range(k, 0, 1 << 62)
    return I.ptradd(p, k)


# ------------------------------------------------------------------ streams
def upds(I, o, **kw):
    s = I.load(o)
    if s.op == 'rec':
        pass
    else:
        s = lift(I.stream_of, s)
    for k, v in kw.items():
        s = tm.upd(s, k, v)
    I.store(o, s)


def sf(I, o, f):
    def g(x):
        if x.op != 'rec':
            x = I.stream_of(x)
        if f == 'src':
            return ite(fld(x, 'own'), fld(x, 'log'), fld(x, 'src'))
        if f == 'end':
            # where nothing better is known the end is a function of everything written
            def en(l):
                q = t('endpos', l)
                tm.note_range(q, 0, 1 << 62)
                return q
            return lift(lambda z: lift(en, fld(x, 'log')) if z.op == 'endauto' else z, fld(x, 'end'))
        return fld(x, f)
    return lift(g, I.load(o))


def log_append(I, o, s, n=None):
    if o.op == 'cout':
        return
    w, cur, end, log = sf(I, o, 'wpos'), sf(I, o, 'cur'), sf(I, o, 'end'), sf(I, o, 'log')
    if w is not cur:
        tok = t('tkx', 'seek', w, ())
        tm.TKLEN[tok] = ZERO
        sk = vcat(log, tm.vlit(tok))
        log = ite(tm.ieq(w, cur), log, sk)
    k = n if n is not None else vlen(s)
    w2 = iadd(w, k)
    log2 = vcat(log, s)
    def past(w, k, end):
        if w is end:
            return iadd(w, k)
        if tm.rng(isub(end, iadd(w, k)))[0] >= 0:
            return end
        return t('endauto')
    end2 = lift(past, w, k, end)
    upds(I, o, log=log2, wpos=w2, cur=w2, end=end2)


def ext_stream(I, o, base):
    """an external function used the stream: one opaque log entry whose size is known for the fixed-size headers"""
    name = base[0]
    obj = base[1]
    short = name.split('::')
    tok = t('tkx', '::'.join(short[-2:]), obj, base[2])
    n = EXTSIZE.get('::'.join(short[-2:]))
    if n is None and short[-1] == 'write':
        n = vlrsize('::'.join(short[:-1]), obj)
    elif n is None:
        n = t('extsize', tok)
        tm.note_range(n, 0, 1 << 62)
    else:
        n = N(n)
    tm.TKLEN[tok] = n
    if short[-1] in ('read', 'create'):
        upds(I, o, rpos=iadd(sf(I, o, 'rpos'), n))
        return
    log_append(I, o, tm.vlit(tok), n)


def vlrsize(cls, obj):
    if cls == 'lazperf::eb_vlr':
        return tm.imul(N(192), vlen(fld(obj, 'lazperf::eb_vlr::items')))
    if cls == 'lazperf::wkt_vlr':
        return vlen(fld(obj, 'lazperf::wkt_vlr::wkt'))
    if cls == 'lazperf::copc_info_vlr':
        return N(160)
    n = t('call', cls + '::size', obj, ())
    tm.note_range(n, 0, 1 << 62)
    return n


@model('lazperf::eb_vlr::size', 'lazperf::wkt_vlr::size', 'lazperf::copc_info_vlr::size')
def z_size(I, d, o, a, e):
    return vlrsize(d.name[:-6], I.load(o))


EXTSIZE = {'vlr_header::write': 54, 'evlr_header::write': 60, 'header14::write': 375, 'copc_info_vlr::write': 160,
           'vlr_header::read': 54, 'evlr_header::read': 60}


@model('std::ostream::write')
def m_write(I, d, o, a, e):
    p, n = a[0], ldarg(I, d, a, 1)
    s = ptrseq(I, p, n)
    log_append(I, o, s, n)
    return o


@model('std::ostream::put')
def m_put(I, d, o, a, e):
    log_append(I, o, tm.vlit(tm.wrap(8, False, a[0])), ONE)
    return o


def rdseq(src, pos, n):
    def g(s, p, k):
        if k is ZERO:
            return EMPTY
        if s.op in ('vlit', 'vcat', 'str', 'vflat', 'vrep') or p is ZERO and vlen(s) is k:
            return vslice(s, p, k)
        return t('rdseq', s, p, k)
    return lift(g, src, pos, n)


@model('std::istream::read')
def m_read(I, d, o, a, e):
    p, n = a[0], ldarg(I, d, a, 1)
    pos = sf(I, o, 'rpos')
    s = rdseq(sf(I, o, 'src'), pos, n)
    put_bytes(I, p, s, n)
    end = iadd(pos, n)
    if LASTRD.setdefault(end, (pos, n)) != (pos, n):
        LASTRD[end] = None
    upds(I, o, rpos=end)
    return o


# position after a read -> where it began and how many bytes it asked for
LASTRD = {}


@model('std::istream::gcount')
def m_gcount(I, d, o, a, e):
    end = sf(I, o, 'rpos')
    r = LASTRD.get(end)
    if not r:
        return t('call', d.name, o, I.load(o))
    n = available(I, o)
    return ite(ile(end, n), r[1], ite(ile(r[0], n), isub(n, r[0]), ZERO))


@model('std::istream::get')
def m_getc(I, d, o, a, e):
    pos = sf(I, o, 'rpos')
    v = velem(sf(I, o, 'src'), pos)
    upds(I, o, rpos=iadd(pos, ONE))
    if a:
        I.store(a[0], v)
        return o
    tm.note_range(v, -1, 255)
    return v


@model('std::istream::ignore')
def m_ignore(I, d, o, a, e):
    upds(I, o, rpos=iadd(sf(I, o, 'rpos'), ldarg(I, d, a, 0) if a else ONE))
    return o


@model('std::istream::seekg')
def m_seekg(I, d, o, a, e):
    p = ldarg(I, d, a, 0)
    if len(a) == 2:
        w = ldarg(I, d, a, 1)
        if w is ZERO:
            pass
        elif w is ONE:
            p = iadd(sf(I, o, 'rpos'), p)
        else:
            n = vlen(sf(I, o, 'src'))
            p = iadd(n, p)
    upds(I, o, rpos=p)
    return o


@model('std::istream::tellg')
def m_tellg(I, d, o, a, e):
    return sf(I, o, 'rpos')


@model('std::ostream::seekp')
def m_seekp(I, d, o, a, e):
    p = ldarg(I, d, a, 0)
    if len(a) == 2:
        w = ldarg(I, d, a, 1)
        if w is ZERO:
            pass
        elif w is ONE:
            p = iadd(sf(I, o, 'wpos'), p)
        else:
            p = iadd(sf(I, o, 'end'), p)
    upds(I, o, wpos=p)
    return o


@model('std::ostream::tellp')
def m_tellp(I, d, o, a, e):
    # -1 when the stream has failed
    bad = and_(not_(sf(I, o, 'own')), atom(t('b', t('badpos', sf(I, o, 'log'))))) if I.badpos else FALSE
    return ite(bad, N(-1), sf(I, o, 'wpos'))


@model('std::fpos::#conv', 'std::fpos::operator long')
def m_fpos(I, d, o, a, e):
    return I.load(o)


@model('std::fpos::operator-', 'std::fpos::operator+')
def m_fposop(I, d, o, a, e):
    x, y = I.load(o), ldarg(I, d, a, 0)
    return isub(x, y) if d.name.endswith('-') else iadd(x, y)


@model('std::fpos::operator+=', 'std::fpos::operator-=')
def m_fposeq(I, d, o, a, e):
    x, y = I.load(o), ldarg(I, d, a, 0)
    I.store(o, isub(x, y) if '-' in d.name.split('operator')[-1] else iadd(x, y))
    return o


def goodatom(I, o):
    """no read so far went past the end of the source, and no write failed"""
    log = sf(I, o, 'log')
    w = TRUE if log.op in ('vlit',) and not log.a[0] else or_(sf(I, o, 'own'), atom(t('b', t('good', log))))
    return and_(w, tm.ile(sf(I, o, 'rpos'), available(I, o)))


def available(I, o):
    """number of bytes in the source of a stream"""
    def av(src):
        if src.op in ('sel', 'fld', 'deref', 'post', 'hsel'):
            n = t('avail', src)
            tm.note_range(n, 0, 1 << 62)
            return n
        return vlen(src)
    return lift(av, sf(I, o, 'src'))


@model('std::ios::good', 'std::ios::#conv', 'std::ios::operator bool')
def m_good(I, d, o, a, e):
    if o.op == 'cout':
        return TRUE
    return goodatom(I, o)


@model('std::ios::fail', 'std::ios::operator!', 'std::ios::bad', 'std::ios::eof')
def m_fail(I, d, o, a, e):
    if o.op == 'cout':
        return FALSE
    if d.name.endswith('eof'):
        return not_(tm.ile(sf(I, o, 'rpos'), available(I, o)))
    if d.name.endswith('bad'):
        return atom(t('b', t(d.name.split('::')[-1], sf(I, o, 'src'), sf(I, o, 'rpos'), sf(I, o, 'log'))))
    return not_(goodatom(I, o))


@model('std::ios::clear', 'std::ios::exceptions', 'std::ios::setstate', 'std::ios::precision', 'std::ios::flags',
       'std::ios::setf', 'std::ios::width', 'std::ios::imbue', 'std::ostream::flush', 'std::ios::fill', 'std::ios::unsetf')
def m_iosnop(I, d, o, a, e):
    return o if d.ret is not None and d.ret.k == 'ref' else ZERO


@model('std::fstream::open')
def m_open(I, d, o, a, e):
    pt = I.strip(d.ps[0])
    f = cstr(I, a[0]) if pt.k == 'ptr' else ldarg(I, d, a, 0)
    I.store(o, open_file(I, f, ldarg(I, d, a, 1) if len(a) > 1 else ZERO))
    return UNDEF


@model('std::fstream::close')
def m_close(I, d, o, a, e):
    if o.op == 'cout':
        return UNDEF
    close_file(I, o)
    return UNDEF


@model('std::fstream::is_open')
def m_isopen(I, d, o, a, e):
    return isopen(I, o)


@model('std::sstream::str')
def m_str(I, d, o, a, e):
    if a:
        s = ldarg(I, d, a, 0)
        upds(I, o, rpos=ZERO, log=s)
        return UNDEF
    return sf(I, o, 'log')


@model('std::operator<<', 'std::ostream::operator<<')
def m_out(I, d, o, a, e):
    if o is None:
        o, x, pt = a[0], a[1], d.ps[1]
    else:
        x, pt = a[0], d.ps[0]
    for q in leaves(o):
        if q.op == 'cout':
            return o
    st = I.strip(pt)
    if st.k in ('ptr', 'arr') and (st.t.ch):
        s = cstr(I, x if st.k == 'ptr' else sub(x, ('i', ZERO)))
        log_append(I, o, s)
    elif st.k == 'rec' and st.n == 'std::basic_string':
        log_append(I, o, I.load(x) if pt.k == 'ref' else x)
    elif st.k in ('int', 'float', 'bool'):
        v = ldv(I, x, pt)
        tok = t('tkx', 'txt', v, (st.str.replace('const ', ''),))
        log_append(I, o, tm.vlit(tok))
    elif st.k == 'ptr' and st.t.k == 'fn':
        log_append(I, o, t('str', '\n'))
    elif st.k == 'fn':
        log_append(I, o, t('str', '\n'))
    elif st.k == 'rec' and st.n and st.n.startswith('std::_S'):
        pass
    else:
        v = ldv(I, x, pt)
        log_append(I, o, tm.vlit(t('tkx', 'txt', v, ())))
    return o


@model('assume', 'spec::assume')
def m_assume(I, d, o, a, e):
    """law hypothesis: everything is claimed only where it holds"""
    c = a[0]
    I.assumed = and_(I.assumed, or_(not_(I.pc), c))
    if I.pc is TRUE:
        # conjunction of bounds on single quantities narrows their ranges
        while c.op == 'ite' and (c.a[1] is FALSE or c.a[2] is FALSE):
            at, hold = c.a[0], c.a[2] is FALSE
            if at.op == 'le':
                s, k = at.a
                if s.op != 'poly':
                    lo, hi = tm.rng(s)
                    tm.RANGES[s] = (lo, min(hi, k)) if hold else (max(lo, k + 1), hi)
                    lo, hi = tm.RANGES[s]
                    if lo == hi:
                        tm.PINS[s] = N(lo)
            I.given[at] = hold
            c = c.a[1] if hold else c.a[2]
        if c.op == 'ite':
            I.resid.append(c)
    return UNDEF


# ------------------------------------------------------------------ laz-perf (contract of the missing library)
# A compressor takes one record (base size of the format plus extra bytes) per call and writes an opaque stream which
# is complete after done(); a decompressor returns the records of an opaque stream in order; generic_file likewise.
LZBASE = {6: 30, 7: 36, 8: 38}
LZCTOR = {}


def lzctor(n):
    def dec(f):
        LZCTOR[n] = f
        return f
    return dec


@lzctor('lazperf::wkt_vlr')
def z_wkt(I, p, d, a):
    I.store(p, rec('lazperf::wkt_vlr', (('lazperf::wkt_vlr::wkt', I.load(a[0]) if a else EMPTYSTR),)))


@lzctor('lazperf::eb_vlr')
def z_eb(I, p, d, a):
    n = a[0] if a else ZERO
    items = EMPTY if n is ZERO else fld(t('ext', 'lazperf::eb_vlr::#ctor', (n,)), 'lazperf::eb_vlr::items')
    I.store(p, rec('lazperf::eb_vlr', (('lazperf::eb_vlr::items', items),)))


@model('lazperf::eb_vlr::addField')
def z_addfield(I, d, o, a, e):
    q = sub(o, ('f', 'lazperf::eb_vlr::items'))
    I.store(q, vcat(I.load(q), tm.vlit(I.load(a[0]))))
    return UNDEF


VLRID = {'lazperf::eb_vlr': ('LASF_Spec', 4, ''), 'lazperf::wkt_vlr': ('LASF_Projection', 2112, ''),
         'lazperf::copc_info_vlr': ('copc', 1, 'COPC info VLR')}


@model(*[c + h for c in VLRID for h in ('::header', '::eheader')])
def z_header(I, d, o, a, e):
    cls, m = d.name.rsplit('::', 1)
    n = vlrsize(cls, I.load(o))
    h = 'lazperf::vlr_header' if m == 'header' else 'lazperf::evlr_header'
    u, i, s = VLRID[cls]
    vs = {'reserved': ZERO, 'user_id': t('str', u), 'record_id': N(i), 'description': t('str', s),
          'data_length': tm.wrap(16, False, n) if m == 'header' else n}
    return rec(h, tuple((h + '::' + k, v) for k, v in sorted(vs.items())))


@lzctor('lazperf::OutFileStream')
def z_ofs(I, p, d, a):
    I.store(p, t('ofs', a[0]))


@lzctor('lazperf::InFileStream')
def z_ifs(I, p, d, a):
    I.store(p, t('ofs', a[0]))


@model('lazperf::vlr_header::create', 'lazperf::evlr_header::create', 'lazperf::eb_vlr::create', 'lazperf::wkt_vlr::create',
       'lazperf::copc_info_vlr::create')
def z_create(I, d, o, a, e):
    """what was written by X::write at the place of the stream is read back by X::create"""
    cls = d.name.split('::')[-2]
    st = a[0]
    if len(a) > 1:
        n = ldarg(I, d, a, 1)
        if cls == 'eb_vlr':
            n = tm.imul(N(192), tm.idiv(n, N(192)))
    else:
        n = N({'vlr_header': 54, 'evlr_header': 60, 'copc_info_vlr': 160}[cls])
    I.calls_ext[d.name] = I.calls_ext.get(d.name, 0) + 1
    pos = sf(I, st, 'rpos')
    s = rdseq(I.reify(sf(I, st, 'src')), pos, n)
    upds(I, st, rpos=iadd(pos, n))

    def val(x):
        if x.op == 'vlit' and len(x.a[0]) == 1 and x.a[0][0].op == 'tkx' and x.a[0][0].a[0] == cls + '::write':
            return x.a[0][0].a[1]
        return I.ret_of(t('call', d.name, UNDEF, (x,)), d.ret)
    return lift(val, s)


@model('lazperf::OutFileStream::cb', 'lazperf::InFileStream::cb')
def z_cb(I, d, o, a, e):
    return lift(lambda x: t('lzcb', x.a[0]) if x.op == 'ofs' else t('lzcb', x), I.load(o))


def streamof(cb):
    return lift(lambda x: x.a[0] if x.op == 'lzcb' else t('cbstream', x), cb)


def lzsize(I, fmt, eb):
    """record size; other formats are refused by the library"""
    n = UNDEF
    ok = FALSE
    for k in sorted(LZBASE):
        c = ieq(fmt, N(k))
        n = iadd(N(LZBASE[k]), eb) if n is UNDEF else ite(c, iadd(N(LZBASE[k]), eb), n)
        ok = or_(ok, c)
    I.throw(not_(ok), 'lazperf')
    return n


@model('lazperf::build_las_compressor')
def z_comp(I, d, o, a, e):
    n = lzsize(I, a[1], a[2] if len(a) > 2 else ZERO)
    return I.alloc(rec('lzc', (('st', streamof(a[0])), ('fmt', a[1]), ('eb', a[2] if len(a) > 2 else ZERO), ('size', n),
                           ('pts', tm.EMPTY))), None)


@model('lazperf::las_compressor::compress')
def z_compress(I, d, o, a, e):
    c = I.load(o)
    n = fld(c, 'size')
    I.store(sub(o, ('f', 'pts')), vcat(fld(c, 'pts'), tm.vlit(I.reify(ptrseq(I, a[0], n)))))
    return I.ptradd(a[0], n)


@model('lazperf::las_compressor::done')
def z_done(I, d, o, a, e):
    c = I.load(o)
    st = fld(c, 'st')
    pts = fld(c, 'pts')
    tok = t('tkx', 'lzdone', pts, (fld(c, 'fmt'), fld(c, 'eb')))
    n = t('lzlen', pts)
    tm.note_range(n, 0, 1 << 62)
    tm.TKLEN[tok] = n
    log_append(I, st, tm.vlit(tok), n)
    return UNDEF


@model('lazperf::compress_chunk_table')
def z_table(I, d, o, a, e):
    st = streamof(a[0])
    v = I.reify(I.load(a[1]))
    tok = t('tkx', 'lztable', v, (a[2],))
    n = t('lzlen', v)
    tm.note_range(n, 0, 1 << 62)
    tm.TKLEN[tok] = n
    log_append(I, st, tm.vlit(tok), n)
    return UNDEF


@model('lazperf::build_las_decompressor')
def z_decomp(I, d, o, a, e):
    eb = a[2] if len(a) > 2 else ZERO
    n = lzsize(I, a[1], eb)
    st = streamof(a[0])
    src, pos = sf(I, st, 'src'), sf(I, st, 'rpos')
    bs = t('lzbytes', I.reify(src), pos, a[1], eb)
    after = t('lzrpos', bs)
    tm.note_range(after, 0, 1 << 62)
    upds(I, st, rpos=after)
    return I.alloc(rec('lzd', (('bytes', bs), ('size', n), ('n', ZERO))), None)


@model('lazperf::las_decompressor::decompress', 'lazperf::reader::basic_file::readPoint')
def z_decompress(I, d, o, a, e):
    c = I.load(o)
    n, k = fld(c, 'size'), fld(c, 'n')
    tm.note_range(n, 0, 65535)
    tm.note_range(k, 0, 1 << 62)
    put_bytes(I, a[0], t('rdseq', fld(c, 'bytes'), tm.imul(k, n), n), n)
    I.store(sub(o, ('f', 'n')), iadd(k, ONE))
    return I.ptradd(a[0], n)


@lzctor('lazperf::reader::generic_file')
def z_gf(I, p, d, a):
    src, pos = sf(I, a[0], 'src'), sf(I, a[0], 'rpos')
    src = I.reify(src)
    P = 'lazperf::header12::point_format_id'

    def written(x):
        """the header at the start of the file, if the writer of it is visible"""
        for lit, z in tm.unit_parts(x):
            return z.a[1] if lit and z.op == 'tkx' and z.a[0] == 'header14::write' else None

    def bad(x):
        w = written(x)
        if w is None:
            return atom(t('b', t('notlaz', x)))
        return tm.ilt(fld(w, P), N(128))

    def hdr(x):
        w = written(x)
        return t('lashdr', x) if w is None else tm.upd(w, P, tm.imod(fld(w, P), N(64)))
    I.throw(lift(bad, src), 'lazperf')
    h = lift(hdr, src)
    after = t('gfpos', src)
    tm.note_range(after, 0, 1 << 62)
    upds(I, a[0], rpos=after)
    n = fld(h, 'lazperf::header12::point_record_length')
    tm.note_range(n, 0, 65535)
    I.store(p, rec('lzgf', (('h', h), ('bytes', t('lzfile', src)), ('size', n), ('n', ZERO))))


@model('lazperf::reader::basic_file::header')
def z_gfh(I, d, o, a, e):
    return sub(o, ('f', 'h'))


@model('lazperf::reader::basic_file::pointCount')
def z_gfn(I, d, o, a, e):
    return fld(I.load(sub(o, ('f', 'h'))), 'lazperf::header14::point_count_14')


@model('std::operator|', 'std::operator&', 'std::operator^')
def m_flags(I, d, o, a, e):
    x, y = ldarg(I, d, a, 0), ldarg(I, d, a, 1)
    op = d.name[-1]

    def g(p, q):
        if p.op == 'int' and q.op == 'int':
            u, v = p.a[0], q.a[0]
            return N(u | v if op == '|' else u & v if op == '&' else u ^ v)
        return t('call', d.name, UNDEF, (p, q))
    return lift(g, x, y)
