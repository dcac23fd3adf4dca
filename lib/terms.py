"""Hash-consed value terms with canonical gating (ordered decision diagrams over atoms).

Every value of the abstract interpreter is one of these terms.  Two program fragments that compute the same thing get
the same (identical) term: integer arithmetic is kept as polynomials, bit operations as bit-provenance vectors,
conditions as reduced ordered decision diagrams whose atoms are interval tests / float relations / opaque facts, and
sequences as concatenations and comprehensions."""
import math

_tab = {}
_cnt = [0]
CUR = [None]          # current source location (file, line) while interpreting
NAN = [False]         # True: float comparisons distinguish unordered


class T:
    __slots__ = ('op', 'a', 'id', 'okey', 'loc', 'lvl', 'fv')

    def __repr__(self):
        return show(self)


def t(op, *a):
    k = (op, a)
    r = _tab.get(k)
    if r is None:
        r = T()
        r.op = op
        r.a = a
        _cnt[0] += 1
        r.id = _cnt[0]
        r.okey = None
        r.loc = CUR[0]
        lvl = 0
        fv = None
        for c in kids_of(a):
            if c.lvl > lvl:
                lvl = c.lvl
            if c.fv:
                fv = c.fv if fv is None else fv | c.fv
        if op == 'bv':
            pass
        elif op in ('lam',):
            lvl += 1
        if op in ('loopvar', 'acc'):
            fv = frozenset([r]) if fv is None else fv | {r}
        r.lvl = lvl
        r.fv = fv
        _tab[k] = r
    return r


def kids_of(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from kids_of(x)


TRUE = t('true')
FALSE = t('false')
UNDEF = t('undef')
NULL = t('null')


# ---------------------------------------------------------------- integers
def I(n):
    return t('int', int(n))


ZERO = I(0)
ONE = I(1)
PINS = {}             # quantity -> the only value an assumption leaves for it
RANGES = {}           # term -> (lo, hi) type knowledge
CTX = []              # stack of dicts: term -> (lo, hi) path knowledge


def note_range(x, lo, hi):
    if x.op in ('int', 'poly', 'ite', 'bits', 'undef'):
        return
    o = RANGES.get(x)
    if o is None and x.op == 'len':
        o = (0, (1 << 31) - 1)
    if o is None and x.op in ('idiv', 'imod', 'max0', 'sum', 'wrap'):
        o = _rng(x)
    if o is None:
        RANGES[x] = (lo, hi)
    else:
        RANGES[x] = (max(o[0], lo), min(o[1], hi))


INF = float('inf')


def rng(x):
    op = x.op
    if op == 'int':
        return x.a[0], x.a[0]
    if CTX:
        for c in reversed(CTX):
            if x in c:
                lo, hi = c[x]
                r = RANGES.get(x) or _rng(x)
                return max(lo, r[0]), min(hi, r[1])
    r = RANGES.get(x)
    if r is not None:
        return r
    return _rng(x)


_RM = {}
_RM_ON = [False]


def _rng(x):
    op = x.op
    if op == 'poly':
        lo = hi = x.a[0]
        for m, c in x.a[1]:
            l, h = 1, 1
            for q in m:
                ql, qh = rng(q)
                cs = [mul_inf(l, ql), mul_inf(l, qh), mul_inf(h, ql), mul_inf(h, qh)]
                l, h = min(cs), max(cs)
            if c > 0:
                lo += mul_inf(c, l)
                hi += mul_inf(c, h)
            else:
                lo += mul_inf(c, h)
                hi += mul_inf(c, l)
        return lo, hi
    if op == 'wrap':
        return trange(x.a[0], x.a[1])
    if op == 'ite':
        # gates share their branches: one visit per node and query
        top = not _RM_ON[0]
        if top:
            _RM_ON[0] = True
            _RM.clear()
        try:
            r = _RM.get(x)
            if r is None:
                a, b = rng(x.a[1]), rng(x.a[2])
                r = _RM[x] = (min(a[0], b[0]), max(a[1], b[1]))
        finally:
            if top:
                _RM_ON[0] = False
        return r
    if op == 'bits':
        bs, sx = x.a
        n = len(bs)
        if sx:
            return -(1 << (n - 1)), (1 << (n - 1)) - 1
        return 0, (1 << n) - 1
    if op in ('len', 'msize'):
        return 0, (1 << 31) - 1
    if op in ('first', 'trips', 'iters'):
        return 0, 1 << 62
    if op == 'idiv':
        l, h = rng(x.a[0])
        bl, bh = rng(x.a[1])
        if bl >= 0:
            # there is no quotient by zero
            if l >= 0:
                return 0, h
            return l, max(h, 0)
    if op == 'imod':
        l, h = rng(x.a[0])
        bl, bh = rng(x.a[1])
        if bl >= 0 and l >= 0:
            return 0, bh - 1
    if op == 'max0':
        l, h = rng(x.a[0])
        return max(l, 0), max(h, 0)
    if op == 'sum':
        l, h = rng(x.a[1].a[0])
        if l >= 0:
            return 0, INF
    if op == 'ipow2':
        return 1, INF
    return -INF, INF


def mul_inf(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def trange(w, s):
    if s:
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


def poly_parts(x):
    if x.op == 'int':
        return x.a[0], ()
    if x.op == 'poly':
        return x.a
    return 0, (((x,), 1),)


def mkpoly(c, d):
    ms = [(m, k) for m, k in d.items() if k != 0]
    if not ms:
        return I(c)
    ms.sort(key=lambda mk: tuple(q.id for q in mk[0]))
    if c == 0 and len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1:
        return ms[0][0][0]
    return t('poly', c, tuple(ms))


def iadd(x, y):
    return lift(_iadd, x, y)


def _iadd(x, y):
    c1, m1 = poly_parts(x)
    c2, m2 = poly_parts(y)
    d = dict(m1)
    for m, k in m2:
        d[m] = d.get(m, 0) + k
    return mkpoly(c1 + c2, d)


def ineg(x):
    return imul(I(-1), x)


def isub(x, y):
    return iadd(x, ineg(y))


def imul(x, y):
    return lift(_imul, x, y)


def _imul(x, y):
    c1, m1 = poly_parts(x)
    c2, m2 = poly_parts(y)
    d = {}
    c = c1 * c2
    for m, k in m1:
        if c2:
            d[m] = d.get(m, 0) + k * c2
    for m, k in m2:
        if c1:
            d[m] = d.get(m, 0) + k * c1
    for m, k in m1:
        for n, l in m2:
            q = tuple(sorted(m + n, key=lambda z: z.id))
            d[q] = d.get(q, 0) + k * l
    return mkpoly(c, d)


def idiv(x, y):
    return lift(_idiv, x, y)


def _idiv(x, y):
    if y.op == 'int' and y.a[0] != 0:
        k = y.a[0]
        if x.op == 'int':
            q = abs(x.a[0]) // abs(k)
            return I(q if (x.a[0] >= 0) == (k > 0) else -q)
        if k == 1:
            return x
        c, ms = poly_parts(x)
        if c % k == 0 and all(q % k == 0 for _, q in ms):
            return mkpoly(c // k, {m: q // k for m, q in ms})
        if k > 0 and k & (k - 1) == 0 and rng(x)[0] >= 0 and rng(x)[1] < INF:
            return shr_const(x, k.bit_length() - 1)
        if k > 0 and k & (k - 1) == 0 and rng(x)[0] < 0 <= rng(x)[1] < INF and to_bits(x) is not None:
            CTX.append({x: (0, INF)})
            try:
                p = shr_const(x, k.bit_length() - 1)
            finally:
                CTX.pop()
            return ite(ile(ZERO, x), p, t('idiv', x, y))
    if y.op == 'ipow2' and rng(x)[0] >= 0:
        return t('shr', x, y.a[0])
    if x.op == 'int' and x.a[0] == 0:
        return x
    return t('idiv', x, y)


def imod(x, y):
    return lift(_imod, x, y)


def _imod(x, y):
    if y.op == 'int' and y.a[0] > 0:
        k = y.a[0]
        if x.op == 'int':
            return I(math.fmod(x.a[0], k)) if x.a[0] < 0 else I(x.a[0] % k)
        if k & (k - 1) == 0 and rng(x)[0] >= 0 and rng(x)[1] < INF:
            return band(x, I(k - 1))
        c, ms = poly_parts(x)
        if c % k == 0 and all(q % k == 0 for _, q in ms):
            return ZERO
    c, ms = poly_parts(x)
    if y.op not in ('int', 'poly') and c == 0 and all(y in m for m, _ in ms):
        return ZERO
    return t('imod', x, y)


def wrap(w, s, x):
    """value of x converted to a w-bit (s: signed) integer"""
    return lift(lambda z: _wrap(w, s, z), x)


def _wrap(w, s, x):
    lo, hi = trange(w, s)
    l, h = rng(x)
    if l >= lo and h <= hi:
        return x
    if x.op == 'int':
        v = x.a[0] & ((1 << w) - 1)
        if s and v >> (w - 1):
            v -= 1 << w
        return I(v)
    if x.op == 'wrap' and x.a[0] >= w:
        return _wrap(w, s, x.a[2])
    if x.op == 'bits':
        bs, sx = ext_bits(x.a[0], x.a[1], w)
        return from_bits(bs[:w], s)
    if x.op == 'poly' and any(len(m) == 1 and m[0].op == 'bits' for m, k in x.a[1]):
        b = disjoint_bits(x)
        if b is not None:
            return from_bits(ext_bits(b[0], b[1], w)[0][:w], s)
    if x.op == 'poly':
        # strip inner wraps of at least this width (ring homomorphism), reduce coefficients mod 2^w
        c, ms = x.a
        ch = False
        acc = I(wrapc(c, w))
        for m, k in ms:
            term = I(wrapc(k, w))
            for q in m:
                if q.op == 'wrap' and q.a[0] >= w:
                    q = q.a[2]
                    ch = True
                term = _imul(term, q)
            acc = _iadd(acc, term)
        if ch:
            return _wrap(w, s, acc)
        l, h = rng(acc)
        if l >= lo and h <= hi:
            return acc
        x = acc
        if x.op != 'poly':
            return _wrap(w, s, x)
    return t('wrap', w, s, x)


def wrapc(c, w):
    c &= (1 << w) - 1
    if c >> (w - 1):
        c -= 1 << w
    return c


# ---------------------------------------------------------------- bits
def bit(x, i):
    return atom(t('bit', x, i))


def to_bits(x):
    """(bits, sext) of an integer term (infinite two's complement); None if unbounded"""
    if x.op == 'int':
        v = x.a[0]
        n = v.bit_length()
        if v >= 0:
            return tuple(TRUE if v >> i & 1 else FALSE for i in range(n)), False
        n = (~v).bit_length() + 1
        return tuple(TRUE if v >> i & 1 else FALSE for i in range(n)), True
    if x.op == 'bits':
        return x.a
    l, h = rng(x)
    if x.op == 'wrap' and x.a[2].op in ('bits',):
        pass
    if x.op == 'poly':
        c, ms = x.a
        if c == 0 and len(ms) == 1 and ms[0][1] > 0 and ms[0][1] & (ms[0][1] - 1) == 0 and len(ms[0][0]) == 1:
            k = ms[0][1].bit_length() - 1
            b = to_bits(ms[0][0][0])
            if b is not None:
                return (FALSE,) * k + b[0], b[1]
        b = disjoint_bits(x)
        if b is not None:
            return b
    if l == -INF or h == INF or h - l > 1 << 70:
        return None
    if l >= 0:
        n = int(h).bit_length()
        return tuple(bit(x, i) for i in range(n)), False
    n = max((~int(l)).bit_length(), int(max(h, 0)).bit_length()) + 1
    return tuple(bit(x, i) for i in range(n)), True


def disjoint_bits(x):
    """a sum whose terms share no bit"""
    c, ms = x.a
    if c < 0 or not all(len(m) == 1 and k > 0 and k & (k - 1) == 0 for m, k in ms):
        return None
    parts = [to_bits(I(c))] + [to_bits(mkpoly(0, {m: k})) for m, k in ms]
    if any(p is None for p in parts) or sum(p[1] for p in parts) > 1:
        return None
    out = []
    for i in range(max(len(p[0]) for p in parts)):
        nz = [b for b in (getbit(p, i) for p in parts) if b is not FALSE]
        if len(nz) > 1:
            return None
        out.append(nz[0] if nz else FALSE)
    return tuple(out), any(p[1] for p in parts)


def getbit(p, i):
    bs, sx = p
    if i < len(bs):
        return bs[i]
    return bs[-1] if sx and bs else FALSE


def ext_bits(bs, sx, w):
    return tuple(getbit((bs, sx), i) for i in range(max(w, len(bs)))), sx


def from_bits(bs, sx):
    bs = list(bs)
    if not sx:
        while bs and bs[-1] is FALSE:
            bs.pop()
    else:
        while len(bs) > 1 and bs[-1] is bs[-2]:
            bs.pop()
        if bs and bs[-1] is FALSE:
            sx = False
            while bs and bs[-1] is FALSE:
                bs.pop()
    if not bs:
        return ZERO
    if all(b is TRUE or b is FALSE for b in bs):
        v = sum(1 << i for i, b in enumerate(bs) if b is TRUE)
        if sx and bs[-1] is TRUE:
            v -= 1 << len(bs)
        return I(v)
    if len(bs) == 1 and not sx:
        return ite(bs[0], ONE, ZERO)
    # a run bit(x,0..n-1) that is exactly x, possibly shifted left
    k = 0
    while bs[k] is FALSE:
        k += 1
    b0 = bs[k]
    if b0.op == 'ite' and b0.a[0].op == 'bit' and b0.a[1] is TRUE and b0.a[2] is FALSE and b0.a[0].a[1] == 0:
        x = b0.a[0].a[0]
        xb = to_bits(x)
        if xb is not None and xb[0] == tuple(bs[k:]) and xb[1] == sx:
            return _imul(I(1 << k), x)
    # bits that are plain booleans: push into gates so the value is a gated constant when short
    return t('bits', tuple(bs), sx)


def bitop(f, x, y):
    def g(a, b):
        if a.op == 'int' and b.op == 'int':
            return I(f[0](a.a[0], b.a[0]))
        if f[2] is not None:
            r = f[2](a, b)
            if r is not None:
                return r
        p, q = to_bits(a), to_bits(b)
        if p is None and b.op == 'int' and b.a[0] >= 0 and f is AND:
            n = b.a[0].bit_length()
            p = tuple(bit(a, i) for i in range(n)), False
        if q is None and a.op == 'int' and a.a[0] >= 0 and f is AND:
            n = a.a[0].bit_length()
            q = tuple(bit(b, i) for i in range(n)), False
        if p is None or q is None:
            u, v = sorted((a, b), key=lambda z: z.id)
            return t('bitop', f[3], u, v)
        if f is OR:
            n = max(len(p[0]), len(q[0]))
            if not p[1] and not q[1] and all(getbit(p, i) is FALSE or getbit(q, i) is FALSE for i in range(n)):
                if a.op != 'bits' and b.op != 'bits':
                    return _iadd(a, b)
        n = max(len(p[0]), len(q[0]))
        sx = p[1] or q[1]
        if sx:
            n += 1
        bs = tuple(f[1](getbit(p, i), getbit(q, i)) for i in range(n))
        if f is AND and not (p[1] and q[1]):
            sx = False
            bs = bs[:n]
        return from_bits(bs, sx)
    return lift(g, x, y)


def band(x, y):
    return bitop(AND, x, y)


def bor(x, y):
    return bitop(OR, x, y)


def bxor(x, y):
    return bitop(XOR, x, y)


def bnot(x):
    return isub(I(-1), x)


def shl(x, y):
    def g(a, b):
        if b.op == 'int' and 0 <= b.a[0] < 128:
            return _imul(a, I(1 << b.a[0])) if a.op != 'bits' else from_bits((FALSE,) * b.a[0] + a.a[0], a.a[1])
        if a is ONE:
            return t('ipow2', b)
        return t('shl', a, b)
    return lift(g, x, y)


def shr_const(x, k):
    p = to_bits(x)
    if p is None:
        return t('shr', x, I(k))
    if k and rng(x)[0] < 0 <= rng(x)[1] < INF:
        # as for a division: the bits of what is not negative have no sign
        CTX.append({x: (0, INF)})
        try:
            q = to_bits(x)
        finally:
            CTX.pop()
        if q is not None and q != p:
            hi = from_bits(q[0][k:], q[1]) if k < len(q[0]) else from_bits((q[0][-1],) if q[1] and q[0] else (), q[1])
            lo = from_bits(p[0][k:], p[1]) if k < len(p[0]) else from_bits((p[0][-1],) if p[1] and p[0] else (), p[1])
            return ite(ile(ZERO, x), hi, lo)
    bs, sx = p
    if k >= len(bs):
        return from_bits((bs[-1],) if sx and bs else (), sx)
    return from_bits(bs[k:], sx)


def shr(x, y):
    def g(a, b):
        if b.op == 'int' and 0 <= b.a[0] < 128:
            if a.op == 'int':
                return I(a.a[0] >> b.a[0])
            return shr_const(a, b.a[0])
        return t('shr', a, b)
    return lift(g, x, y)


# ---------------------------------------------------------------- floats
def F(v):
    return t('flt', float(v)) if not (isinstance(v, float) and v != v) else t('flt', 'nan')


FZERO = F(0.0)


def isflt(x):
    return x.op == 'flt' and not isinstance(x.a[0], str)


def fadd(x, y):
    def g(a, b):
        if isflt(a) and isflt(b):
            return F(a.a[0] + b.a[0])
        if isflt(a) and a.a[0] == 0:
            return b
        if isflt(b) and b.a[0] == 0:
            return a
        u, v = sorted((a, b), key=lambda z: z.id)
        return t('fadd', u, v)
    return lift(g, x, y)


def fneg(x):
    def g(a):
        if isflt(a):
            return F(-a.a[0])
        if a.op == 'fneg':
            return a.a[0]
        if a.op == 'fadd':
            return fadd(g(a.a[0]), g(a.a[1]))
        if a.op == 'i2f':
            return i2f(ineg(a.a[0]))
        return t('fneg', a)
    return lift(g, x)


def fsub(x, y):
    return fadd(x, fneg(y))


def fmul(x, y):
    def g(a, b):
        if isflt(a) and isflt(b):
            return F(a.a[0] * b.a[0])
        if isflt(a):
            a, b = b, a
        if isflt(b):
            v = b.a[0]
            if v == 1:
                return a
            if v == -1:
                return fneg(a)
            if v != 0 and math.isfinite(v) and math.frexp(v)[0] == 0.5:
                return scale2(a, I(math.frexp(v)[1] - 1))
        if a.op == 'fneg':
            return fneg(g(a.a[0], b))
        if b.op == 'fneg':
            return fneg(g(a, b.a[0]))
        if b.op == 'fpow2':
            return scale2(a, b.a[0])
        if a.op == 'fpow2':
            return scale2(b, a.a[0])
        if a.op == 'scale2':
            return scale2(g(a.a[0], b), a.a[1])
        if b.op == 'scale2':
            return scale2(g(a, b.a[0]), b.a[1])
        u, v = sorted((a, b), key=lambda z: z.id)
        return t('fmul', u, v)
    return lift(g, x, y)


def fdiv(x, y):
    def g(a, b):
        if isflt(a) and isflt(b) and b.a[0] != 0:
            return F(a.a[0] / b.a[0])
        if isflt(b):
            v = b.a[0]
            if v == 1:
                return a
            if v == -1:
                return fneg(a)
            if v != 0 and math.isfinite(v) and abs(math.frexp(v)[0]) == 0.5:
                return fmul(a, F(1.0 / v))
        if b.op == 'fpow2':
            return scale2(a, ineg(b.a[0]))
        if a.op == 'fneg':
            return fneg(g(a.a[0], b))
        if b.op == 'fneg':
            return fneg(g(a, b.a[0]))
        if a.op == 'scale2':
            return scale2(g(a.a[0], b), a.a[1])
        if b.op == 'scale2':
            return scale2(g(a, b.a[0]), ineg(b.a[1]))
        return t('fdiv', a, b)
    return lift(g, x, y)


def fpow2(k):
    def g(a):
        if a.op == 'int' and abs(a.a[0]) < 1000:
            return F(2.0 ** a.a[0])
        return t('fpow2', a)
    return lift(g, k)


def scale2(x, k):
    """x * 2^k (exact up to overflow/underflow)"""
    def g(a, b):
        if b is ZERO:
            return a
        if isflt(a) and b.op == 'int' and abs(b.a[0]) < 1000:
            return F(a.a[0] * 2.0 ** b.a[0])
        if a.op == 'scale2':
            return g(a.a[0], iadd(a.a[1], b))
        if a.op == 'fneg':
            return fneg(g(a.a[0], b))
        if a is FZERO:
            return a
        if isflt(a) and a.a[0] == 1:
            return t('fpow2', b)
        return t('scale2', a, b)
    return lift(g, x, k)


def i2f(x):
    def g(a):
        if a.op == 'int':
            return F(float(a.a[0]))
        if a.op == 'ipow2':
            return fpow2(a.a[0])
        return t('i2f', a)
    return lift(g, x)


def f2i(x, w, s):
    def g(a):
        if isflt(a) and math.isfinite(a.a[0]):
            return I(int(a.a[0]))
        if a.op == 'fpow2':
            p = t('ipow2', a.a[0])
            if w <= 16:         # out of range from 2^(w-1) (2^w unsigned)
                p = ite(ile(a.a[0], I(w - 2 if s else w - 1)), p, t('shiftout', p))
            return p
        if a.op == 'i2f':
            return wrap(w, s, a.a[0])
        r = t('f2i', a)
        note_range(r, *trange(w, s))
        return r
    return lift(g, x)


# ---------------------------------------------------------------- decision diagrams
POSITION = {'bv', 'acc', 'loopvar'}


def okey(at):
    k = at.okey
    if k is None:
        op = at.op
        if op == 'le':
            # positions in a sequence are decided first: a table looked up at one is a chain, not a product
            z = at.a[0]
            pos = z.op in POSITION or z.op == 'poly' and any(q.op in POSITION for m in z.a[1] for q in m[0])
            k = (-1, z.id, at.a[1]) if pos else (z.id, 0, at.a[1])
        elif op == 'frel':
            k = (max(at.a[0].id, at.a[1].id), 1, min(at.a[0].id, at.a[1].id), at.a[2])
        elif op == 'eqlit':
            k = (at.a[0].id, 2, at.a[1].id)
        else:
            k = (at.id, 3, 0)
        at.okey = k
    return k


def mk(at, hi, lo):
    op = at.op
    if op == 'le':
        s, kk = at.a
        while hi.op == 'ite' and hi.a[0].op == 'le' and hi.a[0].a[0] is s:
            hi = hi.a[1]
        if hi is lo:
            return hi
        if lo.op == 'ite' and lo.a[0].op == 'le' and lo.a[0].a[0] is s and lo.a[1] is hi:
            return lo
    elif op == 'frel':
        while hi.op == 'ite' and hi.a[0].op == 'frel' and hi.a[0].a[:2] == at.a[:2]:
            hi = hi.a[2]
    elif op == 'eqlit':
        while hi.op == 'ite' and hi.a[0].op == 'eqlit' and hi.a[0].a[0] is at.a[0]:
            hi = hi.a[2]
    if hi is lo:
        return hi
    if hi.op in SEQOPS or lo.op in SEQOPS:
        return mkseq(at, hi, lo)
    return t('ite', at, hi, lo)


SEQOPS = {'vlit', 'vcat', 'vflat'}


def unit_parts(x):
    out = []
    for p in vparts(x):
        if p.op == 'vlit':
            out += [(True, e) for e in p.a[0]]
        else:
            out.append((False, p))
    return out


def from_parts(ps):
    r = EMPTY
    for lit, e in ps:
        r = vcat(r, t('vlit', (e,)) if lit else e)
    return r


def mkseq(at, hi, lo):
    ph, pl = unit_parts(hi), unit_parts(lo)
    i = 0
    while i < len(ph) and i < len(pl) and ph[i] == pl[i]:
        i += 1
    pre, ph, pl = ph[:i], ph[i:], pl[i:]
    j = 0
    while j < len(ph) and j < len(pl) and ph[-1 - j] == pl[-1 - j]:
        j += 1
    suf = ph[len(ph) - j:]
    ph, pl = ph[:len(ph) - j], pl[:len(pl) - j]
    if len(ph) == len(pl) and all(l for l, _ in ph) and all(l for l, _ in pl):
        es = []
        for (_, a), (_, b) in zip(ph, pl):
            if a is b:
                es.append(a)
            elif a.op == 'tk' and b.op == 'tk' and a.a[:2] == b.a[:2]:
                es.append(t('tk', a.a[0], a.a[1], ite(atom(at), a.a[2], b.a[2])))
            elif a.op in ('tk', 'tkx') or b.op in ('tk', 'tkx'):
                es = None
                break
            else:
                es.append(ite(atom(at), a, b))
        if es is not None:
            return from_parts(pre + [(True, e) for e in es] + suf)
    hi, lo = from_parts(ph), from_parts(pl)
    k = okey(at)
    if any(z.op == 'ite' and okey(z.a[0]) <= k for z in (hi, lo)):
        mid = ite(atom(at), hi, lo)
    else:
        mid = t('ite', at, hi, lo)
    return from_parts(pre + [(False, mid)] + suf)


def atom(at):
    return t('ite', at, TRUE, FALSE)


def cof(x, at, k):
    """cofactors of x w.r.t. atom `at` (which is <= the top atom of x)"""
    if x.op == 'ite':
        if x.a[0] is at:
            return x.a[1], x.a[2]
        # theory: at true/false decides tops of the same group
        o = x.a[0]
        if at.op == 'le' and o.op == 'le' and o.a[0] is at.a[0]:
            return hi_under(x, at), x
        if at.op == 'frel' and o.op == 'frel' and o.a[:2] == at.a[:2]:
            return hi_under(x, at), x
        if at.op == 'eqlit' and o.op == 'eqlit' and o.a[0] is at.a[0]:
            return hi_under(x, at), x
    return x, x


def hi_under(x, at):
    if at.op == 'le':
        while x.op == 'ite' and x.a[0].op == 'le' and x.a[0].a[0] is at.a[0]:
            x = x.a[1]
    elif at.op == 'frel':
        while x.op == 'ite' and x.a[0].op == 'frel' and x.a[0].a[:2] == at.a[:2]:
            x = x.a[2]
    elif at.op == 'eqlit':
        while x.op == 'ite' and x.a[0].op == 'eqlit' and x.a[0].a[0] is at.a[0]:
            x = x.a[2]
    return x


_ite_memo = {}


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op != 'ite':
        raise ValueError('ite condition is not boolean: %r' % (c,))
    # records are gated field-wise
    if x.op == 'rec' and y.op == 'rec' and x.a[0] == y.a[0] and len(x.a[1]) == len(y.a[1]):
        return t('rec', x.a[0], tuple((f, ite(c, v, w)) for (f, v), (_, w) in zip(x.a[1], y.a[1])))
    k = (c, x, y)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    top = c.a[0]
    for z in (x, y):
        if z.op == 'ite' and okey(z.a[0]) < okey(top):
            top = z.a[0]
    c1, c0 = cof(c, top, 0)
    x1, x0 = cof(x, top, 0)
    y1, y0 = cof(y, top, 0)
    r = mk(top, ite(c1, x1, y1), ite(c0, x0, y0))
    _ite_memo[k] = r
    return r


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


AND = (lambda a, b: a & b, and_, lambda a, b: a if a is b else None, 'and')
OR = (lambda a, b: a | b, or_, lambda a, b: a if a is b else None, 'or')
XOR = (lambda a, b: a ^ b, lambda a, b: ite(a, not_(b), b), None, 'xor')

LIFT_LIMIT = 4000


def lift(f, *xs):
    """apply f to the leaves of gated operands"""
    if not any(x.op == 'ite' for x in xs):
        return f(*xs)
    memo = {}

    def go(zs):
        tops = [z.a[0] for z in zs if z.op == 'ite']
        if not tops:
            return f(*zs)
        r = memo.get(zs)
        if r is not None:
            return r
        if len(memo) > LIFT_LIMIT:
            raise Blowup()
        top = min(tops, key=okey)
        cs = [cof(z, top, 0) for z in zs]
        h = go(tuple(c[0] for c in cs))
        l = go(tuple(c[1] for c in cs))
        r = ite(atom(top), h, l)
        memo[zs] = r
        return r
    return go(tuple(xs))


class Blowup(Exception):
    pass


def leaves(x, out=None):
    if out is None:
        out = []
        seen = set()
    else:
        seen = set()
    st = [x]
    while st:
        z = st.pop()
        if z in seen:
            continue
        seen.add(z)
        if z.op == 'ite':
            st.append(z.a[2])
            st.append(z.a[1])
        else:
            out.append(z)
    return out


# ---------------------------------------------------------------- comparisons
def ile(x, y):
    return lift(_ile, x, y)


def _ile(x, y):
    d = _iadd(x, _imul(I(-1), y))       # d <= 0
    l, h = rng(d)
    if h <= 0:
        return TRUE
    if l > 0:
        return FALSE
    c, ms = poly_parts(d)
    g = 0
    for _, k in ms:
        g = math.gcd(g, abs(k))
    neg = ms[0][1] < 0
    # s + c <= 0  with s = sum ; s = g*s'
    if not neg:
        s = mkpoly(0, {m: k // g for m, k in ms})
        return le_atom(s, (-c) // g)
    s = mkpoly(0, {m: -k // g for m, k in ms})   # -g*s + c <= 0  <=> s >= c/g  <=> !(s <= ceil(c/g)-1)
    return not_(le_atom(s, -((-c) // g) - 1))


def le_atom(s, k):
    l, h = rng(s)
    if h <= k:
        return TRUE
    if l > k:
        return FALSE
    return atom(t('le', s, k))


def ilt(x, y):
    return ile(iadd(x, ONE), y)


def ieq(x, y):
    return lift(_ieq, x, y)


def _ieq(x, y):
    if x is y:
        return TRUE
    for a, b in ((x, y), (y, x)):
        if a.op == 'bits' and b.op == 'int':
            p, q = a.a, to_bits(b)
            r = TRUE
            for i in range(max(len(p[0]), len(q[0])) + 1):
                u, v = getbit(p, i), getbit(q, i)
                r = and_(r, u if v is TRUE else not_(u) if v is FALSE else FALSE)
            return r
    if x.op == 'bits' and y.op == 'bits':
        p, q = x.a, y.a
        r = TRUE
        for i in range(max(len(p[0]), len(q[0])) + 1):
            u, v = getbit(p, i), getbit(q, i)
            r = and_(r, ite(u, v, not_(v)))
        return r
    d = _iadd(x, _imul(I(-1), y))
    c, ms = poly_parts(d)
    g = 0
    for _, k in ms:
        g = math.gcd(g, abs(k))
    if g and c % g:
        return FALSE
    return and_(_ile(x, y), _ile(y, x))


def frel(x, y, want):
    """want: subset of {'<','=','>'}; unordered never satisfies"""
    def g(a, b):
        w = set(want)
        if isflt(a) and isflt(b):
            r = '<' if a.a[0] < b.a[0] else '=' if a.a[0] == b.a[0] else '>' if a.a[0] > b.a[0] else 'u'
            return TRUE if r in w else FALSE
        if a is b:
            if not NAN[0]:
                return TRUE if '=' in w else FALSE
            return atom(t('notnan', a)) if '=' in w else FALSE
        if a.id > b.id:
            a, b = b, a
            w = {{'<': '>', '>': '<', '=': '='}[c] for c in w}
        lt, eq = atom(t('frel', a, b, 0)), atom(t('frel', a, b, 1))
        if NAN[0]:
            gt = atom(t('frel', a, b, 2))
        else:
            gt = and_(not_(lt), not_(eq))
        r = FALSE
        if '<' in w:
            r = or_(r, lt)
        if '=' in w:
            r = or_(r, eq)
        if '>' in w:
            r = or_(r, gt)
        return r
    return lift(g, x, y)


def geq(x, y):
    """equality of two non-numeric values (strings, pointers, opaque, records, sequences)"""
    def g(a, b):
        if a is b:
            return TRUE
        if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0]:
            r = TRUE
            for (f, v), (_, w) in zip(a.a[1], b.a[1]):
                r = and_(r, veq(v, w))
            return r
        if a.op == 'sub' and b.op == 'sub' and a.a[0] is b.a[0] and a.a[1][:-1] == b.a[1][:-1] and \
                a.a[1][-1][0] == 'i' and b.a[1][-1][0] == 'i':
            return ieq(a.a[1][-1][1], b.a[1][-1][1])
        if a.op == 'mit' and b.op == 'mit' and a.a[0] is b.a[0]:
            return ieq(a.a[2], b.a[2])
        if a.op == 'alloc' and b.op == 'alloc' and (a.a[0] != b.a[0] or len(a.a[1]) == len(b.a[1]) and a.a[1]):
            return same_member(a, b)
        if a.op in ('sub', 'alloc', 'root') and b.op == 'null' or b.op in ('sub', 'alloc', 'root') and a.op == 'null':
            return FALSE
        lit = ('str', 'null')
        if a.op in lit and b.op in lit:
            return FALSE
        if (a.op == 'addr' and b.op in ('addr', 'null')) or (b.op == 'addr' and a.op == 'null'):
            return FALSE
        if a.op == 'str' and a.a[0] == '' and b.op not in lit:
            return ieq(vlen(b), ZERO)
        if b.op == 'str' and b.a[0] == '' and a.op not in lit:
            return ieq(vlen(a), ZERO)
        if a.op in lit:
            a, b = b, a
        if b.op in lit:
            return atom(t('eqlit', a, b))
        if a.op == 'vlit' and b.op == 'vlit':
            if len(a.a[0]) != len(b.a[0]):
                return FALSE
            r = TRUE
            for v, w in zip(a.a[0], b.a[0]):
                r = and_(r, veq(v, w))
            return r
        u, v = sorted((a, b), key=lambda z: z.id)
        return atom(t('eq', u, v))
    return lift(g, x, y)


NUMI = {'int', 'poly', 'bits', 'wrap', 'len', 'idiv', 'imod', 'f2i', 'msize', 'first', 'trips', 'sum', 'max0', 'iters'}
NUMF = {'flt', 'fadd', 'fmul', 'fdiv', 'fneg', 'i2f', 'scale2', 'fpow2'}


def veq(x, y):
    lx = leaves(x) + leaves(y)
    if any(z.op in NUMI or z in RANGES for z in lx):
        return ieq(x, y)
    if any(z.op in NUMF or z in FLOATS for z in lx):
        return frel(x, y, '=')
    if any(z in (TRUE, FALSE) for z in lx):
        return ite(x, y, not_(y))
    return geq(x, y)


FLOATS = set()
TKLEN = {}           # external stream token -> its byte length
SEQLEN = {}          # opaque sequence -> its length


# ---------------------------------------------------------------- sequences
def vlit(*xs):
    return t('vlit', tuple(xs))


EMPTY = vlit()


def seqlift(f, *xs):
    return lift(f, *xs)


def vcat(x, y):
    ps = list(vparts(x))
    for p in vparts(y):
        if ps and ps[-1].op == 'vlit' and p.op == 'vlit':
            ps[-1] = t('vlit', ps[-1].a[0] + p.a[0])
        elif ps and ps[-1].op == 'str' and p.op == 'str':
            ps[-1] = t('str', ps[-1].a[0] + p.a[0])
        else:
            ps.append(p)
    ps = [p for p in ps if p is not EMPTY and not (p.op == 'str' and p.a[0] == '')]
    if not ps:
        return x if x.op == 'str' and y.op == 'str' else EMPTY
    if len(ps) == 1:
        return ps[0]
    return t('vcat', tuple(ps))


def merge_lits(xs):
    return xs


def vparts(x):
    if x.op == 'vcat':
        return x.a[0]
    if x.op == 'str' and x.a[0] == '':
        return (EMPTY,)
    return (x,)


def vlen(x):
    def g(a):
        if a.op == 'vlit':
            r = 0
            ext = ZERO
            for e in a.a[0]:
                if e.op == 'tk':
                    r += e.a[0]
                elif e.op == 'tkx':
                    n = TKLEN.get(e)
                    if n is None:
                        n = t('tklen', e)
                        note_range(n, 0, 1 << 62)
                    ext = iadd(ext, n)
                else:
                    r += 1
            return iadd(ext, I(r))
        if a.op == 'str':
            return I(len(a.a[0]))
        if a.op in ('rdseq', 'slice'):
            return a.a[2]
        if a.op == 'padcopy':
            return a.a[1]
        if a in SEQLEN:
            return SEQLEN[a]
        if a.op in ('splice', 'vupd'):
            return vlen(a.a[0])
        if a.op == 'keys':
            return msize(a.a[0])
        if a.op == 'vcat':
            r = ZERO
            for p in a.a[0]:
                r = iadd(r, vlen(p))
            return r
        if a.op == 'vstore':
            return vlen(a.a[0])
        if a.op == 'vflat':
            n, lam = a.a
            b = lam.a[0]
            if b.op == 'vlit':
                k = vlen(b)
                if k.op == 'int':
                    return imul(n, k)
                if not (k.fv or has_bv(k, lam.a[1])):
                    return imul(n, k)
            return t('len', a)
        if a.op == 'vrep':
            return a.a[0]
        if a.op in ('vtake',):
            return a.a[1]
        if a.op == 'undef':
            return UNDEF
        r = t('len', a)
        return r
    return lift(g, x)


def has_bv(x, lv):
    memo = set()
    st = [x]
    while st:
        z = st.pop()
        if z in memo:
            continue
        memo.add(z)
        if z.op == 'bv' and z.a[0] == lv:
            return True
        st.extend(kids_of(z.a))
    return False


def velem(x, i):
    def g(a, j):
        if a.op == 'vlit' and any(e.op in ('tk', 'tkx') for e in a.a[0]):
            return t('elem', a, j)
        if a.op == 'vlit' and j.op == 'int':
            if 0 <= j.a[0] < len(a.a[0]):
                return a.a[0][j.a[0]]
            return t('oob', a, j)
        if a.op == 'vlit' and 2 <= len(a.a[0]) <= 64 and all(e.op in ('int', 'flt') for e in a.a[0]):
            # a table: pick by position
            lo, hi = rng(j)
            if lo > float('-inf') and hi < float('inf') and hi - lo < 1 << 33:
                n = len(a.a[0])
                r = a.a[0][n - 1]
                if hi >= n:
                    r = ite(ile(j, I(n - 1)), r, t('oob', a, j))
                for k in range(n - 2, -1, -1):
                    r = ite(ile(j, I(k)), a.a[0][k], r)
                if lo < 0:
                    r = ite(ile(I(0), j), r, t('oob', a, j))
                return r
        if a.op == 'str' and j.op == 'int' and 0 <= j.a[0] < len(a.a[0]):
            return I(ord(a.a[0][j.a[0]]))
        if a.op == 'vstore':
            k = a.a[1]
            if k is j:
                return a.a[2]
            e = ieq(k, j)
            if e is FALSE:
                return velem(a.a[0], j)
            if e is TRUE:
                return a.a[2]
            if j.op == 'int' and k.op == 'int':
                return velem(a.a[0], j)
            return ite(e, a.a[2], velem(a.a[0], j))
        if a.op == 'vrep':
            return a.a[1]
        if a.op == 'slice':
            return velem(a.a[0], iadd(a.a[1], j))
        if a.op == 'vupd':
            c, off, k, l = a.a
            i = isub(j, off)
            old = velem(c, j)
            return ite(and_(ile(ZERO, i), ilt(i, k)), subst(beta(l, i), {t('self'): old}), old)
        if a.op == 'splice' and not any(z.op in ('tk', 'tkx') for p in vparts(a.a[3]) if p.op == 'vlit' for z in p.a[0]):
            c, i, n, s = a.a
            k = isub(j, i)
            return ite(and_(ile(ZERO, k), ilt(k, n)), velem(s, k), velem(c, j))
        if a.op == 'vflat':
            n, lam = a.a
            b = lam.a[0]
            if b.op == 'vlit' and len(b.a[0]) == 1 and b.a[0][0].op not in ('tk', 'tkx'):
                return beta(lam, j, pick=b.a[0][0])
        if a.op == 'vcat':
            ps = a.a[0]
            off = ZERO
            # only resolve when the position is provably inside one part
            for p in ps:
                n = vlen(p)
                rel = isub(j, off)
                inside = and_(ile(ZERO, rel), ilt(rel, n))
                if inside is TRUE:
                    return velem(p, rel)
                nxt = ile(n, rel)
                if nxt is not TRUE:
                    break
                off = iadd(off, n)
        r = t('elem', a, j)
        return r
    return lift(g, x, i)


def vstore(x, i, v):
    def g(a, j):
        if a.op == 'vlit' and j.op == 'int' and 0 <= j.a[0] < len(a.a[0]):
            l = list(a.a[0])
            l[j.a[0]] = v
            return t('vlit', tuple(l))
        if a.op == 'vstore' and a.a[1] is j:
            return g(a.a[0], j)
        if velem(a, j) is v and a.op not in ('vlit',):
            return a
        if a.op == 'vstore' and a.a[1].op == 'int' and j.op == 'int' and j.a[0] < a.a[1].a[0]:
            return t('vstore', g(a.a[0], j), a.a[1], a.a[2])
        return t('vstore', a, j, v)
    return lift(g, x, i)


def vrep(n, x):
    def g(m):
        if m.op == 'int' and m.a[0] <= 64:
            return t('vlit', (x,) * max(m.a[0], 0))
        return t('vrep', m, x)
    return lift(g, n)


# ---------------------------------------------------------------- binders
def lam(var, body):
    """abstract loop symbol `var` in body"""
    lv = body.lvl + 1
    b = subst(body, {var: t_bv(lv)})
    r = t('lam', b, lv)
    return r


def t_bv(lv):
    r = t('bv', lv)
    note_range(r, 0, 1 << 62)
    return r


def beta(l, arg, pick=None):
    body, lv = l.a
    if pick is not None:
        body = pick
    return subst(body, {t('bv', lv): arg})


_smemo = {}


def subst(x, m):
    if not m:
        return x
    memo = {}
    keys = set(m)

    def go(z):
        if z in m:
            return m[z]
        r = memo.get(z)
        if r is not None:
            return r
        if not z.a:
            return z
        na = gt(z.a)
        if na == z.a:
            r = z
        else:
            r = rebuild(z.op, na, z)
        memo[z] = r
        return r

    def gt(a):
        return tuple(go(c) if isinstance(c, T) else gt(c) if isinstance(c, tuple) else c for c in a)
    return go(x)


def rebuild(op, a, old=None):
    if op == 'poly':
        r = I(a[0])
        for mono, k in a[1]:
            z = I(k)
            for q in mono:
                z = imul(z, q)
            r = iadd(r, z)
        return r
    if op == 'ite':
        at, h, l = a
        if at.op == 'ite' or at in (TRUE, FALSE):
            return ite(at, h, l)
        # children may have been reordered: rebuild through ite
        return ite(atom(at), h, l)
    if op == 'le':
        return ile(a[0], I(a[1]))
    if op == 'frel':
        return frel(a[0], a[1], '<' if a[2] == 0 else '=' if a[2] == 1 else '>')
    if op in ('eq', 'eqlit'):
        return veq(a[0], a[1])
    if op == 'bit':
        p = lift(lambda z: _bit(z, a[1]), a[0])
        return p
    f = REBUILD.get(op)
    if f:
        r = f(*a)
    else:
        if any(isinstance(c, T) and c.op == 'ite' for c in a) and op in LIFTABLE:
            r = lift(lambda *zs: t(op, *zs), *a)
        else:
            r = t(op, *a)
    if old is not None and old in RANGES and r.op not in ('int', 'poly', 'ite', 'bits') and r not in RANGES:
        RANGES[r] = RANGES[old]
    if old is not None and old in FLOATS:
        FLOATS.add(r)
    return r


def _bit(z, i):
    p = to_bits(z)
    if p is None:
        return bit(z, i)
    return getbit(p, i)


LIFTABLE = {'fld', 'hsel', 'elem', 'len', 'mget', 'deref'}


def fld(x, f):
    def g(a):
        if a.op == 'rec':
            for n, v in a.a[1]:
                if n == f:
                    return v
            return t('fld', f, a)
        if a.op == 'upd':
            for n, v in a.a[1]:
                if n == f:
                    return v
            return g(a.a[0]) if a.a[0].op != 'ite' else fld(a.a[0], f)
        if a.op == 'undef':
            return UNDEF
        return t('fld', f, a)
    if x.op == 'ite':
        return lift(g, x)
    return g(x)


def upd(x, f, v):
    def g(a):
        if a.op == 'rec':
            if any(n == f for n, _ in a.a[1]):
                return t('rec', a.a[0], tuple((n, v if n == f else w) for n, w in a.a[1]))
            return t('rec', a.a[0], tuple(sorted(a.a[1] + ((f, v),))))
        base, fs = (a.a if a.op == 'upd' else (a, ()))
        d = dict(fs)
        d[f] = v
        if fld(base, f) is v:
            del d[f]
        if not d:
            return base
        return t('upd', base, tuple(sorted(d.items(), key=lambda kv: kv[0])))
    return lift(g, x) if x.op == 'ite' else g(x)


def hsel(h, p):
    def g(a, q):
        if a.op == 'heap':
            near = []
            for k, v in a.a[1]:
                if k is q:
                    return v
                e = same_member(k, q)
                if e is not FALSE:
                    near.append((e, v))
            r = g2(a.a[0], q)
            for e, v in near:
                r = ite(e, v, r)
            return r
        return g2(a, q)

    def g2(a, q):
        if a.op == 'heap':
            return g(a, q)
        if a.op == 'H0':
            if q.op == 'alloc' and q.a[1] and q.a[2] is not UNDEF:
                return q.a[2]           # as left by the iteration which created it
            return t('deref', q)
        if a.op == 'ite':
            return lift(g, a, q)
        if a.op == 'hmap':
            base, n, plam, vlam = a.a
            # pointwise update of elem(seq, i), i < n
            pb = plam.a[0]
            if pb.op == 'elem' and q.op == 'elem' and pb.a[0] is q.a[0] and pb.a[1] is t('bv', plam.a[1]):
                i = q.a[1]
                ins = and_(ile(ZERO, i), ilt(i, n))
                if ins is TRUE:
                    return beta(vlam, i)
                return ite(ins, beta(vlam, i), hsel(base, q))
            if q.op == 'alloc' and pb.op == 'alloc':
                if q.a[0] is not pb.a[0] and q.a[0] != pb.a[0]:
                    return hsel(base, q)
                if len(q.a[1]) == len(pb.a[1]) == 1 and pb.a[1][0] is t('bv', plam.a[1]):
                    i = q.a[1][0]
                    return ite(and_(ile(ZERO, i), ilt(i, n)), beta(vlam, i), hsel(base, q))
            elif q.op == 'alloc':
                return hsel(base, q)
        return t('hsel', a, q)
    return lift(g, h, p)


def same_member(p, q):
    """gate on which two pointers into one family (objects made by one loop, elements of one sequence) coincide"""
    if p.op == 'alloc' and q.op == 'alloc' and p.a[0] == q.a[0] and len(p.a[1]) == len(q.a[1]) and p.a[1]:
        r = TRUE
        for i, j in zip(p.a[1], q.a[1]):
            r = and_(r, ieq(i, j))
        return r
    if p.op == 'elem' and q.op == 'elem' and p.a[0] is q.a[0]:
        return ieq(p.a[1], q.a[1])
    return FALSE


def hput(h, p, v):
    """p is an ungated pointer"""
    def g(a):
        base, es = (a.a if a.op == 'heap' else (a, ()))
        if any(k is not p and same_member(k, p) is not FALSE for k, _ in es):
            return t('heap', a, ((p, v),))
        d = dict(es)
        d[p] = v
        if hsel(base, p) is v:
            del d[p]
        if not d:
            return base
        return t('heap', base, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
    return lift(g, h) if h.op == 'ite' else g(h)


# maps
def mhas(m, k):
    def g(a):
        if a.op == 'mempty':
            return FALSE
        if a.op == 'mput':
            e = veq(a.a[1], k)
            return or_(e, mhas(a.a[0], k))
        if a.op == 'mdel':
            e = veq(a.a[1], k)
            return and_(not_(e), mhas(a.a[0], k))
        return atom(t('has', a, k))
    return lift(g, m)


def mget(m, k):
    def g(a):
        if a.op == 'mput':
            e = veq(a.a[1], k)
            return ite(e, a.a[2], mget(a.a[0], k)) if e is not TRUE else a.a[2]
        if a.op == 'mdel':
            return mget(a.a[0], k)
        return t('mget', a, k)
    return lift(g, m)


def pinned(p):
    """polynomial p with the quantities an assumption fixed replaced by their values (None: it has none)"""
    if p.op != 'poly':
        return None
    c, ms = poly_parts(p)
    hit = False
    out = {}
    for mono, q in ms:
        keep = []
        for z in mono:
            r = RANGES.get(z)
            if r is not None and r[0] == r[1]:
                q *= r[0]
                hit = True
            else:
                keep.append(z)
        if keep:
            out[tuple(keep)] = out.get(tuple(keep), 0) + q
        else:
            c += q
    return mkpoly(c, {m: q for m, q in out.items() if q}) if hit else None


def restrict(c, given):
    """condition c where the given literals hold"""
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x)
        if r is None:
            v = given.get(x.a[0])
            if v is None and x.a[0].op == 'le':
                q = pinned(x.a[0].a[0])
                if q is not None:
                    d = restrict(ile(q, I(x.a[0].a[1])), given)
                    if d is TRUE or d is FALSE:
                        v = d is TRUE
                    else:
                        r = memo[x] = ite(d, go(x.a[1]), go(x.a[2]))
                        return r
            if v is None:
                h, l = go(x.a[1]), go(x.a[2])
                r = x if h is x.a[1] and l is x.a[2] else ite(atom(x.a[0]), h, l)
            else:
                r = go(x.a[1] if v else x.a[2])
            memo[x] = r
        return r
    return go(c)


def ground(a):
    """[(key, value)] of a map all of whose keys are known to be distinct, in order of insertion; else None"""
    r = GROUND.get(a)
    if r is None and a not in GROUND:
        if a.op == 'mempty':
            r = []
        elif a.op == 'mput':
            r = ground(a.a[0])
            if r is not None:
                if all(veq(k, a.a[1]) is FALSE for k, _ in r):
                    r = r + [(a.a[1], a.a[2])]
                else:
                    r = None
        GROUND[a] = r
    return r


GROUND = {}


def mput(m, k, v):
    def g(a):
        if a.op == 'mput':
            if a.a[1] is k:
                return t('mput', a.a[0], k, v)
            e = veq(a.a[1], k)
            if e is TRUE:
                return t('mput', a.a[0], k, v)
            if e is FALSE and mhas(a.a[0], k) is TRUE and ground(a) is not None:
                # a known other entry: replaced in place
                return t('mput', mput(a.a[0], k, v), a.a[1], a.a[2])
        return t('mput', a, k, v)
    return lift(g, m)


def mdel(m, k):
    def g(a):
        if a.op == 'mempty':
            return a
        if a.op == 'mput':
            e = veq(a.a[1], k)
            if e is TRUE:
                return mdel(a.a[0], k)
            if e is FALSE:
                return mput(mdel(a.a[0], k), a.a[1], a.a[2])
        return t('mdel', a, k)
    return lift(g, m)


def msize(m):
    def g(a):
        r = ground(a)
        if r is not None:
            return I(len(r))
        return t('msize', a)
    return lift(g, m)


def r_notnan(a):
    if isflt(a):
        return TRUE
    return atom(t('notnan', a)) if a.op != 'ite' else lift(r_notnan, a)


REBUILD = {
    'fadd': fadd, 'fneg': fneg, 'fmul': fmul, 'fdiv': fdiv, 'scale2': scale2, 'fpow2': fpow2, 'i2f': i2f,
    'idiv': idiv, 'imod': imod, 'wrap': wrap, 'vcat': lambda ps: __import__('functools').reduce(vcat, ps, EMPTY),
    'len': vlen, 'elem': velem, 'vstore': vstore, 'fld': lambda f, x: fld(x, f), 'hsel': hsel,
    'mget': mget, 'msize': msize, 'vrep': vrep, 'shr': shr, 'shl': shl,
    'mput': mput, 'mdel': mdel, 'notnan': r_notnan,
    'ipow2': lambda k: shl(ONE, k),
    'has': mhas,
    'bits': lambda bs, sx: from_bits(bs, sx),
    'upd': lambda b, fs: __import__('functools').reduce(lambda x, kv: upd(x, kv[0], kv[1]), fs, b),
    'heap': lambda b, es: __import__('functools').reduce(lambda x, kv: hput2(x, kv[0], kv[1]), es, b),
}


def hput2(h, p, v):
    if p.op == 'ite':
        r = h
        return ite(atom(p.a[0]), hput2(h, p.a[1], v), hput2(h, p.a[2], v))
    return hput(h, p, v)


def exists(n, var, c):
    """boolean: some 0 <= var < n satisfies c"""
    if c is FALSE:
        return FALSE
    if n is ZERO:
        return FALSE
    if c is TRUE or not (c.fv and var in c.fv):
        return and_(ilt(ZERO, n), c)
    return _reb_exists(n, lam(var, c))


def _extreme(n, l):
    """a condition that only gets harder or only gets easier with the position is decided at one end"""
    lv = l.a[1]
    v = t('bv', lv)
    up = down = True
    todo, seen = [l.a[0]], set()
    while todo:
        c = todo.pop()
        if c in seen or c is TRUE or c is FALSE:
            continue
        seen.add(c)
        if c.op != 'ite' or len(seen) > 40:
            return None
        todo += [c.a[1], c.a[2]]
        if not has_bv(c.a[0], lv):
            continue
        if c.a[0].op != 'le':
            return None
        k = None
        for m, q in poly_parts(c.a[0].a[0])[1]:
            for x in m:
                if x is v:
                    if len(m) != 1:
                        return None
                    k = q
                elif has_bv(x, lv):
                    return None
        if k is None:
            return None
        late, early = (c.a[2], c.a[1]) if k > 0 else (c.a[1], c.a[2])
        up = up and or_(not_(early), late) is TRUE
        down = down and or_(not_(late), early) is TRUE
    if not (up or down):
        # not at one end only: the ends are instances, and each conjunct must hold somewhere
        r = FALSE
        for e in (ZERO, iadd(n, I(-1))):
            r = or_(r, beta(l, e))
        need, c = TRUE, l.a[0]
        while c is not TRUE and FALSE in (c.a[1], c.a[2]):
            lit = atom(c.a[0]) if c.a[2] is FALSE else not_(atom(c.a[0]))
            need = and_(need, _reb_exists(n, t('lam', lit, lv)))
            c = c.a[1] if c.a[2] is FALSE else c.a[2]
        return and_(ilt(ZERO, n), or_(r, and_(need, atom(t('exists', n, l)))))
    return and_(ilt(ZERO, n), beta(l, iadd(n, I(-1)) if up else ZERO))


def _reb_exists(n, l):
    if l.op != 'lam':
        return atom(t('exists', n, l))
    if l.a[0] is FALSE or n is ZERO:
        return FALSE
    if l.a[0] is TRUE:
        return ilt(ZERO, n)
    if not has_bv(l.a[0], l.a[1]):
        return and_(ilt(ZERO, n), l.a[0])
    if n.op == 'int' and n.a[0] <= 16:
        r = FALSE
        for i in range(n.a[0]):
            r = or_(r, beta(l, I(i)))
        return r
    r = _extreme(n, l)
    if r is not None:
        return r
    return atom(t('exists', n, l))


REBUILD['exists'] = _reb_exists


def _reb_first(n, l):
    if n.op == 'ite' and not (l.op == 'lam' and l.a[0] is FALSE):
        return lift(lambda k: _reb_first(k, l), n)
    if l.op == 'lam' and l.a[0] is FALSE or n is ZERO:
        return n
    if l.op == 'lam' and n.op == 'int' and n.a[0] <= 64:
        r = n
        for i in reversed(range(n.a[0])):
            r = ite(beta(l, I(i)), I(i), r)
        return r
    r = t('first', n, l)
    note_range(r, 0, 1 << 62)
    return r


REBUILD['first'] = _reb_first


def _reb_fold(k, key, i):
    """a fold whose number of iterations has become known"""
    if k.op == 'ite' and all(l.op == 'int' for l in leaves(k)):
        return lift(lambda n: _reb_fold(n, key, i), k)
    if k.op != 'int' or k.a[0] > 8 or any(s.a[0].op in ('true', 'false') for s in key.a[0]):
        return t('fold', k, key, i)
    steps = key.a[0]
    vs = [s.a[0] for s in steps]
    accs = {}
    seen = set()

    def find(z, lv):
        if z in seen:
            return
        seen.add(z)
        if z.op == 'bacc' and z.a[0] == lv:
            accs[z] = z.a[1]
        for c in kids_of(z.a):
            find(c, lv)
    for s in steps:
        find(s.a[1].a[0], s.a[1].a[1])
    for n in range(k.a[0]):
        m = {z: vs[j] for z, j in accs.items()}
        new = []
        for s in steps:
            body, lv = s.a[1].a
            mm = dict(m)
            mm[t('bv', lv)] = I(n)
            new.append(subst(body, mm))
        vs = new
    return vs[i]


REBUILD['fold'] = _reb_fold
REBUILD['lam'] = lambda b, lv: t('lam', b, lv)


# ---------------------------------------------------------------- printing
_shown = {}


def show(x, d=0):
    if d > 14:
        return '…'
    if not x.a:
        return _show(x, d)
    if d == 0:
        _shown.clear()
    r = _shown.get((x, d))
    if r is None:
        r = _show(x, d)
        if len(r) > 6000:
            r = r[:6000] + '…'
        _shown[(x, d)] = r
    return r


def _show(x, d):
    op = x.op
    s = lambda z: show(z, d + 1)
    if op == 'true' or op == 'false':
        return op
    if op == 'int':
        return str(x.a[0])
    if op == 'flt':
        return repr(x.a[0])
    if op == 'str':
        return repr(x.a[0])
    if op == 'sym':
        return x.a[0]
    if op == 'in':
        return 'arg%d' % x.a[0]
    if op == 'poly':
        c, ms = x.a
        r = []
        for m, k in ms:
            r.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + '*'.join(s(q) for q in m))
        if c:
            r.append(str(c))
        return '(' + ' + '.join(r) + ')'
    if op == 'ite':
        if x.a[1] is TRUE and x.a[2] is FALSE:
            return s(x.a[0])
        if x.a[1] is FALSE and x.a[2] is TRUE:
            return '!' + s(x.a[0])
        return '{%s ? %s : %s}' % (s(x.a[0]), s(x.a[1]), s(x.a[2]))
    if op == 'le':
        return '(%s <= %d)' % (s(x.a[0]), x.a[1])
    if op == 'frel':
        return '(%s %s %s)' % (s(x.a[0]), '<=>'[x.a[2]], s(x.a[1]))
    if op == 'fld':
        return s(x.a[1]) + '.' + x.a[0].split('::')[-1]
    if op == 'deref':
        return '*' + s(x.a[0])
    if op == 'elem':
        return '%s[%s]' % (s(x.a[0]), s(x.a[1]))
    if op == 'bits':
        return 'bits<' + ','.join(s(b) for b in reversed(x.a[0])) + '>'
    if op == 'bit':
        return '%s#%d' % (s(x.a[0]), x.a[1])
    if op == 'rec':
        return x.a[0].split('::')[-1] + '{' + ', '.join(f.split('::')[-1] + '=' + s(v) for f, v in x.a[1]) + '}'
    if op == 'vlit':
        return '[' + ', '.join(s(q) for q in x.a[0]) + ']'
    if op == 'vcat':
        return '++'.join(s(q) for q in x.a[0])
    if op == 'bv':
        return '$%d' % x.a[0]

    def w(c):
        if isinstance(c, T):
            return s(c)
        if isinstance(c, tuple):
            return '(' + ', '.join(w(q) for q in c) + ')'
        return str(c)
    return op + '(' + ', '.join(w(c) for c in x.a) + ')'
