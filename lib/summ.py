"""Summaries of law functions: inputs -> (exception condition, result, final state of reference parameters, heap)."""
import terms as tm
from terms import t, I as N, TRUE, FALSE, UNDEF, and_, or_, not_, leaves
from engine import Interp, Frame, root, rec, STREAMS, unk, sub, is_oob


class Summary:
    pass


def summarise(P, d, opaque=(), pure=(), name='', **kw):
    I = Interp(P, opaque, pure)
    for k, v in kw.items():
        setattr(I, k, v)
    a = []
    outs = []
    for i, pt in enumerate(d.ps):
        tt = pt.t if pt.k == 'ref' else pt
        v = t('in', i, name)
        if pt.k == 'ref':
            uid = 'arg%d' % i
            I.env[uid] = v
            r = root(uid)
            if tt.k == 'rec':
                I.dyn[r] = tt.n
                fr = None
            I.env[uid] = I.typed(v, tt)
            a.append(r)
            if not tt.c:
                outs.append((i, r, tt))
        else:
            a.append(I.typed(v, pt))
    fn = P.funcs[d.id]
    top = Frame()
    top.n, top.fn, top.vars, top.this, top.types, top.rets, top.roots, top.retty = 0, fn, {}, None, fn.types, [], [], d.ret
    I.frames.append(top)
    ret = I.inline(d, fn, None, a)
    s = Summary()
    s.d, s.I = d, I
    s.exc = FALSE
    for x in I.exits:
        if x.kind == 'throw' and not is_oob(x):
            s.exc = or_(s.exc, x.pc)
    s.throws = [x for x in I.exits if x.kind == 'throw']
    s.oob = {}
    for x in s.throws:
        if is_oob(x):
            s.oob[x.val] = or_(s.oob.get(x.val, FALSE), x.pc)
    s.ok = I.pc
    s.ret = None
    s.outs = []
    if I.pc is not FALSE:
        if d.ret is not None and d.ret.k != 'void':
            v = ret
            if d.ret.k == 'ref':
                v = I.load(ret, I.strip(d.ret))
            else:
                v = I.typed(v, d.ret)
            s.ret = I.reify(v)
        for i, r, tt in outs:
            s.outs.append((i, I.reify(I.load(r, tt))))
    h = I.env['#H']
    s.heap = heap_view(I, h)
    s.assumed = I.assumed
    return s


def heap_view(I, h):
    """final contents of locations that existed before the call"""
    if h.op == 'heap':
        base, es = h.a
        es = tuple((p, I.reify(v)) for p, v in es if p.op not in ('alloc', 'root') and
                   not (p.op == 'global' and str(p.a[0]) in ('std::cout', 'std::cerr', 'std::clog')))
        if not es:
            return heap_view(I, base)
        b = heap_view(I, base)
        return t('heap', b, es)
    if h.op == 'hmap' and h.a[2].a[0].op in ('alloc', 'root'):
        return heap_view(I, h.a[0])
    return h


def show(s):
    r = []
    if s.exc is not FALSE:
        r.append('EXC  ' + tm.show(s.exc))
    if s.ret is not None:
        r.append('RET  ' + tm.show(s.ret))
    for i, v in s.outs:
        r.append('OUT%d ' % i + tm.show(v))
    if s.heap.op != 'H0':
        r.append('HEAP ' + tm.show(s.heap))
    return '\n'.join(r)
