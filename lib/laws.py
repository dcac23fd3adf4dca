"""Law checking: spec/<property>.cpp holds pairs lhs_x/rhs_x (both must have the same summary for every input) and
always_x predicates (must be true for every input).  Both sides go through the same analysis of the current sources."""
import os
import pickle
import re
import resource
import select
import signal
import sys
import time
import traceback
import front
import terms as tm
import summ
from terms import T, t, TRUE, FALSE, and_, or_, not_, ite, leaves
from compare import Cmp, Diff, show_facts, implied
from engine import Unsupported


class Result:
    def __init__(self):
        self.laws = []          # names
        self.violations = []    # dicts
        self.incomplete = []    # strings
        self.functions = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []


def directives(path):
    d = {'opaque': [], 'pure': [], 'nan': False, 'result': False, 'badpos': False}
    for l in open(path):
        m = re.match(r'\s*//@\s*(\w+)\s*:?\s*(.*)', l)
        if m:
            k, v = m.group(1), m.group(2).split()
            if k in ('opaque', 'pure'):
                d[k] += v
            elif k in ('nan', 'result', 'badpos'):
                d[k] = True
    return d


# functions of the standard library on numbers: different functions, different values
SCALAR = {'rint', 'nearbyint', 'trunc', 'lround', 'llround', 'lrint', 'llrint', 'abs', 'fabs', 'fmod', 'exp2', 'log2', 'sqrt', 'ldexp',
          'scalbn', 'floor', 'ceil', 'round', 'pow', 'exp', 'log', 'remainder', 'hypot', 'stoi', 'stol', 'stoul', 'stod', 'to_string',
          'tolower', 'toupper', 'isspace'}


def unmodelled(z):
    """an operation of the standard library without a model"""
    if z.op not in ('call', 'post'):
        return False
    n = z.a[1] if z.op == 'post' else z.a[0]
    return isinstance(n, str) and n.startswith(('std::', '__gnu')) and n.split('::')[-1] not in SCALAR


def has_unk(x, seen=None):
    seen = set()
    st = [x]
    while st:
        z = st.pop()
        if z in seen:
            continue
        seen.add(z)
        if z.op in ('unk', 'global') or unmodelled(z):
            return z
        st.extend(tm.kids_of(z.a))
    return None


def repo_fns(s):
    out = []
    for f in s.I.used.values():
        if f.file.startswith(front.REPO):
            out.append((f.name, os.path.relpath(f.file, front.REPO), f.line))
    return out


def anchor(*ss):
    """the library functions a law calls directly"""
    seen = {}
    for s in ss:
        for n, f, l in repo_fns(s):
            seen.setdefault(n, '%s (%s:%d)' % (n, f, l))
    return list(seen.values())


def check_spec(P, path, res, only=None):
    dv = directives(path)
    tm.NAN[0] = dv['nan']
    if P.find('pybound_module'):
        import pybind
        pybind.registry(P)
    names = {}
    for n in P.byname:
        d = P.find(n)[0]
        f = P.funcs.get(d.id)
        if f is None or os.path.abspath(f.file) != os.path.abspath(path):
            continue
        short = n.split('::')[-1]
        m = re.match(r'(lhs|rhs|always|safe)_(\w+)$', short)
        if m:
            names.setdefault(m.group(2), {})[m.group(1)] = d
    order = sorted(names, key=lambda n: min(P.funcs[d.id].line for d in names[n].values()))
    run_laws(P, [n for n in order if not only or re.search(only, n)], names, dv, res)


LIMIT = [240.0]         # seconds for one law
MEMORY = 4 << 30        # bytes for one law
START = time.time()
WHOLE = 760.0           # seconds for all laws of a check


def limit(now, waiting):
    """how long a law may take: less when many are left and time runs short"""
    left = START + WHOLE - now
    return max(0.0 if left <= 0 else min(10.0, left), min(LIMIT[0], left * WORKERS / max(1, waiting)))
WORKERS = min(8, os.cpu_count() or 1)


def one_law(P, n, ds, dv):
    r = Result()
    try:
        check_law(P, n, ds, dv, r)
    except (Unsupported, tm.Blowup, RecursionError, MemoryError) as e:
        r.incomplete.append('%s: %s %s at %s' % (n, type(e).__name__, e, tm.CUR[0]))
    return r


def run_laws(P, order, names, dv, res):
    """every law is decided in a process of its own: what one law assumes must not be visible to another"""
    todo = list(order)
    live = {}               # fd -> [name, pid, start, chunks]
    done = {}
    while todo or live:
        while todo and len(live) < WORKERS:
            n = todo.pop(0)
            rd, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(rd)
                    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                    try:
                        r = one_law(P, n, names[n], dv)
                    except Exception as e:
                        r = Result()
                        r.incomplete.append('%s: %s %s at %s' % (n, type(e).__name__, e, tm.CUR[0]))
                        r.broken = traceback.format_exc()
                    data = pickle.dumps(r.__dict__)
                    with os.fdopen(wr, 'wb') as f:
                        f.write(data)
                    rc = 0
                finally:
                    os._exit(rc)
            os.close(wr)
            live[rd] = [n, pid, time.time(), []]
        now = time.time()
        each = limit(now, len(todo) + len(live))
        wait = min(5.0, min(max(0.01, w[2] + each - now) for w in live.values()))
        ready, _, _ = select.select(list(live), [], [], wait)
        for fd in ready:
            w = live[fd]
            c = os.read(fd, 1 << 20)
            if c:
                w[3].append(c)
                continue
            finish(fd, live, done, '')
        now = time.time()
        each = limit(now, len(todo) + len(live))
        for fd in [fd for fd, w in live.items() if now - w[2] > each]:
            os.kill(live[fd][1], signal.SIGKILL)
            finish(fd, live, done, 'time limit of %d s' % each)
    for n in order:
        d, secs = done[n]
        res.laws.append((n, secs))
        res.violations += d['violations']
        res.incomplete += d['incomplete']
        res.functions.update(d['functions'])
        res.obligations += d['obligations']
        res.discharged += d['discharged']
        res.samples += d['samples'][:max(0, 12 - len(res.samples))]


def finish(fd, live, done, why):
    n, pid, t0, chunks = live.pop(fd)
    os.close(fd)
    os.waitpid(pid, 0)
    d = None
    if not why and chunks:
        try:
            d = pickle.loads(b''.join(chunks))
        except Exception:
            d = None
    if d is None:
        r = Result()
        r.incomplete.append('%s: %s' % (n, why or 'analysis process died'))
        d = r.__dict__
    done[n] = (d, round(time.time() - t0, 3))


def facts_of(c):
    """conjunction of literals when c is one"""
    out = []
    while c.op == 'ite':
        if c.a[2] is FALSE:
            out.append((c.a[0], True))
            c = c.a[1]
        elif c.a[1] is FALSE:
            out.append((c.a[0], False))
            c = c.a[2]
        else:
            break
    return out, c


def check_law(P, name, ds, dv, res):
    kw = dict(opaque=dv['opaque'], pure=dv['pure'], name=name, badpos=dv['badpos'])
    if 'always' in ds:
        s = summ.summarise(P, ds['always'], **kw)
        collect(res, s)
        pin(s)
        ob = [('never throws', s.exc, FALSE), ('holds', s.ret if s.ret is not None else TRUE, TRUE)]
        for what, a, b in ob:
            a = under(a, s.assumed, b)
            decide(res, name, what, a, b, s, None, ())
        return
    if 'safe' in ds:
        s = summ.summarise(P, ds['safe'], safe=True, **kw)
        collect(res, s)
        pin(s)
        safety(res, name, s)
        return
    l, r = ds.get('lhs'), ds.get('rhs')
    if l is None or r is None:
        res.incomplete.append('%s: law is missing a side' % name)
        return
    if [p.str for p in l.ps] != [p.str for p in r.ps]:
        res.incomplete.append('%s: sides differ in signature' % name)
        return
    a = summ.summarise(P, l, **kw)
    b = summ.summarise(P, r, **kw)
    collect(res, a)
    collect(res, b)
    pin(a)
    pin(b)
    asm = and_(a.assumed, b.assumed)
    exa, exb = and_(asm, a.exc), and_(asm, b.exc)
    decide(res, name, 'refuses (throws)', exa, exb, a, b, ())
    ok = and_(asm, not_(or_(a.exc, b.exc)))
    if ok is FALSE:
        return
    if a.ret is not None:
        raw = None
        if ok is not TRUE and a.ret not in (TRUE, FALSE):
            from compare import necessary
            raw = (a.ret, b.ret, tuple(necessary(ok)))
        decide(res, name, 'result', guard(ok, a.ret), guard(ok, b.ret), a, b, (), raw)
    if dv['result']:
        return              # the arguments keep caches: only what is returned counts
    for (i, x), (_, y) in zip(a.outs, b.outs):
        decide(res, name, 'state of argument %d' % i, guard(ok, x), guard(ok, y), a, b, ())
    if a.heap is not b.heap:
        heap(res, name, ok, a, b)
    else:
        res.obligations += 1
        res.discharged += 1


def safety(res, name, s):
    """every access the function reaches stays inside its object"""
    bad = {}
    for v, c in s.oob.items():
        k = (v.a[1], v.a[0])
        bad[k] = or_(bad.get(k, FALSE), c)
    for k in sorted(s.I.sites):
        c = bad.get(k, FALSE)
        if c is FALSE:
            res.obligations += 1
            res.discharged += 1
            continue
        decide(res, name, '%s at %s stays inside' % (k[1], k[0]), and_(s.assumed, c), FALSE, s, None, ())


def pin(s):
    """quantities which an assumption fixed, replaced by their values everywhere"""
    m = dict(tm.PINS)
    if not m:
        return
    for k, v in tm.PINS.items():
        # a short sequence of known length is the list of its elements
        if k.op == 'len' and v.op == 'int' and 0 <= v.a[0] <= 1024 and k.a[0].op not in ('vlit', 'vcat', 'vflat', 'ite'):
            m[k.a[0]] = tm.vlit(*[tm.velem(k.a[0], tm.I(i)) for i in range(v.a[0])])
    s.assumed, s.exc = tm.subst(s.assumed, m), tm.subst(s.exc, m)
    if s.ret is not None:
        s.ret = tm.subst(s.ret, m)
    s.outs = [(i, tm.subst(x, m)) for i, x in s.outs]
    s.oob = {k: tm.subst(x, m) for k, x in s.oob.items()}
    s.heap = tm.subst(s.heap, m)


def heap(res, name, ok, a, b):
    ks = {}
    bases = []
    for s in (a, b):
        h = s.heap
        while h.op == 'heap':
            for p, v in h.a[1]:
                ks[p] = 1
            h = h.a[0]
        bases.append(h)
    if bases[0] is not bases[1]:
        decide(res, name, 'heap', guard(ok, a.heap), guard(ok, b.heap), a, b, ())
        return
    for p in ks:
        decide(res, name, 'object ' + tm.show(p), guard(ok, tm.hsel(a.heap, p)), guard(ok, tm.hsel(b.heap, p)), a, b, ())


DONT = t('dontcare')


def guard(ok, x):
    """x where ok, irrelevant elsewhere"""
    if ok is TRUE:
        return x
    if x.op == 'rec':
        return t('rec', x.a[0], tuple((f, guard(ok, v)) for f, v in x.a[1]))
    if x in (TRUE, FALSE) or x.op == 'ite' and all(z in (TRUE, FALSE) for z in leaves(x)):
        return and_(ok, x)
    return tm.t('ite', ok.a[0], x, DONT) if ok.op == 'ite' and ok.a[1] is TRUE and ok.a[2] is FALSE and x.op != 'ite' else ite(ok, x, DONT)


def under(a, asm, b):
    if b is TRUE:
        return or_(not_(asm), a)
    return and_(asm, a)


def collect(res, s):
    for n, f, l in repo_fns(s):
        res.functions['%s:%d %s' % (f, l, n)] = 1


def first_try(raw):
    """None when the values agree whether or not the call succeeds"""
    if raw is None:
        return raw is None
    c = Cmp(raw[2])
    c.limit = 4000
    try:
        return c.equal(raw[0], raw[1])
    except tm.Blowup:
        return True


def decide(res, name, what, a, b, sa, sb, facts, raw=None):
    res.obligations += 1
    c = Cmp(facts)
    try:
        d = first_try(raw)
        if d is not None:
            d = c.equal(a, b)
    except tm.Blowup:
        res.incomplete.append('%s: %s: comparison too large' % (name, what))
        return
    if d is None:
        res.discharged += 1
        if len(res.samples) < 12:
            res.samples.append({'law': name, 'obligation': what, 'leaves_compared': c.leaves,
                                'value': tm.show(a)[:300]})
        return
    u = has_unk(d.a) or has_unk(d.b)
    for f in d.facts:
        u = u or has_unk(f if isinstance(f, T) else f[0])
    if u is not None:
        res.incomplete.append('%s: %s: not modelled: %s (%s)' % (name, what, tm.show(u), fmt_loc(u)))
        return
    w = no_form(d.a, d.b, *[f if isinstance(f, T) else f[0] for f in d.facts])
    if w is not None:
        res.incomplete.append('%s: %s: a loop without a closed form (%s) differs from the law in form' % (name, what, w))
        return
    ss = [s for s in (sa, sb) if s is not None]
    res.violations.append({
        'law': name, 'obligation': what, 'where': ''.join(map(str, d.path)) if d.path else '',
        'case': show_facts(d.facts), 'got': tm.show(d.a)[:1500], 'required': tm.show(d.b)[:1500],
        'constructs': anchor(*ss)})


def no_form(*xs):
    """operator of a loop summary which has no canonical form: two such summaries may differ and mean the same"""
    seen = set()
    st = list(xs)
    while st:
        z = st.pop()
        if z in seen:
            continue
        seen.add(z)
        if z.op in ('fold', 'trips', 'exits', 'forever', 'bacc'):
            return z.op
        st.extend(tm.kids_of(z.a))
    return None


def fmt_loc(u):
    from engine import UNKS
    c = UNKS.get(u)
    return '%s:%s' % c if c else '?'
