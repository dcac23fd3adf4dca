"""C28: abstract interpretation of python/copclib/mp (lib/pyabs.py).

The helpers are interpreted over abstract readers, nodes, points and worker results, for every number of nodes and chunk
size up to a bound and every completion order up to a bound; the events (submissions, calls of the caller's functions,
callbacks, writes, header updates) must be exactly those required, each once and with its own node's data."""
import itertools
import os

import front
import pyabs
from pyabs import Sym, Obj, Prim, Cls, Mod, Interp, Raised, Undecided, EXCS, Arr, NUMPY, Gen, extreme

MP = front.REPO + '/python/copclib/mp/'
FILEREADER, FILEWRITER, LAZWRITER = Cls('FileReader'), Cls('FileWriter'), Cls('LazWriter')
WORKERERR = Cls('WorkerFailure', (EXCS['RuntimeError'],))


class World:
    """the abstract environment of one scenario"""
    def __init__(self, sc, order):
        self.sc, self.order = sc, order
        self.events = []
        n = sc['nodes']
        self.nodes = [Obj('Node', name='node%d' % i, key=Sym('key', i), page_key=Sym('page_key', i),
                          point_count=sc['counts'][i], __open__=True) for i in range(n)]
        self.subset = self.nodes[:max(0, n - 1)]
        self.points = {}
        self.ended = False
        self.main = Obj(FILEREADER, name='reader', path=Sym('path'), __open__=True)
        self.main.attrs['GetAllNodes'] = Prim(lambda I, a, k: list(self.nodes), 'GetAllNodes')
        self.main.attrs['GetNodesWithinResolution'] = Prim(self.within, 'GetNodesWithinResolution')
        self.main.attrs['GetPoints'] = Prim(lambda I, a, k: self.getpoints(self.main, a[0]), 'GetPoints')
        self.header = Obj('LasHeader', name='header', __open__=True)
        self.writer = None
        if sc.get('writer') == 'copc':
            self.writer = Obj(FILEWRITER, name='writer', copc_config=Obj('CopcConfigWriter', las_header=self.header))
            self.writer.attrs['AddNodeCompressed'] = Prim(self.addnode, 'AddNodeCompressed')
        elif sc.get('writer') == 'laz':
            self.writer = Obj(LAZWRITER, name='writer', laz_config=Obj('LazConfigWriter', las_header=self.header))
            self.writer.attrs['WritePointsCompressed'] = Prim(self.writepoints, 'WritePointsCompressed')
        self.workerreader = None

    def ev(self, I, kind, *a):
        self.events.append((kind, a, where(I)))

    def within(self, I, a, k):
        r = list(a) + list(k.values())
        self.ev(I, 'within', r[0] if len(r) == 1 else r)
        return list(self.subset)

    def getpoints(self, reader, node):
        if node not in self.nodes:
            pyabs.throw('RuntimeError', 'GetPoints of something else')
        i = self.nodes.index(node)
        if (i, reader) not in self.points:
            self.points[i, reader] = mkpoints(self, 'n%d' % i, self.sc['counts'][i], i)
        return self.points[i, reader]

    def addnode(self, I, a, k):
        f = bindargs(['key', 'compressed_data', 'point_count', 'page_key'], a, k, {'page_key': Sym('rootkey')})
        self.ev(I, 'write', f['key'], f['compressed_data'], f['point_count'], f['page_key'])
        return Sym('written')

    def writepoints(self, I, a, k):
        f = bindargs(['compressed_data', 'point_count'], a, k, {})
        self.ev(I, 'write', f['compressed_data'], f['point_count'])

    # -- modules the analysed source imports
    def modules(self, I, name):
        parts = name.split('.')
        if parts[0] == 'copclib' and len(parts) > 1 and parts[1] == 'mp':
            p = MP + '/'.join(parts[2:] or ['__init__']) + '.py'
            if os.path.exists(p):
                return I.load(p, name, '.'.join(parts[:-1]) if parts[2:] else name)
            return Mod(name, {})
        if name == 'copclib':
            return Mod(name, {'FileReader': Cls('FileReader', (FILEREADER,), self.mkreader), 'FileWriter': FILEWRITER,
                              'LazWriter': LAZWRITER, 'CompressBytes': Prim(self.compress, 'CompressBytes'),
                              'Vector3': Prim(lambda I, a, k: list(a[0]) if len(a) == 1 else list(a), 'Vector3'),
                              'Vector3D': Prim(lambda I, a, k: list(a), 'Vector3D')})
        if name in ('concurrent', 'concurrent.futures'):
            m = Mod(name, {'ProcessPoolExecutor': Prim(self.executor, 'ProcessPoolExecutor'),
                           'as_completed': Prim(self.completed, 'as_completed'),
                           'wait': Prim(self.wait, 'wait'), 'FIRST_COMPLETED': 'FIRST_COMPLETED',
                           'ALL_COMPLETED': 'ALL_COMPLETED', 'FIRST_EXCEPTION': 'FIRST_EXCEPTION'})
            return Mod(name, {'futures': m}) if name == 'concurrent' else m
        if name == 'numpy':
            return Mod(name, dict(NUMPY))
        if name == 'functools':
            return Mod(name, {'partial': Prim(partial, 'partial'), 'reduce': Prim(reduce_, 'reduce'),
                              'wraps': Prim(lambda I, a, k: Prim(lambda I, b, k2: b[0], 'wraps'), 'wraps'),
                              'lru_cache': Prim(lambda I, a, k: a[0] if a else Prim(lambda I, b, k2: b[0], 'c'), 'lru_cache')})
        if name == 'itertools':
            return Mod(name, {'islice': Prim(islice, 'islice'),
                              'chain': Prim(lambda I, a, k: Gen([y for x in a for y in I.iterate(x)]), 'chain')})
        if name == 'math':
            return Mod(name, {'inf': float('inf'), 'ceil': Prim(lambda I, a, k: -(-a[0] // 1) if isinstance(a[0], int) else
                                                               __import__('math').ceil(a[0]), 'ceil')})
        if name == 'operator':
            return Mod(name, {})
        return None

    def mkreader(self, I, a, k):
        r = Obj(FILEREADER, name='worker reader', path=a[0] if a else None, __open__=True)
        r.attrs['GetPoints'] = Prim(lambda I, b, k: self.getpoints(r, b[0]), 'GetPoints')
        self.workerreader = r
        return r

    def compress(self, I, a, k):
        return Sym('compressed', *(list(a) + [v for _, v in sorted(k.items())]))

    # -- executor
    def executor(self, I, a, k):
        st = {'init': False, 'open': True}
        init, initargs = k.get('initializer'), k.get('initargs', ())
        if len(a) > 2:
            init = a[2]
        if len(a) > 3:
            initargs = a[3]

        def prepare():
            if not st['open']:
                pyabs.throw('RuntimeError', 'cannot schedule new futures after shutdown')
            if not st['init']:
                st['init'] = True
                if init is not None:
                    I.call(init, pickled(list(I.iterate(initargs))), {})

        def run(f, args, kw):
            old = I.worker
            I.worker = True
            try:
                prepare()
                return Obj('Future', name='future', value=pickled(I.call(f, pickled(args), pickled(kw))), exc=None)
            except Raised as r:
                return Obj('Future', name='future', value=None, exc=r)
            finally:
                I.worker = old

        def submit(I, a, k):
            if not a:
                raise Undecided('submit')
            fu = run(a[0], list(a[1:]), dict(k))

            def result(I, a, k):
                if fu.attrs['exc'] is not None:
                    raise fu.attrs['exc']
                return fu.attrs['value']
            fu.attrs['result'] = Prim(result, 'result')
            e = fu.attrs['exc']
            fu.attrs['exception'] = Prim(lambda I, a, k: None if e is None else e.exc, 'exception')
            fu.attrs['done'] = Prim(lambda I, a, k: True, 'done')
            fu.attrs['cancel'] = Prim(lambda I, a, k: False, 'cancel')
            fu.attrs['add_done_callback'] = Prim(lambda I, a, k: self.callback(I, a[0], fu), 'add_done_callback')
            return fu

        def map_(I, a, k):
            its = [I.iterate(x) for x in a[1:]]
            out = []
            for args in zip(*its):
                fu = run(a[0], list(args), {})
                if fu.attrs['exc'] is not None:
                    raise fu.attrs['exc']
                out.append(fu.attrs['value'])
            return Gen(out)
        ex = Obj('Executor', name='executor', submit=Prim(submit, 'submit'), map=Prim(map_, 'map'))

        def shut(I, a, k):
            st['open'] = False
        ex.attrs['__enter__'] = Prim(lambda I, a, k: ex, 'enter')
        ex.attrs['__exit__'] = Prim(shut, 'exit')
        ex.attrs['shutdown'] = Prim(shut, 'shutdown')
        return ex

    def callback(self, I, f, fu):
        # what a done-callback raises is only logged
        try:
            I.call(f, [fu], {})
        except Raised:
            pass

    def completed(self, I, a, k):
        fs = []
        for f in I.iterate(a[0]):
            if not (isinstance(f, Obj) and f.cls == 'Future'):
                pyabs.throw('AttributeError', 'not a future')
            if f not in fs:
                fs.append(f)
        return Gen(self.permuted(fs))

    def permuted(self, fs):
        p = [i for i in self.order if i < len(fs)]
        p += [i for i in range(len(fs)) if i not in p]
        return [fs[i] for i in p]

    def wait(self, I, a, k):
        return (self.permuted(I.iterate(a[0])), [])


def where(I):
    return '%s:%d' % (os.path.relpath(I.file, front.REPO), max([l for f, l in [I.last] if f == I.file] or [0]))


_tick = Interp.tick


def tick(self, node):
    _tick(self, node)
    if getattr(node, 'lineno', None):
        self.last = (self.file, node.lineno)


Interp.tick = tick


def bindargs(names, a, k, d):
    f = dict(d)
    if len(a) > len(names) or any(x not in names for x in k):
        pyabs.throw('TypeError', 'arguments')
    f.update(zip(names, a))
    f.update(k)
    if any(n not in f for n in names):
        pyabs.throw('TypeError', 'missing argument')
    return f


def pickled(x):
    """what another process receives: containers are copies"""
    if isinstance(x, list):
        return [pickled(y) for y in x]
    if isinstance(x, tuple):
        return tuple(pickled(y) for y in x)
    if isinstance(x, dict):
        return {k: pickled(v) for k, v in x.items()}
    if isinstance(x, set):
        return set(x)
    if isinstance(x, Gen):
        pyabs.throw('TypeError', 'cannot pickle a generator')
    return x


def partial(I, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return Prim(lambda I, b, k2: I.call(f, pre + list(b), {**kw, **k2}), 'partial')


def reduce_(I, a, k):
    xs = I.iterate(a[1])
    if len(a) > 2:
        v = a[2]
    elif xs:
        v = xs.pop(0)
    else:
        pyabs.throw('TypeError')
    for x in xs:
        v = I.call(a[0], [v, x], {})
    return v


def islice(I, a, k):
    it, s = a[0], slice(*a[1:])
    if not isinstance(it, Gen):
        it = Gen(I.iterate(it))
    if s.start in (None, 0) and s.step in (None, 1) and s.stop is not None:
        out = []
        while len(out) < s.stop and it.i < len(it.xs):
            out.append(it.xs[it.i])
            it.i += 1
        return Gen(out)
    return Gen(list(it.drain())[s])


def mkpoints(w, tag, n, i):
    p = Obj('Points', name='points ' + tag, tag=tag, node=i)
    for c in 'xyz':
        p.attrs[c] = [Sym('num', c, tag, j) for j in range(n)]
    p.attrs['classification'] = [(2, 3, 6)[(i + j) % 3] for j in range(n)]
    pts = [Obj('Point', name='%s[%d]' % (tag, j), x=p.attrs['x'][j], y=p.attrs['y'][j], z=p.attrs['z'][j],
               classification=p.attrs['classification'][j], __open__=True) for j in range(n)]
    p.attrs['__len__'] = Prim(lambda I, a, k: n, 'len')
    p.attrs['__iter__'] = Prim(lambda I, a, k: list(pts), 'iter')
    p.attrs['__getitem__'] = Prim(lambda I, a, k: I.getitem(list(pts), a[0]), 'getitem')
    p.attrs['Pack'] = Prim(lambda I, a, k: Sym('packed', p, *a, *k.values()), 'Pack')
    p.attrs['points'] = pts
    return p


# -- scenarios

def eq(a, b):
    return pyabs.freeze(norm(a)) == pyabs.freeze(norm(b))


def norm(x):
    if isinstance(x, Arr):
        return norm(x.v)
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return x


def minmax(I, w, which, pts):
    out = []
    for c in 'xyz':
        xs = [v for p in pts for v in p.attrs[c]]
        out.append(reduce_facts(I, extreme(I, which, xs)) if xs else 0)
    return out


def reduce_facts(I, v):
    """on a path which compared coordinates one by one, the one that the assumed order selects"""
    return I.win(v) if getattr(I, 'ranked', False) else v


class Checker:
    def __init__(self, res):
        self.res = res
        self.paths = self.runs = 0
        self.lines, self.funcs = set(), set()
        self.sites = {}
        self.done = {}

    def scenario(self, law, text, sc, orders, go):
        """go(w, I, mods) -> list of (what, ok, detail) or raises"""
        ok = True
        try:
            for order in orders:
                def run(dec):
                    w = World(sc, order)
                    I = Interp(w.modules, dec)
                    I.last = ('', 0)
                    I.mod = Mod('', {})
                    I.mod.package = ''
                    I.file = ''
                    w.I = I
                    try:
                        out = go(w, I)
                    finally:
                        self.lines |= I.lines
                        self.funcs |= I.funcs
                        for k, a, pos in w.events:
                            self.sites.setdefault(pos, k)
                    return w, I, out
                for w, I, out in pyabs.explore(run):
                    self.paths += 1
                    bad = [o for o in out if not o[1]]
                    if bad:
                        what, _, detail = bad[0]
                        self.fail(law, text, what, detail, order, sc, I, w)
                        return
        except Undecided as u:
            self.res.incomplete.append('%s: %s: %s' % (law, text, u))
            self.res.obligations += 1
            return
        self.res.obligations += 1
        self.res.discharged += 1
        if len(self.res.samples) < 12:
            self.res.samples.append({'law': law, 'obligation': text, 'orders': len(orders)})

    def fail(self, law, text, what, detail, order, sc, I, w):
        self.res.obligations += 1
        facts = ', '.join('%s=%s' % f for f in list(I.facts.items())[:6])
        self.res.violations.append({
            'law': law, 'obligation': '%s: %s' % (text, what), 'case': ('completion order %s' % (list(order),)) +
            (' when ' + facts if facts else ''),
            'where': ' (%s:%d)' % (os.path.relpath(I.last[0], front.REPO) if I.last[0] else '?', I.last[1]),
            'got': detail[0], 'required': detail[1],
            'constructs': ['%s at %s' % (k, p) for k, a, p in w.events]})


def mp(I, w, mod):
    return w.modules(I, 'copclib.mp.' + mod)


def find(I, w, name):
    for m in ('read', 'transform', 'utils', '__init__'):
        if os.path.exists(MP + m + '.py'):
            x = mp(I, w, m)
            if name in x.attrs and not isinstance(x.attrs[name], Sym):
                return x.attrs[name]
    raise SystemExit('C28: %s is not defined in %s' % (name, MP))


def call(I, f, kw):
    """(value, None) or (None, exception)"""
    try:
        return I.call(f, [], kw), None
    except Raised as r:
        return None, r


def once(got, want, show=repr):
    """multiset comparison of two lists of values"""
    rest = list(want)
    extra = []
    for g in got:
        for i, x in enumerate(rest):
            if eq(g, x):
                del rest[i]
                break
        else:
            extra.append(g)
    return rest, extra


def check_once(what, got, want):
    rest, extra = once(got, want)
    return (what, not rest and not extra, ('unexpected or repeated: %r' % (extra[:3],), 'missing: %r' % (rest[:3],)))


def raised(r):
    return r is None, ('raises %r' % (r and r.exc.cls,), 'completes')


def userfn(w, kind, fail=None, ret=None):
    def f(I, a, k):
        if a:
            pyabs.throw('TypeError', 'positional argument')
        w.ev(I, 'user', dict(k))
        node = k.get('node')
        if node not in w.nodes:
            pyabs.throw('TypeError', 'node')
        i = w.nodes.index(node)
        if fail == i:
            raise Raised(Obj(WORKERERR, args=[]))
        return ret(i)
    return Prim(f, kind)


def user_events(w, target, args, extra=()):
    """the caller's function ran once per node, with that node's points and the worker's own reader"""
    got = [e[1][0] for e in w.events if e[0] == 'user']
    want = []
    for n in target:
        i = w.nodes.index(n)
        rd = w.workerreader
        d = {'points': w.points.get((i, rd)), 'node': n, 'reader': rd}
        d.update(extra)
        d.update(args)
        want.append(d)
    o = [check_once("the caller's function runs once per node with its own points", got, want)]
    if target:
        o.append(('workers open the file of the reader', w.workerreader is not None and
                  eq(w.workerreader.attrs['path'], w.main.attrs['path']), ('another file', 'reader.path')))
    return o


def check(P, res, tier):
    for m in ('read', 'transform', 'utils'):
        if not os.path.exists(MP + m + '.py'):
            raise SystemExit('C28: %s is gone' % (MP + m + '.py'))
    C = Checker(res)
    deep = tier == 'thorough'
    kmax = 5 if deep else 4
    sizes = [(k, c) for k in range(kmax + 1) for c in ((1, 2, 3, 4, 1024) if deep else (1, 2, 3, 1024))]

    def orders(k):
        if k <= (4 if deep else 3):
            return list(itertools.permutations(range(k)))
        return [tuple(range(k)), tuple(reversed(range(k))), tuple((i * 2 + 1) % k if k % 2 else i ^ 1 for i in range(k))]

    def target(w, mode):
        return w.nodes if mode in ('all', 'explicit') else w.subset

    def select(w, mode):
        return {'all': {}, 'explicit': {'nodes': list(w.nodes)}, 'some': {'nodes': list(w.subset)},
                'resolution': {'resolution': 0.5}, 'resolution5': {'resolution': 5}}[mode]

    def within(w, mode):
        got = [e[1][0] for e in w.events if e[0] == 'within']
        want = {'resolution': [0.5], 'resolution5': [5]}.get(mode)
        if want is None:
            return []
        return [('the nodes are those within the given resolution', bool(got) and all(g == want[0] for g in got),
                 (repr(got), repr(want)))]
    # -- read_multithreaded
    modes = ('all', 'explicit', 'some', 'resolution', 'resolution5')
    for k, c in sizes:
        for mode in modes if c in (2, 1024) else ('all', 'some'):
            def go(w, I):
                f = find(I, w, 'read_multithreaded')
                ret = lambda i: {'val': Sym('result', i)} if i != 1 else {}
                args = {'p': Sym('arg')}
                kw = dict(reader=w.main, read_function=userfn(w, 'read_function', ret=ret), read_function_args=args,
                          completed_callback=Prim(lambda I, a, k: w.ev(I, 'callback', list(a), dict(k)), 'completed_callback'),
                          chunk_size=c, **select(w, mode))
                if c == 2:
                    kw['progress'] = Obj('tqdm', name='progress', __open__=True)
                _, r = call(I, f, kw)
                o = [('reading completes',) + raised(r)]
                t = target(w, mode)
                o.append(check_once('the callback receives each node once, with its own result',
                                    [list(e[1]) for e in w.events if e[0] == 'callback'],
                                    [[[], dict(node=n, **ret(w.nodes.index(n)))] for n in t]))
                return o + user_events(w, t, args) + within(w, mode)
            C.scenario('read_multithreaded', '%d nodes, chunks of %d, %s' % (k, c, mode),
                       dict(nodes=k, counts=[2] * k), orders(min(k, c) if c < k else k), go)
    # failures surface
    for k, c in ((1, 1), (3, 2), (3, 1024), (4, 2)):
        for j in range(k):
            def go(w, I):
                f = find(I, w, 'read_multithreaded')
                kw = dict(reader=w.main, read_function=userfn(w, 'read_function', fail=j, ret=lambda i: {'val': 0}),
                          completed_callback=Prim(lambda I, a, k: None, 'cb'), chunk_size=c)
                _, r = call(I, f, kw)
                return [('the failure of a worker is raised to the caller', r is not None, ('nothing is raised', 'an exception'))]
            C.scenario('read_failure', 'worker of node %d of %d fails, chunks of %d' % (j, k, c), dict(nodes=k, counts=[1] * k),
                       orders(min(k, c)), go)

    def refuse(name, law, text, kwf):
        def go(w, I):
            _, r = call(I, find(I, w, name), kwf(w))
            return [('refused', r is not None, ('accepted', 'an exception'))]
        C.scenario(law, text, dict(nodes=2, counts=[1, 1], writer='copc'), [(0, 1)], go)
    rf = lambda w, v=None: userfn(w, 'read_function', ret=lambda i: {'val': 0} if v is None else v)
    tf = lambda w, v=None: userfn(w, 'transform_function', ret=lambda i: w.nodes[i] if v is None else v)
    refuse('read_multithreaded', 'read_refuses', 'nodes and resolution together',
           lambda w: dict(reader=w.main, read_function=rf(w), nodes=list(w.nodes), resolution=1))
    refuse('read_multithreaded', 'read_refuses', 'a result that is not a dictionary',
           lambda w: dict(reader=w.main, read_function=rf(w, [1])))
    for n in ('points', 'node', 'reader'):
        refuse('read_multithreaded', 'read_refuses', 'a read function argument named ' + n,
               lambda w: dict(reader=w.main, read_function=rf(w), read_function_args={n: 1}))
    refuse('transform_multithreaded', 'transform_refuses', 'nodes and resolution together',
           lambda w: dict(reader=w.main, writer=w.writer, nodes=list(w.nodes), resolution=1))
    refuse('transform_multithreaded', 'transform_refuses', 'an unknown writer',
           lambda w: dict(reader=w.main, writer=Obj(Cls('Other'), name='other')))
    for v in ((1, 2, 3), ('p', [1])):
        refuse('transform_multithreaded', 'transform_refuses', 'a result tuple %r' % (v,),
               lambda w: dict(reader=w.main, writer=w.writer, transform_function=tf(w, v)))
    # -- transform_multithreaded
    for wr in ('copc', 'laz'):
        for k, c in sizes:
            for mode in modes if c in (2, 1024) else ('all', 'some'):
                for variant in ('points', 'tuple', 'default'):
                    if variant != 'tuple' and (c != 2 or mode not in ('all', 'some')):
                        continue
                    upd = (k + c) % 2 == 0 or k >= 3
                    counts = [(3, 0, 1, 2, 1)[i % 5] for i in range(k)]
                    before = counts if variant == 'default' else [(1, 4, 0, 3, 2)[i % 5] for i in range(k)]

                    def go(w, I):
                        f = find(I, w, 'transform_multithreaded')
                        outs = {}

                        def ret(i):
                            outs[i] = outs.get(i) or mkpoints(w, 't%d' % i, counts[i], i)
                            return outs[i] if variant == 'points' else (outs[i], {'val': Sym('result', i)})
                        args = {'p': Sym('arg')}
                        mpi = Prim(lambda I, a, k: w.ev(I, 'mpinit', list(a), dict(k)), 'mp_init_function')
                        kw = dict(reader=w.main, writer=w.writer, chunk_size=c, update_minmax=upd,
                                  completed_callback=Prim(lambda I, a, k: w.ev(I, 'callback', list(a), dict(k)), 'cb'),
                                  **select(w, mode))
                        if variant != 'default':
                            kw['transform_function'] = userfn(w, 'transform_function', ret=ret)
                            kw['transform_function_args'] = args
                        if c == 2:
                            kw['progress'] = Obj('tqdm', name='progress', __open__=True)
                            kw['mp_init_function'] = mpi
                            kw['mp_init_function_args'] = {'q': Sym('initarg')}
                        _, r = call(I, f, kw)
                        o = [('transforming completes',) + raised(r)]
                        t = target(w, mode)
                        pts = {}
                        for n in t:
                            i = w.nodes.index(n)
                            pts[i] = w.points.get((i, w.workerreader)) if variant == 'default' else outs.get(i)
                        if any(p is None for p in pts.values()):
                            return o + [('every node is processed', False, ('%s' % sorted(i for i in pts if pts[i] is None), 'each node'))]
                        packed = lambda i: Sym('compressed', Sym('packed', pts[i], w.header), w.header)
                        got = [list(e[1]) for e in w.events if e[0] == 'write']
                        want = []
                        for n in t:
                            i = w.nodes.index(n)
                            if counts[i]:
                                want.append([n.attrs['key'], packed(i), counts[i], n.attrs['page_key']] if wr == 'copc'
                                            else [packed(i), counts[i]])
                        o.append(check_once('each result is written once, under its own key', got, want))
                        cbw = []
                        for n in t:
                            i = w.nodes.index(n)
                            d = dict(node=n, point_count=counts[i], compressed_points=packed(i))
                            if variant == 'tuple':
                                d['val'] = Sym('result', i)
                            cbw.append([[], d])
                        o.append(check_once('the callback receives each node once, with its own result',
                                            [list(e[1]) for e in w.events if e[0] == 'callback'], cbw))
                        if variant != 'default':
                            o += user_events(w, t, args, {'writer_header': w.header})
                        if c == 2 and t:
                            mi = [list(e[1]) for e in w.events if e[0] == 'mpinit']
                            o.append(check_once('the worker initialisation runs with its arguments', mi,
                                                [[[], {'q': Sym('initarg')}]]))
                        for which in ('min', 'max'):
                            v = w.header.attrs.get(which)
                            if upd:
                                x = minmax(I, w, which, list(pts.values()))
                                if v is None:
                                    o.append(('the header %s is updated' % which, False, ('not set', repr(x))))
                                else:
                                    g = [reduce_facts(I, z) for z in I.iterate(v)]
                                    o.append(('the header %s covers the written points' % which, eq(g, x), (repr(g), repr(x))))
                            else:
                                o.append(('the header %s is left alone' % which, v is None, (repr(v), 'not set')))
                        return o + within(w, mode)
                    C.scenario('transform_' + wr, '%d nodes, chunks of %d, %s, %s' % (k, c, mode, variant),
                               dict(nodes=k, counts=before, writer=wr), orders(min(k, c) if c < k else k), go)
        for k, c in ((1, 1), (3, 2), (3, 1024)):
            for j in range(k):
                def go(w, I):
                    f = find(I, w, 'transform_multithreaded')
                    kw = dict(reader=w.main, writer=w.writer, chunk_size=c,
                              transform_function=userfn(w, 'transform_function', fail=j,
                                                        ret=lambda i: mkpoints(w, 't%d' % i, 1, i)))
                    _, r = call(I, f, kw)
                    return [('the failure of a worker is raised to the caller', r is not None, ('nothing is raised', 'an exception'))]
                C.scenario('transform_failure', '%s: worker of node %d of %d fails, chunks of %d' % (wr, j, k, c),
                           dict(nodes=k, counts=[1] * k, writer=wr), orders(min(k, c)), go)
    # -- the readers of coordinates
    for name in ('read_concat_xyz_class_limit', 'read_map_xyz_class_limit'):
        for lim in ([], None, [2], [3, 6], [7]):
            for k, c, mode in ((1, 1024, 'all'), (3, 2, 'all'), (3, 1024, 'explicit'), (3, 1024, 'resolution'), (4, 3, 'some')):
                counts = [(3, 0, 1, 2)[i % 4] for i in range(k)]

                def go(w, I):
                    f = find(I, w, name)
                    kw = dict(reader=w.main, classification_limits=lim, **select(w, mode))
                    kw['chunk_size'] = c
                    v, r = call(I, f, kw)
                    o = [('reading completes',) + raised(r)]
                    if r is not None:
                        return o
                    rows = {}
                    for n in target(w, mode):
                        i = w.nodes.index(n)
                        p = w.points.get((i, w.workerreader))
                        if p is None:
                            return o + [('every node is read', False, ('node %d is not' % i, 'each node'))]
                        rows[i] = [[q.attrs['x'], q.attrs['y'], q.attrs['z']] for q in p.attrs['points']
                                   if not lim or q.attrs['classification'] in lim]
                    if 'concat' in name:
                        want = [x for i in rows for x in rows[i]]
                        got = norm(v)
                        o.append(check_once('the rows are the coordinates of the selected points', got, want))
                    else:
                        want = {Sym('str', Sym('key', i)): rows[i] for i in rows if rows[i]}
                        got = norm(v)
                        o.append(('each key maps to the coordinates of its own points', eq(got, want), (repr(got), repr(want))))
                    return o + within(w, mode)
                C.scenario(name, '%d nodes, chunks of %d, %s, classes %r' % (k, c, mode, lim),
                           dict(nodes=k, counts=counts), orders(min(k, c)), go)
    for f in C.funcs:
        a, b_ = f.rsplit(':', 1)
        res.functions['%s:%s' % (os.path.relpath(a, front.REPO), b_)] = 1
    res.rules.append({'rule': 'abstract interpretation of python/copclib/mp', 'paths': C.paths, 'lines_reached': len(C.lines),
                      'event_sites': {p: k for p, k in sorted(C.sites.items())},
                      'bounds': 'up to %d nodes, chunk sizes up to the number of nodes, all completion orders up to %d futures'
                                % (kmax, 4 if deep else 3)})
