"""Abstract interpretation of Python source (its syntax tree, never imported or executed).

Shapes (lists, dictionaries, counters) are tracked exactly; everything the code cannot know - nodes, points, coordinates,
results of the caller's functions, the order in which workers finish - is an abstract symbol.  A branch on a symbol is
followed both ways (the caller enumerates the decisions).  Unknown constructs raise Undecided, never a verdict."""
import ast
import hashlib
import itertools


class Undecided(Exception):
    pass


class Sym:
    """an abstract value: structural, compared by structure"""
    __slots__ = ('op', 'a', '_h')

    def __init__(self, op, *a):
        self.op, self.a = op, a
        self._h = hash((op,) + tuple(freeze(x) for x in a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Sym) and o.op == self.op and [freeze(x) for x in self.a] == [freeze(x) for x in o.a]

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a))) if self.a else self.op


def freeze(x):
    if isinstance(x, (list, tuple)):
        return ('seq',) + tuple(freeze(y) for y in x)
    if isinstance(x, Arr):
        return freeze(x.v)
    if isinstance(x, dict):
        return ('map', frozenset((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(freeze(y) for y in x))
    return x


class Arr:
    """a numpy array: nested lists"""
    def __init__(self, v, shape=None):
        self.v = v
        self.shape = shape

    def __repr__(self):
        return 'array(%r)' % (self.v,)


class Obj:
    """an object of a modelled class; methods are python callables taking (interp, args, kwargs)"""
    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs

    def __repr__(self):
        return '<%s %s>' % (self.cls, self.attrs.get('name', ''))


class Prim:
    """a modelled function"""
    def __init__(self, f, name='?', selfish=None):
        self.f, self.name, self.attrs = f, name, {}

    def __repr__(self):
        return self.name


class Cls:
    """a class: a modelled one, or one defined in the analysed source"""
    def __init__(self, name, bases=(), make=None, ns=None):
        self.name, self.bases, self.make, self.ns = name, bases, make, ns or {}

    def mro(self):
        yield self
        for b in self.bases:
            yield from b.mro()

    def __repr__(self):
        return self.name


class Mod:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class Closure:
    def __init__(self, node, env, mod, defaults, kwdefaults, qual):
        self.node, self.env, self.mod = node, env, mod
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {}
        self.name = qual

    def __repr__(self):
        return '<function %s>' % self.name


class Raised(Exception):
    def __init__(self, exc, cause=None):
        Exception.__init__(self, repr(exc))
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


BASEEXC = Cls('BaseException')
EXC = Cls('Exception', (BASEEXC,))
EXCS = {'BaseException': BASEEXC, 'Exception': EXC}
for _n, _b in (('ArithmeticError', 'Exception'), ('LookupError', 'Exception'), ('RuntimeError', 'Exception'),
               ('ValueError', 'Exception'), ('TypeError', 'Exception'), ('AttributeError', 'Exception'),
               ('AssertionError', 'Exception'), ('OSError', 'Exception'), ('KeyError', 'LookupError'),
               ('IndexError', 'LookupError'), ('StopIteration', 'Exception'), ('NotImplementedError', 'RuntimeError'),
               ('ZeroDivisionError', 'ArithmeticError'), ('KeyboardInterrupt', 'BaseException'), ('NameError', 'Exception'),
               ('UserWarning', 'Exception'), ('MemoryError', 'Exception'), ('TimeoutError', 'OSError')):
    EXCS[_n] = Cls(_n, (EXCS[_b],))


def throw(name, *args):
    raise Raised(Obj(EXCS[name], args=list(args)))


class Scope:
    def __init__(self, parent=None, isglobal=False):
        self.v, self.parent, self.isglobal = {}, parent, isglobal
        self.decl = {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.v:
                return s
            s = s.parent
        return None


NUM = (int, float)


class Interp:
    """one abstract run; `decisions` is the list of branch outcomes to follow, extended on demand"""
    def __init__(self, modules, decisions):
        self.modules = modules
        self.dec = decisions
        self.nd = 0
        self.facts = {}
        self.steps = 0
        self.loaded = {}
        self.lines = set()
        self.funcs = set()
        self.worker = False
        self.handling = []

    # -- decisions
    def decide(self, c):
        if c in self.facts:
            return self.facts[c]
        if self.nd < len(self.dec):
            v = self.dec[self.nd]
        else:
            v = True
            self.dec.append(v)
            if len(self.dec) > 12:
                raise Undecided('too many undetermined branches')
        self.nd += 1
        self.facts[c] = v
        return v

    def truth(self, v):
        if isinstance(v, Sym):
            if v.op == 'not':
                return not self.truth(v.a[0])
            if v.op in ('attr', 'call', 'obj'):
                return self.decide(Sym('true', v))
            return self.decide(v)
        if isinstance(v, Obj):
            ln = v.attrs.get('__len__')
            if ln is not None:
                return self.truth(self.call(ln, [], {}))
            return True
        if isinstance(v, Arr):
            if len(v.v) > 1:
                throw('ValueError', 'truth value of an array')
            return self.truth(v.v[0]) if v.v else False
        if isinstance(v, (Closure, Prim, Cls, Mod)):
            return True
        return bool(v)

    def tick(self, node):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided('the interpretation does not terminate')
        ln = getattr(node, 'lineno', None)
        if ln:
            self.lines.add((self.file, ln))

    # -- modules
    def load(self, path, name, package):
        if name in self.loaded:
            return self.loaded[name]
        src = open(path).read()
        tree = ast.parse(src, path)
        sc = Scope(isglobal=True)
        sc.v['__name__'] = name
        m = Mod(name, sc.v)
        m.scope, m.path, m.package = sc, path, package
        self.loaded[name] = m
        old = getattr(self, 'file', None), getattr(self, 'mod', None)
        self.file, self.mod = path, m
        try:
            self.body(tree.body, sc)
        finally:
            self.file, self.mod = old
        return m

    def imp(self, name, level=0):
        if level:
            pkg = self.mod.package
            full = pkg + '.' + name if name else pkg
        else:
            full = name
        m = self.modules(self, full)
        if m is None:
            if full.split('.')[0] in ('typing', 'warnings', 'logging', 'os', 'sys', 'time', 'collections', '__future__',
                                      'multiprocessing', 'inspect', 'traceback', 'contextlib', 'pathlib', 'json'):
                return Mod(full, {})
            raise Undecided('module %s' % full)
        return m

    # -- statements
    def body(self, ss, sc):
        for s in ss:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        self.tick(s)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s (line %d)' % (type(s).__name__, s.lineno))
        m(s, sc)

    def s_Pass(self, s, sc):
        pass

    def s_Expr(self, s, sc):
        self.ev(s.value, sc)

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.imp(a.name)
            if a.asname:
                self.setname(a.asname, m, sc)
            else:
                top = a.name.split('.')[0]
                self.setname(top, self.imp(top), sc)

    def s_ImportFrom(self, s, sc):
        m = self.imp(s.module or '', s.level)
        for a in s.names:
            if a.name == '*':
                sc.v.update({k: v for k, v in m.attrs.items() if not k.startswith('_')})
            elif a.name in m.attrs:
                self.setname(a.asname or a.name, m.attrs[a.name], sc)
            elif m.name in ('typing', '__future__'):
                self.setname(a.asname or a.name, Sym('typing'), sc)
            else:
                try:
                    self.setname(a.asname or a.name, self.imp((s.module + '.' if s.module else '') + a.name, s.level), sc)
                except Undecided:
                    self.setname(a.asname or a.name, Sym('import', m.name, a.name), sc)

    def s_Global(self, s, sc):
        for n in s.names:
            sc.decl[n] = 'global'

    def s_Nonlocal(self, s, sc):
        for n in s.names:
            sc.decl[n] = 'nonlocal'

    def setname(self, n, v, sc):
        d = sc.decl.get(n)
        if d == 'global':
            g = sc
            while g.parent is not None:
                g = g.parent
            g.v[n] = v
        elif d == 'nonlocal':
            p = sc.parent.find(n)
            if p is None:
                raise Undecided('nonlocal ' + n)
            p.v[n] = v
        else:
            sc.v[n] = v

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.iterate(v)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                n = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    throw('ValueError', 'unpack')
                for e, x in zip(t.elts[:i], xs):
                    self.assign(e, x, sc)
                self.assign(t.elts[i].value, xs[i:len(xs) - n], sc)
                for e, x in zip(t.elts[i + 1:], xs[len(xs) - n:]):
                    self.assign(e, x, sc)
                return
            if len(xs) != len(t.elts):
                throw('ValueError', 'unpack')
            for e, x in zip(t.elts, xs):
                self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, sc), self.index(t.slice, sc)
            if isinstance(o, Arr):
                o = o.v
            if isinstance(o, list):
                if not isinstance(i, (int, slice)):
                    raise Undecided('subscript')
                try:
                    o[i] = self.iterate(v) if isinstance(i, slice) else v
                except IndexError:
                    throw('IndexError')
            elif isinstance(o, dict):
                o[self.key(i)] = v
            else:
                raise Undecided('subscript assignment')
        else:
            raise Undecided('assignment target')

    def key(self, k):
        if isinstance(k, (Obj, Sym, str, int, float, type(None), Closure, Cls)):
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        throw('TypeError', 'unhashable')

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), sc)
            put = lambda v: self.setname(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            old = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        else:
            o, i = self.ev(t.value, sc), self.index(t.slice, sc)
            old = self.getitem(o, i)

            def put(v):
                if isinstance(o, dict):
                    o[self.key(i)] = v
                elif isinstance(o, list):
                    o[i] = v
                else:
                    raise Undecided('augmented subscript')
        v = self.ev(s.value, sc)
        if isinstance(s.op, ast.Add) and isinstance(old, list):
            old.extend(self.iterate(v))
            put(old)
            return
        if isinstance(s.op, ast.BitOr) and isinstance(old, dict):
            old.update(v)
            put(old)
            return
        if isinstance(s.op, ast.BitOr) and isinstance(old, set):
            old |= set(self.iterate(v))
            put(old)
            return
        put(self.binop(s.op, old, v))

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, sc), self.index(t.slice, sc)
                if isinstance(o, dict) and i not in o:
                    throw('KeyError')
                if isinstance(o, (list, dict)):
                    del o[i]
                else:
                    raise Undecided('del')
            else:
                raise Undecided('del')

    def s_If(self, s, sc):
        if self.truth(self.ev(s.test, sc)):
            self.body(s.body, sc)
        else:
            self.body(s.orelse, sc)

    def s_For(self, s, sc):
        it = self.ev(s.iter, sc)
        broke = False
        for x in self.lazy(it):
            self.tick(s)
            self.assign(s.target, x, sc)
            try:
                self.body(s.body, sc)
            except Brk:
                broke = True
                break
            except Cont:
                pass
        if not broke:
            self.body(s.orelse, sc)

    def s_While(self, s, sc):
        while self.truth(self.ev(s.test, sc)):
            self.tick(s)
            try:
                self.body(s.body, sc)
            except Brk:
                return
            except Cont:
                pass
        self.body(s.orelse, sc)

    def s_Break(self, s, sc):
        raise Brk()

    def s_Continue(self, s, sc):
        raise Cont()

    def s_Return(self, s, sc):
        raise Ret(self.ev(s.value, sc) if s.value is not None else None)

    def s_FunctionDef(self, s, sc):
        f = self.closure(s, sc, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, sc), [f], {})
        self.setname(s.name, f, sc)

    def s_ClassDef(self, s, sc):
        ns = Scope(sc)
        self.body(s.body, ns)
        bases = [self.ev(b, sc) for b in s.bases]
        if any(not isinstance(b, Cls) for b in bases) or s.decorator_list:
            raise Undecided('class %s' % s.name)
        self.setname(s.name, Cls(s.name, tuple(bases), None, ns.v), sc)

    def closure(self, s, sc, name):
        a = s.args
        f = Closure(s, sc, self.mod, [self.ev(d, sc) for d in a.defaults],
                    [self.ev(d, sc) if d is not None else None for d in a.kw_defaults], name)
        f.file = self.file
        return f

    def s_With(self, s, sc):
        opened = []
        for it in s.items:
            o = self.ev(it.context_expr, sc)
            v = o
            if isinstance(o, Obj) and '__enter__' in o.attrs:
                v = self.call(o.attrs['__enter__'], [], {})
            elif not isinstance(o, Obj):
                raise Undecided('with')
            opened.append(o)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc)
        try:
            self.body(s.body, sc)
        finally:
            for o in reversed(opened):
                if '__exit__' in o.attrs:
                    self.call(o.attrs['__exit__'], [None, None, None], {})

    def s_Raise(self, s, sc):
        if s.exc is None:
            if not self.handling:
                throw('RuntimeError')
            raise self.handling[-1]
        e = self.ev(s.exc, sc)
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if not (isinstance(e, Obj) and isinstance(e.cls, Cls)):
            throw('TypeError')
        raise Raised(e)

    def s_Assert(self, s, sc):
        if not self.truth(self.ev(s.test, sc)):
            throw('AssertionError')

    def s_Try(self, s, sc):
        try:
            try:
                self.body(s.body, sc)
            except Raised as r:
                for h in s.handlers:
                    if h.type is None:
                        cs = [BASEEXC]
                    else:
                        c = self.ev(h.type, sc)
                        cs = list(c) if isinstance(c, (tuple, list)) else [c]
                    if any(not isinstance(c, Cls) for c in cs):
                        raise Undecided('exception class')
                    if any(c in r.exc.cls.mro() for c in cs):
                        if h.name:
                            self.setname(h.name, r.exc, sc)
                        self.handling.append(r)
                        try:
                            self.body(h.body, sc)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.body(s.orelse, sc)
        finally:
            self.body(s.finalbody, sc)

    # -- expressions
    def ev(self, e, sc):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        s = sc.find(e.id)
        if s is not None:
            return s.v[e.id]
        if e.id in BUILTINS:
            return BUILTINS[e.id]
        if e.id in EXCS:
            return EXCS[e.id]
        if e.id in ('__file__',):
            return ''
        throw('NameError', e.id)

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), e.attr)

    def getattr(self, o, n):
        if isinstance(o, Mod):
            if n in o.attrs:
                return o.attrs[n]
            return Sym('import', o.name, n)
        if isinstance(o, Obj):
            if n in o.attrs:
                return o.attrs[n]
            if isinstance(o.cls, Cls):
                for c in o.cls.mro():
                    if n in c.ns:
                        v = c.ns[n]
                        return self.bind(v, o) if isinstance(v, Closure) else v
                if n == '__class__':
                    return o.cls
                if o.attrs.get('__open__') or not o.cls.ns:
                    return Sym('attr', o, n)
                throw('AttributeError', n)
            return Sym('attr', o, n)
        if isinstance(o, Cls):
            for c in o.mro():
                if n in c.ns:
                    return c.ns[n]
            if n == '__name__':
                return o.name
            return Sym('attr', o, n)
        if isinstance(o, (Closure, Prim)):
            if n in o.attrs:
                return o.attrs[n]
            if n == '__name__':
                return o.name
            throw('AttributeError', n)
        if isinstance(o, Sym):
            return Sym('attr', o, n)
        if o is None:
            throw('AttributeError', n)
        m = METHODS.get((type(o).__name__, n))
        if m is not None:
            return Prim(lambda I, a, k: m(I, o, *a, **k), n)
        raise Undecided('attribute %s of %s' % (n, type(o).__name__))

    def bind(self, f, o):
        return Prim(lambda I, a, k: I.call(f, [o] + list(a), k), f.name)

    def setattr(self, o, n, v):
        if isinstance(o, (Obj, Closure, Prim, Mod)):
            h = o.attrs.get('__setattr__') if isinstance(o, Obj) else None
            o.attrs[n] = v
            if h:
                self.call(h, [n, v], {})
            return
        if isinstance(o, Cls):
            o.ns[n] = v
            return
        if o is None:
            throw('AttributeError', n)
        raise Undecided('attribute assignment')

    def index(self, s, sc):
        if isinstance(s, ast.Slice):
            g = lambda x: self.ev(x, sc) if x is not None else None
            r = slice(g(s.lower), g(s.upper), g(s.step))
            for x in (r.start, r.stop, r.step):
                if x is not None and not isinstance(x, int):
                    if isinstance(x, float):
                        throw('TypeError')
                    raise Undecided('slice bound')
            return r
        return self.ev(s, sc)

    def e_Subscript(self, e, sc):
        o = self.ev(e.value, sc)
        if isinstance(o, Sym) and o.op == 'typing':
            return o
        return self.getitem(o, self.index(e.slice, sc))

    def getitem(self, o, i):
        if isinstance(o, Arr):
            r = self.getitem(o.v, i) if not isinstance(i, tuple) else None
            if isinstance(i, tuple):
                raise Undecided('array subscript')
            return Arr(r) if isinstance(r, list) else r
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, (int, slice)):
                try:
                    return o[i]
                except IndexError:
                    throw('IndexError')
            if isinstance(i, (str, float)) or i is None:
                throw('TypeError')
            raise Undecided('subscript')
        if isinstance(o, dict):
            i = self.key(i)
            if i in o:
                return o[i]
            throw('KeyError', i)
        if isinstance(o, Obj) and '__getitem__' in o.attrs:
            return self.call(o.attrs['__getitem__'], [i], {})
        if isinstance(o, Sym):
            return Sym('item', o, i)
        if o is None or isinstance(o, NUM) or isinstance(o, set):
            throw('TypeError')
        raise Undecided('subscript')

    def e_Call(self, e, sc):
        self.tick(e)
        f = self.ev(e.func, sc)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, sc))
            else:
                args.append(self.ev(a, sc))
        for k in e.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None:
                if not isinstance(v, dict):
                    if isinstance(v, (Sym, Obj)):
                        raise Undecided('** of an unknown mapping')
                    throw('TypeError', '** of a non-mapping')
                for n, x in v.items():
                    if n in kw:
                        throw('TypeError', 'repeated keyword')
                    kw[n] = x
            else:
                if k.arg in kw:
                    throw('TypeError', 'repeated keyword')
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Prim):
            try:
                return f.f(self, args, kw)
            except TypeError as x:
                raise Undecided('%s: %s' % (f.name, x))
        if isinstance(f, Closure):
            return self.apply(f, args, kw)
        if isinstance(f, Cls):
            if f.make is not None:
                return f.make(self, args, kw)
            if BASEEXC in f.mro():
                return Obj(f, args=list(args))
            o = Obj(f)
            init = next((c.ns['__init__'] for c in f.mro() if '__init__' in c.ns), None)
            if init is not None:
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, Obj):
            c = f.attrs.get('__call__')
            if c is not None:
                return self.call(c, args, kw)
            if isinstance(f.cls, Cls):
                for k in f.cls.mro():
                    if '__call__' in k.ns:
                        return self.call(k.ns['__call__'], [f] + list(args), kw)
        if isinstance(f, Sym):
            return Sym('call', f, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
        throw('TypeError', 'not callable')

    def apply(self, f, args, kw):
        a = f.node.args
        sc = Scope(f.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        for n, v in zip(names, args):
            vals[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                throw('TypeError', 'too many arguments for %s' % f.name)
            sc.v[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            sc.v[a.vararg.arg] = ()
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in vals:
                    throw('TypeError', 'two values for %s' % n)
                vals[n] = kw.pop(n)
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vals.setdefault(n, d)
        for x, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if dn is not None:
                vals.setdefault(x.arg, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                throw('TypeError', 'missing argument %s of %s' % (n, f.name))
        if kw and a.kwarg is None:
            throw('TypeError', 'unexpected argument %s of %s' % (next(iter(kw)), f.name))
        if a.kwarg is not None:
            sc.v[a.kwarg.arg] = kw
        sc.v.update(vals)
        old = self.file, self.mod
        self.file, self.mod = f.file, f.mod
        self.funcs.add('%s:%s' % (f.file, f.name))
        self.depth = getattr(self, 'depth', 0) + 1
        try:
            if self.depth > 60:
                raise Undecided('recursion')
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, sc)
            if is_gen(f.node):
                sc.gen = []
                try:
                    self.body(f.node.body, sc)
                except Ret:
                    pass
                return Gen(sc.gen)
            try:
                self.body(f.node.body, sc)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.file, self.mod = old

    def e_Yield(self, e, sc):
        v = self.ev(e.value, sc) if e.value is not None else None
        self.gen(sc).append(v)
        return None

    def e_YieldFrom(self, e, sc):
        self.gen(sc).extend(self.iterate(self.ev(e.value, sc)))
        return None

    def gen(self, sc):
        while not hasattr(sc, 'gen'):
            sc = sc.parent
        if len(sc.gen) > 5000:
            raise Undecided('unbounded generator')
        return sc.gen

    def iterate(self, v):
        return list(self.lazy(v))

    def lazy(self, v):
        if isinstance(v, Gen):
            return v.drain()
        if isinstance(v, Arr):
            return [Arr(x) if isinstance(x, list) else x for x in v.v]
        if isinstance(v, (list, tuple, str, dict, range)):
            return Live(v) if isinstance(v, list) else list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, Obj) and '__iter__' in v.attrs:
            return self.lazy(self.call(v.attrs['__iter__'], [], {}))
        if isinstance(v, (Sym, Obj)):
            raise Undecided('iteration over an unknown collection')
        throw('TypeError', 'not iterable')

    def e_Lambda(self, e, sc):
        return self.closure(e, sc, '<lambda>')

    def e_List(self, e, sc):
        return self.elts(e.elts, sc)

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, sc))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_Set(self, e, sc):
        return set(self.key(x) for x in self.elts(e.elts, sc))

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, sc)
                if not isinstance(x, dict):
                    raise Undecided('** in a dictionary')
                d.update(x)
            else:
                kk = self.key(self.ev(k, sc))
                d[kk] = self.ev(v, sc)
        return d

    def comp(self, gens, sc, emit, i=0):
        g = gens[i]
        for x in self.lazy(self.ev(g.iter, sc)):
            self.tick(g.iter)
            self.assign(g.target, x, sc)
            if all(self.truth(self.ev(c, sc)) for c in g.ifs):
                if i + 1 < len(gens):
                    self.comp(gens, sc, emit, i + 1)
                else:
                    emit(sc)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e.generators, Scope(sc), lambda s: out.append(self.ev(e.elt, s)))
        return out

    def e_SetComp(self, e, sc):
        return set(self.key(x) for x in self.e_ListComp(e, sc))

    def e_GeneratorExp(self, e, sc):
        return Gen(self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        d = {}

        def put(s):
            k = self.key(self.ev(e.key, s))
            d[k] = self.ev(e.value, s)
        self.comp(e.generators, Scope(sc), put)
        return d

    def e_IfExp(self, e, sc):
        return self.ev(e.body if self.truth(self.ev(e.test, sc)) else e.orelse, sc)

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def e_BoolOp(self, e, sc):
        v = None
        for x in e.values:
            v = self.ev(x, sc)
            b = self.truth(v)
            if isinstance(e.op, ast.And) and not b or isinstance(e.op, ast.Or) and b:
                return v
        return v

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, NUM):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        if isinstance(v, Sym):
            return Sym(type(e.op).__name__, v)
        raise Undecided('unary operator')

    def e_BinOp(self, e, sc):
        return self.binop(e.op, self.ev(e.left, sc), self.ev(e.right, sc))

    def binop(self, op, a, b):
        n = type(op).__name__
        if isinstance(a, NUM) and isinstance(b, NUM):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                        'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'Pow': lambda: a ** b,
                        'BitOr': lambda: a | b, 'BitAnd': lambda: a & b, 'BitXor': lambda: a ^ b,
                        'LShift': lambda: a << b, 'RShift': lambda: a >> b}[n]()
            except ZeroDivisionError:
                throw('ZeroDivisionError')
        if n == 'Add' and type(a) is type(b) and isinstance(a, (list, tuple, str)):
            return a + b
        if n == 'Mult' and isinstance(a, (list, tuple, str)) and isinstance(b, int):
            return a * b
        if n == 'Mod' and isinstance(a, str):
            return Sym('fmt', a)
        if n in ('BitOr', 'Sub', 'BitAnd') and isinstance(a, set) and isinstance(b, set):
            return a | b if n == 'BitOr' else a - b if n == 'Sub' else a & b
        if n == 'BitOr' and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if isinstance(a, (Sym, Arr)) or isinstance(b, (Sym, Arr)):
            return Sym(n, a, b)
        if a is None or b is None or isinstance(a, (list, dict, str, tuple)) or isinstance(b, (list, dict, str, tuple)):
            throw('TypeError')
        raise Undecided('operator %s' % n)

    def e_Compare(self, e, sc):
        a = self.ev(e.left, sc)
        r = True
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, sc)
            r = self.compare(type(op).__name__, a, b)
            if len(e.ops) > 1 and not self.truth(r):
                return False
            a = b
        return r

    def same(self, a, b):
        """equality: a boolean, or an undetermined condition"""
        if isinstance(a, Arr) or isinstance(b, Arr):
            raise Undecided('array comparison')
        if isinstance(a, (Sym, Obj)) or isinstance(b, (Sym, Obj)):
            if a is b or isinstance(a, Sym) and a == b:
                return True
            if a is None or b is None or isinstance(a, (list, dict, tuple)) or isinstance(b, (list, dict, tuple)):
                return False
            if isinstance(a, Obj) and isinstance(b, Obj):
                return False
            x, y = sorted((a, b), key=repr)
            return Sym('==', x, y)
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            if len(a) != len(b):
                return False
            return all(self.truth(self.same(x, y)) for x, y in zip(a, b))
        try:
            return a == b
        except Exception:
            raise Undecided('comparison')

    def compare(self, n, a, b):
        if n in ('Is', 'IsNot'):
            r = a is b or (isinstance(a, (Sym, int, str)) and not isinstance(a, bool) and isinstance(b, type(a)) and a == b)
            return r if n == 'Is' else not r
        if n in ('Eq', 'NotEq'):
            r = self.same(a, b)
            if n == 'Eq':
                return r
            return Sym('not', r) if isinstance(r, Sym) else not r
        if n in ('In', 'NotIn'):
            if isinstance(b, str) and isinstance(a, str):
                r = a in b
            elif isinstance(b, Sym):
                r = Sym('in', a, b)
            else:
                r = False
                for x in self.iterate(b):
                    if a is x or self.truth(self.same(a, x)):
                        r = True
                        break
            return r if n == 'In' else Sym('not', r) if isinstance(r, Sym) else not r
        if isinstance(a, NUM) and isinstance(b, NUM) or isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[n]
        if a is None or b is None or isinstance(a, dict) or isinstance(b, dict):
            throw('TypeError')
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            raise Undecided('ordering of lists')
        if isinstance(a, float) and abs(a) == float('inf') or isinstance(b, float) and abs(b) == float('inf'):
            # a coordinate is finite
            lo = a if isinstance(a, float) else 0.0
            hi = b if isinstance(b, float) else 0.0
            return {'Lt': lo < hi, 'LtE': lo <= hi, 'Gt': lo > hi, 'GtE': lo >= hi}[n]
        if n in ('Gt', 'GtE'):
            a, b, n = b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[n]
        if isinstance(a, Sym) and a == b:
            return n == 'LtE'
        if coord(a) and coord(b):
            x, y = self.rank(a), self.rank(b)
            return {'Lt': x < y, 'LtE': x <= y}[n]
        # distinct abstract numbers: a strict order suffices
        x, y = sorted((a, b), key=repr)
        c = Sym('<', x, y)
        return c if (x is a or x == a) else Sym('not', c)

    def rank(self, v):
        """place of an abstract number in one of four total orders (all are followed)"""
        self.ranked = True
        k = (self.decide(Sym('order', 1)), self.decide(Sym('order', 2)))
        w = self.win(v, k)
        return key_of(w, k)

    def win(self, v, k=None):
        if k is None:
            k = (self.decide(Sym('order', 1)), self.decide(Sym('order', 2)))
        if isinstance(v, Sym) and v.op in ('min', 'max'):
            xs = [self.win(x, k) for x in v.a[0]]
            return (min if v.op == 'min' else max)(xs, key=lambda z: key_of(z, k))
        return v

    def e_JoinedStr(self, e, sc):
        out = []
        for v in e.values:
            out.append(v.value if isinstance(v, ast.Constant) else self.ev(v, sc))
        if all(isinstance(x, str) for x in out):
            return ''.join(out)
        return Sym('fstr', tuple(out)) if len(out) > 1 or not isinstance(out[0], Sym) else out[0]

    def e_FormattedValue(self, e, sc):
        v = self.ev(e.value, sc)
        if isinstance(v, (str, int)):
            return str(v)
        return to_str(self, v)

    def e_Starred(self, e, sc):
        raise Undecided('starred expression')


def coord(v):
    return isinstance(v, NUM) or isinstance(v, Sym) and (v.op == 'num' or v.op in ('min', 'max') and all(map(coord, v.a[0])))


def key_of(z, k):
    if isinstance(z, NUM):
        return float(z)
    h = int.from_bytes(hashlib.md5((repr(z) if k[0] else repr(z)[::-1]).encode()).digest()[:4], 'big') - 2 ** 31 + 0.5
    return h if k[1] else -h


class Live:
    """iteration over a list that may change meanwhile"""
    def __init__(self, v):
        self.v = v

    def __iter__(self):
        i = 0
        while i < len(self.v):
            yield self.v[i]
            i += 1


class Gen:
    """an iterator (its elements are computed beforehand)"""
    def __init__(self, xs):
        self.xs, self.i = list(xs), 0

    def drain(self):
        while self.i < len(self.xs):
            self.i += 1
            yield self.xs[self.i - 1]


def is_gen(node):
    r = getattr(node, '_isgen', None)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo += list(ast.iter_child_nodes(x))
        node._isgen = r
    return r


# -- builtins

def b(f):
    return lambda I, a, k: f(I, *a, **k)


def length(I, x):
    if isinstance(x, (list, tuple, str, dict, set, range)):
        return len(x)
    if isinstance(x, Arr):
        return len(x.v)
    if isinstance(x, Obj) and '__len__' in x.attrs:
        return I.call(x.attrs['__len__'], [], {})
    if isinstance(x, Obj) and isinstance(x.cls, Cls):
        for c in x.cls.mro():
            if '__len__' in c.ns:
                return I.call(c.ns['__len__'], [x], {})
    if isinstance(x, Sym):
        return Sym('len', x)
    if isinstance(x, Gen) or x is None or isinstance(x, NUM):
        throw('TypeError')
    raise Undecided('len')


def extreme(I, which, xs):
    """minimum or maximum of numbers, abstract ones included"""
    s = set()
    best = None
    for x in xs:
        if isinstance(x, NUM):
            best = x if best is None else (min if which == 'min' else max)(best, x)
        elif isinstance(x, Sym) and x.op == which:
            s |= x.a[0]
        elif isinstance(x, Sym):
            s.add(x)
        elif x is None:
            throw('TypeError')
        else:
            raise Undecided('%s of %r' % (which, x))
    if best is not None and s:
        if abs(best) == float('inf') and (best > 0) == (which == 'min'):
            best = None
        else:
            s.add(best)
            best = None
    if not s:
        return best
    if len(s) == 1:
        return next(iter(s))
    return Sym(which, frozenset(s))


def mk_extreme(which):
    def f(I, a, k):
        if any(x not in ('key', 'default') for x in k) or k.get('key') is not None:
            raise Undecided('%s(key=)' % which)
        xs = list(a) if len(a) > 1 else I.iterate(a[0])
        if not xs:
            if 'default' in k:
                return k['default']
            throw('ValueError', 'empty')
        return extreme(I, which, xs)
    return f


def isinst(I, o, c):
    cs = list(c) if isinstance(c, (tuple, list)) else [c]
    r = False
    for k in cs:
        if isinstance(k, Cls):
            if k.name in PYTYPES:
                r = r or isinstance(o, PYTYPES[k.name])
            elif isinstance(o, Obj) and isinstance(o.cls, Cls):
                r = r or k in o.cls.mro()
            elif isinstance(o, Sym):
                raise Undecided('type of an unknown value')
        elif isinstance(k, Prim) and k.name in PYTYPES:
            if isinstance(o, Sym):
                if o.op in ('obj',):
                    continue
                raise Undecided('type of an unknown value')
            r = r or isinstance(o, PYTYPES[k.name]) and not (k.name == 'int' and False)
        elif isinstance(k, Sym):
            if isinstance(o, (list, dict, tuple, str, int, float, type(None))) and k.op == 'import':
                continue
            raise Undecided('class %r' % k)
    return r


PYTYPES = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'str': str, 'int': int, 'float': NUM, 'bool': bool,
           'bytes': bytes}


def to_str(I, v):
    if isinstance(v, str):
        return v
    if isinstance(v, (int, float)) or v is None:
        return str(v)
    return Sym('str', v)


def b_list(I, *a):
    return I.iterate(a[0]) if a else []


def b_dict(I, *a, **k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for p in I.iterate(a[0]):
                x, y = I.iterate(p)
                d[I.key(x)] = y
    d.update(k)
    return d


def b_zip(I, *a, **k):
    xs = [I.iterate(x) for x in a]
    return Gen([tuple(x) for x in zip(*xs)])


def b_enum(I, x, start=0):
    return Gen([(start + i, y) for i, y in enumerate(I.iterate(x))])


def b_range(I, *a):
    for x in a:
        if not isinstance(x, int):
            if isinstance(x, Sym):
                raise Undecided('range of an unknown length')
            throw('TypeError')
    try:
        r = range(*a)
    except ValueError:
        throw('ValueError')
    return r


def b_next(I, it, *d):
    if not isinstance(it, Gen):
        raise Undecided('next')
    for x in it.drain():
        return x
    if d:
        return d[0]
    throw('StopIteration')


def b_iter(I, x):
    if isinstance(x, Gen):
        return x
    return Gen(I.iterate(x))


def b_iter2(I, *a):
    if len(a) == 2:
        out = []
        while True:
            I.tick(ast.Pass())
            v = I.call(a[0], [], {})
            if I.truth(I.same(v, a[1])):
                return Gen(out)
            out.append(v)
    return b_iter(I, *a)


def b_getattr(I, o, n, *d):
    if d:
        if isinstance(o, (Obj, Closure, Prim, Mod)) and n not in o.attrs:
            return d[0]
    return I.getattr(o, n)


def b_hasattr(I, o, n):
    if isinstance(o, (Closure, Prim)):
        return n in o.attrs
    if isinstance(o, Obj):
        if n in o.attrs:
            return True
        if isinstance(o.cls, Cls) and not o.attrs.get('__open__'):
            return any(n in c.ns for c in o.cls.mro())
    if isinstance(o, (list, dict, tuple)):
        return hasattr(o, n)
    if o is None:
        return False
    raise Undecided('hasattr')


def b_type(I, o):
    if isinstance(o, Obj):
        return o.cls
    for n, c in PYTYPES.items():
        if type(o) is c:
            return BUILTINS[n]
    raise Undecided('type()')


def b_sum(I, x, start=0):
    r = start
    for y in I.iterate(x):
        r = I.binop(ast.Add(), r, y)
    return r


def b_sorted(I, x, key=None, reverse=False):
    xs = I.iterate(x)
    if all(isinstance(y, NUM) for y in xs) and key is None:
        return sorted(xs, reverse=bool(reverse))
    # some order: the elements are what they are
    return list(reversed(xs)) if reverse else list(xs)


def b_any(I, x):
    return any(I.truth(y) for y in I.iterate(x))


def b_all(I, x):
    return all(I.truth(y) for y in I.iterate(x))


def b_map(I, f, *xs):
    return Gen([I.call(f, list(a), {}) for a in zip(*[I.iterate(x) for x in xs])])


def b_filter(I, f, x):
    return Gen([y for y in I.iterate(x) if I.truth(y if f is None else I.call(f, [y], {}))])


def num(I, kind, x):
    if isinstance(x, (int, float)):
        return int(x) if kind == 'int' else float(x)
    if kind == 'float' and isinstance(x, str) and x.lower().strip('+-') in ('inf', 'infinity'):
        return float(x)
    if isinstance(x, Sym):
        return x if kind == 'float' else Sym(kind, x)
    throw('TypeError')


BUILTINS = {
    'len': b(length), 'min': mk_extreme('min'), 'max': mk_extreme('max'), 'isinstance': b(isinst), 'list': b(b_list),
    'tuple': b(lambda I, *a: tuple(I.iterate(a[0])) if a else ()), 'dict': b(b_dict),
    'set': b(lambda I, *a: set(I.key(x) for x in I.iterate(a[0])) if a else set()),
    'frozenset': b(lambda I, *a: set(I.key(x) for x in I.iterate(a[0])) if a else set()),
    'zip': b(b_zip), 'enumerate': b(b_enum), 'range': b(b_range), 'next': b(b_next), 'iter': b(b_iter2),
    'print': lambda I, a, k: None, 'str': b(lambda I, x='': to_str(I, x)), 'repr': b(lambda I, x: Sym('repr', x)),
    'bool': b(lambda I, x=False: I.truth(x)), 'int': b(lambda I, x=0: num(I, 'int', x)),
    'float': b(lambda I, x=0.0: num(I, 'float', x)), 'abs': b(lambda I, x: abs(x) if isinstance(x, NUM) else Sym('abs', x)),
    'getattr': b(b_getattr), 'hasattr': b(b_hasattr), 'setattr': b(lambda I, o, n, v: I.setattr(o, n, v)),
    'callable': b(lambda I, o: isinstance(o, (Closure, Prim, Cls)) or isinstance(o, Obj) and '__call__' in o.attrs),
    'type': b(b_type), 'sum': b(b_sum), 'sorted': b(b_sorted), 'reversed': b(lambda I, x: Gen(list(reversed(I.iterate(x))))),
    'any': b(b_any), 'all': b(b_all), 'map': b(b_map), 'filter': b(b_filter), 'id': b(lambda I, x: Sym('id', x)),
    'bytes': b(lambda I, x=None: Sym('bytes', x)), 'slice': b(lambda I, *a: slice(*a)),
    'round': b(lambda I, x, *a: round(x, *a) if isinstance(x, NUM) else Sym('round', x)),
    'hash': b(lambda I, x: Sym('hash', x)),
}
BUILTINS = {n: Prim(f, n) for n, f in BUILTINS.items()}
BUILTINS['object'] = Cls('object')
BUILTINS['staticmethod'] = Prim(lambda I, a, k: a[0], 'staticmethod')


def l_pop(I, l, i=-1):
    if not l:
        throw('IndexError')
    return l.pop(i)


def l_remove(I, l, x):
    for i, y in enumerate(l):
        if y is x or I.truth(I.same(x, y)):
            del l[i]
            return None
    throw('ValueError')


def d_pop(I, d, k, *x):
    k = I.key(k)
    if k in d:
        return d.pop(k)
    if x:
        return x[0]
    throw('KeyError', k)


def s_join(I, s, xs):
    xs = I.iterate(xs)
    return s.join(xs) if all(isinstance(x, str) for x in xs) else Sym('join', s, tuple(xs))


METHODS = {
    ('list', 'append'): lambda I, l, x: l.append(x),
    ('list', 'extend'): lambda I, l, x: l.extend(I.iterate(x)),
    ('list', 'insert'): lambda I, l, i, x: l.insert(i, x),
    ('list', 'clear'): lambda I, l: l.clear(),
    ('list', 'copy'): lambda I, l: list(l),
    ('list', 'pop'): l_pop,
    ('list', 'remove'): l_remove,
    ('list', 'reverse'): lambda I, l: l.reverse(),
    ('list', 'sort'): lambda I, l, **k: None,
    ('list', 'count'): lambda I, l, x: sum(1 for y in l if I.truth(I.same(x, y))),
    ('list', 'index'): lambda I, l, x: next((i for i, y in enumerate(l) if y is x or I.truth(I.same(x, y))), None),
    ('dict', 'items'): lambda I, d: list(d.items()),
    ('dict', 'keys'): lambda I, d: list(d.keys()),
    ('dict', 'values'): lambda I, d: list(d.values()),
    ('dict', 'get'): lambda I, d, k, x=None: d.get(I.key(k), x),
    ('dict', 'pop'): d_pop,
    ('dict', 'copy'): lambda I, d: dict(d),
    ('dict', 'clear'): lambda I, d: d.clear(),
    ('dict', 'setdefault'): lambda I, d, k, x=None: d.setdefault(I.key(k), x),
    ('dict', 'update'): lambda I, d, *a, **k: d.update(b_dict(I, *a, **k)),
    ('set', 'add'): lambda I, s, x: s.add(I.key(x)),
    ('set', 'discard'): lambda I, s, x: s.discard(x),
    ('set', 'remove'): lambda I, s, x: s.discard(x) if x in s else throw('KeyError'),
    ('set', 'update'): lambda I, s, *a: s.update(*[I.iterate(x) for x in a]),
    ('set', 'intersection'): lambda I, s, x: s & set(I.iterate(x)),
    ('set', 'union'): lambda I, s, x: s | set(I.iterate(x)),
    ('set', 'difference'): lambda I, s, x: s - set(I.iterate(x)),
    ('set', 'isdisjoint'): lambda I, s, x: not (s & set(I.iterate(x))),
    ('set', 'copy'): lambda I, s: set(s),
    ('set', 'clear'): lambda I, s: s.clear(),
    ('str', 'format'): lambda I, s, *a, **k: Sym('fmt', s),
    ('str', 'join'): s_join,
    ('str', 'lower'): lambda I, s: s.lower(),
    ('str', 'upper'): lambda I, s: s.upper(),
    ('str', 'startswith'): lambda I, s, x: s.startswith(x),
    ('str', 'endswith'): lambda I, s, x: s.endswith(x),
    ('tuple', 'index'): lambda I, l, x: l.index(x),
    ('tuple', 'count'): lambda I, l, x: l.count(x),
    ('Arr', 'tolist'): lambda I, r: list(r.v),
    ('Arr', 'reshape'): lambda I, r, *s: reshape(I, r, s),
    ('Arr', 'min'): lambda I, r, axis=None: np_ext(I, 'min', r, axis),
    ('Arr', 'max'): lambda I, r, axis=None: np_ext(I, 'max', r, axis),
    ('Arr', 'copy'): lambda I, r: Arr(list(r.v)),
    ('Arr', 'astype'): lambda I, r, *a: r,
}
_ga = Interp.getattr


def _getattr(self, o, n):
    if isinstance(o, Arr):
        if n == 'shape':
            return shape(o)
        if n == 'size':
            return len(flat(o.v))
        if n == 'ndim':
            return len(shape(o))
    if isinstance(o, (list, dict)) and n == '__len__':
        return Prim(lambda I, a, k: len(o), n)
    return _ga(self, o, n)


Interp.getattr = _getattr


# -- numpy

def unarr(x):
    if isinstance(x, Arr):
        return [unarr(y) for y in x.v]
    if isinstance(x, (list, tuple)):
        return [unarr(y) for y in x]
    return x


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def shape(r):
    if r.shape:
        return r.shape
    s, v = [], r.v
    while isinstance(v, list):
        s.append(len(v))
        if not v:
            break
        v = v[0]
    return tuple(s)


def reshape(I, r, s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    xs = flat(r.v)
    if any(not isinstance(x, int) for x in s):
        raise Undecided('reshape')
    if -1 in s:
        k = 1
        for x in s:
            k *= x if x != -1 else 1
        if k == 0:
            throw('ValueError')
        s = tuple(len(xs) // k if x == -1 else x for x in s)
    k = 1
    for x in s:
        k *= x
    if k != len(xs):
        throw('ValueError', 'reshape')

    def build(ys, d):
        if not d:
            return ys[0]
        step = len(ys) // d[0] if d[0] else 0
        return [build(ys[i * step:(i + 1) * step], d[1:]) for i in range(d[0])]
    return Arr(build(xs, s) if s else xs, s)


def np_ext(I, which, r, axis=None):
    v = unarr(r)
    if isinstance(r, Gen):
        raise Undecided('array of a generator')
    if not flat(v):
        throw('ValueError', 'empty')
    if axis is None:
        return extreme(I, which, flat(v))
    if axis == 0 and v and isinstance(v[0], list):
        return Arr([extreme(I, which, c) for c in zip(*v)])
    if axis == 0:
        return extreme(I, which, v)
    if axis in (1, -1) and v and isinstance(v[0], list):
        return Arr([extreme(I, which, row) for row in v])
    raise Undecided('axis')


def np_pair(which):
    def f(I, x, y):
        x, y = unarr(x), unarr(y)
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y):
                throw('ValueError')
            return Arr([extreme(I, which, [p, q]) for p, q in zip(x, y)])
        if isinstance(x, list) or isinstance(y, list):
            l, s = (x, y) if isinstance(x, list) else (y, x)
            return Arr([extreme(I, which, [p, s]) for p in l])
        return extreme(I, which, [x, y])
    return f


def np_cat(I, xs, axis=0):
    xs = I.iterate(xs)
    if not xs:
        throw('ValueError', 'need at least one array to concatenate')
    if axis != 0:
        raise Undecided('axis')
    out = []
    for x in xs:
        if isinstance(x, Arr):
            out += x.v
        elif isinstance(x, list):
            out += x
        elif isinstance(x, Sym):
            out.append(Sym('rows', x))
        else:
            raise Undecided('concatenate')
    return Arr(out)


def np_array(I, x, *a, **k):
    if isinstance(x, Gen):
        raise Undecided('array of a generator')
    if isinstance(x, (Sym, Obj)):
        raise Undecided('array')
    return Arr(unarr(x))


def np_full(I, s, v, **k):
    if isinstance(s, int):
        s = (s,)

    def build(d):
        return v if not d else [build(d[1:]) for _ in range(d[0])]
    return Arr(build(tuple(s)), tuple(s) if not all(s) else None)


NUMPY = {
    'array': b(np_array), 'asarray': b(np_array), 'min': b(lambda I, x, axis=None: np_ext(I, 'min', x, axis)),
    'max': b(lambda I, x, axis=None: np_ext(I, 'max', x, axis)), 'amin': b(lambda I, x, axis=None: np_ext(I, 'min', x, axis)),
    'amax': b(lambda I, x, axis=None: np_ext(I, 'max', x, axis)), 'minimum': b(np_pair('min')), 'maximum': b(np_pair('max')),
    'concatenate': b(np_cat), 'vstack': b(np_cat), 'zeros': b(lambda I, s, *a, **k: np_full(I, s, 0)),
    'empty': b(lambda I, s, *a, **k: np_full(I, s, 0)), 'full': b(np_full),
    'reshape': b(lambda I, x, s: reshape(I, x if isinstance(x, Arr) else np_array(I, x), (s,))),
}
NUMPY = {n: Prim(f, 'numpy.' + n) for n, f in NUMPY.items()}
NUMPY['inf'] = float('inf')


def explore(run, limit=4096):
    """run(decisions) for every way the undetermined branches can go"""
    dec = []
    n = 0
    while True:
        n += 1
        if n > limit:
            raise Undecided('too many paths')
        d = list(dec)
        yield run(d)
        while d and d[-1] is False:
            d.pop()
        if not d:
            return
        d[-1] = False
        dec = d
