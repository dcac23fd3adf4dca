"""Loads the resolved program (types, functions, records) that tool/extract.cpp dumps for each translation unit."""
import json


READCAST = ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'LValueToRValue')


class Ty:
    __slots__ = ('k', 'w', 's', 'n', 'a', 't', 'c', 'str', 'enum', 'rv', 'ch', 'lam', 'sz')

    def __init__(self):
        for f in self.__slots__:
            setattr(self, f, None)

    def __repr__(self):
        return self.str


class Fn:
    __slots__ = ('id', 'file', 'line', 'end', 'ps', 'inits', 'body', 'types', 'name')


class Decl:
    def __init__(self, d, types):
        self.__dict__.update(d)
        self.ps = [types[i] for i in d.get('ps', [])]
        self.ret = types[d['ret']] if 'ret' in d and d['ret'] is not None else None
        self.rect = types[d['rect']] if d.get('rect') is not None else None
        self.types = types

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return None


class Prog:
    def __init__(self):
        self.funcs = {}
        self.decls = {}
        self.recs = {}
        self.globals = {}
        self.byname = {}
        self.files = set()
        self._ty = {}
        self.tus = []

    def load(self, path, prefer=True):
        d = json.load(open(path))
        types = []
        for o in d['types']:
            x = Ty()
            types.append(x)
        for o, x in zip(d['types'], types):
            x.k = o['k']
            x.w, x.s = o.get('w'), o.get('s')
            x.str = o.get('str', '')
            x.c = o.get('c', False)
            x.enum = o.get('enum')
            x.rv = o.get('rv')
            x.ch = o.get('ch')
            x.lam = o.get('lambda')
            x.sz = o.get('sz')
            x.n = o.get('n')
            if isinstance(o.get('t'), int):
                x.t = types[o['t']]
            x.a = tuple(types[a] if isinstance(a, int) else a for a in o.get('a', ()))
        for i, dd in d['decls'].items():
            if i not in self.decls:
                self.decls[i] = Decl(dd, types)
                self.decls[i].id = i
                self.byname.setdefault(dd['name'], []).append(i)
        for i, ff in d['funcs'].items():
            if i in self.funcs:
                continue
            f = Fn()
            f.id = i
            f.file, f.line, f.end = ff['file'], ff['line'], ff['end']
            f.ps = ff['ps']
            f.inits = ff.get('inits')
            f.body = ff['body']
            f.types = types
            f.name = d['decls'][i]['name']
            self.funcs[i] = f
            self.files.add(ff['file'])
        for n, r in d['recs'].items():
            o = self.recs.get(n)
            if o is None:
                r = dict(r)
                r['bases'] = [types[b] for b in r['bases']]
                r['fields'] = [dict(f, t=types[f['t']]) for f in r['fields']]
                r['types'] = types
                self.recs[n] = r
        for n, g in d['globals'].items():
            o = self.globals.get(n)
            if o is None or ('init' not in o and 'init' in g):
                g = dict(g)
                g['t'] = types[g['t']]
                g['types'] = types
                self.globals[n] = g
        self.tus.append(path)

    def written(self, name, static=None):
        """may some function of the program change the variable?  Only uses which read a value (of it or of one of its
        array elements) are known not to"""
        if not hasattr(self, '_written'):
            self._written = set()
            for f in self.funcs.values():
                for part in (f.body, f.inits):
                    self._scan(part, None, None, f)
        return (static or name) in self._written

    def _scan(self, z, par, role, fn):
        if isinstance(z, list):
            for v in z:
                self._scan(v, par, role, fn)
            return
        if not isinstance(z, dict):
            return
        k = z.get('k')
        if k == 'gvar' or k == 'var' and z.get('static'):
            if not (par and par[0] == 'read'):
                self._written.add(z['name'] if k == 'gvar' else 'static:%s:%s' % (fn.id, z['name']))
            return
        for r, v in z.items():
            if not isinstance(v, (list, dict)):
                continue
            ctx = None
            if k == 'cast' and z.get('ck') in READCAST or k == 'bin' or k in ('asg', 'asgop') and r == 'b':
                ctx = ('read',)
            elif k == 'cast' and self._constview(z, fn):
                ctx = ('read',)
            elif k == 'cond':
                ctx = ('read',) if r == 'c' else par
            elif k == 'idx':
                ctx = par if r == 'b' else ('read',)
            elif k == 'cast' and z.get('ck') == 'ArrayToPointerDecay' and par and par[0] == 'idx':
                ctx = par[1]
            elif k is None:
                ctx = par
            if k == 'idx' and r == 'b':
                ctx = ('idx', par)
            self._scan(v, ctx, r, fn)

    def _constview(self, z, fn):
        """a conversion which only lets the object be read"""
        if z.get('ck') != 'NoOp' or not isinstance(z.get('t'), int):
            return False
        x = fn.types[z['t']]
        if x.k == 'ref' or x.k == 'ptr':
            x = x.t
        return bool(x is not None and x.c)

    def allfields(self, cls):
        """flat [(field, type)] of a record, bases first"""
        r = self.recs.get(cls)
        if r is None:
            return None
        c = r.get('_all')
        if c is None:
            c = []
            for b in r['bases']:
                c += self.allfields(b.n) or []
            c += [(f['n'], f['t']) for f in r['fields']]
            r['_all'] = c
        return c

    @staticmethod
    def is_file(ty):
        return ty.k == 'rec' and ty.n in ('std::basic_fstream', 'std::basic_ofstream', 'std::basic_ifstream')

    def has_dtor(self, cls, seen=()):
        """destroying an object of this class runs code of the library"""
        r = self.recs.get(cls)
        if r is None or not r.get('repo') or cls in seen:
            return False
        c = r.get('_dtor')
        if c is None:
            d = self.decls.get(r.get('dtor'))
            c = d is not None and d.id in self.funcs and not d.defaulted
            for f in r['fields']:
                if f['t'].k == 'rec':
                    x = f['t']
                    if x.n in ('std::shared_ptr', 'std::unique_ptr') and x.a and x.a[0].k == 'rec':
                        x = x.a[0]
                    c = c or self.is_file(x) or self.has_dtor(x.n, seen + (cls,))
            c = c or any(self.has_dtor(b.n, seen + (cls,)) for b in r['bases'])
            r['_dtor'] = c
        return c

    def derives(self, cls, base):
        if cls == base:
            return True
        r = self.recs.get(cls)
        return r is not None and any(self.derives(b.n, base) for b in r['bases'])

    def find(self, name):
        return [self.decls[i] for i in self.byname.get(name, ())]
