"""C19: effects on state shared between parses, and sources of nondeterminism.

A points-to analysis (inclusion based, allocation sites, receiver-sensitive) over the whole library.  Objects created while
the modules are loaded (module and class level, default arguments) and everything reachable from them are *shared*; so are
values handed out by a cache.  No function reachable from the API may store into a shared object, a class or a module."""
import ast
import os
from terms import Gap

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
       'popitem', 'appendleft', 'popleft', 'extendleft', '__setitem__', '__delitem__', '__iadd__', 'rotate',
       'difference_update', 'intersection_update', 'symmetric_difference_update', 'subtract', 'move_to_end'}
ADDS = {'append', 'insert', 'add', 'setdefault', 'appendleft', '__setitem__', 'extend', 'update', 'extendleft'}
BADMOD = {'random', 'secrets', 'uuid', 'time', 'threading', 'gc', 'weakref', 'locale', 'platform', 'socket', 'getpass', 'tempfile',
          'inspect', 'traceback', 'multiprocessing', 'resource', 'contextvars'}
BADATTR = {('datetime', 'now'), ('datetime', 'today'), ('datetime', 'utcnow'), ('date', 'today'), ('os', 'environ'),
           ('os', 'getenv'), ('os', 'urandom'), ('os', 'getpid'), ('os', 'getcwd'), ('os', 'times'), ('os', 'cpu_count'),
           ('os', 'listdir'), ('sys', 'argv'), ('sys', 'getrefcount'), ('sys', '_getframe'), ('sys', 'intern'), ('sys', 'flags'),
           ('sys', 'stdin'), ('sys', 'getsizeof')}
BADCALL = {'id', 'hash', 'input', 'open', 'globals', 'vars', 'exec', 'eval'}
UNORDERED = {'sorted', 'len', 'any', 'all', 'sum', 'min', 'max', 'set', 'frozenset', 'bool', 'isinstance', 'print'}
IMMUT = {'int', 'float', 'str', 'bool', 'len', 'abs', 'ord', 'chr', 'isinstance', 'round', 'any', 'all', 'sum', 'print', 'repr',
         'divmod', 'hasattr', 'callable', 'format', 'range', 'issubclass'}
STRM = {'format', 'join', 'replace', 'upper', 'lower', 'strip', 'startswith', 'endswith', 'isdigit', 'find', 'index', 'count',
        'lstrip', 'rstrip', 'isalpha', 'isalnum', 'isupper', 'encode', 'zfill', 'ljust', 'rjust', 'center'}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.bases = {}, []
        self.enum = False


class Effects:
    def __init__(self, root, mods):
        self.root = root
        self.mods = {}
        self.files = []
        self.pt = {}          # node -> set of objects
        self.classes = {}     # (mod, name) -> Cls
        self.kind = {}        # object -> kind
        self.changed = True
        self.viol = {}
        self.reached = {}     # (function id, ctx) -> None
        self.import_time = False
        self.cached_objs = set()
        self.writes = {}      # (object, attribute) -> {(function id, site)}
        self.stats = {'stores': set(), 'calls': set(), 'iterations': set()}
        self.fnid = {}
        self.sets = {}
        self.loads = {}       # attribute use -> [function, receivers]
        for m in mods:
            p = os.path.join(root, *m.split('.')) + '.py'
            if not os.path.exists(p):
                continue
            self.add_module(m, p)
        # helper modules the library imports
        todo = True
        while todo:
            todo = False
            for m in list(self.mods):
                for x in ast.walk(self.mods[m]['tree']):
                    names = []
                    if isinstance(x, ast.ImportFrom) and x.module and not x.level:
                        names = [x.module] + [x.module + '.' + a.name for a in x.names]
                    elif isinstance(x, ast.Import):
                        names = [a.name for a in x.names]
                    for n in names:
                        q = os.path.join(root, *n.split('.')) + '.py'
                        if n not in self.mods and os.path.exists(q) and not n.startswith('UnitTests'):
                            self.add_module(n, q)
                            todo = True

    def add_module(self, m, p):
        tree = ast.parse(open(p, encoding='utf-8').read())
        rel = os.path.relpath(p, self.root)
        self.files.append(rel)
        self.mods[m] = {'tree': tree, 'rel': rel}
        for x in ast.walk(tree):
            x._rel = rel
            for c in ast.iter_child_nodes(x):
                c._up = x
        for x in ast.walk(tree):
            if isinstance(x, ast.ClassDef):
                c = Cls(m, x)
                self.classes[(m, x.name)] = c
                x._cls = c
                for b in x.body:
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        c.methods[b.name] = b
                        b._owner = c
                for b in x.bases:
                    n = b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', '')
                    c.bases.append(n)
                    if n in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'):
                        c.enum = True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                x._mod = m
                args = x.args.posonlyargs + x.args.args + x.args.kwonlyargs
                x._params = [a.arg for a in args]
                loc = set(x._params) | {a.arg for a in (x.args.vararg, x.args.kwarg) if a}
                x._globals = set()
                body = x.body if isinstance(x.body, list) else [x.body]
                for b in body:
                    for y in ast.walk(b):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                            loc.add(y.id)
                        elif isinstance(y, (ast.Global, ast.Nonlocal)):
                            x._globals |= set(y.names)
                        elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                            loc.add(y.name)
                        elif isinstance(y, ast.ExceptHandler) and y.name:
                            loc.add(y.name)
                        elif isinstance(y, (ast.MatchAs, ast.MatchStar)) and y.name:
                            loc.add(y.name)
                        elif isinstance(y, (ast.Import, ast.ImportFrom)):
                            for a in y.names:
                                loc.add((a.asname or a.name).split('.')[0])
                x._locals = loc - x._globals

    # ---------------------------------------------------------------- nodes
    def site(self, n):
        return '%s:%d' % (getattr(n, '_rel', '?'), getattr(n, 'lineno', 0))

    def get(self, k):
        return self.pt.get(k, ())

    def put(self, k, objs):
        s = self.pt.get(k)
        if s is None:
            s = self.pt[k] = set()
        n = len(s)
        s.update(objs)
        if len(s) != n:
            self.changed = True

    def alloc(self, node, kind, tag=''):
        ctx = 'import' if self.import_time else self.ctx
        if isinstance(ctx, tuple) and len(ctx) > 2 and isinstance(ctx[2], tuple):
            ctx = ctx[:2] + ('*',)
        o = (kind, id(node), ctx, tag)
        self.kind[o] = (kind, node)
        return o

    def bad(self, node, msg, fn):
        if self.import_time:
            return
        k = (self.site(node), msg)
        if k not in self.viol:
            self.viol[k] = 'in ' + self.name(fn)

    @staticmethod
    def name(fn):
        if fn is None:
            return 'module level'
        n = getattr(fn, 'name', '<lambda>')
        c = getattr(fn, '_owner', None)
        return (c.name + '.' if c else '') + n

    # ---------------------------------------------------------------- classes
    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            for b in x.bases:
                todo += [d for d in self.classes.values() if d.name == b]
        return out

    def find(self, c, name):
        for d in self.mro(c):
            if name in d.methods:
                return d.methods[name]
        return None

    def definite(self, c, seen=()):
        """attributes every instance has of its own once it is constructed"""
        out = set()
        for d in self.mro(c):
            m = d.methods.get('__init__')
            if m is not None:
                out |= self.definite_in(c, m, set())
                break
        return out

    def definite_in(self, c, m, seen):
        if m in seen:
            return set()
        seen.add(m)
        out = set()
        me = m._params[0] if m._params else ''
        for s in m.body:
            if isinstance(s, ast.Return):
                break
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value else []):
                for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(u, ast.Attribute) and isinstance(u.value, ast.Name) and u.value.id == me:
                        out.add(u.attr)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
                f = s.value.func
                if isinstance(f.value, ast.Name) and f.value.id == me:
                    n = self.find(c, f.attr)
                    if n is not None:
                        out |= self.definite_in(c, n, seen)
                elif isinstance(f.value, ast.Call) and getattr(f.value.func, 'id', '') == 'super':
                    for d in self.mro(c)[1:]:
                        if f.attr in d.methods:
                            out |= self.definite_in(c, d.methods[f.attr], seen)
                            break
            if any(isinstance(y, ast.Return) for y in ast.walk(s)):
                break
        return out

    # ---------------------------------------------------------------- attribute access
    def load_attr(self, o, attr, node, fn):
        k = o[0]
        if k == 'inst':
            c = o[3]
            out = set(self.get((o, attr)))
            if c is not None:
                m = self.find(c, attr)
                if m is not None:
                    if self.has_deco(m, 'property', 'cached_property'):
                        return out | self.call_fn(m, o, [], {}, node)
                    if self.has_deco(m, 'staticmethod'):
                        return out | {self.func(m, None)}
                    if self.has_deco(m, 'classmethod'):
                        return out | {self.func(m, self.clsobj(c))}
                    return out | {self.func(m, o)}
                if attr not in c.definite:
                    for d in self.mro(c):
                        if d.enum:
                            continue
                        out |= set(self.get((self.clsobj(d), attr)))
                if attr == '__class__':
                    out.add(self.clsobj(c))
                if attr == '__dict__':
                    out.add(o)
            return out
        if k == 'class':
            c = o[3]
            m = self.find(c, attr)
            if m is not None:
                if self.has_deco(m, 'classmethod'):
                    return {self.func(m, o)}
                return {self.func(m, None)}
            out = set()
            for d in self.mro(c):
                if not d.enum:
                    out |= set(self.get((self.clsobj(d), attr)))
            return out
        if k == 'module':
            return set(self.get((('g', o[3]), attr)))
        return set(self.get((o, attr)))

    def clsobj(self, c):
        o = ('class', id(c), None, c)
        self.kind[o] = ('class', c.node)
        return o

    def func(self, m, recv):
        o = ('func', id(m), recv, m)
        self.kind[o] = ('func', m)
        return o

    @staticmethod
    def has_deco(m, *names):
        for d in getattr(m, 'decorator_list', ()):
            if isinstance(d, ast.Call):
                d = d.func
            n = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '')
            if n in names:
                return True
        return False

    def store(self, objs, attr, vals, node, fn):
        self.stats['stores'].add(self.site(node))
        for o in objs:
            self.touch(o, attr, node, fn)
            self.put((o, attr) if o[0] != 'module' else (('g', o[3]), attr), vals)

    def touch(self, o, attr, node, fn):
        """o is changed here"""
        if self.import_time:
            return
        self.writes.setdefault((o, attr), set()).add((fn, self.site(node)))
        self.stats['stores'].add(self.site(node))

    # ---------------------------------------------------------------- expressions
    def look(self, name, fn, fr):
        f = fn
        while f is not None:
            if name in f._locals:
                return set(self.get((fr[f] if f in fr else ('f', id(f), None), name)))
            f = self.outer(f)
        m = self.modof
        return set(self.get((('g', m), name)))

    @staticmethod
    def outer(f):
        x = getattr(f, '_up', None)
        while x is not None and not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            x = getattr(x, '_up', None)
        return x

    def elems(self, objs):
        out = set()
        for o in objs:
            out |= set(self.get((o, '[]')))
        return out

    def fresh(self, node, kind, vals, tag=''):
        o = self.alloc(node, kind, tag)
        self.put((o, '[]'), vals)
        return {o}

    def ev(self, e, fn, fr):
        if e is None or isinstance(e, ast.Constant):
            return set()
        ev = lambda x: self.ev(x, fn, fr)
        if isinstance(e, ast.Name):
            return self.look(e.id, fn, fr)
        if isinstance(e, ast.Attribute):
            self.nondet_attr(e, fn)
            out = set()
            base = ev(e.value)
            if isinstance(e.ctx, ast.Load):
                self.loads.setdefault(e, [fn, set()])[1].update(base)
            for o in base:
                out |= self.load_attr(o, e.attr, e, fn)
            return out
        if isinstance(e, ast.Call):
            return self.call(e, fn, fr)
        if isinstance(e, ast.Subscript):
            b = ev(e.value)
            ev(e.slice) if not isinstance(e.slice, ast.Slice) else [ev(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if isinstance(e.slice, ast.Slice):
                return self.fresh(e, 'list', self.elems(b)) if b else set()
            return self.elems(b)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vals = set()
            for x in e.elts:
                vals |= self.elems(ev(x.value)) if isinstance(x, ast.Starred) else ev(x)
            kind = type(e).__name__.lower()
            if kind == 'set':
                kind = 'set' if not all(isinstance(x, ast.Constant) and not isinstance(x.value, (str, bytes)) or
                                        isinstance(x, ast.Attribute) for x in e.elts) else 'intset'
            return self.fresh(e, kind, vals)
        if isinstance(e, ast.Dict):
            vals = set()
            for k, v in zip(e.keys, e.values):
                vals |= ev(k) if k is not None else set()
                vals |= ev(v) if k is not None else self.elems(ev(v))
            return self.fresh(e, 'dict', vals)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                it = ev(g.iter)
                self.iterate(it, g.iter, fn, self.comp_unordered(e))
                self.bind(g.target, self.elems(it), fn, fr)
                for c in g.ifs:
                    ev(c)
            vals = (ev(e.key) | ev(e.value)) if isinstance(e, ast.DictComp) else ev(e.elt)
            return self.fresh(e, {'ListComp': 'list', 'SetComp': 'set', 'GeneratorExp': 'gen', 'DictComp': 'dict'}[type(e).__name__], vals)
        if isinstance(e, ast.BinOp):
            a, b = ev(e.left), ev(e.right)
            if not a and not b:
                return set()
            return self.fresh(e, 'set' if any(o[0] == 'set' for o in a | b) else 'list', self.elems(a) | self.elems(b))
        if isinstance(e, ast.BoolOp):
            out = set()
            for x in e.values:
                out |= ev(x)
            return out
        if isinstance(e, ast.IfExp):
            ev(e.test)
            return ev(e.body) | ev(e.orelse)
        if isinstance(e, ast.NamedExpr):
            v = ev(e.value)
            self.bind(e.target, v, fn, fr)
            return v
        if isinstance(e, ast.Lambda):
            self.fnclosure(e, fr)
            for d in e.args.defaults:
                ev(d)
            return {self.func(e, None)}
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                ev(x)
            for op, x, y in zip(e.ops, [e.left] + e.comparators, e.comparators):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    for z in (x, y):
                        if isinstance(z, ast.Constant) and z.value not in (None, True, False, Ellipsis) or \
                                isinstance(z, (ast.JoinedStr, ast.BinOp, ast.List, ast.Tuple, ast.Dict)):
                            self.bad(e, 'the identity of a value decides, not the value', fn)
            return set()
        if isinstance(e, ast.Starred):
            return self.ev(e.value, fn, fr)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = ev(e.value)
            if isinstance(e, ast.YieldFrom):
                v = self.elems(v)
            self.put((self.frame, '<yield>'), v)
            return set()
        if isinstance(e, ast.Await):
            raise Gap('await at %s' % self.site(e))
        for x in ast.iter_child_nodes(e):      # f-strings, unary, conditions
            if isinstance(x, ast.expr):
                ev(x)
        return set()

    def fnclosure(self, f, fr):
        if getattr(f, '_fr', None) is None:
            f._fr = {}
        f._fr.update(fr)

    def comp_unordered(self, e):
        up = getattr(e, '_up', None)
        return isinstance(e, ast.SetComp) or isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in UNORDERED and e in up.args

    def iterate(self, objs, node, fn, ok):
        self.stats['iterations'].add(self.site(node))
        if not ok and any(o[0] == 'set' for o in objs):
            self.bad(node, 'the order of a set (hashing of texts) matters here', fn)

    def nondet_attr(self, e, fn):
        b = e.value
        n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ''
        if n in BADMOD and self.is_import(n) or (n, e.attr) in BADATTR:
            self.bad(e, 'depends on %s.%s, not on the field alone' % (n, e.attr), fn)

    def is_import(self, n):
        return n in self.imports[self.modof]

    # ---------------------------------------------------------------- calls
    def call(self, e, fn, fr):
        self.stats['calls'].add(self.site(e))
        ev = lambda x: self.ev(x, fn, fr)
        args, star = [], set()
        for a in e.args:
            if isinstance(a, ast.Starred):
                star |= self.elems(ev(a.value))
            else:
                args.append(ev(a))
        kw = {k.arg: ev(k.value) for k in e.keywords}
        every = set(star)
        for a in args:
            every |= a
        for a in kw.values():
            every |= a
        f = e.func
        if isinstance(f, ast.Name):
            name = f.id
            t = self.look(name, fn, fr)
            if not t:
                return self.builtin(name, e, args, kw, every, fn, fr)
            return self.call_objs(t, args, kw, star, e, fn)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                owner = self.owner(fn)
                if owner is not None:
                    recv = self.look(fn._params[0], fn, fr) if fn._params else set()
                    out = set()
                    for d in self.mro(owner)[1:]:
                        if f.attr in d.methods:
                            for r in recv:
                                out |= self.call_fn(d.methods[f.attr], r, args, kw, e, star)
                            break
                    return out
            self.nondet_attr(f, fn)
            recv = ev(f.value)
            self.loads.setdefault(f, [fn, set()])[1].update(recv)
            out = set()
            targets = set()
            for o in recv:
                if o[0] in ('inst', 'class', 'module'):
                    targets |= self.load_attr(o, f.attr, f, fn)
            if targets:
                out |= self.call_objs(targets, args, kw, star, e, fn)
            plain = {o for o in recv if o[0] not in ('inst', 'class', 'module', 'func') or o[0] == 'inst' and o[3] is None}
            if plain and not targets:
                out |= self.method(plain, f.attr, e, every, fn)
            if not recv or not plain and not targets:
                if f.attr in ('deepcopy',):
                    return self.deep(every)
                if f.attr == 'copy' and every:
                    return self.shallow(e, every)
                if f.attr in STRM:
                    if f.attr == 'join':
                        for a in e.args:
                            self.iterate(ev(a), a, fn, False)
                    return out
                if every and not recv:      # external function
                    out |= self.fresh(e, 'ext', every | self.elems(every))
            return out
        return self.call_objs(ev(f), args, kw, star, e, fn)

    def owner(self, fn):
        while fn is not None and not hasattr(fn, '_owner'):
            fn = self.outer(fn)
        return getattr(fn, '_owner', None)

    def shallow(self, e, objs):
        out = set()
        for o in objs:
            c = self.alloc(e, o[0], o[3]) if o[0] != 'class' else o
            for (k, a), v in list(self.pt.items()):
                if k == o:
                    self.put((c, a), v)
            out.add(c)
        return out

    def deep(self, objs):
        out = set()
        for o in objs:
            if o[0] in ('class', 'func', 'module'):
                out.add(o)
                continue
            c = (o[0], o[1], ('deep',), o[3])
            if c not in self.kind:
                self.kind[c] = self.kind.get(o, (o[0], None))
                for (k, a), v in list(self.pt.items()):
                    if k == o:
                        self.put((c, a), self.deep(v))
            out.add(c)
        return out

    def builtin(self, name, e, args, kw, every, fn, fr):
        if name in BADCALL:
            self.bad(e, 'depends on %s(), not on the field alone' % name, fn)
        if name in ('setattr', 'delattr'):
            a = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else '*'
            self.store(args[0], a, args[2] if len(args) > 2 else set(), e, fn)
            return set()
        if name == 'getattr':
            a = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
            out = set(args[2]) if len(args) > 2 else set()
            for o in args[0]:
                if a is not None:
                    out |= self.load_attr(o, a, e, fn)
                else:
                    c = o[3] if o[0] in ('inst', 'class') else None
                    if c is not None:
                        names = {x for d in self.mro(c) for x in d.methods} | {k[1] for k in list(self.pt) if k[0] == o}
                        names |= {k[1] for d in self.mro(c) for k in list(self.pt) if k[0] == self.clsobj(d)}
                        for n in names:
                            if not n.startswith('__'):
                                out |= self.load_attr(o, n, e, fn)
            return out
        if name in ('type',):
            return {self.clsobj(o[3]) for o in args[0] if o[0] == 'inst' and o[3] is not None} if args else set()
        if name in IMMUT:
            return set()
        if name in ('deepcopy',):
            return self.deep(every)
        if name == 'copy':
            return self.shallow(e, every)
        if name in ('list', 'tuple', 'iter', 'next', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'dict', 'sorted', 'set',
                    'frozenset', 'min', 'max', 'deque'):
            if name in ('list', 'tuple', 'iter', 'next', 'enumerate', 'zip', 'map', 'filter', 'deque'):
                up = getattr(e, '_up', None)
                self.iterate(every, e, fn, isinstance(up, ast.Call) and getattr(up.func, 'id', '') in UNORDERED)
            vals = self.elems(every)
            if name in ('map', 'filter', 'sorted', 'min', 'max'):
                key = set(args[0]) if name in ('map', 'filter') and args else set()
                key |= kw.get('key', set())
                r = set()
                fs = {o for o in key if o[0] in ('func', 'class')}
                if fs:
                    r = self.call_objs(fs, [vals], {}, set(), e, fn)
                if name == 'map':
                    vals = r
            if name in ('next', 'min', 'max'):
                return vals | (every if name != 'next' else (set(args[1]) if len(args) > 1 else set()))
            if name in ('enumerate', 'zip'):
                return self.fresh(e, 'list', self.fresh(e, 'tuple', vals, 'row'))
            return self.fresh(e, 'set' if name in ('set', 'frozenset') else 'list' if name != 'dict' else 'dict',
                              vals | (self.elems(vals) if name == 'dict' else set()) | (set().union(*kw.values()) if kw and name == 'dict' else set()))
        return self.fresh(e, 'ext', every | self.elems(every))

    def method(self, objs, name, e, every, fn):
        if name in MUT:
            for o in objs:
                self.touch(o, '[]', e, fn)
                if name == 'pop' and o[0] == 'set':
                    self.bad(e, 'the order of a set (hashing of texts) matters here', fn)
            if name in ADDS:
                v = every | (self.elems(every) if name in ('extend', 'update', 'extendleft') else set())
                for o in objs:
                    self.put((o, '[]'), v)
            if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                return self.elems(objs) | every
            return set()
        if name in ('get', '__getitem__'):
            return self.elems(objs) | every
        if name in ('values', 'keys', '__iter__'):
            return self.fresh(e, 'list', self.elems(objs))
        if name == 'items':
            return self.fresh(e, 'list', self.fresh(e, 'tuple', self.elems(objs), 'row'))
        if name == 'copy':
            return self.shallow(e, objs)
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return self.fresh(e, 'set', self.elems(objs) | self.elems(every))
        if name in STRM:
            return set()
        return self.fresh(e, 'ext', every)

    def call_objs(self, objs, args, kw, star, e, fn):
        out = set()
        for o in objs:
            if o[0] == 'func':
                out |= self.call_fn(o[3], o[2], args, kw, e, star)
            elif o[0] == 'class':
                c = o[3]
                if c.enum:
                    continue
                i = self.alloc(e, 'inst', c)
                m = self.find(c, '__init__')
                if m is not None:
                    self.call_fn(m, i, args, kw, e, star)
                out.add(i)
            elif o[0] == 'inst' and o[3] is not None:
                m = self.find(o[3], '__call__')
                if m is not None:
                    out |= self.call_fn(m, o, args, kw, e, star)
            else:
                a = set(star)
                for x in args:
                    a |= x
                out |= self.fresh(e, 'ext', a)
        return out

    def call_fn(self, m, recv, args, kw, e, star=()):
        ctx = 'import' if self.import_time else (recv[:3] if isinstance(recv, tuple) and recv[0] == 'inst' else None)
        if isinstance(ctx, tuple) and isinstance(ctx[2], tuple):
            ctx = (ctx[0], ctx[1], ctx[2][:2])
        frame = ('f', id(m), ctx)
        if frame not in self.reached:
            self.reached[frame] = (m, recv)
            self.changed = True
        if not self.import_time:
            self.runtime.add(frame)
        ps = m._params
        if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and recv is not None and ps:
            self.put((frame, ps[0]), {recv})
            ps = ps[1:]
        for p, a in zip(ps, args):
            self.put((frame, p), a)
        if star:
            for p in ps:
                self.put((frame, p), star)
        if m.args.vararg and (len(args) > len(ps) or star):
            v = set(star)
            for a in args[len(ps):]:
                v |= a
            self.put((frame, m.args.vararg.arg), self.fresh(m, 'tuple', v, 'args'))
        for k, v in kw.items():
            if k in m._params:
                self.put((frame, k), v)
            elif k is None:
                for p in ps:
                    self.put((frame, p), self.elems(v))
            elif m.args.kwarg:
                self.put((frame, m.args.kwarg.arg), self.fresh(m, 'dict', v, 'kwargs'))
        out = set(self.get((frame, '<return>')))
        y = self.get((frame, '<yield>'))
        if y or getattr(m, '_gen', False):
            out |= self.fresh(m, 'gen', y)
        if self.has_deco(m, 'lru_cache', 'cache', 'cached_property'):
            self.cached_objs |= {o for o in out if o[0] not in ('func', 'class')}
        return out

    # ---------------------------------------------------------------- statements
    def bind(self, t, vals, fn, fr):
        if isinstance(t, ast.Name):
            if fn is None:
                self.put((self.frame, t.id), vals)
            elif t.id in fn._locals:
                self.put((fr[fn], t.id), vals)
            else:
                f = self.outer(fn)
                while f is not None and t.id not in f._locals:
                    f = self.outer(f)
                if f is not None and f in fr:
                    self.put((fr[f], t.id), vals)
                else:
                    self.put((('g', self.modof), t.id), vals)
                    self.bad(t, 'the module value %s is changed' % t.id, fn)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, self.elems(vals) if not isinstance(x, ast.Starred) else vals, fn, fr)
        elif isinstance(t, ast.Attribute):
            self.store(self.ev(t.value, fn, fr), t.attr, vals, t, fn)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fn, fr)
            self.ev(t.slice, fn, fr)
            self.store(b, '[]', vals, t, fn)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, vals, fn, fr)

    def block(self, body, fn, fr):
        for s in body:
            self.stmt(s, fn, fr)

    def order_free(self, s):
        """a loop whose outcome does not depend on the order: it looks for one element and returns or sets a constant"""
        for x in ast.walk(ast.Module(body=s.body + s.orelse, type_ignores=[])):
            if isinstance(x, ast.Return) and not (x.value is None or isinstance(x.value, ast.Constant)):
                return False
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and not isinstance(x.value, ast.Constant):
                return False
            if isinstance(x, ast.AugAssign) and not isinstance(x.value, ast.Constant):
                return False
            if isinstance(x, ast.Expr) and not isinstance(x.value, ast.Constant):
                return False
        return True

    def stmt(self, s, fn, fr):
        ev = lambda x: self.ev(x, fn, fr)
        if isinstance(s, ast.Assign):
            v = ev(s.value)
            for t in s.targets:
                self.bind(t, v, fn, fr)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, ev(s.value), fn, fr)
        elif isinstance(s, ast.AugAssign):
            v = ev(s.value)
            t = s.target
            cur = self.ev(ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, 'ctx': ast.Load()}), t), fn, fr)
            cur = {o for o in cur if o[0] in ('list', 'dict', 'set', 'intset', 'ext', 'inst')}
            for o in cur:
                self.touch(o, '[]', s, fn)
                self.put((o, '[]'), self.elems(v) | v)
            self.bind(t, cur, fn, fr)
        elif isinstance(s, ast.Expr):
            ev(s.value)
        elif isinstance(s, ast.Return):
            v = ev(s.value)
            self.put((self.frame, '<return>'), v)
        elif isinstance(s, (ast.If, ast.While)):
            ev(s.test)
            self.block(s.body, fn, fr)
            self.block(s.orelse, fn, fr)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = ev(s.iter)
            self.iterate(it, s.iter, fn, self.order_free(s))
            self.bind(s.target, self.elems(it), fn, fr)
            self.block(s.body, fn, fr)
            self.block(s.orelse, fn, fr)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, fn, fr)
            self.block(s.body, fn, fr)
        elif isinstance(s, ast.Try):
            self.block(s.body, fn, fr)
            for h in s.handlers:
                self.block(h.body, fn, fr)
            self.block(s.orelse, fn, fr)
            self.block(s.finalbody, fn, fr)
        elif isinstance(s, ast.Match):
            v = ev(s.subject)
            for c in s.cases:
                for x in ast.walk(c.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        self.bind(ast.copy_location(ast.Name(x.name, ast.Store()), s), v | self.elems(v), fn, fr)
                if c.guard is not None:
                    ev(c.guard)
                self.block(c.body, fn, fr)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.fnclosure(s, fr)
            s._gen = any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(s))
            ds = s.args.defaults + [d for d in s.args.kw_defaults if d is not None]
            ps = s.args.posonlyargs + s.args.args
            names = [a.arg for a in ps[len(ps) - len(s.args.defaults):]] + [a.arg for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None]
            for n, d in zip(names, ds):
                self.defaults.setdefault(id(s), {}).setdefault(n, set()).update(ev(d))
            for d in s.decorator_list:
                ev(d)
            if not hasattr(s, '_owner'):
                self.bind(ast.copy_location(ast.Name(s.name, ast.Store()), s), {self.func(s, None)}, fn, fr)
        elif isinstance(s, ast.ClassDef):
            c = s._cls
            self.bind(ast.copy_location(ast.Name(s.name, ast.Store()), s), {self.clsobj(c)}, fn, fr)
            old = self.frame
            if not c.enum:
                self.frame = self.clsobj(c)
                for b in s.body:
                    self.stmt(b, None, fr) if fn is None else self.stmt(b, fn, fr)
                self.frame = old
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = a.asname or a.name
                if isinstance(s, ast.ImportFrom):
                    if s.module in self.mods:
                        v = set(self.get((('g', s.module), a.name)))
                    elif (s.module or '') + '.' + a.name in self.mods:
                        v = {('module', 0, None, s.module + '.' + a.name)}
                    else:
                        v = set()
                        if (s.module or '').split('.')[0] in BADMOD:
                            self.bad(s, 'depends on %s.%s, not on the field alone' % (s.module, a.name), fn)
                            self.badimports.add((self.modof, n, s.module))
                else:
                    v = {('module', 0, None, a.name)} if a.name in self.mods else set()
                    self.imports[self.modof].add(n)
                if v or fn is not None:
                    self.bind(ast.copy_location(ast.Name(n, ast.Store()), s), v, fn, fr)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Attribute):
                    self.store(ev(t.value), t.attr, set(), t, fn)
                elif isinstance(t, ast.Subscript):
                    self.store(ev(t.value), '[]', set(), t, fn)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    ev(x)
        elif isinstance(s, ast.Nonlocal) or isinstance(s, ast.Global) or isinstance(s, (ast.Pass, ast.Break, ast.Continue)):
            pass
        else:
            raise Gap('statement %s at %s' % (type(s).__name__, self.site(s)))

    # ---------------------------------------------------------------- driver
    def run(self, roots, every=False):
        """roots: [(module, class, [(method, [argument root names])])]"""
        self.defaults = {}
        self.runtime = set()
        self.ctx = None
        self.frame = None
        self.modof = None
        self.imports = {m: set() for m in self.mods}
        self.badimports = set()
        for c in self.classes.values():
            c.definite = set()
        for c in self.classes.values():
            c.definite = self.definite(c)
        self.rounds = 0
        inst = {}
        for m, cn, _ in roots:
            c = self.classes.get((m, cn))
            if c is None:
                raise Gap('class %s not found' % cn)
            inst[cn] = ('inst', 'root', None, c)
            self.kind[inst[cn]] = ('inst', c.node)
        while self.changed:
            self.changed = False
            self.rounds += 1
            if self.rounds > 60:
                raise Gap('no fixpoint of the points-to analysis')
            self.import_time = True
            for m, d in self.mods.items():
                self.modof = m
                self.frame = ('g', m)
                for s in d['tree'].body:
                    self.stmt(s, None, {})
            self.frames(True)
            self.import_time = False
            for m, cn, ms in roots:
                o = inst[cn]
                c = o[3]
                i = self.find(c, '__init__')
                if i is not None:
                    self.call_fn(i, o, [], {}, c.node)
                done = set()
                for name, args in ms:
                    f = self.find(c, name)
                    if f is None:
                        raise Gap('%s.%s not found' % (cn, name))
                    done.add(name)
                    vals = []
                    for a in args:
                        if a == 'Tokens':
                            g = self.find(inst['Tokenize'][3], 'get_tokens')
                            vals.append({inst['Tokens']} | (self.call_fn(g, inst['Tokenize'], [], {}, c.node) if g is not None else set()))
                        else:
                            vals.append({inst[a]})
                    self.call_fn(f, o, vals, {}, c.node)
                for d in self.mro(c):
                    for name, f in d.methods.items():
                        if name not in done and not name.startswith('__'):
                            if self.has_deco(f, 'staticmethod'):
                                self.call_fn(f, None, [], {}, f)
                            elif self.has_deco(f, 'classmethod'):
                                self.call_fn(f, self.clsobj(c), [], {}, f)
                            else:
                                self.call_fn(f, o, [], {}, f)
            if every:       # every operation of every object the library makes
                for o in list(self.kind):
                    if o[0] == 'inst' and o[3] is not None:
                        for d in self.mro(o[3]):
                            for name, f in d.methods.items():
                                if not name.startswith('__') and not f.decorator_list:
                                    self.call_fn(f, o, [], {}, f)
            self.frames(False)
        if not every:
            self.judge(inst)
        return self

    def frames(self, imp):
        for frame, (m, recv) in list(self.reached.items()):
            if (frame[2] == 'import') != imp:
                continue
            if not imp and frame not in self.runtime:
                continue
            self.ctx = frame[2]
            self.modof = m._mod
            self.frame = frame
            fr = dict(getattr(m, '_fr', None) or {})
            fr[m] = frame
            for n, v in self.defaults.get(id(m), {}).items():
                self.put((frame, n), v)
            if isinstance(m, ast.Lambda):
                self.put((frame, '<return>'), self.ev(m.body, m, fr))
            else:
                self.block(m.body, m, fr)
                for x in ast.walk(m):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        for mod, n, src in self.badimports:
                            if mod == m._mod and n == x.id and n not in m._locals:
                                self.bad(x, 'depends on %s.%s, not on the field alone' % (src, n), m)
            self.ctx = None

    def shared(self):
        out = set()
        todo = []
        for (k, a), v in self.pt.items():
            if k[0] == 'g' or k[0] == 'class':
                todo += [(o, '%s.%s' % (k[1] if k[0] == 'g' else k[3].name, a)) for o in v]
        for f, d in self.defaults.items():
            for n, v in d.items():
                todo += [(o, 'the default of argument ' + n) for o in v]
        todo += [(o, 'a cached result') for o in self.cached_objs]
        name = {}
        fields = {}
        for (k, a), v in self.pt.items():
            fields.setdefault(k, []).append(v)
        while todo:
            o, why = todo.pop()
            if o in name or o[0] in ('func',):
                continue
            name[o] = why
            if o[0] in ('class', 'module'):
                continue
            for v in fields.get(o, ()):
                todo += [(x, why) for x in v]
        return name

    def judge(self, inst):
        sh = self.shared()
        for (o, attr), who in sorted(self.writes.items(), key=str):
            for fn, site in sorted(who, key=str):
                if o[0] == 'class':
                    self.viol[(site, 'the class value %s.%s is changed' % (o[3].name, attr))] = 'in ' + self.name(fn)
                elif o[0] == 'module':
                    self.viol[(site, 'the module value %s.%s is changed' % (o[3], attr))] = 'in ' + self.name(fn)
                elif o in sh:
                    self.viol[(site, 'a shared value is changed: ' + sh[o])] = 'in ' + self.name(fn)
        # caches keyed by objects whose contents change
        changing = {o for (o, a), who in self.writes.items() if any(getattr(fn, 'name', '') != '__init__' for fn, _ in who)}
        for frame, (m, recv) in self.reached.items():
            if frame in self.runtime and self.has_deco(m, 'lru_cache', 'cache'):
                for p in m._params:
                    if any(o in changing for o in self.get((frame, p))):
                        self.viol[(self.site(m), 'a cache keyed by an object whose contents change')] = 'in ' + self.name(m)
        # state the working objects carry from one call to the next
        for cn, entry in (('ParseF15', 'parse_f15'), ('Tokenize', 'tokenize')):
            o = inst[cn]
            c = o[3]
            f = self.find(c, entry)
            reach = self.reach_from(f, o)
            carried = {}
            own = {}
            for (k, a), v in self.pt.items():
                if k == o:
                    todo = list(v)
                    while todo:
                        x = todo.pop()
                        if x in own or x == o or x[0] in ('class', 'func', 'module'):
                            continue
                        own[x] = a
                        for (k2, a2), v2 in self.pt.items():
                            if k2 == x:
                                todo += list(v2)
            for (x, a), who in self.writes.items():
                for fn, site in who:
                    if fn not in reach or getattr(fn, 'name', '') == '__init__':
                        continue
                    if x == o:
                        carried.setdefault(a, (site, fn))
                    elif x in own:
                        carried.setdefault(own[x], (site, fn))
            fresh = self.assigned_first(f, set(carried), c)
            for a, (site, fn) in sorted(carried.items(), key=str):
                if a not in fresh:
                    self.viol[(site, '%s.%s keeps its contents from one call of %s to the next' % (cn, a, entry))] = 'in ' + self.name(fn)

    def unresolved(self):
        """attribute uses none of whose possible receivers has the attribute"""
        stored, dyn = set(), set()
        for d in self.mods.values():
            for x in ast.walk(d['tree']):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    stored.add(x.attr)
                elif isinstance(x, ast.Name) and x.id in ('setattr', 'getattr', 'hasattr', 'isinstance', 'type', '__dict__', 'vars'):
                    y = x
                    while y is not None and not isinstance(y, ast.FunctionDef):
                        y = getattr(y, '_up', None)
                    dyn.add(y)
                    if x.id == 'setattr':
                        return []
                elif isinstance(x, ast.Attribute) and x.attr == '__dict__':
                    return []
        plain = {}
        for c in self.classes.values():
            ok = True
            names = set()
            for d in self.mro(c):
                if d.enum or d.node.decorator_list or d.node.keywords or '__getattr__' in d.methods or '__getattribute__' in d.methods:
                    ok = False
                if any(b != 'object' and not any(k.name == b for k in self.classes.values()) for b in d.bases):
                    ok = False
                for x in ast.walk(d.node):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        names.add(x.name)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        names |= {(a.asname or a.name).split('.')[0] for a in x.names}
            plain[c] = names | set(dir(object)) | {'__dict__', '__weakref__'} if ok else None
        out = []
        n = 0
        for e, (fn, objs) in self.loads.items():
            if not objs:
                continue
            n += 1
            if fn in dyn or e.attr in stored:
                continue
            f, guarded = e, False
            while f is not None:
                guarded |= isinstance(f, ast.Try)
                f = getattr(f, '_up', None)
            if guarded:
                continue
            if all(o[0] == 'inst' and o[3] is not None and plain.get(o[3]) is not None and e.attr not in plain[o[3]] for o in objs):
                out.append((self.site(e), e.attr, sorted({o[3].name for o in objs}), self.name(fn)))
        self.checked_loads = n
        return out

    def reach_from(self, f, o):
        out, todo = set(), [f]
        names = {}
        for frame, (m, recv) in self.reached.items():
            if frame in self.runtime:
                names.setdefault(getattr(m, 'name', '<lambda>'), set()).add(m)
        while todo:
            m = todo.pop()
            if m in out or m is None:
                continue
            out.add(m)
            for x in ast.walk(m):
                n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                if n in names:
                    todo += list(names[n])
                if isinstance(x, ast.Lambda):
                    todo.append(x)
                if isinstance(x, ast.Call) and n is None and isinstance(x.func, ast.Name) and x.func.id == 'getattr':
                    todo += [m2 for s in names.values() for m2 in s]
        return out

    def assigned_first(self, f, attrs, c):
        """attributes assigned by f itself before anything can look at them"""
        me = f._params[0]
        done = set()

        def uses(node):
            out = set()
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                    m = self.find(c, x.attr)
                    if m is None:
                        out.add(x.attr)
                    elif not self.has_deco(m, 'staticmethod'):
                        for y in self.reach_from(m, None):
                            for z in ast.walk(y):
                                if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Load):
                                    out.add(z.attr)
                elif isinstance(x, ast.Name) and x.id == me and not isinstance(getattr(x, '_up', None), ast.Attribute):
                    out |= attrs
            return out
        used = set()
        for s in f.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                used |= uses(s.value) - done
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(u, ast.Attribute) and isinstance(u.value, ast.Name) and u.value.id == me and u.attr not in used:
                            done.add(u.attr)
                        else:
                            used |= uses(u) - done
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == me and self.find(c, s.value.func.attr) is not None and \
                    not self.has_deco(self.find(c, s.value.func.attr), 'staticmethod'):
                m = self.find(c, s.value.func.attr)
                sub = self.definite_in(c, m, set())
                inner = self.assigned_first(m, attrs, c) if m is not f else set()
                used |= uses(s) - done - inner
                done |= (sub & inner) - used
            else:
                used |= uses(s) - done
        return done - used
