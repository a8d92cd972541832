"""Abstract interpreter for the Python subset used by the analysed repository.

The interpreter is path-sensitive: a fork is a call of choose(); all alternatives are explored by re-running
the enclosing unit (function summary or loop iteration) from its abstract entry state.  Recursive functions
and loops of unknown length are summarised: their canonical abstract entry state is a unit, its exits are
computed to a fixpoint.  Nothing of the analysed program is ever executed.
"""
import ast
import os
import resource
import builtins as _bi
import dfa
from terms import *
from state import State, Obj, PathEnd, tm, leaf_atoms, segs_len, NUMTEXT, INTTEXT, CHAR1


class PyRaise(Exception):
    def __init__(self, cls, msg, site):
        self.cls, self.msg, self.site = cls, msg, site


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class StopIter(Exception):
    pass


class Blocked(Exception):
    pass


# ------------------------------------------------------------------ program representation
class FnInfo:
    def __init__(self, fid, name, node, module, cls, kind, closure):
        self.id, self.name, self.node, self.module, self.cls, self.kind = fid, name, node, module, cls, kind
        self.defaults = []
        self.kwdefaults = {}
        self.closure = closure
        self.live = None
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)

    @property
    def qual(self):
        return (self.cls.split('.')[-1] + '.' if self.cls else '') + self.name


def _has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, q, name, bases, module):
        self.q, self.name, self.bases, self.module = q, name, bases, module
        self.attrs = {}
        self.enum = False
        self.exc = False
        self.ann = {}


def loads(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
    return out


class Live:
    """backward liveness of local names at statement granularity"""

    def __init__(self, body, allnames):
        self.out = {}
        self.head = {}
        self.all = frozenset(allnames)
        self.loops = []
        self.block(body, frozenset())

    def block(self, stmts, out):
        for s in reversed(stmts):
            out = self.stmt(s, out)
        return out

    def stmt(self, s, out):
        self.out[id(s)] = out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            kill = set()
            use = set()
            for t in tg:
                if isinstance(t, ast.Name):
                    kill.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
                    kill |= {e.id for e in t.elts}
                else:
                    use |= loads(t)
            if s.value is not None:
                use |= loads(s.value)
            else:
                kill = set()
            return (out - kill) | use
        if isinstance(s, ast.If):
            return loads(s.test) | self.block(s.body, out) | self.block(s.orelse, out)
        if isinstance(s, (ast.While, ast.For)):
            base = loads(s.test) if isinstance(s, ast.While) else set()
            after = self.block(s.orelse, out) | out
            head = base | after
            while True:
                self.loops.append((head, out))
                b = self.block(s.body, frozenset(head))
                self.loops.pop()
                if isinstance(s, ast.For):
                    b = b - loads(s.target)
                new = head | b
                if new == head:
                    break
                head = new
            self.head[id(s)] = frozenset(head)
            return frozenset(head | (loads(s.iter) if isinstance(s, ast.For) else set()))
        if isinstance(s, ast.Match):
            r = set(loads(s.subject)) | out
            for c in s.cases:
                r |= self.block(c.body, out)
                if c.guard is not None:
                    r |= loads(c.guard)
                r |= loads(c.pattern)
            return frozenset(r)
        if isinstance(s, ast.Return):
            return frozenset(loads(s.value)) if s.value is not None else frozenset()
        if isinstance(s, ast.Raise):
            return frozenset(loads(s)) | self.all_if_try(out)
        if isinstance(s, ast.Break):
            return frozenset(self.loops[-1][1]) if self.loops else out
        if isinstance(s, ast.Continue):
            return frozenset(self.loops[-1][0]) if self.loops else out
        if isinstance(s, (ast.Try, ast.With)):
            for sub in ast.walk(s):
                if isinstance(sub, ast.stmt):
                    self.out[id(sub)] = self.all
                    self.head[id(sub)] = self.all
            return self.all
        return frozenset(out | loads(s))

    def all_if_try(self, out):
        return frozenset()


class Frame:
    __slots__ = ('fn', 'loc', 'cur', 'parent', 'module')

    def __init__(self, fn, loc, parent, module):
        self.fn, self.loc, self.parent, self.module = fn, loc, parent, module
        self.cur = None


class Unit:
    """a summarised function or loop together with one canonical abstract entry state"""
    count = 0

    def __init__(self, eng, key, kind, node, fn, entry, env, pins, caller):
        Unit.count += 1
        self.id = Unit.count
        self.key, self.kind, self.node, self.fn = key, kind, node, fn
        self.entry, self.env, self.pins = entry, env, pins
        self.exits = []
        self.exit_index = {}
        self.subs = []
        self.caller = caller
        self.strcur = None
        self.n0 = max(list(entry.names) + list(entry.heap) + [0]) + 1
        self.edges = []

    @property
    def name(self):
        if self.kind == 'fn':
            return self.fn.qual
        return '%s:loop@%d' % (self.fn.qual if self.fn else '<driver>', self.node.lineno)


class Engine:
    def __init__(self, root, cfg=None):
        self.root = root
        self.static = State()
        self.static.next = 0
        self.modules = {}
        self.fns = {}
        self.classes = {}
        self.events = {}       # (kind, detail, site) -> trace
        self.cfg = cfg
        self.summarised = None
        self.units = {}
        self.pathgaps = {}
        self.queue = []
        self.paths = 0
        self.maxpaths = 400000
        self.files = set()
        self.enum_cache = {}
        self.analysed_fns = set()
        self.gaps = {}
        self.mapmemo = {}
        self.has_try = False

    # ------------------------------------------------ modules
    def find(self, mod):
        p = os.path.join(self.root, *mod.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.isdir(p) and any(f.endswith('.py') for f in os.listdir(p)):
            return p
        return None

    def load(self, mod):
        if mod in self.modules:
            return self.modules[mod]
        path = self.find(mod)
        if path is None:
            return None
        g = {'__name__': C(mod)}
        self.modules[mod] = g
        if path.endswith('.py'):
            src = open(path, encoding='utf-8').read()
            self.load_source(mod, src, path, g)
        return g

    def load_source(self, mod, src, path, g=None):
        if g is None:
            g = {'__name__': C(mod)}
            self.modules[mod] = g
        self.files.add(path)
        tree = ast.parse(src, path)
        for n in ast.walk(tree):
            n._file = path
            if isinstance(n, ast.Try):
                self.has_try = True
        it = Interp(self, self.static, None, (), static=True)
        fr = Frame(None, g, None, mod)
        it.frames.append(fr)
        it.block(tree.body)
        return g

    def event(self, kind, detail, site, trace=None):
        k = (kind, detail, site)
        if k not in self.events:
            self.events[k] = trace
            return True
        return False

    # ------------------------------------------------ call graph (names) -> which functions need summaries
    def build_callgraph(self):
        byname = {}
        for f in self.fns.values():
            byname.setdefault(f.name, set()).add(f.id)
            if f.name == '__init__':
                byname.setdefault(f.cls.split('.')[-1], set()).add(f.id)
        edges = {}
        for f in self.fns.values():
            tgt = set()
            body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
            for b in body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Attribute):
                        tgt |= {x for x in byname.get(n.attr, ()) if self.may_call(f, n, self.fns[x])}
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                        tgt |= {x for x in byname.get(n.id, ()) if self.fns[x].cls is None or
                                self.fns[x].name == '__init__'}
            edges[f.id] = tgt
        self.cg = edges
        self.sccs = scc(edges)
        self.summarised = set()
        self.scc_of = {}
        for c in self.sccs:
            for x in c:
                self.scc_of[x] = c
            if len(c) > 1 or next(iter(c)) in edges[next(iter(c))]:
                self.summarised |= set(c)
        return edges

    def may_call(self, f, n, g):
        """can attribute access n inside function f reach function g?"""
        if not isinstance(n.ctx, ast.Load) and g.kind != 'prop':
            return False
        own = isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls')
        if f.cls is None or g.cls is None:
            return True
        if own:
            return related(self.classes, f.cls, g.cls)
        if g.id == f.id:
            # the same method of another instance: bounded by the inline depth limit
            return isinstance(n.value, ast.Name) and n.value.id == f.cls.split('.')[-1] or \
                isinstance(n.value, ast.Call)
        return True

    # ------------------------------------------------ running
    def site(self, node):
        if node is None or not hasattr(node, 'lineno'):
            return '?'
        f = getattr(node, '_file', '?')
        return '%s:%d' % (os.path.relpath(f, self.root) if f.startswith(self.root) else os.path.basename(f),
                          node.lineno)

    def schedule(self, unit, prefix):
        self.queue.append((unit, prefix))

    def run(self, deadline=None):
        import time
        while self.queue:
            unit, prefix = self.queue.pop()
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Gap('path budget exhausted (%d paths, %d units)' % (self.paths, len(self.units)))
            if self.cfg is not None and self.cfg.stop():
                return
            if deadline and self.paths % 200 == 0 and resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 14 << 20:
                raise Gap('memory budget exhausted (14 GB)')
            if deadline and self.paths % 50 == 0 and time.time() > deadline:
                raise Gap('time budget exhausted (%d paths, %d units)' % (self.paths, len(self.units)))
            st = unit.entry.clone()
            it = Interp(self, st, unit, prefix)
            try:
                it.run_unit()
            except (Blocked, PathEnd):
                pass
            except (Gap, dfa.Unsupported) as g:
                # this path is not decided; the others are still looked at
                try:
                    where = it.here()
                except Exception:
                    where = '?'
                self.pathgaps.setdefault(str(g), where)
        if self.pathgaps:
            raise Gap('; '.join('%s at %s' % x for x in sorted(self.pathgaps.items())[:4]))

    def add_exit(self, unit, key, ex):
        if key in unit.exit_index:
            return
        unit.exit_index[key] = len(unit.exits)
        unit.exits.append(ex)
        j = len(unit.exits) - 1
        for u, pre in unit.subs:
            self.schedule(u, pre + (j,))


def related(classes, a, b):
    def up(x, seen):
        if x in seen:
            return
        seen.add(x)
        c = classes.get(x)
        for y in ([b[1] for b in c.bases if b[0] == 'cls'] if c is not None else ()):
            up(y, seen)
    s, t = set(), set()
    up(a, s)
    up(b, t)
    return a in t or b in s


def scc(edges):
    sys_index = {}
    low = {}
    stack = []
    on = set()
    out = []
    cnt = [0]

    def visit(v0):
        work = [(v0, iter(sorted(edges.get(v0, ()))))]
        sys_index[v0] = low[v0] = cnt[0]
        cnt[0] += 1
        stack.append(v0)
        on.add(v0)
        while work:
            v, itr = work[-1]
            adv = False
            for w in itr:
                if w not in sys_index:
                    sys_index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(edges.get(w, ())))))
                    adv = True
                    break
                if w in on:
                    low[v] = min(low[v], sys_index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == sys_index[v]:
                c = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(frozenset(c))
    for v in sorted(edges):
        if v not in sys_index:
            visit(v)
    return out


class Interp:
    def __init__(self, eng, st, unit, prefix, static=False):
        self.eng, self.st, self.unit = eng, st, unit
        self.prefix = prefix
        self.pos = 0
        self.frames = []
        self.temps = []
        self.static = static
        self.depth = 0
        self.labels = []
        self.sub = None          # inline exploration worklist
        self.steps = 0
        self.handlers = 0

    # ------------------------------------------------ forking
    def choose(self, n, why=''):
        if n == 1:
            return 0
        if self.static:
            raise Gap('choice at import time: ' + why)
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = 0
            for i in range(n - 1, 0, -1):
                if self.sub is not None:
                    self.sub.append(self.prefix + (i,))
                else:
                    self.eng.schedule(self.unit, self.prefix + (i,))
            self.prefix = self.prefix + (0,)
        self.pos += 1
        return k

    def choose_exit(self, unit2):
        if self.sub is not None:
            raise Gap('summarised call inside an element-wise loop body')
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            unit2.subs.append((self.unit, self.prefix))
            for i in range(len(unit2.exits) - 1, 0, -1):
                self.eng.schedule(self.unit, self.prefix + (i,))
            if not unit2.exits:
                raise Blocked()
            k = 0
            self.prefix = self.prefix + (0,)
        self.pos += 1
        return unit2.exits[k]

    # ------------------------------------------------ heap
    def obj(self, ref):
        a = ref[1]
        o = self.st.heap.get(a)
        if o is None:
            o = self.eng.static.heap.get(a)
            if o is None:
                raise Gap('dangling reference')
        return o

    def wobj(self, ref, what=''):
        """object for writing"""
        a = ref[1]
        o = self.st.heap.get(a)
        if o is None:
            o = self.eng.static.heap[a]
            if self.static:
                return o
            self.eng.event('static-write', '%s of import-time object %s' % (what, o.label or o.cls), self.here())
            o = o.copy()
            self.st.heap[a] = o
        elif o.label == 'readonly':
            raise Gap('write to an element of a summarised list')
        return o

    def alloc(self, o):
        if self.static:
            self.st.next += 1
            a = -self.st.next
            self.st.heap[a] = o
            return ('ref', a)
        return self.st.alloc(o)

    def new_list(self, items):
        return self.alloc(Obj('list', {'segs': tuple([('e', v) for v in items])}))

    def here(self):
        for f in reversed(self.frames):
            if f.cur is not None:
                return self.eng.site(f.cur)
        return '?'

    def trace(self):
        out = []
        u = self.unit
        for f in reversed(self.frames):
            out.append('%s at %s' % (f.fn.qual if f.fn else '<driver>', self.eng.site(f.cur)))
        n = 0
        seen = set()
        while u is not None and u.caller is not None and n < 12 and u.id not in seen:
            seen.add(u.id)
            cu, site = u.caller
            out.append('%s called at %s' % (u.name, site))
            u = cu
            n += 1
        return out

    def throw(self, cls, msg=''):
        raise PyRaise(cls, msg, self.here())

    # ------------------------------------------------ decisions
    def decide_alts(self, sym, pred_split, why=''):
        """pred_split(alt) -> (alt_true or None, alt_false or None)"""
        info = self.st.names[sym]
        t, f = [], []
        for alt in info[1]:
            a, b = pred_split(alt)
            if a is not None and not a[0].is_empty():
                t.append(a)
            if b is not None and not b[0].is_empty():
                f.append(b)
        if not t and not f:
            raise PathEnd()
        if not f:
            return True
        if not t:
            return False
        k = self.choose(2, why)
        self.st.names[sym] = ('sym', tuple(t if k == 0 else f))
        return k == 0

    def decide_cond(self, key):
        if key in self.st.conds:
            return self.st.conds[key]
        r = self.choose(2, 'cond') == 0
        self.st.conds[key] = r
        return r

    def bounds_of_part(self, part):
        """constant (lo, hi) of a slice part (hi None = to the end); may fork on the length"""
        st = self.st
        sym = part[1]
        for _ in range(3):
            lo, hi = st.norm(part[2]), st.norm(part[3])
            clo, chi = pcval(lo), pcval(hi)
            if clo is not None and (chi is not None or hi == patom(('len', sym))):
                return clo, chi
            lens, unb = st.symlens(sym)
            if unb or len(lens) > 26:
                return None
            self.fork_length(sym)
        return None

    def fork_length(self, sym):
        st = self.st
        lens, unb = st.symlens(sym)
        ls = sorted(lens)
        k = self.choose(len(ls), 'length')
        n = ls[k]
        L = dfa.length_where(lambda m: m == n, max(ls) + 1)
        st.names[sym] = ('sym', tuple([(dfa.inter(d, L), tg) for d, tg in st.alts(sym)
                                       if not dfa.inter(d, L).is_empty()]))

    def partlang(self, part):
        st = self.st
        if part[0] == 'lit':
            return dfa.lit(part[1])
        if part[0] == 'sl':
            if part in st.pfacts:
                return st.pfacts[part]
            sym = part[1]
            lo, hi = st.norm(part[2]), st.norm(part[3])
            q = ('sl', sym, lo, hi)
            if q in st.pfacts:
                return st.pfacts[q]
            clo, chi = pcval(lo), pcval(hi)
            if clo is not None and chi is not None:
                return st.slicelang(sym, clo, chi)
            if clo is not None and hi == patom(('len', sym)):
                return st.slicelang(sym, clo, None)
            d = pcval(psub(hi, lo))
            if d is not None and d >= 0:
                return dfa.length_where(lambda n: n == d, d + 1)
            if st.prove_ge0(paddc(psub(hi, lo), -1)):
                return dfa.NONEMPTY
            return dfa.ALL
        if part[0] == 'fnp':
            return part[3]
        if part[0] == 'map':
            return dfa.ALL
        return dfa.ALL

    def strlang(self, v):
        if v[0] == 'any':
            return dfa.ALL
        d = dfa.EPS
        for p in parts_of(v):
            d = dfa.concat(d, self.partlang(p))
        return d

    def decide_lang(self, v, L, key=None):
        """does the string value belong to L?  Refines the symbol when possible."""
        st = self.st
        if v[0] == 'any':
            return self.choose(2, 'any string') == 0
        if const(v):
            return L.accepts(v[2])
        parts = parts_of(v)
        cur = self.strlang(v)
        if dfa.subset(cur, L):
            return True
        if dfa.inter(cur, L).is_empty():
            return False
        syms = [i for i, p in enumerate(parts) if p[0] != 'lit']
        if len(syms) == 1 and parts[syms[0]][0] == 'sl':
            i = syms[0]
            part = parts[i]
            b = self.bounds_of_part(part)
            # strip literal prefix / suffix from L by left/right quotient through slice languages
            pre = ''.join(p[1] for p in parts[:i])
            post = ''.join(p[1] for p in parts[i + 1:])
            M = quotient(L, pre, post)
            if b is not None:
                lo, hi = b
                W = dfa.slice_in(lo, hi, M)

                def sp(alt):
                    return (dfa.inter(alt[0], W), alt[1]), (dfa.minus(alt[0], W), alt[1])
                return self.decide_alts(part[1], sp, 'language')
            curp = self.partlang(part)
            t, f = dfa.inter(curp, M), dfa.minus(curp, M)
            if f.is_empty():
                return True
            if t.is_empty():
                return False
            np = ('sl', part[1], st.norm(part[2]), st.norm(part[3]))
            k = self.choose(2, 'slice language')
            st.pfacts[np] = t if k == 0 else f
            return k == 0
        return self.decide_cond(('lang', v, L.id))

    def decide_ge0(self, p):
        """p >= 0 for an integer-valued polynomial"""
        st = self.st
        p = st.norm(p)
        c = pcval(p)
        if c is not None:
            return c >= 0
        if st.prove_ge0(p):
            return True
        isint = pint(p)
        if isint:
            if st.prove_ge0(paddc(pneg(p), -1)):
                return False
        else:
            lo, hi = st.bounds(p)
            if hi is not None and hi < 0:
                return False
        r = self.decide_enum(('ge0', p), p, lambda x: x >= 0)
        if r is not None:
            return r
        # single-name integer bound
        if isint:
            ats = patoms(p)
            if len(ats) == 1 and ats[0][0] == 'len' and len(p) <= 2 and dict(p).get((ats[0],)) in (1, -1) and \
                    abs(dict(p).get((), 0)) <= 300:
                rest = dict(p).get((), 0)
                if dict(p)[(ats[0],)] == 1:
                    return self.len_ge(ats[0][1], -rest)
                return not self.len_ge(ats[0][1], rest + 1)
            if len(ats) == 1 and ats[0][0] == 'iv' and len(p) <= 2:
                coef = dict(p).get((ats[0],))
                if coef in (1, -1):
                    rest = dict(p).get((), 0)
                    k = self.choose(2, 'bound')
                    n = ats[0][1]
                    _, lo, hi = st.names[n]
                    if coef == 1:       # n >= -rest
                        if k == 0:
                            lo = -rest if lo is None else max(lo, -rest)
                        else:
                            hi = -rest - 1 if hi is None else min(hi, -rest - 1)
                    else:               # n <= rest
                        if k == 0:
                            hi = rest if hi is None else min(hi, rest)
                        else:
                            lo = rest + 1 if lo is None else max(lo, rest + 1)
                    if lo is not None and hi is not None and lo > hi:
                        raise PathEnd()
                    st.names[n] = ('iv', lo, hi)
                    return k == 0
            k = self.choose(2, 'linear fact')
            if not self.assume_ge0(p if k == 0 else paddc(pneg(p), -1)):
                raise PathEnd()
            return k == 0
        return self.fv_refine(p, self.decide_cond(('ge0', p)))

    def fv_refine(self, p, r):
        """after p >= 0 was decided as r: a real-valued name keeps the bound the branch implies"""
        st = self.st
        ats = patoms(p)
        if len(ats) == 1 and ats[0][0] == 'fv' and len(p) <= 2 and dict(p).get((ats[0],)):
            coef, n = dict(p)[(ats[0],)], ats[0][1]
            i = st.names.get(n)
            if i is not None and i[0] == 'fv':
                b = -dict(p).get((), 0) / coef
                lo, hi = i[1], i[2]
                if (coef > 0) == r:
                    lo = b if lo is None else max(lo, b)
                else:
                    hi = b if hi is None else min(hi, b)
                if lo is not None and hi is not None and lo > hi:
                    raise PathEnd()
                st.names[n] = ('fv', lo, hi)
        return r

    def assume_ge0(self, p):
        """add p >= 0 to the state; False when it contradicts what is known"""
        st = self.st
        p = st.norm(p)
        c = pcval(p)
        if c is not None:
            return c >= 0
        if st.prove_ge0(p):
            return True
        if pint(p) and st.prove_ge0(paddc(pneg(p), -1)):
            return False
        ats = patoms(p)
        if len(ats) == 1 and ats[0][0] == 'iv' and len(p) <= 2 and dict(p).get((ats[0],)) in (1, -1):
            coef, rest = dict(p)[(ats[0],)], dict(p).get((), 0)
            n = ats[0][1]
            _, lo, hi = st.names[n]
            if coef == 1:
                lo = -rest if lo is None else max(lo, -rest)
            else:
                hi = rest if hi is None else min(hi, rest)
            if lo is not None and hi is not None and lo > hi:
                return False
            st.names[n] = ('iv', lo, hi)
            return True
        if pint(p) and st.prove_ge0(pneg(p)) and \
                any(a[0] == 'iv' and dict(p).get((a,)) in (1, -1) and sum(a in m for m, _ in p) == 1 for a in ats):
            return self.assume_eq0(p)
        st.facts.add(p)
        return True

    def assume_eq0(self, p):
        st = self.st
        p = st.norm(p)
        c = pcval(p)
        if c is not None:
            return c == 0
        lo, hi = st.bounds(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if pint(p):
            if st.prove_ge0(paddc(p, -1)) or st.prove_ge0(paddc(pneg(p), -1)):
                return False
            for a in sorted(patoms(p), key=akey):
                if a[0] == 'iv' and dict(p).get((a,)) in (1, -1):
                    coef = dict(p)[(a,)]
                    rest = psub(p, patom(a, coef))
                    if a in patoms(rest):
                        continue
                    val = rest if coef == -1 else pneg(rest)
                    _, l, h = st.names[a[1]]
                    st.names[a[1]] = ('def', val)
                    if st.pfacts:
                        st.repf()
                    if l is not None and not self.assume_ge0(paddc(val, -l)):
                        return False
                    if h is not None and not self.assume_ge0(paddc(pneg(val), h)):
                        return False
                    return True
        return self.assume_ge0(p) and self.assume_ge0(pneg(p))

    def decide_gt0(self, p):
        p = self.st.norm(p)
        if pint(p):
            return self.decide_ge0(paddc(p, -1))
        c = pcval(p)
        if c is not None:
            return c > 0
        lo, hi = self.st.bounds(p)
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi <= 0:
            return False
        r = self.decide_enum(('gt0', p), p, lambda x: x > 0)
        if r is not None:
            return r
        q = pneg(p)
        return not self.fv_refine(q, self.decide_cond(('ge0', q)))

    def decide_eq0(self, p):
        st = self.st
        p = st.norm(p)
        c = pcval(p)
        if c is not None:
            return c == 0
        lo, hi = st.bounds(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if pint(p):
            if st.prove_ge0(paddc(p, -1)) or st.prove_ge0(paddc(pneg(p), -1)):
                return False
            if st.prove_ge0(p) and st.prove_ge0(pneg(p)):
                return True
        r = self.decide_enum(('eq0', p), p, lambda x: x == 0)
        if r is not None:
            return r
        ats = patoms(p)
        if len(ats) == 1 and ats[0][0] == 'len' and len(p) <= 2 and dict(p).get((ats[0],)) in (1, -1) and \
                abs(dict(p).get((), 0)) <= 300:
            v = -dict(p).get((), 0) * dict(p)[(ats[0],)]
            if not self.len_ge(ats[0][1], v):
                return False
            return not self.len_ge(ats[0][1], v + 1)
        q = p if akey(p) < akey(pneg(p)) else pneg(p)
        key = ('eq0', q)
        if key in st.conds:
            return st.conds[key]
        k = self.choose(2, 'equality')
        if k == 0:
            for a in sorted(patoms(p), key=akey):
                if a[0] == 'iv' and dict(p).get((a,)) in (1, -1) and pint(p):
                    coef = dict(p)[(a,)]
                    rest = psub(p, patom(a, coef))
                    if a in patoms(rest):
                        continue
                    val = rest if coef == -1 else pneg(rest)
                    _, l, h = st.names[a[1]]
                    st.names[a[1]] = ('def', val)
                    if st.pfacts:
                        st.repf()
                    vl, vh = st.bounds(val)
                    if l is not None and vh is not None and vh < l or h is not None and vl is not None and vl > h:
                        raise PathEnd()
                    if l is not None and not st.prove_ge0(paddc(val, -l)):
                        st.facts.add(paddc(val, -l))
                    if h is not None and not st.prove_ge0(paddc(pneg(val), h)):
                        st.facts.add(paddc(pneg(val), h))
                    return True
            st.conds[key] = True
            return True
        ats = patoms(p)
        if len(ats) == 1 and ats[0][0] == 'iv' and len(p) <= 2 and pint(p) and dict(p).get((ats[0],)) in (1, -1):
            n = ats[0][1]
            v = -dict(p).get((), 0) * dict(p)[(ats[0],)]
            _, l, h = st.names[n]
            if l == v:
                st.names[n] = ('iv', l + 1, h)
                return False
            if h == v:
                st.names[n] = ('iv', l, h - 1)
                return False
        st.conds[key] = False
        return False

    def decide_enum(self, key, p, pred):
        """predicate over the digits of one slice: decided exactly by enumerating the digit values"""
        st = self.st
        leaves = []
        if not leaf_atoms(p, leaves) or not leaves:
            return None
        a = leaves[0]
        if any(b[0] != 'int' or b[1] != a[1] for b in leaves):
            return None
        pos = sorted({i for b in leaves for i in range(b[2], b[3])})
        if len(pos) > 5 or pos != list(range(pos[0], pos[-1] + 1)):
            return None
        lo, hi = pos[0], pos[-1] + 1
        w = hi - lo
        ren = Ren(lambda n: -7 if n == a[1] else n, lambda x: x)
        ck = (key[0], ren.p(p))
        L = self.eng.enum_cache.get(ck)
        if L is None:
            if w == 5:
                L = None
                d = dict(p)
                if len(leaves) == 1 and len(p) <= 2 and (a,) in d and key[0] in ('ge0', 'eq0'):
                    coef, c = d[(a,)], d.get((), 0)
                    import math
                    if key[0] == 'ge0':
                        if coef < 0:
                            L = dfa.digits_cmp(w, '<=', math.floor(c / -coef))
                        else:
                            L = dfa.minus(dfa.regex('[0-9]{%d}' % w), dfa.digits_cmp(w, '<=', math.ceil(-c / coef) - 1))
                    elif (-c) % coef == 0:
                        L = dfa.digits_cmp(w, '==', int(-c // coef))
                    else:
                        L = dfa.EMPTY
                if L is None:
                    return None
            else:
                words = []
                for v in range(10 ** w):
                    s = '%0*d' % (w, v)
                    env = {b: int(s[b[2] - lo:b[3] - lo]) for b in leaves}
                    if pred(st.eval_poly(p, env)):
                        words.append(s)
                L = dfa.finite(words)
            self.eng.enum_cache[ck] = L
        W = dfa.slice_in(lo, hi, L)

        def sp(alt):
            return (dfa.inter(alt[0], W), alt[1]), (dfa.minus(alt[0], W), alt[1])
        return self.decide_alts(a[1], sp, 'digits')

    # ------------------------------------------------ truth / comparison
    def truth(self, v):
        t = v[0]
        if t == 'c':
            return bool(v[2])
        if t == 'ref':
            o = self.obj(v)
            if o.cls == 'list':
                return not self.decide_eq0(segs_len(o.f['segs']))
            if o.cls in ('dict', 'set'):
                return len(o.f['items']) > 0
            if o.cls == 'iter' or o.cls == 'ext':
                return True
            m = self.class_lookup(o.cls, '__bool__')
            if m is not None:
                return self.truth(self.call(('bm', v, m[1]), [], {}))
            m = self.class_lookup(o.cls, '__len__')
            if m is not None:
                return self.truth(self.call(('bm', v, m[1]), [], {}))
            return True
        if t == 'num':
            return not self.decide_eq0(v[1])
        if t == 'str':
            for p in v[1]:
                if p[0] == 'lit':
                    return True
            return self.decide_lang(v, dfa.NONEMPTY)
        if t == 'tup':
            return len(v[1]) > 0
        if t == 'enum':
            return bool(v[3])
        if t == 'proj':
            return self.decide_proj(v, lambda x: self.truth(x))
        if t == 'any':
            if v[2]:
                return self.decide_cond(('truth', v))
            return self.choose(2, 'truth of unknown') == 0
        return True

    def projval(self, alt, field):
        for f, x in alt[1]:
            if f == field:
                return x
        raise Gap('projection of unknown field %s' % field)

    def decide_proj(self, v, pred):
        def sp(alt):
            x = self.projval(alt, v[2])
            return (alt, None) if pred(x) else (None, alt)
        return self.decide_alts(v[1], sp, 'variant')

    def split_proj(self, v):
        """fork so that the projection has a single value; return it"""
        vals = []
        for alt in self.st.alts(v[1]):
            x = self.projval(alt, v[2])
            if x not in vals:
                vals.append(x)
        if len(vals) == 1:
            return vals[0]
        k = self.choose(len(vals), 'variant value')
        self.st.names[v[1]] = ('sym', tuple([a for a in self.st.alts(v[1]) if self.projval(a, v[2]) == vals[k]]))
        return vals[k]

    def simp_proj(self, v):
        if v[0] == 'proj':
            vals = {self.projval(a, v[2]) for a in self.st.alts(v[1])}
            if len(vals) == 1:
                return next(iter(vals))
        return v

    def eq(self, a, b):
        if a == b and a[0] != 'any':
            return True
        if a[0] == 'any' or b[0] == 'any':
            x, y = (a, b) if a[0] == 'any' else (b, a)
            if a == b and a[2]:
                return True
            if y == NONE and x[1] != 'obj':
                return False
            if x[2] and (y[0] != 'any' or y[2]):
                return self.decide_cond(('eq', x, y))
            return self.choose(2, 'unknown equality') == 0
        if a[0] == 'proj' and b[0] == 'proj':
            if a[1] == b[1] and a[2] == b[2]:
                return True
            return self.eq(self.split_proj(a), self.split_proj(b))
        if a[0] == 'proj':
            return self.decide_proj(a, lambda x: self.eq(x, b) if b[0] in ('c', 'enum', 'num', 'str') else False)
        if b[0] == 'proj':
            return self.eq(b, a)
        pa, pb = poly_of(a), poly_of(b)
        if pa is not None and pb is not None:
            if const(a) and const(b):
                return a[2] == b[2]
            return self.decide_eq0(psub(pa, pb))
        if is_str(a) and is_str(b):
            if const(a) and const(b):
                return a[2] == b[2]
            if const(a):
                a, b = b, a
            if const(b):
                if a[0] == 'str' and len(a[1]) > 1:
                    if any(q[0] == 'lit' and q[1] not in b[2] for q in a[1]):
                        return False
                    n = poly_of(self.length(a))
                    if n is not None and self.st.prove_ge0(paddc(n, -len(b[2]) - 1)):
                        return False
                return self.decide_lang(a, dfa.lit(b[2]))
            a2, b2 = self.normstr(a), self.normstr(b)
            if a2 == b2:
                return True
            if dfa.inter(self.strlang(a2), self.strlang(b2)).is_empty():
                return False
            return self.decide_cond(('seq',) + tuple(sorted((a2, b2), key=akey)))
        if a[0] == 'tup' and b[0] == 'tup':
            return len(a[1]) == len(b[1]) and all(self.eq(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'ref' and b[0] == 'ref':
            if a[1] == b[1]:
                return True
            oa, ob = self.obj(a), self.obj(b)
            m = self.class_lookup(oa.cls, '__eq__')
            if m is not None:
                return self.truth(self.call(('bm', a, m[1]), [b], {}))
            if oa.cls == 'list' and ob.cls == 'list':
                sa, sb = oa.f['segs'], ob.f['segs']
                if all(x[0] == 'e' for x in sa) and all(x[0] == 'e' for x in sb):
                    return len(sa) == len(sb) and all(self.eq(x[1], y[1]) for x, y in zip(sa, sb))
                if not sb:
                    return self.decide_eq0(segs_len(sa))
                if not sa:
                    return self.decide_eq0(segs_len(sb))
                raise Gap('comparison of unbounded lists')
            return False
        return False

    def normstr(self, v):
        if v[0] != 'str':
            return v
        st = self.st
        out = []
        for p in v[1]:
            if p[0] == 'sl':
                q = ('sl', p[1], st.norm(p[2]), st.norm(p[3]))
                clo, chi = pcval(q[2]), pcval(q[3])
                if clo is not None and chi is not None and chi - clo <= 4 and len(st.alts(p[1])) <= 4:
                    s = st.slicelang(p[1], clo, chi).singleton()
                    if s is not None:
                        out.append(('lit', s))
                        continue
                elif clo == 0 and chi is None and len(st.alts(p[1])) == 1:
                    s = st.alts(p[1])[0][0].singleton()
                    if s is not None:
                        out.append(('lit', s))
                        continue
                out.append(q)
            else:
                out.append(p)
        return STR(out)

    def normval(self, v):
        t = v[0]
        if t == 'num':
            return NUM(self.st.norm(v[1]), v[2])
        if t == 'str':
            return self.normstr(v)
        if t == 'proj':
            return self.simp_proj(v)
        if t == 'tup':
            return ('tup', tuple([self.normval(x) for x in v[1]]))
        return v

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return not self.eq(a, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a[0] == 'proj' or b[0] == 'proj':
                r = self.eq(a, b)
            elif a == NONE or b == NONE:
                x = b if a == NONE else a
                r = x == NONE or (x[0] == 'any' and x[1] == 'obj' and self.choose(2, 'is None') == 0)
            elif a[0] == 'ref' or b[0] == 'ref':
                r = a == b
            elif (is_str(a) and is_str(b)) or (a[0] in ('c', 'enum') and b[0] in ('c', 'enum')):
                if a[0] != b[0] and 'enum' in (a[0], b[0]):
                    r = False
                elif a[0] == 'enum':
                    r = a[:3] == b[:3]
                else:
                    r = self.eq(a, b) and (is_str(a) or a[1] == b[1])
            else:
                r = self.eq(a, b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not r
        if a[0] == 'proj':
            a = self.split_proj(a)
        if b[0] == 'proj':
            b = self.split_proj(b)
        pa, pb = poly_of(a), poly_of(b)
        if pa is not None and pb is not None:
            if const(a) and const(b):
                x, y = a[2], b[2]
                return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            if isinstance(op, ast.LtE):
                return self.decide_ge0(psub(pb, pa))
            if isinstance(op, ast.Lt):
                return self.decide_gt0(psub(pb, pa))
            if isinstance(op, ast.GtE):
                return self.decide_ge0(psub(pa, pb))
            return self.decide_gt0(psub(pa, pb))
        if is_num(a) and is_num(b):
            if a[0] == 'any' and a[2] or b[0] == 'any' and b[2]:
                return self.decide_cond((type(op).__name__, a, b))
            return self.choose(2, 'unknown comparison') == 0
        if is_str(a) and is_str(b):
            if const(a) and const(b):
                x, y = a[2], b[2]
                return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            if const(a) or const(b):
                # digit-string comparison against a literal: compare lexicographically through a language
                v, k, flip = (a, b, False) if const(b) else (b, a, True)
                L = lexlang(k[2], type(op).__name__ if not flip else
                            {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}[type(op).__name__])
                return self.decide_lang(v, L)
            return self.decide_cond((type(op).__name__, a, b))
        if a == NONE or b == NONE or is_str(a) != is_str(b):
            self.throw('TypeError', 'unorderable operands')
        raise Gap('comparison %s of %s and %s' % (type(op).__name__, a[0], b[0]))

    def contains(self, coll, x):
        if coll[0] == 'tup':
            items = coll[1]
        elif coll[0] == 'ref':
            o = self.obj(coll)
            if o.cls in ('dict', 'set'):
                items = [i[0] if o.cls == 'dict' else i for i in o.f['items']]
            elif o.cls == 'list':
                if any(s[0] != 'e' for s in o.f['segs']):
                    raise Gap('membership in an unbounded list')
                items = [s[1] for s in o.f['segs']]
            else:
                m = self.class_lookup(o.cls, '__contains__')
                if m is None:
                    raise Gap('membership in %s' % o.cls)
                return self.truth(self.call(('bm', coll, m[1]), [x], {}))
        elif is_str(coll):
            if not is_str(x):
                self.throw('TypeError', 'in <string> requires string')
            if const(coll):
                if const(x):
                    return x[2] in coll[2]
                s = coll[2]
                subs = {s[i:j] for i in range(len(s) + 1) for j in range(i, len(s) + 1)}
                return self.decide_lang(x, dfa.finite(subs))
            if const(x) and len(x[2]) >= 1:
                L = contains_lang(x[2])
                return self.decide_lang(coll, L)
            return self.decide_cond(('in', self.normstr(x), self.normstr(coll)))
        elif coll[0] == 'cls':
            c = self.eng.classes[coll[1]]
            items = [v for v in c.attrs.values() if v[0] == 'enum']
        elif coll[0] == 'any':
            return self.choose(2, 'membership') == 0
        else:
            self.throw('TypeError', 'argument not iterable')
        return self.among(x, items)

    def among(self, x, items):
        """is x equal to one of the items (single fork when all items are constants)"""
        simple = all(i[0] in ('c', 'enum') for i in items)
        if x[0] == 'proj' and simple:
            return self.decide_proj(x, lambda y: any(self.eq(y, i) for i in items))
        if x[0] == 'str' and simple:
            return self.decide_lang(x, dfa.finite([i[2] for i in items if i[0] == 'c' and i[1] == 'str']))
        for i in items:
            if self.eq(x, i):
                return True
        return False

    # ------------------------------------------------ frames and names
    @property
    def fr(self):
        return self.frames[-1]

    def lookup(self, name, node=None):
        f = self.fr
        if name in f.loc:
            return f.loc[name]
        p = f.parent
        while p is not None:
            if name in p.loc:
                return p.loc[name]
            p = p.parent
        g = self.eng.modules.get(f.module)
        if g is not None and name in g:
            if (f.module, name) in self.st.clsattr:
                return self.st.clsattr[(f.module, name)]
            return g[name]
        if name in BUILTIN_NAMES:
            return ('bi', name)
        if hasattr(_bi, name):
            raise Gap('builtin %s' % name)
        if f.fn is not None and name in assigned_names(f.fn.node):
            self.throw('UnboundLocalError', name)
        self.throw('NameError', name)

    # ------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        f = self.fr
        old = f.cur
        f.cur = s
        self.steps += 1
        if self.steps > 60000 and not self.static:
            raise Gap('path too long at %s' % self.eng.site(s))
        getattr(self, 'x_' + type(s).__name__, self.x_unsupported)(s)
        f.cur = old

    def x_unsupported(self, s):
        raise Gap('statement %s at %s' % (type(s).__name__, self.eng.site(s)))

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        raise Gap('global statement')

    x_Nonlocal = x_Global

    def x_Import(self, s):
        for a in s.names:
            top = a.name.split('.')[0]
            if self.eng.find(a.name):
                self.eng.load(a.name)
                self.setname(a.asname or top, ('mod', a.name if a.asname else top))
            else:
                if top not in EXT_MODULES:
                    self.throw('ModuleNotFoundError', a.name)
                self.setname(a.asname or top, ('mod', a.name if a.asname else top))

    def x_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.fr.module.split('.')
            base = base[:len(base) - s.level]
            mod = '.'.join(base + ([mod] if mod else []))
        path = self.eng.find(mod)
        if path:
            g = self.eng.load(mod)
            for a in s.names:
                if a.name == '*':
                    for k, v in g.items():
                        if not k.startswith('_'):
                            self.setname(k, v)
                elif a.name in g:
                    self.setname(a.asname or a.name, g[a.name])
                elif self.eng.find(mod + '.' + a.name):
                    self.eng.load(mod + '.' + a.name)
                    self.setname(a.asname or a.name, ('mod', mod + '.' + a.name))
                else:
                    self.throw('ImportError', '%s from %s' % (a.name, mod))
            return
        if mod.split('.')[0] not in EXT_MODULES:
            self.throw('ModuleNotFoundError', mod)
        for a in s.names:
            self.setname(a.asname or a.name, ext_attr(mod, a.name))

    def setname(self, name, v):
        self.fr.loc[name] = v

    def x_FunctionDef(self, s):
        self.setname(s.name, self.make_fn(s, s.name))

    def make_fn(self, node, name, cls=None):
        fr = self.fr
        fid = '%s:%s:%d:%d' % (fr.module, (cls + '.' if cls else '') + name, node.lineno, node.col_offset)
        clo = None
        if fr.fn is not None:
            clo = fr
        f = self.eng.fns.get(fid) if clo is None else None
        if f is None:
            f = FnInfo(fid, name, node, fr.module, cls, 'plain', clo)
            a = node.args
            f.defaults = [self.ev(d) for d in a.defaults]
            f.kwdefaults = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
            self.eng.fns[fid] = f
        if clo is not None:
            f.closure = clo
            self.eng.fns[fid] = f
        v = ('fn', fid)
        for d in reversed(getattr(node, 'decorator_list', [])):
            dv = self.ev(d)
            if dv == ('bi', 'staticmethod'):
                f.kind = 'static'
            elif dv == ('bi', 'classmethod'):
                f.kind = 'class'
            elif dv == ('bi', 'property'):
                f.kind = 'prop'
            elif dv[0] == 'bi' and dv[1] in ('functools.lru_cache', 'functools.cache', 'typing.override',
                                             'functools.wraps', 'typing.final', 'typing.no_type_check'):
                pass
            elif dv[0] == 'bi' and dv[1].startswith('prop.setter'):
                v = ('bi', 'propset:' + fid)
            else:
                raise Gap('decorator %s' % (dv,))
        return v

    def x_ClassDef(self, s):
        fr = self.fr
        q = fr.module + '.' + s.name
        bases = [self.ev(b) for b in s.bases]
        c = ClassInfo(q, s.name, bases, fr.module)
        self.eng.classes[q] = c
        for b in bases:
            if b[0] == 'bi' and b[1].startswith('enum.'):
                c.enum = b[1]
            elif b[0] == 'bi' and is_exc_name(b[1]):
                c.exc = True
            elif b[0] == 'cls' and self.eng.classes[b[1]].exc:
                c.exc = True
            elif b[0] == 'cls' and self.eng.classes[b[1]].enum:
                c.enum = self.eng.classes[b[1]].enum
        sub = Frame(None, {}, fr if fr.fn is not None else None, fr.module)
        sub.loc['__annotations__'] = C(0)
        self.frames.append(sub)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                sub.cur = st
                v = self.make_fn(st, st.name, q)
                if v[0] == 'bi' and v[1].startswith('propset:'):
                    c.attrs['%set:' + st.name] = ('fn', v[1][8:])
                    continue
                sub.loc[st.name] = v
            else:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    c.ann[st.target.id] = st.value is not None
                self.exec(st)
        self.frames.pop()
        del sub.loc['__annotations__']
        if c.enum:
            last = 0
            for k, v in sub.loc.items():
                if v[0] == 'fn' or k.startswith('__'):
                    c.attrs[k] = v
                    continue
                if v == ('c', 'str', '\0auto'):
                    val = last + 1
                elif v[0] == 'c':
                    val = v[2]
                elif v[0] == 'enum':
                    val = v[3]
                elif v[0] == 'tup':
                    val = v
                else:
                    raise Gap('enum member value')
                if isinstance(val, int):
                    last = val
                alias = [x for x in c.attrs.values() if x[0] == 'enum' and x[3] == val]
                c.attrs[k] = alias[0] if alias else ('enum', q, k, val)
        else:
            c.attrs.update(sub.loc)
            for k, v in c.attrs.items():
                if v[0] == 'ref' and v[1] < 0 and self.static:
                    o = self.st.heap.get(v[1])
                    if o is not None and not o.label:
                        o.label = 'static:%s.%s' % (s.name, k)
        c.attrs.setdefault('__name__', C(s.name))
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            if dv[0] == 'bi' and dv[1] in ('enum.unique', 'typing.final'):
                continue
            if dv[0] == 'bi' and dv[1].startswith('dataclasses.dataclass'):
                c.attrs['%dataclass'] = TRUE
                continue
            raise Gap('class decorator')
        self.setname(s.name, ('cls', q))

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        raise ReturnEx(v)

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        load = ast.copy_location(_reload(t), t)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.ev(s.value)
            self.assign(t, self.binop(s.op, cur, v, True))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, self.mangle(t.attr))
            self.temps.append(o)
            v = self.ev(s.value)
            self.temps.pop()
            self.setattr(o, self.mangle(t.attr), self.binop(s.op, cur, v, True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            cur = self.getitem(o, i)
            v = self.ev(s.value)
            self.setitem(o, i, self.binop(s.op, cur, v, True))
        else:
            raise Gap('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.fr.loc[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.temps.append(v)
            o = self.ev(t.value)
            self.temps.pop()
            self.setattr(o, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.sequence(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw('ValueError', 'unpack')
                for e, x in zip(t.elts[:i], items):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.new_list(items[i:len(items) - k]))
                for e, x in zip(t.elts[i + 1:], items[len(items) - k:]):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                self.throw('ValueError', 'unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        else:
            raise Gap('assignment target %s' % type(t).__name__)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.ev(t.slice)
                self.delitem(o, i)
            else:
                raise Gap('del')

    def x_If(self, s):
        self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def x_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            self.throw('AssertionError', '')

    def x_Raise(self, s):
        if s.exc is None:
            if getattr(self, 'curexc', None):
                raise self.curexc
            raise Gap('bare raise')
        v = self.ev(s.exc)
        if v[0] == 'bi' and is_exc_name(v[1]):
            self.throw(v[1], '')
        if v[0] == 'exc':
            self.throw(v[1], v[2])
        if v[0] == 'cls':
            self.throw(v[1], '')
        if v[0] == 'ref':
            self.throw(self.obj(v).cls, '')
        raise Gap('raise of %s' % v[0])

    def x_Try(self, s):
        try:
            try:
                self.block(s.body)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.cls, self.ev(h.type)):
                        if h.name:
                            self.fr.loc[h.name] = ('exc', e.cls, e.msg)
                        old = getattr(self, 'curexc', None)
                        self.curexc = e
                        self.block(h.body)
                        self.curexc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        except (Blocked, PathEnd, Gap):
            raise
        except Exception:
            self.block(s.finalbody)
            raise
        else:
            self.block(s.finalbody)

    def exc_matches(self, cls, hv):
        if hv[0] == 'tup':
            return any(self.exc_matches(cls, h) for h in hv[1])
        if hv[0] == 'bi':
            h = getattr(_bi, hv[1], None)
            c = cls
            while c in self.eng.classes:
                b = self.eng.classes[c].bases
                b = b[0] if b else ('bi', 'Exception')
                c = b[1]
            k = getattr(_bi, c, None)
            if h is None or k is None:
                raise Gap('exception type %s' % (hv,))
            return issubclass(k, h)
        if hv[0] == 'cls':
            c = cls
            while c in self.eng.classes:
                if c == hv[1]:
                    return True
                b = self.eng.classes[c].bases
                c = b[0][1] if b else 'Exception'
            return False
        raise Gap('exception handler type')

    def x_With(self, s):
        raise Gap('with statement')

    def x_Break(self, s):
        raise BreakEx()

    def x_Continue(self, s):
        raise ContinueEx()

    # ---- match
    def x_Match(self, s):
        subj = self.ev(s.subject)
        for c in s.cases:
            if self.pat(c.pattern, subj) and (c.guard is None or self.truth(self.ev(c.guard))):
                self.block(c.body)
                return

    def pat(self, p, v):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pat(p.pattern, v):
                return False
            if p.name:
                self.fr.loc[p.name] = v
            return True
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value))
        if isinstance(p, ast.MatchSingleton):
            return self.compare(ast.Is(), v, C(p.value))
        if isinstance(p, ast.MatchOr):
            if all(isinstance(q, ast.MatchValue) for q in p.patterns):
                return self.among(v, [self.ev(q.value) for q in p.patterns])
            return any(self.pat(q, v) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if v[0] != 'tup' and not (v[0] == 'ref' and self.obj(v).cls == 'list'):
                return False
            items = self.sequence(v)
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Gap('starred pattern')
            return len(items) == len(p.patterns) and all(self.pat(q, x) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance(v, self.ev(p.cls))
        raise Gap('pattern %s' % type(p).__name__)

    # ---- loops
    def x_While(self, s):
        if self.static or self.sub is not None:
            n = 0
            while self.truth(self.ev(s.test)):
                n += 1
                if n > 2000:
                    raise Gap('unbounded loop in inline context')
                try:
                    self.block(s.body)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            self.block(s.orelse)
            return
        self.loop_unit(s, None)

    def x_For(self, s):
        itv = self.ev(s.iter)
        m = self.map_rule(s, itv)
        if m:
            return
        it = self.make_iter(itv)
        if self.finite_iter(it) or self.static or self.sub is not None:
            n = 0
            while True:
                n += 1
                if n > 5000:
                    raise Gap('unbounded loop in inline context')
                self.temps.append(it)
                try:
                    x = self.next(it)
                except StopIter:
                    self.temps.pop()
                    break
                try:
                    self.assign(s.target, x)
                    self.block(s.body)
                except BreakEx:
                    self.temps.pop()
                    return
                except ContinueEx:
                    pass
                self.temps.pop()
            self.block(s.orelse)
            return
        self.loop_unit(s, it)

    def live(self, fn):
        if fn is None:
            return None
        if fn.live is None:
            body = fn.node.body
            if not isinstance(body, list):
                body = [ast.copy_location(ast.Return(body), body)]
            fn.live = Live(body, loads(fn.node) | {a.arg for a in fn.node.args.args})
        return fn.live

    def loop_unit(self, s, it):
        fr = self.fr
        L = self.live(fr.fn)
        names = L.head[id(s)] if L is not None else set(fr.loc)
        env = {k: v for k, v in sorted(fr.loc.items()) if k in names}
        if it is not None:
            env['%it'] = it
        old = fr.cur
        # the loop itself holds everything it needs in env; nothing else of this frame is live except after the loop,
        # which head-liveness includes
        out = self.summary('loop', s, fr.fn, env, holdframe=False)
        fr.cur = old
        if out[0] == 'ret':
            raise ReturnEx(out[1])
        for k in list(fr.loc):
            if k in names:
                del fr.loc[k]
        for k, v in out[2].items():
            if k != '%it':
                fr.loc[k] = v

    def run_unit(self):
        u = self.unit
        if u.kind == 'driver':
            fr = Frame(None, {}, None, u.node)
            self.frames.append(fr)
            u.fn(self)
            return
        env = dict(u.env)
        fr = Frame(u.fn, {k: v for k, v in env.items() if k != '%it'}, None, u.fn.module if u.fn else u.module)
        self.frames.append(fr)
        self.eng.analysed_fns.add(u.fn.qual if u.fn else '<driver>')
        try:
            if u.kind == 'fn':
                try:
                    body = u.fn.node.body
                    if isinstance(body, list):
                        self.block(body)
                        out = ('ret', NONE, None)
                    else:
                        out = ('ret', self.ev(body), None)
                except ReturnEx as r:
                    out = ('ret', r.v, None)
            else:
                out = self.run_loop(u, fr, env.get('%it'))
        except PyRaise as e:
            self.eng.event('raise', '%s: %s' % (e.cls, e.msg), e.site, self.trace()) if False else None
            out = ('raise', (e.cls, e.msg, e.site), None)
        self.finish(out)

    def run_loop(self, u, fr, it):
        s = u.node
        fr.cur = s
        try:
            if isinstance(s, ast.While):
                go = self.truth(self.ev(s.test))
            else:
                try:
                    x = self.next(it)
                    go = True
                    self.assign(s.target, x)
                except StopIter:
                    go = False
            if not go:
                self.block(s.orelse)
                return self.loop_exit(s, fr)
            try:
                if it is not None:
                    self.temps.append(it)
                self.block(s.body)
            except BreakEx:
                return self.loop_exit(s, fr)
            except ContinueEx:
                pass
            fr.cur = s
            self.temps.clear()
            L = self.live(u.fn)
            names = L.head[id(s)] if L is not None else set(fr.loc)
            env = {k: v for k, v in sorted(fr.loc.items()) if k in names}
            if it is not None:
                env['%it'] = it
            out = self.summary('loop', s, u.fn, env, holdframe=False)
            return out
        except ReturnEx as r:
            return ('ret', r.v, None)

    def loop_exit(self, s, fr):
        L = self.live(fr.fn)
        names = L.out.get(id(s)) if L is not None else set(fr.loc)
        if names is None:
            names = L.all
        return ('env', None, {k: v for k, v in fr.loc.items() if k in names})

    # ------------------------------------------------ summaries
    def held_values(self, skip_top=False):
        """values that the frames of this unit still need after the current call"""
        out = []
        for i, f in enumerate(self.frames):
            if f.cur is None:
                continue
            top = i == len(self.frames) - 1
            if top and skip_top:
                continue
            L = self.live(f.fn)
            if L is None:
                out.extend(f.loc.values())
                continue
            s = f.cur
            names = set(L.out.get(id(s), L.all))
            val = getattr(s, 'value', None)
            simple = isinstance(s, (ast.Expr, ast.Return, ast.Assign)) and isinstance(val, ast.Call) and \
                not any(isinstance(n, ast.Call) for a in list(val.args) + [k.value for k in val.keywords]
                        for n in ast.walk(a)) and not any(isinstance(n, ast.Call) for n in ast.walk(val.func))
            if isinstance(s, ast.Return):
                names = set()
            if simple:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            names.discard(t.id)
                        else:
                            names |= loads(t)
            else:
                names |= loads(s)
            for n in sorted(names):
                if n in f.loc:
                    out.append(f.loc[n])
            p = f.parent
            while p is not None:
                out.extend(p.loc.values())
                p = p.parent
        out.extend(self.temps)
        return out

    def summary(self, kind, node, fn, env, holdframe=True):
        eng = self.eng
        held = self.held_values(skip_top=not holdframe)
        if self.unit is not None:
            held = held + list(self.unit.pins)
        from canon import make_entry, apply_exit
        key, entry, cenv, cpins, back, hroots = make_entry(self, kind, node, fn, env, held)
        u = eng.units.get(key)
        if u is None:
            u = Unit(eng, key, kind, node, fn, entry, cenv, cpins, (self.unit, self.here()))
            u.module = self.fr.module
            u.strcur = back.strcur
            eng.units[key] = u
            if eng.cfg and eng.cfg.debug:
                print('unit', u.id, u.name, 'from', self.unit.name if self.unit.kind != 'driver' else 'driver', len(eng.units))
            eng.schedule(u, ())
        if self.unit is not None and eng.cfg is not None:
            eng.cfg.edge(self, u, back)
        ex = self.choose_exit(u)
        out = apply_exit(self, u, ex, back)
        if out[0] == 'raise':
            raise PyRaise(*out[1])
        return out

    def finish(self, out):
        from canon import make_exit
        u = self.unit
        if u.kind == 'driver':
            return
        if out[0] == 'raise' and not self.eng.has_try:
            # nobody catches it
            if self.eng.cfg is not None:
                self.eng.cfg.raised(self, PyRaise(*out[1]))
            return
        key, ex = make_exit(self, u, out)
        self.eng.add_exit(u, key, ex)

    # ------------------------------------------------ element-wise loops
    def map_rule(self, s, itv):
        """for x in LIST: body that only touches x  ==>  transform the generic element of every segment"""
        if self.static or itv[0] != 'ref' or s.orelse:
            return False
        o = self.obj(itv)
        if o.cls != 'list' or not isinstance(s.target, ast.Name):
            return False
        segs = o.f['segs']
        if not any(x[0] == '*' and x[2] is not None and len(x[2][1]) == 1 and not x[2][1][0][3] for x in segs):
            return False
        fr = self.fr
        # replays of the same path prefix reach this loop in the same state: reuse the result
        key = None
        if self.sub is None:
            key = (self.unit.id, self.prefix[:self.pos], id(s), itv, self.st.next)
            memo = self.eng.mapmemo.get(key)
            if memo is not None:
                self.st.restore(memo[0])
                fr.loc.update(memo[1])
                return memo[2]
        r = self.map_rule1(s, itv, fr, segs)
        if key is not None:
            self.eng.mapmemo[key] = (self.st.clone(), dict(fr.loc), r)
        return r

    def map_rule1(self, s, itv, fr, segs):
        L = self.live(fr.fn)
        head = L.head[id(s)] if L is not None else set(fr.loc)
        newsegs = []
        for seg in segs:
            if seg[0] == 'e':
                self.assign(s.target, seg[1])
                try:
                    self.block(s.body)
                except ContinueEx:
                    pass
                except BreakEx:
                    raise Gap('break in a loop over a partly unknown list')
                newsegs.append(seg)
                continue
            if seg[2] is None or len(seg[2][1]) != 1 or seg[2][1][0][3]:
                return False
            res = self.map_body(s, itv, seg, head)
            if res is None:
                return False
            newsegs.append(('*', seg[1], res))
        self.wobj(itv).f['segs'] = tuple(newsegs)
        return True

    def map_body(self, s, itv, seg, head):
        base = self.st
        results = []
        work = [()]
        n = 0
        while work:
            pre = work.pop()
            n += 1
            if n > 3000:
                return None
            st2 = base.clone()
            it = Interp(self.eng, st2, self.unit, pre)
            it.sub = work
            it.frames = [Frame(f.fn, dict(f.loc), f.parent, f.module) for f in self.frames]
            for a, b in zip(it.frames, self.frames):
                a.cur = b.cur
            elem, sym = it.instantiate(seg[2][1][0], ret_sym=True)
            before = {a: (dict(ob.f)) for a, ob in st2.heap.items() if a != elem[1]}
            names0 = dict(st2.names)
            nconds = dict(st2.conds)
            loc0 = dict(it.fr.loc)
            try:
                it.assign(s.target, elem)
                try:
                    it.block(s.body)
                except ContinueEx:
                    pass
            except PathEnd:
                continue
            except (BreakEx, ReturnEx):
                return None
            except Gap as g:
                self.eng.gaps['map:' + str(g)] = self.eng.site(s)
                return None
            except PyRaise as e:
                self.eng.event('map-raise', '%s: %s' % (e.cls, e.msg), e.site, it.trace())
                if self.eng.cfg is not None:
                    self.eng.cfg.raised(self, e)
                continue
            for a, ob in before.items():
                if st2.heap[a].f != ob:
                    return None
            for k in head:
                if k != s.target.id and it.fr.loc.get(k) != loc0.get(k):
                    return None
            for k, v in names0.items():
                if k != sym and st2.names[k] != v:
                    return None
            if st2.conds != nconds:
                return None
            eo = st2.heap[elem[1]]
            # expand projections
            results.append((eo, st2.alts(sym) if sym is not None else None, it, sym))
        if not results:
            raise PathEnd()
        cls = results[0][0].cls
        fields = {}
        keys = set()
        for eo, alts, it, sym in results:
            keys |= set(eo.f)
        varying = []
        ren = {}
        for k in sorted(keys):
            vals = []
            for eo, alts, it, sym in results:
                if k not in eo.f:
                    return None
                v = Ren(lambda n, sym=sym: -1 if n == sym else n, lambda a: a).v(it.normval(eo.f[k])
                                                                               if eo.f[k][0] == 'proj' else eo.f[k])
                vals.append(v)
            if all(v == vals[0] for v in vals):
                fields[k] = vals[0]
            else:
                if not all(v[0] in ('c', 'enum') or (v[0] == 'proj' and v[1] == -1) for v in vals):
                    return None
                varying.append((k, vals))
                fields[k] = ('proj', -1, k)
        alts = []
        for i, (eo, al, it, sym) in enumerate(results):
            for Ld, tag in al or ():
                t = dict(tag)
                new = dict(t)
                for k, vals in varying:
                    v = vals[i]
                    if v[0] == 'proj':
                        v = t[v[2]]
                    new[k] = v
                # projections in non-varying fields keep their tags
                alts.append((Ld, tuple(sorted(new.items()))))
        merged = {}
        for Ld, tag in alts:
            merged[tag] = dfa.union(merged[tag], Ld) if tag in merged else Ld
        alts = tuple((Ld, tag) for tag, Ld in sorted(merged.items(), key=lambda kv: akey(kv[0])))
        return tm([(cls, tuple(sorted(fields.items())), alts, False)])

    # ------------------------------------------------ lists
    def instantiate(self, variant, ret_sym=False):
        """fresh element from a template variant"""
        cls, fields, alts, must = variant
        sym = None
        if alts is not None:
            sym = self.st.new_sym(alts)
        fresh = {}

        def nm(n):
            if n == -1:
                return sym
            return n
        ren = Ren(nm, lambda a: a)
        if cls is None:
            v = ren.v(dict(fields)[''])
        else:
            v = self.st.alloc(Obj(cls, {k: ren.v(x) for k, x in fields}))
        return (v, sym) if ret_sym else v

    def list_locate(self, ref, idx):
        """('e', segindex) for index idx in range, splitting segments; raises IndexError"""
        o = self.obj(ref)
        segs = list(o.f['segs'])
        if any(s[0] == '*' for s in segs) is False:
            c = pcval(self.st.norm(idx))
            if c is not None:
                n = len(segs)
                if -n <= c < n:
                    return c % n
                self.throw('IndexError', 'list index out of range')
        n = segs_len(segs)
        if not self.decide_ge0(idx):
            idx = padd(idx, n)
            if not self.decide_ge0(idx):
                self.throw('IndexError', 'list index out of range')
        off = P0
        i = 0
        while True:
            segs = list(self.obj(ref).f['segs'])
            if i >= len(segs):
                self.throw('IndexError', 'list index out of range')
            s = segs[i]
            rel = self.st.norm(psub(idx, off))
            if s[0] == 'e':
                if self.decide_eq0(rel):
                    return i
                off = paddc(off, 1)
                i += 1
                continue
            cnt = self.st.norm(s[1])
            if pcval(cnt) == 0:
                i += 1
                continue
            # rel < cnt ?
            if not self.decide_ge0(paddc(psub(cnt, rel), -1)):
                off = padd(off, cnt)
                i += 1
                continue
            if s[2] is None:
                raise Gap('access to a forgotten list element')
            variants = s[2][1]
            if len(variants) != 1:
                # read-only generic element
                k = self.choose(len(variants), 'element variant')
                v = self.instantiate(variants[k])
                if v[0] == 'ref':
                    self.obj(v).label = 'readonly'
                self._ro = v
                return None
            v = self.instantiate(variants[0])
            w = self.wobj(ref)
            new = []
            if self.decide_eq0(rel):
                new = [('e', v), ('*', paddc(cnt, -1), s[2])]
                j = i
            else:
                new = [('*', rel, s[2]), ('e', v), ('*', paddc(psub(cnt, rel), -1), s[2])]
                j = i + 1
            if pcval(self.st.norm(new[-1][1])) == 0:
                new.pop()
            w.f['segs'] = tuple(segs[:i] + new + segs[i + 1:])
            return j

    def list_get(self, ref, idx):
        j = self.list_locate(ref, idx)
        if j is None:
            return self._ro
        return self.obj(ref).f['segs'][j][1]

    def list_items(self, ref):
        segs = self.obj(ref).f['segs']
        if any(s[0] != 'e' for s in segs):
            raise Gap('unbounded list used as a finite sequence')
        return [s[1] for s in segs]

    def list_slice(self, ref, lo, hi):
        """list[lo:hi] with polynomial bounds (None = open)"""
        segs = self.obj(ref).f['segs']
        n = segs_len(segs)

        def bound(b, dflt):
            if b is None:
                return dflt
            if not self.decide_ge0(b):
                b = padd(b, n)
                if not self.decide_ge0(b):
                    return P0
            if not self.decide_ge0(psub(n, b)):
                return n
            return b
        a, b = bound(lo, P0), bound(hi, n)
        if not self.decide_gt0(psub(b, a)):
            return self.alloc(Obj('list', {'segs': ()}))
        # force a segment boundary at a and at b
        out = []
        off = P0
        for s in segs:
            size = pconst(1) if s[0] == 'e' else s[1]
            end = padd(off, size)
            # intersection of [off,end) and [a,b)
            if self.decide_ge0(psub(off, b)):
                break
            if self.decide_ge0(psub(a, end)):
                off = end
                continue
            if s[0] == 'e':
                out.append(s)
            else:
                l = off if self.decide_ge0(psub(off, a)) else a
                h = end if self.decide_ge0(psub(b, end)) else b
                cnt = self.st.norm(psub(h, l))
                if pcval(cnt) != 0:
                    t = s[2]
                    if t is not None and cnt != self.st.norm(s[1]):
                        t = tm([v[:3] + (False,) for v in t[1]])
                    out.append(('*', cnt, t))
            off = end
        return self.alloc(Obj('list', {'segs': tuple(out)}, self.obj(ref).label))

    # ------------------------------------------------ iteration
    def sequence(self, v):
        """finite sequence of values"""
        if v[0] == 'tup':
            return list(v[1])
        if v[0] == 'c' and v[1] == 'str':
            return [C(ch) for ch in v[2]]
        if v[0] == 'ref':
            o = self.obj(v)
            if o.cls == 'list':
                return self.list_items(v)
            if o.cls == 'dict':
                return [k for k, _ in o.f['items']]
            if o.cls == 'set':
                return list(o.f['items'])
        if v[0] == 'cls' and self.eng.classes[v[1]].enum:
            return [x for x in self.eng.classes[v[1]].attrs.values() if x[0] == 'enum']
        it = self.make_iter(v)
        if not self.finite_iter(it):
            raise Gap('unbounded iterable used as a finite sequence')
        out = []
        while True:
            try:
                out.append(self.next(it))
            except StopIter:
                return out

    def make_iter(self, v):
        if v[0] == 'tup' or (v[0] == 'c' and v[1] == 'str') or v[0] == 'cls':
            return self.alloc(Obj('iter', {'kind': C('seq'), 'items': ('tup', tuple(self.sequence(v))), 'pos': C(0)}))
        if v[0] == 'str':
            return self.alloc(Obj('iter', {'kind': C('str'), 'src': v, 'pos': C(0)}))
        if v[0] == 'ref':
            o = self.obj(v)
            if o.cls == 'iter':
                return v
            if o.cls == 'list':
                return self.alloc(Obj('iter', {'kind': C('list'), 'src': v, 'pos': C(0)}))
            if o.cls in ('dict', 'set'):
                return self.alloc(Obj('iter', {'kind': C('seq'), 'items': ('tup', tuple(self.sequence(v))),
                                               'pos': C(0)}))
            m = self.class_lookup(o.cls, '__iter__')
            if m is not None:
                return self.make_iter(self.call(('bm', v, m[1]), [], {}))
            m = self.class_lookup(o.cls, '__getitem__')
            if m is not None:
                return self.alloc(Obj('iter', {'kind': C('getitem'), 'src': v, 'pos': C(0)}))
        if v == NONE or is_num(v):
            self.throw('TypeError', 'object is not iterable')
        raise Gap('iteration over %s' % (v[0],))

    def finite_iter(self, it):
        o = self.obj(it)
        k = o.f['kind'][2]
        if k == 'seq':
            return True
        if k == 'list':
            return all(s[0] == 'e' for s in self.obj(o.f['src']).f['segs']) and const(o.f['pos'])
        if k == 'str':
            return False
        if k == 'range':
            return all(const(o.f[x]) for x in ('pos', 'stop', 'step'))
        if k == 'enum':
            return self.finite_iter(o.f['inner'])
        if k == 'zip':
            return any(self.finite_iter(i) for i in o.f['inners'][1])
        return False

    def next(self, it):
        o = self.obj(it)
        k = o.f['kind'][2]
        if k == 'seq':
            i = o.f['pos'][2]
            items = o.f['items'][1]
            if i >= len(items):
                raise StopIter()
            self.wobj(it).f['pos'] = C(i + 1)
            return items[i]
        if k == 'list':
            src = o.f['src']
            pos = poly_of(o.f['pos'])
            if 'rem' in o.f:
                return self.next_in_star(it, src, pos)
            lo = self.obj(src)
            ip = pcval(pos)
            if ip is not None and isinstance(ip, int) and ip >= 0:
                segs = lo.f['segs']
                if all(s[0] == 'e' for s in segs[:ip + 1]):
                    if ip < len(segs):
                        self.wobj(it).f['pos'] = C(ip + 1)
                        return segs[ip][1]
                    if ip == len(segs):
                        raise StopIter()
            n = segs_len(lo.f['segs'])
            if not self.decide_gt0(psub(n, pos)):
                raise StopIter()
            # at the front of a segment whose elements are read-only variants?
            off = P0
            for i, s in enumerate(lo.f['segs']):
                if s[0] == '*' and self.st.norm(psub(pos, off)) == P0 and pcval(self.st.norm(s[1])) != 0 and \
                        s[2] is not None and (len(s[2][1]) != 1 or s[2][1][0][3]):
                    if not self.decide_gt0(s[1]):
                        continue
                    w = self.wobj(it)
                    w.f['rem'] = ('tup', tuple([C(j) for j, v in enumerate(s[2][1]) if v[3]]))
                    w.f['seg'] = C(i)
                    return self.next_in_star(it, src, pos)
                off = padd(off, pconst(1) if s[0] == 'e' else s[1])
            v = self.list_get(src, pos)
            self.wobj(it).f['pos'] = NUM(paddc(pos, 1), 'int')
            return v
        if k == 'str':
            src = o.f['src']
            pos = poly_of(o.f['pos'])
            n = self.length(src)
            if not self.decide_gt0(psub(poly_of(n), pos)):
                raise StopIter()
            ch = self.str_slice(src, pos, paddc(pos, 1), inrange=True)
            self.wobj(it).f['pos'] = NUM(paddc(pos, 1), 'int')
            return ch
        if k == 'range':
            pos, stop, step = o.f['pos'], o.f['stop'], o.f['step']
            if not const(step):
                raise Gap('range step')
            if step[2] > 0:
                ok = self.decide_gt0(psub(poly_of(stop), poly_of(pos)))
            else:
                ok = self.decide_gt0(psub(poly_of(pos), poly_of(stop)))
            if not ok:
                raise StopIter()
            self.wobj(it).f['pos'] = NUM(padd(poly_of(pos), poly_of(step)), 'int')
            return pos
        if k == 'enum':
            x = self.next(o.f['inner'])
            c = o.f['count']
            self.wobj(it).f['count'] = self.add(c, C(1))
            return ('tup', (c, x))
        if k == 'zip':
            return ('tup', tuple([self.next(i) for i in o.f['inners'][1]]))
        if k == 'getitem':
            try:
                v = self.getitem(o.f['src'], o.f['pos'])
            except PyRaise as e:
                if e.cls == 'IndexError':
                    raise StopIter()
                raise
            self.wobj(it).f['pos'] = self.add(o.f['pos'], C(1))
            return v
        raise Gap('iterator ' + k)

    def next_in_star(self, it, src, pos):
        o = self.wobj(it)
        i = o.f['seg'][2]
        segs = self.obj(src).f['segs']
        s = segs[i]
        rem = [x[2] for x in o.f['rem'][1]]
        nv = len(s[2][1])
        opts = list(range(nv)) + ([] if rem else [None])
        k = opts[self.choose(len(opts), 'next element')]
        if k is None:
            del o.f['rem'], o.f['seg']
            off = segs_len(segs[:i + 1])
            o.f['pos'] = NUM(self.st.norm(off), 'int')
            return self.next(it)
        o.f['rem'] = ('tup', tuple([C(j) for j in rem if j != k]))
        v = self.instantiate(s[2][1][k])
        if v[0] == 'ref':
            self.obj(v).label = 'readonly'
        return v

    # ------------------------------------------------ attributes
    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            f = self.fr
            cls = f.fn.cls if f.fn is not None else None
            if cls:
                return '_%s%s' % (cls.split('.')[-1].lstrip('_'), name)
        return name

    def mro(self, q):
        out = []
        todo = [q]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            c = self.eng.classes.get(x)
            if c:
                todo.extend([b[1] for b in c.bases if b[0] == 'cls'])
        return out

    def class_lookup(self, q, name):
        """('cls attr value') as stored; functions returned as ('fn', id)"""
        for x in self.mro(q):
            c = self.eng.classes.get(x)
            if c is None:
                continue
            if (x, name) in self.st.clsattr:
                return self.st.clsattr[(x, name)]
            if name in c.attrs:
                return c.attrs[name]
            # private names are stored unmangled in the class body
            pre = '_%s__' % c.name.lstrip('_')
            if name.startswith(pre) and '__' + name[len(pre):] in c.attrs:
                return c.attrs['__' + name[len(pre):]]
        return None

    def getattr(self, o, name):
        t = o[0]
        if t == 'ref':
            ob = self.obj(o)
            if ob.cls in ('list', 'dict', 'set', 'iter'):
                return ('bbm', o, name)
            if ob.cls == 'ext':
                return ('bbm', o, name)
            if name in ob.f:
                return ob.f[name]
            if name == '__class__':
                return ('cls', ob.cls)
            if name == '__dict__':
                return self.alloc(Obj('dict', {'items': tuple([(C(k), v) for k, v in ob.f.items()])}))
            v = self.class_lookup(ob.cls, name)
            if v is None:
                g = self.class_lookup(ob.cls, '__getattr__')
                if g is not None:
                    return self.call(('bm', o, g[1]), [C(name)], {})
                self.throw('AttributeError', "'%s' object has no attribute '%s'" % (ob.cls.split('.')[-1], name))
            if v[0] == 'fn':
                f = self.eng.fns[v[1]]
                if f.kind == 'static':
                    return v
                if f.kind == 'class':
                    return ('bm', ('cls', ob.cls), v[1])
                if f.kind == 'prop':
                    return self.call(('bm', o, v[1]), [], {})
                return ('bm', o, v[1])
            return v
        if t == 'cls':
            if name == '__name__':
                return C(self.eng.classes[o[1]].name)
            v = self.class_lookup(o[1], name)
            if v is None:
                if name == '__members__':
                    return self.alloc(Obj('dict', {'items': tuple(
                        [(C(k), x) for k, x in self.eng.classes[o[1]].attrs.items() if x[0] == 'enum'])}))
                self.throw('AttributeError', "type object '%s' has no attribute '%s'" % (o[1], name))
            if v[0] == 'fn' and self.eng.fns[v[1]].kind == 'class':
                return ('bm', o, v[1])
            return v
        if t == 'mod':
            g = self.eng.modules.get(o[1])
            if g is not None:
                if name in g:
                    return g[name]
            if self.eng.find(o[1] + '.' + name):
                self.eng.load(o[1] + '.' + name)
                return ('mod', o[1] + '.' + name)
            if g is not None:
                self.throw('AttributeError', 'module %s has no attribute %s' % (o[1], name))
            return ext_attr(o[1], name)
        if t == 'enum':
            if name == 'value':
                return C(o[3]) if not isinstance(o[3], tuple) else o[3]
            if name == 'name':
                return C(o[2])
            v = self.class_lookup(o[1], name)
            if v is not None and v[0] == 'fn':
                f = self.eng.fns[v[1]]
                if f.kind == 'prop':
                    return self.call(('bm', o, v[1]), [], {})
                return ('bm', o, v[1])
            if v is not None:
                return v
            self.throw('AttributeError', name)
        if t == 'proj':
            x = self.split_proj(o)
            return self.getattr(x, name)
        if is_str(o):
            return ('bbm', o, name)
        if o == NONE:
            self.throw('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        if t == 'tup' or is_num(o):
            return ('bbm', o, name)
        if t == 'bi':
            if o[1] in EXT_OBJECTS or o[1].startswith('ext:'):
                return ('bi', o[1] + '.' + name)
            return ('bi', o[1] + '.' + name)
        if t == 'exc':
            if name == 'args':
                return ('tup', (('any', 'str', 0),))
            return ('any', 'obj', 0)
        if t in ('fn', 'bm'):
            if name == '__name__':
                return C(self.eng.fns[o[1] if t == 'fn' else o[2]].name)
            if name == 'setter' and t == 'fn':
                return ('bi', 'prop.setter')
        if t == 'fn' and name == 'setter':
            return ('bi', 'prop.setter')
        if t == 'any':
            if o[1] in ('str', 'int', 'float'):
                return ('bbm', o, name)
            raise Gap('attribute %s of unknown value' % name)
        if t == 'super':
            for x in self.mro(o[1])[1:]:
                c = self.eng.classes[x]
                if name in c.attrs:
                    v = c.attrs[name]
                    return ('bm', o[2], v[1]) if v[0] == 'fn' and self.eng.fns[v[1]].kind == 'plain' else v
            return ('bi', 'object.' + name)
        raise Gap('attribute %s of %s' % (name, t))

    def setattr(self, o, name, v):
        if o[0] == 'ref':
            ob = self.obj(o)
            if ob.cls in ('list', 'dict', 'set', 'iter'):
                self.throw('AttributeError', name)
            p = self.class_lookup(ob.cls, '%set:' + name)
            if p is not None:
                self.call(('bm', o, p[1]), [v], {})
                return
            w = self.wobj(o, 'attribute %s' % name)
            w.f[name] = v
            if not self.static:
                w.prov[name] = self.here()
                if self.eng.cfg is not None:
                    self.eng.cfg.on_write(self, o, name)
            return
        if o[0] == 'cls':
            self.eng.event('static-write', 'class attribute %s.%s' % (o[1].split('.')[-1], name), self.here(),
                           self.trace())
            if self.static:
                self.eng.classes[o[1]].attrs[name] = v
            else:
                self.st.clsattr[(o[1], name)] = v
            return
        if o[0] == 'mod':
            self.eng.event('static-write', 'module attribute %s.%s' % (o[1], name), self.here(), self.trace())
            raise Gap('module attribute assignment')
        if o == NONE:
            self.throw('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        raise Gap('attribute assignment on %s' % o[0])

    # ------------------------------------------------ subscripts
    def getitem(self, o, i):
        t = o[0]
        if i[0] == 'slice':
            return self.getslice(o, i)
        if t == 'ref':
            ob = self.obj(o)
            if ob.cls == 'list':
                p = poly_of(self.norm_index(i))
                return self.list_get(o, p)
            if ob.cls == 'dict':
                v = self.dict_get(o, i)
                if v is None:
                    self.throw('KeyError', show(i))
                return v
            m = self.class_lookup(ob.cls, '__getitem__')
            if m is not None:
                return self.call(('bm', o, m[1]), [i], {})
            if ob.cls == 'ext':
                return self.ext_getitem(o, i)
            self.throw('TypeError', 'object is not subscriptable')
        if t == 'tup':
            p = poly_of(self.norm_index(i))
            c = pcval(self.st.norm(p))
            if c is None:
                for j in range(len(o[1])):
                    if self.decide_eq0(paddc(p, -j)):
                        return o[1][j]
                self.throw('IndexError', 'tuple index out of range')
            if -len(o[1]) <= c < len(o[1]):
                return o[1][c]
            self.throw('IndexError', 'tuple index out of range')
        if is_str(o):
            if o[0] == 'any':
                if self.choose(2, 'index of unknown string'):
                    self.throw('IndexError', 'string index out of range')
                return ('any', 'str', 0)
            p = poly_of(self.norm_index(i))
            n = poly_of(self.length(o))
            if not self.decide_ge0(p):
                p = padd(p, n)
                if not self.decide_ge0(p):
                    self.throw('IndexError', 'string index out of range')
            if not self.decide_gt0(psub(n, p)):
                self.throw('IndexError', 'string index out of range')
            return self.str_slice(o, p, paddc(p, 1), inrange=True)
        if t == 'cls' and self.eng.classes[o[1]].enum:
            if const(i):
                v = self.eng.classes[o[1]].attrs.get(i[2])
                if v is not None and v[0] == 'enum':
                    return v
                self.throw('KeyError', show(i))
            raise Gap('enum lookup by symbolic name')
        if t == 'bi' or t == 'cls':
            return o     # typing generics
        if o == NONE:
            self.throw('TypeError', "'NoneType' object is not subscriptable")
        if t == 'exc':
            return ('any', 'obj', 0)
        raise Gap('subscript of %s' % (o,))

    def norm_index(self, i):
        if i[0] == 'proj':
            i = self.split_proj(i)
        if i[0] == 'any':
            raise Gap('unknown index')
        if poly_of(i) is None or kind_of(i) == 'float':
            self.throw('TypeError', 'indices must be integers')
        return i

    def dict_get(self, o, k):
        """value, or None when absent; forks on a symbolic key"""
        items = self.obj(o).f['items']
        if k[0] == 'proj':
            vals = [kk for kk, _ in items]
            # group by resulting value
            groups = {}

            def val(x):
                for kk, vv in items:
                    if self.consteq(kk, x):
                        return vv
                return None
            alts = self.st.alts(k[1])
            for a in alts:
                groups.setdefault(val(self.projval(a, k[2])), []).append(a)
            keys = list(groups)
            j = self.choose(len(keys), 'dict key')
            self.st.names[k[1]] = ('sym', tuple(groups[keys[j]]))
            return keys[j]
        if k[0] == 'ref':
            ob = self.obj(k)
            if ob.cls in ('list', 'dict', 'set'):
                self.throw('TypeError', 'unhashable type')
        k = self.normval(k)
        if k[0] in ('c', 'enum', 'cls', 'ref', 'bi', 'fn', 'mod') or (k[0] == 'tup' and is_ground(k)):
            for kk, vv in items:
                if kk[0] in ('num', 'str', 'any', 'tup') and not is_ground(kk):
                    if self.eq(kk, k):
                        return vv
                elif self.consteq(kk, k):
                    return vv
            return None
        if k[0] == 'any':
            j = self.choose(len(items) + 1, 'dict key')
            return items[j][1] if j < len(items) else None
        if k[0] == 'str' and items and all(kk[0] == 'c' for kk, _ in items):
            for kk, vv in items:
                if kk[1] == 'str' and self.eq(k, kk):
                    return vv
            return None
        for kk, vv in items:
            if self.eq(k, kk):
                return vv
        return None

    def consteq(self, a, b):
        if a[0] == 'c' and b[0] == 'c':
            return a[2] == b[2] and (a[1] == 'str') == (b[1] == 'str')
        if a[0] == 'enum' and b[0] == 'enum':
            return (a[3] == b[3] and isinstance(a[3], int) and 'Int' in str(self.eng.classes[a[1]].enum)) or \
                a[:3] == b[:3]
        if a[0] == 'enum' or b[0] == 'enum':
            e, c = (a, b) if a[0] == 'enum' else (b, a)
            return c[0] == 'c' and 'Int' in str(self.eng.classes[e[1]].enum) and e[3] == c[2]
        return a == b

    def setitem(self, o, i, v):
        if o[0] == 'ref':
            ob = self.obj(o)
            if ob.cls == 'list':
                if i[0] == 'slice':
                    raise Gap('slice assignment')
                j = self.list_locate(o, poly_of(self.norm_index(i)))
                if j is None:
                    raise Gap('write into a summarised list')
                w = self.wobj(o, 'item')
                segs = list(w.f['segs'])
                segs[j] = ('e', v)
                w.f['segs'] = tuple(segs)
                return
            if ob.cls == 'dict':
                i = self.normval(i)
                if not is_ground(i):
                    if i[0] == 'proj':
                        i = self.split_proj(i)
                    elif ob.f['items']:
                        raise Gap('dict update with a symbolic key')
                w = self.wobj(o, 'item')
                items = list(w.f['items'])
                for n, (kk, vv) in enumerate(items):
                    if self.consteq(kk, i):
                        items[n] = (kk, v)
                        break
                else:
                    items.append((i, v))
                w.f['items'] = tuple(items)
                return
            m = self.class_lookup(ob.cls, '__setitem__')
            if m is not None:
                self.call(('bm', o, m[1]), [i, v], {})
                return
        if o == NONE or o[0] == 'tup' or is_str(o):
            self.throw('TypeError', 'object does not support item assignment')
        raise Gap('item assignment on %s' % o[0])

    def delitem(self, o, i):
        ob = self.obj(o) if o[0] == 'ref' else None
        if ob is not None and ob.cls == 'dict' and is_ground(i):
            w = self.wobj(o)
            w.f['items'] = tuple([kv for kv in w.f['items'] if not self.consteq(kv[0], i)])
            return
        if ob is not None and ob.cls == 'list':
            if i[0] == 'slice':
                lo, hi = i[1], i[2]
                a = self.list_slice(o, None, P0 if lo is None else lo)
                if hi is not None:
                    raise Gap('del of a slice')
                self.wobj(o).f['segs'] = self.obj(a).f['segs']
                return
            j = self.list_locate(o, poly_of(i))
            if j is None:
                raise Gap('del')
            w = self.wobj(o)
            segs = list(w.f['segs'])
            segs.pop(j)
            w.f['segs'] = tuple(segs)
            return
        raise Gap('del item')

    def getslice(self, o, sl):
        lo, hi, step = sl[1], sl[2], sl[3]
        if step is not None and step != pconst(1):
            if const(o) and pcval(step) is not None and (lo is None or pcval(lo) is not None) and \
                    (hi is None or pcval(hi) is not None):
                return C(o[2][slice(None if lo is None else pcval(lo), None if hi is None else pcval(hi), pcval(step))])
            if o[0] == 'tup' and pcval(step) is not None:
                return ('tup', o[1][slice(None if lo is None else pcval(lo), None if hi is None else pcval(hi),
                                          pcval(step))])
            if o[0] == 'ref' and self.obj(o).cls == 'list' and lo is None and hi is None and pcval(step) == -1:
                return self.new_list(self.list_items(o)[::-1])
            raise Gap('extended slice')
        if o[0] == 'ref' and self.obj(o).cls == 'list':
            return self.list_slice(o, lo, hi)
        if o[0] == 'ref':
            raise Gap('slice of %s' % self.obj(o).cls)
        if o[0] == 'tup':
            return ('tup', o[1][slice(None if lo is None else pcval(lo), None if hi is None else pcval(hi))])
        if is_str(o):
            if o[0] == 'any':
                return ('any', 'str', 0)
            if const(o) and (lo is None or pcval(lo) is not None) and (hi is None or pcval(hi) is not None):
                return C(o[2][None if lo is None else pcval(lo):None if hi is None else pcval(hi)])
            return self.str_slice(o, lo, hi)
        if o == NONE:
            self.throw('TypeError', 'NoneType is not subscriptable')
        raise Gap('slice of %s' % o[0])

    # ------------------------------------------------ strings
    def length(self, v):
        if v[0] == 'any':
            return ('any', 'int', 0)
        if const(v):
            return C(len(v[2]))
        p = P0
        for q in v[1]:
            if q[0] == 'lit':
                p = paddc(p, len(q[1]))
            elif q[0] == 'sl':
                p = padd(p, psub(q[3], q[2]))
            else:
                return ('any', 'int', 0)
        return NUM(self.st.norm(p), 'int')

    def str_slice(self, v, lo, hi, inrange=False):
        """v[lo:hi] with polynomial bounds (negative allowed unless inrange)"""
        st = self.st
        parts = parts_of(v)
        n = poly_of(self.length(v))
        if n is None:
            return ('any', 'str', 0)
        if lo is not None:
            lo = st.norm(lo)
        if hi is not None:
            hi = st.norm(hi)
        # a symbol whose words have few possible lengths: compare by length when bounds are not provable

        def bound(b, dflt):
            if b is None:
                return dflt
            if inrange:
                return b
            c = pcval(b)
            if c is not None and c < 0 or c is None and not self.decide_ge0(b):
                b = padd(n, b)
                if not self.decide_len_ge(v, b):
                    return P0
                return b
            if not self.decide_len_ge(v, psub(n, b)):
                return n
            return b
        a, b = bound(lo, P0), bound(hi, n)
        a, b = st.norm(a), st.norm(b)
        if a == b:
            return C('')
        if not inrange and not self.decide_gt0(psub(b, a)):
            return C('')
        if inrange and len(parts) == 1 and parts[0][0] == 'sl':
            q = parts[0]
            return self.normstr(STR([('sl', q[1], st.norm(padd(q[2], a)), st.norm(padd(q[2], b)))]))
        out = []
        off = P0
        for q in parts:
            size = pconst(len(q[1])) if q[0] == 'lit' else psub(q[3], q[2])
            end = padd(off, size)
            if self.decide_ge0(psub(off, b)):
                break
            if self.decide_ge0(psub(a, end)):
                off = end
                continue
            l = P0 if self.decide_ge0(psub(off, a)) else psub(a, off)
            h = size if self.decide_ge0(psub(b, end)) else psub(b, off)
            if q[0] == 'lit':
                l, h = pcval(st.norm(l)), pcval(st.norm(h))
                if l is None or h is None:
                    raise Gap('symbolic slice of a literal')
                out.append(('lit', q[1][l:h]))
            else:
                out.append(('sl', q[1], st.norm(padd(q[2], l)), st.norm(padd(q[2], h))))
            off = end
        return self.normstr(STR(out))

    def decide_len_ge(self, v, p):
        """p >= 0 where p mentions the length of v; refine the symbol's language when p = len - c"""
        p = self.st.norm(p)
        c = pcval(p)
        if c is not None:
            return c >= 0
        ats = patoms(p)
        if len(ats) == 1 and ats[0][0] == 'len' and dict(p).get((ats[0],)) == 1:
            need = -dict(p).get((), 0)
            return self.len_ge(ats[0][1], need)
        return self.decide_ge0(p)

    def len_ge(self, sym, need):
        if need <= 0:
            return True
        W = dfa.length_where(lambda m: m >= need, need)

        def sp(alt):
            return (dfa.inter(alt[0], W), alt[1]), (dfa.minus(alt[0], W), alt[1])
        return self.decide_alts(sym, sp, 'length')

    # ------------------------------------------------ arithmetic
    def add(self, a, b):
        return self.binop(ast.Add(), a, b, False)

    def binop(self, op, a, b, inplace):
        a, b = self.simp_proj(a), self.simp_proj(b)
        if a[0] == 'proj':
            a = self.split_proj(a)
        if b[0] == 'proj':
            b = self.split_proj(b)
        if isinstance(op, ast.Add):
            if is_str(a) and is_str(b):
                if a[0] == 'any' or b[0] == 'any':
                    pa = parts_of(a) or (('fnp', 'any', (), dfa.ALL),)
                    pb = parts_of(b) or (('fnp', 'any', (), dfa.ALL),)
                    if a[0] == 'any' and b == C(''):
                        return a
                    if b[0] == 'any' and a == C(''):
                        return b
                    return STR(list(pa if a != C('') else ()) + list(pb if b != C('') else ()))
                return STR(list(parts_of(a)) + list(parts_of(b)))
            if a[0] == 'tup' and b[0] == 'tup':
                return ('tup', a[1] + b[1])
            if a[0] == 'ref' and self.obj(a).cls == 'list':
                if b[0] == 'ref' and self.obj(b).cls == 'list':
                    segs = self.obj(a).f['segs'] + self.obj(b).f['segs']
                elif inplace:
                    segs = self.obj(a).f['segs'] + tuple([('e', x) for x in self.sequence(b)])
                else:
                    self.throw('TypeError', 'can only concatenate list')
                if inplace:
                    self.wobj(a).f['segs'] = segs
                    return a
                return self.alloc(Obj('list', {'segs': segs}))
        if isinstance(op, ast.Mult):
            if is_str(a) and const(b):
                return self.call_builtin_method(C(''), 'join', [('tup', (a,) * max(0, b[2]))], {}) if not const(a) \
                    else C(a[2] * b[2])
            if is_str(b) and const(a):
                return self.binop(op, b, a, inplace)
            if a[0] == 'ref' and self.obj(a).cls == 'list' and const(b):
                return self.alloc(Obj('list', {'segs': self.obj(a).f['segs'] * b[2]}))
        if isinstance(op, ast.Mod) and is_str(a):
            return self.percent_format(a, b)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and a[0] == 'ref' and b[0] == 'ref' and \
                self.obj(a).cls == 'set':
            x, y = self.obj(a).f['items'], self.obj(b).f['items']
            if isinstance(op, ast.BitOr):
                r = x + tuple(i for i in y if i not in x)
            elif isinstance(op, ast.BitAnd):
                r = tuple(i for i in x if i in y)
            elif isinstance(op, ast.Sub):
                r = tuple(i for i in x if i not in y)
            else:
                raise Gap('set operator')
            return self.alloc(Obj('set', {'items': r}))
        if isinstance(op, ast.BitOr) and a[0] == 'ref' and self.obj(a).cls == 'dict' and b[0] == 'ref':
            d = self.alloc(Obj('dict', {'items': self.obj(a).f['items']}))
            for k, v in self.obj(b).f['items']:
                self.setitem(d, k, v)
            return d
        if isinstance(op, ast.BitOr) and (a[0] in ('cls', 'bi') or b[0] in ('cls', 'bi') or NONE in (a, b)):
            return ('bi', 'typing.Union')
        if not (is_num(a) and is_num(b)):
            if a[0] == 'any' and a[1] == 'obj' or b[0] == 'any' and b[1] == 'obj':
                return ('any', 'obj', 0)
            if a[0] == 'ref':
                m = self.class_lookup(self.obj(a).cls, OPNAMES.get(type(op), '?'))
                if m is not None:
                    return self.call(('bm', a, m[1]), [b], {})
            self.throw('TypeError', 'unsupported operand type(s)')
        if a[0] == 'any' or b[0] == 'any':
            k = 'float' if isinstance(op, ast.Div) or 'float' in (kind_of(a), kind_of(b)) else 'int'
            if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
                pb = poly_of(b)
                if pb is not None and pcval(pb) == 0:
                    self.throw('ZeroDivisionError', '')
            return ('any', k, 0)
        if const(a) and const(b) or a[0] == 'enum' or b[0] == 'enum':
            x = a[3] if a[0] == 'enum' else (a[2] if const(a) else None)
            y = b[3] if b[0] == 'enum' else (b[2] if const(b) else None)
            if x is not None and y is not None:
                try:
                    return C(PYOPS[type(op)](x, y))
                except ZeroDivisionError:
                    self.throw('ZeroDivisionError', '')
                except KeyError:
                    raise Gap('operator %s' % type(op).__name__)
        st = self.st
        p, q = st.norm(poly_of(a)), st.norm(poly_of(b))
        kind = 'float' if 'float' in (kind_of(a), kind_of(b)) else 'int'
        if isinstance(op, ast.Add):
            return NUM(padd(p, q), kind)
        if isinstance(op, ast.Sub):
            return NUM(psub(p, q), kind)
        if isinstance(op, ast.Mult):
            return NUM(pmul(p, q), kind)
        c = pcval(q)
        if isinstance(op, ast.Div):
            if c is not None:
                if c == 0:
                    self.throw('ZeroDivisionError', '')
                return NUM(pscale(p, 1.0 / c), 'float')
            if self.decide_eq0(q):
                self.throw('ZeroDivisionError', '')
            return NUM(pmul(p, st.mkatom('inv', q)), 'float')
        if isinstance(op, (ast.Mod, ast.FloorDiv)):
            if c is None:
                raise Gap('modulo by a symbolic number')
            if c == 0:
                self.throw('ZeroDivisionError', '')
            if c < 0 or not isinstance(c, int):
                raise Gap('modulo by a negative number')
            return NUM(st.mkatom('mod' if isinstance(op, ast.Mod) else 'fdiv', p, c), kind)
        if isinstance(op, ast.Pow) and c is not None:
            if c == 0.5:
                return self.call_ext('math.sqrt', [a], {})
            if isinstance(c, int) and 0 <= c <= 4:
                r = pconst(1)
                for _ in range(c):
                    r = pmul(r, p)
                return NUM(r, kind)
        if kind == 'int' and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)):
            return ('any', 'int', 0)
        return NUM(patom(('opn', type(op).__name__, '', (p, q))), 'float')

    # ------------------------------------------------ expressions
    def ev(self, e):
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e)

    def e_unsupported(self, e):
        raise Gap('expression %s at %s' % (type(e).__name__, self.eng.site(e)))

    def e_Constant(self, e):
        return C(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), self.mangle(e.attr))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        self.temps.append(a)
        b = self.ev(e.right)
        a = self.temps.pop()
        return self.binop(e.op, a, b, False)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return C(not self.truth(v))
        if isinstance(e.op, (ast.USub, ast.UAdd)):
            if v[0] == 'any':
                return v
            p = poly_of(v)
            if p is None:
                self.throw('TypeError', 'bad operand type for unary -')
            if isinstance(e.op, ast.UAdd):
                return v
            if const(v):
                return C(-v[2])
            return NUM(pneg(p), kind_of(v))
        if isinstance(e.op, ast.Invert) and const(v):
            return C(~v[2])
        raise Gap('unary operator')

    def e_BoolOp(self, e):
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v

    def e_Compare(self, e):
        a = self.ev(e.left)
        for op, r in zip(e.ops, e.comparators):
            self.temps.append(a)
            b = self.ev(r)
            self.temps.pop()
            if not self.compare(op, a, b):
                return FALSE
            a = b
        return TRUE

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return ('tup', tuple(self.elts(e.elts)))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.sequence(self.ev(x.value)))
            else:
                out.append(self.ev(x))
            self.temps.append(out[-1]) if out else None
        for _ in range(min(len(es), len(self.temps))):
            pass
        # drop the temporaries again
        k = sum(1 for _ in es)
        if out:
            del self.temps[max(0, len(self.temps) - k):]
        return out

    def e_List(self, e):
        return self.new_list(self.elts(e.elts))

    def e_Set(self, e):
        items = []
        for v in self.elts(e.elts):
            if v not in items:
                items.append(v)
        return self.alloc(Obj('set', {'items': tuple(items)}))

    def e_Dict(self, e):
        d = self.alloc(Obj('dict', {'items': ()}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.obj(self.ev(v)).f['items']:
                    self.setitem(d, kk, vv)
            else:
                self.setitem(d, self.ev(k), self.ev(v))
        return d

    def e_Subscript(self, e):
        o = self.ev(e.value)
        self.temps.append(o)
        i = self.ev(e.slice)
        self.temps.pop()
        return self.getitem(o, i)

    def e_Slice(self, e):
        def b(x):
            if x is None:
                return None
            v = self.ev(x)
            if v == NONE:
                return None
            if v[0] == 'proj':
                v = self.split_proj(v)
            p = poly_of(v)
            if p is None:
                if v[0] == 'any':
                    raise Gap('slice with an unknown bound')
                self.throw('TypeError', 'slice indices must be integers')
            return p
        return ('slice', b(e.lower), b(e.upper), b(e.step))

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(('lit', v.value))
            else:
                x = self.ev(v.value)
                spec = ''
                if v.format_spec is not None:
                    sv = self.ev(v.format_spec)
                    if not const(sv):
                        raise Gap('symbolic format spec')
                    spec = sv[2]
                if v.conversion == 115:
                    x = self.to_str(x)
                elif v.conversion == 114:
                    x = self.to_repr(x)
                r = self.format_value(x, spec)
                if r[0] == 'any':
                    out.append(('fnp', 'any', (), dfa.ALL))
                else:
                    out.extend(parts_of(r))
        return STR(out)

    def e_Lambda(self, e):
        return self.make_fn(e, '<lambda>')

    def e_Starred(self, e):
        raise Gap('starred expression')

    # comprehensions: a synthetic function with an explicit loop
    def comp_fn(self, e, tail, mode):
        key = ('comp', id(e), mode)
        node = COMP.get(key)
        if node is None:
            body = tail
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            pre, post = [], []
            if mode == 'list':
                pre = [ast.Assign([ast.Name('%r', ast.Store())], ast.List([], ast.Load()))]
                post = [ast.Return(ast.Name('%r', ast.Load()))]
            elif mode == 'any':
                post = [ast.Return(ast.Constant(False))]
            elif mode == 'all':
                post = [ast.Return(ast.Constant(True))]
            elif mode == 'next':
                post = [ast.Return(ast.Name('%default', ast.Load()))]
            elif mode == 'next0':
                post = [ast.Raise(ast.Name('StopIteration', ast.Load()), None)]
            bound = set()
            for g in e.generators:
                bound |= loads(g.target)
            free = sorted((loads(e) - bound))
            node = ast.FunctionDef('<%s>' % type(e).__name__, None, pre + body + post, [])
            node.body = pre + body + post
            for n in ast.walk(ast.Module(node.body, [])):
                if not hasattr(n, '_file'):
                    n._file = getattr(e, '_file', '?')
                if isinstance(n, (ast.stmt, ast.expr)) and not hasattr(n, 'lineno'):
                    n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = e.lineno, e.col_offset, e.lineno, 0
            node.lineno, node.col_offset = e.lineno, e.col_offset
            node._free = free
            COMP[key] = node
            COMPKEEP.append(e)
        fr = self.fr
        bind = []
        for n in node._free:
            f = fr
            while f is not None:
                if n in f.loc:
                    bind.append((n, f.loc[n]))
                    break
                f = f.parent
        if fr.fn is None and not self.static:
            pass
        node.args = ast.arguments([], [ast.arg(n) for n, _ in bind], None, [], [], None, [])
        fid = '%s:%s:%d:%d:%s' % (fr.module, node.name, e.lineno, e.col_offset, mode)
        f = self.eng.fns.get(fid)
        if f is None:
            f = FnInfo(fid, node.name, node, fr.module, fr.fn.cls if fr.fn else None, 'static', None)
            self.eng.fns[fid] = f
        return f, dict(bind)

    def run_comp(self, e, tail, mode, extra=None):
        f, loc = self.comp_fn(e, tail, mode)
        if extra:
            loc.update(extra)
        old = f.node.args
        fr = Frame(f, loc, None, f.module)
        f.live = None
        f.node.args = ast.arguments([], [ast.arg(n) for n in loc], None, [], [], None, [])
        self.frames.append(fr)
        try:
            self.block(f.node.body)
            r = NONE
        except ReturnEx as x:
            r = x.v
        self.frames.pop()
        return r

    def e_ListComp(self, e):
        tail = COMP.get(('tail', id(e)))
        if tail is None:
            tail = [ast.Expr(ast.Call(ast.Attribute(ast.Name('%r', ast.Load()), 'append', ast.Load()), [e.elt], []))]
            COMP[('tail', id(e))] = tail
            COMPKEEP.append(e)
        return self.run_comp(e, tail, 'list')

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        l = self.e_ListComp(e)
        return self.call_builtin('set', [l], {})

    def e_DictComp(self, e):
        tail = COMP.get(('tail', id(e)))
        if tail is None:
            tail = [ast.Expr(ast.Call(ast.Attribute(ast.Name('%r', ast.Load()), 'append', ast.Load()),
                                      [ast.Tuple([e.key, e.value], ast.Load())], []))]
            COMP[('tail', id(e))] = tail
            COMPKEEP.append(e)
        l = self.run_comp(e, tail, 'list')
        d = self.alloc(Obj('dict', {'items': ()}))
        for t in self.list_items(l):
            self.setitem(d, t[1][0], t[1][1])
        return d

    def e_Call(self, e):
        # consumers of generator expressions that stop early
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all', 'next') and e.args and \
                isinstance(e.args[0], ast.GeneratorExp) and self.lookup(e.func.id) == ('bi', e.func.id):
            g = e.args[0]
            mode = e.func.id
            extra = None
            if mode == 'any':
                tail = [ast.If(g.elt, [ast.Return(ast.Constant(True))], [])]
            elif mode == 'all':
                tail = [ast.If(ast.UnaryOp(ast.Not(), g.elt), [ast.Return(ast.Constant(False))], [])]
            else:
                tail = [ast.Return(g.elt)]
                if len(e.args) > 1:
                    extra = {'%default': self.ev(e.args[1])}
                else:
                    mode = 'next0'
            key = ('tail', id(e))
            tail = COMP.setdefault(key, tail)
            COMPKEEP.append(e)
            return self.run_comp(g, tail, mode, extra)
        f = self.ev(e.func)
        if f == ('bi', 'super') and not e.args:
            fn = self.fr.fn
            return ('super', fn.cls, self.fr.loc[fn.node.args.args[0].arg])
        n0 = len(self.temps)
        self.temps.append(f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.sequence(self.ev(a.value)))
            else:
                args.append(self.ev(a))
            if args:
                self.temps.append(args[-1])
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.obj(self.ev(k.value)).f['items']:
                    kw[kk[2]] = vv
            else:
                kw[k.arg] = self.ev(k.value)
                self.temps.append(kw[k.arg])
        del self.temps[n0:]
        return self.call(f, args, kw)

    # ------------------------------------------------ calls
    def call(self, f, args, kw):
        t = f[0]
        if t == 'fn':
            return self.call_fn(self.eng.fns[f[1]], args, kw)
        if t == 'bm':
            return self.call_fn(self.eng.fns[f[2]], [f[1]] + args, kw)
        if t == 'cls':
            return self.instance(f[1], args, kw)
        if t == 'bi':
            return self.call_builtin(f[1], args, kw)
        if t == 'bbm':
            return self.call_builtin_method(f[1], f[2], args, kw)
        if t == 'proj':
            return self.call(self.split_proj(f), args, kw)
        if t == 'ref':
            o = self.obj(f)
            m = self.class_lookup(o.cls, '__call__')
            if m is not None:
                return self.call(('bm', f, m[1]), args, kw)
            if o.cls == 'ext':
                return self.call_ext_object(f, args, kw)
        if t == 'part':
            return self.call(f[1], list(f[2]) + args, {**dict(f[3]), **kw})
        if f == NONE or const(f):
            self.throw('TypeError', 'object is not callable')
        raise Gap('call of %s' % (f,))

    def instance(self, q, args, kw):
        c = self.eng.classes[q]
        if c.enum:
            x = args[0]
            if x[0] == 'proj':
                x = self.split_proj(x)
            for v in c.attrs.values():
                if v[0] == 'enum' and (v == x or const(x) and v[3] == x[2]):
                    return v
            if const(x):
                self.throw('ValueError', 'not a valid %s' % c.name)
            raise Gap('enum from a symbolic value')
        o = self.alloc(Obj(q))
        init = self.class_lookup(q, '__init__')
        if init is not None:
            self.temps.append(o)
            self.call(('bm', o, init[1]), args, kw)
            self.temps.pop()
        elif self.class_lookup(q, '%dataclass') is not None:
            flds = []
            for x in reversed(self.mro(q)):
                for k in self.eng.classes[x].ann:
                    if k not in flds:
                        flds.append(k)
            vals = dict(zip(flds, args))
            vals.update(kw)
            w = self.wobj(o)
            for k in flds:
                if k in vals:
                    w.f[k] = vals[k]
                else:
                    d = self.class_lookup(q, k)
                    if d is None:
                        self.throw('TypeError', 'missing argument %s' % k)
                    if d[0] == 'bi' and d[1].startswith('dataclasses.field'):
                        raise Gap('dataclass field')
                    w.f[k] = d
            pi = self.class_lookup(q, '__post_init__')
            if pi is not None:
                self.call(('bm', o, pi[1]), [], {})
        elif args or kw:
            if c.exc:
                return ('exc', q, show(args[0]) if args else '')
            self.throw('TypeError', '%s() takes no arguments' % c.name)
        elif c.exc:
            return ('exc', q, '')
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                self.throw('TypeError', '%s() takes %d positional arguments but %d were given'
                           % (f.name, len(names), len(args)))
            loc[a.vararg.arg] = ('tup', tuple(args[len(names):]))
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ('tup', ())
        for n, v in zip(names, args):
            loc[n] = v
        defs = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
        for n in names[len(args):]:
            if n in kw:
                loc[n] = kw.pop(n)
            elif n in defs:
                loc[n] = defs[n]
            else:
                self.throw('TypeError', "%s() missing required argument '%s'" % (f.name, n))
        for x in a.kwonlyargs:
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                loc[x.arg] = f.kwdefaults[x.arg]
            else:
                self.throw('TypeError', "%s() missing keyword argument '%s'" % (f.name, x.arg))
        if kw:
            if a.kwarg is None:
                self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, next(iter(kw))))
            loc[a.kwarg.arg] = self.alloc(Obj('dict', {'items': tuple([(C(k), v) for k, v in kw.items()])}))
        elif a.kwarg is not None:
            loc[a.kwarg.arg] = self.alloc(Obj('dict', {'items': ()}))
        return loc

    def call_fn(self, f, args, kw):
        if f.is_gen:
            raise Gap('generator function %s' % f.qual)
        loc = self.bind(f, args, kw)
        eng = self.eng
        if eng.cfg is not None and not self.static:
            h = eng.cfg.intercept(self, f, loc)
            if h is not None:
                return h[0]
        if eng.summarised is not None and f.id in eng.summarised and not self.static and f.closure is None:
            out = self.summary('fn', f.node, f, loc)
            return out[1]
        if len(self.frames) > 60:
            raise Gap('inline call depth at %s' % f.qual)
        if not self.static:
            eng.analysed_fns.add(f.qual)
        fr = Frame(f, loc, f.closure, f.module)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body)
            else:
                self.block(f.node.body)
                r = NONE
        except ReturnEx as x:
            r = x.v
        except PyRaise:
            self.frames.pop()
            raise
        self.frames.pop()
        return r

    def isinstance(self, v, c):
        if c[0] == 'tup':
            return any(self.isinstance(v, x) for x in c[1])
        if v[0] == 'proj':
            v = self.split_proj(v)
        if c[0] == 'cls':
            if v[0] == 'ref':
                return c[1] in self.mro(self.obj(v).cls)
            if v[0] == 'enum':
                return v[1] == c[1]
            if v[0] == 'exc':
                return v[1] == c[1]
            return False
        if c[0] == 'bi':
            n = c[1]
            if n == 'str':
                return is_str(v)
            if n == 'int':
                return kind_of(v) == 'int' or (v[0] == 'c' and v[1] in ('int', 'bool'))
            if n == 'float':
                return kind_of(v) == 'float'
            if n == 'bool':
                return v[0] == 'c' and v[1] == 'bool'
            if n in ('list', 'dict', 'set'):
                return v[0] == 'ref' and self.obj(v).cls == n
            if n == 'tuple':
                return v[0] == 'tup'
            if n == 'object':
                return True
        raise Gap('isinstance %s' % (c,))


# ------------------------------------------------------------------ helpers
COMP = {}
COMPKEEP = []
OPNAMES = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}
PYOPS = {
    ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
    ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y,
    ast.Pow: lambda x, y: x ** y, ast.BitAnd: lambda x, y: x & y, ast.BitOr: lambda x, y: x | y,
    ast.BitXor: lambda x, y: x ^ y, ast.LShift: lambda x, y: x << y, ast.RShift: lambda x, y: x >> y,
}


def _reload(t):
    return t


def is_ground(v):
    if v[0] in ('c', 'enum', 'cls', 'bi', 'fn', 'mod', 'ref'):
        return True
    if v[0] == 'tup':
        return all(is_ground(x) for x in v[1])
    return False


def is_exc_name(n):
    c = getattr(_bi, n, None)
    return isinstance(c, type) and issubclass(c, BaseException)


def assigned_names(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
    return out


def show(v):
    if v[0] == 'c':
        return repr(v[2])
    if v[0] == 'enum':
        return '%s.%s' % (v[1].split('.')[-1], v[2])
    return v[0]


_q = {}


def quotient(L, pre, post):
    """{ w : pre + w + post in L }"""
    if not pre and not post:
        return L
    k = (L.id, pre, post)
    r = _q.get(k)
    if r is None:
        q = 0
        for ch in pre:
            q = L.trans[q][dfa.symclass(ch)]
        acc = []
        for s in range(len(L.acc)):
            t = s
            for ch in post:
                t = L.trans[t][dfa.symclass(ch)]
            acc.append(L.acc[t])
        # renumber so that q is the start
        order = [q] + [s for s in range(len(L.acc)) if s != q]
        num = {s: i for i, s in enumerate(order)}
        rows = [[num[t] for t in L.trans[s]] for s in order]
        r = _q[k] = dfa._make(rows, [acc[s] for s in order])
    return r


_cl = {}


def contains_lang(s):
    if s not in _cl:
        n = dfa.concat(dfa.concat(dfa.ALL, dfa.lit(s)), dfa.ALL)
        _cl[s] = n
    return _cl[s]


_lex = {}


def lexlang(s, op):
    """words w with w <op> s lexicographically (ASCII order; abstract classes sort above ASCII)"""
    k = (s, op)
    if k in _lex:
        return _lex[k]
    n = len(s)
    # states 0..n: equal so far; n+1: less; n+2: greater
    rows = []
    for i in range(n):
        c = dfa.IDX[s[i]]
        rows.append([n + 1 if x < c else (i + 1 if x == c else n + 2) for x in range(dfa.N)])
    rows.append([n + 2] * dfa.N)
    rows.append([n + 1] * dfa.N)
    rows.append([n + 2] * dfa.N)
    lt, gt = {'Lt': (True, False), 'LtE': (True, False), 'Gt': (False, True), 'GtE': (False, True)}[op]
    acc = [lt] * n + [op in ('LtE', 'GtE'), lt, gt]
    r = _lex[k] = dfa._make(rows, acc)
    return r


from models import BUILTIN_NAMES, EXT_MODULES, EXT_OBJECTS, ext_attr, ModelMixin  # noqa: E402


class _I(Interp, ModelMixin):
    pass


for _n in dir(ModelMixin):
    if not _n.startswith('__'):
        setattr(Interp, _n, getattr(ModelMixin, _n))
