"""Canonical abstract entry and exit states of summarised functions and loops.

At the boundary of a summarised function (or loop) the state reachable from its arguments is abstracted
(tokens already consumed are forgotten, folded list elements are replaced by generic ones, positions are
expressed relative to the cursor) and then renumbered, so that equal situations share one summary.
"""
import ast
import dfa
from terms import *
from state import State, Obj, PathEnd, tm, segs_len

SPECIAL = ('list', 'dict', 'set', 'iter', 'ext')


class Back:
    __slots__ = ('names', 'addr', 'segs', 'measures', 'strcur', 'strleft')

    def __init__(self):
        self.names = {}
        self.addr = {}
        self.segs = {}
        self.measures = {}
        self.strcur = None
        self.strleft = None     # part of the text a loop still has to look at


def map_obj(o, fv, fp):
    out = {}
    for k, x in o.f.items():
        if k == 'segs':
            out[k] = tuple([('e', fv(s[1])) if s[0] == 'e' else ('*', fp(s[1]), s[2]) for s in x])
        elif k == 'items' and o.cls == 'dict':
            out[k] = tuple([(fv(a), fv(b)) for a, b in x])
        elif k == 'items' and o.cls == 'set':
            out[k] = tuple([fv(a) for a in x])
        else:
            out[k] = fv(x)
    return out


def obj_refs(o, out):
    for k in sorted(o.f):
        x = o.f[k]
        if k == 'segs':
            for s in x:
                if s[0] == 'e':
                    refs_in(s[1], out)
        elif k == 'items' and o.cls == 'dict':
            for a, b in x:
                refs_in(a, out)
                refs_in(b, out)
        elif k == 'items' and o.cls == 'set':
            for a in x:
                refs_in(a, out)
        else:
            refs_in(x, out)


def isint(v):
    return (v[0] == 'num' and v[2] == 'int') or (v[0] == 'c' and v[1] == 'int')


class Abs:
    def __init__(self, it, roots, pins, mode, loopvars=()):
        self.it, self.st, self.eng, self.cfg, self.mode = it, it.st, it.eng, it.eng.cfg, mode
        self.roots = dict(roots)
        self.ghost = dict(it.st.ghost)
        self.ob = {}
        self.nn = {}
        self.bk = {}
        self.subst = {}
        self.segback = {}
        self.facts = set()
        self.pfacts = {}
        self.loopvars = loopvars
        self.loop = None
        self.strcur = self.strleft = None
        self.forget = None      # a position of which no facts are kept
        self.final = False      # an exit after which the input is used up
        self.measures = {}
        self.static = sorted(a for a in it.st.heap if a < 0)
        self.pin_addr = {}
        for v in pins:
            refs_in(v, self.pin_addr)
        self.resolve = Ren(self.st.resolver(), lambda a: a)

    # ---------------------------------------------- access
    def o(self, a):
        x = self.ob.get(a)
        if x is None:
            src = self.st.heap.get(a)
            if src is None:
                return None
            x = self.ob[a] = src.copy()
            x.f = map_obj(x, self.it.normval, self.st.norm)
        return x

    def new_iv(self, lo, back, hi=None):
        n = self.st.fresh()
        self.nn[n] = ('iv', lo, hi)
        self.st.names[n] = self.nn[n]
        self.bk[n] = ('P', back) if back is not None else None
        return n

    def new_fv(self, back):
        n = self.st.fresh()
        self.nn[n] = ('fv', None, None)
        self.st.names[n] = self.nn[n]
        self.bk[n] = ('P', back) if back is not None else None
        return n

    def new_sym(self, alts, back):
        n = self.st.fresh()
        self.nn[n] = ('sym', tuple(alts))
        self.st.names[n] = self.nn[n]
        self.bk[n] = back
        return n

    def reach(self):
        seen = {}
        todo = []

        def push(v):
            r = {}
            refs_in(v, r)
            for a in r:
                if a not in seen:
                    seen[a] = True
                    todo.append(a)
        for k in self.roots:
            push(self.roots[k])
        for k in sorted(self.ghost):
            push(self.ghost[k])
        for a in self.static:
            push(('ref', a))
        out = []
        while todo:
            a = todo.pop(0)
            o = self.o(a)
            if o is None:
                continue
            out.append(a)
            r = {}
            obj_refs(o, r)
            for b in r:
                if b not in seen:
                    seen[b] = True
                    todo.append(b)
        return out

    def direct_refs(self, excl):
        """addresses referenced by anything except the given lists"""
        r = {}
        for v in self.roots.values():
            refs_in(v, r)
        for v in self.ghost.values():
            refs_in(v, r)
        for a in self.reach():
            if a not in excl:
                obj_refs(self.o(a), r)
        r.update(self.pin_addr)
        return r

    def const_diff(self, p, q):
        return pcval(self.st.norm(psub(p, q)))

    # ---------------------------------------------- consumed-prefix abstraction of a list with cursors
    def cursors(self, addr):
        """int locations that are positions in the list: [(get, set, poly)]"""
        out = []
        for a in self.reach():
            o = self.o(a)
            if o.cls == 'list':
                continue
            if not any(x == ('ref', addr) for k, x in o.f.items() if k not in ('segs', 'items')):
                continue
            for k in sorted(o.f):
                x = o.f[k]
                if k in ('seg', 'count', 'segs', 'items') and o.cls == 'iter':
                    continue
                if k not in ('segs', 'items') and isint(x):
                    out.append((('o', a, k), poly_of(x)))
        return out

    def put(self, loc, v):
        if loc[0] == 'o':
            self.ob[loc[1]].f[loc[2]] = v
        elif loc[0] == 'g':
            self.ghost[loc[1]] = v
        else:
            self.roots[loc[1]] = v

    def consume(self, addr, keep=0):
        st = self.st
        o = self.o(addr)
        segs = [s for s in o.f['segs'] if s[0] == 'e' or pcval(st.norm(s[1])) != 0]
        if all(s[0] == 'e' for s in segs) and len(segs) <= 0:
            pass
        offs = []
        p = P0
        for s in segs:
            offs.append(p)
            p = st.norm(padd(p, pconst(1) if s[0] == 'e' else s[1]))
        n = p
        has_star = bool(segs) and segs[-1][0] == '*' and segs[-1][2] is not None
        curs = self.cursors(addr)
        soft = []
        for k in sorted(self.ghost):
            if k.startswith('ptr') and self.cfg is not None and self.cfg.pointer_list(self, k) == addr:
                curs.append((('g', k), poly_of(self.ghost[k])))
        for k in self.loopvars:
            v = self.roots.get(k)
            if v is not None and isint(v):
                soft.append((('r', k), poly_of(v)))
        live = []
        for loc, c in curs + soft:
            if not has_star and st.prove_ge0(psub(c, n)):
                continue
            if loc[0] == 'r' and not any(self.const_diff(c, f) is not None for f in offs):
                continue
            live.append((c, 1 - keep if loc[0] == 'o' and self.o(loc[1]).cls != 'iter' else 0))
        held = self.direct_refs((addr,))
        # j0: first element that some cursor still needs; everything before is forgotten unless it is referenced
        j0 = len(segs)
        for j, s in enumerate(segs):
            if s[0] == '*' and s[2] is not None and j == len(segs) - 1:
                j0 = j
                break
            ok = False
            for c, k in live:
                d = self.const_diff(offs[j], c)
                if d is None:
                    ok = ok or not st.prove_ge0(paddc(psub(c, offs[j]), k - 1))
                elif d >= k:
                    ok = True
            if ok and not (s[0] == '*' and s[2] is None):
                j0 = j
                break
        S = offs[j0] if j0 < len(segs) else n
        base = P0
        new = []
        run = []

        def close():
            nonlocal base
            if not run:
                return
            cnt = st.norm(segs_len(run))
            lo = 1 if st.prove_ge0(paddc(cnt, -1)) else 0
            P = self.new_iv(lo, cnt)
            self.segback.setdefault(P, tuple(run))
            self.invert(cnt, patom(('iv', P)))
            new.append(('*', patom(('iv', P)), None))
            base = padd(base, patom(('iv', P)))
            run.clear()
        for s in segs[:j0]:
            if s[0] == 'e' and s[1][0] == 'ref' and s[1][1] in held:
                close()
                new.append(s)
                base = paddc(base, 1)
                continue
            if self.cfg is not None:
                self.cfg.on_drop(self, addr, s)
            run.append(s)
        close()
        nn = base
        for s in segs[j0:]:
            if s[0] == 'e':
                new.append(s)
                nn = paddc(nn, 1)
            else:
                lo = 1 if st.prove_ge0(paddc(s[1], -1)) else 0
                F = self.new_iv(lo, s[1])
                self.segback.setdefault(F, (s,))
                new.append(('*', patom(('iv', F)), s[2]))
                nn = padd(nn, patom(('iv', F)))
                self.invert(s[1], patom(('iv', F)))
        o.f['segs'] = tuple(new)
        if self.mode == 'entry' and not (curs or soft):
            return
        for loc, c in curs + soft:
            if loc[0] != 'r':
                # remaining amount of input seen from this cursor: a termination measure
                self.measures[loc] = psub(n, c)
            if not has_star and loc[0] == 'o' and st.prove_ge0(psub(c, n)):
                X = self.new_iv(0, c)
                self.facts.add(psub(patom(('iv', X)), nn))
                self.put(loc, NUM(patom(('iv', X)), 'int'))
                continue
            if not has_star and loc[0] == 'o' and self.const_diff(c, n) is None and \
                    st.prove_ge0(paddc(psub(c, n), 1)):
                X = self.new_iv(0, c)
                self.facts.add(paddc(psub(patom(('iv', X)), nn), 1))
                self.put(loc, NUM(patom(('iv', X)), 'int'))
                continue
            d = self.const_diff(c, S)
            if d is not None and (loc[0] != 'r' or -1 <= d <= len(segs) - j0 + 1):
                self.put(loc, NUM(paddc(base, d), 'int'))
                continue
            d = self.const_diff(c, n)
            if d is not None:
                self.put(loc, NUM(paddc(nn, d), 'int'))

    def invert(self, old, new):
        """old = NAME + k: rewrite NAME as new - k"""
        st = self.st
        old = st.norm(old)
        ats = patoms(old)
        if len(ats) == 1 and ats[0][0] == 'iv' and len(old) <= 2 and dict(old).get((ats[0],)) == 1:
            self.subst.setdefault(ats[0][1], ('P', paddc(new, -dict(old).get((), 0))))

    # ---------------------------------------------- positions in an unbounded string
    def whole(self, v):
        """the unbounded symbol of which v is the whole text"""
        if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'sl' and pcval(v[1][0][2]) == 0 and \
                v[1][0][3] == patom(('len', v[1][0][1])):
            return v[1][0][1]
        return None

    def find_string_cursor(self):
        """(position, symbol, place) of an iterator or loop counter running over an unbounded string"""
        st = self.st
        found = None
        for a in self.reach():
            o = self.o(a)
            if o.cls != 'iter':
                continue
            k = o.f['kind'][2]
            if k == 'str' and isint(o.f['pos']):
                src = self.whole(o.f['src'])
                if src is not None:
                    found = (poly_of(o.f['pos']), src, ('o', a, 'pos'))
            elif k == 'range' and isint(o.f['pos']) and isint(o.f['stop']) and o.f['step'] == C(1):
                q = st.norm(poly_of(o.f['stop']))
                for t in patoms(q):
                    if t[0] == 'len' and q == patom(t):
                        found = found or (poly_of(o.f['pos']), t[1], ('o', a, 'pos'))
        if found is not None or self.loop is None or not isinstance(self.loop, ast.While):
            return found
        srcs = {}
        vals = list(self.roots.values())
        for a in self.reach():
            vals.extend(x for k, x in self.o(a).f.items() if k not in ('segs', 'items'))
        for v in vals:
            n = self.whole(v)
            if n is not None:
                srcs[n] = 1
            elif v[0] == 'num' and v[2] == 'int':
                for t in patoms(v[1]):
                    if t[0] == 'len' and v[1] == patom(t):
                        srcs[t[1]] = 1
        if len(srcs) != 1:
            return None
        src = next(iter(srcs))
        L = patom(('len', src))
        inc = [n.target.id for b in self.loop.body for n in ast.walk(b)
               if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)]
        names = [n.id for n in ast.walk(self.loop.test) if isinstance(n, ast.Name)]
        for k in names + inc + sorted(self.loopvars):
            if k in self.loopvars and k in self.roots and isint(self.roots[k]):
                if st.prove_ge0(psub(L, poly_of(self.roots[k]))):
                    return (poly_of(self.roots[k]), src, ('r', k))
        return None

    def string_cursors(self):
        """iterators (or loop counters) over an unbounded symbolic string"""
        st = self.st
        f = self.find_string_cursor()
        if f is None:
            return
        cur, src, cloc = f
        cur = st.norm(cur)
        L = patom(('len', src))
        P = self.new_iv(0, cur)
        self.strcur = (P, src)
        base = patom(('iv', P))
        self.strleft = psub(L, cur)
        self.put(cloc, NUM(base, 'int'))
        self.facts.add(psub(L, base))
        widths = {}

        posvars = position_vars(self.loop) if self.loop is not None else ()

        def rel(p, exact, force=False):
            """position p relative to the cursor"""
            d = psub(st.norm(p), cur)
            c = pcval(d)
            if c is not None and exact and 0 <= c <= 2:
                return paddc(base, c)
            if c is not None and c == 0:
                return base
            q = pneg(d)
            if not force and pcval(st.norm(p)) is not None and pcval(cur) is None:
                return None
            if st.prove_ge0(paddc(q, -1)):
                key = q
                if key not in widths:
                    widths[key] = self.new_iv(1, q)
                    # the run begins inside the string
                    self.facts.add(psub(base, patom(('iv', widths[key]))))
                return psub(base, patom(('iv', widths[key])))
            return None

        def fixpart(q):
            if q[0] == 'sl' and q[1] == src and not (pcval(q[2]) == 0 and q[3] == L):
                lang = self.it.partlang(q)
                lo, hi = rel(q[2], False), rel(q[3], False)
                if lo is None or hi is None:
                    n = self.new_sym(((dfa.NONEMPTY if not lang.accepts('') else dfa.ALL, ()),), ('S', ('str', (q,))))
                    return full(n)[1]
                nq = ('sl', src, lo, hi)
                self.pfacts[nq] = runlang(lang)
                return (nq,)
            if q[0] == 'map':
                return tuple([('map', x, q[2]) for x in fixpart(q[1])])
            return (q,)

        def fix(v, exact=False):
            if v[0] == 'str':
                out = []
                for q in v[1]:
                    out.extend(fixpart(q))
                return STR(out)
            if v[0] == 'num' and v[2] == 'int':
                r = rel(v[1], True)
                return NUM(r, 'int') if r is not None else v
            if v[0] == 'tup':
                return ('tup', tuple([fix(x) for x in v[1]]))
            return v
        self.fixrun = fix
        for k in list(self.roots):
            v = self.roots[k]
            if cloc == ('r', k):
                continue
            if k in posvars and v[0] == 'c' and v[1] == 'int':
                r = rel(pconst(v[2]), True, True)
                if r is not None:
                    self.roots[k] = NUM(r, 'int')
                    continue
            self.roots[k] = fix(v)
        for k in list(self.ghost):
            v = self.ghost[k]
            if k.startswith('pos') and v[0] == 'c' and v[1] == 'int':
                r = rel(pconst(v[2]), True, True)
                if r is not None:
                    self.ghost[k] = NUM(r, 'int')
                    continue
            self.ghost[k] = fix(v)
        for a in self.reach():
            o = self.ob[a]
            for k in list(o.f):
                if cloc == ('o', a, k):
                    continue
                if k == 'count' and o.cls == 'iter' and const(o.f[k]) and pcval(cur) == o.f[k][2]:
                    o.f[k] = NUM(base, 'int')
                    continue
                if k not in ('segs', 'items'):
                    v = o.f[k]
                    if v[0] == 'str' and v == full(src):
                        continue
                    o.f[k] = fix(v)
                elif k == 'segs':
                    o.f[k] = tuple([('e', fix(s[1])) if s[0] == 'e' else s for s in o.f[k]])

    def string_exit(self):
        """after a loop over an unbounded string: positions are expressed relative to the end of the string"""
        st = self.st
        u = self.it.unit
        if u is None or u.kind != 'loop':
            return
        if u.strcur is None:
            return
        P, src = ('iv', u.strcur[0]), u.strcur[1]
        L = patom(('len', src))
        widths = {}

        def pos(p):
            p = st.norm(p)
            if P not in patoms(p) and ('len', src) not in patoms(p):
                return p
            d = st.norm(psub(L, p))
            if pcval(d) == 0 or st.prove_ge0(d) and st.prove_ge0(pneg(d)):
                return L
            if st.prove_ge0(paddc(d, -1)):
                if d not in widths:
                    widths[d] = self.new_iv(1, d)
                    self.facts.add(psub(L, patom(('iv', widths[d]))))
                return psub(L, patom(('iv', widths[d])))
            return p

        def fix(v):
            if v[0] == 'str':
                return STR([('sl', q[1], pos(q[2]), pos(q[3])) if q[0] == 'sl' and q[1] == src else q for q in v[1]])
            if v[0] == 'num' and v[2] == 'int':
                return NUM(pos(v[1]), 'int')
            if v[0] == 'tup':
                return ('tup', tuple([fix(x) for x in v[1]]))
            return v
        for k in list(self.roots):
            self.roots[k] = fix(self.roots[k])
        for k in list(self.ghost):
            self.ghost[k] = fix(self.ghost[k])
        for a in self.reach():
            o = self.ob[a]
            for k in list(o.f):
                if k == 'segs':
                    o.f[k] = tuple([('e', fix(s[1])) if s[0] == 'e' else s for s in o.f[k]])
                elif k != 'items':
                    o.f[k] = fix(o.f[k])
        self.forget = P[1]

    # ---------------------------------------------- generic lists
    def shrink_plain(self):
        for a in self.reach():
            o = self.ob[a]
            if o.cls == 'list' and o.label is None and len(o.f['segs']) > 8:
                n = self.new_iv(1, segs_len(o.f['segs']))
                o.f['segs'] = (('*', patom(('iv', n)), None),)

    def run(self):
        for a in self.reach():
            o = self.ob[a]
            if o.cls == 'list' and o.label == 'tokens' and (self.cfg is None or self.cfg.cursor_list):
                self.consume(a, self.cfg.keep if self.cfg is not None else 0)
        self.string_cursors()
        if self.mode == 'exit':
            self.string_exit()
        if self.cfg is not None:
            self.cfg.fold(self)
        self.shrink_plain()


_rl = {}


def runlang(L):
    """widening of the language of a growing run: all words over its alphabet"""
    r = _rl.get(L.id)
    if r is None:
        a = L.alphabet()
        r = dfa.allchars(lambda c: c in a, L.accepts(''))
        _rl[L.id] = r
    return r


class Renumber:
    """canonical renumbering; names below keep0 / addresses below keep0 stay (exit states)"""

    def __init__(self, A, first=1, keep=None):
        self.A = A
        self.next = first
        self.names = {}
        self.infos = []
        self.addr = {}
        self.objs = []
        self.keep = keep
        self.ren = Ren(self.nm, self.am)
        self.todo = []

    def fresh(self):
        n = self.next
        self.next += 1
        return n

    def nm(self, n):
        r = self.names.get(n)
        if r is not None:
            return r
        A = self.A
        if self.keep is not None and n < self.keep:
            self.names[n] = n
            return n
        if n in A.subst:
            return ('P', self.ren.p(A.subst[n][1]))
        info = A.nn.get(n) or A.st.names[n]
        if info[0] == 'def':
            return ('P', self.ren.p(A.st.norm(info[1])))
        m = self.fresh()
        self.names[n] = m
        self.infos.append((m, info, n))
        return m

    def am(self, a):
        r = self.addr.get(a)
        if r is None:
            if a < 0 or (self.keep is not None and a < self.keep):
                r = a
            else:
                r = self.fresh()
            self.addr[a] = r
            self.todo.append(a)
        return r

    def drain(self):
        while self.todo:
            a = self.todo.pop(0)
            o = self.A.o(a)
            if o is None:
                continue       # import-time object
            f = map_obj(o, self.ren.v, self.ren.p)
            self.objs.append((self.addr[a], o, f, a))


def objkey(cls, label, f):
    return (cls, label, tuple([(k, f[k]) for k in sorted(f)]))


def loop_assigned(node):
    out = set()
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


def position_vars(node):
    """variables that the loop sets to something other than a constant"""
    out = set()
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
                for t in n.targets:
                    for m in ast.walk(t):
                        if isinstance(m, ast.Name):
                            out.add(m.id)
    return out


def surviving_facts(A, R, facts):
    out = set()
    for f in facts:
        d = {}
        from terms import _pnames
        _pnames(f, d)
        ok = A.forget not in d
        for n in d:
            if n in R.names or n in A.subst or (R.keep is not None and n < R.keep):
                continue
            i = A.st.names.get(n)
            if i is not None and i[0] == 'def':
                continue
            ok = False
        if ok:
            try:
                # generated facts speak about canonical counts: keep them general
                q = R.ren.p(f if f in A.facts else A.st.norm(f))
            except Gap:
                continue
            if pcval(q) is None:
                out.add(q)
    return out


def loop_cursor(it, env):
    """(position, symbol) of the loop over a text that is about to be summarised"""
    s = it.sync_loop
    if s is None:
        return None
    A = Abs(it, env, (), 'entry', loop_assigned(s))
    A.loop = s
    return A.find_string_cursor()


def make_entry(it, kind, node, fn, env, held):
    eng = it.eng
    cfg = eng.cfg
    if cfg is not None:
        it.sync_loop = node if kind == 'loop' else None
        cfg.sync(it, env, held)
    lv = loop_assigned(node) if kind == 'loop' else ()
    A = Abs(it, env, held, 'entry', lv)
    A.loop = node if kind == 'loop' else None
    A.run()
    R = Renumber(A)
    cenv = {k: R.ren.v(A.roots[k]) for k in A.roots}
    ghost = {}
    for k in sorted(A.ghost):
        ghost[k] = R.ren.v(A.ghost[k])
    for a in A.static:
        R.am(a)
    R.drain()
    pins = tuple(sorted(R.addr[a] for a in A.pin_addr if a in R.addr and a >= 0))
    facts = surviving_facts(A, R, set(it.st.facts) | A.facts)
    pf = {}
    for q, L in A.pfacts.items():
        d = {}
        names_in(q, d)
        if all(n in R.names for n in d):
            pf[R.ren.part(q)[0]] = L
    clsattr = {k: R.ren.v(v) for k, v in it.st.clsattr.items()}
    R.drain()
    objs = sorted(R.objs, key=lambda t: t[0])
    key = (kind, fn.id if fn is not None else None, node.lineno, node.col_offset,
           tuple(sorted(cenv.items())),
           tuple([(n,) + objkey(o.cls, o.label, f) for n, o, f, a in objs]),
           tuple([(m, info) for m, info, n in R.infos]),
           frozenset(facts), frozenset(pf.items()), tuple(sorted(ghost.items())), pins,
           tuple(sorted(clsattr.items(), key=akey)))
    st = State()
    for m, info, n in R.infos:
        st.names[m] = info
    for n, o, f, a in objs:
        x = Obj(o.cls, f, o.label)
        x.prov = dict(o.prov)
        st.heap[n] = x
    st.facts = facts
    st.pfacts = pf
    st.ghost = ghost
    st.clsattr = clsattr
    st.next = max(1000, R.next)
    back = Back()
    for m, info, n in R.infos:
        if n in A.nn:
            back.names[m] = A.bk[n]
        else:
            back.names[m] = ('N', n)
    for a, m in R.addr.items():
        back.addr[m] = a
    if A.strcur is not None and all(n in R.names for n in A.strcur):
        back.strcur = (R.names[A.strcur[0]], R.names[A.strcur[1]])
    back.strleft = A.strleft
    for n, segs in A.segback.items():
        if n in R.names:
            back.segs[R.names[n]] = segs
    for loc, p in A.measures.items():
        if loc[0] == 'o':
            a = R.addr.get(loc[1])
            back.measures[('o', a, loc[2])] = p
    return key, st, cenv, tuple([('ref', p) for p in pins]), back, ()


class Exit:
    __slots__ = ('out', 'objs', 'names', 'refine', 'facts', 'ghost', 'clsattr', 'n0')


def count_names(u):
    """entry names that count elements of unbounded lists"""
    c = getattr(u, '_counts', None)
    if c is None:
        c = set()
        for o in u.entry.heap.values():
            if o.cls == 'list':
                for s in o.f['segs']:
                    if s[0] == '*':
                        for a in patoms(s[1]):
                            if a[0] == 'iv':
                                c.add(a[1])
        u._counts = c
    return c


def make_exit(it, u, out):
    st = it.st
    cfg = it.eng.cfg
    if cfg is not None:
        cfg.at_exit(it, u, out)
    # whatever the callers still need is pinned
    roots = {}
    if out[0] == 'ret':
        roots['r'] = out[1]
    elif out[0] == 'env':
        for k, v in out[2].items():
            roots['v:' + k] = v
    # lengths of the entry lists expressed in entry names
    lens = {}
    for a, o in u.entry.heap.items():
        if o.cls == 'list' and any(s[0] == '*' for s in o.f['segs']):
            lens[a] = segs_len(o.f['segs'])
    A = Abs(it, roots, u.pins, 'exit')
    A.run()
    # what did not change keeps its (more general) entry expression
    for a, o in A.ob.items():
        e = u.entry.heap.get(a)
        if e is None or e.cls != o.cls or e.cls in SPECIAL:
            continue
        for k, v in e.f.items():
            if k in o.f and o.f[k] != v and v[0] not in ('any',) and it.normval(v) == o.f[k]:
                o.f[k] = v
    # prefer the unresolved entry expression for an unchanged length
    for a, L0 in lens.items():
        o = A.ob.get(a)
        if o is None or A.final:
            continue
        fix_count(A, o, L0)
    R = Renumber(A, u.n0, u.n0)
    ov = None
    if out[0] == 'ret':
        ov = ('ret', R.ren.v(A.roots['r']), None)
    elif out[0] == 'env':
        ov = ('env', None, {k: R.ren.v(A.roots['v:' + k]) for k in sorted(out[2])})
    else:
        ov = out
    ghost = {k: R.ren.v(A.ghost[k]) for k in sorted(A.ghost)}
    for p in u.pins:
        R.ren.v(p)
    for a in A.static:
        R.am(a)
    R.drain()
    facts = surviving_facts(A, R, set(st.facts) | A.facts)
    facts -= u.entry.facts
    clsattr = {k: R.ren.v(v) for k, v in st.clsattr.items()}
    R.drain()
    refine = []
    cn = count_names(u)
    for n, info in u.entry.names.items():
        cur = st.names[n]
        if cur == info or n == A.forget:
            continue
        if info[0] == 'sym' and cur[0] == 'sym' and cfg is not None and cfg.refine_kinds and not A.final:
            left = frozenset([tag for L, tag in cur[1]])
            if left != frozenset([tag for L, tag in info[1]]):
                refine.append((n, ('tags', tuple(sorted(left)))))
        if info[0] != 'iv':
            continue
        if n in cn:
            if A.final:
                continue
            lo, hi = st.bounds(patom(('iv', n)))
            if hi == 0:
                refine.append((n, ('iv', 0, 0)))
            elif lo is not None and lo >= 1 and (info[1] is None or info[1] < 1):
                refine.append((n, ('iv', 1, None)))
        elif cur[0] == 'iv':
            refine.append((n, cur))
        elif cur[0] == 'def':
            q = R.ren.p(st.norm(cur[1]))
            refine.append((n, ('def', q)))
    refine = tuple(sorted(refine))
    objs = sorted(R.objs, key=lambda t: t[0])
    key = (ov[0], ov[1] if ov[0] != 'env' else tuple(sorted(ov[2].items())),
           tuple([(n,) + objkey(o.cls, o.label, f) for n, o, f, a in objs]),
           tuple([(m, info) for m, info, n in R.infos]), refine, frozenset(facts), tuple(sorted(ghost.items())),
           tuple(sorted(clsattr.items(), key=akey)))
    ex = Exit()
    ex.out = ov
    ex.objs = [(n, o.cls, f, o.label, dict(o.prov)) for n, o, f, a in objs]
    ex.names = [(m, info) for m, info, n in R.infos]
    ex.refine = refine
    ex.facts = facts
    ex.ghost = ghost
    ex.clsattr = clsattr
    ex.n0 = u.n0
    return key, ex


def fix_count(A, o, L0):
    """express the length of an abstracted list through the entry names when it provably equals L0"""
    st = A.st
    segs = o.f['segs']
    if not segs or segs[0][0] != '*' or segs[0][2] is not None:
        return
    n = segs[0][1]
    ats = patoms(n)
    if len(ats) != 1 or ats[0][0] != 'iv' or ats[0][1] not in A.nn:
        return
    b = A.bk.get(ats[0][1])
    if b is None:
        return
    rest = P0
    for s in segs[1:]:
        if s[0] != 'e':
            return
        rest = paddc(rest, 1)
    if pcval(st.norm(psub(padd(b[1], rest), L0))) == 0:
        A.subst[ats[0][1]] = ('P', psub(L0, rest))


def apply_exit(it, u, ex, back):
    st = it.st
    nm = {}
    ad = {}

    def fnm(n):
        r = nm.get(n)
        if r is not None:
            return r
        b = back.names.get(n)
        if n < ex.n0 and b is not None:
            if b[0] == 'N':
                i = st.names[b[1]]
                r = b[1]
            else:
                r = b
        elif n < ex.n0:
            raise Gap('summary name without a counterpart')
        else:
            r = st.fresh()
        nm[n] = r
        return r

    def fam(a):
        r = ad.get(a)
        if r is None:
            if a < 0:
                r = a
            elif a < ex.n0:
                r = back.addr[a]
            else:
                r = st.fresh()
            ad[a] = r
        return r
    ren = Ren(fnm, fam)
    if ex.out[0] == 'raise':
        return ex.out
    for m, info in ex.names:
        k = fnm(m)
        if info[0] == 'def':
            st.names[k] = ('def', ren.p(info[1]))
        else:
            st.names[k] = info
    for n, info in ex.refine:
        b = back.names.get(n)
        if b is None:
            continue
        if info[0] == 'tags':
            if b[0] == 'N' and st.names[b[1]][0] == 'sym':
                alts = tuple([x for x in st.names[b[1]][1] if x[1] in info[1]])
                if not alts:
                    raise PathEnd()
                st.names[b[1]] = ('sym', alts)
            continue
        p = patom(('iv', b[1])) if b[0] == 'N' else b[1]
        p = st.norm(p)
        if info[0] == 'iv':
            lo, hi = info[1], info[2]
            plo, phi = st.bounds(p)
            if lo is not None and phi is not None and phi < lo or hi is not None and plo is not None and plo > hi:
                raise PathEnd()
            if lo is not None and hi == lo:
                if not it.assume_eq0(paddc(p, -lo)):
                    raise PathEnd()
            else:
                if lo is not None and not it.assume_ge0(paddc(p, -lo)):
                    raise PathEnd()
                if hi is not None and not it.assume_ge0(paddc(pneg(p), hi)):
                    raise PathEnd()
        else:
            if not it.assume_eq0(psub(p, ren.p(info[1]))):
                raise PathEnd()
    for f in ex.facts:
        try:
            q = st.norm(ren.p(f))
        except Gap:
            continue
        if not it.assume_ge0(q):
            raise PathEnd()
    for n, cls, f, label, prov in ex.objs:
        a = fam(n)
        o = Obj(cls, None, label)
        o.f = map_obj(_O(cls, f), ren.v, lambda p: st.norm(ren.p(p)))
        o.prov = prov
        if 'segs' in f:
            out = []
            for s, t in zip(f['segs'], o.f['segs']):
                if s[0] == '*':
                    ats = patoms(s[1])
                    if s[1] == patom(ats[0]) if ats else False:
                        b = back.segs.get(ats[0][1]) if ats[0][0] == 'iv' else None
                        if b is not None and b[0][0] == '*' and len(b) == 1 and b[0][2] == s[2]:
                            out.extend(b)
                            continue
                out.append(t)
            o.f['segs'] = tuple(out)
        st.heap[a] = o
    st.ghost = {k: ren.v(v) for k, v in ex.ghost.items()}
    for k, v in ex.clsattr.items():
        st.clsattr[k] = ren.v(v)
    if ex.out[0] == 'ret':
        return ('ret', ren.v(ex.out[1]), None)
    return ('env', None, {k: ren.v(v) for k, v in ex.out[2].items()})


class _O:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f
