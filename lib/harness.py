"""Drivers: abstract inputs of the public operations, and the obligations checked along every abstract path."""
import time
import dfa
import spec
from terms import *
from state import State, Obj, PathEnd, tm, segs_len
from interp import Engine, Unit, Interp, PyRaise, scc

MODS = ['Tokenizer.Token', 'Tokenizer.Tokens', 'Tokenizer.Tokenize', 'Utilities.Constants', 'Utilities.Utils',
        'F15_Parser.F15TokenSyntaxDescriptions', 'F15_Parser.ErrorMessageDefinitions',
        'F15_Parser.ExtractedRouteRecord', 'F15_Parser.ExtractedRouteSequence', 'F15_Parser.F15Parse']

ANY = {'str': ('any', 'str', 0), 'int': ('any', 'int', 0), 'float': ('any', 'float', 0), 'bool': ('any', 'bool', 0)}


ONE = C(1)


class Cfg:
    """hooks of the engine with neutral behaviour"""
    debug = False
    cursor_list = True
    keep = 0
    refine_kinds = False   # exits tell which alternatives of a symbol are left
    want = None            # stop at the first violation of these properties

    def stop(self):
        return self.want is not None and any(k[0] in self.want for k in self.viol)

    def __init__(self):
        self.viol = {}
        self.nob = {}          # obligations checked
        self.edges = []

    def report(self, prop, it, msg, site=None, extra=None):
        k = (prop, msg, site or it.here())
        if k not in self.viol:
            self.viol[k] = it.trace() + ([str(extra)] if extra is not None else [])

    def ob(self, name, n=1):
        self.nob[name] = self.nob.get(name, 0) + n

    def sync(self, it, env, held):
        pass

    def fold(self, A):
        pass

    def on_drop(self, A, addr, seg):
        pass

    def pointer_list(self, A, key):
        return None

    def at_exit(self, it, unit, out):
        pass

    def edge(self, it, unit, back):
        pass

    def raised(self, it, exc):
        self.report('C03', it, '%s: %s' % (exc.cls, exc.msg), exc.site)

    def on_write(self, it, ref, name):
        pass

    def intercept(self, it, fn, loc):
        return None


class Model:
    def __init__(self, root, cfg=None):
        self.eng = Engine(root, cfg)
        for m in MODS:
            self.eng.load(m)
        self.eng.build_callgraph()

    def cls(self, mod, name):
        g = self.eng.modules.get(mod)
        if g is None or name not in g:
            raise Gap('public name %s.%s is missing' % (mod, name))
        return g[name]

    def run(self, drv, module='<driver>', deadline=None):
        u = Unit(self.eng, ('driver',), 'driver', module, drv, State(), {}, (), None)
        self.eng.schedule(u, ())
        self.eng.run(deadline)
        return u


class Progress:
    """termination: on every cycle of activations the unread input shrinks"""

    def __init__(self):
        self.steps = {}        # (caller unit, callee unit) -> (status, site)

    RANK = {'less': 0, 'same': 1, 'unknown': 2}

    def remaining(self, st):
        """tokens behind the cursor"""
        if 'T' not in st.ghost or 'O' not in st.ghost or st.ghost['O'][1] not in st.heap:
            return None
        o = st.heap[st.ghost['O'][1]]
        ints = [v for v in o.f.values() if v[0] == 'num' and v[2] == 'int' or v[0] == 'c' and v[1] == 'int']
        if len(ints) != 1 or st.ghost['T'][0] != 'ref' or st.heap[st.ghost['T'][1]].cls != 'list':
            return None
        return st.norm(psub(segs_len(st.heap[st.ghost['T'][1]].f['segs']), poly_of(ints[0])))

    def bounded_for(self, c, u, st, back):
        """the next round of a for loop over something that does not get longer"""
        x = c.env.get('%it')
        if x is None or u.env.get('%it') is None:
            return False

        def size(heap, a):
            o = heap[a]
            k = o.f['kind'][2]
            if k in ('seq', 'range', 'str'):
                return P0
            if k == 'list':
                return segs_len(heap[o.f['src'][1]].f['segs'])
            if k == 'enum':
                return size(heap, o.f['inner'][1])
            return None
        a, b = size(c.entry.heap, x[1]), size(st.heap, back.addr[u.env['%it'][1]])
        return a is not None and b is not None and st.prove_ge0(psub(st.norm(a), st.norm(b)))

    def edge(self, it, u, back):
        c = it.unit
        if c.kind == 'driver':
            return
        st = it.st
        if u.strcur is not None or c.strcur is not None:
            s = 'unknown'
            if u.node is c.node and u.strcur is not None and c.strcur is not None and back.strleft is not None:
                d = psub(psub(patom(('len', c.strcur[1])), patom(('iv', c.strcur[0]))), back.strleft)
                d = st.norm(d)
                ok = st.prove_ge0(paddc(d, -1))
                s = 'less' if ok and st.prove_ge0(back.strleft) else 'same' if st.prove_ge0(d) else 'unknown'
        else:
            a, b = self.remaining(c.entry), self.remaining(st)
            if a is None or b is None:
                s = 'unknown'
            else:
                # compared as max(remaining, 0)
                d = st.norm(psub(a, b))
                if st.prove_ge0(paddc(st.norm(a), -1)) and (st.prove_ge0(paddc(d, -1)) or st.prove_ge0(pneg(b))):
                    s = 'less'
                elif st.prove_ge0(d) or st.prove_ge0(pneg(b)):
                    s = 'same'
                else:
                    s = 'unknown'
                if s != 'less' and u.node is c.node and u.kind == 'loop' and self.bounded_for(c, u, st, back):
                    s = 'less'
        k = (c, u)
        old = self.steps.get(k)
        if old is None or self.RANK[old[0]] < self.RANK[s]:
            self.steps[k] = (s, it.here(), it.trace() + ([] if s != 'unknown' or u.strcur else [repr((a, b, st.facts, st.names, st.heap[st.ghost['T'][1]].f['segs']))[:1500]]))

    def verdict(self):
        """[(message, site, trace)]; cycles on which the input does not shrink"""
        g = {}
        unit = {x.id: x for k in self.steps for x in k}
        self.steps = {(a.id, b.id): v for (a, b), v in self.steps.items()}
        for (a, b) in self.steps:
            g.setdefault(a, []).append(b)
            g.setdefault(b, [])
        comp = {}
        for i, c in enumerate(scc(g)):
            for x in c:
                comp[x] = i
        out = []
        h = {x: [] for x in g}
        self.cyclic = 0
        for (a, b), (s, site, tr) in self.steps.items():
            if comp[a] != comp[b]:
                continue
            self.cyclic += 1
            if s == 'unknown':
                out.append(('the part of the field still to be read may grow on a cycle of calls', site, tr))
            elif s == 'same':
                h[a].append(b)
        for c in scc(h):
            c = set(c)
            if len(c) > 1 or any(x in h[x] for x in c):
                es = sorted((site, unit[a].name, tr) for (a, b), (s, site, tr) in self.steps.items()
                            if a in c and b in c and s == 'same')
                out.append(('a cycle of calls reads no further token: ' + ' -> '.join(sorted({unit[x].name for x in c})[:6]),
                            es[0][0], es[0][2]))
        return out


# ------------------------------------------------------------------ field discovery through the public setters
MARK = {'name': 'set_name', 'rules': 'set_flight_rules', 'base': 'set_base_type', 'sub': 'set_sub_type',
        'speed': 'set_speed', 'speed_si': 'set_speed_si', 'alt': 'set_altitude', 'alt_si': 'set_altitude_si',
        'cruise': 'set_altitude_cruise_to', 'cruise_si': 'set_altitude_cruise_to_si', 'lat': 'set_latitude',
        'lon': 'set_longitude', 'brg': 'set_bearing', 'dist': 'set_distance', 'valid': 'set_lat_long_valid',
        'brk': 'append_break_text', 'err': 'append_error_text', 'stay': 'set_stay_time'}
FLOATS = ('speed_si', 'alt_si', 'cruise_si', 'lat', 'lon', 'brg', 'dist')


class Fields:
    """which attribute of a class stores which public property"""

    def __init__(self, model):
        eng = model.eng
        it = Interp(eng, State(), None, ())
        it.frames = []
        from interp import Frame
        it.frames.append(Frame(None, {}, None, '<driver>'))
        st = it.st
        saved = eng.cfg
        eng.cfg = None
        try:
            Tok = model.cls('Tokenizer.Token', 'Token')
            s = st.new_sym(((dfa.NONEMPTY, ()),))
            a, b = st.new_iv(0), st.new_iv(0)
            A, B = NUM(patom(('iv', a)), 'int'), NUM(patom(('iv', b)), 'int')
            t = it.call(Tok, [full(s), A, B], {})
            f = it.obj(t).f
            self.t = {'text': self.which(f, full(s)), 'start': self.which(f, A), 'end': self.which(f, B)}
            for k, m in (('base', 'set_token_base_type'), ('sub', 'set_token_sub_type')):
                x = full(st.new_sym(((dfa.NONEMPTY, ()),)))
                it.call(it.getattr(t, m), [x], {})
                self.t[k] = self.which(it.obj(t).f, x)
            Rec = model.cls('F15_Parser.ExtractedRouteRecord', 'ExtractedRouteRecord')
            self.reccls = Rec[1]
            self.tokcls = Tok[1]
            x, y, z = [full(st.new_sym(((dfa.NONEMPTY, ()),))) for _ in range(3)]
            r = it.call(Rec, [x, A, B, y, z], {})
            f = it.obj(r).f
            self.r = {'name': self.which(f, x), 'start': self.which(f, A), 'end': self.which(f, B),
                      'base': self.which(f, y), 'sub': self.which(f, z)}
            for k, m in MARK.items():
                before = dict(it.obj(r).f)
                if k in FLOATS:
                    v = NUM(patom(('fv', st.new_fv())), 'float')
                elif k == 'stay':
                    v = full(st.new_sym(((dfa.regex('[0-9]{4}'), ()),)))
                elif k == 'valid':
                    v = TRUE
                else:
                    v = full(st.new_sym(((dfa.NONEMPTY, ()),)))
                it.call(it.getattr(r, m), [v], {})
                ch = [n for n, w in it.obj(r).f.items() if before.get(n) != w]
                if len(ch) != 1:
                    raise Gap('%s changes %d attributes' % (m, len(ch)))
                self.r[k] = ch[0]
            # data attributes with class level defaults
            self.rdef = {}
            for q in reversed(it.mro(self.reccls)):
                for n, v in eng.classes[q].attrs.items():
                    if v[0] not in ('fn', 'bi', 'cls', 'mod') and not n.startswith('__') and not n.startswith('%'):
                        self.rdef[n] = v
        finally:
            eng.cfg = saved

    @staticmethod
    def which(f, v):
        c = [k for k, x in f.items() if x == v]
        if len(c) != 1:
            raise Gap('cannot tell which attribute stores a constructor argument')
        return c[0]

    def get(self, o, k):
        """value of public property k of record object o"""
        n = self.r[k]
        return o.f[n] if n in o.f else self.rdef.get(n)

    def tget(self, o, k):
        return o.f.get(self.t[k], NONE)


def reach_lists(it, ref):
    seen, todo, out = {}, [ref[1]], []
    while todo:
        a = todo.pop(0)
        if a in seen or a not in it.st.heap:
            continue
        seen[a] = True
        o = it.st.heap[a]
        if o.cls == 'list':
            out.append(a)
        r = {}
        from canon import obj_refs
        obj_refs(o, r)
        todo.extend(r)
    return out


def token_template(it, F, Tok, alts):
    sym = it.st.new_sym(alts)
    t = it.call(Tok, [full(sym), NUM(patom(('tf', sym, 's')), 'int'), NUM(patom(('tf', sym, 'e')), 'int')], {})
    o = it.obj(t)
    o.f['#use'] = o.f['#rec'] = C(0)
    ren = Ren(lambda n: -1 if n == sym else n, lambda a: a)
    return tm([(o.cls, tuple(sorted((k, ren.v(v)) for k, v in o.f.items())), tuple(alts), False)])


def kind_alts():
    return tuple((k.lang, (('#k', C(k.i)),)) for k in spec.kinds())


class Parse(Cfg):
    """one parser run on an arbitrary list of tokens; shared parts of the two modes"""

    def start(self, it, M):
        F = self.F
        toks = it.call(M.cls('Tokenizer.Tokens', 'Tokens'), [], {})
        ls = reach_lists(it, toks)
        if len(ls) != 1:
            raise Gap('the token container holds %d lists' % len(ls))
        n = it.st.new_iv(0)
        o = it.st.heap[ls[0]]
        o.f['segs'] = (('*', patom(('iv', n)), token_template(it, F, M.cls('Tokenizer.Token', 'Token'), kind_alts())),)
        o.label = 'tokens'
        ers = it.call(M.cls('F15_Parser.ExtractedRouteSequence', 'ExtractedRouteSequence'), [], {})
        rl = el = None
        for a in reach_lists(it, ers):
            segs = it.st.heap[a].f['segs']
            if len(segs) == 1 and segs[0][0] == 'e' and segs[0][1][0] == 'ref' and \
                    it.obj(segs[0][1]).cls == F.reccls and rl is None:
                rl = a
            elif not segs and el is None:
                el = a
            else:
                raise Gap('unexpected list inside the route sequence')
        if rl is None or el is None:
            raise Gap('cannot find the record and error lists of the route sequence')
        it.st.heap[rl].label = 'records'
        it.st.heap[el].label = 'errors'
        g = it.st.ghost
        g['T'], g['R'], g['E'] = ('ref', ls[0]), ('ref', rl), ('ref', el)
        g['O'] = toks
        g['ptr'] = C(0)
        g['spec'] = C(spec.START if self.grammar else 'off')
        return toks, ers

    # ---------------------------------------------- token helpers
    def sym_of(self, o):
        """symbol of an abstract token object"""
        v = self.F.tget(o, 'start')
        if v[0] == 'num':
            for a in patoms(v[1]):
                if a[0] == 'tf' and v[1] == patom(a):
                    return a[1]
        return None

    def kinds_of(self, it, sym):
        ks = []
        for L, tag in it.st.alts(sym):
            i = dict(tag).get('#k')
            if i is None:
                return None
            if i[2] not in ks:
                ks.append(i[2])
        return [spec.kinds()[i] for i in ks]

    def split_kind(self, it, sym, f):
        """fork until f(kind) has one value for the token; returns it"""
        while True:
            ks = self.kinds_of(it, sym)
            v0 = f(ks[0])
            if all(f(k) == v0 for k in ks):
                return v0
            K = spec.kinds()

            def sp(alt):
                if f(K[dict(alt[1])['#k'][2]]) == v0:
                    return alt, None
                return None, alt
            it.decide_alts(sym, sp)

    def cursor(self, it):
        """position just after the last token handed to the parser (None: cannot tell)"""
        T = it.st.ghost['T']
        best = None
        for a, o in it.st.heap.items():
            if o.cls in ('list', 'dict', 'set', 'iter') or ('ref', a) != it.st.ghost['O']:
                continue
            for k, v in o.f.items():
                if v[0] == 'num' and v[2] == 'int' or v[0] == 'c' and v[1] == 'int':
                    if best is not None:
                        return None
                    best = it.st.norm(poly_of(v))
        return best

    def window(self, it, refs=None):
        """[(index poly, token object, address)] of the tokens still in the list from the pointer on, up to the current
        token (excluding it while it is still in use); second value: tokens are skipped without having been looked at"""
        st = it.st
        segs = st.heap[st.ghost['T'][1]].f['segs']
        cur = self.cursor(it)
        ptr = st.norm(poly_of(st.ghost['ptr']))
        off = P0
        out = []
        skipped = False
        for s in segs:
            d = pcval(st.norm(psub(off, ptr)))
            if s[0] == '*':
                if s[2] is None:
                    off = padd(off, s[1])
                    continue
                if pcval(st.norm(s[1])) == 0:
                    continue
                # does the cursor lie beyond this unexamined stretch?
                if cur is not None and st.prove_ge0(paddc(psub(psub(cur, off), s[1]), -1)):
                    skipped = True
                elif cur is not None and st.prove_ge0(paddc(psub(cur, off), -1)):
                    skipped = True
                if cur is None or not skipped:
                    break
                off = padd(off, s[1])
                continue
            if d is None or d < 0:
                off = paddc(off, 1)
                continue
            if cur is not None and not st.prove_ge0(paddc(psub(cur, off), -1)):
                if refs is None or s[1][1] in refs or not st.prove_ge0(psub(cur, off)):
                    break
            out.append((off, st.heap[s[1][1]], s[1][1]))
            off = paddc(off, 1)
        return out, skipped

    def pointer_list(self, A, key):
        return A.ghost['T'][1]


class EMode(Parse):
    """every input: error reporting, order of records, coverage of the field, verdict, grammar, termination, exceptions"""
    grammar = False
    settled = False        # a field outside the grammar with an error needs no further look (errors are never removed)
    exactend = False       # tell apart a cursor on the last token and one behind it
    tokalts = None

    # ---------------------------------------------- obligations along the path
    def sync(self, it, env, held):
        r = {}
        for v in list(env.values()) + list(held):
            refs_in(v, r)
        self.step(it, refs=r)

    def at_exit(self, it, unit, out):
        if out[0] != 'raise':
            r = {}
            vals = list(unit.pins)
            if out[1] is not None:
                vals.append(out[1])
            if out[0] == 'env':
                vals.extend(out[2].values())
            for v in vals:
                refs_in(v, r)
            self.step(it, True, refs=r)

    def step(self, it, exit=False, refs=None):
        st = it.st
        if 'T' not in st.ghost:
            return
        win, skipped = self.window(it, refs)
        if skipped:
            self.report('C10', it, 'tokens are passed over without being looked at')
        self.new_errors(it)
        self.new_records(it)
        # advance the reference automaton
        s = st.ghost['spec'][2]
        off = None
        for off, o, a in win:
            if s in ('acc', 'rej') or not self.grammar:
                break
            sym = self.sym_of(o)
            if sym is None:
                raise Gap('token without identity')
            if s != spec.DEAD:
                s = self.split_kind(it, sym, lambda k: spec.step(s, k))
            self.ob('tokens classified')
        if win:
            st.ghost['ptr'] = NUM(paddc(win[-1][0], 1), 'int')
        st.ghost['spec'] = C(s)
        self.enough(it)
        self.taken = 0
        if exit and s not in ('acc', 'rej') and self.grammar:
            n = segs_len(st.heap[st.ghost['T'][1]].f['segs'])
            if pcval(st.norm(psub(n, poly_of(st.ghost['ptr'])))) == 0:
                st.ghost['spec'] = C('acc' if s in spec.ACCEPT else 'rej')
                self.taken = min(2, spec.least(s))
                self.enough(it)

    def enough(self, it):
        st = it.st
        if self.settled and st.ghost['spec'] in (C(spec.DEAD), C('rej')) and \
                st.prove_ge0(paddc(segs_len(st.heap[st.ghost['E'][1]].f['segs']), -1)):
            self.ob('fields found erroneous')
            raise PathEnd()

    def token_object(self, it, sym):
        """(position, object) of the token in the list"""
        st = it.st
        off = 0
        for i, s in enumerate(st.heap[st.ghost['T'][1]].f['segs']):
            if s[0] == 'e' and s[1][0] == 'ref':
                o = st.heap.get(s[1][1])
                if o is not None and self.sym_of(o) == sym:
                    return i, o
        return None, None

    def mark(self, it, sym, m):
        i, o = self.token_object(it, sym)
        if o is not None:
            o.f[m] = ONE

    def is_text(self, it, v, sym):
        return v == full(sym) or it.normval(v) == it.normval(full(sym))

    def enum_ok(self, it, v, sym, want):
        """v is the enum member named want(kind) for every kind the token may have"""
        K = spec.kinds()
        for L, tag in it.st.alts(sym):
            k = K[dict(tag)['#k'][2]]
            x = v
            if v[0] == 'proj':
                if v[1] != sym:
                    return False
                x = dict(tag).get(v[2], NONE)
            if x[0] != 'enum' or x[2] not in want(k):
                return False
        return True

    def new_errors(self, it):
        st, F = it.st, self.F
        segs = st.heap[st.ghost['E'][1]].f['segs']
        for s in segs:
            if s[0] != 'e':
                continue
            o = it.obj(s[1])
            if '#seen' in o.f:
                continue
            it.st.heap[s[1][1]].f['#seen'] = TRUE
            self.ob('error records')
            sym = self.sym_rec(o)
            where = o.prov.get(F.r['name']) or it.here()
            if sym is None:
                n = segs_len(st.heap[st.ghost['T'][1]].f['segs'])
                if pcval(st.norm(n)) == 0 and it.normval(F.get(o, 'start')) == C(0) and \
                        it.normval(F.get(o, 'end')) == C(0) and F.get(o, 'name') == C('NULL'):
                    if F.get(o, 'err') not in self.messages(it, None):
                        self.report('C09', it, 'the error of an empty field has no catalogued message')
                    continue
                self.report('C09', it, 'an error record does not carry the start index of a token')
                continue
            if not self.is_text(it, F.get(o, 'name'), sym):
                self.report('C09', it, 'an error record does not carry the text of its token')
            if it.normval(F.get(o, 'end')) != NUM(patom(('tf', sym, 'e')), 'int'):
                self.report('C09', it, 'an error record does not carry the end index of its token')
            if not self.enum_ok(it, F.get(o, 'base'), sym, lambda k: ('F15_' + k.base,)):
                self.report('C09', it, 'an error record does not carry the type of its token', extra=(F.get(o, 'base'), [(dict(t).get('#k'),dict(t).get('token_base_type')) for L,t in st.alts(sym)][:3],sym))
            if not self.enum_ok(it, F.get(o, 'sub'), sym, lambda k: ('F15_SB_' + k.sub,)):
                self.report('C09', it, 'an error record does not carry the sub type of its token')
            if it.normval(F.get(o, 'err')) not in self.messages(it, sym):
                self.report('C09', it, 'the text of an error record is not a catalogued message about its token')
            self.mark(it, sym, '#use')

    def sym_rec(self, o):
        v = self.F.get(o, 'start')
        if v is not None and v[0] == 'num':
            for a in patoms(v[1]):
                if a[0] == 'tf' and a[2] == 's' and v[1] == patom(a):
                    return a[1]
        return None

    def messages(self, it, sym):
        out = set()
        text = full(sym) if sym is not None else C('NULL')
        for m in self.catalogue:
            parts = []
            for i, p in enumerate(m.split('!')):
                if i:
                    parts.extend(parts_of(text))
                if p:
                    parts.append(('lit', p))
            out.add(it.normval(STR(parts)))
        return out

    def new_records(self, it):
        st, F = it.st, self.F
        segs = st.heap[st.ghost['R'][1]].f['segs']
        n = segs_len(segs)
        new = []
        for i, s in enumerate(segs):
            if s[0] == '*':
                if new:
                    self.report('C06', it, 'a record is inserted before earlier records')
                continue
            o = st.heap[s[1][1]]
            if '#seen' in o.f:
                if new:
                    self.report('C06', it, 'a record is inserted before earlier records')
                    new = []
                continue
            new.append((i, o))
        old = st.ghost.get('nrec')
        if old is None:
            old = C(0)
        if pcval(st.norm(psub(paddc(n, -len(new)), poly_of(old)))) != 0:
            self.report('C06', it, 'records disappear from the route')
        st.ghost['nrec'] = NUM(n, 'int')
        for i, o in new:
            o.f['#seen'] = TRUE
            self.ob('route records')
            self.check_record(it, i, o, segs)
        if segs and segs[-1][0] == 'e':
            self.break_text(it, st.heap[segs[-1][1][1]])

    def check_record(self, it, i, o, segs):
        F, st = self.F, it.st
        name = F.get(o, 'name')
        zero = it.normval(F.get(o, 'start')) == C(0) and it.normval(F.get(o, 'end')) == C(0)
        base, sub = F.get(o, 'base'), F.get(o, 'sub')
        if i == 0:
            if not (name == C('ADEP') and zero and base[0] == 'enum' and base[2] == 'F15_POINT'
                    and sub[0] == 'enum' and sub[2] == 'F15_SB_PRP_AERO'):
                self.report('C06', it, 'the first record is not the departure aerodrome place holder')
            return
        if st.ghost.get('ades') == TRUE:
            self.report('C06', it, 'a record follows the destination aerodrome place holder')
        sym = self.sym_rec(o)
        if sym is None:
            if name == C('ADES') and zero and base[0] == 'enum' and base[2] == 'F15_POINT' and sub[0] == 'enum' and \
                    sub[2] == 'F15_SB_PRP_AERO':
                st.ghost['ades'] = TRUE
            else:
                self.report('C06', it, 'a record does not carry the start index of a token')
            return
        if it.normval(F.get(o, 'end')) != NUM(patom(('tf', sym, 'e')), 'int'):
            self.report('C06', it, 'a record does not carry the end index of its token')
        if not self.is_text(it, name, sym):
            if not (name == C('VFR') and all(k.base == 'SPEED_VFR' for k in self.kinds_of(it, sym))):
                self.report('C06', it, 'a record does not carry the text of its token')
        if not self.enum_ok(it, base, sym, self.record_bases):
            self.report('C06', it, 'a record does not carry the type of its token')
        if not self.enum_ok(it, sub, sym, self.record_subs):
            self.report('C06', it, 'a record does not carry the sub type of its token')
        # source order
        pos, t = self.token_object(it, sym)
        if t is None:
            self.report('C06', it, 'a record is stored after records of later tokens')
            return
        for j, s in enumerate(st.heap[st.ghost['T'][1]].f['segs']):
            if j >= pos and s[0] == 'e' and st.heap[s[1][1]].f.get('#rec') == ONE:
                self.report('C06', it, 'a token is stored twice' if j == pos else
                            'a record is stored after records of later tokens')
        t.f['#rec'] = ONE

    @staticmethod
    def record_bases(k):
        return ('F15_SID', 'F15_STAR', 'F15_SID_STAR') if k.base == 'SID_STAR' else ('F15_' + k.base,)

    @staticmethod
    def record_subs(k):
        if k.base == 'SID_STAR':
            return ('F15_SB_SID', 'F15_SB_STAR')
        return ('F15_SB_' + k.sub,)

    def break_text(self, it, o):
        v = self.F.get(o, 'brk')
        if v is None or v == ANY['str'] or v == C(''):
            return
        for p in parts_of(v):
            if p[0] == 'sl':
                if STR([p]) == full(p[1]):
                    self.mark(it, p[1], '#use')
            elif p[0] == 'any':
                pass

    # ---------------------------------------------- forgetting
    def on_drop(self, A, addr, seg):
        if seg[0] != 'e' or seg[1][0] != 'ref' or ('ref', addr) != A.ghost.get('T'):
            return
        o = A.o(seg[1][1])
        sym = self.sym_of(o)
        if o.f.get('#use') != C(0) or sym is None:
            return
        for k in self.kinds_of(A.it, sym):
            if k.base in ('UNKNOWN', 'TOO_LONG'):
                self.report('C10', A.it, 'an unrecognised token is dropped without an error'
                            if k.base == 'UNKNOWN' else 'a too long token is dropped without an error')

    def anyfield(self, o, k, A=None):
        n = self.F.r[k]
        if k == 'alt_si' and A is not None:
            # an altitude stays an altitude
            v = self.F.get(o, k)
            if v is not None and (v[0] == 'num' or const(v) and v[1] in ('int', 'float')):
                lo, hi = A.st.bounds(A.st.norm(poly_of(v)))
                if lo is not None and hi is not None and lo >= 0 and hi <= 100000:
                    m = A.new_fv(None)
                    A.nn[m] = A.st.names[m] = ('fv', 0, 100000)
                    o.f[n] = NUM(patom(('fv', m)), 'float')
                    return
        kind = 'float' if k in FLOATS else 'int' if k in ('start', 'end', 'base', 'sub', 'stay') else \
            'bool' if k == 'valid' else 'str'
        o.f[n] = ANY[kind]

    def coarse_syms(self, A):
        """callees see what kind of token it is (and its length), not what else the caller found out about its text"""
        for n, info in list(A.st.names.items()):
            if info[0] != 'sym' or n in A.nn:
                continue
            out = {}
            for L, tag in info[1]:
                i = dict(tag).get('#k')
                if i is None:
                    break
                k = spec.kinds()[i[2]]
                lens, unb = L.lengths()
                d = k.lang if unb or len(lens) > 30 else dfa.inter(k.lang, oflen(frozenset(lens)))
                out[tag] = d
            else:
                A.nn[n] = ('sym', tuple([(d, tag) for tag, d in out.items()]))
                A.bk[n] = ('N', n)
        # tokens only the callers still use: nothing but their identity matters here
        used, names = {}, {}
        for v in list(A.roots.values()):
            refs_in(v, used)
            names_in(v, names)
        T = A.ghost['T'][1]
        for a in A.reach():
            o = A.o(a)
            if a != T:
                from canon import obj_refs
                obj_refs(o, used)
            if o.cls not in ('list', 'dict', 'set', 'iter') and o.cls not in (self.F.tokcls, self.F.reccls):
                for v in o.f.values():
                    names_in(v, names)
        for s in A.o(T).f['segs']:
            if s[0] == '*' and s[2] is not None:
                self.tokalts = s[2][1][0][2]
        for s in A.o(T).f['segs']:
            if s[0] != 'e' or s[1][1] in used or s[1][1] not in A.pin_addr:
                continue
            o = A.o(s[1][1])
            sym = self.sym_of(o)
            if sym is None or sym in names:
                continue
            if self.tokalts is None:
                continue
            A.nn[sym] = ('sym', self.tokalts)
            A.bk[sym] = ('N', sym)
            for m in ('#use', '#rec'):
                v = o.f.get(m)
                if v is not None and const(v):
                    o.f[m] = NUM(patom(('iv', A.new_iv(0, pconst(v[2]), 1))), 'int')

    def used_up(self, A):
        """at an exit with every token examined and the cursor on or behind the last one only the outcome matters: forget how long the
        lists are"""
        T = A.o(A.ghost['T'][1])
        segs = T.f['segs']
        n = segs_len(segs)
        st = A.st
        if pcval(st.norm(psub(n, poly_of(A.ghost['ptr'])))) != 0:
            return False
        O = A.o(A.ghost['O'][1])
        ints = [k for k, v in O.f.items() if v[0] == 'num' and v[2] == 'int' or v[0] == 'c' and v[1] == 'int']
        if len(ints) != 1:
            return False
        c = poly_of(O.f[ints[0]])
        if not (psub(c, n) in A.facts or paddc(psub(c, n), 1) in A.facts or st.prove_ge0(paddc(psub(c, n), 1))):
            return False
        held = A.direct_refs((A.ghost['T'][1],))
        lo = 0
        if self.grammar and A.ghost['spec'] == C('acc'):
            lo = self.taken
            if not lo:
                b = st.bounds(n)[0]
                lo = min(2, b or 0)
        new = []
        for s in segs:
            if s[0] == 'e' and s[1][1] in held:
                new.append(s)
                continue
            self.on_drop(A, A.ghost['T'][1], s)
            if not new or new[-1][0] == 'e':
                new.append(('*', patom(('iv', A.new_iv(lo, None))), None))
                lo = 0
        if not new:
            new.append(('*', patom(('iv', A.new_iv(0, None))), None))
        m = segs_len(new)
        x = A.new_iv(0, None)
        T.f['segs'] = tuple(new)
        A.ghost['ptr'] = NUM(m, 'int')
        O.f[ints[0]] = NUM(patom(('iv', x)), 'int')
        past = self.exactend and (psub(c, n) in A.facts or st.prove_ge0(psub(c, n)))
        A.facts.add(paddc(psub(patom(('iv', x)), m), 0 if past else 1))
        A.final = True
        return True

    def fold(self, A):
        F = self.F
        if 'R' not in A.ghost:
            return
        if A.mode == 'entry':
            self.coarse_syms(A)
        final = A.mode == 'exit' and self.used_up(A)
        o = A.o(A.ghost['E'][1])
        segs = o.f['segs']
        if segs and A.st.prove_ge0(paddc(segs_len(segs), -1)):
            n = A.new_iv(1, None if final else segs_len(segs))
            if not final:
                A.invert(segs_len(segs), patom(('iv', n)))
            o.f['segs'] = (('*', patom(('iv', n)), None),)
        r = A.o(A.ghost['R'][1])
        segs = [s for s in r.f['segs'] if s[0] == 'e' or pcval(A.st.norm(s[1])) != 0]
        es = [i for i, s in enumerate(segs) if s[0] == 'e']
        for i in es:
            a = segs[i][1][1]
            ob = A.o(a)
            last = i == len(segs) - 1
            for k in F.r:
                if k == 'rules' and A.ghost.get('ades') == TRUE and i >= len(segs) - 2:
                    continue
                if k == 'rules' and last:
                    if self.grammar and not final and const(self.F.get(ob, k)) and A.ghost['spec'] not in (C('acc'), C('rej'), C(spec.DEAD)):
                        continue
                    ob.f[F.r[k]] = full(A.new_sym(((dfa.ALL, ()),), None))
                    continue
                if k == 'sub' and last and not final and A.ghost['spec'] not in (C('acc'), C('rej')):
                    continue
                self.anyfield(ob, k, A if last and not final else None)
            ob.f['#seen'] = TRUE
            if last and not final:
                self.coarse_sub(A, ob)
        head = segs[0]
        mid = segs[1:]
        if A.mode == 'entry' and len(mid) == 1 and mid[0][0] == 'e' and not any(A.o(a).cls == 'iter' for a in A.reach()):
            n = A.new_iv(0, P0)
            segs = mid = [('*', patom(('iv', n)), self.rectm)] + mid
            r.f['segs'] = tuple([head] + mid)
            A.ghost['nrec'] = NUM(segs_len(r.f['segs']), 'int')
            return
        cut = len(mid) - (2 if A.ghost.get('ades') == TRUE else 1)
        if cut > 0:
            held = A.direct_refs((A.ghost['R'][1],))
            while cut > 0 and any(s[0] == 'e' and s[1][1] in held for s in mid[:cut]):
                cut -= 1
        if final and mid and mid[-1][0] == 'e' and A.ghost.get('ades') != TRUE:
            # the last record itself is only identified while somebody holds it
            held = A.direct_refs((A.ghost['R'][1],))
            if mid[-1][1][1] not in held and cut >= 0 and not any(
                    s[0] == 'e' and s[1][1] in held for s in mid[:cut]):
                nw = A.st.alloc(mk_like(A.o(mid[-1][1][1])))
                m = A.new_iv(0, None)
                r.f['segs'] = (head, ('*', patom(('iv', m)), self.rectm), ('e', nw))
                A.ghost['nrec'] = NUM(segs_len(r.f['segs']), 'int')
                return
        if cut > 0:
            cnt = segs_len(mid[:cut])
            lo = 0 if A.mode == 'entry' else 1
            n = A.new_iv(lo, cnt)
            A.invert(cnt, patom(('iv', n)))
            segs = [head, ('*', patom(('iv', n)), self.rectm)] + mid[cut:]
        r.f['segs'] = tuple(segs)
        A.ghost['nrec'] = NUM(segs_len(r.f['segs']), 'int')

    def coarse_sub(self, A, ob):
        """join the sub types the grammar does not tell apart"""
        n = self.F.r['sub']
        v = ob.f[n]
        vals = [v]
        if v[0] == 'proj':
            vals = [dict(tag)[v[2]] for L, tag in A.st.alts(v[1])]
        if any(x[0] != 'enum' for x in vals):
            return
        cls = {}
        for k in spec.kinds():
            cls.setdefault('F15_SB_' + k.sub, set()).add(k.ll)
        mine = frozenset().union(*[cls.get(x[2], set()) for x in vals])
        if self.grammar and len(mine) > 1 and v[0] == 'proj' and any(
                s[0] == 'e' and self.sym_of(A.o(s[1][1])) == v[1] for s in A.o(A.ghost['T'][1]).f['segs']):
            return       # not examined yet
        members = self.eng.classes[vals[0][1]].attrs
        joined = set(vals)
        for name, c in cls.items():
            if c & mine and name in members:
                joined.add(members[name])
        joined = sorted(joined, key=akey)
        if len(joined) == 1:
            ob.f[n] = joined[0]
            return
        m = A.new_sym(tuple([(dfa.EPS, (('#s', x),)) for x in joined]), None)
        ob.f[n] = ('proj', m, '#s')

    # ---------------------------------------------- driver
    def drive(self, it):
        M, st = self.M, it.st
        toks, ers = self.start(it, M)
        self.start_rectm(it)
        P = it.call(M.cls('F15_Parser.F15Parse', 'ParseF15'), [], {})
        it.temps.extend([P, toks, ers])
        self.step(it)
        try:
            ret = it.call(it.getattr(P, 'parse_f15'), [ers, toks], {})
        except PyRaise as e:
            self.report('C03', it, '%s: %s' % (e.cls, e.msg), e.site)
            return
        self.step(it)
        self.ob('complete parses')
        T = st.heap[st.ghost['T'][1]]
        n = segs_len(T.f['segs'])
        left = st.norm(psub(n, poly_of(st.ghost['ptr'])))
        if pcval(left) != 0:
            self.report('C10', it, 'the parser stops before the end of the field',
                        self.lastcall(it))
        for s in T.f['segs']:
            if s[0] == 'e':
                o = st.heap[s[1][1]]
                if o.f.get('#use') == C(0):
                    for k in self.kinds_of(it, self.sym_of(o)):
                        if k.base in ('UNKNOWN', 'TOO_LONG'):
                            self.report('C10', it, 'a token of type %s is dropped without an error' % k.base)
        E = segs_len(st.heap[st.ghost['E'][1]].f['segs'])
        if it.decide_eq0(E):
            errs = False
        else:
            errs = True
        if it.normval(ret) != C(not errs):
            self.report('C07', it, 'the verdict does not tell whether errors were recorded')
        s = st.ghost['spec'][2]
        ok = s == 'acc' or s in spec.ACCEPT
        if self.grammar and pcval(left) == 0 and ok == errs:
            self.report('C08', it, 'a field outside the documented grammar is accepted without an error' if not errs
                        else 'a field within the documented grammar is reported as erroneous')
        segs = st.heap[st.ghost['R'][1]].f['segs']
        if st.ghost.get('ades') != TRUE:
            self.report('C06', it, 'the route does not end with the destination aerodrome place holder')
        elif pcval(st.norm(n)) != 0:
            a, b = [self.F.get(st.heap[x[1][1]], 'rules') if x[0] == 'e' else None for x in segs[-2:]]
            if a != b and len(segs) > 2 or a is None:
                self.report('C06', it, 'the destination does not have the flight rules of the record before it',
                            extra=(a, b, [x[0] for x in segs]))

    def lastcall(self, it):
        return None

    def start_rectm(self, it):
        r = it.st.heap[it.st.ghost['R'][1]].f['segs'][0][1]
        o = it.obj(r).copy()
        for k in self.F.r:
            self.anyfield(o, k)
        o.f['#seen'] = TRUE
        self.rectm = tm([(o.cls, tuple(sorted(o.f.items())), None, True)])


def mk_like(o):
    x = Obj(o.cls, dict(o.f))
    x.prov = dict(o.prov)
    return x


_ol = {}


def oflen(lens):
    if lens not in _ol:
        _ol[lens] = dfa.length_where(lambda n: n in lens, max(lens, default=0) + 1)
    return _ol[lens]


def branches(fn):
    import ast
    n = 0
    for x in ast.walk(fn.node):
        if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.For)):
            n += 1
        elif isinstance(x, ast.Match):
            n += len(x.cases)
    return n


def summarise_helpers(eng, limit=4):
    """besides the recursive functions, summarise what they call when it branches a lot (keeps paths short)"""
    rec = set(eng.summarised)
    home = {eng.fns[a].module for a in rec}
    reach, todo = set(), sorted(rec)
    while todo:
        for b in sorted(eng.cg.get(todo.pop(), ())):
            if b not in reach and b not in rec and eng.fns[b].module in home:
                reach.add(b)
                todo.append(b)
    for b in sorted(reach):
        seen, todo, n = {b}, [b], 0
        while todo:
            x = todo.pop()
            n += branches(eng.fns[x])
            for y in eng.cg.get(x, ()):
                if y not in seen and y not in rec:
                    seen.add(y)
                    todo.append(y)
        if n >= limit:
            eng.summarised.add(b)
    # straight-line members of a cycle are inlined as long as every cycle still meets a summary
    for b in sorted(rec):
        if branches(eng.fns[b]) == 0:
            left = eng.summarised - {b}
            g = {x: [y for y in eng.cg.get(x, ()) if y not in left] for x in eng.fns if x not in left}
            if all(len(c) == 1 and next(iter(c)) not in g[next(iter(c))] for c in scc(g)):
                eng.summarised.discard(b)


def run_emode(root, debug=False, deadline=None, cfg=None):
    cfg = cfg or EMode()
    M = Model(root, cfg)
    cfg.M = M
    cfg.debug = debug
    cfg.eng = M.eng
    summarise_helpers(M.eng)
    cfg.F = Fields(M)
    em = M.cls('F15_Parser.ErrorMessageDefinitions', 'ErrorMessages')
    it = Interp(M.eng, State(), None, ())
    d = it.getattr(em, 'error_messages')
    cfg.catalogue = [v[2] for k, v in it.obj(d).f['items']]
    M.run(cfg.drive, deadline=deadline)
    return cfg, M
