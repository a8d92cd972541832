"""Decoded values of the records: the parser is interpreted on token lists of fixed structure whose texts are arbitrary members
of the token kinds, and every attribute of every record is compared, as an expression over the texts, with a reference
evaluation of the documented rules."""
import ast
import os
import dfa
import spec
from terms import *
from state import PathEnd
from interp import PyRaise
from harness import Cfg, EMode, FLOATS

K = spec.kinds()
ENUMB, ENUMS = 'F15_', 'F15_SB_'

# symbolic names of groups of kinds: 'small' representatives used where the text of a token does not matter
GROUP = {
    'SA': [k for k in K if k.base == 'SPEED_ALTITUDE' and k.sub[-2:] in ('NF', 'MS') and not k.sem],
    'SA1': [k for k in K if k.base == 'SPEED_ALTITUDE' and k.sub[-2:] == 'NF' and not k.sem],
    'SA*': [k for k in K if k.base == 'SPEED_ALTITUDE' and not k.sem],
    'SAX': [k for k in K if k.base == 'SPEED_ALTITUDE' and k.sem],
    'SV': [k for k in K if k.base == 'SPEED_VFR' and k.sub[-2:] in ('NV',)],
    'SV*': [k for k in K if k.base == 'SPEED_VFR'],
    'SAA': [k for k in K if k.base == 'SPEED_ALTITUDE_ALTITUDE' and k.sub[-3:] in ('NFA', 'MSM') and not k.sem],
    'SAA*': [k for k in K if k.base == 'SPEED_ALTITUDE_ALTITUDE' and not k.sem],
    'SAP': [k for k in K if k.base == 'SPEED_ALTITUDE_PLUS' and k.sub[-4:] in ('NF_P', 'MM_P') and not k.sem],
    'SAP*': [k for k in K if k.base == 'SPEED_ALTITUDE_PLUS' and not k.sem],
    'PT': [k for k in K if k.base == 'POINT' and k.sub == 'PRP'],
    'PT4': [k for k in K if k.base == 'POINT' and k.sub == 'PRP_AERO'],
    'LL': [k for k in K if k.base == 'POINT' and k.sub == 'LL_DEG' and not k.sem],
    'LL*': [k for k in K if k.base == 'POINT' and k.sub in ('LL_DEG', 'LL_MIN')],
    'LLV': [k for k in K if k.base == 'POINT' and k.sub in ('LL_DEG', 'LL_MIN') and not k.sem],
    'BD*': [k for k in K if k.base == 'POINT' and k.sub in ('PRP_BD', 'LLBD_DEG', 'LLBD_MIN') and not (set(k.sem) - {46})],
    'LLS': [k for k in K if k.base == 'POINT' and (k.sub, k.sem) in (('LL_DEG', ()), ('LL_MIN', (45,)))],
    'BDS': [k for k in K if k.base == 'POINT' and (k.sub, k.sem) in (('PRP_BD', (46,)), ('LLBD_MIN', ()), ('LLBD_DEG', (46,)))],
    'BDV': [k for k in K if k.base == 'POINT' and k.sub in ('PRP_BD', 'LLBD_DEG', 'LLBD_MIN') and not k.sem],
    'BDX': [k for k in K if k.base == 'POINT' and k.sub in ('LLBD_DEG', 'LLBD_MIN') and set(k.sem) - {46}],
    'BD': [k for k in K if k.base == 'POINT' and k.sub == 'LLBD_DEG' and not k.sem],
    'PBD': [k for k in K if k.base == 'POINT' and k.sub == 'PRP_BD' and not k.sem],
    'RT': [k for k in K if k.base == 'ROUTE' and k.sub == 'ATS'],
    'RT*': [k for k in K if k.base == 'ROUTE'],
    'DCT': [k for k in K if k.base == 'DCT'],
    'C': [k for k in K if k.base == 'C'],
    '/': [k for k in K if k.base == 'SLASH'],
    'STAY': [k for k in K if k.base == 'STAY'],
    'TIME': [k for k in K if k.base == 'STAY_TIME'],
    'T': [k for k in K if k.base == 'TRUNCATE'],
    'SID': [k for k in K if k.base == 'SID'],
    'STAR': [k for k in K if k.base == 'STAR'],
    'SS': [k for k in K if k.base == 'SID_STAR'],
    'UNK': [k for k in K if k.base == 'UNKNOWN'],
    'ANY': list(K),
    'LONG': [k for k in K if k.base == 'TOO_LONG'],
    'LLX': [k for k in K if k.base == 'POINT' and k.sub == 'LL_DEG' and k.sem == (42,)],
    'SAX1': [k for k in K if k.base == 'SPEED_ALTITUDE' and k.sub[-2:] == 'NF' and k.sem],
    'BD2': [k for k in K if k.base == 'POINT' and k.sub == 'LLBD_DEG' and k.sem == (42,)],
    'BD1': [k for k in K if k.base == 'POINT' and k.sub == 'PRP_BD' and k.sem],
}
for s in range(8):
    GROUP['ANY%d' % s] = K[s::8]
for s in ('VFR', 'OAT', 'IFPSTOP', 'IFR', 'GAT', 'IFPSTART'):
    GROUP[s] = [k for k in K if k.sub == s]
for g in GROUP:
    if not GROUP[g]:
        raise Gap('token group %s of the reference tables is empty' % g)


def accepted(groups):
    st = spec.START
    for g in groups:
        st = spec.step(st, GROUP[g][0])
        if st == spec.DEAD:
            return False
    return st in spec.ACCEPT


def sentences(alphabet, n, brk=('UNK', 'PT')):
    """all sentences of the field grammar over the groups with at most n tokens"""
    cur = {(): spec.START}
    out = []
    for i in range(n):
        nx = {}
        for q, s in cur.items():
            for g in alphabet:
                k = GROUP[g][0]
                t = spec.step(s, k)
                if t == spec.DEAD:
                    continue
                if s[0] == 'B' and t == s[:2] and s in spec.BRK.values() and g not in brk:
                    continue     # inside a break section all tokens are alike
                nx[q + (g,)] = t
                if t in spec.ACCEPT:
                    out.append(q + (g,))
        cur = nx
    return out


def states(groups):
    out, st = [], spec.START
    for g in groups:
        st = spec.step(st, GROUP[g][0])
        out.append(st)
    return out


def misplaced(y, i):
    """the name at i, or what follows it, is what makes the field wrong"""
    st = states(y)
    j = st.index(spec.DEAD) if spec.DEAD in st else None
    return j is not None and i <= j <= i + 1


def digits_of(sym, lo, hi):
    p = P0
    for i in range(lo, hi):
        p = padd(pscale(p, 10), patom(('int', sym, i, i + 1)))
    return p


def expand(p):
    """polynomial with every digit group written as a sum of single digits"""
    out = P0
    for m, c in p:
        t = pconst(c)
        for a in m:
            t = pmul(t, expand_atom(a))
        out = padd(out, t)
    return out


def expand_atom(a):
    if a[0] == 'int' and a[3] is not None and a[3] - a[2] > 1:
        return digits_of(a[1], a[2], a[3])
    if a[0] in ('trunc', 'floor', 'sqrt', 'inv', 'abs', 'round', 'mod', 'fdiv'):
        return patom((a[0], expand(a[1])) + tuple(a[2:]))
    if a[0] in ('geo', 'opn'):
        return patom((a[0], a[1], a[2], tuple([expand(q) for q in a[3]])))
    return patom(a)


class Rec:
    """expected record: attribute -> value or None (no expectation)"""

    def __init__(self, key, prev=None, **kw):
        self.key = key
        self.tok = None
        self.v = {'rules': None, 'speed': C(''), 'speed_si': P0, 'alt': C(''), 'alt_si': P0, 'cruise': C(''),
                  'cruise_si': P0, 'lat': P0, 'lon': P0, 'valid': C(False), 'brk': C(''), 'stay': P0,
                  'brg': P0, 'dist': P0}
        self.own = set()        # attributes defined by the record's own token(s)
        if prev is not None:
            for a in ('rules', 'speed', 'speed_si', 'alt', 'alt_si'):
                self.v[a] = prev.v[a]
        self.v.update(kw)

    def set(self, **kw):
        self.v.update(kw)
        self.own.update(kw)


class Values(Cfg):
    """cfg.shapes: list of sequences of group names"""
    prop = None
    part = (0, 1)

    def __init__(self, prop, shapes):
        Cfg.__init__(self)
        self.prop, self.shapes = prop, shapes
        self.want = (prop,)
        self.wr = {}

    # ---------------------------------------------- input
    def token(self, it, group):
        M = self.M
        alts = tuple((k.lang, (('#k', C(k.i)),)) for k in GROUP[group])
        sym = it.st.new_sym(alts)
        t = it.call(M.cls('Tokenizer.Token', 'Token'), [full(sym), NUM(patom(('tf', sym, 's')), 'int'),
                                                        NUM(patom(('tf', sym, 'e')), 'int')], {})
        return t, sym

    def kind(self, it, sym):
        """the kind of the token; forks"""
        while True:
            alts = it.st.alts(sym)
            i = dict(alts[0][1])['#k'][2]
            if all(dict(t)['#k'][2] == i for L, t in alts):
                return K[i]

            def sp(alt):
                return (alt, None) if dict(alt[1])['#k'][2] == i else (None, alt)
            it.decide_alts(sym, sp)

    def char(self, it, sym, pos, ch):
        """is the character at pos of the text ch?  (forks)"""
        W = dfa.slice_in(pos, pos + 1, dfa.lit(ch))

        def sp(alt):
            return (dfa.inter(alt[0], W), alt[1]), (dfa.minus(alt[0], W), alt[1])
        return it.decide_alts(sym, sp)

    def on_write(self, it, ref, name):
        a = ref[1] if isinstance(ref, tuple) else ref
        self.wr[(a, name)] = [(f.fn.qual if f.fn else '<driver>', it.eng.site(f.cur)) for f in it.frames
                              if f.cur is not None][-6:]

    # ---------------------------------------------- reference evaluation
    def text(self, it, sym, lo=None, hi=None):
        v = full(sym)
        if lo is None and hi is None:
            return v
        return it.str_slice(v, pconst(lo or 0), pconst(hi) if hi is not None else poly_of(it.length(v)))

    @staticmethod
    def cat(it, *vs):
        r = vs[0]
        for x in vs[1:]:
            r = it.binop(ast.Add(), r, x, False)
        return r

    def num(self, sym, lo, hi):
        return digits_of(sym, lo, hi)

    def rounded(self, it, p):
        return it.st.mkatom('trunc', it.st.norm(paddc(p, 0.5)))

    def level(self, it, sym, lo):
        """text and metres of the level at position lo"""
        c = None
        for x in 'FASM':
            if self.char(it, sym, lo, x):
                c = x
                break
        w = 3 if c in 'FA' else 4
        n = self.num(sym, lo + 1, lo + 1 + w)
        m = pscale(n, 100 * spec.FEET) if c in 'FA' else pscale(n, 10)
        si = self.rounded(it, m)
        return self.text(it, sym, lo, lo + 1 + w), si, lo + 1 + w

    def speed(self, it, sym, alt_si):
        if self.char(it, sym, 0, 'M'):
            n = pscale(self.num(sym, 1, 4), 0.01)
            a = it.st.norm(alt_si)
            if it.decide_eq0(a):
                ss = pconst(343.0)
            else:
                if it.decide_ge0(paddc(a, -11001)):
                    a = pconst(11000)
                t = pscale(paddc(pscale(a, -0.00645), 15.0 + 273.15), 1 / 273.15)
                ss = pscale(it.st.mkatom('sqrt', it.st.norm(t)), 331.15)
            return self.text(it, sym, 0, 4), self.rounded(it, pmul(n, ss)), 4
        n = self.num(sym, 1, 5)
        f = spec.KNOT if self.char(it, sym, 0, 'N') else spec.KMH
        return self.text(it, sym, 0, 5), self.rounded(it, pscale(n, f)), 5

    def apply_sa(self, it, r, sym):
        pos = 4 if self.char(it, sym, 0, 'M') else 5
        t, si, end = self.level(it, sym, pos)
        sp, ssi, _ = self.speed(it, sym, si)
        r.set(alt=t, alt_si=si, speed=sp, speed_si=ssi, rules=C('IFR'))
        return end

    def apply_sv(self, it, recs, tok):
        """speed and VFR at the last record"""
        k, sym = tok
        p = recs[-1]
        r = Rec(('tf', sym, 's'), p)
        r.tok = k
        alt = pconst(1524)
        sp, ssi, _ = self.speed(it, sym, alt)
        r.set(alt=C('F050'), alt_si=alt, speed=sp, speed_si=ssi, rules=C('VFR'), name=C('VFR'))
        p.set(alt=C('F050'), alt_si=alt, speed=sp, speed_si=ssi)
        recs.append(r)
        return r

    def coords(self, it, r, k, sym):
        if k.base != 'POINT' or not k.ll:
            return
        if k.sub == 'PRP_BD':
            return
        if k.sub.endswith('DEG'):
            lat, lon = self.num(sym, 0, 2), self.num(sym, 3, 6)
            s, w, b = 2, 6, 7
        else:
            lat = padd(self.num(sym, 0, 2), pscale(self.num(sym, 2, 4), 1 / 60))
            lon = padd(self.num(sym, 5, 8), pscale(self.num(sym, 8, 10), 1 / 60))
            s, w, b = 4, 10, 11
        if self.char(it, sym, s, 'S'):
            lat = pneg(lat)
        if self.char(it, sym, w, 'W'):
            lon = pneg(lon)
        if k.sub.startswith('LLBD'):
            args = (lat, lon, self.num(sym, b, b + 3), pscale(self.num(sym, b + 3, b + 6), spec.NM))
            lat, lon = patom(('geo', 'Direct', 'lat2', args)), patom(('geo', 'Direct', 'lon2', args))
        r.set(lat=lat, lon=lon, valid=C(True))

    def point(self, it, recs, tok):
        k, sym = tok
        r = Rec(('tf', sym, 's'), recs[-1])
        r.tok = k
        r.set(rules=C('IFR'))
        self.coords(it, r, k, sym)
        recs.append(r)
        return r

    def other(self, it, recs, tok):
        r = Rec(('tf', tok[1], 's'), recs[-1])
        r.tok = tok[0]
        recs.append(r)
        return r

    def reference(self, it, toks):
        """records of an accepted field, in order"""
        adep = Rec('ADEP')
        recs = [adep]
        k, sym = toks[0]
        brk = None
        if k.base == 'SPEED_ALTITUDE':
            self.apply_sa(it, adep, sym)
        else:
            brk = self.apply_sv(it, recs, toks[0])
            adep.set(rules=C('VFR'))
            end = 'IFR'
        i = 1
        n = len(toks)
        while i < n:
            k, sym = toks[i]
            b = k.base
            if brk is not None:
                brk.text = getattr(brk, 'text', [])
                brk.text.append(full(sym))
                brk.own.add('brk')
                i += 1
                if b == 'BREAK_END' and k.sub == end and i < n and toks[i][0].base == 'POINT':
                    if end == 'IFR':
                        if i + 2 < n and toks[i + 1][0].base == 'SLASH' and \
                                toks[i + 2][0].base in ('SPEED_ALTITUDE', 'SPEED_VFR'):
                            r = self.point(it, recs, toks[i])
                            brk = None
                            if toks[i + 2][0].base == 'SPEED_ALTITUDE':
                                self.apply_sa(it, r, toks[i + 2][1])
                            else:
                                brk = self.apply_sv(it, recs, toks[i + 2])
                                end = 'IFR'
                            i += 3
                    else:
                        self.point(it, recs, toks[i])
                        brk = None
                        i += 1
                continue
            if b == 'POINT':
                self.point(it, recs, toks[i])
            elif b == 'ROUTE':
                self.other(it, recs, toks[i]).set(rules=C('IFR'))
            elif b in ('SID', 'STAR', 'SID_STAR'):
                r = self.other(it, recs, toks[i])
                st = 'SID' if b == 'SID' or b == 'SID_STAR' and len(recs) == 2 else 'STAR'
                r.set(base=st, sub=(st + '_LITERAL') if b != 'SID_STAR' else st)
            elif b == 'DCT':
                self.other(it, recs, toks[i])
            elif b == 'C':
                if i + 1 < n and toks[i + 1][0].base == 'SLASH':
                    r = self.point(it, recs, toks[i + 2]) if toks[i + 2][0].base == 'POINT' else self.other(it, recs, toks[i + 2])
                    k2, s2 = toks[i + 4]
                    e = self.apply_sa(it, r, s2)
                    if k2.base == 'SPEED_ALTITUDE_PLUS':
                        r.set(cruise=C('PLUS'))
                    else:
                        t, si, _ = self.level(it, s2, e)
                        r.set(cruise=t, cruise_si=si)
                    i += 4
                else:
                    self.other(it, recs, toks[i])
            elif b == 'SLASH':
                i += 1
                if toks[i][0].base == 'SPEED_ALTITUDE':
                    self.apply_sa(it, recs[-1], toks[i][1])
                else:
                    brk = self.apply_sv(it, recs, toks[i])
                    end = 'IFR'
            elif b == 'STAY':
                s = toks[i + 2][1]
                recs[-1].set(stay=padd(pscale(self.num(s, 0, 2), 60), self.num(s, 2, 4)))
                i += 2
            elif b == 'BREAK_START':
                brk = self.other(it, recs, toks[i])
                brk.set(rules=C(spec.BRKRULE[k.sub]))
                end = spec.END[spec.BRK[k.sub]]
            elif b == 'TRUNCATE':
                pass
            else:
                raise Gap('reference evaluation of %s' % b)
            i += 1
        ades = Rec('ADES')
        ades.set(rules=recs[-1].v['rules'])
        recs.append(ades)
        self.azimuths(recs)
        return recs

    @staticmethod
    def azimuths(recs):
        """between adjacent points with known coordinates, a connecting record in between allowed"""
        for i, r in enumerate(recs):
            if r.v['valid'] != C(True):
                continue
            p = None
            if i > 0 and recs[i - 1].v['valid'] == C(True):
                p = recs[i - 1]
            elif i > 1 and recs[i - 1].tok is not None and recs[i - 1].tok.base not in ('POINT', 'C') and \
                    recs[i - 2].v['valid'] == C(True):
                p = recs[i - 2]
            if p is not None:
                args = (p.v['lat'], p.v['lon'], r.v['lat'], r.v['lon'])
                p.set(brg=patom(('geo', 'Inverse', 'azi1', args)), dist=patom(('geo', 'Inverse', 's12', args)))

    # ---------------------------------------------- comparison
    def same(self, it, v, e):
        """is the value v of the code the expected one?  e: polynomial or value"""
        if v is None:
            return False
        if isinstance(e, tuple) and e and e[0] in ('c', 'str', 'sl', 'enum', 'num', 'any', 'ref'):
            if v[0] == 'any':
                raise Gap('a record attribute has an unknown value')
            if it.normval(v) == it.normval(e):
                return True
            if is_str(e) and is_str(v):
                if const(e):
                    return it.decide_lang(v, dfa.lit(e[2]))
                a, b = it.normval(v), it.normval(e)
                if const(a):
                    return it.decide_lang(b, dfa.lit(a[2]))
                if dfa.inter(it.strlang(a), it.strlang(b)).is_empty():
                    return False
                L = it.strlang(a)
                if L.singleton() is not None and L.singleton() == it.strlang(b).singleton():
                    return True
                return False
            return False
        if v[0] == 'any':
            raise Gap('a record attribute has an unknown value')
        p = poly_of(v)
        if p is None:
            return False
        a, b = expand(it.st.norm(p)), expand(it.st.norm(e))
        a, b = it.st.norm(a), it.st.norm(b)
        if pclose(a, b):
            return True
        d = it.st.norm(psub(a, b))
        c = pcval(d)
        if c is not None:
            return abs(c) < 1e-9
        return pclose(expand(a), expand(b))

    def prop_of(self, r, attr):
        if attr in ('lat', 'lon', 'valid'):
            return 'C14' if r.tok is not None and r.tok.sub.startswith(('PRP_BD', 'LLBD')) else 'C13'
        return {'brg': 'C14', 'dist': 'C14', 'brk': 'C16', 'stay': 'C17', 'cruise': 'C12', 'cruise_si': 'C12',
                'base': 'C21', 'sub': 'C21', 'rules': 'C15'}.get(attr) or ('C12' if attr in r.own else 'C11')

    def props_of(self, r, attr):
        p = {self.prop_of(r, attr)}
        if attr == 'rules' and attr not in r.own:
            p.add('C11')
        return p

    # ---------------------------------------------- one abstract run
    def run_parse(self, it, shape):
        M, F = self.M, self.F
        self.wr = {}
        toks = it.call(M.cls('Tokenizer.Tokens', 'Tokens'), [], {})
        syms = []
        self.tokens = []
        for g in shape:
            t, s = self.token(it, g)
            syms.append(s)
            self.tokens.append(t[1])
            it.call(it.getattr(toks, 'append_token'), [t], {})
        ers = it.call(M.cls('F15_Parser.ExtractedRouteSequence', 'ExtractedRouteSequence'), [], {})
        P = it.call(M.cls('F15_Parser.F15Parse', 'ParseF15'), [], {})
        try:
            it.call(it.getattr(P, 'parse_f15'), [ers, toks], {})
        except PyRaise:
            raise PathEnd()        # C03
        recs = self.objects(it, ers, 'get_all_elements')
        errs = self.objects(it, ers, 'get_all_errors')
        return ers, syms, recs, errs

    def objects(self, it, ers, m):
        ls = it.call(it.getattr(ers, m), [], {})
        if ls[0] != 'ref' or it.obj(ls).cls != 'list':
            raise Gap('%s does not return a list' % m)
        out = []
        for s in it.obj(ls).f['segs']:
            if s[0] != 'e' or s[1][0] != 'ref':
                raise Gap('record list of unknown structure')
            out.append((s[1][1], it.obj(s[1])))
        return out

    def start_of(self, o):
        v = self.F.get(o, 'start')
        if v is not None and v[0] == 'num':
            for a in patoms(v[1]):
                if a[0] == 'tf' and v[1] == patom(a):
                    return a
        return None

    def wrote(self, it, a, attr):
        """the place in the parser where the attribute got its value (or, if it never did, where the record was made)"""
        w = self.wr.get((a, self.F.r[attr])) or self.wr.get((a, self.F.r['name']))
        if not w:
            return None
        for fn, site in reversed(w):
            if 'F15Parse' in site:
                return '%s (%s)' % (site, fn.split('.')[-1])
        return '%s (%s)' % (w[-1][1], w[-1][0].split('.')[-1])

    def drive(self, it):
        self.one(it)
        raise PathEnd()         # nothing is done with the final state

    def one(self, it):
        i = it.choose(len(self.shapes), 'shape')
        shape = self.shapes[i]
        ers, syms, recs, errs = self.run_parse(it, shape)
        if self.prop == 'C02':
            return self.classified(it, syms, shape)
        toks = [(self.kind(it, s), s) for s in syms]
        names = ' '.join(shape)
        self.ob('abstract parses')
        if self.prop in ('C13', 'C14'):
            self.semantics(it, toks, recs, errs, names)
        st = spec.START
        for k, s in toks:
            st = spec.step(st, k)
        if st not in spec.ACCEPT:
            if self.prop == 'C21':
                self.ob('misplaced SID or STAR names')
                if not errs:
                    self.report('C21', it, 'a misplaced SID or STAR name is not an error', 'F15_Parser/F15Parse.py',
                                'field: %s' % names)
            return
        if errs:
            self.ob('parses with unexpected errors (see C08)')
            if self.prop != 'C16':
                return
        else:
            self.ob('error-free parses')
        exp = self.reference(it, toks)
        for r in exp:
            if hasattr(r, 'text'):
                v = r.text[0]
                for x in r.text[1:]:
                    v = self.cat(it, v, C(' '), x)
                r.v['brk'] = v
        act = {}
        for j, (a, o) in enumerate(recs):
            nm = self.F.get(o, 'name')
            key = self.start_of(o)
            if key is None and nm[0] == 'c':
                key = nm[2]
            act.setdefault(key, (a, o))
        for r in exp:
            if r.key not in act:
                if errs:
                    continue
                if self.prop in ('C16', 'C21', 'C17') or r.tok is not None and self.prop == 'C14' and r.tok.ll:
                    self.report(self.prop, it, 'a route element has no record (field: %s)' % names, 'F15_Parser/F15Parse.py')
                continue
            a, o = act[r.key]
            for attr, e in sorted(r.v.items()):
                if r.key == 'ADES' and attr not in ('rules', 'stay', 'brk', 'brg', 'dist'):
                    continue
                if r.key == 'ADEP' and attr not in r.own and attr not in ('stay', 'brk', 'brg', 'dist', 'cruise'):
                    continue
                if attr == 'name' or self.prop not in self.props_of(r, attr) or e is None:
                    continue
                v = self.F.get(o, attr)
                if attr in ('base', 'sub'):
                    ok = v[0] == 'enum' and v[2] == (ENUMB if attr == 'base' else ENUMS) + e
                else:
                    ok = self.same(it, v, e)
                self.ob('record values compared')
                if not ok:
                    self.report(self.prop, it, '%s of the record of %s is not what its field says' % (
                        LABEL[attr], r.tok if r.tok is not None else r.key), self.wrote(it, a, attr) or it.here(),
                        'field: %s | found %s | expected %s' % (names, str(v)[:300], str(e)[:300]))
        if self.prop == 'C15':
            self.derived(it, ers, exp, names)

    def classified(self, it, syms, shape):
        """types of the tokens after the parse against the kinds their texts can have on this path"""
        F = self.F
        for s, a, g in zip(syms, self.tokens, shape):
            if not g.startswith('ANY'):
                continue
            o = it.st.heap[a]
            b, u = it.normval(F.tget(o, 'base')), it.normval(F.tget(o, 'sub'))
            if b[0] != 'enum' or u[0] != 'enum':
                raise Gap('type of a token is not a definite value')
            want = []
            for L, tag in it.st.alts(s):
                k = K[dict(tag)['#k'][2]]
                self.ob('token kinds compared')
                if (b[2], u[2]) != (ENUMB + k.base, ENUMS + k.sub):
                    want.append((k, L))
            if want:
                k, L = want[0]
                self.report('C02', it, 'text of kind %s/%s gets the type %s/%s' % (k.base, k.sub, b[2], u[2]),
                            self.twrote(a, 'base'), 'for example %r in a field of %d tokens' % (L.sample(), len(shape)))
            for key, e in (('text', full(s)), ('start', NUM(patom(('tf', s, 's')), 'int')),
                           ('end', NUM(patom(('tf', s, 'e')), 'int'))):
                self.ob('token attributes compared')
                if not self.same(it, F.tget(o, key), e if key == 'text' else e[1]):
                    self.report('C02', it, 'the %s of a token is changed by classifying it' % key, self.twrote(a, key))

    def twrote(self, a, key):
        w = self.wr.get((a, self.F.t[key]))
        return '%s (%s)' % (w[-2 if len(w) > 1 else -1][1], w[-2 if len(w) > 1 else -1][0].split('.')[-1]) if w else \
            'F15_Parser/F15Parse.py'

    def derived(self, it, ers, exp, names):
        rules = [r.v['rules'][2] for r in exp]
        if rules[0] == 'VFR':
            want = 'Z' if 'IFR' in rules else 'V'
        else:
            want = 'Y' if 'VFR' in rules else 'I'
        v = it.call(it.getattr(ers, 'get_derived_flight_rules'), [], {})
        self.ob('derived rules compared')
        if not self.same(it, v, C(want)):
            self.report(self.prop, it, 'derived flight rules are not those of the records', it.eng.site(it.unit.node) if
                        it.unit.node is not None else 'F15_Parser/F15Parse.py',
                        'field: %s | rules %s | found %s' % (names, rules, str(v)[:100]))

    SEM = {'C13': (42, 43, 44, 45), 'C14': (46,)}

    def semantics(self, it, toks, recs, errs, names):
        """coordinates and range errors of every lat/long or bearing/distance token, in whatever field"""
        F = self.F
        bykey = {}
        for a, o in recs:
            bykey.setdefault(self.start_of(o), (a, o))
        for k, s in toks:
            if k.base != 'POINT' or not k.ll:
                continue
            key = ('tf', s, 's')
            if key not in bykey:
                continue
            a, o = bykey[key]
            if (k.sub in ('LL_DEG', 'LL_MIN')) == (self.prop == 'C13') or k.sub.startswith('LLBD'):
                r = Rec(key)
                r.tok = k
                self.coords(it, r, k, s)
                for attr in ('lat', 'lon', 'valid'):
                    if self.prop != self.prop_of(r, attr):
                        continue
                    v = F.get(o, attr)
                    self.ob('coordinates compared')
                    if not self.same(it, v, r.v[attr]):
                        self.report(self.prop, it, '%s of a %s point is not what its text says' % (LABEL[attr], k.sub),
                                    self.wrote(it, a, attr) or it.here(),
                                    'field: %s | found %s | expected %s' % (names, str(v)[:300], str(r.v[attr])[:300]))
            nums = self.SEM[self.prop]
            want = sorted(n for n in k.sem if n in nums)
            got = []
            for a2, e in errs:
                if self.start_of(e) != key:
                    continue
                txt = F.get(e, 'err')
                for n in nums:
                    if self.is_message(it, txt, n, s):
                        got.append(n)
            self.ob('range checks compared')
            if sorted(got) != want:
                self.report(self.prop, it, 'a %s point has range errors %s instead of %s' % (k.sub, sorted(got), want),
                            self.wrote(it, a, 'valid') or 'F15_Parser/F15Parse.py', 'field: %s' % names)

    def is_message(self, it, v, n, sym):
        """is v the error message n (with the text of the token in place of the mark)?"""
        t = self.msgs[n]
        if '!' in t:
            parts = t.split('!')
            e = C(parts[0])
            for x in parts[1:]:
                e = self.cat(it, e, full(sym), C(x))
        else:
            e = C(t)
        return it.normval(v) == it.normval(e)


LABEL = {'rules': 'flight rules', 'speed': 'speed', 'speed_si': 'speed in m/s', 'alt': 'level', 'alt_si': 'level in metres',
         'cruise': 'cruise climb level', 'cruise_si': 'cruise climb level in metres', 'lat': 'latitude', 'lon': 'longitude',
         'valid': 'lat/long valid flag', 'brg': 'azimuth', 'dist': 'distance', 'brk': 'break text', 'stay': 'stay time',
         'base': 'type', 'sub': 'sub type', 'err': 'error'}


# ---------------------------------------------------------------- structures analysed per property
BASIC = ('SA1', 'SV', 'PT', 'RT', 'DCT', 'C', '/', 'STAY', 'TIME', 'T', 'SID', 'STAR', 'SS', 'VFR', 'OAT', 'IFPSTOP', 'IFR',
         'GAT', 'IFPSTART', 'UNK', 'LL', 'SAA', 'SAP')


def cost(shape):
    c = 1
    for g in shape:
        c *= sum(4 if k.ll and k.sub != 'PRP_BD' else 1 for k in GROUP[g])
    return (c + 0.2) * (len(shape) + 3)


def S(text):
    return [tuple(x.split()) for x in text.strip().split('\n')]


def shapes(prop, tier):
    deep = tier == 'thorough'
    if prop == 'C11':
        out = [('SA',) + x[1:] if x[0] == 'SA1' else x for x in sentences(BASIC, 4)]
        out += S(SPEEDS.replace('*', ''))
        if deep:
            out += [x for x in sentences(BASIC, 5) if len(x) == 5]
        return out
    if prop == 'C02':
        return [tuple('ANY%d' % i if g == 'ANY' and j == x.index('ANY') else g for j, g in enumerate(x))
                for x in S(PLACES) + (S(PLACES2) if deep else []) for i in range(8)]
    if prop == 'C12':
        return S(SPEEDS)
    if prop == 'C13':
        out = []
        for i, c in enumerate(CONTEXT):
            g = 'LL*' if deep or i == 0 or c in RANGED else 'LLS'
            out.append(tuple(c.replace('@', g, 1).replace('@', 'LL').split()))
        out += [('SA1', 'BDX'), ('SA1', 'PT', 'C', '/', 'BDX', '/', 'SAA')]
        return out
    if prop == 'C14':
        out = [tuple(c.replace('@', 'BD*' if deep or i == 0 or c in RANGED else 'BDS', 1).replace('@', 'LL').split())
               for i, c in enumerate(CONTEXT)]
        out += [('SA1', 'BDX')]
        out += S(AZIMUTH)
        return out
    if prop == 'C15':
        out = sentences(BASIC, 5 if deep else 4, ('UNK',)) + S(RULESHAPES) + S(SPEEDS.replace('*', ''))
        return out
    if prop == 'C16':
        return S(BREAKS) + [x for x in sentences(BASIC, 5 if deep else 4)
                            if any(g in ('VFR', 'OAT', 'IFPSTOP', 'SV') for g in x)]
    if prop == 'C17':
        return sentences(BASIC, 5 if deep else 4) + S(STAYS)
    if prop == 'C21':
        names = ('SID', 'STAR', 'SS')
        ok = sentences(BASIC, 5 if deep else 4)
        out = [x for x in ok if any(g in names for g in x)] + S(SIDSTARS)
        # names in places where they do not belong: the rest of the field is correct
        for x in [q for q in ok if len(q) <= (4 if deep else 3)] + S(SIDSTARS):
            for i in range(1, len(x) + 1):
                for g in names:
                    y = x[:i] + (g,) + x[i:]
                    if not accepted(y) and y not in out and spec.DEAD not in states(x[:i]) and \
                            misplaced(y, i):
                        out.append(y)
        return out
    raise Gap(prop)


PLACES = """
ANY
SA1 ANY
ANY PT
SA1 PT ANY PT
SA1 PT VFR ANY
SA1 PT / ANY
UNK ANY
"""
PLACES2 = """
SV ANY UNK
SA1 DCT ANY
SA1 PT C / ANY / SAA
SA1 PT STAY / ANY
SA1 SID ANY
SA1 PT RT ANY PT
SA1 PT OAT ANY GAT PT
SA1 PT ANY ANY
"""

SPEEDS = """
SA* PT
SA* DCT
SA1 PT / SA*
SA1 LL / SA*
SA1 DCT PT / SA*
SA1 PT / SA* PT
SV*
SV* UNK
SV IFR PT / SA*
SV IFR LL / SA* PT
SV IFR PT / SV*
SA1 PT / SV*
SA1 LL / SV*
SA1 PT VFR IFR PT / SA* PT
SA1 PT / SV* IFR PT / SA1
SA1 PT C / PT / SAA*
SA1 PT C / LL / SAA* PT
SA1 DCT C / C / SAA*
SA1 PT C / PT / SAP*
SA1 PT C / C / SAP* PT
SA1 PT C / LL / SAP* DCT PT
SA1 PT OAT GAT PT / SA*
SA1 SID PT / SA* PT
"""

# places of a point in a field
CONTEXT = ['SA1 @', 'SA1 DCT @', 'SA1 PT @', 'SA1 SID @', 'SA1 SS @', 'SA1 @ PT', 'SA1 @ / SA1 PT', 'SA1 PT / SA1 @',
           'SA1 PT STAY / TIME @', 'SA1 @ STAY / TIME PT', 'SA1 PT C / @ / SAA', 'SA1 PT C / @ / SAP', 'SA1 PT C @',
           'SV IFR @ / SA1', 'SV IFR @ / SV', 'SA1 PT VFR IFR @ / SA1 PT', 'SA1 PT OAT GAT @', 'SA1 PT IFPSTOP IFPSTART @ PT',
           'SA1 PT RT @', 'SA1 SID RT @', 'SA1 UNK @', 'SA1 PT UNK / @', 'SA1 @ RT', 'UNK @', 'SA1 PT STAY UNK @',
           'SA1 C / @ UNK', 'SA1 PT / UNK @', 'SV IFR @ / SV IFR @ / SA1', 'SA1 @ @']

# places with their own range checks
RANGED = ('SA1 PT C / @ / SAA', 'SV IFR @ / SA1', 'SV IFR @ / SV', 'SA1 PT RT @')

AZIMUTH = """
SA1 LL LL
SA1 LLV DCT LLV
SA1 LL LL LL
SA1 LL DCT LL DCT LL
SA1 LL PT LL
SA1 LL C LL
SA1 LL DCT C LL
SA1 LL DCT PT LL
SA1 LL / SA1 LL
SA1 LL BDV
SA1 BDV LL
SA1 BD BD
SA1 BD DCT BD
SA1 PBD LL
SA1 LL PBD
SA1 LL PBD LL
SA1 LL STAY / TIME LL
SA1 LL C / LL / SAA LL
SA1 LL VFR IFR LL / SA1
SA1 LL / SV IFR LL / SA1
SV IFR LL / SV IFR LL / SA1
SA1 LL OAT GAT LL
SA1 LL IFPSTOP UNK IFPSTART LL LL
SA1 LL VFR UNK IFR LL / SV
SA1 PT LL
SA1 LL PT
SA1 SID LL
SA1 LL C LL LL
SA1 LL LL SS
SA1 LL DCT LL STAR
SA1 PT RT PT
SA1 LL PT DCT LL
SA1 LL C DCT LL
SA1 LL C / PT / SAP LL
"""

RULESHAPES = """
SA1 PT VFR IFR PT / SA1 PT
SA1 PT VFR IFR PT / SV
SA1 PT OAT GAT PT VFR
SA1 PT OAT GAT PT OAT
SA1 PT IFPSTOP IFPSTART PT VFR IFR PT / SA1
SA1 PT IFPSTOP IFPSTART PT DCT PT
SV IFR PT / SV IFR PT / SA1
SV IFR PT / SA1 PT
SV IFR PT / SA1 VFR
SV IFR PT / SA1 OAT
SV IFR PT / SA1 OAT GAT PT
SA1 PT / SV IFR PT / SA1
SA1 PT / SV IFR PT / SA1 OAT
SA1 PT / SV IFR PT / SV
SA1 PT RT PT OAT
SA1 PT RT PT / SV
SA1 PT C / PT / SAA VFR
SA1 PT STAY / TIME OAT
SV GAT PT
SV OAT UNK
SA1 PT VFR GAT IFPSTART
SA1 PT OAT IFR VFR
"""

BREAKS = """
SA1 PT VFR
SA1 PT VFR UNK
SA1 PT VFR PT4 RT*
SA1 PT VFR UNK UNK UNK
SA1 PT VFR PT / SA1
SA1 PT VFR IFR
SA1 PT VFR IFR UNK
SA1 PT VFR IFR RT*
SA1 PT VFR GAT PT
SA1 PT VFR IFPSTART PT UNK
SA1 PT VFR VFR OAT IFPSTOP
SA1 PT VFR IFR PT / SA1
SA1 PT VFR UNK IFR PT / SA1 PT
SA1 PT VFR UNK IFR PT / SA1 RT
SA1 PT VFR IFR LL / SA1 LL
SA1 PT VFR IFR PT / SA1 VFR UNK IFR PT / SA1
SA1 PT VFR IFR IFR PT / SA1 DCT PT
SA1 PT VFR IFR PT UNK
SA1 PT VFR STAY / TIME
SA1 PT VFR SS STAR SID T C DCT
SA1 PT OAT
SA1 PT OAT UNK UNK
SA1 PT OAT IFR PT / SA1
SA1 PT OAT GAT
SA1 PT OAT GAT UNK
SA1 PT OAT GAT PT
SA1 PT OAT GAT LL PT
SA1 PT OAT UNK GAT PT DCT PT
SA1 PT OAT UNK UNK GAT PT / SA1
SA1 PT OAT GAT GAT PT RT PT
SA1 PT OAT IFPSTART PT
SA1 PT OAT GAT PT OAT UNK GAT PT
SA1 PT OAT GAT PT VFR UNK
SA1 PT IFPSTOP
SA1 PT IFPSTOP UNK / SV
SA1 PT IFPSTOP IFPSTART
SA1 PT IFPSTOP GAT PT
SA1 PT IFPSTOP GAT PT IFR PT
SA1 PT OAT IFPSTART PT UNK
SA1 PT VFR IFPSTART PT / SA1
SA1 PT IFPSTOP IFPSTART PT
SA1 PT IFPSTOP UNK IFPSTART LL STAY / TIME
SA1 PT IFPSTOP UNK UNK IFPSTART PT C / PT / SAP
SA1 PT IFPSTOP IFPSTART PT IFPSTOP UNK
SA1 PT / SV
SA1 PT / SV UNK
SA1 PT / SV UNK / UNK
SA1 PT / SV UNK IFR PT / SA1 PT
SA1 LL / SV IFR PT / SV UNK
SA1 PT STAY / TIME VFR UNK
SA1 PT C VFR UNK
SA1 PT C / PT / SAA OAT UNK GAT PT
SV
SV UNK
SV UNK UNK
SV SA1
SV / PT
SV IFR
SV IFR UNK PT
SV IFR PT / SA1
SV UNK IFR PT / SA1 PT
SV IFR PT / SV
SV IFR PT / SV UNK IFR PT / SA1 DCT PT
SV GAT PT / SA1
"""

STAYS = """
SA1 PT STAY / TIME
SA1 LL STAY / TIME
SA1 BDV STAY / TIME
SA1 PT STAY / TIME PT
SA1 PT PT STAY / TIME PT
SA1 PT STAY / TIME DCT PT
SA1 PT STAY / TIME RT
SA1 PT STAY / TIME RT PT
SA1 PT STAY / TIME VFR
SA1 PT STAY / TIME T
SA1 PT STAY / TIME C
SA1 PT STAY / TIME SS
SA1 PT STAY / TIME STAR
SA1 PT / SA1 STAY / TIME
SA1 PT / SA1 STAY / TIME PT
SA1 PT STAY / TIME PT STAY / TIME
SA1 PT STAY / TIME PT STAY / TIME DCT LL
SA1 PT C / PT / SAA STAY / TIME
SA1 PT C STAY / TIME PT
SA1 DCT PT STAY / TIME LL
SA1 PT OAT GAT PT STAY / TIME
SV IFR PT / SA1 STAY / TIME PT
SA1 PT RT PT STAY / TIME
SA1 SID PT STAY / TIME
"""

SIDSTARS = """
SA1 SID
SA1 SS
SA1 STAR
SA1 SID SS
SA1 SID STAR
SA1 SS SS
SA1 SS STAR
SA1 SID RT PT SS
SA1 SS RT PT STAR
SA1 PT RT PT SS
SA1 SS PT DCT PT SS
SA1 SID PT / SA1 SS
SA1 PT / SA1 STAR
SA1 PT STAY / TIME SS
SA1 PT C SS
SA1 PT C STAR
SA1 PT C / PT / SAA SS
SA1 PT C / PT / SAP STAR
SA1 PT OAT GAT PT SS
SA1 PT VFR IFR PT / SA1 SS
SV IFR PT / SA1 STAR
SA1 SS LL
SA1 LL SS
SA1 LL STAR
SA1 DCT PT SS
"""


# ---------------------------------------------------------------- statements about whole parses on fixed structures
PREFIX = ['', 'SA1', 'SA1 PT', 'SA1 LL', 'SA1 DCT', 'SA1 SID', 'SA1 SS', 'SA1 PT RT', 'SA1 PT DCT', 'SA1 PT C', 'SA1 PT /', 'SA1 PT C /',
          'SA1 PT C / PT', 'SA1 PT C / PT /', 'SA1 PT STAY', 'SA1 PT STAY /', 'SA1 PT STAY / TIME', 'SA1 PT / SA1',
          'SA1 PT C / PT / SAA', 'SA1 PT C / PT / SAP', 'SV', 'SV IFR', 'SV IFR PT', 'SV IFR PT /', 'SV IFR PT / SA1',
          'SA1 PT VFR', 'SA1 PT OAT', 'SA1 PT IFPSTOP', 'SA1 PT OAT GAT', 'SA1 PT IFPSTOP IFPSTART', 'SA1 PT VFR IFR', 'UNK',
          'SA1 PT UNK', 'SA1 PT UNK /', 'SA1 PT STAR', 'SA1 PT T', 'SA1 PT VFR IFR PT /', 'SA1 UNK IFR', 'SA1 PT VFR LONG',
          'SA1 LL VFR UNK IFR LL / SV', 'SA1 BD2', 'SA1 PT C / BD2', 'SA1 PT C / LLX',
          'SA1 PT C STAY / TIME', 'SA1 PT C DCT', 'SA1 PT C RT', 'SA1 PT C C', 'SA1 PT STAY / UNK', 'SA1 PT STAY UNK',
          'SA1 PT C / UNK', 'SA1 PT / UNK', 'UNK PT', 'SA1 PT RT RT', 'SA1 PT VFR IFR PT / SA1', 'SA1 PT / SV',
          'SA1 PT / SV IFR PT / SV', 'SV IFR LL / SV IFR PT / SA1', 'SA1 PT VFR UNK IFR PT / SA1', 'SA1 PT SS PT', 'SA1 PT STAR PT',
          'SA1 PT UNK SA1', 'SA1 PT UNK SV', 'SA1 PT UNK / SAA', 'SA1 PT UNK / SV', 'SA1 LL RT', 'SA1 LL STAY / TIME RT',
          'SA1 PT C / PT / SA1', 'SA1 PT C / RT', 'SA1 PT C LL', 'SA1 SID SID', 'SA1 PT STAY / TIME STAY / TIME',
          'SA1 PT OAT UNK GAT PT / SA1', 'SA1 PT IFPSTOP UNK IFPSTART PT STAY / TIME', 'SA1 UNK OAT GAT', 'SA1 PT VFR LONG IFR PT',
          'SA1 PT T PT', 'SA1 PT IFR', 'SA1 PT GAT', 'UNK UNK IFPSTART']
DEEP = ['', 'SA1', 'SA1 PT', 'SA1 DCT', 'SA1 SS', 'SA1 PT RT', 'SA1 PT C', 'SA1 PT STAY / TIME', 'SA1 PT UNK', 'SA1 PT VFR', 'SV IFR',
        'SA1 PT OAT GAT']
# one form of text for kinds whose forms are decided by the same branches
NARROW = {'PT': '[A-Z]{5}', 'SS': '[A-Z]{5}[0-9][A-Z]', 'LL': '[0-9]{2}N[0-9]{3}E', 'LLX': '[0-9]{2}N[0-9]{3}E', 'RT': '[A-Z][0-9]{3}',
          'BD2': '[0-9]{2}N[0-9]{3}E[0-9]{6}', 'BD1': '[A-Z]{5}[0-9]{6}'}
TAIL = BASIC + ('LONG', 'LLX', 'SAX1', 'BD1')


def structures(tier, tail=2):
    """prefixes that bring the parser into each of its situations, followed by all continuations"""
    import itertools
    out, seen = [], set()
    for p in PREFIX:
        base = tuple(p.split())
        n = tail if tier == 'thorough' or p in DEEP else 1
        for m in range(0, n + 1):
            for t in itertools.product(TAIL, repeat=m):
                y = base + t
                if y not in seen:
                    seen.add(y)
                    out.append(y)
    if tier == 'thorough':
        for t in itertools.product(TAIL, repeat=3):
            for p in (('SA1',), ('SA1', 'PT')):
                if p + t not in seen:
                    seen.add(p + t)
                    out.append(p + t)
    return out


class Whole(Values):
    """exceptions, records, verdict, error records, traces and grammar of one parse"""
    catalogue = ()

    def token(self, it, group):
        M = self.M
        N = spec.R(NARROW[group]) if group in NARROW else None
        alts = tuple((k.lang if N is None else dfa.inter(k.lang, N), (('#k', C(k.i)),)) for k in GROUP[group])
        sym = it.st.new_sym(alts)
        return it.call(M.cls('Tokenizer.Token', 'Token'), [full(sym), NUM(patom(('tf', sym, 's')), 'int'),
                                                           NUM(patom(('tf', sym, 'e')), 'int')], {}), sym

    def run_parse(self, it, shape):
        M = self.M
        toks = it.call(M.cls('Tokenizer.Tokens', 'Tokens'), [], {})
        syms = []
        for g in shape:
            t, s = self.token(it, g)
            syms.append(s)
            it.call(it.getattr(toks, 'append_token'), [t], {})
        ers = it.call(M.cls('F15_Parser.ExtractedRouteSequence', 'ExtractedRouteSequence'), [], {})
        P = it.call(M.cls('F15_Parser.F15Parse', 'ParseF15'), [], {})
        try:
            ret = it.call(it.getattr(P, 'parse_f15'), [ers, toks], {})
        except PyRaise as e:
            self.report('C03', it, '%s: %s' % (e.cls, e.msg), e.site, 'field: %s' % ' '.join(shape))
            raise PathEnd()
        return ers, syms, self.objects(it, ers, 'get_all_elements'), self.objects(it, ers, 'get_all_errors'), ret

    def one(self, it):
        shape = self.shapes[it.choose(len(self.shapes), 'shape')]
        self.wr = {}
        ers, syms, recs, errs, ret = self.run_parse(it, shape)
        F = self.F
        field = 'field: ' + (' '.join(shape) or '(empty)')
        toks = [(self.kind(it, s), s) for s in syms]
        self.ob('complete parses')
        where = 'F15_Parser/F15Parse.py'
        if it.normval(ret) != C(not errs):
            self.report('C07', it, 'the verdict does not tell whether errors were recorded',
                        where + ' (parse_f15)', field)
        st = spec.START
        for k, s in toks:
            st = spec.step(st, k)
        if (st in spec.ACCEPT) == bool(errs):
            self.report('C08', it, 'a field outside the documented grammar is accepted without an error' if not errs
                        else 'a field within the documented grammar is reported as erroneous',
                        self.wrote(it, errs[0][0], 'name') or where if errs else where, field)
        key = {('tf', s, 's'): (i, k, s) for i, (k, s) in enumerate(toks)}
        used = set()
        # error records
        for a, o in errs:
            self.ob('error records')
            site = self.wrote(it, a, 'name') or where
            q = key.get(self.start_of(o))
            if q is None:
                zero = it.normval(F.get(o, 'start')) == C(0) and it.normval(F.get(o, 'end')) == C(0)
                if not toks and zero and F.get(o, 'name') == C('NULL'):
                    if not any(self.message(it, F.get(o, 'err'), m, C('NULL')) for m in self.catalogue):
                        self.report('C09', it, 'the error of an empty field has no catalogued message', site, field)
                else:
                    self.report('C09', it, 'an error record does not carry the start index of a token', site, field)
                continue
            i, k, s = q
            used.add(i)
            for attr, e, what in (('name', full(s), 'text'), ('end', patom(('tf', s, 'e')), 'end index'),
                                  ('base', ENUMB + k.base, 'type'), ('sub', ENUMS + k.sub, 'sub type')):
                v = F.get(o, attr)
                ok = v[0] == 'enum' and v[2] == e if attr in ('base', 'sub') else self.same(it, v, e)
                if not ok:
                    self.report('C09', it, 'an error record does not carry the %s of its token' % what, site, field)
            if not any(self.message(it, F.get(o, 'err'), m, full(s)) for m in self.catalogue):
                self.report('C09', it, 'the text of an error record is not a catalogued message about its token', site, field)
        # route records
        last, seen = -1, set()
        for j, (a, o) in enumerate(recs):
            self.ob('route records')
            site = self.wrote(it, a, 'name') or where
            q = key.get(self.start_of(o))
            if q is None:
                zero = it.normval(F.get(o, 'start')) == C(0) and it.normval(F.get(o, 'end')) == C(0)
                nm = F.get(o, 'name')
                aero = zero and F.get(o, 'base')[2] == 'F15_POINT' and F.get(o, 'sub')[2] == 'F15_SB_PRP_AERO'
                if j == 0 and not (aero and nm == C('ADEP')):
                    self.report('C06', it, 'the first record is not the departure aerodrome place holder', site, field)
                elif j and not (aero and nm == C('ADES')):
                    self.report('C06', it, 'a record does not carry the start index of a token', site, field)
                elif j and j != len(recs) - 1:
                    self.report('C06', it, 'a record follows the destination aerodrome place holder', site, field)
                continue
            i, k, s = q
            if j == 0:
                self.report('C06', it, 'the first record is not the departure aerodrome place holder', site, field)
            if j == len(recs) - 1:
                self.report('C06', it, 'the route does not end with the destination aerodrome place holder', site, field)
            if i in seen:
                self.report('C06', it, 'a token is stored twice', site, field)
            elif i < last:
                self.report('C06', it, 'a record is stored after records of later tokens', site, field)
            seen.add(i)
            last = max(last, i)
            nm = F.get(o, 'name')
            if not self.same(it, nm, full(s)) and not (k.base == 'SPEED_VFR' and self.same(it, nm, C('VFR'))):
                self.report('C06', it, 'a record does not carry the text of its token', site, field)
            if not self.same(it, F.get(o, 'end'), patom(('tf', s, 'e'))):
                self.report('C06', it, 'a record does not carry the end index of its token', site, field)
            b, u = F.get(o, 'base'), F.get(o, 'sub')
            if b[0] != 'enum' or b[2] not in EMode.record_bases(k):
                self.report('C06', it, 'a record does not carry the type of its token', site, field)
            if u[0] != 'enum' or u[2] not in EMode.record_subs(k):
                self.report('C06', it, 'a record does not carry the sub type of its token', site, field)
            used |= self.kept(it, F.get(o, 'brk'), toks)
        if len(recs) < 2:
            self.report('C06', it, 'the route does not end with the destination aerodrome place holder', where, field)
        elif len(recs) > 2 or toks:
            a, b = [F.get(o, 'rules') for _, o in recs[-2:]]
            if len(recs) > 2 and a != b:
                self.report('C06', it, 'the destination does not have the flight rules of the record before it', where, field)
        for i, (k, s) in enumerate(toks):
            if k.base in ('UNKNOWN', 'TOO_LONG') and i not in used:
                self.report('C10', it, 'a token of type %s is dropped without an error' % k.base, where,
                            field + ' (token %d)' % (i + 1))

    def kept(self, it, v, toks):
        """tokens whose text is in the break text v"""
        if v is None or v[0] not in ('str', 'sl'):
            return set()
        ps = repr(parts_of(v))
        return {i for i, (k, s) in enumerate(toks) if repr(s) in ps}

    def message(self, it, v, m, text):
        parts = m.split('!')
        e = C(parts[0])
        for x in parts[1:]:
            e = self.cat(it, e, text, C(x))
        return it.normval(v) == it.normval(e)
