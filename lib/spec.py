"""Reference definitions, written from the documented field 15 rules (Readme, ICAO Doc 4444), independent of the code:
token kinds as regular languages, the accepted grammar as an automaton over token kinds, unit conversions.
"""
import dfa

MAXLEN = 25


def R(p):
    return dfa.regex(p)


class Kind:
    __slots__ = ('i', 'base', 'sub', 'lang', 'sem', 'll')

    def __init__(self, i, base, sub, lang, sem, ll):
        self.i, self.base, self.sub, self.lang, self.sem, self.ll = i, base, sub, lang, sem, ll

    def __repr__(self):
        return '%s/%s%s' % (self.base, self.sub, list(self.sem) if self.sem else '')


LLSUBS = ('PRP_BD', 'LL_DEG', 'LL_MIN', 'LLBD_DEG', 'LLBD_MIN')


def _rows():
    """(base, sub, language); earlier rows win"""
    r = []

    def a(base, sub, pat):
        r.append((base, sub, R(pat)))
    a('SLASH', 'SLASH', '/')
    a('BREAK_START', 'VFR', 'VFR')
    a('SPEED_VFR', 'SPEED_ALTITUDE_MV', 'M[0-9]{3}VFR')
    a('SPEED_VFR', 'SPEED_ALTITUDE_NV', 'N[0-9]{4}VFR')
    a('SPEED_VFR', 'SPEED_ALTITUDE_KV', 'K[0-9]{4}VFR')
    a('BREAK_END', 'IFR', 'IFR')
    a('DCT', 'DCT', 'DCT')
    a('BREAK_START', 'OAT', 'OAT')
    a('BREAK_END', 'GAT', 'GAT')
    a('BREAK_START', 'IFPSTOP', 'IFPSTOP')
    a('BREAK_END', 'IFPSTART', 'IFPSTART')
    a('STAY', 'STAY', 'STAY[0-9]')
    a('STAY_TIME', 'STAY_TIME', '(([01][0-9])|(2[0-3]))[0-5][0-9]')
    a('TRUNCATE', 'TRUNCATE', 'T')
    a('C', 'C', 'C')
    a('SID', 'SID_LITERAL', 'SID')
    a('STAR', 'STAR_LITERAL', 'STAR')
    # North Atlantic and polar tracks are routes
    a('ROUTE', 'NAT', 'NAT[A-Z]')
    a('ROUTE', 'NAT', 'NAT[A-Z][0-9]')
    a('ROUTE', 'PTS', 'PTS[0-9]')
    a('ROUTE', 'PTS', 'PTS[A-Z]')
    a('POINT', 'PRP', '[A-Z]{1,3}')
    a('POINT', 'PRP_AERO', '[A-Z]{4}')
    a('POINT', 'PRP', '[A-Z]{5}')
    a('POINT', 'PRP_BD', '[A-Z]{1,5}[0-9]{6}')
    a('POINT', 'LL_DEG', '[0-9]{2}[NS][0-9]{3}[EW]')
    a('POINT', 'LL_MIN', '[0-9]{4}[NS][0-9]{5}[EW]')
    a('POINT', 'LLBD_DEG', '[0-9]{2}[NS][0-9]{3}[EW][0-9]{6}')
    a('POINT', 'LLBD_MIN', '[0-9]{4}[NS][0-9]{5}[EW][0-9]{6}')
    for p, sub in (('[A-Z]{1,2}[0-9]', 'ATS'), ('[A-Z][0-9]{1,3}[A-Z]', 'ATS'), ('[A-Z][0-9]{2,3}', 'ATS'),
                   ('[A-Z]{3}[0-9]{3}', 'ATS_TURK'), ('[A-Z]{3}[0-9]{1,2}', 'ATS_OLD'), ('[A-Z]{2}[0-9][A-Z]', 'ATS'),
                   ('[A-Z]{2}[0-9]{2,3}', 'ATS'), ('[A-Z]{4}[0-9]{1,2}', 'ATS_RUS'),
                   ('[A-Z]{2}[0-9]{2,3}[A-Z]', 'ATS')):
        a('ROUTE', sub, p)
    for p in ('[A-Z]{3}[0-9]{1,2}[A-Z]', '[A-Z]{5}[0-9]{1,2}', '[A-Z]{4,6}[0-9][A-Z]', '[A-Z]{5}[0-9]{2}[A-Z]'):
        a('SID_STAR', 'STAR', p)
    sp = {'M': 'M[0-9]{3}', 'K': 'K[0-9]{4}', 'N': 'N[0-9]{4}'}
    lv = {'F': 'F[0-9]{3}', 'S': 'S[0-9]{4}', 'A': 'A[0-9]{3}', 'M': 'M[0-9]{4}'}
    for s in sp:
        for l in lv:
            a('SPEED_ALTITUDE', 'SPEED_ALTITUDE_' + s + l, sp[s] + lv[l])
            a('SPEED_ALTITUDE_PLUS', 'SPEED_ALTITUDE_' + s + l + '_P', sp[s] + lv[l] + 'PLUS')
            for m in lv:
                a('SPEED_ALTITUDE_ALTITUDE', 'SPEED_ALTITUDE_' + s + l + m, sp[s] + lv[l] + lv[m])
    return r


def digits(lo, w, pred):
    """all strings whose slice [lo, lo+w) is a digit group satisfying pred"""
    return dfa.slice_in(lo, lo + w, dfa.digits_where(pred, w))


def _split(parts, tests):
    """tests: (error number, language of strings satisfying it)"""
    out = [((), parts)]
    for n, ok in tests:
        new = []
        for sem, L in out:
            a, b = dfa.inter(L, ok), dfa.minus(L, ok)
            if not a.is_empty():
                new.append((sem, a))
            if not b.is_empty():
                new.append((sem + (n,), b))
        out = new
    m = {}
    for sem, L in out:
        m[sem] = dfa.union(m[sem], L) if sem in m else L
    return sorted(m.items(), key=lambda t: t[0])


def _semantics(base, sub, L):
    if base == 'POINT':
        lat = digits(0, 2, lambda n: n <= 90)
        latm = digits(0, 4, lambda n: n <= 9000 and n % 100 <= 59)
        lond = digits(3, 3, lambda n: n <= 180)
        lonm = digits(5, 5, lambda n: n <= 18000 and n % 100 <= 59)
        brg = {'PRP_BD': None, 'LLBD_DEG': digits(7, 3, lambda n: n <= 360),
               'LLBD_MIN': digits(11, 3, lambda n: n <= 360)}
        if sub == 'PRP_BD':
            ok = dfa.regex('[A-Z]{1,5}(0|1|2|30|31|32|33|34|35)[0-9]*|[A-Z]{1,5}360[0-9]*')
            ok = dfa.inter(dfa.regex('[A-Z]{1,5}(([012][0-9]{2})|(3[0-5][0-9])|360)[0-9]{3}'), ok)
            return _split(L, [(46, ok)])
        if sub == 'LL_DEG':
            return _split(L, [(42, lat), (44, lond)])
        if sub == 'LL_MIN':
            return _split(L, [(43, latm), (45, lonm)])
        if sub == 'LLBD_DEG':
            return _split(L, [(42, lat), (44, lond), (46, brg[sub])])
        if sub == 'LLBD_MIN':
            return _split(L, [(43, latm), (45, lonm), (46, brg[sub])])
    if base.startswith('SPEED_ALTITUDE'):
        code = sub[len('SPEED_ALTITUDE_'):].replace('_P', '')
        pos = 4 if code[0] == 'M' else 5
        tests = []
        for c in code[1:]:
            w = 3 if c in 'FA' else 4
            if c == 'F':
                tests.append((40 + len(tests) / 10, digits(pos + 1, 3, lambda n: n % 5 == 0)))
            pos += 1 + w
        return _split(L, tests)
    return [((), L)]


_kinds = None


def kinds():
    global _kinds
    if _kinds is not None:
        return _kinds
    long_ = dfa.length_where(lambda n: n > MAXLEN, MAXLEN + 1)
    seen = long_
    merged = {}
    for base, sub, L in _rows():
        L = dfa.minus(L, seen)
        seen = dfa.union(seen, L)
        k = (base, sub)
        merged[k] = dfa.union(merged[k], L) if k in merged else L
    out = []
    for (base, sub), L in merged.items():
        if L.is_empty():
            continue
        for sem, D in _semantics(base, sub, L):
            out.append(Kind(len(out), base, sub, D, sem, base == 'POINT' and sub in LLSUBS))
    out.append(Kind(len(out), 'TOO_LONG', 'UNKNOWN', long_, (), False))
    rest = dfa.minus(dfa.comp(seen), dfa.EPS)
    out.append(Kind(len(out), 'UNKNOWN', 'UNKNOWN', rest, (), False))
    _kinds = out
    return out


# ---------------------------------------------------------------- grammar of error-free fields
START = 'START'
DEAD = 'dead'
ACCEPT = {'DCT', 'PT', 'PTL', 'C0', 'POSTSTAY', 'POSTSTAYL', 'ROUTE', 'SID', 'BV', 'BV0', 'BV1', 'BO', 'BO1', 'BS', 'BS1', 'LAST'}
BRK = {'VFR': 'BV', 'OAT': 'BO', 'IFPSTOP': 'BS'}
END = {'BV': 'IFR', 'BO': 'GAT', 'BS': 'IFPSTART'}


def point(k):
    if k.sem:
        return DEAD
    return 'PTL' if k.ll else 'PT'


def connectors(k, ll, state):
    """tokens that may follow a point"""
    b = k.base
    if b == 'BREAK_START':
        return BRK[k.sub]
    if b == 'DCT':
        return 'DCT'
    if b == 'TRUNCATE' or b in ('SID_STAR', 'STAR'):
        return 'LAST'
    if b == 'C':
        return 'C0'
    if b == 'POINT':
        return point(k)
    if b == 'ROUTE':
        return DEAD if ll else 'ROUTE'
    return DEAD


def step(s, k):
    """successor state of the automaton for token kind k"""
    b = k.base
    if s == DEAD or s == 'LAST':
        return DEAD
    if s == START:
        if b == 'SPEED_ALTITUDE':
            return DEAD if k.sem else 'ADEP'
        return 'BV0' if b == 'SPEED_VFR' else DEAD
    if s == 'ADEP':
        if b == 'DCT':
            return 'DCT'
        if b in ('TRUNCATE', 'STAR'):
            return 'LAST'
        if b == 'POINT':
            return point(k)
        if b in ('SID', 'SID_STAR'):
            return 'SID'
        return DEAD
    if s == 'SID':
        if b in ('TRUNCATE', 'STAR', 'SID_STAR'):
            return 'LAST'
        if b == 'POINT':
            return point(k)
        if b == 'ROUTE':
            return 'ROUTE'
        return DEAD
    if s == 'DCT':
        if b == 'TRUNCATE':
            return 'LAST'
        if b == 'POINT':
            return point(k)
        return 'C0' if b == 'C' else DEAD
    if s == 'ROUTE':
        if b == 'TRUNCATE':
            return 'LAST'
        if b == 'C':
            return 'C0'
        if b == 'POINT' and not k.ll:
            return point(k)
        return DEAD
    if s in ('PT', 'PTL'):
        if b == 'SLASH':
            return 'SL' if s == 'PT' else 'SLL'
        if b == 'STAY':
            return 'STAY' if s == 'PT' else 'STAYL'
        return connectors(k, s == 'PTL', s)
    if s in ('SL', 'SLL'):
        if b == 'SPEED_VFR':
            return 'BV'
        if b == 'SPEED_ALTITUDE' and not k.sem:
            return 'PT' if s == 'SL' else 'PTL'
        return DEAD
    if s in ('STAY', 'STAYL'):
        return 'S' + s if b == 'SLASH' else DEAD
    if s in ('SSTAY', 'SSTAYL'):
        return DEAD if b != 'STAY_TIME' else ('POSTSTAY' if s == 'SSTAY' else 'POSTSTAYL')
    if s in ('POSTSTAY', 'POSTSTAYL'):
        return connectors(k, s == 'POSTSTAYL', s)
    if s == 'C0':
        if b == 'SLASH':
            return 'CC0'
        if b == 'STAY':
            return 'STAY'
        return connectors(k, False, s)
    if s == 'CC0':
        if b == 'C':
            return 'CC1'
        if b == 'POINT' and not k.sem:
            return 'CC1L' if k.ll else 'CC1'
        return DEAD
    if s in ('CC1', 'CC1L'):
        return s.replace('1', '2') if b == 'SLASH' else DEAD
    if s in ('CC2', 'CC2L'):
        if b in ('SPEED_ALTITUDE_ALTITUDE', 'SPEED_ALTITUDE_PLUS') and not k.sem:
            return 'PT' if s == 'CC2' else 'PTL'
        return DEAD
    if s[0] == 'B':
        if b == 'TOO_LONG':
            return DEAD
        base = s[:2]
        if s == 'BV3' or s == 'BV3L' or s == 'BV3X':
            if b == 'SPEED_ALTITUDE' and not k.sem and s != 'BV3X':
                return 'PTL' if s == 'BV3L' else 'PT'
            if b == 'SPEED_VFR' and s != 'BV3X':
                return 'BV'
            return DEAD
        if b == 'BREAK_END' and k.sub == END[base]:
            return base + '1'
        if s.startswith('BV2') and b == 'SLASH':
            return 'BV3' + s[3:]
        if s == 'BV1' and b == 'POINT':
            return 'BV2' + ('X' if k.sem else 'L' if k.ll else '')
        if s in ('BO1', 'BS1') and b == 'POINT':
            return point(k)
        return base
    raise KeyError(s)


_least = {}


def least(s):
    """number of tokens needed to reach state s"""
    if not _least:
        _least[START] = 0
        todo = [START]
        while todo:
            a = todo.pop(0)
            for k in kinds():
                b = step(a, k)
                if b not in _least:
                    _least[b] = _least[a] + 1
                    todo.append(b)
    return _least[s]


# ---------------------------------------------------------------- constants of the documented conversions
FEET = 0.3048
KNOT = 0.514444
KMH = 0.2777778
NM = 1852
RULES = {'V': 'VFR', 'O': 'OAT', 'S': 'IFPS'}
BRKRULE = {'VFR': 'VFR', 'OAT': 'OAT', 'IFPSTOP': 'IFPS'}
