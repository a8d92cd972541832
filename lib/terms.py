"""Value terms of the abstract domain: polynomials over atoms, symbolic strings, renaming.

Every value is a tagged tuple (hashable, comparable):
  ('c', type, v)              constant                ('enum', cls, name, int)   enum member
  ('num', poly, kind)         symbolic number         ('str', parts)             symbolic string
  ('proj', sym, field)        field of a symbolic element that depends on its (unknown) variant
  ('ref', addr)               heap object             ('tup', items)             tuple
  ('any', kind, id)           unknown value           ('cls', q) ('fn', id) ('bm', self, id)
  ('bi', name) ('bbm', self, name) ('mod', name)      ('exc', cls, msg)
"""
from functools import lru_cache
from fractions import Fraction

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


class Gap(Exception):
    """the analysed code uses a construct the analysis has no transfer function for"""


def C(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return ('c', type(v).__name__, v)


def const(v):
    return v[0] == 'c'


def is_str(v):
    return v[0] == 'str' or (v[0] == 'c' and v[1] == 'str') or (v[0] == 'any' and v[1] == 'str')


def is_num(v):
    return v[0] == 'num' or v[0] == 'enum' or (v[0] == 'c' and v[1] in ('int', 'float', 'bool')) or \
        (v[0] == 'any' and v[1] in ('int', 'float', 'bool'))


# ------------------------------------------------------------------ polynomials
@lru_cache(maxsize=200000)
def akey(a):
    return repr(a)


def _mk(d):
    items = []
    for m, c in d.items():
        if c != 0 and not (isinstance(c, float) and abs(c) < 1e-300):
            items.append((m, c))
    items.sort(key=lambda t: akey(t[0]))
    return tuple(items)


P0 = ()


def pconst(c):
    return (((), c),) if c != 0 else ()


def patom(a, c=1):
    return (((a,), c),)


def padd(p, q, k=1):
    if not q:
        return p
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + c * k
    return _mk(d)


def paddc(p, c):
    return padd(p, pconst(c))


def pneg(p):
    return tuple((m, -c) for m, c in p)


def psub(p, q):
    return padd(p, q, -1)


def pscale(p, k):
    return _mk({m: c * k for m, c in p})


def pmul(p, q):
    d = {}
    for m, c in p:
        for m2, c2 in q:
            mm = tuple(sorted(m + m2, key=akey))
            d[mm] = d.get(mm, 0) + c * c2
    return _mk(d)


def pcval(p):
    """constant value or None"""
    if not p:
        return 0
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def patoms(p):
    out = []
    for m, c in p:
        for a in m:
            if a not in out:
                out.append(a)
    return out


def pint(p):
    """all coefficients integral and all atoms integer-valued?"""
    for m, c in p:
        if not isinstance(c, int):
            return False
        for a in m:
            if a[0] not in ('len', 'int', 'iv', 'trunc', 'floor', 'mod', 'fdiv', 'tf'):
                return False
            if a[0] in ('mod', 'fdiv') and not pint(a[1]):
                return False
    return True


def pclose(p, q):
    """equality up to float rounding of the coefficients (atoms compared structurally, same tolerance)"""
    if p == q:
        return True
    if len(p) != len(q):
        return False
    used = set()
    for m, c in p:
        for j, (m2, c2) in enumerate(q):
            if j in used:
                continue
            if len(m) == len(m2) and all(_aclose(a, b) for a, b in zip(m, m2)) and _cclose(c, c2):
                used.add(j)
                break
        else:
            return False
    return True


def _cclose(a, b):
    if a == b:
        return True
    try:
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    except TypeError:
        return False


def _aclose(a, b):
    if a == b:
        return True
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if x == y:
            continue
        if isinstance(x, tuple) and isinstance(y, tuple):
            if _ispoly(x) and _ispoly(y):
                if not pclose(x, y):
                    return False
            elif len(x) == len(y) and all(u == w or (_ispoly(u) and _ispoly(w) and pclose(u, w))
                                          for u, w in zip(x, y)):
                continue
            else:
                return False
        elif isinstance(x, (int, float)) and isinstance(y, (int, float)) and _cclose(x, y):
            continue
        else:
            return False
    return True


def _ispoly(x):
    return isinstance(x, tuple) and all(isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple)
                                        and isinstance(t[1], (int, float)) for t in x)


def NUM(p, kind):
    c = pcval(p)
    if c is not None:
        if kind == 'float':
            return ('c', 'float', float(c))
        if isinstance(c, float) and c.is_integer():
            c = int(c)
        return ('c', 'int', c) if isinstance(c, int) else ('c', 'float', c)
    return ('num', p, kind)


def poly_of(v):
    """polynomial of a numeric value or None"""
    if v[0] == 'num':
        return v[1]
    if v[0] == 'c' and v[1] in ('int', 'float'):
        x = v[2]
        if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
            return None
        return pconst(x)
    if v[0] == 'c' and v[1] == 'bool':
        return pconst(int(v[2]))
    if v[0] == 'enum' and isinstance(v[3], int):
        return pconst(v[3])
    return None


def kind_of(v):
    if v[0] == 'num':
        return v[2]
    if v[0] == 'c':
        return 'int' if v[1] == 'bool' else v[1]
    if v[0] == 'enum':
        return 'int'
    if v[0] == 'any':
        return v[1]
    if v[0] == 'proj':
        return 'int'
    return None


# ------------------------------------------------------------------ strings
def STR(parts):
    out = []
    for p in parts:
        if p[0] == 'lit':
            if not p[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
                continue
        elif p[0] == 'sl':
            if p[2] == p[3]:
                continue
            if out and out[-1][0] == 'sl' and out[-1][1] == p[1] and out[-1][3] == p[2]:
                out[-1] = ('sl', p[1], out[-1][2], p[3])
                continue
        out.append(p)
    if not out:
        return ('c', 'str', '')
    if len(out) == 1 and out[0][0] == 'lit':
        return ('c', 'str', out[0][1])
    return ('str', tuple(out))


def parts_of(v):
    if v[0] == 'str':
        return v[1]
    if v[0] == 'c' and v[1] == 'str':
        return (('lit', v[2]),) if v[2] else ()
    return None


def full(sym):
    return ('str', (('sl', sym, P0, patom(('len', sym))),))


# ------------------------------------------------------------------ traversal
def names_in(x, out):
    """collect name ids occurring in a value / poly / part / atom"""
    if not isinstance(x, tuple) or not x:
        return
    t = x[0]
    if t == 'c' or t == 'enum' or t == 'ref' or t == 'any' or t == 'lit':
        return
    if t == 'num':
        _pnames(x[1], out)
        return
    if t == 'str':
        for p in x[1]:
            names_in(p, out)
        return
    if t == 'sl':
        out.setdefault(x[1])
        _pnames(x[2], out)
        _pnames(x[3], out)
        return
    if t == 'map':
        names_in(x[1], out)
        return
    if t == 'fnp':
        for a in x[2]:
            names_in(a, out)
        return
    if t == 'proj':
        out.setdefault(x[1])
        return
    if t == 'tup':
        for a in x[1]:
            names_in(a, out)
        return
    if t == 'bm' or t == 'bbm':
        names_in(x[1], out)
        return


def _pnames(p, out):
    for m, c in p:
        for a in m:
            _anames(a, out)


def _anames(a, out):
    t = a[0]
    if t in ('len', 'int', 'iv', 'fv', 'tf'):
        out.setdefault(a[1])
    elif t in ('trunc', 'floor', 'sqrt', 'inv', 'abs', 'round'):
        _pnames(a[1], out)
    elif t in ('mod', 'fdiv'):
        _pnames(a[1], out)
    elif t in ('geo', 'opn'):
        for q in a[3]:
            _pnames(q, out)
    elif t == 'hash':
        pass
    else:
        raise Gap('atom %r' % (a,))


def refs_in(v, out):
    t = v[0]
    if t == 'ref':
        out.setdefault(v[1])
    elif t == 'tup':
        for a in v[1]:
            refs_in(a, out)
    elif t in ('bm', 'bbm'):
        refs_in(v[1], out)


class Ren:
    """renaming / substitution: nm: name -> name | ('P', poly) | ('S', strvalue); am: addr -> addr"""

    def __init__(self, nm, am):
        self.nm, self.am = nm, am
        self.memo = {}

    def v(self, x):
        t = x[0]
        if t in ('c', 'enum', 'any', 'cls', 'fn', 'bi', 'mod'):
            return x
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._v(x)
        return r

    def _v(self, x):
        t = x[0]
        if t == 'ref':
            return ('ref', self.am(x[1]))
        if t == 'num':
            return NUM(self.p(x[1]), x[2])
        if t == 'str':
            out = []
            for q in x[1]:
                out.extend(self.part(q))
            return STR(out)
        if t == 'proj':
            n = self.nm(x[1])
            if isinstance(n, tuple):
                raise Gap('projection of a generalised element')
            return ('proj', n, x[2])
        if t == 'tup':
            return ('tup', tuple([self.v(a) for a in x[1]]))
        if t in ('bm', 'bbm'):
            return (t, self.v(x[1]), x[2])
        if t == 'exc':
            return x
        if t == 'clo':
            raise Gap('closure escapes into a summarised context')
        raise Gap('cannot rename %r' % (x,))

    def part(self, q):
        t = q[0]
        if t == 'lit':
            return [q]
        if t == 'sl':
            n = self.nm(q[1])
            if isinstance(n, tuple):
                assert n[0] == 'S', n
                val = n[1]
                if q[2] == P0 and q[3] == patom(('len', q[1])):
                    return list(parts_of(val))
                pp = parts_of(val)
                if len(pp) == 1 and pp[0][0] == 'sl':
                    base = pp[0]
                    lo = padd(base[2], self.p(q[2]))
                    if q[3] == patom(('len', q[1])):
                        hi = base[3]
                    else:
                        hi = padd(base[2], self.p(q[3]))
                    return [('sl', base[1], lo, hi)]
                raise Gap('slice of a generalised string')
            return [('sl', n, self.p(q[2]), self.p(q[3]))]
        if t == 'map':
            inner = self.part(q[1])
            return [('map', i, q[2]) if i[0] != 'lit' else ('lit', apply_map(i[1], q[2])) for i in inner]
        if t == 'fnp':
            return [('fnp', q[1], tuple([self.v(a) for a in q[2]]), q[3])]
        raise Gap('part %r' % (q,))

    def p(self, poly):
        d = {}
        simple = True
        for m, c in poly:
            mm = []
            for a in m:
                b = self.a(a)
                if isinstance(b, list):
                    simple = False
                    break
                mm.append(b)
            if not simple:
                break
            if len(mm) > 1:
                mm.sort(key=akey)
            mm = tuple(mm)
            d[mm] = d.get(mm, 0) + c
        if simple:
            return _mk(d)
        res = P0
        for m, c in poly:
            t = pconst(c)
            for a in m:
                b = self.a(a)
                t = pmul(t, b[0] if isinstance(b, list) else patom(b))
            res = padd(res, t)
        return res

    def a(self, a):
        """atom -> atom or [poly]"""
        r = self.memo.get(a)
        if r is None:
            r = self.memo[a] = self._a(a)
        return r

    def _a(self, a):
        t = a[0]
        if t in ('iv', 'fv'):
            n = self.nm(a[1])
            if isinstance(n, tuple):
                return [n[1]]
            return (t, n)
        if t == 'len':
            n = self.nm(a[1])
            if isinstance(n, tuple):
                if n[0] == 'P':
                    return [n[1]]
                return [len_of_parts(parts_of(n[1]))]
            return (t, n)
        if t == 'int':
            n = self.nm(a[1])
            if isinstance(n, tuple):
                raise Gap('digits of a generalised string')
            return (t, n) + a[2:]
        if t == 'tf':
            n = self.nm(a[1])
            if isinstance(n, tuple):
                raise Gap('field of a generalised element')
            return (t, n, a[2])
        if t in ('trunc', 'floor', 'sqrt', 'inv', 'abs', 'round'):
            return (t, self.p(a[1]))
        if t in ('mod', 'fdiv'):
            return (t, self.p(a[1]), a[2])
        if t in ('geo', 'opn'):
            return (t, a[1], a[2], tuple([self.p(q) for q in a[3]]))
        raise Gap('atom %r' % (a,))


def len_of_parts(parts):
    p = P0
    for q in parts:
        if q[0] == 'lit':
            p = paddc(p, len(q[1]))
        elif q[0] == 'sl':
            p = padd(p, psub(q[3], q[2]))
        else:
            raise Gap('length of %s' % q[0])
    return p


def apply_map(s, mapping):
    d = dict(mapping)
    return ''.join(d.get(ch, ch) for ch in s)


def compose_map(m1, m2src, m2dst):
    """mapping m1 followed by str.replace(m2src, m2dst) with a one-character source"""
    d = dict(m1)
    out = {}
    for k, v in d.items():
        out[k] = v.replace(m2src, m2dst)
    if m2src not in out:
        out[m2src] = m2dst
    return tuple(sorted((k, v) for k, v in out.items() if k != v))
