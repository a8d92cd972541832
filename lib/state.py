"""Abstract state: heap, symbolic names, numeric facts, and the decision procedures that refine it."""
import math
import dfa
from terms import *

ANYLANG = dfa.ALL
INTTEXT = dfa.regex(r'-?[0-9]+')
NUMTEXT = dfa.regex(r'-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?|-?inf|nan')
CHAR1 = dfa.length_where(lambda n: n == 1, 2)


class PathEnd(Exception):
    """the current path is infeasible or was pruned"""


class Obj:
    __slots__ = ('cls', 'f', 'label', 'prov')

    def __init__(self, cls, f=None, label=None):
        self.cls = cls
        self.f = f if f is not None else {}
        self.label = label
        self.prov = {}

    def copy(self):
        o = Obj(self.cls, dict(self.f), self.label)
        o.prov = dict(self.prov)
        return o


class Template:
    """generic element of a list segment; variants: tuple of (cls, fields, alts, must)"""


def tm(variants):
    return ('tm', tuple(variants))


class State:
    def __init__(self):
        self.heap = {}
        self.names = {}       # id -> ('sym', alts) | ('iv', lo, hi) | ('fv', lo, hi) | ('def', poly)
        self.facts = set()    # polys known to be >= 0 (integer, several atoms)
        self.conds = {}       # opaque condition -> bool
        self.pfacts = {}      # string part -> language
        self.ghost = {}
        self.clsattr = {}
        self.next = 1000

    def clone(self):
        s = State()
        s.heap = {a: o.copy() for a, o in self.heap.items()}
        s.names = dict(self.names)
        s.facts = set(self.facts)
        s.conds = dict(self.conds)
        s.pfacts = dict(self.pfacts)
        s.ghost = dict(self.ghost)
        s.clsattr = dict(self.clsattr)
        s.next = self.next
        return s

    def restore(self, o):
        """become a copy of another state, in place"""
        c = o.clone()
        for k in ('heap', 'names', 'facts', 'conds', 'pfacts', 'ghost', 'clsattr', 'next'):
            setattr(self, k, getattr(c, k))

    def fresh(self):
        self.next += 1
        return self.next

    def new_sym(self, alts):
        n = self.fresh()
        self.names[n] = ('sym', tuple(alts))
        return n

    def new_iv(self, lo=None, hi=None):
        n = self.fresh()
        self.names[n] = ('iv', lo, hi)
        return n

    def new_fv(self, lo=None, hi=None):
        n = self.fresh()
        self.names[n] = ('fv', lo, hi)
        return n

    def alloc(self, obj):
        a = self.fresh()
        self.heap[a] = obj
        return ('ref', a)

    # ------------------------------------------------ symbols
    def alts(self, sym):
        return self.names[sym][1]

    def symlang(self, sym):
        d = dfa.EMPTY
        seen = set()
        for L, tag in self.names[sym][1]:
            if L.id not in seen:
                seen.add(L.id)
                d = dfa.union(d, L)
        return d

    def symlens(self, sym):
        s = set()
        unb = False
        for L, tag in self.names[sym][1]:
            l, u = L.lengths()
            s |= l
            unb = unb or u
        return s, unb

    # ------------------------------------------------ normalisation
    def resolver(self):
        def nm(n):
            i = self.names.get(n)
            if i is not None and i[0] == 'def':
                return ('P', self.norm(i[1]))
            return n
        return nm

    def repf(self):
        """names were pinned: restate what is known about slices"""
        out = {}
        for q, L in self.pfacts.items():
            if q[0] == 'sl':
                q = ('sl', q[1], self.norm(q[2]), self.norm(q[3]))
            o = out.get(q)
            out[q] = L if o is None or o is L else dfa.inter(o, L)
        self.pfacts = out

    def norm(self, p):
        """replace pinned names and fixed lengths"""
        changed = False
        for a in patoms(p):
            r = self._natom(a)
            if r is not None:
                changed = True
                break
        if not changed:
            return p
        out = P0
        for m, c in p:
            t = pconst(c)
            for a in m:
                r = self._natom(a)
                t = pmul(t, r if r is not None else patom(a))
            out = padd(out, t)
        return out

    def _natom(self, a):
        t = a[0]
        if t == 'iv' or t == 'fv':
            i = self.names.get(a[1])
            if i[0] == 'def':
                return self.norm(i[1])
            if i[1] is not None and i[1] == i[2]:
                return pconst(i[1])
            return None
        if t == 'len':
            l, u = self.symlens(a[1])
            if not u and len(l) == 1:
                return pconst(next(iter(l)))
            return None
        if t == 'int':
            if len(self.names[a[1]][1]) <= 4:
                L = self.slicelang(a[1], a[2], a[3])
                s = L.singleton()
                if s is not None and s.isascii() and s.isdigit():
                    return pconst(int(s))
            return None
        if t in ('trunc', 'floor', 'sqrt', 'inv', 'abs', 'round', 'mod', 'fdiv'):
            q = self.norm(a[1])
            if q != a[1]:
                return self.mkatom(t, q, *a[2:])
            return None
        if t in ('geo', 'opn'):
            qs = tuple([self.norm(q) for q in a[3]])
            if qs != a[3]:
                return patom((t, a[1], a[2], qs))
        return None

    def mkatom(self, t, q, *rest):
        """polynomial for a unary function atom with constant folding"""
        c = pcval(q)
        if c is not None:
            if t == 'trunc':
                return pconst(int(c))
            if t == 'floor':
                return pconst(math.floor(c))
            if t == 'round':
                return pconst(round(c))
            if t == 'sqrt' and c >= 0:
                return pconst(math.sqrt(c))
            if t == 'abs':
                return pconst(abs(c))
            if t == 'inv' and c != 0:
                return pconst(1.0 / c)
            if t == 'mod':
                return pconst(c % rest[0])
            if t == 'fdiv':
                return pconst(c // rest[0])
        if t in ('trunc', 'floor', 'round') and pint(q):
            return q
        lo, hi = self.bounds(q)
        if t == 'floor' and lo is not None and lo >= 0:
            t = 'trunc'
        if t == 'abs' and lo is not None and lo >= 0:
            return q
        if t == 'abs' and hi is not None and hi <= 0:
            return pneg(q)
        if t == 'mod' and lo is not None and hi is not None and lo >= 0 and hi < rest[0]:
            return q
        if t == 'fdiv' and lo is not None and hi is not None and lo >= 0 and hi < rest[0]:
            return P0
        return patom((t, q) + tuple(rest))

    def slicelang(self, sym, lo, hi):
        d = dfa.EMPTY
        seen = set()
        for L, tag in self.names[sym][1]:
            if L.id in seen:
                continue
            seen.add(L.id)
            d = dfa.union(d, dfa.slice_of(L, lo, hi))
        return d

    # ------------------------------------------------ numeric bounds
    def bounds(self, p):
        lo = hi = 0
        for m, c in p:
            l, h = 1, 1
            for a in m:
                l, h = _imul((l, h), self.abounds(a))
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def abounds(self, a):
        t = a[0]
        if t in ('iv', 'fv'):
            i = self.names[a[1]]
            if i[0] == 'def':
                return self.bounds(self.norm(i[1]))
            return i[1], i[2]
        if t == 'len':
            l, u = self.symlens(a[1])
            return (min(l) if l else 0), (None if u else (max(l) if l else None))
        if t == 'int':
            return 0, 10 ** (a[3] - a[2]) - 1
        if t == 'tf':
            return 0, None
        if t in ('trunc', 'round', 'floor'):
            l, h = self.bounds(a[1])
            f = math.floor
            return (None if l is None else f(l)), (None if h is None else math.ceil(h))
        if t == 'sqrt':
            l, h = self.bounds(a[1])
            return (math.sqrt(l) if l is not None and l > 0 else 0), (math.sqrt(h) if h is not None and h >= 0 else None)
        if t == 'abs':
            return 0, None
        if t == 'mod':
            return 0, a[2] - 1 if a[2] > 0 else None
        return None, None

    def lower_of(self, name):
        return self.names[name][1]

    def prove_ge0(self, p, depth=3):
        """p >= 0 follows from bounds and facts"""
        lo, _ = self.bounds(p)
        if lo is not None and lo >= 0:
            return True
        if depth == 0:
            return False
        ats = set(patoms(p))
        for f in self.facts:
            if ats & set(patoms(f)):
                q = psub(p, f)
                if len(q) <= len(p) + 1 and self.prove_ge0(q, depth - 1):
                    return True
        return False

    # ------------------------------------------------ evaluation of a term for concrete digits
    def eval_poly(self, p, env):
        s = 0
        for m, c in p:
            t = c
            for a in m:
                t = t * self.eval_atom(a, env)
            s += t
        return s

    def eval_atom(self, a, env):
        t = a[0]
        if a in env:
            return env[a]
        if t == 'trunc':
            return int(self.eval_poly(a[1], env))
        if t == 'floor':
            return math.floor(self.eval_poly(a[1], env))
        if t == 'round':
            return round(self.eval_poly(a[1], env))
        if t == 'sqrt':
            return math.sqrt(self.eval_poly(a[1], env))
        if t == 'abs':
            return abs(self.eval_poly(a[1], env))
        if t == 'inv':
            return 1.0 / self.eval_poly(a[1], env)
        if t == 'mod':
            return self.eval_poly(a[1], env) % a[2]
        if t == 'fdiv':
            return self.eval_poly(a[1], env) // a[2]
        raise KeyError(a)


def _imul(x, y):
    if x == (1, 1):
        return y
    (a, b), (c, d) = x, y
    if None in (a, b, c, d):
        if a is not None and a >= 0 and c is not None and c >= 0:
            return a * c, None
        return None, None
    v = [a * c, a * d, b * c, b * d]
    return min(v), max(v)


def leaf_atoms(p, out):
    """non-function atoms below p; returns False when an opaque function atom occurs"""
    ok = True
    for a in patoms(p):
        if a[0] in ('trunc', 'floor', 'round', 'sqrt', 'abs', 'inv', 'mod', 'fdiv'):
            ok = leaf_atoms(a[1], out) and ok
        elif a[0] in ('geo', 'opn'):
            ok = False
        else:
            if a not in out:
                out.append(a)
    return ok


def segs_len(segs):
    p = P0
    n = 0
    for s in segs:
        if s[0] == 'e':
            n += 1
        else:
            p = padd(p, s[1])
    return paddc(p, n)
