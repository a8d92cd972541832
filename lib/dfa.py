"""Regular languages as minimal, hash-consed DFAs.

The alphabet is a finite abstraction of Unicode: every ASCII character is a symbol of its own and all
other characters are grouped into classes that the predicates used in the analysed code can tell apart.
"""
import re._parser as sp
import re._constants as sc

ASCII = [chr(i) for i in range(128)]
# non-ASCII representatives: decimal digit, other numeric (isdigit), upper-case letter, lower-case letter,
# other letter, whitespace, anything else.  Two extra representatives keep XML-illegal code points apart.
REPS = ['\u0663', '\u00b2', '\u00c9', '\u00e9', '\u4e2d', '\u00a0', '\u20ac', '\ufffe']
SYMS = ASCII + REPS
N = len(SYMS)
IDX = {c: i for i, c in enumerate(SYMS)}


def symclass(ch):
    """index of the abstract symbol that stands for a concrete character"""
    i = IDX.get(ch)
    if i is not None:
        return i
    if ch.isdecimal():
        return IDX['\u0663']
    if ch.isdigit():
        return IDX['\u00b2']
    if ch.isspace():
        return IDX['\u00a0']
    if ch.isalpha():
        if ch.isupper():
            return IDX['\u00c9']
        if ch.islower():
            return IDX['\u00e9']
        return IDX['\u4e2d']
    if ord(ch) in (0xfffe, 0xffff) or 0xd800 <= ord(ch) <= 0xdfff:
        return IDX['\ufffe']
    return IDX['\u20ac']


_table = {}


class DFA:
    """complete minimal DFA; start state is 0; identity comparison is language equality"""
    __slots__ = ('trans', 'acc', 'id', '_lens', '_cache')

    def __repr__(self):
        return 'L%d' % self.id

    def is_empty(self):
        return self is EMPTY

    def accepts(self, s):
        q = 0
        for ch in s:
            q = self.trans[q][symclass(ch)]
        return self.acc[q]

    def lengths(self, cap=64):
        """(set of word lengths <= cap, unbounded?)"""
        if self._lens is not None:
            return self._lens
        live = self._live()
        cur = {0} if 0 in live else set()
        res = set()
        n = 0
        while cur and n <= cap:
            if any(self.acc[q] for q in cur):
                res.add(n)
            nxt = set()
            for q in cur:
                nxt.update(t for t in set(self.trans[q]) if t in live)
            cur = nxt
            n += 1
        self._lens = (frozenset(res), bool(cur))
        return self._lens

    def _live(self):
        if 'live' in self._cache:
            return self._cache['live']
        rev = {}
        for q, row in enumerate(self.trans):
            for t in set(row):
                rev.setdefault(t, set()).add(q)
        seen = {q for q in range(len(self.acc)) if self.acc[q]}
        todo = list(seen)
        while todo:
            q = todo.pop()
            for p in rev.get(q, ()):
                if p not in seen:
                    seen.add(p)
                    todo.append(p)
        self._cache['live'] = seen
        return seen

    def sample(self):
        """a shortest accepted word (None when empty)"""
        if self is EMPTY:
            return None
        prev = {0: None}
        todo = [0]
        k = 0
        pref = [IDX[c] for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'] + list(range(N))
        while k < len(todo):
            q = todo[k]
            k += 1
            if self.acc[q]:
                out = []
                while prev[q] is not None:
                    q, c = prev[q]
                    out.append(SYMS[c])
                return ''.join(reversed(out))
            for c in pref:
                t = self.trans[q][c]
                if t not in prev:
                    prev[t] = (q, c)
                    todo.append(t)
        return None

    def singleton(self):
        """the only word of the language, or None"""
        if 'single' in self._cache:
            return self._cache['single']
        r = None
        ln, unb = self.lengths()
        if not unb and len(ln) == 1:
            live = self._live()
            q = 0
            out = []
            ok = True
            for _ in range(next(iter(ln))):
                nx = [c for c in range(N) if self.trans[q][c] in live]
                if len(nx) != 1 or SYMS[nx[0]] in REPS:
                    ok = False
                    break
                out.append(SYMS[nx[0]])
                q = self.trans[q][nx[0]]
            if ok:
                r = ''.join(out)
        self._cache['single'] = r
        return r

    def words(self, limit):
        """all words if there are at most `limit` (non-ASCII never enumerated), else None"""
        live = self._live()
        if 0 not in live:
            return []
        ln, unb = self.lengths()
        if unb:
            return None
        cur = [('', 0)]
        out = []
        while cur:
            nxt = []
            for w, q in cur:
                if self.acc[q]:
                    out.append(w)
                    if len(out) > limit:
                        return None
                for c in range(N):
                    t = self.trans[q][c]
                    if t in live:
                        if SYMS[c] in REPS:
                            return None
                        nxt.append((w + SYMS[c], t))
                        if len(nxt) > 4 * limit:
                            return None
            cur = nxt
        return out

    def alphabet(self):
        """set of symbols occurring in some word"""
        if 'alpha' in self._cache:
            return self._cache['alpha']
        live = self._live()
        reach = {0}
        todo = [0]
        out = set()
        while todo:
            q = todo.pop()
            if q not in live:
                continue
            for c in range(N):
                t = self.trans[q][c]
                if t in live:
                    out.add(SYMS[c])
                    if t not in reach:
                        reach.add(t)
                        todo.append(t)
        self._cache['alpha'] = out
        return out


def _partition(cols):
    """symbols with the same key get the same group; groups are numbered by their first symbol"""
    num = {}
    m = tuple([num.setdefault(c, len(num)) for c in cols])
    reps = [None] * len(num)
    for c, g in enumerate(m):
        if reps[g] is None:
            reps[g] = c
    return m, tuple(reps)


_parts = {}


def _groups(d):
    """(group of every symbol, representative symbol of every group): symbols the automaton does not tell apart"""
    g = d._cache.get('groups')
    if g is None:
        g = _partition(zip(*d.trans))
        g = d._cache['groups'] = _parts.setdefault(g, g)
    return g


def _make(trans, acc):
    """minimise (Moore) + canonical numbering + hash-cons"""
    m, reps = _partition(zip(*trans))
    return _minimal([[row[c] for c in reps] for row in trans], acc, m)


def _minimal(trans, acc, m):
    n = len(acc)
    # reachable
    order = [0]
    seen = {0}
    for q in order:
        for t in trans[q]:
            if t not in seen:
                seen.add(t)
                order.append(t)
    part = [1 if x else 0 for x in acc]
    k = len({part[q] for q in order})
    while True:
        sig = {}
        new = [0] * n
        for q in order:
            s = (part[q], tuple([part[t] for t in trans[q]]))
            new[q] = sig.setdefault(s, len(sig))
        part = new
        if len(sig) == k:
            break
        k = len(sig)
    rep = {}
    for q in order:
        rep.setdefault(part[q], q)
    num = {part[0]: 0}
    lst = [part[0]]
    rows = []
    i = 0
    while i < len(lst):
        row = []
        for t in trans[rep[lst[i]]]:
            b = part[t]
            if b not in num:
                num[b] = len(lst)
                lst.append(b)
            row.append(num[b])
        rows.append(tuple([row[g] for g in m]))
        i += 1
    accs = tuple([bool(acc[rep[b]]) for b in lst])
    key = (tuple(rows), accs)
    d = _table.get(key)
    if d is None:
        d = DFA.__new__(DFA)
        d.trans, d.acc, d.id, d._lens, d._cache = key[0], key[1], len(_table), None, {}
        _table[key] = d
    return d


EMPTY = _make([[0] * N], [False])
ALL = _make([[0] * N], [True])
EPS = _make([[1] * N, [1] * N], [True, False])

_binmemo = {}


_joint = {}


def _product(a, b, f):
    ga, gb = _groups(a), _groups(b)
    k = (id(ga), id(gb))
    jt = _joint.get(k)
    if jt is None:
        jt = _joint[k] = _partition(zip(ga[0], gb[0]))
    m, reps = jt
    num = {(0, 0): 0}
    lst = [(0, 0)]
    rows = []
    for p, q in lst:
        row = []
        tp, tq = a.trans[p], b.trans[q]
        for c in reps:
            t = (tp[c], tq[c])
            j = num.get(t)
            if j is None:
                j = num[t] = len(lst)
                lst.append(t)
            row.append(j)
        rows.append(row)
    return _minimal(rows, [f(a.acc[p], b.acc[q]) for p, q in lst], m)


def _profile(d, depth=8):
    """for the first positions: the set of symbols (bit mask) a word can have there"""
    r = d._cache.get('prof')
    if r is None:
        live = d._live()
        m, reps = _groups(d)
        bits = [0] * len(reps)
        for c, g in enumerate(m):
            bits[g] |= 1 << c
        cur = {0}
        out = []
        for _ in range(depth):
            mask, nxt = 0, set()
            for q in cur:
                for g, c in enumerate(reps):
                    t = d.trans[q][c]
                    if t in live:
                        mask |= bits[g]
                        nxt.add(t)
            out.append(mask)
            cur = nxt
        r = d._cache['prof'] = out
    return r


def _apart(a, b):
    """cheap sufficient test for an empty intersection (False: unknown)"""
    la, ua = a.lengths()
    lb, ub = b.lengths()
    if not ua and not ub:
        common = la & lb
        if not common:
            return True
        lo = min(common)
    else:
        lo = max(min(la, default=64), min(lb, default=64))
    pa, pb = _profile(a), _profile(b)
    for i in range(min(lo, len(pa))):
        if not pa[i] & pb[i]:
            return True
    return False


def inter(a, b):
    if a is b or b is ALL:
        return a
    if a is ALL:
        return b
    if a is EMPTY or b is EMPTY:
        return EMPTY
    k = ('i', min(a.id, b.id), max(a.id, b.id))
    r = _binmemo.get(k)
    if r is None:
        r = _binmemo[k] = EMPTY if _apart(a, b) else _product(a, b, lambda x, y: x and y)
    return r


def union(a, b):
    if a is b or b is EMPTY:
        return a
    if a is EMPTY:
        return b
    if a is ALL or b is ALL:
        return ALL
    k = ('u', min(a.id, b.id), max(a.id, b.id))
    r = _binmemo.get(k)
    if r is None:
        r = _binmemo[k] = _product(a, b, lambda x, y: x or y)
    return r


def minus(a, b):
    if a is EMPTY or a is b:
        return EMPTY
    if b is EMPTY:
        return a
    k = ('m', a.id, b.id)
    r = _binmemo.get(k)
    if r is None:
        r = _binmemo[k] = a if _apart(a, b) else _product(a, b, lambda x, y: x and not y)
    return r


def comp(a):
    return minus(ALL, a)


def subset(a, b):
    return minus(a, b) is EMPTY


# ---------------------------------------------------------------- NFA building blocks
class _NFA:
    def __init__(self):
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def det(self, s, f):
        def close(ss):
            ss = set(ss)
            todo = list(ss)
            while todo:
                q = todo.pop()
                for t in self.eps[q]:
                    if t not in ss:
                        ss.add(t)
                        todo.append(t)
            return frozenset(ss)
        st = close([s])
        num = {st: 0}
        lst = [st]
        rows = []
        i = 0
        while i < len(lst):
            cur = lst[i]
            tgt = [set() for _ in range(N)]
            for q in cur:
                for cs, t in self.tr[q]:
                    for c in cs:
                        tgt[c].add(t)
            row = []
            memo = {}
            for c in range(N):
                fs = frozenset(tgt[c])
                t = memo.get(fs)
                if t is None:
                    t = close(fs)
                    memo[fs] = t
                if t not in num:
                    num[t] = len(lst)
                    lst.append(t)
                row.append(num[t])
            rows.append(row)
            i += 1
        return _make(rows, [f in x for x in lst])


class Unsupported(Exception):
    pass


def _catset(cat, flags):
    asc = bool(flags & 256)
    name = str(cat)
    if name.endswith('NOT_DIGIT'):
        return set(range(N)) - _catset(sc.CATEGORY_DIGIT, flags)
    if name.endswith('NOT_SPACE'):
        return set(range(N)) - _catset(sc.CATEGORY_SPACE, flags)
    if name.endswith('NOT_WORD'):
        return set(range(N)) - _catset(sc.CATEGORY_WORD, flags)
    if name.endswith('DIGIT'):
        return {i for i, c in enumerate(SYMS) if (c.isdecimal() if not asc else c in '0123456789')}
    if name.endswith('SPACE'):
        return {i for i, c in enumerate(SYMS) if c.isspace() and (not asc or ord(c) < 128)}
    if name.endswith('WORD'):
        return {i for i, c in enumerate(SYMS) if (c.isalnum() or c == '_') and (not asc or ord(c) < 128)}
    raise Unsupported('regex category %s' % name)


def _fold(cs, flags):
    if not flags & 2:
        return cs
    out = set(cs)
    for i in list(cs):
        c = SYMS[i]
        for v in (c.lower(), c.upper()):
            if len(v) == 1:
                out.add(symclass(v))
    return out


def _range(lo, hi):
    out = set()
    for i, c in enumerate(SYMS):
        if ord(c) < 128:
            if lo <= ord(c) <= hi:
                out.add(i)
    if hi >= 128:
        if lo <= 128 and hi >= 0x10ffff:
            out |= set(range(128, N))
        else:
            raise Unsupported('regex range over non-ASCII characters')
    return out


def _build(n, p, s, flags):
    """append pattern p after NFA state s, return end state"""
    for op, av in p:
        if op is sc.LITERAL:
            if av > 127:
                raise Unsupported('non-ASCII literal in regex')
            t = n.new()
            n.tr[s].append((_fold({av}, flags), t))
            s = t
        elif op is sc.NOT_LITERAL:
            t = n.new()
            n.tr[s].append((set(range(N)) - _fold({symclass(chr(av))}, flags), t))
            s = t
        elif op is sc.ANY:
            t = n.new()
            cs = set(range(N))
            if not flags & 16:
                cs.discard(IDX['\n'])
            n.tr[s].append((cs, t))
            s = t
        elif op is sc.IN:
            cs = set()
            neg = False
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    if a > 127:
                        raise Unsupported('non-ASCII literal in regex')
                    cs.add(a)
                elif o is sc.RANGE:
                    cs |= _range(*a)
                elif o is sc.CATEGORY:
                    cs |= _catset(a, flags)
                else:
                    raise Unsupported('regex set item %s' % o)
            cs = _fold(cs, flags)
            if neg:
                cs = set(range(N)) - cs
            t = n.new()
            n.tr[s].append((cs, t))
            s = t
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
            lo, hi, sub = av
            for _ in range(lo):
                s = _build(n, sub, s, flags)
            if hi is sc.MAXREPEAT:
                a = n.new()
                n.eps[s].append(a)
                b = _build(n, sub, a, flags)
                n.eps[b].append(a)
                t = n.new()
                n.eps[a].append(t)
                s = t
            else:
                end = n.new()
                n.eps[s].append(end)
                for _ in range(hi - lo):
                    s = _build(n, sub, s, flags)
                    n.eps[s].append(end)
                s = end
        elif op is sc.SUBPATTERN:
            s = _build(n, av[3], s, (flags | av[1]) & ~av[2])
        elif op is sc.BRANCH:
            end = n.new()
            for alt in av[1]:
                a = n.new()
                n.eps[s].append(a)
                e = _build(n, alt, a, flags)
                n.eps[e].append(end)
            s = end
        elif str(op) == 'ATOMIC_GROUP':
            s = _build(n, av, s, flags)
        else:
            raise Unsupported('regex operator %s' % (op,))
    return s


_rememo = {}


def regex(pattern, flags=0, mode='fullmatch'):
    """language of strings for which re.<mode>(pattern, s) matches"""
    key = (pattern, flags, mode)
    if key in _rememo:
        return _rememo[key]
    p = sp.parse(pattern, flags)
    fl = p.state.flags
    items = list(p)
    pre_any = mode == 'search'
    post_any = mode in ('search', 'match')
    post_nl = False
    while items and items[0][0] is sc.AT:
        a = str(items[0][1])
        if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING') and not fl & 8:
            pre_any = False
            items.pop(0)
        else:
            raise Unsupported('regex anchor %s' % a)
    while items and items[-1][0] is sc.AT:
        a = str(items[-1][1])
        if a == 'AT_END_STRING':
            post_any = False
        elif a == 'AT_END' and not fl & 8:
            if mode != 'fullmatch':
                post_any = False
                post_nl = True
        else:
            raise Unsupported('regex anchor %s' % a)
        items.pop()
    n = _NFA()
    s = n.new()
    if pre_any:
        n.tr[s].append((set(range(N)), s))
    e = _build(n, items, s, fl)
    if post_any:
        f = n.new()
        n.eps[e].append(f)
        n.tr[f].append((set(range(N)), f))
        e = f
    elif post_nl:
        f = n.new()
        n.eps[e].append(f)
        n.tr[e].append(({IDX['\n']}, f))
        e = f
    d = n.det(s, e)
    _rememo[key] = d
    return d


_litmemo = {}


def lit(s):
    d = _litmemo.get(s)
    if d is None:
        for ch in s:
            if ch not in IDX or ch in REPS:
                raise Unsupported('non-ASCII literal %r' % s)
        n = len(s)
        dead = n + 1
        rows = []
        for i, ch in enumerate(s):
            row = [dead] * N
            row[IDX[ch]] = i + 1
            rows.append(row)
        rows.append([dead] * N)
        rows.append([dead] * N)
        d = _litmemo[s] = _make(rows, [False] * n + [True, False])
    return d


def finite(words):
    """language of a finite set of words (trie)"""
    rows = [[0] * N]      # 0 = dead placeholder, fixed below; states are 1-based
    acc = [False]
    nodes = [{}]
    accs = [False]
    for w in words:
        q = 0
        for ch in w:
            c = symclass(ch)
            t = nodes[q].get(c)
            if t is None:
                t = len(nodes)
                nodes.append({})
                accs.append(False)
                nodes[q][c] = t
            q = t
        accs[q] = True
    dead = len(nodes)
    rows = []
    for nd in nodes:
        row = [dead] * N
        for c, t in nd.items():
            row[c] = t
        rows.append(row)
    rows.append([dead] * N)
    return _make(rows, accs + [False])


def chars(pred):
    """one-character words whose character satisfies pred"""
    rows = [[1 if pred(c) else 2 for c in SYMS], [2] * N, [2] * N]
    return _make(rows, [False, True, False])


def allchars(pred, empty=True):
    """words all of whose characters satisfy pred"""
    if empty:
        return _make([[0 if pred(c) else 1 for c in SYMS], [1] * N], [True, False])
    return _make([[1 if pred(c) else 2 for c in SYMS], [1 if pred(c) else 2 for c in SYMS], [2] * N],
                 [False, True, False])


def concat(a, b):
    k = ('c', a.id, b.id)
    r = _binmemo.get(k)
    if r is None:
        n = _NFA()
        sa = [n.new() for _ in a.acc]
        sb = [n.new() for _ in b.acc]
        f = n.new()
        for d, ss in ((a, sa), (b, sb)):
            live = d._live()
            for q, row in enumerate(d.trans):
                if q not in live:
                    continue
                by = {}
                for c, t in enumerate(row):
                    if t in live:
                        by.setdefault(t, set()).add(c)
                for t, cs in by.items():
                    n.tr[ss[q]].append((cs, ss[t]))
        for q, x in enumerate(a.acc):
            if x:
                n.eps[sa[q]].append(sb[0])
        for q, x in enumerate(b.acc):
            if x:
                n.eps[sb[q]].append(f)
        r = _binmemo[k] = n.det(sa[0], f)
    return r


def length_where(pred, cap):
    """words whose length n satisfies pred(n); pred must be constant for n > cap"""
    rows = []
    acc = []
    for i in range(cap + 2):
        rows.append([min(i + 1, cap + 1)] * N)
        acc.append(bool(pred(i)))
    return _make(rows, acc)


def slice_of(d, lo, hi):
    """language { w[lo:hi] : w in d } for non-negative lo, hi (hi None = to the end), Python clamping"""
    k = ('s', d.id, lo, hi)
    r = _binmemo.get(k)
    if r is not None:
        return r
    live = d._live()
    n = _NFA()
    f = n.new()
    # states (q, pos) with pos counted up to lo, then up to hi
    ids = {}

    def st(q, pos):
        if (q, pos) not in ids:
            ids[(q, pos)] = n.new()
            todo.append((q, pos))
        return ids[(q, pos)]
    todo = []
    s0 = n.new()
    if 0 in live:
        n.eps[s0].append(st(0, 0))
    while todo:
        q, pos = todo.pop()
        me = ids[(q, pos)]
        if d.acc[q]:
            n.eps[me].append(f)
        for t in set(d.trans[q]):
            if t not in live:
                continue
            if pos < lo:
                n.eps[me].append(st(t, pos + 1))
            elif hi is None:
                n.tr[me].append(({c for c in range(N) if d.trans[q][c] == t}, st(t, pos)))
            elif pos < hi:
                n.tr[me].append(({c for c in range(N) if d.trans[q][c] == t}, st(t, pos + 1)))
            else:
                n.eps[me].append(st(t, pos))
    r = _binmemo[k] = n.det(s0, f)
    return r


def slice_in(lo, hi, lang):
    """language { w : w[lo:hi] in lang } for non-negative lo <= hi (hi None = to the end)"""
    k = ('S', lo, hi, lang.id)
    r = _binmemo.get(k)
    if r is not None:
        return r
    # deterministic: state (pos, q)
    ids = {}
    order = []

    def st(pos, q):
        if (pos, q) not in ids:
            ids[(pos, q)] = len(order)
            order.append((pos, q))
        return ids[(pos, q)]
    st(0, 0)
    rows = []
    i = 0
    while i < len(order):
        pos, q = order[i]
        if pos < lo:
            row = [st(pos + 1, q)] * N
        elif hi is None or pos < hi:
            np = pos if hi is None else pos + 1
            row = [st(np, lang.trans[q][c]) for c in range(N)]
        else:
            row = [st(pos, q)] * N
        rows.append(row)
        i += 1
    r = _binmemo[k] = _make(rows, [lang.acc[q] for _, q in order])
    return r


def reverse(d):
    k = ('r', d.id)
    r = _binmemo.get(k)
    if r is None:
        live = d._live()
        n = _NFA()
        ss = [n.new() for _ in d.acc]
        s0 = n.new()
        for q, row in enumerate(d.trans):
            if q not in live:
                continue
            by = {}
            for c, t in enumerate(row):
                if t in live:
                    by.setdefault(t, set()).add(c)
            for t, cs in by.items():
                n.tr[ss[t]].append((cs, ss[q]))
            if d.acc[q]:
                n.eps[s0].append(ss[q])
        r = _binmemo[k] = n.det(s0, ss[0])
    return r


def digits_where(pred, width):
    """digit strings of exactly `width` ASCII digits whose value satisfies pred (by enumeration, width <= 4)"""
    lev = [bool(pred(v)) for v in range(10 ** width)]
    # hash-consed suffix tree, level by level; node 0: accept, 1: dead
    rows, acc, num = [[1] * N, [1] * N], [True, False], {}
    ids = [0 if x else 1 for x in lev]
    for _ in range(width):
        nxt = []
        for i in range(0, len(ids), 10):
            t = tuple(ids[i:i + 10])
            if t == (1,) * 10:
                nxt.append(1)
                continue
            if t not in num:
                num[t] = len(rows)
                row = [1] * N
                for v, x in enumerate(t):
                    row[IDX[str(v)]] = x
                rows.append(row)
                acc.append(False)
            nxt.append(num[t])
        ids = nxt
    s = ids[0]
    # the start state comes first
    perm = {s: 0}
    for i in range(len(rows)):
        perm.setdefault(i, len(perm))
    inv = sorted(perm, key=perm.get)
    return _make([[perm[t] for t in rows[i]] for i in inv], [acc[i] for i in inv])


DIGIT = chars(lambda c: c in '0123456789')
NONEMPTY = minus(ALL, EPS)


def digits_cmp(width, op, c):
    """digit strings of exactly `width` digits with value <op> c, op in '<=', '==' (by digit comparison)"""
    cs = '%0*d' % (width, c) if c >= 0 else None
    if c < 0:
        return EMPTY
    if len(cs) > width:
        full = regex('[0-9]{%d}' % width)
        return full if op == '<=' else EMPTY
    # states: pos*3 + {0 eq,1 lt,2 gt}; dead
    dead = (width + 1) * 3
    rows = []
    acc = []
    for pos in range(width + 1):
        for m in range(3):
            row = [dead] * N
            if pos < width:
                for dgt in '0123456789':
                    if m:
                        m2 = m
                    else:
                        m2 = 0 if dgt == cs[pos] else (1 if dgt < cs[pos] else 2)
                    row[IDX[dgt]] = (pos + 1) * 3 + m2
            rows.append(row)
            acc.append(pos == width and (m == 0 or (op == '<=' and m == 1)))
    rows.append([dead] * N)
    acc.append(False)
    return _make(rows, acc)


def digits_mod(width, m, residues):
    """digit strings of exactly `width` digits with value % m in residues"""
    dead = (width + 1) * m
    rows = []
    acc = []
    for pos in range(width + 1):
        for r in range(m):
            row = [dead] * N
            if pos < width:
                for v in range(10):
                    row[IDX[str(v)]] = (pos + 1) * m + (r * 10 + v) % m
            rows.append(row)
            acc.append(pos == width and r in residues)
    rows.append([dead] * N)
    acc.append(False)
    return _make(rows, acc)
