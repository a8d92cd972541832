"""Transfer functions for builtins, string/list/dict methods and the few library functions in reach."""
import ast
import math
import re as _re
import string as _string
import builtins as _bi
import dfa
from terms import *
from state import Obj, NUMTEXT, INTTEXT, tm, segs_len

BUILTIN_NAMES = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and
                 issubclass(getattr(_bi, n), BaseException)} | set(
    'len int float str print range enumerate zip reversed sorted min max sum abs round any all next iter list tuple '
    'dict set frozenset bool isinstance issubclass hasattr getattr setattr delattr super map filter repr type format '
    'divmod ord chr object staticmethod classmethod property id hash callable pow bytes complex input open vars '
    'NotImplemented'.split())
EXT_MODULES = set(
    'typing math re copy enum dataclasses functools itertools collections string html xml geographiclib abc sys os '
    'time datetime random logging json warnings operator types contextlib numbers unittest __future__ uuid threading '
    'secrets io traceback inspect textwrap unicodedata bisect decimal fractions statistics pathlib argparse'.split())
EXT_OBJECTS = set()
IMPURE = ('random.', 'time.', 'datetime.', 'uuid.', 'secrets.', 'os.', 'threading.', 'sys.', 'io.', 'pathlib.')

INTSYN = dfa.regex(r'\s*[+-]?\d+(_\d+)*\s*')
FLOATSYN = dfa.regex(r'\s*[+-]?((\d+(_\d+)*)?\.?\d+(_\d+)*|\d+(_\d+)*\.?)([eE][+-]?\d+)?\s*')
DIGITS = dfa.regex(r'[0-9]+')
SPECIALFLOAT = dfa.regex(r'\s*[+-]?([iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN])\s*')
XMLMAP = (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'))


def ext_attr(mod, name):
    q = mod + '.' + name
    if mod == 'math' and name in ('pi', 'e', 'tau', 'inf', 'nan'):
        return C(getattr(math, name))
    if mod == 're' and isinstance(getattr(_re, name, None), _re.RegexFlag):
        return C(int(getattr(_re, name)))
    if mod == 'string' and isinstance(getattr(_string, name, None), str):
        return C(getattr(_string, name))
    if q == 'sys.maxsize':
        return C(2 ** 63 - 1)
    if q == 'typing.TYPE_CHECKING':
        return FALSE
    if q in ('collections.OrderedDict', 'collections.abc'):
        return ('bi', 'dict') if name == 'OrderedDict' else ('mod', q)
    if q == 'geographiclib.geodesic':
        return ('mod', q)
    if q in ('xml.sax', 'xml.sax.saxutils', 'xml.etree', 'xml.etree.ElementTree', 'os.path', 'importlib.metadata'):
        return ('mod', q)
    return ('bi', q)


def _cp(pred):
    return dfa.allchars(pred, False)


CLASSLANG = {
    'isdigit': _cp(str.isdigit), 'isdecimal': _cp(str.isdecimal), 'isnumeric': _cp(str.isnumeric),
    'isalpha': _cp(str.isalpha), 'isalnum': _cp(str.isalnum), 'isspace': _cp(str.isspace),
    'isascii': dfa.allchars(str.isascii, True), 'isprintable': dfa.allchars(str.isprintable, True),
}
_NOLOWER = dfa.allchars(lambda c: c.upper() == c, True)
_NOUPPER = dfa.allchars(lambda c: c.lower() == c, True)
_HASUPPER = dfa.comp(dfa.allchars(lambda c: not c.isupper(), True))
_HASLOWER = dfa.comp(dfa.allchars(lambda c: not c.islower(), True))


class ModelMixin:
    # ------------------------------------------------ text
    def to_str(self, x):
        t = x[0]
        if is_str(x):
            return x
        if t == 'c':
            return C(str(x[2]))
        if t == 'enum':
            c = self.eng.classes[x[1]]
            m = self.class_lookup(x[1], '__str__')
            if m is not None and m[0] == 'fn':
                return self.call(('bm', x, m[1]), [], {})
            if 'Int' in str(c.enum) and isinstance(x[3], int):
                return C(str(x[3]))
            if 'Str' in str(c.enum):
                return C(str(x[3]))
            return C('%s.%s' % (c.name, x[2]))
        if t == 'num':
            x = self.normval(x)
            if const(x):
                return C(str(x[2]))
            return STR([('fnp', 'str', (x,), INTTEXT if x[2] == 'int' else NUMTEXT)])
        if t == 'proj':
            x = self.simp_proj(x)
            if x[0] != 'proj':
                return self.to_str(x)
            L = dfa.EMPTY
            for a in self.st.alts(x[1]):
                v = self.to_str(self.projval(a, x[2]))
                L = dfa.union(L, dfa.lit(v[2]) if const(v) else dfa.ALL)
            return STR([('fnp', 'str', (x,), L)])
        if t == 'any':
            return STR([('fnp', 'str', (x,), INTTEXT if x[1] == 'int' else NUMTEXT if x[1] == 'float' else dfa.ALL)])
        if t == 'ref':
            o = self.obj(x)
            for d in ('__str__', '__repr__'):
                m = self.class_lookup(o.cls, d)
                if m is not None:
                    return self.call(('bm', x, m[1]), [], {})
            return STR([('fnp', 'repr', (), dfa.ALL)])
        if t == 'exc':
            return C(x[2] if isinstance(x[2], str) else '')
        if t == 'tup':
            return STR([('fnp', 'repr', (), dfa.ALL)])
        return STR([('fnp', 'repr', (), dfa.ALL)])

    def to_repr(self, x):
        if const(x):
            return C(repr(x[2]))
        if is_num(x) and x[0] != 'enum':
            return self.to_str(x)
        if x[0] == 'ref':
            m = self.class_lookup(self.obj(x).cls, '__repr__')
            if m is not None:
                return self.call(('bm', x, m[1]), [], {})
        return STR([('fnp', 'repr', (x,) if x[0] == 'str' else (), dfa.ALL)])

    def format_value(self, x, spec):
        if x[0] == 'proj':
            x = self.simp_proj(x)
        if x[0] == 'ref':
            m = self.class_lookup(self.obj(x).cls, '__format__')
            if m is not None:
                return self.call(('bm', x, m[1]), [C(spec)], {})
            if spec:
                self.throw('TypeError', 'unsupported format string')
        if not spec:
            return self.to_str(x)
        if x == NONE:
            self.throw('TypeError', 'unsupported format string passed to NoneType.__format__')
        if x[0] in ('tup', 'cls', 'fn', 'bm'):
            self.throw('TypeError', 'unsupported format string')
        if const(x):
            try:
                return C(format(x[2], spec))
            except (ValueError, TypeError) as e:
                self.throw(type(e).__name__, str(e))
        if x[0] == 'enum':
            if isinstance(x[3], int):
                try:
                    return C(format(x[3], spec))
                except (ValueError, TypeError) as e:
                    self.throw(type(e).__name__, str(e))
        probe = None
        if is_str(x):
            probe = 'abc'
        elif kind_of(x) == 'int':
            probe = 7
        elif kind_of(x) == 'float':
            probe = 1.5
        if probe is not None:
            try:
                format(probe, spec)
            except (ValueError, TypeError) as e:
                self.throw(type(e).__name__, str(e))
        m = _re.fullmatch(r'[<>^]?\d+s?', spec)
        if is_str(x) and m and x[0] == 'str':
            w = int(_re.search(r'\d+', spec).group())
            if dfa.subset(self.strlang(x), dfa.length_where(lambda n: n >= w, w)):
                return x
        return STR([('fnp', 'fmt:' + spec, (x,), dfa.ALL)])

    def percent_format(self, a, b):
        if not const(a):
            raise Gap('symbolic format string')
        args = list(b[1]) if b[0] == 'tup' else [b]
        out = []
        pos = 0
        s = a[2]
        for m in _re.finditer(r'%(%|([-+ 0#]*)(\d+)?(\.\d+)?([sdifrgexX]))', s):
            out.append(('lit', s[pos:m.start()]))
            pos = m.end()
            if m.group(1) == '%':
                out.append(('lit', '%'))
                continue
            if not args:
                self.throw('TypeError', 'not enough arguments for format string')
            x = args.pop(0)
            conv = m.group(5)
            if conv in 'difgexX' and not is_num(x):
                self.throw('TypeError', '%%%s format: a number is required' % conv)
            if m.group(2) or m.group(3) or m.group(4) or conv not in 'sd':
                if const(x):
                    try:
                        out.append(('lit', m.group(0) % (x[2],)))
                    except (TypeError, ValueError) as e:
                        self.throw(type(e).__name__, str(e))
                else:
                    out.append(('fnp', 'pct:' + m.group(0), (x,) if x[0] in ('num', 'str', 'proj') else (), dfa.ALL))
            else:
                if conv == 'd' and kind_of(x) == 'float':
                    x = self.call_builtin('int', [x], {})
                r = self.to_str(x)
                out.extend(parts_of(r) if r[0] != 'any' else [('fnp', 'any', (), dfa.ALL)])
        if args:
            self.throw('TypeError', 'not all arguments converted')
        out.append(('lit', s[pos:]))
        return STR(out)

    def aparts(self, v):
        p = parts_of(v)
        return list(p) if p is not None else [('fnp', 'any', (), dfa.ALL)]

    def map_str(self, v, mapping):
        """character-wise replacement (one-character sources)"""
        d = dict(mapping)
        if not d:
            return v
        if const(v):
            return C(apply_map(v[2], mapping))
        clean = dfa.allchars(lambda c: c not in d, True)
        out = []
        for p in self.aparts(v):
            if p[0] == 'lit':
                out.append(('lit', apply_map(p[1], mapping)))
            elif p[0] != 'map' and dfa.subset(self.partlang(p), clean):
                out.append(p)
            elif p[0] == 'map':
                m1 = dict(p[2])
                res = {k: apply_map(x, mapping) for k, x in m1.items()}
                for k, x in d.items():
                    res.setdefault(k, x)
                out.append(('map', p[1], tuple(sorted((k, x) for k, x in res.items() if k != x))))
            else:
                out.append(('map', p, tuple(sorted(d.items()))))
        return STR(out)

    # ------------------------------------------------ builtins
    def call_builtin(self, name, args, kw):
        h = getattr(self, 'b_' + name, None) if '.' not in name and ':' not in name else None
        if h is not None:
            return h(args, kw)
        if '.' in name:
            return self.call_ext(name, args, kw)
        if isinstance(getattr(_bi, name, None), type) and issubclass(getattr(_bi, name), BaseException):
            return ('exc', name, args[0][2] if args and const(args[0]) and isinstance(args[0][2], str) else '')
        raise Gap('builtin %s' % name)

    def b_len(self, args, kw):
        v = args[0]
        if is_str(v):
            return self.length(v)
        if v[0] == 'tup':
            return C(len(v[1]))
        if v[0] == 'ref':
            o = self.obj(v)
            if o.cls == 'list':
                return NUM(self.st.norm(segs_len(o.f['segs'])), 'int')
            if o.cls in ('dict', 'set'):
                return C(len(o.f['items']))
            m = self.class_lookup(o.cls, '__len__')
            if m is not None:
                return self.call(('bm', v, m[1]), [], {})
        if v[0] == 'cls' and self.eng.classes[v[1]].enum:
            return C(len(self.sequence(v)))
        self.throw('TypeError', 'object has no len()')

    def digits_value(self, v):
        """polynomial of a digit string or None"""
        p = P0
        for q in parts_of(v):
            if q[0] == 'lit':
                w = len(q[1])
                p = paddc(pscale(p, 10 ** w), int(q[1]))
                continue
            if q[0] != 'sl':
                return None
            b = self.bounds_of_part(q)
            if b is None:
                return None
            lo, hi = b
            if hi is None:
                self.fork_length(q[1])
                lens, _ = self.st.symlens(q[1])
                hi = next(iter(lens))
            if hi - lo > 12:
                return None
            p = padd(pscale(p, 10 ** (hi - lo)), self.st.norm(patom(('int', q[1], lo, hi))))
        return p

    def b_int(self, args, kw):
        if not args:
            return C(0)
        v = args[0]
        if v[0] == 'proj':
            v = self.split_proj(v)
        if is_str(v):
            if len(args) > 1 or kw:
                if const(v) and all(const(a) for a in args[1:]):
                    try:
                        return C(int(v[2], *[a[2] for a in args[1:]]))
                    except ValueError as e:
                        self.throw('ValueError', str(e))
                return ('any', 'int', 0)
            if const(v):
                try:
                    return C(int(v[2]))
                except ValueError:
                    self.throw('ValueError', 'invalid literal for int() with base 10: %r' % v[2])
            if v[0] == 'any':
                if self.choose(2, 'int of unknown text'):
                    self.throw('ValueError', 'invalid literal for int()')
                return ('any', 'int', 0)
            v = self.normstr(v)
            if const(v):
                return self.b_int([v], {})
            if self.decide_lang(v, DIGITS):
                p = self.digits_value(v)
                return NUM(p, 'int') if p is not None else ('any', 'int', 0)
            if self.decide_lang(v, INTSYN):
                return ('any', 'int', 0)
            self.throw('ValueError', 'invalid literal for int() with base 10')
        if v[0] == 'enum' and isinstance(v[3], int):
            return C(v[3])
        if v[0] == 'any' and v[1] in ('int', 'float', 'bool'):
            return ('any', 'int', 0)
        if v[0] == 'any':
            if self.choose(2, 'int of unknown'):
                self.throw('TypeError', 'int() argument')
            return ('any', 'int', 0)
        if const(v) and v[1] in ('int', 'float', 'bool'):
            try:
                return C(int(v[2]))
            except (ValueError, OverflowError) as e:
                self.throw(type(e).__name__, str(e))
        if v[0] == 'num':
            if v[2] == 'int':
                return v
            return NUM(self.st.mkatom('trunc', self.st.norm(v[1])), 'int')
        self.throw('TypeError', 'int() argument must be a string or a number')

    def b_float(self, args, kw):
        if not args:
            return C(0.0)
        v = args[0]
        if v[0] == 'proj':
            v = self.split_proj(v)
        if is_str(v):
            if v[0] == 'str':
                v = self.normstr(v)
            if const(v):
                try:
                    return C(float(v[2]))
                except ValueError:
                    self.throw('ValueError', 'could not convert string to float')
            if v[0] == 'any':
                if self.choose(2, 'float of unknown text'):
                    self.throw('ValueError', 'could not convert string to float')
                return ('any', 'float', 0)
            if self.decide_lang(v, DIGITS):
                p = self.digits_value(v)
                return NUM(p, 'float') if p is not None else ('any', 'float', 0)
            if self.decide_lang(v, dfa.union(FLOATSYN, SPECIALFLOAT)):
                return ('any', 'float', 0)
            self.throw('ValueError', 'could not convert string to float')
        if const(v) and v[1] in ('int', 'float', 'bool'):
            return C(float(v[2]))
        if v[0] == 'num':
            return NUM(v[1], 'float')
        if v[0] == 'enum':
            return C(float(v[3]))
        if v[0] == 'any':
            return ('any', 'float', 0)
        self.throw('TypeError', 'float() argument must be a string or a number')

    def b_str(self, args, kw):
        if not args:
            return C('')
        return self.to_str(args[0])

    def b_repr(self, args, kw):
        return self.to_repr(args[0])

    def b_bool(self, args, kw):
        return C(self.truth(args[0])) if args else FALSE

    def b_print(self, args, kw):
        for a in args:
            self.to_str(a)
        return NONE

    def b_format(self, args, kw):
        spec = args[1] if len(args) > 1 else C('')
        if not const(spec):
            raise Gap('symbolic format spec')
        return self.format_value(args[0], spec[2])

    def b_range(self, args, kw):
        a = [self.norm_index(x) for x in args]
        if len(a) == 1:
            a = [C(0), a[0]]
        if len(a) == 2:
            a.append(C(1))
        return self.alloc(Obj('iter', {'kind': C('range'), 'pos': a[0], 'stop': a[1], 'step': a[2]}))

    def b_enumerate(self, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', C(0))
        return self.alloc(Obj('iter', {'kind': C('enum'), 'inner': self.make_iter(args[0]), 'count': start}))

    def b_zip(self, args, kw):
        return self.alloc(Obj('iter', {'kind': C('zip'), 'inners': ('tup', tuple([self.make_iter(a) for a in args]))}))

    def b_reversed(self, args, kw):
        v = args[0]
        if v[0] == 'ref' and self.obj(v).cls == 'list' and any(s[0] != 'e' for s in self.obj(v).f['segs']):
            segs = self.obj(v).f['segs']
            return self.make_iter(self.alloc(Obj('list', {'segs': tuple(reversed(segs))})))
        if v[0] == 'ref' and self.obj(v).cls == 'iter' and self.obj(v).f['kind'] == C('range'):
            o = self.obj(v)
            if o.f['step'] == C(1):
                return self.alloc(Obj('iter', {'kind': C('range'), 'pos': self.add(o.f['stop'], C(-1)),
                                               'stop': self.add(o.f['pos'], C(-1)), 'step': C(-1)}))
        return self.make_iter(self.new_list(self.sequence(v)[::-1]))

    def b_sorted(self, args, kw):
        items = self.sequence(args[0])
        if kw.get('key') or not all(const(i) for i in items):
            if len(items) <= 1:
                return self.new_list(items)
            raise Gap('sorted')
        rev = kw.get('reverse', FALSE)
        return self.new_list(sorted(items, key=lambda c: c[2], reverse=bool(rev[2])))

    def _minmax(self, args, kw, op):
        if len(args) == 1:
            args = self.sequence(args[0])
            if not args and 'default' in kw:
                return kw['default']
        if not args:
            self.throw('ValueError', 'arg is an empty sequence')
        key = kw.get('key')
        best = args[0]
        for x in args[1:]:
            a, b = x, best
            if key is not None and key != NONE:
                a, b = self.call(key, [x], {}), self.call(key, [best], {})
            if self.compare(op, a, b):
                best = x
        return best

    def b_min(self, args, kw):
        return self._minmax(args, kw, ast.Lt())

    def b_max(self, args, kw):
        return self._minmax(args, kw, ast.Gt())

    def b_sum(self, args, kw):
        r = args[1] if len(args) > 1 else C(0)
        for x in self.sequence(args[0]):
            r = self.add(r, x)
        return r

    def b_abs(self, args, kw):
        v = args[0]
        if const(v):
            return C(abs(v[2]))
        if v[0] == 'num':
            return NUM(self.st.mkatom('abs', self.st.norm(v[1])), v[2])
        return v

    def b_round(self, args, kw):
        v = args[0]
        nd = args[1] if len(args) > 1 else kw.get('ndigits', NONE)
        if const(v) and const(nd):
            return C(round(v[2]) if nd == NONE else round(v[2], nd[2]))
        if v[0] == 'num' and nd == NONE:
            if v[2] == 'int':
                return v
            return NUM(self.st.mkatom('round', self.st.norm(v[1])), 'int')
        if v[0] == 'num' and const(nd):
            return NUM(patom(('opn', 'round%s' % nd[2], '', (self.st.norm(v[1]),))), v[2])
        return v

    def b_divmod(self, args, kw):
        return ('tup', (self.binop(ast.FloorDiv(), args[0], args[1], False),
                        self.binop(ast.Mod(), args[0], args[1], False)))

    def b_pow(self, args, kw):
        return self.binop(ast.Pow(), args[0], args[1], False)

    def b_any(self, args, kw):
        for x in self.sequence(args[0]):
            if self.truth(x):
                return TRUE
        return FALSE

    def b_all(self, args, kw):
        for x in self.sequence(args[0]):
            if not self.truth(x):
                return FALSE
        return TRUE

    def b_next(self, args, kw):
        from interp import StopIter
        it = args[0]
        if it[0] == 'ref' and self.obj(it).cls == 'list':
            # generator expressions are modelled as lists
            it = self.make_iter(it)
        try:
            return self.next(it)
        except StopIter:
            if len(args) > 1:
                return args[1]
            self.throw('StopIteration', '')

    def b_iter(self, args, kw):
        return self.make_iter(args[0])

    def b_list(self, args, kw):
        if not args:
            return self.new_list([])
        v = args[0]
        if v[0] == 'ref' and self.obj(v).cls == 'list':
            return self.alloc(Obj('list', {'segs': self.obj(v).f['segs']}, self.obj(v).label))
        return self.new_list(self.sequence(v))

    def b_tuple(self, args, kw):
        return ('tup', tuple(self.sequence(args[0])) if args else ())

    def b_set(self, args, kw):
        items = []
        for v in (self.sequence(args[0]) if args else []):
            v = self.normval(v)
            if not any(self.consteq(v, x) for x in items):
                items.append(v)
        return self.alloc(Obj('set', {'items': tuple(items)}))

    b_frozenset = b_set

    def b_dict(self, args, kw):
        d = self.alloc(Obj('dict', {'items': ()}))
        if args:
            v = args[0]
            if v[0] == 'ref' and self.obj(v).cls == 'dict':
                self.obj(d).f['items'] = self.obj(v).f['items']
            else:
                for t in self.sequence(v):
                    k, x = self.sequence(t)
                    self.setitem(d, k, x)
        for k, x in kw.items():
            self.setitem(d, C(k), x)
        return d

    def b_isinstance(self, args, kw):
        return C(self.isinstance(args[0], args[1]))

    def b_issubclass(self, args, kw):
        return C(args[1][0] == 'cls' and args[1][1] in self.mro(args[0][1]))

    def b_hasattr(self, args, kw):
        from interp import PyRaise
        try:
            self.getattr(args[0], args[1][2])
            return TRUE
        except PyRaise as e:
            if e.cls != 'AttributeError':
                raise
            return FALSE

    def b_getattr(self, args, kw):
        from interp import PyRaise
        if not const(args[1]):
            raise Gap('getattr with a symbolic name')
        try:
            return self.getattr(args[0], args[1][2])
        except PyRaise as e:
            if e.cls == 'AttributeError' and len(args) > 2:
                return args[2]
            raise

    def b_setattr(self, args, kw):
        if not const(args[1]):
            raise Gap('setattr with a symbolic name')
        self.setattr(args[0], args[1][2], args[2])
        return NONE

    def b_map(self, args, kw):
        return self.new_list([self.call(args[0], [x], {}) for x in self.sequence(args[1])])

    def b_filter(self, args, kw):
        return self.new_list([x for x in self.sequence(args[1])
                              if self.truth(x if args[0] == NONE else self.call(args[0], [x], {}))])

    def b_type(self, args, kw):
        v = args[0]
        if v[0] == 'ref':
            o = self.obj(v)
            return ('cls', o.cls) if o.cls in self.eng.classes else ('bi', o.cls)
        if v[0] == 'enum':
            return ('cls', v[1])
        if is_str(v):
            return ('bi', 'str')
        if v[0] == 'proj':
            return self.b_type([self.split_proj(v)], kw)
        if v[0] == 'tup':
            return ('bi', 'tuple')
        if v[0] == 'c':
            return ('bi', v[1])
        if v[0] == 'num':
            return ('bi', v[2])
        raise Gap('type()')

    def b_ord(self, args, kw):
        if const(args[0]):
            return C(ord(args[0][2]))
        return ('any', 'int', 0)

    def b_chr(self, args, kw):
        if const(args[0]):
            return C(chr(args[0][2]))
        return ('any', 'str', 0)

    def b_object(self, args, kw):
        return self.alloc(Obj('object'))

    def b_callable(self, args, kw):
        return C(args[0][0] in ('fn', 'bm', 'bi', 'cls', 'bbm'))

    def b_id(self, args, kw):
        self.eng.event('nondeterminism', 'id()', self.here())
        return ('any', 'int', 0)

    def b_hash(self, args, kw):
        self.eng.event('nondeterminism', 'hash()', self.here())
        return ('any', 'int', 0)

    def b_staticmethod(self, args, kw):
        f = args[0]
        self.eng.fns[f[1]].kind = 'static'
        return f

    def b_super(self, args, kw):
        return ('super', args[0][1], args[1])

    # ------------------------------------------------ methods of builtin values
    def call_builtin_method(self, s, name, args, kw):
        if is_str(s):
            h = getattr(self, 's_' + name, None)
            if h is None:
                if const(s) and all(const(a) for a in args) and not kw and hasattr(str, name):
                    return self.const_call(s[2], name, args)
                if name in ('encode',):
                    return ('any', 'bytes', 0)
                if not hasattr(str, name):
                    self.throw('AttributeError', "'str' object has no attribute '%s'" % name)
                raise Gap('str.%s' % name)
            return h(s, args, kw)
        if s[0] == 'ref':
            o = self.obj(s)
            if o.cls in ('list', 'dict', 'set'):
                h = getattr(self, '%s_%s' % (o.cls[0] if o.cls != 'set' else 'set', name), None)
                if h is None:
                    if not hasattr(getattr(_bi, o.cls), name):
                        self.throw('AttributeError', "'%s' object has no attribute '%s'" % (o.cls, name))
                    raise Gap('%s.%s' % (o.cls, name))
                return h(s, args, kw)
            if o.cls == 'ext':
                return self.ext_method(s, name, args, kw)
            if o.cls == 'iter' and name == '__next__':
                return self.b_next([s], {})
        if s[0] == 'tup':
            if name == 'index':
                for i, x in enumerate(s[1]):
                    if self.eq(x, args[0]):
                        return C(i)
                self.throw('ValueError', 'tuple.index(x): x not in tuple')
            if name == 'count':
                return C(sum(1 for x in s[1] if self.eq(x, args[0])))
        if is_num(s):
            if const(s) and all(const(a) for a in args):
                return self.const_call(s[2], name, args)
            if name == 'is_integer':
                return ('any', 'bool', 0)
            if not hasattr(0, name) and not hasattr(0.0, name):
                self.throw('AttributeError', name)
        raise Gap('method %s of %s' % (name, s[0]))

    def const_call(self, v, name, args):
        try:
            r = getattr(v, name)(*[a[2] for a in args])
        except Exception as e:
            self.throw(type(e).__name__, str(e))
        return self.lift(r)

    def lift(self, r):
        if isinstance(r, tuple):
            return ('tup', tuple([self.lift(x) for x in r]))
        if isinstance(r, list):
            return self.new_list([self.lift(x) for x in r])
        if r is None or isinstance(r, (str, int, float, bool)):
            return C(r)
        raise Gap('constant %r' % (r,))

    def s_format(self, s, args, kw):
        if not const(s):
            raise Gap('symbolic format string')
        out = []
        auto = 0
        for litt, field, spec, conv in _string.Formatter().parse(s[2]):
            out.append(('lit', litt))
            if field is None:
                continue
            m = _re.match(r'^(\w*)(.*)$', field)
            base, rest = m.group(1), m.group(2)
            if base == '':
                i = auto
                auto += 1
                if i >= len(args):
                    self.throw('IndexError', 'Replacement index out of range')
                v = args[i]
            elif base.isdigit():
                if int(base) >= len(args):
                    self.throw('IndexError', 'Replacement index %s out of range' % base)
                v = args[int(base)]
            else:
                if base not in kw:
                    self.throw('KeyError', base)
                v = kw[base]
            for a in _re.findall(r'\.(\w+)', rest):
                v = self.getattr(v, a)
            if '[' in rest:
                raise Gap('format field with index')
            if '{' in (spec or ''):
                def sub(mm):
                    nonlocal auto
                    b = mm.group(1)
                    if b == '':
                        x = args[auto]
                        auto += 1
                    else:
                        x = args[int(b)] if b.isdigit() else kw[b]
                    if not const(x):
                        raise Gap('symbolic format width')
                    return str(x[2])
                spec = _re.sub(r'\{(\w*)\}', sub, spec)
            if conv == 's':
                v = self.to_str(v)
            elif conv == 'r':
                v = self.to_repr(v)
            out.extend(self.aparts(self.format_value(v, spec or '')))
        return STR(out)

    def s_join(self, s, args, kw):
        items = self.sequence(args[0])
        out = []
        for i, x in enumerate(items):
            if not is_str(x):
                if x[0] == 'proj':
                    x = self.split_proj(x)
                if not is_str(x):
                    self.throw('TypeError', 'sequence item: expected str instance')
            if i:
                out.extend(self.aparts(s))
            out.extend(self.aparts(x))
        return STR(out)

    def s_replace(self, s, args, kw):
        a, b = args[0], args[1]
        if not is_str(a) or not is_str(b):
            self.throw('TypeError', 'replace() argument must be str')
        if len(args) > 2 or kw:
            if const(s) and const(a) and const(b) and all(const(x) for x in args):
                return self.const_call(s[2], 'replace', args)
            raise Gap('replace with a count')
        if const(s) and const(a) and const(b):
            return C(s[2].replace(a[2], b[2]))
        if not const(a):
            raise Gap('replace of a symbolic text')
        if const(s):
            out = []
            for i, x in enumerate(s[2].split(a[2])):
                if i:
                    out.extend(self.aparts(b))
                out.append(('lit', x))
            return STR(out)
        if len(a[2]) == 1 and const(b):
            return self.map_str(s, ((a[2], b[2]),))
        from interp import contains_lang
        if dfa.inter(self.strlang(s), contains_lang(a[2])).is_empty():
            return s
        if len(a[2]) == 1:
            out = []
            ok = dfa.allchars(lambda c: c != a[2], True)
            for p in self.aparts(s):
                if p[0] == 'lit':
                    for i, x in enumerate(p[1].split(a[2])):
                        if i:
                            out.extend(self.aparts(b))
                        out.append(('lit', x))
                elif dfa.subset(self.partlang(p), ok):
                    out.append(p)
                else:
                    out.append(('fnp', 'replace:' + a[2], (STR([p]), b), dfa.ALL))
            return STR(out)
        return STR([('fnp', 'replace:' + a[2], (s, b), dfa.ALL)])

    def _strip(self, s, args, left, right):
        if const(s) and all(const(a) for a in args):
            ch = args[0][2] if args else None
            r = s[2]
            if left:
                r = r.lstrip(ch)
            if right:
                r = r.rstrip(ch)
            return C(r)
        if args and not const(args[0]):
            raise Gap('strip of symbolic characters')
        pred = str.isspace if not args or args[0] == NONE else (lambda c: c in args[0][2])
        c1 = dfa.chars(pred)
        bad = dfa.EMPTY
        if left:
            bad = dfa.union(bad, dfa.concat(c1, dfa.ALL))
        if right:
            bad = dfa.union(bad, dfa.concat(dfa.ALL, c1))
        v = self.normstr(s) if s[0] == 'str' else s
        if v[0] == 'any':
            return v
        if dfa.inter(self.strlang(v), bad).is_empty():
            return v
        if self.decide_lang(v, dfa.comp(bad)):
            return v
        return STR([('fnp', 'strip%d%d' % (left, right), (v,), dfa.comp(bad))])

    def s_strip(self, s, args, kw):
        return self._strip(s, args, True, True)

    def s_lstrip(self, s, args, kw):
        return self._strip(s, args, True, False)

    def s_rstrip(self, s, args, kw):
        return self._strip(s, args, False, True)

    def s_upper(self, s, args, kw):
        if const(s):
            return C(s[2].upper())
        if s[0] == 'any' or dfa.subset(self.strlang(s), _NOLOWER):
            return s
        if dfa.subset(self.strlang(s), CLASSLANG['isascii']):
            return self.map_str(s, tuple((c, c.upper()) for c in _string.ascii_lowercase))
        return STR([('fnp', 'upper', (s,), dfa.ALL)])

    def s_lower(self, s, args, kw):
        if const(s):
            return C(s[2].lower())
        if s[0] == 'any' or dfa.subset(self.strlang(s), _NOUPPER):
            return s
        if dfa.subset(self.strlang(s), CLASSLANG['isascii']):
            return self.map_str(s, tuple((c, c.lower()) for c in _string.ascii_uppercase))
        return STR([('fnp', 'lower', (s,), dfa.ALL)])

    def _affix(self, s, args, front):
        a = args[0]
        if len(args) > 1:
            s = self.getslice(s, ('slice', poly_of(args[1]), poly_of(args[2]) if len(args) > 2 else None, None))
        opts = list(a[1]) if a[0] == 'tup' else [a]
        if all(const(x) for x in opts):
            L = dfa.EMPTY
            for x in opts:
                L = dfa.union(L, dfa.concat(dfa.lit(x[2]), dfa.ALL) if front else dfa.concat(dfa.ALL, dfa.lit(x[2])))
            return C(self.decide_lang(s, L))
        for x in opts:
            n = self.length(x)
            ln = self.length(s)
            if n[0] == 'any' or ln[0] == 'any':
                if self.choose(2, 'affix') == 0:
                    return TRUE
                continue
            if not self.decide_ge0(psub(poly_of(ln), poly_of(n))):
                continue
            if front:
                sl = self.str_slice(s, P0, poly_of(n))
            else:
                sl = self.str_slice(s, psub(poly_of(ln), poly_of(n)), None)
            if self.eq(sl, x):
                return TRUE
        return FALSE

    def s_startswith(self, s, args, kw):
        return self._affix(s, args, True)

    def s_endswith(self, s, args, kw):
        return self._affix(s, args, False)

    def s_removeprefix(self, s, args, kw):
        if self._affix(s, args, True)[2]:
            return self.getslice(s, ('slice', poly_of(self.length(args[0])), None, None))
        return s

    def s_removesuffix(self, s, args, kw):
        if args[0] != C('') and self._affix(s, args, False)[2]:
            return self.getslice(s, ('slice', None, pneg(poly_of(self.length(args[0]))), None))
        return s

    def _cls(name):
        def f(self, s, args, kw):
            return C(self.decide_lang(s, CLASSLANG[name]))
        return f
    s_isdigit, s_isdecimal, s_isnumeric = _cls('isdigit'), _cls('isdecimal'), _cls('isnumeric')
    s_isalpha, s_isalnum, s_isspace = _cls('isalpha'), _cls('isalnum'), _cls('isspace')
    s_isascii, s_isprintable = _cls('isascii'), _cls('isprintable')
    del _cls

    def s_isupper(self, s, args, kw):
        return C(self.decide_lang(s, dfa.inter(_HASUPPER, dfa.comp(_HASLOWER))))

    def s_islower(self, s, args, kw):
        return C(self.decide_lang(s, dfa.inter(_HASLOWER, dfa.comp(_HASUPPER))))

    def s___len__(self, s, args, kw):
        return self.length(s)

    def s___contains__(self, s, args, kw):
        return C(self.contains(s, args[0]))

    def s_find(self, s, args, kw):
        if const(s) and all(const(a) for a in args):
            return self.const_call(s[2], 'find', args)
        if const(s) and s[2] and len(args) == 1 and args[0][0] == 'str':
            # position of a short symbolic text in a constant
            for i in range(len(s[2]) + 1):
                cand = {s[2][i:j] for j in range(i, len(s[2]) + 1) if s[2].find(s[2][i:j]) == i}
                if cand and self.decide_lang(args[0], dfa.finite(cand)):
                    return C(i)
            return C(-1)
        if const(args[0]) and len(args) == 1:
            from interp import contains_lang
            if not self.decide_lang(s, contains_lang(args[0][2])):
                return C(-1)
            lens, unb = (set(), True)
            w = self.normstr(s)
            if w[0] == 'str' and len(w[1]) == 1 and w[1][0][0] == 'sl':
                L = self.strlang(w)
                lens, unb = L.lengths()
            if not unb:
                n = max(lens)
                for i in range(n):
                    pre = dfa.length_where(lambda m, i=i: m == i, i + 1)
                    nopre = dfa.minus(dfa.ALL, dfa.concat(dfa.concat(dfa.length_where(lambda m, i=i: m < i, i + 1),
                                                                     dfa.lit(args[0][2])), dfa.ALL))
                    Li = dfa.inter(nopre, dfa.concat(dfa.concat(pre, dfa.lit(args[0][2])), dfa.ALL))
                    if self.decide_lang(s, Li):
                        return C(i)
            return NUM(patom(('iv', self.st.new_iv(0, None))), 'int')
        return NUM(patom(('iv', self.st.new_iv(-1, None))), 'int')

    def s_index(self, s, args, kw):
        r = self.s_find(s, args, kw)
        if not self.decide_ge0(poly_of(r)):
            self.throw('ValueError', 'substring not found')
        return r

    def s_count(self, s, args, kw):
        if const(s) and all(const(a) for a in args):
            return self.const_call(s[2], 'count', args)
        return NUM(patom(('iv', self.st.new_iv(0, None))), 'int')

    def s_split(self, s, args, kw):
        if const(s) and all(const(a) for a in args) and not kw:
            return self.const_call(s[2], 'split', args)
        raise Gap('split of a symbolic string')

    def s_zfill(self, s, args, kw):
        return self._just('zfill', s, args)

    def s_ljust(self, s, args, kw):
        return self._just('ljust', s, args)

    def s_rjust(self, s, args, kw):
        return self._just('rjust', s, args)

    def s_center(self, s, args, kw):
        return self._just('center', s, args)

    def _just(self, name, s, args):
        if const(s) and all(const(a) for a in args):
            return self.const_call(s[2], name, args)
        if const(args[0]) and s[0] == 'str':
            w = args[0][2]
            if dfa.subset(self.strlang(s), dfa.length_where(lambda n: n >= w, max(w, 1))):
                return s
        return STR([('fnp', name, (s,) + tuple(args), dfa.ALL)])

    def s_translate(self, s, args, kw):
        d = args[0]
        m = []
        for k, v in self.obj(d).f['items']:
            k = chr(k[2]) if isinstance(k[2], int) else k[2]
            if v == NONE:
                v = C('')
            if not const(v):
                raise Gap('translate')
            m.append((k, chr(v[2]) if isinstance(v[2], int) else v[2]))
        return self.map_str(s, tuple(sorted(m)))

    # ---- lists
    def l_append(self, s, args, kw):
        w = self.wobj(s, 'append to list')
        w.f['segs'] = w.f['segs'] + (('e', args[0]),)
        self.list_write(s)
        return NONE

    def list_write(self, s):
        if not self.static:
            self.obj(s).prov['segs'] = self.here()
            if self.eng.cfg is not None:
                self.eng.cfg.on_write(self, s, 'segs')

    def l_extend(self, s, args, kw):
        if args[0][0] == 'ref' and self.obj(args[0]).cls == 'list':
            add = self.obj(args[0]).f['segs']
        else:
            add = tuple([('e', x) for x in self.sequence(args[0])])
        w = self.wobj(s, 'extend list')
        w.f['segs'] = w.f['segs'] + add
        self.list_write(s)
        return NONE

    def l_clear(self, s, args, kw):
        self.wobj(s, 'clear list').f['segs'] = ()
        self.list_write(s)
        return NONE

    def l_copy(self, s, args, kw):
        return self.b_list([s], {})

    def l_pop(self, s, args, kw):
        segs = self.obj(s).f['segs']
        idx = poly_of(self.norm_index(args[0])) if args else pconst(-1)
        if pcval(idx) == -1 and segs and segs[-1][0] == 'e':
            w = self.wobj(s, 'pop from list')
            w.f['segs'] = segs[:-1]
            self.list_write(s)
            return segs[-1][1]
        j = self.list_locate(s, idx)
        if j is None:
            raise Gap('pop from a summarised list')
        w = self.wobj(s, 'pop from list')
        segs = list(w.f['segs'])
        v = segs.pop(j)[1]
        w.f['segs'] = tuple(segs)
        self.list_write(s)
        return v

    def l_insert(self, s, args, kw):
        idx = poly_of(self.norm_index(args[0]))
        segs = self.obj(s).f['segs']
        n = segs_len(segs)
        if not self.decide_ge0(idx):
            idx = padd(idx, n)
            if not self.decide_ge0(idx):
                idx = P0
        if self.decide_ge0(psub(idx, n)):
            return self.l_append(s, [args[1]], {})
        j = self.list_locate(s, idx)
        if j is None:
            raise Gap('insert into a summarised list')
        w = self.wobj(s, 'insert into list')
        segs = w.f['segs']
        w.f['segs'] = segs[:j] + (('e', args[1]),) + segs[j:]
        self.list_write(s)
        return NONE

    def l_index(self, s, args, kw):
        for i, x in enumerate(self.list_items(s)):
            if self.eq(x, args[0]):
                return C(i)
        self.throw('ValueError', 'x is not in list')

    def l_count(self, s, args, kw):
        return C(sum(1 for x in self.list_items(s) if self.eq(x, args[0])))

    def l_remove(self, s, args, kw):
        for i, x in enumerate(self.list_items(s)):
            if self.eq(x, args[0]):
                w = self.wobj(s, 'remove from list')
                segs = list(w.f['segs'])
                segs.pop(i)
                w.f['segs'] = tuple(segs)
                self.list_write(s)
                return NONE
        self.throw('ValueError', 'list.remove(x): x not in list')

    def l_reverse(self, s, args, kw):
        w = self.wobj(s, 'reverse list')
        w.f['segs'] = tuple(reversed(w.f['segs']))
        self.list_write(s)
        return NONE

    def l_sort(self, s, args, kw):
        r = self.b_sorted([s], kw)
        self.wobj(s, 'sort list').f['segs'] = self.obj(r).f['segs']
        self.list_write(s)
        return NONE

    # ---- dicts
    def d_get(self, s, args, kw):
        v = self.dict_get(s, args[0])
        if v is None:
            return args[1] if len(args) > 1 else kw.get('default', NONE)
        return v

    def d_items(self, s, args, kw):
        return self.new_list([('tup', (k, v)) for k, v in self.obj(s).f['items']])

    def d_keys(self, s, args, kw):
        return self.new_list([k for k, v in self.obj(s).f['items']])

    def d_values(self, s, args, kw):
        return self.new_list([v for k, v in self.obj(s).f['items']])

    def d_copy(self, s, args, kw):
        return self.alloc(Obj('dict', {'items': self.obj(s).f['items']}))

    def d_update(self, s, args, kw):
        if args:
            for k, v in self.obj(self.b_dict(args, {})).f['items']:
                self.setitem(s, k, v)
        for k, v in kw.items():
            self.setitem(s, C(k), v)
        return NONE

    def d_setdefault(self, s, args, kw):
        v = self.dict_get(s, args[0])
        if v is None:
            v = args[1] if len(args) > 1 else NONE
            self.setitem(s, args[0], v)
        return v

    def d_pop(self, s, args, kw):
        v = self.dict_get(s, args[0])
        if v is None:
            if len(args) > 1:
                return args[1]
            self.throw('KeyError', '')
        self.delitem(s, args[0])
        return v

    def d_clear(self, s, args, kw):
        self.wobj(s, 'clear dict').f['items'] = ()
        return NONE

    # ---- sets
    def set_add(self, s, args, kw):
        v = self.normval(args[0])
        items = self.obj(s).f['items']
        if not any(self.consteq(v, x) for x in items):
            self.wobj(s, 'add to set').f['items'] = items + (v,)
        return NONE

    def set_discard(self, s, args, kw):
        items = self.obj(s).f['items']
        self.wobj(s, 'set').f['items'] = tuple([x for x in items if not self.consteq(x, args[0])])
        return NONE

    set_remove = set_discard

    def set_union(self, s, args, kw):
        return self.binop(ast.BitOr(), s, self.b_set(args, {}), False)

    # ------------------------------------------------ library
    def deepcopy(self, v, memo):
        if v[0] == 'tup':
            return ('tup', tuple([self.deepcopy(x, memo) for x in v[1]]))
        if v[0] != 'ref':
            return v
        if v[1] in memo:
            return memo[v[1]]
        o = self.obj(v)
        m = self.class_lookup(o.cls, '__deepcopy__') if o.cls in self.eng.classes else None
        if m is not None:
            return self.call(('bm', v, m[1]), [self.new_list([])], {})
        n = o.copy()
        n.label = o.label if o.cls == 'list' else None
        r = self.alloc(n)
        memo[v[1]] = r
        if o.cls == 'list':
            n.f['segs'] = tuple([('e', self.deepcopy(s[1], memo)) if s[0] == 'e' else s for s in o.f['segs']])
        elif o.cls == 'dict':
            n.f['items'] = tuple([(k, self.deepcopy(x, memo)) for k, x in o.f['items']])
        elif o.cls == 'set':
            pass
        else:
            for k, x in o.f.items():
                n.f[k] = self.deepcopy(x, memo)
        return r

    def ext(self, kind, **f):
        f['kind'] = C(kind)
        return self.alloc(Obj('ext', f))

    def to_lang(self, pat, flags, mode):
        try:
            return dfa.regex(pat, flags, mode)
        except dfa.Unsupported as e:
            raise Gap('regular expression %r: %s' % (pat, e))
        except _re.error as e:
            self.throw('error', str(e))

    def re_apply(self, mode, pat, s, flags):
        if pat[0] == 'ref':
            o = self.obj(pat)
            flags = o.f['flags'][2]
            pat = o.f['pattern']
        if not is_str(pat) or not is_str(s):
            self.throw('TypeError', 'expected string or bytes-like object')
        if not const(pat):
            raise Gap('symbolic regular expression')
        if const(s):
            m = getattr(_re, mode)(pat[2], s[2], flags)
            if m is None:
                return NONE
            return self.ext('match', s=C(m.group()), groups=('tup', tuple([self.lift(g) for g in m.groups()])),
                            names=C(tuple(sorted(m.re.groupindex.items()))) if False else C(''))
        L = self.to_lang(pat[2], flags, mode)
        if self.decide_lang(s, L):
            return self.ext('match', s=s if mode == 'fullmatch' else ('any', 'str', 0))
        return NONE

    def flagval(self, v):
        if v is None:
            return 0
        if not const(v):
            raise Gap('regex flags')
        return v[2]

    def call_ext(self, name, args, kw):
        head = name.split('.')[0]
        # unbound methods of builtin types
        if head in ('str', 'list', 'dict', 'set', 'int', 'float', 'tuple', 'object'):
            meth = name.split('.', 1)[1]
            if name == 'dict.fromkeys':
                d = self.b_dict([], {})
                for k in self.sequence(args[0]):
                    self.setitem(d, k, args[1] if len(args) > 1 else NONE)
                return d
            if name == 'str.maketrans':
                if len(args) == 1:
                    return args[0]
                d = self.b_dict([], {})
                for a, b in zip(args[0][2], args[1][2]):
                    self.setitem(d, C(a), C(b))
                return d
            if head == 'object':
                if meth == '__setattr__':
                    self.setattr(args[0], args[1][2], args[2])
                return NONE
            return self.call_builtin_method(args[0], meth, args[1:], kw)
        if head == 'math':
            return self.ext_math(name[5:], args)
        if name in ('re.fullmatch', 're.match', 're.search'):
            fl = args[2] if len(args) > 2 else kw.get('flags')
            return self.re_apply(name[3:], args[0], args[1], self.flagval(fl))
        if name == 're.compile':
            fl = args[1] if len(args) > 1 else kw.get('flags')
            return self.ext('pattern', pattern=args[0], flags=C(self.flagval(fl)))
        if name == 're.escape' and const(args[0]):
            return C(_re.escape(args[0][2]))
        if name == 're.sub':
            if const(args[0]) and const(args[1]) and const(args[2]):
                return C(_re.sub(args[0][2], args[1][2], args[2][2]))
            raise Gap('re.sub')
        if name == 'copy.copy':
            v = args[0]
            if v[0] != 'ref':
                return v
            n = self.obj(v).copy()
            n.label = n.label if n.cls == 'list' else None
            return self.alloc(n)
        if name == 'copy.deepcopy':
            return self.deepcopy(args[0], {})
        if name in ('enum.auto',):
            return C('\0auto')
        if name in ('html.escape', 'xml.sax.saxutils.escape'):
            if not is_str(args[0]):
                self.throw('AttributeError', 'replace')
            m = dict(XMLMAP)
            if name == 'html.escape':
                q = args[1] if len(args) > 1 else kw.get('quote', TRUE)
                if not const(q):
                    raise Gap('html.escape')
                if q[2]:
                    m.update({'"': '&quot;', "'": '&#x27;'})
                return self.map_str(args[0], tuple(sorted(m.items())))
            ent = args[1] if len(args) > 1 else kw.get('entities')
            v = self.map_str(args[0], tuple(sorted(m.items())))
            if ent is not None:
                for k, x in self.obj(ent).f['items']:
                    v = self.s_replace(v, [k, x], {})
            return v
        if name.startswith('functools.'):
            if name == 'functools.partial':
                return ('part', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
            if name == 'functools.reduce':
                seq = self.sequence(args[1])
                acc = args[2] if len(args) > 2 else seq.pop(0)
                for x in seq:
                    acc = self.call(args[0], [acc, x], {})
                return acc
            if args:
                return args[0]
            return ('bi', name)
        if name.startswith('dataclasses.'):
            return ('bi', name)
        if head == 'typing' or head == 'abc':
            return args[-1] if name == 'typing.cast' else ('bi', name)
        if name.startswith('operator.'):
            op = name[9:]
            tab = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'mod': ast.Mod, 'truediv': ast.Div}
            if op in tab:
                return self.binop(tab[op](), args[0], args[1], False)
        if name.endswith('Geodesic.WGS84.Direct') or name.endswith('Geodesic.WGS84.Inverse'):
            return self.geo(name.rsplit('.', 1)[1], args, kw)
        if head == 'logging' or head == 'warnings':
            return ('bi', name)
        if name.startswith('itertools.chain') or name == 'itertools.islice':
            if name == 'itertools.chain':
                segs = ()
                for a in args:
                    if a[0] == 'ref' and self.obj(a).cls == 'list':
                        segs += self.obj(a).f['segs']
                    else:
                        segs += tuple([('e', x) for x in self.sequence(a)])
                return self.alloc(Obj('list', {'segs': segs}))
        if any(name.startswith(p) for p in IMPURE):
            self.eng.event('nondeterminism', name + '()', self.here())
            raise Gap('call of %s' % name)
        raise Gap('call of %s' % name)

    def geo(self, fn, args, kw):
        order = {'Direct': ('lat1', 'lon1', 'azi1', 's12'), 'Inverse': ('lat1', 'lon1', 'lat2', 'lon2')}[fn]
        args = list(args)
        for k in order[len(args):]:
            if k in kw:
                args.append(kw[k])
        if len(args) < 4:
            self.throw('TypeError', 'missing argument')
        ps = []
        for a in args[:4]:
            if a[0] == 'proj':
                a = self.split_proj(a)
            if a[0] == 'any':
                ps.append(None)
                continue
            p = poly_of(a)
            if p is None:
                self.throw('TypeError', 'must be real number')
            ps.append(self.st.norm(p))
        return self.ext('geo', fn=C(fn), args=('tup', tuple([('any', 'float', 0) if p is None else NUM(p, 'float')
                                                             for p in ps])))

    GEOFIELDS = {'Direct': ('lat1', 'lon1', 'azi1', 's12', 'a12', 'lat2', 'lon2', 'azi2'),
                 'Inverse': ('lat1', 'lon1', 'lat2', 'lon2', 'a12', 's12', 'azi1', 'azi2')}

    def ext_getitem(self, o, i):
        ob = self.obj(o)
        k = ob.f['kind'][2]
        if k == 'geo':
            if not const(i):
                raise Gap('geodesic field')
            fn = ob.f['fn'][2]
            if i[2] not in self.GEOFIELDS[fn]:
                self.throw('KeyError', str(i[2]))
            a = ob.f['args'][1]
            if any(x[0] == 'any' for x in a):
                return ('any', 'float', 0)
            order = {'Direct': ('lat1', 'lon1', 'azi1', 's12'), 'Inverse': ('lat1', 'lon1', 'lat2', 'lon2')}[fn]
            if i[2] in order[:2]:
                return a[order.index(i[2])]
            return NUM(patom(('geo', fn, i[2], tuple([poly_of(x) for x in a]))), 'float')
        if k == 'match':
            return self.ext_method(o, 'group', [i], {})
        raise Gap('subscript of %s' % k)

    def ext_method(self, o, name, args, kw):
        ob = self.obj(o)
        k = ob.f['kind'][2]
        if k == 'match':
            if name in ('group', '__getitem__') and (not args or args[0] == C(0)):
                return ob.f['s']
            if name == 'group' and 'groups' in ob.f and const(args[0]):
                return ob.f['groups'][1][args[0][2] - 1]
            if name == 'groups' and 'groups' in ob.f:
                return ob.f['groups']
            if name == 'group':
                return ('any', 'str', 0)
        if k == 'pattern':
            if name in ('fullmatch', 'match', 'search'):
                return self.re_apply(name, o, args[0], 0)
            if name == 'pattern':
                return ob.f['pattern']
        if k == 'geo':
            if name == 'get':
                return self.ext_getitem(o, args[0])
        raise Gap('%s of %s' % (name, k))

    def call_ext_object(self, f, args, kw):
        raise Gap('call of an external object')

    def ext_math(self, name, args):
        a = args[0] if args else None
        if a is not None and a[0] == 'proj':
            a = self.split_proj(a)
        if all(const(x) and x[1] in ('int', 'float', 'bool') for x in args) and hasattr(math, name):
            try:
                return self.lift(getattr(math, name)(*[x[2] for x in args]))
            except (ValueError, OverflowError, TypeError) as e:
                self.throw(type(e).__name__, str(e))
        for x in args:
            if not is_num(x):
                self.throw('TypeError', 'must be real number')
        if a is not None and a[0] == 'any':
            if name in ('sqrt', 'log', 'acos', 'asin'):
                if self.choose(2, 'math domain'):
                    self.throw('ValueError', 'math domain error')
            return ('any', 'int' if name in ('floor', 'ceil', 'trunc') else 'float', 0)
        p = self.st.norm(poly_of(a))
        if name == 'sqrt':
            if not self.decide_ge0(p):
                self.throw('ValueError', 'math domain error')
            return NUM(self.st.mkatom('sqrt', p), 'float')
        if name == 'floor':
            return NUM(self.st.mkatom('floor', p), 'int')
        if name == 'trunc':
            return NUM(self.st.mkatom('trunc', p), 'int')
        if name == 'ceil':
            return NUM(pneg(self.st.mkatom('floor', pneg(p))), 'int')
        if name == 'fabs':
            return NUM(self.st.mkatom('abs', p), 'float')
        if name == 'radians':
            return NUM(pscale(p, math.pi / 180), 'float')
        if name == 'degrees':
            return NUM(pscale(p, 180 / math.pi), 'float')
        if name in ('isnan', 'isinf'):
            return FALSE
        if name == 'isfinite':
            return TRUE
        if name == 'pow':
            return self.binop(ast.Pow(), args[0], args[1], False)
        if name == 'isclose':
            return C(self.choose(2, 'isclose') == 0)
        if any(x[0] == 'any' for x in args):
            return ('any', 'float', 0)
        return NUM(patom(('opn', name, '', tuple([self.st.norm(poly_of(x)) for x in args]))), 'float')
