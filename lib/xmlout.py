"""C18: the XML text of a route, as a template.

as_xml is evaluated over a route of n records and m errors whose attributes are symbols; the result is a sequence of literal
text and of slots (which attribute of which record, through which transformation of characters or number format).  Every path
is followed.  The template must be a well formed document of the documented elements, each slot in the place its name says,
and the transformation of each text must be undone by reading the document (decided character by character: the
transformations are homomorphisms)."""
import ast
import os
import re
import string
import xml.parsers.expat
from terms import Gap

TEXTS = {'string', 'altitude', 'speed', 'break_text', 'flight_rules', 'error_text', 'altitude_cruise_to'}
OPEN = {'string', 'break_text', 'error_text'}
INTS = {'start_index', 'end_index', 'base_type', 'sub_type', 'stay_time'}
FLOATS = {'altitude_si', 'speed_si', 'altitude_cruise_to_si', 'latitude', 'longitude', 'bearing', 'distance'}
ATTRS = ['start_index', 'end_index', 'base_type', 'sub_type', 'speed', 'speed_si', 'altitude', 'altitude_si', 'bearing', 'distance',
         'flight_rules', 'stay_time', 'altitude_cruise_to', 'altitude_cruise_to_si', 'latitude', 'longitude']
SAFE = string.ascii_uppercase + string.digits
ALL = ''.join(chr(i) for i in range(32, 127)) + '\t\n\r' + '\x85\xa0\xe9\u2028\u4e2d\ufffd\U0001d11e'


class Sym:
    """an attribute of a record: kind text, int, float, bool"""
    def __init__(self, rec, name, kind):
        self.rec, self.name, self.kind = rec, name, kind

    def __repr__(self):
        return '%s.%s' % (self.rec, self.name)


class Str:
    """parts: str | (Sym, image table as tuple of (char, image), format)"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = out


class Obj:
    def __init__(self, cls, name, f):
        self.cls, self.name, self.f = cls, name, f


class Fn:
    def __init__(self, node, me=None, env=None):
        self.node, self.me, self.env = node, me, env


class Ext:
    def __init__(self, name):
        self.name = name


class Bad(Exception):
    pass


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Fork(Exception):
    pass


def identity():
    return tuple((c, c) for c in ALL)


def parts(v):
    if isinstance(v, Str):
        return v.parts
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, Sym) and v.kind == 'text':
        return [(v, identity(), '')]
    raise Gap('text expected, not %r' % (v,))


def mk(ps):
    s = Str(ps)
    if not s.parts:
        return ''
    return s.parts[0] if len(s.parts) == 1 and isinstance(s.parts[0], str) else s


class Xml:
    def __init__(self, root, mods):
        self.root = root
        self.classes, self.globals = {}, {}
        self.fns = set()
        self.files = []
        self.steps = 0
        self.load_modules(mods)

    def load_modules(self, mods):
        for m in mods:
            p = os.path.join(self.root, *m.split('.')) + '.py'
            if not os.path.exists(p):
                continue
            rel = os.path.relpath(p, self.root)
            self.files.append(rel)
            tree = ast.parse(open(p, encoding='utf-8').read())
            g = self.globals[m] = {}
            for x in ast.walk(tree):
                x._rel, x._mod = rel, m
            for s in tree.body:
                if isinstance(s, ast.ClassDef):
                    d = {'__name__': s.name, '__bases__': [getattr(b, 'id', getattr(b, 'attr', '')) for b in s.bases], '__node__': s}
                    for b in s.body:
                        if isinstance(b, ast.FunctionDef):
                            b._cls = s.name
                            d[b.name] = b
                        elif isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is not None:
                            for t in (b.targets if isinstance(b, ast.Assign) else [b.target]):
                                if isinstance(t, ast.Name):
                                    d[t.id] = ('lazy', b.value)
                    self.classes[s.name] = d
                    g[s.name] = ('class', s.name)
                elif isinstance(s, ast.FunctionDef):
                    g[s.name] = Fn(s)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(t, ast.Name):
                            g[t.id] = ('lazy', s.value)
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        g[a.asname or a.name] = ('from', s.module, a.name)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        g[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])

    def gap(self, what, node):
        raise Gap('%s at %s:%d' % (what, getattr(node, '_rel', '?'), getattr(node, 'lineno', 0)))

    # ---------------------------------------------------------------- decisions
    def decide(self, what):
        if what in self.fixed:
            return self.fixed[what]
        if self.pos < len(self.path):
            r = self.path[self.pos]
        else:
            self.path.append(True)
            r = True
        self.pos += 1
        self.fixed[what] = r
        return r

    def truth(self, v, node):
        if isinstance(v, Str):
            if any(isinstance(p, str) for p in v.parts):
                return True
            for p in v.parts:
                if self.decide(('nonempty', repr(p[0]))):
                    return True
            return False
        if isinstance(v, Sym):
            return self.decide(('nonempty' if v.kind == 'text' else 'true', repr(v)))
        if isinstance(v, tuple) and v and v[0] == 'cond':
            return self.decide(v)
        if isinstance(v, (Obj, Fn, Ext)):
            return True
        return bool(v)

    # ---------------------------------------------------------------- names
    def name(self, n, env, node):
        e = env
        while e is not None:
            if n in e:
                return e[n]
            e = e.get('<outer>')
        g = self.globals.get(node._mod, {})
        if n in g:
            return self.force(g, n, node)
        return Ext(n)

    def force(self, g, n, node):
        v = g[n]
        if isinstance(v, tuple) and v and v[0] == 'lazy':
            v = g[n] = self.ev(v[1], {})
        elif isinstance(v, tuple) and v and v[0] == 'from':
            if v[1] in self.globals:
                v = self.force(self.globals[v[1]], v[2], node) if v[2] in self.globals[v[1]] else Ext(v[2])
            else:
                p = os.path.join(self.root, *(v[1] or '').split('.')) + '.py'
                if os.path.exists(p):
                    self.load_modules([v[1]])
                    v = self.force(self.globals[v[1]], v[2], node)
                else:
                    v = Ext((v[1] or '') + '.' + v[2])
        return v

    def find(self, cls, attr):
        d = self.classes.get(cls)
        while d is not None:
            if attr in d:
                return d
            d = next((self.classes[b] for b in d['__bases__'] if b in self.classes), None)
        return None

    def mangle(self, attr, node):
        return attr

    def attr(self, o, attr, node):
        if isinstance(o, Obj):
            if attr in o.f:
                return o.f[attr]
            if o.cls == '<io>':
                return ('meth', o, attr)
            d = self.find(o.cls, attr)
            if d is None:
                self.gap('attribute %s' % attr, node)
            m = d[attr]
            if isinstance(m, ast.FunctionDef):
                decos = {getattr(x, 'id', getattr(x, 'attr', '')) for x in m.decorator_list}
                if 'property' in decos:
                    return self.apply(Fn(m, o), [], {}, node)
                if 'staticmethod' in decos:
                    return Fn(m)
                if 'classmethod' in decos:
                    return Fn(m, ('class', o.cls))
                return Fn(m, o)
            return self.force(d, attr, node)
        if isinstance(o, tuple) and o and o[0] == 'class':
            d = self.find(o[1], attr)
            if d is None:
                if attr == '__name__':
                    return o[1]
                self.gap('attribute %s' % attr, node)
            m = d[attr]
            if isinstance(m, ast.FunctionDef):
                decos = {getattr(x, 'id', getattr(x, 'attr', '')) for x in m.decorator_list}
                return Fn(m, o if 'classmethod' in decos else None)
            return self.force(d, attr, node)
        if isinstance(o, Ext):
            return Ext(o.name + '.' + attr)
        if isinstance(o, Sym) and attr in ('value', 'real') and o.kind == 'int':
            return o
        return ('meth', o, attr)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > 2000000:
            raise Gap('too many steps')
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            return self.name(e.id, env, e)
        if t is ast.Attribute:
            return self.attr(self.ev(e.value, env), e.attr, e)
        if t is ast.BinOp:
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            return self.binop(e, a, b)
        if t is ast.JoinedStr:
            out = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out.append(v.value)
                else:
                    spec = self.ev(v.format_spec, env) if v.format_spec is not None else ''
                    x = self.ev(v.value, env)
                    if v.conversion in (115,):
                        x = self.tostr(x, e)
                    elif v.conversion not in (-1,):
                        self.gap('conversion', e)
                    out += parts(self.format1(x, spec, e))
            return mk(out)
        if t is ast.Call:
            return self.callx(e, env)
        if t is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, env), e) else e.orelse, env)
        if t is ast.BoolOp:
            for x in e.values:
                v = self.ev(x, env)
                if self.truth(v, e) != isinstance(e.op, ast.And):
                    return v
            return v
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not self.truth(v, e)
            if isinstance(v, (int, float)):
                return -v if isinstance(e.op, ast.USub) else v
            self.gap('operator', e)
        if t in (ast.List, ast.Tuple, ast.Set):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += self.items(self.ev(x.value, env), e)
                else:
                    out.append(self.ev(x, env))
            return out
        if t is ast.Dict:
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(self.ev(v, env))
                    continue
                k = self.ev(k, env)
                if isinstance(k, (list, dict, Str, Sym)):
                    self.gap('key', e)
                out[k] = self.ev(v, env)
            return out
        if t is ast.Compare and len(e.ops) == 1:
            return self.compare(e, self.ev(e.left, env), self.ev(e.comparators[0], env))
        if t is ast.Subscript:
            b = self.ev(e.value, env)
            if isinstance(e.slice, ast.Slice):
                lo, hi, st = (self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
                if isinstance(b, (list, str)):
                    return b[lo:hi:st]
                if isinstance(b, (Str, Sym)) and (lo, hi, st) == (None, None, None):
                    return b
                self.loses(b, e)
            i = self.ev(e.slice, env)
            if isinstance(b, (list, str, dict)) and isinstance(i, (int, str, bool)):
                try:
                    return b[i]
                except (KeyError, IndexError):
                    raise Bad('lookup of %r fails at %s:%d' % (i, e._rel, e.lineno))
            self.gap('subscript', e)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            out = []
            self.comp(e.generators, 0, {'<outer>': env}, lambda en: out.append(self.ev(e.elt, en)), e)
            return out
        if t is ast.DictComp:
            d = {}
            self.comp(e.generators, 0, {'<outer>': env}, lambda en: d.__setitem__(self.ev(e.key, en), self.ev(e.value, en)), e)
            return d
        if t is ast.Lambda:
            return Fn(e, None, env)
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        self.gap('expression %s' % t.__name__, e)

    def comp(self, gens, i, env, leaf, e):
        if i == len(gens):
            leaf(env)
            return
        for v in self.items(self.ev(gens[i].iter, env), e):
            self.bind(gens[i].target, v, env)
            if all(self.truth(self.ev(c, env), e) for c in gens[i].ifs):
                self.comp(gens, i + 1, env, leaf, e)

    def loses(self, b, node):
        for p in parts(b):
            if not isinstance(p, str):
                if p[0].name in TEXTS | {'derived_flight_rules'}:
                    raise Bad('the text %s is cut or changed at %s:%d' % (p[0], node._rel, node.lineno))
        self.gap('operation on text', node)

    def items(self, v, node):
        if isinstance(v, (list, str, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, tuple) and v and v[0] == 'many':
            return v[1]
        self.gap('iteration over %r' % (v,), node)

    def binop(self, e, a, b):
        if isinstance(e.op, ast.Add):
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a + b
            if isinstance(a, (str, Str)) or isinstance(b, (str, Str)) or isinstance(a, Sym) and a.kind == 'text':
                for x in (a, b):
                    if not isinstance(x, (str, Str)) and not (isinstance(x, Sym) and x.kind == 'text'):
                        if isinstance(x, (Sym, int, float, Obj)) or x is None:
                            raise Bad('text + %r at %s:%d' % (x, e._rel, e.lineno))
                        self.gap('operand', e)
                return mk(parts(a) + parts(b))
        if isinstance(e.op, ast.Mult) and isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return a * b
        if isinstance(e.op, ast.Mod) and isinstance(a, str):
            return self.percent(a, b if isinstance(b, list) else [b], e)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if isinstance(e.op, ast.Sub):
                return a - b
        if isinstance(a, Sym) and a.kind != 'text' or isinstance(b, Sym) and b.kind != 'text':
            raise Bad('a number is changed at %s:%d' % (e._rel, e.lineno))
        self.gap('operator', e)

    def compare(self, e, a, b):
        op = type(e.ops[0])
        if op in (ast.Is, ast.IsNot) and (a is None or b is None):
            return ((a is None) == (b is None)) == (op is ast.Is)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, str) and y == '' and op in (ast.Eq, ast.NotEq) and (isinstance(x, Str) or isinstance(x, Sym) and x.kind == 'text'):
                return self.truth(x, e) == (op is ast.NotEq)
        conc = lambda x: isinstance(x, (str, int, float, bool, type(None), list))
        if conc(a) and conc(b):
            if op is ast.In:
                return a in b
            if op is ast.NotIn:
                return a not in b
            r = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                 ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}.get(op)
            if r is not None:
                return r()
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ('class',) and b[:1] == ('class',):
            return (a == b) == (op in (ast.Eq, ast.Is))
        return ('cond', ast.dump(e), repr(a) if isinstance(a, Sym) else '', repr(b) if isinstance(b, Sym) else '')

    # ---------------------------------------------------------------- formatting
    def tostr(self, v, node):
        if isinstance(v, (str, Str)) or isinstance(v, Sym) and v.kind == 'text':
            return v
        if isinstance(v, Sym):
            return mk([(v, (), 'str')])
        if isinstance(v, (int, bool, float)) or v is None:
            return str(v)
        self.gap('str() of %r' % (v,), node)

    def format1(self, v, spec, node):
        if not isinstance(spec, str):
            self.gap('format', node)
        if isinstance(v, (int, float, bool, str)):
            return format(v, spec)
        if spec == '' or isinstance(v, Sym) and v.kind == 'int' and spec == 'd':
            return self.tostr(v, node)
        if isinstance(v, Sym) and v.kind != 'text':
            return mk([(v, (), spec)])
        if spec in ('s', '<', '>'):
            return v
        if isinstance(v, (Str, Sym)):
            self.loses(v, node)
        self.gap('format', node)

    def formatted(self, tpl, args, kw, node):
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(tpl):
            out.append(lit)
            if field is None:
                continue
            if conv not in (None, 's') or '{' in (spec or ''):
                self.gap('format', node)
            if field == '':
                field, auto = str(auto), auto + 1
            try:
                v = args[int(field)] if field.isdigit() else kw[field]
            except (IndexError, KeyError):
                if re.fullmatch(r'\w+', field):
                    raise Bad('no argument for {%s} at %s:%d' % (field, node._rel, node.lineno))
                self.gap('format field', node)
            if conv == 's':
                v = self.tostr(v, node)
            out += parts(self.format1(v, spec or '', node))
        return mk(out)

    def percent(self, tpl, args, node):
        out = []
        i = 0
        pos = 0
        for m in re.finditer(r'%(?:(%)|([-0-9.]*)([a-z]))', tpl):
            out.append(tpl[pos:m.start()])
            pos = m.end()
            if m.group(1):
                out.append('%')
                continue
            if i >= len(args):
                raise Bad('not enough arguments for the format at %s:%d' % (node._rel, node.lineno))
            v = args[i]
            i += 1
            if m.group(3) == 's' and not m.group(2):
                out += parts(self.tostr(v, node))
            elif m.group(3) == 'f':
                out += parts(self.format1(v, m.group(2) + 'f', node))
            elif m.group(3) == 'd' and not m.group(2):
                if isinstance(v, Sym) and v.kind == 'float':
                    raise Bad('the fraction of %s is lost at %s:%d' % (v, node._rel, node.lineno))
                out += parts(self.tostr(v, node))
            else:
                self.gap('format', node)
        out.append(tpl[pos:])
        if '%' in re.sub(r'%(?:%|[-0-9.]*[a-z])', '', tpl):
            self.gap('format', node)
        return mk(out)

    def replace(self, v, old, new, node):
        if not isinstance(old, str) or not isinstance(new, str):
            self.gap('replace', node)
        out = []
        for p in parts(v):
            if isinstance(p, str):
                out.append(p.replace(old, new))
            elif p[2] != '' or not p[1]:
                if p[2] == 'str' or len(old) == 1 and old not in '0123456789.-+einfa':
                    out.append(p)
                    continue
                self.gap('replace', node)
            else:
                if len(old) != 1:
                    if old == new:
                        out.append(p)
                        continue
                    if any(old in a for _, a in p[1]) or True:
                        raise Bad('the text %s is changed (%r becomes %r) at %s:%d' % (p[0], old, new, node._rel, node.lineno))
                if old not in ALL:
                    self.gap('replace of %r' % old, node)
                out.append((p[0], tuple((c, a.replace(old, new)) for c, a in p[1]), p[2]))
        return mk(out)

    def translate(self, v, table, node):
        tab = {}
        for k, x in table.items():
            if isinstance(x, int):
                x = chr(x)
            tab[k if isinstance(k, str) else chr(k)] = x or ''
        out = []
        for p in parts(v):
            if isinstance(p, str):
                out.append(''.join(tab.get(c, c) for c in p))
            elif p[1]:
                out.append((p[0], tuple((c, ''.join(tab.get(d, d) for d in a)) for c, a in p[1]), p[2]))
            else:
                out.append(p)
        return mk(out)

    # ---------------------------------------------------------------- calls
    def callx(self, e, env):
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.items(self.ev(a.value, env), e)
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.apply(f, args, kw, e)

    def apply(self, f, args, kw, e):
        if isinstance(f, Fn):
            return self.call(f, args, kw, e)
        if isinstance(f, tuple) and f and f[0] == 'meth':
            return self.method(f[1], f[2], args, kw, e)
        if isinstance(f, Ext):
            return self.external(f.name, args, kw, e)
        if isinstance(f, tuple) and f and f[0] == 'class':
            d = self.classes[f[1]]
            if 'Enum' in ''.join(d['__bases__']) and len(args) == 1:
                return args[0]
            o = Obj(f[1], f[1], {})
            i = self.find(f[1], '__init__')
            if i is not None:
                self.call(Fn(i['__init__'], o), args, kw, e)
            return o
        self.gap('call', e)

    def call(self, f, args, kw, e):
        n = f.node
        self.fns.add((n._rel, getattr(n, 'name', '<lambda>'), n.lineno))
        if f.me is not None:
            args = [f.me] + args
        env = {'<outer>': f.env} if f.env is not None else {}
        ps = [a.arg for a in n.args.posonlyargs + n.args.args]
        for p, d in zip(reversed(ps), reversed(n.args.defaults)):
            env[p] = self.ev(d, {})
        for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults):
            if d is not None:
                env[a.arg] = self.ev(d, {})
        if len(args) > len(ps) and not n.args.vararg:
            raise Bad('too many arguments at %s:%d' % (e._rel, e.lineno))
        env.update(zip(ps, args))
        if n.args.vararg:
            env[n.args.vararg.arg] = list(args[len(ps):])
        extra = {}
        for k, v in kw.items():
            if k in ps or any(a.arg == k for a in n.args.kwonlyargs):
                env[k] = v
            else:
                extra[k] = v
        if n.args.kwarg:
            env[n.args.kwarg.arg] = extra
        elif extra:
            raise Bad('unknown argument at %s:%d' % (e._rel, e.lineno))
        for p in ps:
            if p not in env:
                raise Bad('argument %s is missing at %s:%d' % (p, e._rel, e.lineno))
        self.depth += 1
        if self.depth > 60:
            raise Gap('call depth')
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, env)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
            env['<yield>'] = []
            try:
                self.block(n.body, env)
            except Ret as r:
                if not gen:
                    return r.args[0]
            return env['<yield>'] if gen else None
        finally:
            self.depth -= 1

    def external(self, name, args, kw, e):
        short = name.split('.')[-1]
        if name in ('str',) and len(args) == 1:
            return self.tostr(args[0], e)
        if name == 'str':
            return ''
        if name in ('xml.sax.saxutils.escape', 'saxutils.escape', 'xml.sax.saxutils.quoteattr', 'saxutils.quoteattr') or \
                name.endswith('saxutils.escape') or name.endswith('saxutils.quoteattr'):
            ent = args[1] if len(args) > 1 else kw.get('entities', {})
            v = args[0]
            if short == 'quoteattr':
                ent = dict(ent, **{'\n': '&#10;', '\r': '&#13;', '\t': '&#9;'})
            for a, b in (('&', '&amp;'), ('>', '&gt;'), ('<', '&lt;')):
                v = self.replace(v, a, b, e)
            for a, b in ent.items():
                v = self.replace(v, a, b, e)
            if short == 'quoteattr':
                # double quotes unless the text holds some: then single quotes
                return self.quoteattr(v, e)
            return v
        if name == 'html.escape':
            v = args[0]
            q = args[1] if len(args) > 1 else kw.get('quote', True)
            m = [('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')] + ([('"', '&quot;'), ("'", '&#x27;')] if q else [])
            for a, b in m:
                v = self.replace(v, a, b, e)
            return v
        if name == 'format':
            return self.format1(args[0], args[1] if len(args) > 1 else '', e)
        if name == 'getattr' and len(args) >= 2 and isinstance(args[1], str):
            return self.attr(args[0], args[1], e)
        if name == 'len' and isinstance(args[0], (list, str, dict)):
            return len(args[0])
        if name == 'len' and isinstance(args[0], (Str, Sym)):
            return 1 if self.truth(args[0], e) else 0
        if name == 'bool':
            return self.truth(args[0], e)
        if name == 'int' and isinstance(args[0], Sym):
            if args[0].kind == 'int':
                return args[0]
            raise Bad('the value %s is changed at %s:%d' % (args[0], e._rel, e.lineno))
        if name == 'float' and isinstance(args[0], Sym) and args[0].kind == 'float':
            return args[0]
        if name == 'round' and isinstance(args[0], Sym) and len(args) > 1 and isinstance(args[1], int) and args[1] >= 2:
            return args[0]
        if name == 'round' and isinstance(args[0], Sym):
            raise Bad('the value %s is rounded at %s:%d' % (args[0], e._rel, e.lineno))
        if name == 'enumerate':
            return [[i + (args[1] if len(args) > 1 else kw.get('start', 0)), x] for i, x in enumerate(self.items(args[0], e))]
        if name == 'zip':
            return [list(x) for x in zip(*(self.items(a, e) for a in args))]
        if name in ('list', 'tuple', 'iter'):
            return list(self.items(args[0], e)) if args else []
        if name == 'reversed':
            return list(reversed(self.items(args[0], e)))
        if name == 'map':
            return [self.apply(args[0], list(x), {}, e) for x in zip(*(self.items(a, e) for a in args[1:]))]
        if name == 'dict':
            d = dict(kw)
            if args:
                src = args[0] if isinstance(args[0], dict) else {k: v for k, v in self.items(args[0], e)}
                d = dict(src, **kw)
            return d
        if name == 'range' and all(isinstance(a, int) for a in args):
            return list(range(*args))
        if name == 'isinstance' and isinstance(args[0], Sym):
            n = args[1].name if isinstance(args[1], Ext) else ''
            return {'str': 'text', 'int': 'int', 'float': 'float'}.get(n) == args[0].kind
        if name == 'str.maketrans' and len(args) == 1 and isinstance(args[0], dict):
            return args[0]
        if name == 'str.format':
            return self.formatted(args[0], args[1:], kw, e)
        if name in ('io.StringIO', 'StringIO'):
            return Obj('<io>', 'buffer', {'buf': [args[0]] if args else []})
        if name == 'print':
            return None
        self.gap('call of %s' % name, e)

    def quoteattr(self, v, e):
        # as the standard library: choose the quote by content
        has = {}
        for p in parts(v):
            if isinstance(p, str):
                continue
            has[repr(p[0])] = 1
        dq = any(self.decide(('has double quote', h)) for h in sorted(has))
        if dq:
            sq = any(self.decide(('has single quote', h)) for h in sorted(has))
            if sq:
                return mk(['"'] + parts(self.replace(v, '"', '&quot;', e)) + ['"'])
            return mk(["'"] + parts(self.restrict(v, "'")) + ["'"])
        return mk(['"'] + parts(self.restrict(v, '"')) + ['"'])

    @staticmethod
    def restrict(v, c):
        return mk([p if isinstance(p, str) or not p[1] else (p[0], tuple((a, b) for a, b in p[1] if a != c), p[2]) for p in parts(v)])

    def method(self, o, name, args, kw, e):
        if isinstance(o, Obj) and o.cls == '<io>':
            if name == 'write':
                o.f['buf'].append(args[0])
                return None
            if name == 'getvalue':
                return mk([p for x in o.f['buf'] for p in parts(x)])
        if isinstance(o, str) and name == 'format':
            return self.formatted(o, args, kw, e)
        if isinstance(o, (str, Str)) and name == 'join' or isinstance(o, Sym) and name == 'join':
            out = []
            for i, x in enumerate(self.items(args[0], e)):
                if not isinstance(x, (str, Str)) and not (isinstance(x, Sym) and x.kind == 'text'):
                    raise Bad('join of %r at %s:%d' % (x, e._rel, e.lineno))
                if i:
                    out += parts(o)
                out += parts(x)
            return mk(out)
        if isinstance(o, str) and all(isinstance(a, (str, int, list)) for a in args):
            if name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'title', 'replace', 'split', 'count', 'ljust',
                        'rjust', 'capitalize', 'removeprefix', 'removesuffix', 'find'):
                return getattr(o, name)(*args)
        if isinstance(o, (str, Str, Sym)):
            if name == 'replace':
                return self.replace(o, args[0], args[1], e)
            if name == 'translate' and isinstance(args[0], dict):
                return self.translate(o, args[0], e)
            if name == '__str__':
                return self.tostr(o, e)
            if name == '__format__':
                return self.format1(o, args[0], e)
            if name in ('strip', 'upper', 'lower', 'lstrip', 'rstrip', 'title', 'ljust', 'rjust', 'center', 'zfill', 'expandtabs', 'casefold',
                        'swapcase', 'capitalize'):
                self.loses(o, e)
        if isinstance(o, list):
            if name == 'append':
                o.append(args[0])
                return None
            if name == 'extend':
                o.extend(self.items(args[0], e))
                return None
            if name == 'insert':
                o.insert(args[0], args[1])
                return None
            if name == 'copy':
                return list(o)
        if isinstance(o, dict):
            if name == 'items':
                return [[k, v] for k, v in o.items()]
            if name == 'values':
                return list(o.values())
            if name == 'keys':
                return list(o)
            if name == 'get':
                return o.get(args[0], args[1] if len(args) > 1 else None)
        self.gap('method %s' % name, e)

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v, t)
            if len(vs) != len(t.elts):
                self.gap('unpacking', t)
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj):
                self.gap('store', t)
            if isinstance(o.f.get(t.attr), Sym):
                raise Bad('rendering changes %s at %s:%d' % (o.f[t.attr], t._rel, t.lineno))
            o.f[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if not isinstance(o, (dict, list)):
                self.gap('store', t)
            o[i] = v
        else:
            self.gap('target', t)

    def stmt(self, s, env):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Yield):
                env['<yield>'].append(self.ev(s.value.value, env))
            elif isinstance(s.value, ast.YieldFrom):
                env['<yield>'] += self.items(self.ev(s.value.value, env), s)
            else:
                self.ev(s.value, env)
        elif t is ast.Return:
            raise Ret(self.ev(s.value, env) if s.value is not None else None)
        elif t is ast.Assign:
            v = self.ev(s.value, env)
            for x in s.targets:
                self.bind(x, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif t is ast.AugAssign:
            ld = ast.copy_location(type(s.target)(**{**{f: getattr(s.target, f) for f in s.target._fields}, 'ctx': ast.Load()}), s.target)
            ld._rel, ld._mod = s._rel, s._mod
            cur = self.ev(ld, env)
            v = self.ev(s.value, env)
            if isinstance(cur, list):
                cur.extend(self.items(v, s))
            else:
                b = ast.copy_location(ast.BinOp(ld, s.op, s.value), s)
                b._rel, b._mod = s._rel, s._mod
                self.bind(s.target, self.binop(b, cur, v), env)
        elif t is ast.If:
            self.block(s.body if self.truth(self.ev(s.test, env), s) else s.orelse, env)
        elif t is ast.For:
            try:
                for v in self.items(self.ev(s.iter, env), s):
                    self.bind(s.target, v, env)
                    try:
                        self.block(s.body, env)
                    except Cont:
                        pass
                self.block(s.orelse, env)
            except Brk:
                pass
        elif t is ast.While:
            n = 0
            try:
                while self.truth(self.ev(s.test, env), s):
                    n += 1
                    if n > 200:
                        self.gap('loop', s)
                    try:
                        self.block(s.body, env)
                    except Cont:
                        pass
            except Brk:
                pass
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cont()
        elif t is ast.Assert:
            if not self.truth(self.ev(s.test, env), s):
                raise Bad('the assertion at %s:%d can fail' % (s._rel, s.lineno))
        elif t is ast.Try:
            self.block(s.body, env)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif t is ast.Delete and all(isinstance(x, ast.Name) for x in s.targets):
            for x in s.targets:
                env.pop(x.id, None)
        elif t is ast.Raise:
            raise Bad('an exception is raised at %s:%d' % (s._rel, s.lineno))
        elif t is ast.Pass or t is ast.Global or t is ast.Nonlocal:
            pass
        elif t is ast.FunctionDef:
            env[s.name] = Fn(s, None, env)
        elif t is ast.ImportFrom:
            for a in s.names:
                env[a.asname or a.name] = Ext((s.module or '') + '.' + a.name)
        elif t is ast.Import:
            for a in s.names:
                env[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
        elif t is ast.Match and all(isinstance(c.pattern, ast.MatchValue) or isinstance(c.pattern, ast.MatchSingleton) or
                                    isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None for c in s.cases):
            v = self.ev(s.subject, env)
            for c in s.cases:
                p = c.pattern
                if isinstance(p, ast.MatchAs):
                    if p.name:
                        env[p.name] = v
                    hit = True
                else:
                    w = p.value if isinstance(p, ast.MatchSingleton) else self.ev(p.value, env)
                    if not isinstance(v, (str, int, type(None))) or not isinstance(w, (str, int, type(None))):
                        self.gap('match', s)
                    hit = v == w
                if hit and (c.guard is None or self.truth(self.ev(c.guard, env), s)):
                    self.block(c.body, env)
                    break
        else:
            self.gap('statement %s' % t.__name__, s)

    # ---------------------------------------------------------------- the property
    def route(self, n, m):
        recs = []
        for k, pre in ((n, 'record '), (m, 'error ')):
            out = []
            for i in range(k):
                name = '%s%d' % (pre, i + 1)
                f = {}
                for a in TEXTS:
                    f[a] = Sym(name, a, 'text')
                for a in INTS:
                    f[a] = Sym(name, a, 'int')
                for a in FLOATS:
                    f[a] = Sym(name, a, 'float')
                f['lat_long_valid'] = Sym(name, 'lat_long_valid', 'bool')
                out.append(Obj('ExtractedRouteRecord', name, f))
            recs.append(out)
        return Obj('ExtractedRouteSequence', 'route', {'extracted_route_records': recs[0], 'error_records': recs[1],
                                                       'derived_flight_rules': Sym('route', 'derived_flight_rules', 'text')})

    def check(self, n, m, found):
        """all paths of as_xml for n records and m errors"""
        self.path = []
        count = 0
        while True:
            self.pos, self.fixed, self.depth = 0, {}, 0
            o = self.route(n, m)
            before = (list(o.f['extracted_route_records']), list(o.f['error_records']))
            d = self.find('ExtractedRouteSequence', 'as_xml')
            if d is None:
                raise Gap('as_xml not found')
            f = d['as_xml']
            site = '%s:%d' % (f._rel, f.lineno)
            count += 1
            if count > 3000:
                raise Gap('too many paths')
            try:
                v = self.call(Fn(f, o), [], {}, f)
                if not isinstance(v, (str, Str)):
                    raise Bad('the result is not a text')
                if (o.f['extracted_route_records'], o.f['error_records']) != before:
                    raise Bad('rendering changes the route')
                self.judge(parts(v), n, m)
            except (TypeError, ValueError, AttributeError, IndexError, KeyError) as x:
                raise Gap('rendering not modelled: %r' % (x,))
            except Bad as b:
                found.setdefault((str(b), site), '%d records, %d errors' % (n, m))
            while self.path and not self.path[-1]:
                self.path.pop()
            if not self.path:
                return count
            self.path[-1] = False

    def judge(self, ps, n, m):
        slots = []
        text = ''
        for p in ps:
            if isinstance(p, str):
                text += p
            else:
                if p[0].kind == 'text' and self.fixed.get(('nonempty', repr(p[0]))) is False:
                    pass
                slots.append(p)
                text += chr(0xE000 + len(slots) - 1)
        self.nslots = len(slots)
        if any(ord(c) >= 0xE000 and ord(c) < 0xF900 for p in ps if isinstance(p, str) for c in p):
            raise Gap('private use characters in the output')
        events, stack = [], []
        par = xml.parsers.expat.ParserCreate()
        par.ordered_attributes = True

        def start(tag, at):
            stack.append([tag, list(zip(at[::2], at[1::2])), ''])
            events.append(('start', stack[-1], [s[0] for s in stack[:-1]]))

        def end(tag):
            stack.pop()

        def data(s):
            stack[-1][2] += s
        par.StartElementHandler, par.EndElementHandler, par.CharacterDataHandler = start, end, data
        par.buffer_text = True
        quotes = self.quotes(text)
        try:
            par.Parse(text, True)
        except xml.parsers.expat.ExpatError as x:
            raise Bad('the output is not well formed: %s near %r' % (x, self.near(text, x)))
        seen = {'ers_record': [], 'error_record': []}
        rules = 0
        for _, (tag, at, txt), up in events:
            if tag in seen:
                inside = 'ers_errors' in up
                if inside != (tag == 'error_record'):
                    raise Bad('%s in %s' % (tag, '/'.join(up)))
                kind = 'record' if tag == 'ers_record' else 'error'
                name = '%s %d' % (kind, len(seen[tag]) + 1)
                seen[tag].append(name)
                want = {a: a for a in ATTRS}
                own = 'error_text' if tag == 'error_record' else 'break_text'
                want[own] = own
                at = dict(at)
                for a, f in want.items():
                    if a not in at:
                        if self.fixed.get(('nonempty', name + '.' + f)) is False:
                            continue
                        raise Bad('attribute %s of %s is missing' % (a, tag))
                    self.slot(at[a], slots, name, f, quotes, a)
                for a in at:
                    if a not in want:
                        for c in at[a]:
                            if 0xE000 <= ord(c) < 0xE000 + len(slots):
                                self.slot(at[a], slots, name, slots[ord(c) - 0xE000][0].name, quotes, a)
                self.slot(txt, slots, name, 'string', quotes, None)
            elif tag == 'derived_flight_rules':
                rules += 1
                self.slot(txt, slots, 'route', 'derived_flight_rules', quotes, None)
            elif any(0xE000 <= ord(c) < 0xE000 + len(slots) for c in txt + ''.join(v for _, v in at)):
                raise Bad('a value is put in an element %s' % tag)
        if len(seen['ers_record']) != n or len(seen['error_record']) != m:
            raise Bad('%d records and %d errors are rendered as %d and %d elements' % (n, m, len(seen['ers_record']), len(seen['error_record'])))
        if rules != 1:
            raise Bad('%d elements derived_flight_rules' % rules)

    @staticmethod
    def near(text, x):
        line = text.split('\n')[x.lineno - 1] if x.lineno - 1 < len(text.split('\n')) else ''
        return re.sub('[\ue000-\uf8ff]', '?', line)[max(0, x.offset - 20):x.offset + 20]

    @staticmethod
    def quotes(text):
        """slot number -> the quote it stands in, or None"""
        out, q, tag = {}, None, False
        for c in text:
            if 0xE000 <= ord(c) < 0xF900:
                out[ord(c) - 0xE000] = q if tag else None
            elif q:
                if c == q:
                    q = None
            elif tag and c in '"\'':
                q = c
            elif c == '<':
                tag = True
            elif c == '>':
                tag = False
        return out

    def slot(self, got, slots, rec, field, quotes, attr):
        where = 'attribute ' + attr if attr else 'text of the element'
        if self.fixed.get(('nonempty', rec + '.' + field)) is False and got == '':
            return
        if len(got) != 1 or not 0xE000 <= ord(got) < 0xE000 + len(slots):
            raise Bad('the %s does not hold exactly the value %s of the %s' % (where, field, rec.split(' ')[0]))
        sym, image, fmt = slots[ord(got) - 0xE000]
        if sym.rec != rec or sym.name != field:
            raise Bad('the %s holds %s of %s instead of %s' % (where, sym.name, 'another record' if sym.rec != rec else 'the record', field))
        if sym.kind == 'int':
            if fmt not in ('str', 'd'):
                raise Bad('%s is rendered with format %r' % (field, fmt))
            return
        if sym.kind == 'float':
            k = re.fullmatch(r'[<>]?\.(\d+)f', fmt)
            if fmt != 'str' and (not k or int(k.group(1)) < 2):
                raise Bad('%s is rendered with format %r' % (field, fmt))
            return
        if fmt:
            raise Bad('%s is rendered with format %r' % (field, fmt))
        q = quotes.get(ord(got) - 0xE000)
        for c, a in image:
            if field not in OPEN and c not in SAFE:
                continue
            self.chars += 1
            self.readback(c, a, q, where, field)
        if field in OPEN and q is None:
            d = dict(image)
            if ']]>' in d.get(']', '') * 2 + d.get('>', ''):
                raise Bad('a text with ]]> in the %s makes the output not well formed' % where)

    memo = {}

    def readback(self, c, a, q, where, field):
        k = (c, a, q)
        if k not in self.memo:
            got = []
            p = xml.parsers.expat.ParserCreate()
            p.buffer_text = True
            try:
                if q is None:
                    p.CharacterDataHandler = got.append
                    p.Parse('<a>x%sx</a>' % a, True)
                else:
                    p.StartElementHandler = lambda t, d: got.append(d['v']) if list(d) == ['v'] else got.append('')
                    p.Parse('<a v=%sx%sx%s/>' % (q, a, q), True)
            except xml.parsers.expat.ExpatError:
                got = None
            self.memo[k] = None if got is None else ''.join(got)
        r = self.memo[k]
        if r is None:
            raise Bad('a text with %r in the %s (%s) makes the output not well formed' % (c, where, field))
        if r != 'x' + c + 'x':
            raise Bad('a text with %r in the %s (%s) is read back as %r' % (c, where, field, r[1:-1]))
