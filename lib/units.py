"""Operations of the containers and records on arbitrary contents, against their documented contract (C20)."""
import dfa
from terms import *
from state import tm, segs_len
from interp import PyRaise
from canon import loop_cursor
from harness import Cfg, Fields, FLOATS, reach_lists, token_template


class Ops(Cfg):
    """the driver forks over the operations; each is applied to a container of arbitrary length"""
    prop = 'C20'

    def raised(self, it, exc):
        pass

    def bad(self, it, msg):
        self.report(self.prop, it, msg, site=self.site)

    def call(self, it, o, m, *a):
        """call method m; remembers where it is defined"""
        f = it.getattr(o, m)
        self.site = self.where(it, o, m)
        self.ob('calls checked')
        return it.call(f, list(a), {})

    def where(self, it, o, m):
        c = it.obj(o).cls
        for q in it.mro(c):
            for f in it.eng.fns.values():
                if f.cls == q and f.name == m:
                    return it.eng.site(f.node) + ' ' + f.qual
        return c + '.' + m

    # ---------------------------------------------- lists
    def pos(self, it, addr, v):
        """index polynomial of the element v"""
        off = P0
        for s in it.st.heap[addr].f['segs']:
            if s[0] == 'e':
                if s[1] == v:
                    return it.st.norm(off)
                off = paddc(off, 1)
            else:
                off = padd(off, s[1])
        return None

    def length(self, it, addr):
        return segs_len(it.st.heap[addr].f['segs'])

    def expect_at(self, it, addr, p, v, what):
        """v is the element at index p, or None if there is none"""
        n = self.length(it, addr)
        if it.decide_ge0(p) and it.decide_ge0(paddc(psub(n, p), -1)):
            q = self.pos(it, addr, v) if v[0] == 'ref' else None
            if q is None or pcval(it.st.norm(psub(q, p))) != 0:
                # equality may need what has been decided about the index
                if q is None or not it.decide_eq0(psub(q, p)):
                    self.bad(it, '%s does not return the element at that index' % what)
                    return
        elif v != NONE:
            self.bad(it, '%s does not return None where there is no element' % what)

    def frozen(self, it, addr):
        return tuple(it.st.heap[addr].f['segs'])

    def fresh_list(self, it, addr, tmpl):
        n = it.st.new_iv(0)
        it.st.heap[addr].f['segs'] = (('*', patom(('iv', n)), tmpl),)
        return patom(('iv', n))

    def new_int(self, it, lo=None):
        i = it.st.new_iv(lo)
        return NUM(patom(('iv', i)), 'int')

    def new_str(self, it):
        return full(it.st.new_sym(((dfa.NONEMPTY, ()),)))

    # ---------------------------------------------- the driver
    def drive(self, it):
        self.site = None
        self.done = []
        groups = [self.tokens, self.token, self.record, self.sequence]
        try:
            groups[it.choose(len(groups))](it)
        except PyRaise as e:
            self.report(self.prop, it, '%s: %s' % (e.cls, e.msg), site=self.site or e.site)

    def pick(self, it, names):
        n = names[it.choose(len(names))]
        self.ob('operations')
        return n

    # ---------------------------------------------- Tokens
    def tokens(self, it):
        M, st = self.M, it.st
        Tok = M.cls('Tokenizer.Token', 'Token')
        toks = it.call(M.cls('Tokenizer.Tokens', 'Tokens'), [], {})
        it.temps.append(toks)
        op = self.pick(it, ['empty', 'get_token_at', 'cursor', 'append_token', 'create_append_token', 'insert_token',
                            'remove_tokens_from_end_of_list', 'separate'])
        call = lambda m, *a: self.call(it, toks, m, *a)
        if op == 'empty':
            if it.normval(call('get_number_of_tokens')) != C(0):
                self.bad(it, 'a new container is not empty')
            for m in ('get_first_token', 'get_next_token', 'get_current_token', 'get_last_token', 'get_previous_token'):
                if call(m) != NONE:
                    self.bad(it, '%s of an empty container is not None' % m)
            return
        if op == 'separate':
            other = it.call(M.cls('Tokenizer.Tokens', 'Tokens'), [], {})
            call('append_token', it.call(Tok, [self.new_str(it), C(0), C(1)], {}))
            if it.normval(self.call(it, other, 'get_number_of_tokens')) != C(0):
                self.bad(it, 'two containers share their tokens')
            return
        ls = reach_lists(it, toks)
        if len(ls) != 1:
            raise Gap('the token container holds %d lists' % len(ls))
        L = ls[0]
        t = it.call(Tok, [self.new_str(it), self.new_int(it), self.new_int(it)], {})
        o = it.obj(t)
        tmpl = tm([(o.cls, tuple(sorted((k, v if const(v) or v == NONE or v[0] == 'enum' else ('any', 'str', 0))
                                        for k, v in o.f.items())), None, True)])
        n = self.fresh_list(it, L, tmpl)
        if op in ('append_token', 'create_append_token'):
            old = self.frozen(it, L)
            if op == 'append_token':
                call(op, t)
            else:
                x, a, b = self.new_str(it), self.new_int(it), self.new_int(it)
                call(op, x, a, b)
            L = reach_lists(it, toks)[0]
            new = self.frozen(it, L)
            if new[:-1] != old or new[-1][0] != 'e':
                self.bad(it, '%s does not add one token at the end' % op)
                return
            if op == 'append_token':
                if new[-1][1] != t:
                    self.bad(it, 'append_token adds another token')
            else:
                y = new[-1][1]
                for m, w in (('get_token_string', x), ('get_token_start_index', a), ('get_token_end_index', b)):
                    if it.normval(self.call(it, y, m)) != it.normval(w):
                        self.bad(it, 'create_append_token does not store what it is given (%s)' % m)
            if pcval(st.norm(psub(poly_of(call('get_number_of_tokens')), paddc(n, 1)))) != 0:
                self.bad(it, 'get_number_of_tokens is wrong')
            return
        if op == 'insert_token':
            i = self.new_int(it, 0)
            if not it.decide_ge0(psub(n, poly_of(i))):
                return
            call(op, t, i)
            L = reach_lists(it, toks)[0]
            q = self.pos(it, L, t)
            if q is None or not it.decide_eq0(psub(q, poly_of(i))):
                self.bad(it, 'insert_token does not put the token at the index')
            if pcval(st.norm(psub(self.length(it, L), paddc(n, 1)))) != 0:
                self.bad(it, 'insert_token does not add exactly one token')
            return
        if op == 'remove_tokens_from_end_of_list':
            k = poly_of(self.new_int(it, 0))
            if not it.decide_ge0(paddc(psub(n, k), -1)):
                return
            e = self.call(it, toks, 'get_token_at', NUM(k, 'int'))
            call(op, NUM(k, 'int'))
            L = reach_lists(it, toks)[0]
            q = self.pos(it, L, e)
            if q is None or pcval(st.norm(psub(q, k))) != 0 or \
                    pcval(st.norm(psub(self.length(it, L), paddc(k, 1)))) != 0:
                self.bad(it, 'remove_tokens_from_end_of_list does not keep exactly the tokens up to the index')
            return
        if op == 'get_token_at':
            i = self.new_int(it)
            v = call(op, i)
            self.expect_at(it, L, poly_of(i), v, op)
            if pcval(st.norm(psub(self.length(it, L), n))) != 0:
                self.bad(it, 'get_token_at changes the container')
            return
        # cursor operations, from any reachable position: the cursor state is one integer
        f = it.obj(toks).f
        ints = [k for k, v in f.items() if v[0] == 'c' and v[1] == 'int' or v[0] == 'num' and v[2] == 'int']
        if len(ints) != 1:
            raise Gap('the cursor of the token container is not one integer')
        it.wobj(toks).f[ints[0]] = self.new_int(it)
        m = self.pick(it, ['get_first_token', 'get_last_token', 'get_next_token', 'get_previous_token',
                           'peek_next_token', 'peek_previous_token', 'peek_next_token 1', 'peek_previous_token 1',
                           'next at end', 'past end'])
        if m in ('get_first_token', 'get_last_token'):
            v = call(m)
            self.expect_at(it, L, P0 if m == 'get_first_token' else paddc(n, -1), v, m)
            if call('get_current_token') != v:
                self.bad(it, '%s does not make its token the current one' % m)
            return
        cur = call('get_current_token')
        if cur == NONE:
            return
        p = self.pos(it, L, cur)
        if p is None:
            self.bad(it, 'get_current_token returns no token of the container')
            return
        step = {'get_next_token': 1, 'get_previous_token': -1, 'peek_next_token 1': 1, 'peek_previous_token 1': -1}
        if m in ('get_next_token', 'get_previous_token'):
            v = call(m)
            self.expect_at(it, L, paddc(p, step[m]), v, m)
            if v != NONE and call('get_current_token') != v:
                self.bad(it, '%s does not make its token the current one' % m)
        elif m in ('next at end', 'past end'):
            v = call('get_next_token')
            if v == NONE:
                if call('get_current_token') != NONE:
                    self.bad(it, 'the cursor stays on the last token after get_next_token returned None')
                if m == 'past end' and call('get_next_token') != NONE:
                    self.bad(it, 'get_next_token returns a token after the end')
        else:
            k = self.new_int(it, 1)
            name = m.split()[0]
            if m.endswith(' 1'):
                v, d = call(name), pconst(step[m])
            else:
                v, d = call(name, k), poly_of(k) if name == 'peek_next_token' else pneg(poly_of(k))
            self.expect_at(it, L, padd(p, d), v, name)
            if call('get_current_token') != cur:
                self.bad(it, '%s moves the cursor' % name)

    # ---------------------------------------------- accessors
    def accessors(self, it, o, pairs, extra=()):
        """pairs: (setter, getter, kind): the setter changes what its getter returns and nothing else"""
        k = it.choose(len(pairs))
        self.ob('operations')
        s, g, kind = pairs[k]
        v = self.new_int(it) if kind == 'int' else NUM(patom(('fv', it.st.new_fv())), 'float') if kind == 'float' else \
            C(it.choose(2) == 0) if kind == 'bool' else self.new_str(it)
        others = [(h, self.call(it, o, h)) for _, h, _ in pairs if h != g] + [(h, self.call(it, o, h)) for h in extra]
        self.call(it, o, s, v)
        if it.normval(self.call(it, o, g)) != it.normval(v):
            self.bad(it, '%s does not return what %s stored' % (g, s))
        for h, w in others:
            if it.normval(self.call(it, o, h)) != it.normval(w):
                self.bad(it, '%s changes what %s returns' % (s, h))

    TOKEN = [('set_token_string', 'get_token_string', 'str'), ('set_token_start_index', 'get_token_start_index', 'int'),
             ('set_token_end_index', 'get_token_end_index', 'int'), ('set_token_base_type', 'get_token_base_type', 'str'),
             ('set_token_sub_type', 'get_token_sub_type', 'str')]

    def token(self, it):
        Tok = self.M.cls('Tokenizer.Token', 'Token')
        x, a, b = self.new_str(it), self.new_int(it), self.new_int(it)
        t = it.call(Tok, [x, a, b], {})
        it.temps.append(t)
        for g, w in (('get_token_string', x), ('get_token_start_index', a), ('get_token_end_index', b)):
            if it.normval(self.call(it, t, g)) != it.normval(w):
                self.bad(it, '%s does not return what the constructor was given' % g)
        self.accessors(it, t, self.TOKEN)

    RECORD = [('set_' + n, 'get_' + n, k) for n, k in (
        ('name', 'str'), ('start_index', 'int'), ('end_index', 'int'), ('base_type', 'str'), ('sub_type', 'str'),
        ('flight_rules', 'str'), ('speed', 'str'), ('speed_si', 'float'), ('altitude', 'str'), ('altitude_si', 'float'),
        ('altitude_cruise_to', 'str'), ('altitude_cruise_to_si', 'float'), ('latitude', 'float'), ('longitude', 'float'),
        ('bearing', 'float'), ('distance', 'float'), ('break_text', 'str'), ('error_text', 'str'))] + \
        [('set_lat_long_valid', 'is_lat_long_valid', 'bool')]

    def record(self, it):
        Rec = self.M.cls('F15_Parser.ExtractedRouteRecord', 'ExtractedRouteRecord')
        x, a, b, y, z = self.new_str(it), self.new_int(it), self.new_int(it), self.new_str(it), self.new_str(it)
        r = it.call(Rec, [x, a, b, y, z], {})
        it.temps.append(r)
        for g, w in (('get_name', x), ('get_start_index', a), ('get_end_index', b), ('get_base_type', y),
                     ('get_sub_type', z)):
            if it.normval(self.call(it, r, g)) != it.normval(w):
                self.bad(it, '%s does not return what the constructor was given' % g)
        op = self.pick(it, ['accessors', 'accessors after', 'append_break_text', 'append_error_text', 'separate'])
        if op == 'accessors':
            self.accessors(it, r, self.RECORD, ('get_stay_time',))
        elif op == 'accessors after':
            # the same on a record all of whose attributes were set before
            for s, g, kind in self.RECORD:
                self.call(it, r, s, self.new_int(it) if kind == 'int' else C(True) if kind == 'bool' else
                          NUM(patom(('fv', it.st.new_fv())), 'float') if kind == 'float' else self.new_str(it))
            self.accessors(it, r, self.RECORD, ('get_stay_time',))
        elif op == 'separate':
            q = it.call(Rec, [x, a, b, y, z], {})
            k = it.choose(len(self.RECORD))
            s, g, kind = self.RECORD[k]
            w = self.call(it, q, g)
            self.call(it, r, s, self.new_int(it) if kind == 'int' else C(True) if kind == 'bool' else
                      NUM(patom(('fv', it.st.new_fv())), 'float') if kind == 'float' else self.new_str(it))
            if it.normval(self.call(it, q, g)) != it.normval(w):
                self.bad(it, '%s of one record changes another record' % s)
        else:
            g = op.replace('append', 'get')
            if self.call(it, r, g) != C(''):
                self.bad(it, '%s of a new record is not empty' % g)
            u, v, w = self.new_str(it), self.new_str(it), self.new_str(it)
            self.call(it, r, op, u)
            if it.normval(self.call(it, r, g)) != it.normval(u):
                self.bad(it, '%s does not store the first text' % op)
            self.call(it, r, op, v)
            if it.normval(self.call(it, r, g)) != it.normval(STR(list(parts_of(u)) + [('lit', ' ')] + list(parts_of(v)))):
                self.bad(it, '%s does not join texts with a space' % op)
            self.call(it, r, op, w)
            if it.normval(self.call(it, r, g)) != it.normval(
                    STR(list(parts_of(u)) + [('lit', ' ')] + list(parts_of(v)) + [('lit', ' ')] + list(parts_of(w)))):
                self.bad(it, '%s does not join texts with a space' % op)

    # ---------------------------------------------- ExtractedRouteSequence
    def sequence(self, it):
        M, st = self.M, it.st
        S = M.cls('F15_Parser.ExtractedRouteSequence', 'ExtractedRouteSequence')
        Rec = M.cls('F15_Parser.ExtractedRouteRecord', 'ExtractedRouteRecord')
        s = it.call(S, [], {})
        it.temps.append(s)
        call = lambda m, *a: self.call(it, s, m, *a)
        op = self.pick(it, ['empty', 'separate', 'get_element_at', 'get_first_element', 'get_last_element',
                            'get_previous_to_last_element', 'append_element', 'create_append_element', 'add_dummy_ades',
                            'add_error', 'derived'])
        R, E = call('get_all_elements'), call('get_all_errors')
        if R[0] != 'ref' or E[0] != 'ref' or it.obj(R).cls != 'list' or it.obj(E).cls != 'list':
            raise Gap('the route sequence does not return lists')
        if op == 'empty':
            if it.normval(call('get_number_of_elements')) != C(1) or it.normval(call('get_number_of_errors')) != C(0):
                self.bad(it, 'a new route does not consist of just the departure place holder')
            a = call('get_element_at', C(0))
            if self.call(it, a, 'get_name') != C('ADEP'):
                self.bad(it, 'a new route does not start with the departure place holder')
            return
        if op == 'separate':
            o = it.call(S, [], {})
            call('append_element', it.call(Rec, [], {}))
            call('add_error', self.new_str(it), C(0), C(1), self.new_str(it), self.new_str(it), C('m'))
            if it.normval(self.call(it, o, 'get_number_of_elements')) != C(1) or \
                    it.normval(self.call(it, o, 'get_number_of_errors')) != C(0):
                self.bad(it, 'two routes share their records')
            return
        if op == 'derived':
            v = self.new_str(it)
            call('set_derived_flight_rules', v)
            if call('get_derived_flight_rules') != v:
                self.bad(it, 'get_derived_flight_rules does not return what was set')
            return
        x = [self.new_str(it), self.new_int(it), self.new_int(it), self.new_str(it), self.new_str(it)]
        r = it.call(Rec, x, {})
        tmpl = tm([(it.obj(r).cls, tuple(sorted((k, v if const(v) or v == NONE else ('any', 'str', 0))
                                                for k, v in it.obj(r).f.items())), None, True)])
        n = self.fresh_list(it, R[1], tmpl)
        e = self.fresh_list(it, E[1], tmpl)
        num = lambda: st.norm(poly_of(call('get_number_of_elements')))
        nerr = lambda: st.norm(poly_of(call('get_number_of_errors')))
        if op == 'get_element_at':
            i = self.new_int(it)
            self.expect_at(it, R[1], poly_of(i), call(op, i), op)
        elif op == 'get_first_element':
            self.expect_at(it, R[1], P0, call(op), op)
        elif op == 'get_last_element':
            self.expect_at(it, R[1], paddc(n, -1), call(op), op)
        elif op == 'get_previous_to_last_element':
            self.expect_at(it, R[1], paddc(n, -2), call(op), op)
        elif op == 'add_error':
            text, a, b, t1, t2 = x
            ends = [C('before ! after'), C('!'), C('no place holder')]
            k = it.choose(3)
            call(op, text, a, b, t1, t2, ends[k])
            E = call('get_all_errors')
            last = self.frozen(it, E[1])[-1]
            if last[0] != 'e' or pcval(psub(nerr(), st.norm(paddc(e, 1)))) != 0 or pcval(psub(num(), st.norm(n))) != 0:
                self.bad(it, 'add_error does not add one error record')
                return
            want = [STR([('lit', 'before ')] + list(parts_of(text)) + [('lit', ' after')]), text, ends[2]][k]
            for g, w in (('get_name', text), ('get_start_index', a), ('get_end_index', b), ('get_base_type', t1),
                         ('get_sub_type', t2), ('get_error_text', want)):
                if it.normval(self.call(it, last[1], g)) != it.normval(w):
                    self.bad(it, 'the record add_error adds has a wrong value (%s)' % g)
            return
        else:
            v = call('append_element', r) if op == 'append_element' else \
                call('create_append_element', *x) if op == 'create_append_element' else call('add_dummy_ades')
            self.ob('appended records')
            R = call('get_all_elements')
            last = self.frozen(it, R[1])[-1]
            if last != ('e', v) or pcval(psub(num(), st.norm(paddc(n, 1)))) != 0:
                self.bad(it, '%s does not append one record and return it' % op)
                return
            if op == 'append_element' and v != r:
                self.bad(it, 'append_element appends another record')
            if op == 'add_dummy_ades':
                x = [C('ADES'), C(0), C(0)]
            for g, w in zip(('get_name', 'get_start_index', 'get_end_index', 'get_base_type', 'get_sub_type'), x):
                if it.normval(self.call(it, v, g)) != it.normval(w):
                    self.bad(it, '%s appends a record with a wrong value (%s)' % (op, g))
        if pcval(psub(nerr(), st.norm(e))) != 0:
            self.bad(it, '%s changes the error records' % op)


class Tokenizer(Cfg):
    """the tokenizer on an arbitrary text against a character-by-character reference run"""
    cursor_list = False
    SEPS = [' \n\t\r', ' \n\t\r/', '/', '', ' ', ',;/-']

    def __init__(self, prop='C01'):
        super().__init__()
        self.prop = prop

    def drive(self, it):
        M, st = self.M, it.st
        F = self.F
        T = it.call(M.cls('Tokenizer.Tokenize', 'Tokenize'), [], {})
        it.temps.append(T)
        k = it.choose(len(self.SEPS) + 1)
        ws = self.SEPS[k - 1] if k else ' \n\t\r'
        if k:
            it.call(it.getattr(T, 'set_whitespace'), [C(ws)], {})
        sym = st.new_sym(((dfa.ALL, ()),))
        if it.choose(2) == 0:
            # a tokenizer that has been used before
            it.call(it.getattr(T, 'set_string_to_tokenize'), [C('A B')], {})
            it.call(it.getattr(T, 'tokenize'), [], {})
        it.call(it.getattr(T, 'set_string_to_tokenize'), [full(sym)], {})
        g = st.ghost
        g['T'] = T
        g['ws'] = C(ws)
        g['src'] = full(sym)
        g['posp'] = C(0)
        g['posa'] = NONE
        g['X'] = st.alloc(self.new_x())
        try:
            it.call(it.getattr(T, 'tokenize'), [], {})
        except PyRaise as e:
            self.report('C03', it, '%s: %s' % (e.cls, e.msg), e.site)
            return
        self.ob('complete texts')
        g = st.ghost
        sym = g['src'][1][0][1]
        T = g['T']
        self.sync(it, None, ())
        n = poly_of(it.length(full(sym)))
        for i in range(4):
            left = psub(n, poly_of(g['posp']))
            if not it.decide_gt0(left):
                break
            self.char(it)
        else:
            self.report(self.prop, it, 'characters at the end of the text are not looked at')
            return
        self.flush(it)
        self.match(it)
        toks = it.call(it.getattr(T, 'get_tokens'), [], {})
        for s in st.heap[g['X'][1]].f['segs']:
            self.report(self.prop, it, 'a token of the text is missing', extra=s)
        L = self.list_of(it, toks)
        for s in st.heap[L].f['segs']:
            if s[0] == 'e' and '#ok' not in it.obj(s[1]).f:
                self.report(self.prop, it, 'there is a token that is not in the text', extra=it.obj(s[1]).f)
            if s[0] == '*' and s[2] is not None:
                raise Gap('unmatched summarised tokens')

    @staticmethod
    def new_x():
        from state import Obj
        o = Obj('list', {'segs': ()})
        o.label = 'expected'
        return o

    def list_of(self, it, toks):
        ls = reach_lists(it, toks)
        ls = [a for a in ls if it.st.heap[a].label != 'expected']
        if len(ls) != 1:
            raise Gap('the token container holds %d lists' % len(ls))
        return ls[0]

    # ---------------------------------------------- reference run
    def expect(self, it, a, b):
        g = it.st.ghost
        o = it.st.heap[g['X'][1]]
        sym = g['src'][1][0][1]
        o.f['segs'] = o.f['segs'] + (('e', ('tup', (NUM(a, 'int'), NUM(b, 'int')))),)

    def flush(self, it):
        g = it.st.ghost
        if g['posa'] != NONE:
            self.expect(it, poly_of(g['posa']), poly_of(g['posp']))
            g['posa'] = NONE

    def char(self, it):
        g = it.st.ghost
        p = poly_of(g['posp'])
        ch = it.str_slice(g['src'], p, paddc(p, 1), inrange=True)
        ws = g['ws'][2]
        self.ob('characters')
        if '/' in ws and it.decide_lang(ch, dfa.lit('/')):
            self.flush(it)
            self.expect(it, p, paddc(p, 1))
        elif it.decide_lang(ch, dfa.chars(lambda c: c in ws)):
            self.flush(it)
        elif g['posa'] == NONE:
            g['posa'] = NUM(p, 'int')
        g['posp'] = NUM(it.st.norm(paddc(p, 1)), 'int')

    def known(self, it):
        """the code has looked at the next character"""
        g, st = it.st.ghost, it.st
        p = st.norm(poly_of(g['posp']))
        q = ('sl', g['src'][1][0][1], p, st.norm(paddc(p, 1)))
        if q in st.pfacts:
            return True
        if self.cur is not None:
            # or has gone past it without looking
            d = pcval(st.norm(psub(self.cur, p)))
            if d is not None and d > 0:
                return True
        return False

    def sync(self, it, env, held):
        if 'X' not in it.st.ghost or it.sub is not None:
            return
        c = loop_cursor(it, env) if env is not None else None
        self.cur = c[0] if c is not None and c[1] == it.st.ghost['src'][1][0][1] else None
        while self.known(it):
            self.char(it)
        self.match(it)
        if len(it.st.heap[it.st.ghost['X'][1]].f['segs']) > 5:
            raise Gap('the tokenizer does not keep up with the text')

    def match(self, it):
        st, g = it.st, it.st.ghost
        toks = it.call(it.getattr(g['T'], 'get_tokens'), [], {})
        segs = st.heap[self.list_of(it, toks)].f['segs']
        X = st.heap[g['X'][1]]
        src = g['src'][1][0][1]
        for s in segs:
            if s[0] != 'e' or '#ok' in it.obj(s[1]).f:
                continue
            if not X.f['segs']:
                break
            a, b = [st.norm(poly_of(x)) for x in X.f['segs'][0][1][1]]
            o = it.obj(s[1])
            self.ob('tokens')
            for k, w in (('start', a), ('end', b)):
                v = self.F.tget(o, k)
                if not (v[0] in ('num', 'c')) or pcval(st.norm(psub(poly_of(v), w))) != 0:
                    self.report(self.prop, it, 'the %s index of a token is wrong' % k, extra=(v, w))
            v = it.normval(self.F.tget(o, 'text'))
            want = it.normval(STR([('sl', src, a, b)]))
            if v != want:
                if const(v) and it.strlang(want) is dfa.lit(v[2]):
                    pass
                else:
                    self.report(self.prop, it, 'the text of a token is not the text between its indexes', extra=(v, want))
            st.heap[s[1][1]].f['#ok'] = TRUE
            X.f['segs'] = X.f['segs'][1:]

    def fold(self, A):
        if 'X' not in A.ghost:
            return
        for a in A.reach():
            o = A.o(a)
            if o.cls != 'list' or o.label == 'expected':
                continue
            segs = o.f['segs']
            k = 0
            while k < len(segs) and (segs[k][0] == '*' or segs[k][1][0] == 'ref' and
                                     '#ok' in (A.o(segs[k][1][1]) or NOOBJ).f):
                k += 1
            if k:
                n = A.new_iv(0, segs_len(segs[:k]))
                o.f['segs'] = (('*', patom(('iv', n)), None),) + tuple(segs[k:])


class NOOBJ:
    f = {}
