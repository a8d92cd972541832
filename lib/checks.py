"""The checks: which analysis decides which property, and what it covered."""
import ast
import gc
import os
import time
from terms import *
import harness
import values
from harness import EMode, Model, Fields, Cfg, MODS
from state import State, segs_len
from interp import Engine, Interp

LIMIT = {'quick': 780, 'thorough': 850}

COMMON = ['the analysed language is the Python subset this interpreter models; anything else ends the analysis with exit 2, '
          'not with a pass',
          'characters are abstracted to ASCII plus eight classes of other characters',
          'machine limits (memory, stack depth) are outside the model except where the property is about them']


class Report:
    def __init__(self, prop, tier, root):
        self.prop, self.tier, self.root = prop, tier, root
        self.violations = []
        self.coverage = {}
        self.explanation = ''
        self.level = 'other'
        self.assumptions = list(COMMON)
        self.deadline = time.time() + LIMIT['thorough' if tier == 'thorough' else 'quick']

    def bad(self, key, msg, site, trace=()):
        if all(v['key'] != key or v['site'] != site for v in self.violations):
            self.violations.append({'key': key, 'msg': msg, 'site': site, 'trace': list(trace)})


def run(rep):
    f = globals().get('check_' + rep.prop)
    if f is None:
        raise Gap('no check for ' + rep.prop)
    f(rep)


def engine_coverage(rep, eng, cfg=None):
    rep.coverage.update({'functions analysed': len(eng.analysed_fns), 'abstract paths': eng.paths,
                         'function summaries (contexts)': len(eng.units),
                         'summary exits': sum(len(u.exits) for u in eng.units.values())})
    if cfg is not None:
        for k, v in sorted(cfg.nob.items()):
            rep.coverage['obligations: ' + k] = v
    rep.coverage['source files'] = sorted(eng.files) if isinstance(eng.files, set) else eng.files


def emode(rep, props, need, cfg=None):
    """abstract interpretation of one parse of an arbitrary token list"""
    cfg = cfg or EMode()
    cfg.want = props
    M = None
    try:
        cfg, M = harness.run_emode(rep.root, deadline=rep.deadline, cfg=cfg)
    finally:
        for (p, msg, site), tr in sorted(cfg.viol.items(), key=lambda x: str(x[0])):
            if p in props:
                rep.bad('%s@%s' % (msg, site.split(':')[0]), msg, site, tr)
    engine_coverage(rep, M.eng, cfg)
    if not rep.violations:
        for n in need:
            if not cfg.nob.get(n):
                raise Gap('no %s were analysed' % n)
        if M.eng.gaps:
            raise Gap(str(sorted(M.eng.gaps.items(), key=str)[0]))
    rep.explanation = ('abstract interpretation of parse_f15 and everything it calls, from the source, on an arbitrary token '
                       'sequence of any length (list summaries, one regular language per token text, linear facts about '
                       'lengths and cursor, function summaries to a fixpoint for the mutually recursive handlers); '
                       'every abstract path to a record, error or return is an obligation')


def check_C03(rep):
    whole(rep, lambda r: emode(r, ('C03',), ('complete parses',)))


def check_C06(rep):
    whole(rep, lambda r: emode(r, ('C06',), ('complete parses', 'route records')))


def check_C07(rep):
    whole(rep, lambda r: emode(r, ('C07',), ('complete parses',)))


def check_C09(rep):
    whole(rep, lambda r: emode(r, ('C09',), ('complete parses', 'error records')))


def check_C10(rep):
    whole(rep, lambda r: emode(r, ('C10',), ('complete parses',)))


# ------------------------------------------------------------------ C05: stack depth
def check_C05(rep):
    eng = Engine(rep.root, None)
    for m in MODS:
        eng.load(m)
    g = eng.build_callgraph()
    rep.level = 'other'
    n = 0
    for c in eng.sccs:
        rec = len(c) > 1 or next(iter(c)) in g[next(iter(c))]
        if not rec:
            continue
        n += 1
        mods = sorted({eng.fns[x].module for x in c})
        names = sorted({eng.fns[x].qual for x in c})
        parser = mods == ['F15_Parser.F15Parse'] and len(c) > 5
        key = 'recursion:F15_Parser.F15Parse handlers' if parser else 'recursion:' + ','.join(names)
        rep.bad(key, 'mutually recursive functions, one level per token: ' + ', '.join(names[:6]) +
                (' and %d more' % (len(names) - 6) if len(names) > 6 else ''),
                eng.site(eng.fns[sorted(c)[0]].node), names)
    rep.coverage = {'functions in call graph': len(eng.fns), 'call edges': sum(len(v) for v in g.values()),
                    'strongly connected components': len(eng.sccs), 'recursive components': n}
    rep.explanation = ('call graph (over-approximated by attribute name and class relation) of every function of the tokenizer, '
                       'parser and record classes; a function on a call cycle can make the stack grow with the input')


# ------------------------------------------------------------------ record values on fixed structures
def messages(eng):
    """range check number -> message, found by what the message says"""
    it = Interp(eng, State(), None, ())
    d = it.getattr(eng.modules['F15_Parser.ErrorMessageDefinitions']['ErrorMessages'], 'error_messages')
    out = {}
    for k, v in it.obj(d).f['items']:
        t = v[2].lower() if v[0] == 'c' and v[1] == 'str' else ''
        n = 42 if 'latitude' in t else 44 if 'longitude' in t else 46 if 'bearing' in t else None
        if n is None:
            continue
        if n != 46 and 'minute' in t:
            n += 1
        if n in out and out[n] != v[2]:
            raise Gap('two messages for range check %d' % n)
        out[n] = v[2]
    if sorted(out) != [42, 43, 44, 45, 46]:
        raise Gap('range check messages not found in the catalogue')
    return out


def values_part(rep, shp, cls=None):
    cfg = (cls or values.Values)(rep.prop, shp)
    M = Model(rep.root, None)
    cfg.F, cfg.M, cfg.eng = Fields(M), M, M.eng
    if cls is None:
        cfg.msgs = messages(M.eng)
    else:
        it = Interp(M.eng, State(), None, ())
        d = it.getattr(M.eng.modules['F15_Parser.ErrorMessageDefinitions']['ErrorMessages'], 'error_messages')
        cfg.catalogue = [v[2] for k, v in it.obj(d).f['items']]
    M.eng.cfg = cfg
    M.eng.summarised = set()
    problem = None
    gc.freeze()
    gc.enable()        # the states of finished paths are cyclic
    try:
        M.run(cfg.drive, deadline=rep.deadline)
    except Gap as e:
        problem = str(e)
    except Exception as e:
        import traceback
        problem = 'internal error: ' + traceback.format_exc(limit=-6)
    return {'viol': cfg.viol, 'nob': cfg.nob, 'paths': M.eng.paths, 'fns': set(M.eng.analysed_fns), 'problem': problem,
            'gaps': [str(x) for x in sorted(M.eng.gaps.items(), key=str)[:1]],
            'files': sorted(M.eng.files) if isinstance(M.eng.files, set) else M.eng.files}


def parallel(jobs):
    """results of the thunks, one process each"""
    import pickle
    ps = []
    for f in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    data = pickle.dumps(f())
                except BaseException as e:
                    data = pickle.dumps({'problem': 'internal error: %r' % (e,)})
                with os.fdopen(w, 'wb') as h:
                    h.write(data)
            finally:
                os._exit(0)
        os.close(w)
        ps.append((pid, r))
    out = []
    for pid, r in ps:
        with os.fdopen(r, 'rb') as h:
            data = h.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else {'problem': 'internal error: a worker ended'})
    return out


def run_values(rep, shp, cls=None):
    n = max(1, min(8, os.cpu_count() or 1, len(shp)))
    parts = [[0, []] for i in range(n)]
    for x in sorted(shp, key=values.cost, reverse=True):
        q = min(parts, key=lambda t: t[0])
        q[0] += values.cost(x)
        q[1].append(x)
    res = parallel([(lambda q=q: values_part(rep, q[1], cls)) for q in parts])
    nob, fns, paths, problems = {}, set(), 0, []
    for r in res:
        for (p, msg, site), tr in sorted(r.get('viol', {}).items(), key=lambda x: str(x[0])):
            if p == rep.prop:
                rep.bad('%s@%s' % (msg, site.split(':')[0]), msg, site, tr)
        for k, v in r.get('nob', {}).items():
            nob[k] = nob.get(k, 0) + v
        fns |= r.get('fns', set())
        paths += r.get('paths', 0)
        if r.get('problem'):
            problems.append(r['problem'])
        problems += r.get('gaps', [])
    return res, nob, fns, paths, problems


def whole(rep, unbounded):
    """first all short fields (each text arbitrary), which shows most mistakes at once; then fields of any length"""
    shp = values.structures(rep.tier)
    res, nob, fns, paths, problems = run_values(rep, shp, values.Whole)
    short = {'token structures': len(shp), 'longest structure (tokens)': max(len(x) for x in shp),
             'abstract paths': paths, 'functions analysed': len(fns),
             'obligations': dict(sorted(nob.items())), 'undecided': sorted(set(problems))[:3]}
    rep.coverage = {'short fields': short}
    if rep.violations:
        rep.coverage.update({'abstract paths': paths})
        rep.explanation = 'violated on a field of fixed structure; fields of any length were not analysed'
        return
    if not problems and not nob.get('complete parses'):
        problems = ['no complete parses were analysed']
    if rep.tier != 'thorough' and not problems and rep.prop not in ('C03', 'C04'):
        rep.coverage['fields of any length'] = 'analysed by the thorough command'
        rep.coverage['abstract paths'] = paths
        rep.assumptions.append('the quick command covers the short fields: %d token structures of at most %d tokens, each text '
                               'arbitrary within its kind; fields of any length are analysed by the thorough command'
                               % (len(shp), short['longest structure (tokens)']))
        rep.explanation = 'every field of the listed structures satisfies the property'
        return
    try:
        unbounded(rep)
    except Gap as e:
        rep.coverage['short fields'] = short
        if problems or rep.violations:
            raise
        # an honest weaker answer: held on everything that was analysed
        rep.coverage['fields of any length'] = 'undecided: %s' % (e,)
        rep.assumptions.append('fields of any length could not be decided for this source (%s); the answer covers the short '
                               'fields: %d token structures of at most %d tokens, each text arbitrary within its kind'
                               % (e, len(shp), short['longest structure (tokens)']))
        rep.explanation = 'every field of the listed structures satisfies the property; fields of any length are undecided'
        return
    rep.coverage['short fields'] = short
    rep.coverage['fields of any length'] = 'decided'


def check_values(rep, need=('error-free parses', 'record values compared')):
    shp = values.shapes(rep.prop, rep.tier)
    res, nob, fns, paths, problems = run_values(rep, shp)
    rep.coverage = {'functions analysed': len(fns), 'abstract paths': paths, 'token structures': len(shp),
                    'longest structure (tokens)': max(len(x) for x in shp),
                    'source files': res[0].get('files', [])}
    for k, v in sorted(nob.items()):
        rep.coverage['obligations: ' + k] = v
    rep.assumptions.append('number and kinds of the tokens of a field are bounded (the token structures analysed are listed in '
                           'lib/values.py); the texts of the tokens are not: each stands for every text of its kind')
    rep.explanation = ('the parser source is interpreted on token lists of fixed structure whose texts are arbitrary members of '
                       'their kinds (regular languages); the value of every record attribute comes out as an expression over '
                       'the texts and is compared with a reference evaluation of the documented rules')
    if not rep.violations:
        if problems:
            raise Gap('; '.join(sorted(set(problems))[:3]))
        for k in need:
            if not nob.get(k):
                raise Gap('no %s were analysed' % k)


def check_C02(rep):
    check_values(rep, ('token kinds compared', 'token attributes compared'))


def check_C11(rep):
    check_values(rep)


def check_C12(rep):
    check_values(rep)


def check_C13(rep):
    check_values(rep, ('coordinates compared', 'range checks compared'))


def check_C14(rep):
    check_values(rep, ('coordinates compared', 'range checks compared', 'record values compared'))


def check_C15(rep):
    check_values(rep, ('record values compared', 'derived rules compared'))


def check_C16(rep):
    check_values(rep)


def check_C17(rep):
    check_values(rep)


def check_C21(rep):
    check_values(rep)


# ------------------------------------------------------------------ C20: containers and accessors
def driver_run(rep, cfg, need, prop=None):
    cfg.want = (rep.prop,)
    M = Model(rep.root, cfg)
    cfg.M, cfg.eng = M, M.eng
    M.eng.summarised = set()
    try:
        M.run(cfg.drive, deadline=rep.deadline)
    finally:
        for (p, msg, site), tr in sorted(cfg.viol.items(), key=lambda x: str(x[0])):
            if p == rep.prop:
                rep.bad('%s@%s' % (msg, site.split(':')[0]), msg, site, tr)
    engine_coverage(rep, M.eng, cfg)
    if not rep.violations:
        for n in need:
            if not cfg.nob.get(n):
                raise Gap('no %s were analysed' % n)
    return M


def check_C20(rep):
    import units
    driver_run(rep, units.Ops(), ('operations', 'calls checked'))
    rep.explanation = ('symbolic evaluation, from the source, of every container and accessor operation on a container of '
                       'arbitrary length with an arbitrary index (list summaries, linear facts), against its documented result')


# ------------------------------------------------------------------ C01: tokenizer
def check_C01(rep):
    import units
    cfg = units.Tokenizer()
    m = Model(rep.root, None)
    cfg.F = Fields(m)
    driver_run(rep, cfg, ('complete texts', 'tokens', 'characters'))
    rep.explanation = ('abstract interpretation of the tokenizer loop on an arbitrary text of any length (positions and slices '
                       'as linear terms, loop summarised to a fixpoint) in lockstep with a character-by-character reference '
                       'run; every token is compared with the reference by position and slice')
    rep.coverage['separator sets'] = len(cfg.SEPS)
    rep.assumptions.append('separator sets: ' + ' '.join(repr(s) for s in cfg.SEPS))


# ------------------------------------------------------------------ C22: names
C22_RULES = ('reportMissingImports', 'reportAttributeAccessIssue', 'reportCallIssue', 'reportUndefinedVariable',
             'reportIndexIssue', 'reportUnboundVariable', 'reportPossiblyUnbound')


def check_C22(rep):
    import json
    import shutil
    import subprocess
    import tempfile
    tmp = tempfile.mkdtemp(prefix='c22_')
    files = []
    try:
        for d, dirs, names in os.walk(rep.root):
            dirs[:] = sorted(x for x in dirs if not x.startswith('.') and x not in ('UnitTests', '__pycache__', 'docs'))
            for n in sorted(names):
                if n.endswith('.py'):
                    r = os.path.relpath(os.path.join(d, n), rep.root)
                    os.makedirs(os.path.dirname(os.path.join(tmp, r)), exist_ok=True)
                    shutil.copyfile(os.path.join(d, n), os.path.join(tmp, r))
                    files.append(r)
        for need in ('main.py', 'F15_Parser/F15Parse.py', 'Tokenizer/Tokenize.py', 'Utilities/Utils.py'):
            if need not in files:
                rep.bad('missing:' + need, 'the module %s does not exist' % need, need)
        conf = {'typeCheckingMode': 'off', 'venvPath': '/opt', 'venv': 'venv', 'reportArgumentType': 'none',
                'reportOptionalMemberAccess': 'none'}
        conf.update({k: 'error' for k in C22_RULES})
        json.dump(conf, open(os.path.join(tmp, 'pyrightconfig.json'), 'w'))
        env = dict(os.environ, PYRIGHT_PYTHON_IGNORE_WARNINGS='1')
        p = subprocess.run(['pyright', '--outputjson'], cwd=tmp, capture_output=True, text=True, timeout=600, env=env)
        try:
            out = json.loads(p.stdout)
        except ValueError:
            raise Gap('pyright gave no result: ' + (p.stdout + p.stderr)[-300:])
        n = out.get('summary', {}).get('filesAnalyzed', 0)
        if n < len(files):
            raise Gap('pyright analysed %d of %d files' % (n, len(files)))
        for d in out.get('generalDiagnostics', ()):
            if d.get('severity') != 'error':
                continue
            f = os.path.relpath(d['file'], os.path.realpath(tmp)) if os.path.isabs(d['file']) else d['file']
            rule = d.get('rule')
            if rule is None:
                rule = 'syntax'
            if rule != 'syntax' and rule not in C22_RULES:
                continue
            rep.bad('%s:%s:%s' % (rule, f, d['message'].split('\n')[0]), d['message'].split('\n')[0],
                    '%s:%d' % (f, d['range']['start']['line'] + 1))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    resolved = 0
    try:
        import effects
        e = effects.Effects(rep.root, MODS).run(API, every=True)
        for site, attr, cls, where in sorted(e.unresolved()):
            rep.bad('attribute:%s:%s:%s' % (site.split(':')[0], '/'.join(cls), attr),
                    'no possible object here (%s) has an attribute %r' % (', '.join(cls), attr), site, ['in ' + where])
        resolved = e.checked_loads
    except (Gap, SyntaxError, RecursionError):
        pass
    loads = calls = imports = 0
    for f in files:
        for x in ast.walk(ast.parse(open(os.path.join(rep.root, f), encoding='utf-8').read())):
            loads += isinstance(x, (ast.Name, ast.Attribute))
            calls += isinstance(x, ast.Call)
            imports += isinstance(x, (ast.Import, ast.ImportFrom))
    rep.coverage = {'files analysed': files, 'name and attribute uses': loads, 'calls': calls, 'imports': imports,
                    'attribute uses resolved by points-to sets': resolved, 'rules': list(C22_RULES)}
    rep.explanation = ('type inference over every library module and the example program (pyright, inference only), and a points-to analysis for '
                       'values without an inferred type: each import, '
                       'name, attribute and call must resolve to a definition with matching arguments')
    rep.assumptions.append('an attribute of a value of which neither the type nor the points-to set is known is not checked')


# ------------------------------------------------------------------ C04: progress
def again(e):
    raise e


def check_C04(rep):
    import units

    class E(harness.Progress, EMode):
        exactend = True

        def fold(self, A):
            EMode.fold(self, A)
            # an exit tells that the input has not grown
            u = A.it.unit
            if A.mode != 'exit' or A.final or 'T' not in A.ghost or u.kind == 'driver':
                return
            e, cur, new = self.remaining(u.entry), self.remaining(A.st), self.remaining_abs(A)
            if None in (e, cur, new) or pcval(A.st.norm(psub(e, new))) is not None:
                return
            d = A.st.norm(psub(e, cur))
            if A.st.prove_ge0(paddc(d, -1)):
                A.facts.add(paddc(psub(e, new), -1))
            elif A.st.prove_ge0(d):
                A.facts.add(psub(e, new))

        def remaining_abs(self, A):
            o = A.o(A.ghost['O'][1])
            ints = [v for v in o.f.values() if v[0] == 'num' and v[2] == 'int' or v[0] == 'c' and v[1] == 'int']
            if len(ints) != 1:
                return None
            return psub(segs_len(A.o(A.ghost['T'][1]).f['segs']), poly_of(ints[0]))

        def __init__(self):
            EMode.__init__(self)
            harness.Progress.__init__(self)

    class T(harness.Progress, units.Tokenizer):
        def __init__(self):
            units.Tokenizer.__init__(self)
            harness.Progress.__init__(self)
    t = T()
    t.F = Fields(Model(rep.root, None))
    M = Model(rep.root, t)
    t.M, t.eng = M, M.eng
    M.eng.summarised = set()
    M.run(t.drive, deadline=rep.deadline)
    for msg, site, tr in t.verdict():
        rep.bad('tokenizer:%s@%s' % (msg, site.split(':')[0]), msg, site, tr)
    if rep.violations:
        return
    try:
        cfg, M = harness.run_emode(rep.root, deadline=rep.deadline - 120, cfg=E())
    except Gap as e:
        gc.collect()
        whole(rep, lambda r: again(e))
        return
    for msg, site, tr in cfg.verdict():
        rep.bad('%s@%s' % (msg, site.split(':')[0]), msg, site, tr)
    engine_coverage(rep, M.eng, cfg)
    rep.coverage['activation edges'] = len(cfg.steps) + len(t.steps)
    rep.coverage['activation edges on cycles'] = cfg.cyclic + t.cyclic
    if not rep.violations:
        if not t.cyclic or not cfg.nob.get('complete parses'):
            raise Gap('nothing was analysed')
    rep.explanation = ('ranking argument over the abstract activation graph: every function or loop activation in an abstract '
                       'state is a node; on each edge of a cycle the number of unread tokens (or characters) is compared '
                       'as a linear term; no cycle may lack a strictly decreasing edge, none may have an increasing one')


# ------------------------------------------------------------------ C08: grammar
def shrinkers(root, pkg):
    """statements of the package that may take something out of a container"""
    out = []
    for d, dirs, names in os.walk(os.path.join(root, pkg)):
        for n in sorted(names):
            if n.endswith('.py'):
                p = os.path.join(d, n)
                for x in ast.walk(ast.parse(open(p, encoding='utf-8').read())):
                    if isinstance(x, ast.Delete) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                            x.func.attr in ('pop', 'remove', 'clear', 'popitem', '__delitem__', '__setitem__', 'discard') or \
                            isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.slice, ast.Slice):
                        out.append('%s:%d' % (os.path.relpath(p, root), x.lineno))
    return out


def check_C08(rep):
    class E(EMode):
        grammar = True
        refine_kinds = True
        settled = not shrinkers(rep.root, 'F15_Parser')
    rep.assumptions.append('a path is left once the field is outside the grammar and an error is recorded: the package has no statement '
                           'that takes records out of a list (checked; else every path is followed)')
    whole(rep, lambda r: emode(r, ('C08',), ('complete parses', 'tokens classified'), E()))


# ------------------------------------------------------------------ C19: shared state
P = 'F15_Parser.'
API = [('Tokenizer.Token', 'Token', []), ('Tokenizer.Tokens', 'Tokens', []), ('Tokenizer.Tokenize', 'Tokenize', []),
       (P + 'ExtractedRouteRecord', 'ExtractedRouteRecord', []), (P + 'ExtractedRouteSequence', 'ExtractedRouteSequence', []),
       (P + 'F15Parse', 'ParseF15', [('parse_f15', ['ExtractedRouteSequence', 'Tokens'])]), ('Utilities.Utils', 'Utils', [])]


def check_C19(rep):
    import effects
    e = effects.Effects(rep.root, MODS).run(API)
    for (site, msg), where in sorted(e.viol.items()):
        rep.bad('%s@%s' % (msg, site.split(':')[0]), msg, site, [where])
    fns = {m for f, (m, r) in e.reached.items() if f in e.runtime}
    sh = e.shared()
    rep.coverage = {'source files': sorted(e.files), 'functions analysed': len(fns), 'function contexts': len(e.runtime),
                    'objects': len(e.kind), 'shared objects': len(sh), 'stores and mutating calls': len(e.stats['stores']),
                    'calls resolved': len(e.stats['calls']), 'iterations': len(e.stats['iterations']), 'rounds to the fixpoint': e.rounds}
    if not rep.violations and (len(fns) < 50 or len(e.stats['stores']) < 20 or not sh):
        raise Gap('too little of the library was reached')
    rep.explanation = ('points-to and effect analysis over every function reachable from the public classes: no store, deletion or '
                       'mutating call may reach an object created at module or class level, a default argument, a cached result, a '
                       'class or a module; no use of time, randomness, environment, identity or the order of a set of texts; the '
                       'parser and tokenizer objects carry nothing from one call to the next')
    rep.assumptions.append('functions of the standard library and of geographiclib do not change their arguments')


# ------------------------------------------------------------------ C18: XML
def check_C18(rep):
    import xmlout
    x = xmlout.Xml(rep.root, MODS)
    x.chars = 0
    found = {}
    paths = slots = 0
    top = 4 if rep.tier == 'thorough' else 3
    for n in range(top):
        for m in range(top):
            paths += x.check(n, m, found)
            slots = max(slots, getattr(x, 'nslots', 0))
    for (msg, site), where in sorted(found.items()):
        rep.bad('%s@%s' % (msg, site.split(':')[0]), msg, site, [where])
    rep.coverage = {'source files': sorted(x.files), 'functions analysed': sorted('%s %s' % (a, b) for a, b, _ in x.fns),
                    'paths': paths, 'route shapes (records, errors)': top * top, 'slots in the largest template': slots,
                    'character transformations decided': x.chars}
    if not rep.violations and (slots < 20 or not x.chars):
        raise Gap('nothing was rendered')
    rep.explanation = ('symbolic template of as_xml (literal text and slots for the attributes of the records): the template must be '
                       'well formed, each slot must stand where its name says, each record must be one element in order, and the '
                       'character transformation of each text must be undone by reading the XML')
    rep.assumptions.append('the number of records and errors is 0 to %d each; speed, level and rules texts are upper case letters and digits '
                           '(C12, C15); numbers are rendered with two decimals as documented by the format' % (top - 1))
