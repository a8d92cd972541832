#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of the code under /repo by static analysis.

exit 0: holds on everything analysed; exit 1: VIOLATION line(s); exit 2: the analysis could not decide."""
import gc
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))


def known(prop):
    """findings listed in known_findings.txt:  known: property=C05 key=<key> | text"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p, encoding='utf-8'):
        line = line.strip()
        if line.startswith('known: property=%s ' % prop):
            rest = line.split(' key=', 1)[1]
            key, text = rest.split(' | ', 1)
            out[key] = text
    return out


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    root = os.environ.get('VERIF_REPO', '/repo')
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    t0 = time.time()
    gc.disable()       # nothing here is cyclic garbage worth looking for
    import checks
    from terms import Gap
    rep = checks.Report(prop, tier, root)
    status = 0
    problem = None
    try:
        checks.run(rep)
    except Gap as e:
        problem = 'analysis gap: %s' % (e,)
    except RecursionError:
        problem = 'analysis gap: analysis recursion too deep'
    except SyntaxError as e:
        problem = 'source does not parse: %s' % (e,)
    except Exception:
        problem = 'internal error: ' + traceback.format_exc(limit=-8)
    kn = known(prop)
    new = [v for v in rep.violations if v['key'] not in kn]
    old = sorted({v['key'] for v in rep.violations if v['key'] in kn})
    if new:
        status = 1
    elif problem:
        status = 2
    path = os.path.join(ev, prop + '.report.txt')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('property %s, tier %s\n' % (prop, tier))
        for v in new:
            f.write('\nVIOLATION %s\n  at %s\n' % (v['msg'], v['site']))
            for line in v['trace']:
                f.write('    %s\n' % line)
        if problem:
            f.write('\nUNDECIDED %s\n' % problem)
    for k in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
    for v in new[:20]:
        print('%s: %s' % (v['site'], v['msg']))
        for line in v['trace'][:8]:
            print('    ' + line)
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    elif problem:
        print('UNDECIDED property=%s %s' % (prop, problem))
    else:
        print('OK property=%s %s' % (prop, json.dumps(rep.coverage)[:400]))
    cov = dict(rep.coverage)
    cov['explanation'] = rep.explanation
    if problem:
        cov['undecided'] = problem[:2000]
    doc = {'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick',
           'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': rep.level, 'coverage': cov,
           'wall_s': round(time.time() - t0, 3), 'violations': len(new), 'assumptions': rep.assumptions}
    with open(os.path.join(ev, prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
        f.write('\n')
    sys.stdout.flush()
    os._exit(status)


if __name__ == '__main__':
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main, args=(sys.argv,))
    t.start()
    t.join()
    os._exit(3)
