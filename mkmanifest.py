#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
ABS = 'abstract interpretation (regular-language and linear domains, function summaries to a fixpoint)'
CLAIM = {
 'C01': ABS + ': tokenizer loop against a reference run',
 'C02': ABS + ': types of arbitrary texts against the reference token languages, bounded token structures',
 'C03': ABS + ': exception reachability; fields of fixed structure, then fields of any length',
 'C04': ABS + ': ranking argument over the activation graph and the loops',
 'C05': 'call graph analysis (strongly connected components)',
 'C06': ABS + ': record provenance and order; fields of fixed structure, then fields of any length',
 'C07': ABS + ': verdict against error list; fields of fixed structure, then fields of any length',
 'C08': ABS + ': parser in lockstep with the grammar automaton; fields of fixed structure, then fields of any length',
 'C09': ABS + ': error record provenance; fields of fixed structure, then fields of any length',
 'C10': ABS + ': token coverage and effect; fields of fixed structure, then fields of any length',
 'C11': ABS + ': record values against a reference evaluation, bounded token structures, arbitrary texts',
 'C12': ABS + ': decoded speeds and levels against reference expressions, bounded token structures, arbitrary texts',
 'C13': ABS + ': decoded coordinates and range errors against reference expressions, bounded token structures, arbitrary texts',
 'C14': ABS + ': projected points, azimuths and range errors against reference expressions, bounded token structures, arbitrary texts',
 'C15': ABS + ': flight rules against a reference evaluation, bounded token structures, arbitrary texts',
 'C16': ABS + ': break texts against a reference evaluation, bounded token structures, arbitrary texts',
 'C17': ABS + ': stay times against a reference evaluation, bounded token structures, arbitrary texts',
 'C21': ABS + ': SID and STAR types against a reference evaluation, bounded token structures, arbitrary texts',
 'C18': 'symbolic evaluation of the rendering to a template: placement of each value, inverse of each character transformation',
 'C19': 'points-to and effect analysis (allocation sites, receiver sensitive): stores into shared objects, nondeterminism',
 'C20': ABS + ': operations on containers of arbitrary contents',
 'C22': 'type inference and name resolution (pyright)',
}
NOTE = {
 'C18': 'All paths of the rendering for up to 2 records and 2 errors (thorough: 3); texts are arbitrary (each character transformation is decided for printable ASCII, tab, line ends and samples of other planes). Trusted: the evaluator in lib/xmlout.py and expat as the reader.',
 'C19': 'Over-approximated aliasing: every store and mutating call reachable from the public classes. Trusted: lib/effects.py and that the standard library and geographiclib do not change their arguments.',
 'C05': 'Over-approximated call graph; the known recursion of the parser handlers is listed as a finding, any other recursion is a violation.',
}
NOTE4 = (' Should that end without an answer on a changed source, fields of up to 10 tokens in 10006 fixed structures are analysed '
         'instead and the evidence says so.')
DEFNOTE = ('All paths of the current source over all inputs, within the modelled Python subset (outside of it: exit 2, never a pass). '
           'Trusted: the interpreter in /verif/lib, its models of built-ins, and the reference tables in spec.py.')
SHORT = (' Fields of up to 10 tokens in 10006 fixed structures are analysed first; the quick commands of C06 to C10 end there, '
         'the thorough ones (and the quick one of C03) go on to fields of any length; should the analysis of fields of any length end '
         'without an answer on a changed source, the answer covers those structures only and the evidence says so.')
BOUNDED = ('The texts of the tokens are arbitrary members of their kinds (all inputs of that structure); the number and kinds of the '
           'tokens are bounded: all error-free fields up to 4 tokens (thorough: 5) over the token kinds plus listed longer ones '
           '(lib/values.py). Trusted: the interpreter in /verif/lib, its models of built-ins and of the geodesic library '
           '(uninterpreted), and the reference evaluation in values.py and spec.py.')
NA = {}
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q lib check.py',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                 'technique': CLAIM[i], 'level': 'other', 'level_note': NOTE.get(i, BOUNDED if 'bounded' in CLAIM[i] else DEFNOTE + (SHORT if i in ('C03', 'C06', 'C07', 'C08', 'C09', 'C10') else NOTE4 if i == 'C04' else ''))} for i in ids if i in CLAIM],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'check not built yet')} for i in ids if i not in CLAIM],
     'notes': 'Static analysis only: no code of /repo is executed by a check. See DESIGN.md.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
