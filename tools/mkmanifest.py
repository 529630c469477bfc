#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the reasons below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = ('gated value graphs of the source (abstract interpretation, loops as '
      'closed binder terms) compared with the specification on the finite '
      'abstract domain of order types')
NUM = ('gated value graphs of the numeric code, global value numbering by '
       'random interpretation of both graphs (Gulwani-Necula) per path guard')
T = {p: VG for p in ('C01 C02 C03 C04 C05 C06 C07 C10 C11 C12 C13 C24 '
                     'C25 C26 C27 C30').split()}
T.update({p: NUM for p in 'C14 C15 C17 C19 C23'.split()})
T['C31'] = NUM + '; the metric light cone is the oracle of every vertex'
T['C08'] = 'interprocedural effect analysis (purity of queries)'
T['C09'] = 'interprocedural alias and escape analysis of mutable containers'
T['C16'] = ('per shape constant propagation through the value graphs; '
            'read-set inclusion and raise guards')
T['C18'] = ('per shape constant propagation; definite assignment of columns '
            'and value graph bounds of the sampled terms; effect analysis of '
            'random sources')
T['C20'] = 'typestate and value graphs of the embedding operations'
T['C21'] = ('constant propagation of the module-level tables and gated value '
            'graphs of the lookups, compared per scheme and key')
T['C22'] = ('gated value graphs of the plotting functions for a symbolic '
            'option dictionary (drawing calls as effects), compared with the '
            'documented options per option value')
SMALL = ('Deductive for the abstract cases enumerated: every function is '
         'reduced to one closed value graph (no path or loop unrolling), the '
         'graph is evaluated on every order type up to the stated size '
         '(small model argument for the relational formulas, not a proof for '
         'all sizes). Source constructs the analysis does not model make an '
         'obligation undecided (reported in the evidence), never a violation.')
NUMN = ('The value graphs are compared exactly up to random interpretation '
        '(identity of real functions per guard, probability of a wrong '
        'verdict negligible); floating point rounding is not modelled. '
        'Unmodelled constructs make an obligation undecided, never a '
        'violation.')
L = {p: SMALL for p in T}
L.update({p: NUMN for p in 'C14 C15 C17 C19 C23 C31'.split()})
NA = {
    'C28': 'A statement about probability distributions of numpy generators; '
           'no static analysis of the source decides a distribution.',
    'C29': 'Transitivity over all triples of real coordinates is a theorem '
           'of nonlinear real arithmetic (needs a solver or proof); as '
           'implemented with rounding tolerances it only holds approximately.',
}
PENDING = 'No static check of this property is claimed in this version.'


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(
        HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in ids:
        if os.path.exists(os.path.join(HERE, 'sa/checks/%s.py' % p.lower())):
            checks.append({
                'property': p,
                'quick_cmd': 'python3-vt sa/main.py %s quick' % p,
                'thorough_cmd': 'python3-vt sa/main.py %s thorough' % p,
                'evidence_file': 'evidence/%s.json' % p,
                'technique': 'static analysis: ' + T[p],
                'level': 'other', 'level_note': L[p]})
        else:
            na.append({'property': p, 'reason': NA.get(p, PENDING)})
    m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q sa || true',
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
