#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and pbt/index.py."""
import importlib.util
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('i', os.path.join(V, 'pbt', 'index.py'))
index = importlib.util.module_from_spec(spec)
spec.loader.exec_module(index)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
    'C01': 'Hypothesis: differential against an independent numpy evaluator',
    'C02': 'Hypothesis: differential against roles computed from the definition, metamorphic reordering',
    'C03': 'Hypothesis: differential against forward-mode jets',
    'C04': 'Hypothesis: differential against second-order jets, symmetry invariant',
    'C05': 'Hypothesis: differential against jets and exact ODE sensitivities',
    'C06': 'Hypothesis: differential against matrix exponentials and closed-form solutions',
    'C07': 'Hypothesis: differential against chi-squared from jets',
    'C08': 'Hypothesis: differential against likelihood from jets',
    'C09': 'Hypothesis: reference model of data binding',
    'C10': 'Hypothesis: closed-form optima, recomputed fit quality',
    'C11': 'Hypothesis: closed-form covariance',
    'C12': 'Hypothesis: metamorphic relation fixed parameter = constant, spying on the optimiser',
    'C13': 'Hypothesis: invariant over recorded evaluations, closed-form bounded optima',
    'C14': 'Hypothesis: reference constraint values, KKT closed-form optima',
    'C15': 'Hypothesis: recording stand-ins for the optimisers, compared with the posed problem',
    'C16': 'Hypothesis: recorded histories of chains and global minimisers',
    'C17': 'Hypothesis: pickle round trip, differential between interpreters',
    'C18': 'Hypothesis: reference model of declarations',
    'C19': 'Hypothesis: consistency invariants on fit results, parsed reports',
    'C20': 'Hypothesis: decision-table oracle',
    'C21': 'Hypothesis: stateful slider histories against recomputed curves',
    'C22': 'Hypothesis: differential against textbook densities, quadrature',
    'C23': 'Hypothesis: metamorphic relations',
    'C24': 'Hypothesis: algebraic relations of equality and negation',
    'C25': 'Hypothesis: stateful histories against fresh objects',
}
checks = []
for p in props:
    i = p['id']
    if i in index.SIZES:
        checks.append(dict(property=i, quick_cmd='python3 pbt/run.py ' + i, thorough_cmd='python3 pbt/run.py {} --tier thorough'.format(i),
                           evidence_file='evidence/{}.json'.format(i), technique=TECH[i], level='exploration',
                           level_note='Generated-input search: no violation among the generated cases (facets: {}). Trusts numpy, scipy, sympy, '
                                      'Hypothesis and the oracles described in DESIGN.md; domain and tolerances stated there.'.format(
                                          ', '.join(index.SIZES[i]))))
na = [dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in index.SIZES]
m = dict(version=1, setup_cmd='python3 pbt/setup_check.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks import symfit from its working tree and observe public behaviour or arguments of scipy functions.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
