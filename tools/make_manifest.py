#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'runtime monitoring: returned values against a direct-integration oracle, all call forms',
    'C02': 'runtime monitoring: trace laws (reciprocity, additivity, monotonicity) between observed calls',
    'C03': 'runtime monitoring: accuracy monitor of the approximate against exact and integrated values',
    'C04': 'runtime monitoring: returned values against 3D integration oracle, metamorphic rigid motions',
    'C05': 'runtime monitoring: partition invariant on returned segments',
    'C06': 'runtime monitoring: recorded solver histories replayed in an independent ground model',
    'C07': 'runtime monitoring: differential monitor of two solvers on the same input',
    'C08': 'runtime monitoring: group conservation invariants and differential monitor of two solvers',
    'C09': 'runtime monitoring: metamorphic monitor over transformed inputs',
    'C10': 'runtime monitoring: shape invariants on returned curves',
    'C11': 'runtime monitoring: recorded histories checked for heat balance in ground and network',
    'C12': 'runtime monitoring: differential monitor, variable against single-flow runs',
    'C13': 'runtime monitoring: hooked figure data against the recorded solution',
    'C14': 'runtime monitoring: shadow model of each aggregation scheme stepped alongside',
    'C15': 'runtime monitoring: twin objects driven by random operation sequences',
    'C16': 'runtime monitoring: well-formedness monitors on generated grids',
    'C17': 'runtime monitoring: temperature profiles against an independent integration of the energy balance',
    'C18': 'runtime monitoring: consistency monitor across all queries of one state',
    'C19': 'runtime monitoring: metamorphic monitor over flow reversal and mirrored objects',
    'C20': 'runtime monitoring: sampled temperature field checked against the boundary value problem',
    'C21': 'runtime monitoring: residual and continuity monitors of the correlations',
    'C22': 'runtime monitoring: attribute values against the property source',
    'C23': 'runtime monitoring: network queries against a walk of the connections',
    'C24': 'runtime monitoring: acceptance/refusal oracle on boundary inputs',
    'C25': 'runtime monitoring: long-lived objects compared with fresh ones after random query histories',
    'C26': 'runtime monitoring: sequence model of the bore field operations',
    'C27': 'runtime monitoring: brute-force duplicate oracle',
    'C28': 'runtime monitoring: argument snapshots around calls; concurrent against sequential runs',
    'C29': 'runtime monitoring: differential monitor of alternative entry points',
    'C30': 'runtime monitoring: metamorphic monitor over equivalent and graded solver options',
    'C31': 'runtime monitoring: differential monitor over number types of the same input',
    'C32': 'runtime monitoring: artists of figures and printed forms compared with the geometry',
    'C33': 'runtime monitoring: chained calculations against an independent coupled simulation',
    'C34': 'runtime monitoring: time, finiteness and bound monitors over the physical range of inputs',
}
LEVEL_NOTE = ('Real code executed under seeded generated workloads with monitors attached; no exhaustive or symbolic '
              'claim. Evidence lists oracle events, distinct situations and margins observed.')
checks, na = [], []
NA = {}
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(here, 'vp', 'props', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd=f'/opt/venv/bin/python run.py {p} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python run.py {p} --tier thorough',
                           evidence_file=f'evidence/{p}.json', technique=TECH[p], level='exploration',
                           level_note=LEVEL_NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py', checks=checks, not_applicable=na,
         notes='All checks run /repo\'s working tree directly (pure Python, nothing to build); see DESIGN.md.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
