#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': ('ASan+UBSan session fuzzing of the whole program', 'Every reached execution is free of ASan/UBSan reports and ends with status 0 or 1; says nothing about unreached paths.'),
 'C02': ('live-heap accounting monitor at the allocator boundary', 'Live blocks are zero after every observed session and do not grow when commands are repeated; library requests leave the amount of allocated memory as it was.'),
 'C03': ('online oracle: reference evaluator, with sanitizers', 'Observed values agree with an independent evaluator; ill-conditioned expressions are recognised by jittering and skipped.'),
 'C04': ('online oracle: reference parser on returned trees', 'Returned trees and token streams equal those of an independent parser.'),
 'C05': ('online oracle: reference grammar decides acceptance', 'Acceptance agrees with an independent recogniser on generated and mutated inputs.'),
 'C06': ('print/parse round-trip monitor with reference parser', 'Printed text read back by the real and an independent parser gives the same tree; exhaustive for operator nestings of depth three.'),
 'C07': ('model-based history monitor on sessions', 'Every answer agrees with a list model of the history.'),
 'C08': ('metamorphic monitor: call versus substituted text', 'Observed calls agree with their textual expansion, and with a reference evaluator.'),
 'C09': ('differential session monitor (with/without rejected commands)', 'Twin sessions answer identically.'),
 'C10': ('model-based monitor: map from names to meanings', 'Every answer agrees with a map model.'),
 'C11': ('online oracle: independent numeric evaluation of input and output', 'Printed expression has the same value at many random points; undecidable points are skipped.'),
 'C12': ('online oracle: automatic differentiation of the input', 'Printed derivative has the value of the derivative at many random points.'),
 'C13': ('differential session monitor over equivalent histories', 'Probe answers agree between sessions with the same state.'),
 'C14': ('online oracle: brute-force matcher against the real matcher', 'Set of matchings equals brute force on generated and enumerated pairs.'),
 'C15': ('online oracle: reference rewriting against real rule application', 'Resulting trees and counts agree with reference rewriting.'),
 'C16': ('session monitor on mutated rule files with reference rule grammar', 'Acceptance agrees with a reference grammar and rejected files leave probes unchanged.'),
 'C17': ('online oracle: reference table and fold', 'Rows and fold results agree with a reference evaluator.'),
 'C18': ('online oracle: structural checker of rendered tables', 'Rendered lines satisfy the layout rules, junction by junction and cell by cell.'),
 'C19': ('differential session monitor: loaded file versus typed lines', 'Both executions print the same and leave the same state.'),
 'C20': ('model-based monitor of argument vectors and exit status', 'Outputs and exit status agree with a model of the switches.'),
 'C21': ('differential monitor terminal versus pipe; marker position oracle', 'Results agree and markers span the token the reference parser or evaluator blames.'),
 'C22': ('model-based monitor of containers under ASan/UBSan', 'Every operation result equals the model.'),
 'C23': ('enumerated allocation-failure injection under ASan', 'Each allocation of the workload sessions is failed once; the outcome is monitored.'),
 'C24': ('monitor comparing help output with observed behaviour', 'Listed operators and definitions are confirmed by probing, and nothing else is accepted.'),
 'C25': ('statistical and bounds monitor over many draws', 'Bounds hold on all draws; spread checked with a negligible false-alarm probability.'),
 'C26': ('basic-block budget monitor per command', 'Executed basic blocks per command stay below fixed generous bounds.'),
 'C27': ('online oracle: reference term operations', 'Results of tree functions equal reference terms.'),
}
LEVEL = {'C23': 'fault_enumeration'}
checks, na = [], []
for i in range(1, 28):
    p = 'C%02d' % i
    t, n = NOTE[p]
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': LEVEL.get(p, 'exploration'), 'level_note': n})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: checks compile the working tree with sanitizers and coverage callbacks and wrap allocator, isatty and time at link time.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks')
