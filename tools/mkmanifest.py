#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.main import PROPS
T = {
 'P01': ('BatchIter', 'reader of shuffled data'), 'P02': ('BatchIter', 'linear and scoring readers'),
 'P03': ('Trainer', 'training process'), 'P04': ('Trainer', 'training process'),
 'P05': ('Trainer', 'training process with crashes'), 'P06': ('Trainer', 'training process'),
 'P07': ('Vocab', 'vocabulary construction'), 'P08': ('Vocab', 'vocabulary probabilities'),
 'P09': ('ModelFile', 'model files and architectures'), 'P10': ('TextScore', 'text scoring'),
 'P11': ('History', 'dependence of predictions on history'), 'P12': ('Subwords', 'score command'),
 'P13': ('LatticeDecode', 'token passing decoder'), 'P14': ('LatticeDecode', 'pruning and recombination'),
 'P15': ('LatticeIO', 'lattice reading and writing'), 'P16': ('Rescored', 'rescored lattices'),
 'P17': ('LatticeJobs', 'lattice batches and decode output'), 'P18': ('TextSampling', 'text sampler'),
 'P19': ('WordClasses', 'word class exchange'), 'P20': ('TrainStep', 'training updates'),
 'P21': ('Noise', 'noise sampling'), 'P22': ('Layers', 'network layers'),
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(V, PROPS[pid].replace('.', '/') + '.py')):
        mod, what = T[pid]
        checks.append(dict(
            property=pid, quick_cmd='bin/check %s' % pid, thorough_cmd='bin/check %s thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique='TLA+ specification %s.tla (%s) checked with TLC; the real code driven by '
                      'scenarios of the specification and its recorded traces validated by TLC' % (mod, what),
            level='model_checking',
            level_note='The specification is checked exhaustively within small constants; the code is '
                       'bound to it by trace validation of the executions explored (specification-generated '
                       'and random scenarios), so a deviation outside those executions is not seen.'))
    else:
        na.append(dict(property=pid, reason='its specification and conformance check have not been built yet'))
m = dict(version=1, setup_cmd='bin/setup', hooks=dict(guard='none', enable='no hooks are needed: the checks '
         'import the code of /repo as it is', source_commits=[]), checks=checks, not_applicable=na,
         notes='Specifications in specs/, drivers of the real code in drivers/, shared machinery in vlib/.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
