#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CPP = 'property-based testing: seeded random generation over a byte-choice decoder against an executable reference model, under ASan+UBSan, with shrinking; '
TECH = {}
for i in range(1, 10): TECH['C%02d' % i] = CPP + 'differential check against a double-precision reference of the layer'
for i in (10, 11): TECH['C%02d' % i] = CPP + 'model-based histories of operations, leak accounting'
for i in (12, 13): TECH['C%02d' % i] = CPP + 'exact reference of the tensor operation, pre-filled destinations'
for i in range(14, 21): TECH['C%02d' % i] = CPP + 'generated files with byte-level corruption and truncation, plus coverage-guided fuzzing (libFuzzer) with the same decoder and oracle'
IMP = 'property-based testing: seeded structured generation of ONNX models (recorded draws, shrinking, replay), each imported through the command line, the generated C++ compiled with ASan+UBSan and run; '
TECH.update({
 'C33': 'property-based testing: generated sets of concurrent jobs under ThreadSanitizer, each result compared bit for bit with that of the job alone, with shrinking',
 'C34': 'property-based testing: generated histories of imports in one directory; the whole tree compared with a model of it after every step',
 'C21': IMP + 'differential check of outputs against a numpy ONNX executor (sequential models)',
 'C22': IMP + 'differential check of outputs against a numpy ONNX executor (branching graphs, shape operations)',
 'C23': IMP + 'round trip of parameters: initializers against the tensors of the loaded network, bit for bit, and each stored once in the weights file',
 'C24': IMP + 'mutated and unsupported models: rejected or equal to the numpy ONNX executor',
 'C25': IMP + 'generated histories of create/load/run/destroy compared with a fresh instance, leak accounting',
 'C26': IMP + 'generated reference programs fed with equal, perturbed and broken reference files; verdict against an oracle',
 'C27': IMP + 'metamorphic relation: meaning-preserving rewrites of a model keep the outputs; repeated import keeps the files',
 'C28': 'property-based testing: generated ONNX tensor files and directories converted by the utility and read back by the library, bit for bit',
 'C29': 'property-based testing: generated requests and files; the utility runs a recording backend, its files are read back by the library, bit for bit',
 'C30': IMP + 'example programs run on generated networks and data sets, results against an oracle computed from the network\'s outputs',
 'C31': 'property-based testing: generated image directories and requests; pixels of the results against the originals',
 'C32': 'property-based testing: generated data sets and values; verdict and files against an oracle',
})
DONE = os.environ.get('CLAIM', '').split() or [p['id'] for p in props]
checks, na = [], []
for p in props:
    i = p['id']
    if i in DONE and (os.path.exists('%s/engine/%s.cpp' % (V, i.lower())) or os.path.exists(V + '/importer/checks/%s.py' % i.lower())):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'exploration',
                       'level_note': 'generated-input search with an explicit oracle; no exhaustive claim. Bounds and case counts in DESIGN.md and in the evidence file.'})
    else:
        na.append({'property': i, 'reason': 'not claimed yet: the check for this property is still being built'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check uses the public API, the importer CLI and generated programs only. Repairs are the fix: commits in /repo, listed in KNOWN_FINDINGS.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
