#!/usr/bin/env python3
"""Write MANIFEST.json from engine/registry.py and the texts below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
from registry import CHECKS

GEO = ('abstract interpretation of the monomorphised MIR over float terms with an order domain; real-number normal forms')
TREE = ('abstract interpretation of the monomorphised MIR with node contracts (shape, order and multiplicity domains)')
GNOTE = ('Every path of the public entry points is evaluated from MIR for arbitrary finite coordinates. Formulas are compared as '
         'real-number formulas (rounding is not judged). Trusts rustc, the models of std/num primitives, and the named geo leaves '
         '(planar Distance, Intersects).')
TNOTE = ('Every path of the public tree operations is evaluated from MIR on an arbitrary tree, with induction over sub-trees by contracts '
         'at strict sub-nodes. Trusts rustc, the models of std containers and sorting, the soundness of the induction argument in DESIGN.md.')

TEXT = {
    'C01': (TREE, TNOTE), 'C02': (TREE, TNOTE), 'C03': (TREE, TNOTE), 'C04': (TREE, TNOTE), 'C05': (TREE, TNOTE),
    'C06': (TREE, TNOTE), 'C07': (TREE, TNOTE), 'C08': (TREE, TNOTE), 'C09': (TREE, TNOTE), 'C10': (TREE, TNOTE),
    'C11': (TREE, TNOTE), 'C12': (TREE, TNOTE), 'C13': (TREE, TNOTE), 'C23': (TREE, TNOTE),
    'C14': (GEO, GNOTE), 'C15': (GEO, GNOTE), 'C16': (GEO, GNOTE), 'C17': (GEO, GNOTE), 'C18': (GEO, GNOTE), 'C19': (
        GEO, GNOTE + ' Sequences: exact for explicit short sequences, and for a witness segment anywhere in a sequence of any length '
        'as an upper bound of the result.'),
    'C20': (GEO, GNOTE), 'C21': (GEO, GNOTE + ' Sequences: explicit lengths exactly, any length for the contents.'),
    'C22': (GEO, GNOTE + ' Bounding boxes are exact for explicit sequences.'),
    'C24': ('type and effect analysis of the compiled crate (interior mutability, statics, unsafe, auto traits)',
            'Decided from type information of the current crate; trusts rustc type checking and the std types involved.'),
    'C25': ('public API reachability analysis over rustc type information',
            'Enumerates the exported API of the current crate; trusts rustc privacy checking.'),
    'C26': (TREE, TNOTE), 'C29': (TREE, TNOTE), 'C30': (TREE, TNOTE),
}
NA = {
    'C27': 'depends on trigonometric inequalities about great-circle lower bounds over all coordinates, which do not hold as a shape of '
           'the code (the crate documents approximations near the antimeridian); no static argument in reach decides it',
    'C28': 'a bound on accumulated floating-point rounding of sin/cos/asin compositions; no sound static bound in reach',
}


def main():
    ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    checks = []
    na = []
    for i in ids:
        if i in CHECKS:
            t, n = TEXT[i]
            checks.append({
                'property': i,
                'quick_cmd': 'python3 engine/check.py %s quick' % i,
                'thorough_cmd': 'python3 engine/check.py %s thorough' % i,
                'technique': t, 'level': 'proof', 'level_note': n})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'the check for this property is still being built')})
    m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na}
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
