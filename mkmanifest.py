"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS
NA = {
 'C08': 'The coder (FSE/tANS, lib/FiniteStateEntropy, plus the 2^14 normalised distributions from a 128-bit floating sum of exponentials) is beyond the contracts in reach: the round trip needs an invariant over table-driven bit streams whose tables are built by a data-dependent spread of 2^14 cells. The one genuine defect found (symbols above the highest symbol of the distribution) is repaired; the park decoders of the C07, C13 and C14 end-to-end drivers exercise the round trip on real plots, bounded.',
 'C19': 'Liveness over all schedules: the contracts here are partial-correctness contracts (monitor invariants, ordering, failure reporting); no ranking/fairness argument for condition variables is within reach of the verifier. Known to be false after a worker failure (see DESIGN.md, findings).',
 'C20': 'src/chia_plot.cpp cannot be brought within reach: the BLS, bech32 and sodium sources it is written against are empty submodules here, so neither the verifier front end nor a native replay can compile it.',
}
checks = []; na = []
for l in open('properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in PROPS and PROPS[i].get('units'):
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
            evidence_file='evidence/%s.json' % i, technique=P.get('technique', 'contract-based deductive verification of the real code (VC generation from LLVM IR, z3/cvc5)'), level=P.get('level', 'proof'),
            level_note=P.get('note', 'All obligations of the contract harnesses are discharged for all inputs on the code compiled from /repo; trusted: clang front end, irvc VC generator, solvers, specstl library contracts.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Check under construction.')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='See DESIGN.md.'), open('MANIFEST.json', 'w'), indent=1)
