"""Writes /verif/MANIFEST.json from the property list."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'N01': 'Quantifies over floating-point rounding along arbitrarily long runs; no sound static error bound for matrix inversion and products of unknown matrices is in reach. The structural part (symmetry in exact arithmetic) is C10.',
 'N02': 'A statement about probability distributions of runs on random data (convergence, chi-square consistency); its truth is not visible in the code of one step. The step equations themselves are C01-C21.',
 'N03': 'Distributional correctness of pseudo-random draws cannot be decided from the source; the deterministic part of resampling (index validity, positions, residual counts) is C27 and the arguments handed to the generators are checked in C17, C27 and C30.',
}
TODO = {}
NOTE = ('Sound up to the stated assumptions for every obligation counted as holding: exact real arithmetic, documented argument shapes and types, numpy/scipy as modelled by the '
        'transfer functions in fpsa/npmodel.py. Obligations the analysis cannot decide are listed in the evidence as undecided and raise no alarm.')
TECH = 'static analysis: term-domain abstract interpretation (gated value numbering with a tensor normal form, symbolic shapes, aliasing, one-pass loop summaries) of the current source, compared with specification terms'
TECHS = {
 'C32': 'static analysis: backward def-use liveness of every parameter and stored option over the syntax tree and through helper calls',
 'C34': 'static analysis: scope resolution, definite assignment, attribute and signature resolution over the syntax tree, plus abstract interpretation of every entry point on documented arguments (no reachable shape error, undefined read or unexpected raise)',
 'C35': 'static analysis: effect analysis of module/class/default containers and of randomness over the syntax tree, plus location sharing and repeated-call terms in the abstract interpretation',
 'C40': 'static analysis: storage-type (element-type provenance) dataflow on the abstract interpretation of every entry point, all caller arrays taken as integer',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    claimed = [l.strip() for l in open(os.path.join(ROOT, 'tools', 'claimed.txt')) if l.strip()]
    checks = []
    na = []
    for p in props:
        i = p['id']
        if i in claimed:
            checks.append({'property': i, 'quick_cmd': 'python3 -m fpsa check %s --tier quick' % i, 'thorough_cmd': 'python3 -m fpsa check %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': TECHS.get(i, TECH), 'level': 'other', 'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': NA.get(i) or 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q fpsa', 'checks': checks, 'not_applicable': na,
         'notes': 'Pure Python standard library; nothing of /repo is imported or executed by a check. Findings: known_findings.txt. Design: DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
