"""Writes MANIFEST.json from the list below."""
import json, os
NOTE = {
 'C19': 'Every Edge predicate, Face.get_neighbour and Face.max_edge_from_face proved for all inputs against the statement; real/ghost face queries bounded.',
}
NA = {
 'C23': 'The guarantee is about the interleavings of messages between MPI processes (mpi4py isend/irecv); sequential contracts cannot express a schedule, and no thread- or process-aware deductive verifier for Python is present.',
 'C24': 'The laws are fits produced by scipy.optimize.curve_fit and numpy interpolation on floating point tables; their contract would be an assumed contract of the dependency, leaving nothing of this code to prove.',
 'C25': 'NullSpaceSmoothing is an eigen-decomposition (numpy.linalg) of floating point matrices with threshold tests; its contract would rest wholly on an assumed contract of the dependency, and the code path raises NameError (missing import) before reaching the property.',
}
ids = ['C%02d' % i for i in range(1, 23)]
checks = []
for p in ids:
    proof = os.path.exists('/verif/contracts/%s.py' % p.lower())
    about = {}
    if proof:
        import sys, importlib
        sys.path.insert(0, '/verif')
        about = getattr(importlib.import_module('contracts.' + p.lower()), 'ABOUT', {})
    checks.append({
        'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
        'technique': 'contract-based deductive verification of the real code (obligations generated from the current source, z3/cvc5)' +
                     ('' if proof else '; only its bounded stand-in so far'),
        'level': 'proof' if proof else 'exploration',
        'level_note': about.get('level_note') or NOTE.get(p) or ('Contracts proved for all inputs for the functions listed in the evidence; the rest of the statement is covered by a bounded stand-in on the real code.' if proof else
                      'Bounded stand-in only: the concrete harness runs the real code on generated inputs; nothing is proved.')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && cvc5 --version >/dev/null && mkdir -p evidence', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}, open('/verif/MANIFEST.json', 'w'), indent=1)
