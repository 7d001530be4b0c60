"""writes MANIFEST.json from the registered rules"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mca.main import RULES

NOTE = ('Static: obligations over gated value numbers of the resolved program (clang AST, callees inlined, loops summarised, real arithmetic). An obligation is proved when its normal '
        'form is TRUE; a violation is reported only when the normal form is not TRUE and a random finite interpretation of its symbols falsifies it; otherwise it stays undetermined '
        '(quiet, counted in the evidence). Trusted: clang front end, library models in mca/lib.py. No code of /repo is compiled or run.')
NOTES = {
    'C25': ('Static: the library is resolved twice (with and without NDEBUG). Assertion conditions are judged by may-effect summaries (assignments, mutating library operations, draws, output, through calls and '
            'function-pointer slots); a map lookup that only might insert stays undetermined when it happens in a callee. Trusted: clang front end, the list of mutating library operations.'),
}
TECH = {
    'default': 'value-number dataflow analysis with random-interpretation refutation',
    'C13': 'entropy-source, shared-generator and address-order lints over the resolved program; value-number dataflow analysis of the draws',
    'C25': 'effect summaries of assertion conditions over the call graph; structural comparison of the program resolved with and without NDEBUG',
}
NA = {
    'C28': 'compares long-run statistics of two stochastic simulations; quantifies over runtime distributions no static argument in reach bounds',
    'C29': 'termination of a floating-point fixed-point iteration depends on convergence of run-time values',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in RULES:
            checks.append({'property': i, 'quick_cmd': 'python3 -m mca.main %s quick' % i, 'thorough_cmd': 'python3 -m mca.main %s thorough' % i,
                           'technique': TECH.get(i, TECH['default']), 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "from mca import frontend; print(frontend.exporter())"', 'checks': checks, 'not_applicable': na,
               'notes': 'Nothing of /repo is compiled, linked or run by a check; no hooks are needed.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
