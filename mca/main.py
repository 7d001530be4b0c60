"""check driver: python3 -m mca.main <property> <tier>"""
import importlib
import json
import os
import sys
import time
import traceback
from . import frontend
from .rules import base

VERIF = frontend.HERE
EVID = os.environ.get('MCA_EVIDENCE', os.path.join(VERIF, 'evidence'))
RULES = {
    'C25': ('builds', 'c25'),
    'C13': ('entropy', 'c13'), 'C22': ('hops', 'c22'), 'C23': ('hops', 'c23'), 'C30': ('grains', 'c30'), 'C31': ('hops', 'c31'), 'C14': ('objects', 'c14'), 'C04': ('objects', 'c04'), 'C15': ('objects', 'c15'), 'C06': ('objects', 'c06'), 'C05': ('objects', 'c05'),
    'C16': ('lattice', 'c16'), 'C17': ('lattice', 'c17'), 'C18': ('lattice', 'c18'), 'C19': ('lattice', 'c19'), 'C20': ('lattice', 'c20'), 'C21': ('lattice', 'c21'),
    'C07': ('cluster', 'c07'), 'C09': ('moves', 'c09'), 'C10': ('moves', 'c10'), 'C11': ('moves', 'c11'), 'C12': ('moves', 'c12'), 'C26': ('moves', 'c26'), 'C08': ('cluster', 'c08'),
    'C01': ('stores', 'c01'), 'C02': ('queries', 'c02'), 'C03': ('stores', 'c03'), 'C24': ('listings', 'c24'), 'C27': ('listings', 'c27'),
}


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                kv = dict(x.split('=', 1) for x in l[6:].strip().split(' ; ') if '=' in x)
                out.append(kv)
    return out


def run(pid, tier, verbose=False):
    t0 = time.time()
    p = frontend.load()
    if p.failed and any('coarsegrain' not in f[0] and 'basin' not in f[0] for f in p.failed):
        raise frontend.Broken('parse failure: %s' % (p.failed,))
    mod, fn = RULES[pid]
    c = base.Check(pid, p, tier)
    m = importlib.import_module('mca.rules.' + mod)
    getattr(m, fn)(c)
    if not c.obligations:
        raise frontend.Broken('no obligations')
    st = {}
    for o in c.obligations:
        st[o[1]] = st.get(o[1], 0) + 1
    kf = [k for k in known() if k.get('property') == pid]
    viol, knownhit = [], []
    for f in c.found:
        hit = next((k for k in kf if k.get('rule') == f.name and k.get('function', '') in f.where), None)
        (knownhit if hit else viol).append(f)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static value-number analysis of the resolved program: %d obligations over %d analysed functions; an obligation is proved when its normal form is TRUE, '
                           'refuted when its normal form is not TRUE and an interpretation of its symbols falsifies it, undetermined otherwise.' % (len(c.obligations), len(c.functions)),
            'units_parsed': len(p.units), 'functions_in_program': len(p.funcs), 'functions_analysed': sorted(c.functions),
            'inlined_calls': c.callsites, 'obligations_total': len(c.obligations), 'proved': st.get('proved', 0), 'refuted': st.get('refuted', 0),
            'undetermined': st.get('open', 0),
            'rules': [{'rule': o[0], 'status': o[1], 'note': o[2][:200], 'interpretations': o[3]} for o in c.obligations],
            'notes': c.notes,
        },
        'assumptions': ['doubles are treated as reals', 'library operations behave as modelled in mca/lib.py'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(EVID), exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    if verbose:
        for o in c.obligations:
            print('  %-8s %s %s' % (o[1], o[0], ('[%s] %s' % (o[3], o[2][:160])) if o[1] != 'proved' else ''))
        for n in c.notes:
            print('  note', n)
    for f in knownhit:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, f.name, f.where, f.what))
    if viol:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in viol:
                fh.write('rule: %s\nwhere: %s\nwhat: %s\nwitness: %s\n\n' % (f.name, f.where, f.what, f.witness))
                print('  %s: %s: %s' % (f.where, f.name, f.what))
                if verbose:
                    print('      witness', f.witness[:300])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: %d obligations, %d proved, %d undetermined, %.1fs' % (pid, len(c.obligations), st.get('proved', 0), st.get('open', 0), time.time() - t0))
    return 0


def main():
    av = [a for a in sys.argv[1:] if not a.startswith('-')]
    pid, tier = av[0], (av[1] if len(av) > 1 else 'quick')
    try:
        rc = run(pid, tier, '-v' in sys.argv)
    except frontend.Broken as e:
        print('BROKEN', e)
        rc = 2
    except Exception as e:
        traceback.print_exc()
        print('BROKEN', type(e).__name__, e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
