"""run_corpus.py [--batch N] [--only NAME,..] [--checks C01,..] : runs the checks on copies of /repo with behaviour-preserving edits applied (all must be quiet)"""
import argparse, os, shutil, subprocess, sys, tempfile, concurrent.futures
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools', 'corpus'))
sys.path.insert(0, HERE)
import refactorings
from mca.main import RULES

BASES = ('CoarseGrainSites/src/libmythical/', 'CoarseGrainSites/include/mythical/', 'CoarseGrainSites/', '')


def copy(edits):
    d = tempfile.mkdtemp(prefix='mca-corpus-')
    subprocess.check_call(['cp', '-a', '/repo/CoarseGrainSites', '/repo/CMakeLists.txt', d])
    for name, es in edits:
        for f, o, n in es:
            p = next((os.path.join(d, b, f) for b in BASES if os.path.exists(os.path.join(d, b, f))), None)
            t = open(p).read()
            if o not in t:
                print('NOT APPLICABLE', name, f)
                continue
            open(p, 'w').write(t.replace(o, n, 1))
    return d


def check(d, c, tier='quick'):
    r = subprocess.run([sys.executable, '-m', 'mca.main', c, tier], cwd=HERE, env=dict(os.environ, MCA_REPO=d, MCA_EVIDENCE=os.path.join(d, 'ev')), capture_output=True, text=True)
    return c, r.returncode, (r.stdout + r.stderr).replace(d + '/', '')


def main():
    a = argparse.ArgumentParser()
    a.add_argument('--batch', type=int)
    a.add_argument('--only')
    a.add_argument('--skip')
    a.add_argument('--checks')
    a.add_argument('--jobs', type=int, default=3)
    o = a.parse_args()
    es = [(n, e) for b, n, e in refactorings.R if (o.batch is None or b == o.batch) and (not o.only or n in o.only.split(',')) and (not o.skip or n not in o.skip.split(','))]
    d = copy(es)
    bad = 0
    try:
        with concurrent.futures.ThreadPoolExecutor(o.jobs) as ex:
            for c, rc, out in ex.map(lambda c: check(d, c), o.checks.split(',') if o.checks else sorted(RULES)):
                print(c, rc, out.strip().splitlines()[-1][:200] if rc == 0 else '\n' + '\n'.join(l[:400] for l in out.strip().splitlines()[-12:]))
                sys.stdout.flush()
                bad += rc != 0
    finally:
        shutil.rmtree(d)
    return bad


sys.exit(main() and 1)
