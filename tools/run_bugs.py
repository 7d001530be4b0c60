"""run_bugs.py [--props C01,..] [--only NAME,..] [--all-checks] : runs each property's check on copies of /repo that break it; prints what was missed"""
import argparse, concurrent.futures, os, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'corpus'))
sys.path.insert(0, HERE)
sys.argv, argv = sys.argv[:1] + ['--checks', ''], sys.argv[1:]
import bugs
import importlib.util
spec = importlib.util.spec_from_file_location('rc', os.path.join(HERE, 'run_corpus.py'))
src = open(os.path.join(HERE, 'run_corpus.py')).read().replace('sys.exit(main() and 1)', '').replace('os.path.abspath(__file__)', repr(os.path.join(HERE, 'run_corpus.py')))
ns = {}
exec(src, ns)
a = argparse.ArgumentParser()
a.add_argument('--props')
a.add_argument('--only')
a.add_argument('--jobs', type=int, default=3)
a.add_argument('-v', action='store_true')
o = a.parse_args(argv)
todo = [x for x in bugs.X if (not o.props or x[0] in o.props.split(',')) and (not o.only or x[1] in o.only.split(','))]


def one(x):
    d = ns['copy']([(x[1], x[2])])
    try:
        return x, ns['check'](d, x[0])
    finally:
        shutil.rmtree(d)


n = 0
with concurrent.futures.ThreadPoolExecutor(o.jobs) as ex:
    for x, (c, rc, out) in ex.map(one, todo):
        n += rc == 1
        print('%-7s %s %s' % ({1: 'caught', 0: 'MISSED'}.get(rc, 'rc=%s' % rc), x[0], x[1]), out.strip().splitlines()[-1][:150] if rc != 1 else '')
        if o.v:
            print('\n'.join(l[:300] for l in out.strip().splitlines()[-8:]))
        sys.stdout.flush()
print('%d of %d caught' % (n, len(todo)))
