"""runs the checks of the planted bugs against scratch copies of /repo: tools/run_seeds.py [--all-checks] [ids...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        t = tempfile.mkdtemp(prefix='seed-')
        try:
            subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % t, shell=True, check=True)
            r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + t, os.path.join(d, 'patch.diff')], cwd='/', capture_output=True, text=True)
            if r.returncode:
                print(i, 'patch does not apply', r.stderr)
                continue
            env = dict(os.environ, MCA_REPO=t, MCA_EVIDENCE=t + '.ev')
            r = subprocess.run([sys.executable, '-m', 'mca.main', meta['property'], 'quick'], cwd=HERE, env=env, capture_output=True, text=True)
            print('%-24s %s %s' % (i, meta['property'], 'caught' if r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout else 'missed' if r.returncode == 0 else 'error %d' % r.returncode))
            for l in r.stdout.splitlines()[:3]:
                print('      ', l.replace(t, '')[:200])
            sys.stdout.flush()
        finally:
            shutil.rmtree(t)
            shutil.rmtree(t + '.ev', ignore_errors=True)


main()
