"""Front end: parses every library translation unit of /repo with clang (through the exporter mcx) and
merges the resolved programs.  Nothing of /repo is built or run here."""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MCA_REPO', '/repo')
LIB = 'CoarseGrainSites/src/libmythical'


class Broken(Exception):
    """The analysis itself could not be carried out (exit 2)."""


def exporter():
    src = os.path.join(HERE, 'mcx', 'mcx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(HERE, '.cache', 'mcx-' + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = subprocess.run(['bash', os.path.join(HERE, 'mcx', 'build.sh'), out], capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot build the exporter: ' + r.stderr[-2000:])
    return out


def sources():
    fs = sorted(glob.glob(os.path.join(REPO, LIB, '**', '*.cpp'), recursive=True))
    if len(fs) < 8:
        raise Broken('only %d library sources found' % len(fs))
    return fs


class Program:
    def __init__(self):
        self.funcs = {}      # id -> func json
        self.classes = {}    # qualified name -> class json
        self.globals = {}    # qualified name -> global json
        self.units = []
        self.failed = []

    def merge(self, d, src):
        self.units.append(src)
        # ids of variables are per unit: make them unique per unit
        u = len(self.units)
        for f in d['funcs']:
            if f['id'] not in self.funcs:
                f['unit'] = u
                self.funcs[f['id']] = f
        for c in d['classes']:
            k = c['q']
            if k in self.classes and self.classes[k].get('file') != c['file']:
                k = k + '@' + os.path.basename(c['file'])
            self.classes.setdefault(k, c)
        for g in d['globals']:
            o = self.globals.get(g['q'])
            if o is None or ('init' in g and 'init' not in o):
                self.globals[g['q']] = g

    def byq(self, q, acc=None):
        return [f for f in self.funcs.values() if f['q'] == q]


def load(defs=(), only=None):
    exe = exporter()
    tmp = tempfile.mkdtemp(prefix='mca-')
    try:
        stub = os.path.join(HERE, 'stubs', 'ugly')
        maps = []
        if not os.path.isdir(os.path.join(REPO, 'UGLY/include')):
            for base, _, files in os.walk(stub):
                rel = os.path.relpath(base, stub)
                for f in files:
                    maps += ['--map', '%s=%s' % (os.path.normpath(os.path.join(REPO, 'UGLY/include/ugly', rel, f)), os.path.join(base, f))]
        lib = os.path.join(REPO, LIB)
        flags = ['-std=c++14', '-w', '-I', os.path.join(lib, 'topologyfeatures'), '-I', os.path.join(lib, 'charge_transport'),
                 '-I', os.path.join(REPO, 'CoarseGrainSites/include'), '-I', os.path.join(REPO, 'CoarseGrainSites/src'),
                 '-I', os.path.join(REPO, 'UGLY/include'), '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + ['-D' + d for d in defs]
        srcs = sources()
        if only:
            srcs = [s for s in srcs if any(o in s for o in only)]

        def one(i, s):
            out = os.path.join(tmp, '%d.json' % i)
            r = subprocess.run([exe, '--root', REPO, '--out', out, '--src', s] + maps + ['--'] + flags, capture_output=True, text=True)
            if not os.path.exists(out):
                return s, None, r.stderr
            return s, json.load(open(out)), r.stderr
        p = Program()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for s, d, err in ex.map(lambda t: one(*t), enumerate(srcs)):
                rel = os.path.relpath(s, REPO)
                if d is None or d['errors']:
                    p.failed.append((rel, err[-1500:]))
                    if d is None:
                        continue
                p.merge(d, rel)
        return p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.funcs), 'functions', len(p.classes), 'classes', len(p.globals), 'globals', '%.1fs' % (time.time() - t))
    for f in p.failed:
        print('FAILED', f)
    for k in sorted(p.funcs):
        print(k)
