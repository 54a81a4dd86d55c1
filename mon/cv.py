"""Running the tool and reporting."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor, as_completed

REPO = os.environ.get('CV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(REPO, 'target')
BIN = os.environ.get('CV_BIN') or os.path.join(TARGET, 'release', 'cryptovampire')
Z3 = '/opt/vp/z3/bin/z3'
SEED = int(os.environ.get('VERIF_SEED', '1'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def tier():
    if '--thorough' in sys.argv:
        return 'thorough'
    return 'quick'


def build():
    if os.environ.get('CV_BIN'):
        return
    env = cargo_env()
    r = subprocess.run(['cargo', 'build', '--release', '--workspace', '--locked', '--offline'],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-3000:])
        print('the tree does not build')
        sys.exit(2)


def cargo_env():
    """the environment /opt/vp/build.sh uses, read from its own env.sh"""
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
    env = dict(x.split('=', 1) for x in out.decode(errors='replace').split('\0') if '=' in x)
    env['CARGO_TARGET_DIR'] = TARGET
    env.pop('RUSTFLAGS', None)
    return env


class Out:
    def __init__(self, rc, out, err, secs):
        self.rc, self.out, self.err, self.secs = rc, out, err, secs


def run(args, stdin=None, timeout=60, env=None, cwd=None):
    e = dict(os.environ, RUST_BACKTRACE='0')
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e, cwd=cwd)
        return Out(r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace'), time.time() - t)
    except subprocess.TimeoutExpired as x:
        return Out(None, (x.stdout or b'').decode(errors='replace'), (x.stderr or b'').decode(errors='replace'), time.time() - t)


class Scratch:
    """a private directory, removed at the end"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='cvmon-')

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


# options of to-file (the others are global)
SUBFLAGS = ('--assert-theory', '--assert-ground', '--cvc5', '--lemmas')


def to_smt(text, flags=(), timeout=60):
    """-> (Out, smt text or None)"""
    sub = [f for f in flags if f in SUBFLAGS]
    flags = [f for f in flags if f not in SUBFLAGS]
    with Scratch() as d:
        f = os.path.join(d, 'p.ptcl')
        with open(f, 'w') as h:
            h.write(text)
        o = os.path.join(d, 'o.smt')
        r = run([BIN, *flags, f, 'to-file', '-o', o, *sub], timeout=timeout)
        s = None
        if r.rc == 0 and os.path.isfile(o):
            with open(o) as h:
                s = h.read()
        return r, s


def rng(*key):
    return random.Random(int(hashlib.sha256(repr((SEED,) + key).encode()).hexdigest()[:15], 16))


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tier = tier()
        self.evals = 0
        self.nontrivial = set()
        self.counts = {}
        self.samples = []
        self.violations = []
        self.rule = ''
        self.trouble = []
        self.known = [k for k in load_known() if k['property'] == prop and k['status'] == 'known']
        self.known_hit = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(str(x)[:400])

    def violate(self, what, replay=None, key=None):
        """key: identity of the failing input, matched against known findings"""
        for k in self.known:
            if key is not None and key == k['key']:
                self.known_hit[k['key']] = k
                return
        self.violations.append(dict(what=what, replay=replay))

    def merge(self, d):
        self.evals += d.get('evals', 0)
        self.nontrivial |= set(d.get('nontrivial', ()))
        for k, v in d.get('counts', {}).items():
            self.count(k, v)
        for s in d.get('samples', ()):
            self.sample(s)
        self.trouble += d.get('trouble', [])
        for v in d.get('violations', ()):
            self.violate(**v)

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % self.prop)
        lines = []
        for v in self.violations[:20]:
            lines.append('=' * 70 + '\n' + v['what'] + '\n' + (v['replay'] or ''))
        if lines:
            with open(rp, 'w') as h:
                h.write('\n'.join(lines))
        elif os.path.exists(rp):
            os.remove(rp)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.nontrivial),
                                rule=self.rule, samples=self.samples or ['none']),
                  wall_s=round(wall, 2), violations=len(self.violations))
        ev['coverage']['observed'] = self.counts
        ev['coverage']['cases_not_observed'] = len(self.trouble)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        print('%s %s: %d evaluations, %d distinct non-trivial, %s, %.1fs' % (
            self.prop, self.tier, self.evals, len(self.nontrivial), json.dumps(self.counts, sort_keys=True), wall))
        if self.violations:
            for v in self.violations[:5]:
                print('  ' + v['what'].replace('\n', '\n  ')[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            sys.exit(1)
        if self.trouble:
            print('%d cases could not be observed, for instance %s' % (len(self.trouble), self.trouble[0]))
            sys.exit(2)
        if not self.nontrivial:
            # a monitor that saw nothing decides nothing
            print('no non-trivial observation: the check could not decide')
            sys.exit(2)
        sys.exit(0)


def load_known():
    """lines "known: property=ID key=KEY | what"; lines "fixed: ..." suppress nothing"""
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key=(.*?) \| (.*)', l.strip())
            if m:
                out.append(dict(property=m[1], key=m[2], what=m[3], status='known'))
    return out


def pmap(fn, items, jobs=None):
    """unordered parallel map; a crash of the harness itself is an error, not a verdict"""
    with ProcessPoolExecutor(max_workers=jobs or JOBS) as ex:
        fs = [ex.submit(fn, x) for x in items]
        for f in as_completed(fs):
            yield f.result()
