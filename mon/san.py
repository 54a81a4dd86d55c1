"""C25, C26: the real code under sanitizers (address, leak, thread) and under miri."""
import itertools
import os
import random
import re
import shutil
import signal
import subprocess
import time
from . import auto, cv, discover, eng, gen, iofault, proto as P, reject, smt, squirrel, text

HERE = os.path.dirname(os.path.abspath(__file__))
TRIPLE = 'x86_64-unknown-linux-gnu'
DIR = os.environ.get('CV_SAN_DIR') or os.path.join(cv.TARGET, 'cvmon')
MARK = re.compile(r'AddressSanitizer|LeakSanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer|unsafe precondition|undefined behavior|Undefined Behavior|panic in a function that cannot unwind', re.I)


def cargo(args, target, flags, env=None, cwd=cv.REPO, timeout=800):
    e = cv.cargo_env()
    e.update(CARGO_TARGET_DIR=target, CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_DEBUG='line-tables-only', CARGO_INCREMENTAL='0')
    e.pop('RUSTUP_TOOLCHAIN', None)
    if flags:
        e['RUSTFLAGS'] = flags
    e.update(env or {})
    r = subprocess.run(['cargo', '+nightly', *args], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise RuntimeError('cannot build: ' + r.stdout[-1500:])


def build(kind):
    """the tool with a sanitizer, from the current tree -> executable"""
    t = os.path.join(DIR, kind)
    if kind == 'asan':
        fl, more = '-Zsanitizer=address -Coverflow-checks=on -Zub-checks=yes', []
    else:
        fl, more = '-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer', ['-Zbuild-std']
    cargo(['build', *more, '--target', TRIPLE, '--release', '-p', 'cryptovampire', '--locked', '--offline'], t, fl)
    return os.path.join(t, TRIPLE, 'release', 'cryptovampire')


class With:
    """runs of cv use this executable, with these options for the sanitizer"""
    def __init__(self, exe, **env):
        self.exe, self.env = exe, env

    def __enter__(self):
        self.old, cv.BIN = cv.BIN, self.exe
        os.environ.update(self.env)

    def __exit__(self, *a):
        cv.BIN = self.old
        for k in self.env:
            os.environ.pop(k, None)


PLAIN = cv.BIN


def report(err):
    m = MARK.search(err)
    if not m:
        return None
    l = [x for x in err[m.start():].split('\n') if x.strip()]
    return '\n'.join(l[:30])[:3000]


def compare(acc, what, args, text, name='in', stdin=None, many=False):
    """the instrumented run: no report, and the same exit code as the plain one"""
    rc = []
    for exe in (PLAIN, cv.BIN):
        with cv.Scratch() as d:
            f = os.path.join(d, name)
            with open(f, 'wb') as h:
                h.write(text if isinstance(text, bytes) else text.encode('utf-8', 'surrogateescape'))
            o = cv.run([exe, *args[0], f, 'to-file', '-o', os.path.join(d, 'out'), *args[1]], timeout=60)
            rc.append(o.rc)
    story = '%s %s\n%s\n%s' % (what, args, o.err[-4000:], text if isinstance(text, str) else repr(text))
    b = report(o.err)
    if b:
        acc.violate('%s: %s' % (what, b), story)
    elif o.rc != rc[0]:
        if None in rc or rc[0] in (134, -6) or o.rc in (134, -6):
            # deep recursion needs more stack, or more time, in the instrumented build
            acc.count('not comparable')
            return
        acc.violate('%s: exit code %s under the sanitizer, %s without: %s' % (what, o.rc, rc[0], o.err[:600]), story)
    else:
        acc.ev((what, text, repr(args)))
        acc.count(what)
        acc.count('exit code %s' % rc[0])


def split(fl):
    return [x for x in fl if x not in cv.SUBFLAGS], [x for x in fl if x in cv.SUBFLAGS]


def garble(r, t):
    """a few bytes of a text are other ones"""
    b = bytearray(t.encode())
    for _ in range(r.choice([1, 1, 2, 5])):
        i = r.randrange(len(b))
        k = r.random()
        if k < 0.3:
            del b[i:i + r.choice([1, 1, 3, 20])]
        elif k < 0.6:
            b[i:i] = r.choice([b'(', b')', b'{', b'}', b'"', b"'", b'@', b'!', b';', b'/*', 'é'.encode(), '∀𝔸'.encode(), b'\\', b'<=>', b'-', b'0', b'\0'])
        else:
            j = r.randrange(len(b))
            n = r.choice([1, 4, 15, 60])
            b[i:i] = b[j:j + n]
        if not b:
            return 'x'
    return bytes(b)


def asan_item(seed):
    acc = eng.Acc()
    r = cv.rng('asan', seed)
    k = seed % 10
    if k < 4:
        g = gen.Gen(r)
        p = g.build()
        p.lemmas = [g.formula([], 2) for _ in range(r.choice([0, 0, 1, 2]))]
        fl = eng.some_flags(r, 0.6) if r.random() < 0.75 else eng.symbolic_flags(r)
        a, b = split(fl)
        if r.random() < 0.1:
            a.append('--no-preprocessing')
        compare(acc, 'protocol', (a, b + (['-l'] if r.random() < 0.3 else [])), p.text())
        acc.sample('%s %s' % (list(p.steps), fl))
    elif k == 4:
        p = gen.Gen(r).build()
        kinds = {}
        for a, f in reject.mutants(p, r):
            kinds.setdefault(a, []).append(f)
        for a in r.sample(sorted(kinds), min(3, len(kinds))):
            try:
                u = r.choice(kinds[a])()
            except KeyError:
                continue
            compare(acc, 'mistake', ([], []), u)
    elif k == 5:
        t = gen.Gen(r).build().text()
        for _ in range(3):
            compare(acc, 'garbled protocol', (split(eng.some_flags(r, 0.3))), garble(r, t))
    elif k == 6:
        import json
        t = json.dumps(squirrel.make(r).dump(), ensure_ascii=r.random() < 0.5)
        compare(acc, 'dump', (['--input-format', 'squirrel-json'], []), t)
        compare(acc, 'garbled dump', (['--input-format', 'squirrel-json'], []), garble(r, t))
    else:
        solvers(acc, r, seed)
    return acc


def solvers(acc, r, seed):
    """auto, with all that stand-in solvers may print"""
    p = gen.Gen(r, r.choice([None, {'hash'}, {'enc'}, {'sign'}])).build()
    fl = [x for x in eng.some_flags(r, 0.3) if x not in cv.SUBFLAGS]
    have = r.choice([['vampire'], ['vampire', 'z3'], ['vampire', 'z3']])
    ntry = r.choice([1, 2, 3])
    ends = {k for k in range(1, ntry + 1) if r.random() < 0.5}
    with cv.Scratch() as d:
        rig = auto.Rig(d)
        f = os.path.join(d, 'p.ptcl')
        with open(f, 'w') as h:
            h.write(p.text())
        a = [cv.BIN, *fl, f, 'auto', '--num-of-retry', str(ntry), '--timeout', '1']
        if r.random() < 0.3:
            a += ['--solver-file-debug', os.path.join(d, 'kept')]
        for s in ('vampire', 'z3'):
            a += ['--%s-location' % s, rig.solver(s)] if s in have else ['--disable-' + s]
            for k in range(1, ntry + 1):
                if s == 'vampire' and k not in ends:
                    out = discover.clauses(r, p, [discover.junk(r) for _ in range(r.choice([1, 5, 60]))])
                    if r.random() < 0.3:
                        out = garble(r, out)
                    rig.plan(s, k, out, rc=1, delay=r.choice([0, 0, 1, 3, 10]))
                else:
                    # somebody is only made to hang when the other one ends the run
                    kinds = ['unsat', 'sat', 'error'] if s == 'vampire' else ['unsat', 'sat', 'timeout', 'error', 'crash'] + ['hang'] * 3 * (k in ends)
                    auto.answer(rig, r, s, k, r.choice(kinds), r.choice([0, 0, 0, 1, 2, 5, 20]))
        o = cv.run(a, env={'TMPDIR': rig.tmp, 'PATH': '/nonexistent'}, timeout=70, cwd=d)
        story = '%s\nexit code %s\n%s\n%s\n%s' % (' '.join(a), o.rc, o.err[-5000:], rig.events(), p.text())
        b = report(o.err)
        acc.count('solver runs', sum(rig.count(s) for s in have))
        acc.count('auto, %d solver(s)' % len(have))
        if b:
            acc.violate('auto: %s' % b, story)
        elif o.rc is None:
            acc.count('slow')
        elif o.rc < 0 or o.rc in (66, 134):
            acc.violate('auto ends with exit code %s' % o.rc, story)
        else:
            acc.ev((p.text(), repr(rig.events())))
            # how the starts and answers interleaved
            acc.count('order ' + ' '.join('%s%s' % (e[0][0], e[1][0]) for e in rig.events()[:4]))
        for x in rig.alive():
            try:
                os.kill(x, signal.SIGKILL)
            except OSError:
                pass


def tsan_item(seed):
    acc = eng.Acc()
    r = cv.rng('tsan', seed)
    if seed % 12 == 0:
        with cv.Scratch() as d:
            f = os.path.join(d, 'in')
            with open(f, 'w') as h:
                h.write(gen.Gen(r).build().text())
            o = cv.run([cv.BIN, f, 'to-file', '-o', os.path.join(d, 'o')])
            b = report(o.err)
            if b or o.rc in (66, None) or o.rc < 0:
                acc.violate('to-file: %s' % (b or o.rc), o.err[-4000:])
            acc.count('to-file')
            return acc
    solvers(acc, r, seed)
    return acc


# ---- miri ----------------------------------------------------------------------------
def miri_setup():
    """build the harness for the interpreter, against the current tree"""
    d = os.path.join(DIR, 'miri-crate')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'src'))
    shutil.copy(os.path.join(HERE, 'miri', 'src', 'main.rs'), os.path.join(d, 'src', 'main.rs'))
    with open(os.path.join(HERE, 'miri', 'Cargo.toml')) as a, open(os.path.join(d, 'Cargo.toml'), 'w') as b:
        b.write(a.read().replace('/repo/', cv.REPO + '/'))
    shutil.copy(os.path.join(cv.REPO, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    cargo(['miri', 'run', '-q', '--release', '--offline', '--', '--help'], os.path.join(DIR, 'miri'), None, dict(MIRIFLAGS='-Zmiri-disable-isolation'), cwd=d)
    return d


def small(r):
    """a protocol the interpreter can go through in about a minute"""
    feats = r.sample(['hash', 'sign', 'enc', 'nonce', 'cells', 'unfold'], 3)
    while True:
        g = gen.Gen(r, set(feats))
        p = g.build()
        p.lemmas = [g.formula([], 1)] if r.random() < 0.3 else []
        if len(p.text()) < 900 and len(p.steps) <= 3:
            return p


def miri_item(x):
    d, seed = x
    acc = eng.Acc()
    r = cv.rng('miri', seed)
    k = seed % 8
    args = []
    if k == 7:
        import json
        for _ in range(200):
            w = squirrel.make(r)
            t = json.dumps(w.dump())
            if len(t) < 9000:
                break
        args = ['--input-format', 'squirrel-json']
        sub = []
    else:
        p = small(r)
        t = p.text()
        if k == 6:
            ms = reject.mutants(p, r)
            try:
                t = r.choice(ms)[1]()
            except KeyError:
                pass
        args, sub = split(eng.some_flags(r, 0.6) if r.random() < 0.7 else eng.symbolic_flags(r))
        sub += ['-l'] if p.lemmas and r.random() < 0.5 else []
    model = r.choice(['', '', ' -Zmiri-tree-borrows'])
    # stacked borrows unless told otherwise; leaks are reported too
    fl = '-Zmiri-disable-isolation -Zmiri-backtrace=1' + model
    e = cv.cargo_env()
    e.update(CARGO_TARGET_DIR=os.path.join(DIR, 'miri'), MIRIFLAGS=fl, CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_DEBUG='line-tables-only', CARGO_INCREMENTAL='0')
    e.pop('RUSTUP_TOOLCHAIN', None)
    with cv.Scratch() as s:
        f = os.path.join(s, 'in')
        with open(f, 'w') as h:
            h.write(t)
        t0 = time.time()
        h = subprocess.Popen(['cargo', '+nightly', 'miri', 'run', '-q', '--release', '--offline', '--', *args, f, 'to-file', '-o', os.path.join(s, 'out'), *sub],
                             cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
        try:
            out, err = h.communicate(timeout=MIRI_LIMIT)
        except subprocess.TimeoutExpired:
            os.killpg(h.pid, signal.SIGKILL)
            out, err = h.communicate()
            m = re.search(r'error: (Undefined Behavior|memory leaked).*', err)
            acc.count('interpreted partly (time)')
            if m:
                acc.violate('miri: ' + err[m.start():][:1500], t)
            return acc
    m = re.search(r'^error: (?!aborting).*', err, re.M)
    if 'result ' in out and h.returncode == 0:
        acc.ev((t, tuple(args), tuple(sub), model))
        acc.count('interpreted to the end')
        acc.count('interpreted seconds', int(time.time() - t0))
        acc.count('interpreted: ' + out[out.index('result ') + 7:][:3].strip())
        acc.sample('miri%s: %d bytes, %s, %ds, %s' % (model, len(t), args, time.time() - t0, out.strip()[-80:]))
    elif m and 'unsupported operation' in m[0]:
        raise RuntimeError(err[m.start():][:600])
    elif m and re.search(r'Undefined Behavior|memory leaked|data race|deadlock|overflow|abnormal termination', m[0]):
        acc.violate('miri: ' + err[m.start():][:1500], '%s %s\n%s' % (args, sub, t))
    elif 'panicked at' in err:
        acc.count('interpreted: panic')
        acc.ev((t, tuple(args), tuple(sub), model))
    else:
        raise RuntimeError('no verdict from miri: %s %s' % (h.returncode, err[-800:]))
    return acc


MIRI_LIMIT = 120


def memory(n, quick=45, quick_miri=100, thorough=420):
    def go(rep):
        global MIRI_LIMIT
        deep = cv.tier() == 'thorough'
        auto.prepare()
        try:
            with With(build('asan'), ASAN_OPTIONS='exitcode=66:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0'):
                eng.drive(rep, asan_item, itertools.count() if deep else range(n), thorough if deep else quick)
        finally:
            auto.forget()
        if rep.violations:
            return
        d = miri_setup()
        MIRI_LIMIT = 600 if deep else 120
        eng.drive(rep, miri_item, ((d, i) for i in (itertools.count() if deep else range(8))), thorough if deep else quick_miri)
    return go


def races(n, quick=60, thorough=600):
    def go(rep):
        deep = cv.tier() == 'thorough'
        auto.prepare()
        try:
            with With(build('tsan'), TSAN_OPTIONS='exitcode=66:halt_on_error=0:second_deadlock_stack=1'):
                eng.drive(rep, tsan_item, itertools.count() if deep else range(n), thorough if deep else quick)
        finally:
            auto.forget()
    return go
