"""Runs of the `auto` mode with stand-in solvers whose behaviour is planned and
recorded: what the tool concludes, what it starts, what it leaves behind."""
import json
import os
import re
import signal
import stat
import subprocess
import tempfile
import time
from . import cv, eng, ev, gen, smt

FAKE = None


def prepare():
    """compile the stand-in once; the workers inherit the path"""
    global FAKE
    d = tempfile.mkdtemp(prefix='cvmon-fake-')
    FAKE = os.path.join(d, 'fake')
    r = subprocess.run(['gcc', '-O1', '-o', FAKE, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'src', 'fake.c')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('cannot compile the stand-in solver: ' + r.stdout)


def forget():
    if FAKE:
        import shutil
        shutil.rmtree(os.path.dirname(FAKE), ignore_errors=True)


V_UNSAT = ('% Running in auto input_syntax mode.\n% Refutation found. Thanks to Tanya!\n% SZS status Unsatisfiable for problem\n'
           '% SZS output start Proof for problem\n1. $false [input]\n% SZS output end Proof for problem\n'
           '% ------------------------------\n% Termination reason: Refutation\n')
V_UNSAT2 = V_UNSAT.replace('Unsatisfiable', 'Theorem')
V_SAT = ('% SZS status %s for problem\n% # SZS output start Saturation.\n'
         '% ------------------------------\n%% Termination reason: Satisfiable\n')
V_TIME = '% Time limit reached!\n% ------------------------------\n% Termination reason: Time limit\n'
DECISIVE = ('unsat', 'sat', 'error')


class Rig:
    """the directory with the stand-ins, and what happened in it"""
    def __init__(self, d):
        self.d = d
        self.tmp = os.path.join(d, 'tmp')
        self.s = os.path.join(d, 's')
        os.mkdir(self.tmp)
        os.mkdir(self.s)
        self.n = 0

    def solver(self, name):
        p = os.path.join(self.s, name)
        if not os.path.exists(p):
            os.link(FAKE, p) if False else self.copy(p)
        return p

    def copy(self, p):
        with open(FAKE, 'rb') as a, open(p, 'wb') as b:
            b.write(a.read())
        os.chmod(p, 0o755)

    def plan(self, name, k, out, rc=0, sig=0, delay=0, other=None):
        self.n += 1
        o = os.path.join(self.s, 'out%d' % self.n)
        with open(o, 'wb') as h:
            h.write(out if isinstance(out, bytes) else out.encode())
        with open(os.path.join(self.s, '%s.%d.plan' % (name, k) if k else '%s.plan' % name), 'w') as h:
            h.write('%d %d %d %s %s\n' % (delay, rc, sig, o, other or '-'))

    def count(self, name):
        f = os.path.join(self.s, name + '.count')
        return os.path.getsize(f) if os.path.exists(f) else 0

    def args(self, name, k):
        f = os.path.join(self.s, '%s.%d.args' % (name, k))
        if not os.path.exists(f):
            return []
        with open(f, 'rb') as h:
            return [x.decode(errors='replace') for x in h.read().split(b'\0')[:-1]]

    def seen(self, name, k):
        f = os.path.join(self.s, '%s.%d.smt' % (name, k))
        if not os.path.exists(f):
            return None
        with open(f) as h:
            return h.read()

    def events(self):
        f = os.path.join(self.s, 'events')
        if not os.path.exists(f):
            return []
        out = []
        for l in open(f):
            w, n, k, pid, t = l.split()
            out.append((w, n, int(k), int(pid), int(t)))
        return out

    def alive(self):
        """stand-ins still running"""
        res = []
        for pid in {e[3] for e in self.events()}:
            try:
                if os.readlink('/proc/%d/exe' % pid).startswith(self.s):
                    with open('/proc/%d/stat' % pid) as h:
                        if h.read().rsplit(')', 1)[1].split()[0] != 'Z':
                            res.append(pid)
            except OSError:
                pass
        return res


def answer(rig, r, solver, k, kind, delay, clauses='', other=None):
    """plan the k-th run of a solver"""
    if kind == 'hang':
        rig.plan(solver, k, '', sig=-1)
        return
    if kind == 'crash':
        rig.plan(solver, k, r.choice(['', 'unsat\n', V_UNSAT, 'sat\n']), sig=r.choice([signal.SIGSEGV, signal.SIGABRT, signal.SIGKILL, signal.SIGTERM]), delay=delay)
        return
    pad = ''.join('%% padding %d\n' % i for i in range(r.choice([0, 0, 3, 9000])))
    if solver == 'vampire':
        out, rc = {
            'unsat': (r.choice([V_UNSAT, V_UNSAT2]), 0),
            'sat': (V_SAT.replace('%s', r.choice(['Satisfiable', 'CounterSatisfiable']), 1).replace('%%', '%'), 0),
            'timeout': (clauses + V_TIME, 1),
            'error': (r.choice(['User error: something\n', '', 'unsat\n', V_UNSAT]), r.choice([2, 3, 4, 134, 255])),
        }[kind]
    else:
        out, rc = {
            'unsat': (r.choice(['unsat\n', 'unsat', '(warning "x")\nunsat\n', 'sat-ish\n  unsat  \n']), 0),
            'sat': (r.choice(['sat\n', 'sat', '(warning "unsat")\nsat\n']), 0),
            'timeout': (r.choice(['timeout\n', 'timeout']), 0),
            'unknown': (r.choice(['unknown\n', 'unsat\nunknown\n', 'unsat?\n', 'not unsat\n', 'unsat\n(error "line 3")\n', '(:reason unsat)\n', 'unsatisfiable\n']), 0),
            'error': (r.choice(['(error "line 1 column 2: bad")\n', 'unsat\n', 'sat\n', '']), r.choice([1, 2, 109, 255])),
        }[kind]
    rig.plan(solver, k, pad + out, rc=rc, delay=delay, other=other)


GAP = 700       # ms between answers the tool must be able to tell apart


def outcomes(tries, have):
    """the results the tool may report for one problem, given what each solver
    answers in each try: -> set of (result, number of tries)"""
    res, live = set(), True
    for k, t in enumerate(tries, 1):
        dec = sorted((t[s][1], s, t[s][0]) for s in have if t[s][0] in DECISIVE)
        hangs = any(t[s][0] == 'hang' for s in have)
        if dec:
            first = dec[0]
            for d in dec:
                if d[0] - first[0] < GAP - 1:
                    res.add((d[2], k))
            return res
        assert not hangs
        if 'vampire' in have and t['vampire'][0] == 'timeout' and not t['vampire'][2]:
            res.add(('nonew', k))
            return res
    res.add(('tries', len(tries)))
    return res


def classify(o, fmt):
    """what the tool reported: ('proven', [tries...]) | ('disproved',) | ..."""
    if fmt in ('json', 'pretty-json'):
        try:
            j = json.loads(o.out)
        except ValueError:
            return ('unreadable', o.out[:200])
        if 'Ok' in j:
            return ('proven', [x['num_tries'] for x in j['Ok']['AutoRun']])
        e = str(j['Err'])
    elif fmt == 'quiet':
        return ('proven', None) if o.rc == 0 else ('failed',)
    else:
        if o.rc == 0:
            return ('proven', [int(x) for x in re.findall(r'proven in (\d+) tries', o.err)])
        e = o.err
    for key, pats in (('disproved', ('disproved the query', 'Disprove')), ('tries', ('ran out of tries', 'RanOutOfTries')),
                      ('nonew', ('no new instances', 'NoNewInstances')), ('error', ('unexpected behaviour', 'UnexpectedResult', 'no output'))):
        if any(p in e for p in pats):
            return (key,)
    return ('other', e[:300])


NAMES = {'sat': 'disproved', 'error': 'error', 'nonew': 'nonew', 'tries': 'tries'}


def scenario(r, p, nprob):
    """plans for every problem: list of tries, each {solver: (kind, delay, newclauses)}"""
    have = r.choice([['vampire', 'z3'], ['vampire', 'z3'], ['vampire', 'z3'], ['vampire'], ['z3']])
    ntry = r.choice([1, 2, 3, 5])
    probs = []
    for _ in range(nprob):
        tries = []
        good = r.random() < 0.75
        stop = r.randrange(1, ntry + 1)
        for k in range(1, ntry + 1):
            t = {}
            for s in have:
                soft = ['timeout', 'crash', 'unknown'] if s == 'z3' else ['crash', 'crash', 'timeout']
                t[s] = [r.choice(soft), r.choice([0, 0, 20]), False]
                if t[s][0] == 'timeout' and s == 'vampire' and 'hash' in p.funs and r.random() < 0.8:
                    t[s][2] = True
            if k == stop and good or not good and r.random() < 0.3:
                s = r.choice(have)
                t[s] = [r.choice(['unsat', 'unsat', 'unsat', 'sat', 'error']) if not good else 'unsat', r.choice([0, 0, 30]), False]
                for o in have:
                    if o != s and r.random() < 0.5:
                        t[o] = [r.choice(['hang', 'hang', 'unsat', 'sat', 'error']), GAP + t[s][1], False]
            tries.append(t)
        probs.append(tries)
    return have, ntry, probs


def clause(p, r, i):
    """a new clause that mentions the primitive, in vampire's format"""
    nm = r.choice(list(p.names))
    if p.names[nm]:
        a = 'X0'
    a = nm + ('(%s)' % ','.join('X%d' % (5 + j) for j in range(len(p.names[nm]))) if p.names[nm] else '')
    return ("[SA] new: %d. ~'verify'(X0,f%d,X1) | (X0 = X1) [resolution 3,4]\n" % (100 + i, i))


def session(focus):
    """one run of `auto`; focus: the monitor that reports"""
    def go(seed):
        acc = eng.Acc()
        r = cv.rng('auto', seed)
        g = gen.Gen(r, {'hash'} if r.random() < 0.5 else set())
        p = g.build()
        p.asserts = p.asserts[:1]
        p.query = g.formula([], 2)
        p.lemmas = [g.formula([], 2) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        lem = r.random() < 0.7
        nprob = len(p.lemmas) + 1 if lem else 1
        have, ntry, probs = scenario(r, p, nprob)
        with cv.Scratch() as d:
            observe(acc, r, g, p, lem, have, ntry, probs, Rig(d), focus)
        return acc
    return go


def observe(acc, r, g, p, lem, have, ntry, probs, rig, focus):
    d = rig.d
    # the k-th start of each solver, as long as everything goes as planned
    allowed = {((), None)}     # (tries per problem, end)
    final = set()
    idx = 0
    starts = 0
    seq = []
    for tries in probs:
        o = outcomes(tries, have)
        seq.append(o)
    # plans: the number of runs before problem j depends on how earlier ones ended
    # (the same for every allowed outcome but the last)
    base = 0
    for j, tries in enumerate(probs):
        for k, t in enumerate(tries, 1):
            for s in have:
                kind, delay, new = t[s]
                cl = ''
                if kind == 'timeout' and s == 'vampire':
                    cl = ''.join('[SA] new: %d. %s [input]\n' % (i, 'X0 = X0') for i in range(r.choice([0, 2])))
                    if new:
                        cl += fresh_clause(p, base + k)
                # nobody is stopped before it could start, except at the very end
                last = j == len(probs) - 1 and r.random() < 0.7
                other = [x for x in have if x != s]
                answer(rig, r, s, base + k, kind, delay, cl, other[0] if other and not last else None)
        ks = {k for _, k in seq[j]}
        base += max(ks)
        if not any(x == 'unsat' for x, _ in seq[j]):
            break
    fmt = r.choice(['stdout', 'stdout', 'json', 'pretty-json', 'quiet'])
    f = os.path.join(d, 'p.ptcl')
    with open(f, 'w') as h:
        h.write(p.text())
    timeout = r.choice(['1', '2', '0.5', '1.5', '30'])
    args = [cv.BIN, '--output-format', fmt]
    flags = []
    if r.random() < 0.3:
        flags = r.sample([x for x in eng.NEUTRAL if x not in cv.SUBFLAGS], 1)
        if r.random() < 0.5:
            flags = ['--symbolic'] + r.sample(SYMBOLIC, r.choice([1, 2]))
    args += flags
    stdin = None
    if r.random() < 0.2:
        stdin = p.text().encode()
    else:
        args.append(f)
    args += ['auto', '--num-of-retry', str(ntry), '--timeout', timeout]
    dbg = None
    if r.random() < 0.5:
        dbg = os.path.join(d, r.choice(['dbg', 'some/where']))
        args += ['--solver-file-debug', dbg]
    if lem:
        args += [r.choice(['-l', '--lemmas'])]
    by_path = r.random() < 0.3
    env = {'TMPDIR': rig.tmp, 'PATH': '/nonexistent'}
    for s in ('vampire', 'z3'):
        if s in have:
            rig.solver(s)
            if by_path:
                env['PATH'] = rig.s
            else:
                args += ['--%s-location' % s, os.path.join(rig.s, s)]
        else:
            how = r.choice(['flag', 'flag', 'absent'])
            if how == 'flag':
                rig.solver(s)
                args += ['--%s-location' % s, os.path.join(rig.s, s), '--disable-' + s]
            elif by_path:
                args += ['--disable-' + s]
            else:
                args += ['--%s-location' % s, os.path.join(rig.s, 'absent')]
    o = cv.run(args, stdin=stdin, env=env, timeout=60, cwd=d)
    got = classify(o, fmt)
    acc.ev(hash((p.text(), repr(probs), tuple(args[1:]))))
    acc.count('solver runs', sum(rig.count(s) for s in ('vampire', 'z3')))
    story = '%s\nproblems %s\n%s\nstdin %s env %s\nreported %s (exit code %s)\nstdout: %s\nstderr: %s\nevents %s' % (
        p.text(), json.dumps(probs), ' '.join(args), stdin is not None, env, got, o.rc, o.out[:600], o.err[:600],
        '\n'.join(map(str, rig.events())))

    def bad(what):
        acc.violate(what, story)

    # the outcomes allowed for the whole run
    want = set()
    pre = [()]
    for s in seq:
        nxt = []
        for q in pre:
            for x, k in s:
                if x == 'unsat':
                    nxt.append(q + (k,))
                else:
                    want.add((NAMES[x],))
        pre = nxt
        if not pre:
            break
    for q in pre:
        want.add(('proven', q))
    for w in want:
        acc.count('expected ' + w[0], 1 if len(want) == 1 else 0)

    if focus == 'verdict':
        ok = any(w[0] == got[0] and (w[0] != 'proven' or got[1] is None or tuple(got[1]) == w[1]) for w in want)
        if fmt == 'quiet' and got[0] == 'failed':
            ok = any(w[0] != 'proven' for w in want)
        if not ok:
            bad('reported %s, but the answers of the solvers allow only %s' % (got, sorted(want)))
        acc.sample('%s -> %s' % (sorted(want), got))
    if focus == 'hygiene':
        left = os.listdir(rig.tmp)
        if left:
            bad('temporary files left behind: %s' % left)
        if o.rc is None:
            bad('the run does not end although a solver answered')
        elif o.secs > 25:
            bad('the run took %.1fs: the losing solver was waited for' % o.secs)
        time.sleep(0.01)
        al = rig.alive()
        if al:
            bad('solvers still running after the end: %s' % al)
            for x in al:
                try:
                    os.kill(x, 9)
                except OSError:
                    pass
        runs = {(e[1], e[2]) for e in rig.events() if e[0] == 'start'}
        if dbg:
            kept = os.listdir(dbg) if os.path.isdir(dbg) else []
            texts = sorted(open(os.path.join(dbg, x)).read() for x in kept)
            seen = sorted(rig.seen(s, k) or '' for s, k in runs)
            # a solver that is killed at once may not have been able to record its file
            miss = [x for x in seen if x and x not in texts]
            if miss:
                bad('a file given to a solver was not kept in the debug directory (%d kept, %d given)' % (len(kept), len(seen)))
            if len(kept) > sum(len(t) for t in probs) * 2:
                bad('more files kept than solvers started')
            acc.count('kept files', len(kept))
        extra = [x for x in os.listdir(d) if x not in ('p.ptcl', 'tmp', 's', 'dbg', 'some')]
        if extra or (not dbg and (os.path.exists(os.path.join(d, 'dbg')))):
            bad('unexpected files in the working directory: %s' % extra)
        hung = [t for t in probs for q in t for s in q if q[s][0] == 'hang']
        acc.count('planned to hang', len(hung))
        acc.sample('%d solver runs, %.2fs, left %s' % (len(runs), o.secs, left))
    if focus == 'contract':
        ev_ = rig.events()
        for s in ('vampire', 'z3'):
            if s not in have and rig.count(s):
                bad('%s was started although it is disabled or absent' % s)
        files = []
        for s in have:
            for k in range(1, rig.count(s) + 1):
                a = rig.args(s, k)
                t = rig.seen(s, k)
                done = any(e[0] == 'answer' and e[1] == s and e[2] == k for e in ev_)
                if not a:
                    if done:
                        bad('%s was started without arguments' % s)
                    continue
                files.append(a[-1])
                x = contract(s, a, timeout)
                if x:
                    bad('%s started with %s: %s' % (s, a, x))
                if t is None or t == '' or not done and not t.rstrip().endswith('(exit)') and '(check-sat)' not in t:
                    if done:
                        bad('%s was started on a missing or empty file' % s)
                    continue
                try:
                    sc = smt.parse(t, 'vampire' if s == 'vampire' else 'standard')
                    if not sc.checksat:
                        bad('%s was given a file that does not ask for a verdict' % s)
                    acc.count('files read')
                except smt.SmtError as e:
                    bad('%s was given an ill-formed file: %s\n%s' % (s, e, t[-300:]))
        if len(set(files)) != len(files):
            bad('the same file was given to two runs: %s' % files)
        acc.sample('%s' % (rig.args(have[0], 1) if rig.count(have[0]) else None))


SYMBOLIC = ('--eval-rewrite', '--crypto-rewrite', '--vampire-subterm', '--skolemnise', '--legacy-evaluate')



def contract(s, a, timeout):
    t = float(timeout)
    if s == 'z3':
        ts = [x for x in a if x.startswith('-T:')]
        if len(ts) != 1 or not re.match(r'-T:\d+$', ts[0]):
            return 'no whole number of seconds as the time limit'
        if not t <= int(ts[0][3:]) < t + 1:
            return 'the time limit is not the one asked for (%s)' % timeout
    else:
        opts = dict(zip(a[:-1:2], a[1:-1:2]))
        if float(opts.get('--time_limit', 'nan')) != t:
            return 'the time limit is not the one asked for (%s)' % timeout
        for k, v in (('--input_syntax', 'smtlib2'), ('--show_new', 'on')):
            if opts.get(k) != v:
                return '%s %s is missing: its output could not be used' % (k, v)
    return None


def fresh_clause(p, i):
    t = 'X0'
    for _ in range(i):
        t = 'tpl(%s,ok)' % t
    nm = [n for n, a in p.names.items()][0]
    k = "%s(%s)" % (nm, ','.join('X%d' % (j + 2) for j in range(len(p.names[nm])))) if p.names[nm] else nm
    return "[SA] new: %d. 'hash'(%s,X1) = X1 | ~p(X1) [resolution 12,3]\n" % (40 + i, t)


def run(focus, n, quick=30, thorough=600):
    import itertools

    def go(rep):
        prepare()
        try:
            deep = cv.tier() == 'thorough'
            eng.drive(rep, session(focus), itertools.count() if deep else range(n), thorough if deep else quick)
        finally:
            forget()
    return go
