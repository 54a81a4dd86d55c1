"""C22: what the tool says when reading, writing or talking to solvers fails."""
import errno
import itertools
import json
import os
import resource
import shutil
import subprocess
import tempfile
import time
from . import auto, canon, cv, eng, gen, smt

SHIM = None
HARD = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EFBIG, errno.EROFS, errno.ENOENT, errno.EMFILE]


def prepare():
    global SHIM
    auto.prepare()
    SHIM = os.path.join(os.path.dirname(auto.FAKE), 'shim.so')
    r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', SHIM, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'src', 'shim.c'), '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('cannot compile the shim: ' + r.stdout)


class Log:
    """what the tool did, as recorded by the shim"""
    def __init__(self, f):
        self.calls, self.n, self.hard, self.soft = [], {}, [], 0
        if os.path.exists(f):
            for l in open(f):
                op, n, res, err, how = l.split()
                self.calls.append((op, int(n), int(res), int(err), how))
                self.n[op] = self.n.get(op, 0) + 1
                if how == 'fault':
                    if int(err) and int(err) != errno.EINTR:
                        self.hard.append((op, int(n), int(err)))
                    else:
                        self.soft += 1


def shimmed(args, d, plan, stdin=None, env=None, timeout=40, stdout=None):
    log = os.path.join(d, 'shim.log')
    if os.path.exists(log):
        os.remove(log)
    e = dict(env or {}, LD_PRELOAD=SHIM, CVSHIM_EXE=os.path.realpath(cv.BIN), CVSHIM_ROOT=d + '/', CVSHIM_PLAN=';'.join(plan), CVSHIM_LOG=log)
    e.setdefault('TMPDIR', d)
    o = cv.run(args, stdin=stdin, env=e, timeout=timeout, cwd=d)
    return o, Log(log)


def said_ok(o, fmt):
    """did the tool report a success?"""
    if o.rc != 0:
        return False
    if fmt in ('json', 'pretty-json'):
        try:
            return 'Ok' in json.loads(o.out)
        except ValueError:
            return None
    return True


def soft_plan(r, n):
    """interruptions and partial transfers: they change nothing"""
    pl = []
    for op in n:
        if op in ('f.mkdir', 'p.pipe', 'p.spawn'):
            continue
        k = r.random()
        if k < 0.3 and op != 'p.read':
            pl.append('%s:0:intr' % op)
        elif k < 0.8 and op not in ('f.open',):
            pl.append('%s:%d:short:%d' % (op, r.choice([0, 0, r.randrange(1, n[op] + 2)]), r.choice([1, 2, 3, 7, 100, 4095]) if n[op] < 12 else r.choice([300, 4095])))
    return pl


def hard_plan(r, n, ops=None):
    ops = [o for o in n if not ops or o in ops]
    op = r.choice(ops)
    return ['%s:%d:err:%d' % (op, r.choice([1, n[op], r.randrange(1, n[op] + 1), r.randrange(1, n[op] + 1)]), r.choice(HARD))]


def whole(sc0, t, dialect):
    """None if t is the problem sc0, otherwise what differs"""
    try:
        sc = smt.parse(t, dialect)
    except smt.SmtError as e:
        return 'ill-formed: %s' % e
    if not sc.checksat:
        return 'it does not ask for a verdict'
    return canon.differ(sc0, sc, None, None)


def read(f):
    try:
        with open(f) as h:
            return h.read()
    except OSError:
        return None


def files_of(out, many):
    """{name: text} of what was written"""
    if not many:
        t = read(out)
        return {} if t is None else {'': t}
    return {x: read(os.path.join(out, x)) for x in sorted(os.listdir(out))} if os.path.isdir(out) else {}


def to_file(acc, r, p, many):
    """files: complete when a success is reported"""
    fl = eng.some_flags(r, 0.3)
    dialect = eng.dialect_of(fl)
    sub = [f for f in fl if f in cv.SUBFLAGS] + (['-l'] if many else [])
    glob = [f for f in fl if f not in cv.SUBFLAGS]
    fmt = r.choice(['stdout', 'stdout', 'json', 'pretty-json', 'quiet'])
    text = p.text()
    if r.random() < 0.5:
        text = '// é ∀ 漢字 𝔸\n' + text
    d = tempfile.mkdtemp(prefix='cvmon-')
    try:
        f = os.path.join(d, 'p.ptcl')
        with open(f, 'w') as h:
            h.write(text)
        by_stdin = r.random() < 0.3
        deep = r.random() < 0.5
        base = os.path.join(d, 'new', 'dir') if deep else d

        def go(out, plan):
            args = [cv.BIN, '--output-format', fmt, *glob] + ([] if by_stdin else [f]) + ['to-file', '-o', out, *sub]
            return shimmed(args, d, plan, stdin=text.encode() if by_stdin else None)
        o, log0 = go(os.path.join(base, 'first'), [])
        if said_ok(o, fmt) is not True:
            acc.count('not emitted')
            return
        first = files_of(os.path.join(base, 'first'), many)
        ref = {}
        for k, t in first.items():
            try:
                ref[k] = smt.parse(t, dialect)
            except smt.SmtError as e:
                acc.violate('a success is reported for an ill-formed file: %s' % e, '%s\n%s' % (text, t[-300:]))
                return
        for op, k in log0.n.items():
            acc.count('calls ' + op, k)
        want = log0.n
        if 'f.write' not in want or not by_stdin and 'f.read' not in want:
            raise RuntimeError('the shim did not see the calls: %s' % want)
        for i in range(8):
            out = os.path.join(base, 'out%d' % i)
            if deep and r.random() < 0.5:
                shutil.rmtree(os.path.join(d, 'new'), ignore_errors=True)
            # something is already there, and longer
            elif r.random() < 0.5 and not many:
                os.makedirs(base, exist_ok=True)
                with open(out, 'w') as h:
                    h.write('; old\n' * 40000)
                acc.count('overwritten')
            hard = r.random() < 0.65
            plan = hard_plan(r, want) if hard else []
            if not hard or r.random() < 0.3:
                plan += soft_plan(r, want)
            o, log = go(out, plan)
            ok = said_ok(o, fmt)
            got = files_of(out, many)
            story = 'plan %s\nflags %s, format %s, stdin %s\nfaults %s\nexit code %s\nstdout %s\nstderr %s\nfiles %s\n%s' % (
                plan, fl, fmt, by_stdin, log.hard, o.rc, o.out[:300], o.err[:300], {k: len(v or '') for k, v in got.items()}, text)
            acc.count('failed calls', len(log.hard))
            acc.count('disturbed calls', log.soft)
            if log.hard or log.soft:
                acc.ev((text, tuple(plan), tuple(fl), fmt, by_stdin, i))
            for h in log.hard[:1]:
                acc.count('%s failed' % h[0])
            if o.rc is None:
                acc.violate('the tool does not end under I/O faults %s' % plan, story)
            elif o.rc < 0 or o.rc == 134:
                acc.violate('the tool is killed (%s) under I/O faults %s' % (o.rc, plan), story)
            elif ok is None:
                acc.violate('no result can be read under I/O faults %s' % plan, story)
            elif ok:
                miss = [k for k in first if k not in got]
                if miss:
                    acc.violate('a success is reported but files are missing: %s (faults %s)' % (miss, log.hard), story)
                    continue
                for k in first:
                    x = whole(ref[k], got[k], dialect)
                    if x:
                        acc.violate('a success is reported for a file that is not the whole problem (faults %s): %s' % (log.hard or plan, x[:400]), story)
                        break
                acc.count('whole file')
            elif not log.hard:
                acc.violate('the tool fails although every call succeeded in the end (interruptions and partial transfers only)', story)
            else:
                acc.count('failure reported')
                if not (o.err.strip() or o.out.strip()) and fmt != 'quiet':
                    acc.violate('a failure without a message', story)
        acc.sample('to-file %s: %d calls seen, faults at any of %s' % ('-l' if many else '', len(log0.calls), want))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def with_solvers(acc, r, p):
    """a proof is only reported when solvers were given the whole problem"""
    lem = bool(p.lemmas) and r.random() < 0.7
    nprob = len(p.lemmas) + 1 if lem else 1
    have = r.choice([['vampire'], ['z3'], ['vampire', 'z3'], ['vampire', 'z3']])
    fmt = r.choice(['stdout', 'json', 'pretty-json', 'quiet'])
    fl = [x for x in eng.some_flags(r, 0.2) if x not in cv.SUBFLAGS]
    text = p.text()
    with cv.Scratch() as d:
        f = os.path.join(d, 'p.ptcl')
        with open(f, 'w') as h:
            h.write(text)

        def go(i, plan, answers, debug, have=have):
            rd = os.path.join(d, 'rig%s' % i)
            os.mkdir(rd)
            rig = auto.Rig(rd)
            args = [cv.BIN, '--output-format', fmt, *fl, f, 'auto', '--num-of-retry', '1', '--timeout', '1'] + (['-l'] if lem else [])
            if debug:
                args += ['--solver-file-debug', os.path.join(rd, 'kept')]
            for s in ('vampire', 'z3'):
                if s in have:
                    args += ['--%s-location' % s, rig.solver(s)]
                    auto.answer(rig, r, s, 0, answers[s], 0 if len(have) == 1 else r.choice([0, 30]))
                else:
                    args += ['--disable-' + s]
            o, log = shimmed(args, d, plan, env={'TMPDIR': rig.tmp, 'PATH': '/nonexistent'}, timeout=30)
            return rig, o, log
        rig, o, log0 = go(0, [], {s: 'unsat' for s in have}, False)
        if auto.classify(o, fmt)[0] != 'proven':
            raise RuntimeError('no proof without faults: %s %s' % (o.err[:300], o.out[:300]))
        # what each solver is given when it is alone, so that nobody stops it
        ref = {}
        for s in have:
            one = go('0' + s, [], {s: 'unsat'}, False, [s])[0]
            ref[s] = [smt.parse(one.seen(s, k), 'vampire' if s == 'vampire' else 'standard') for k in range(1, nprob + 1)]
        want = log0.n
        for i in range(1, 8):
            kind = {s: r.choice(['unsat', 'unsat', 'unsat', 'sat', 'hang' if len(have) > 1 else 'unsat']) for s in have}
            hard = r.random() < 0.75
            if all(x == 'hang' for x in kind.values()):
                kind[have[0]] = 'unsat'
            plan = hard_plan(r, want, [x for x in want if x != 'f.read']) if hard else soft_plan(r, want)
            rig, o, log = go(i, plan, kind, r.random() < 0.4)
            got = auto.classify(o, fmt)
            story = 'plan %s\nsolvers %s\nflags %s, format %s, lemmas %s\nfaults %s\nreported %s exit code %s\nstdout %s\nstderr %s\nevents %s\ncalls %s\n%s' % (
                plan, kind, fl, fmt, lem, log.hard, got, o.rc, o.out[:300], o.err[:400], rig.events(), log.calls, text)
            if log.hard or log.soft:
                acc.ev((text, tuple(plan), repr(kind), fmt, i))
            acc.count('failed calls', len(log.hard))
            acc.count('disturbed calls', log.soft)
            for h in log.hard[:1]:
                acc.count('auto: %s failed' % h[0])
            if o.rc is None:
                acc.violate('the run does not end under I/O faults %s' % plan, story)
            elif o.rc < 0 or o.rc == 134:
                acc.violate('the tool is killed (%s) under I/O faults %s' % (o.rc, plan), story)
            # every solver that read its file must have found the whole problem there
            for s in have:
                for k in range(1, rig.count(s) + 1):
                    t = rig.seen(s, k)
                    if t is None:
                        continue
                    xs = [whole(q, t, 'vampire' if s == 'vampire' else 'standard') for q in ref[s]]
                    if all(xs):
                        acc.violate('%s was started on a file that is not a whole problem (faults %s): %s' % (s, log.hard, xs[0][:300]), story)
                    acc.count('solver files compared')
            if got[0] == 'proven':
                acc.count('proof reported')
                if 'unsat' not in kind.values():
                    acc.violate('a proof is reported although no solver found one (faults %s)' % log.hard, story)
                if log.hard and len(have) == 1 and log.hard[0][0] != 'f.mkdir':
                    acc.violate('a proof is reported although talking to the only solver failed (%s)' % log.hard, story)
                if got[1] is not None and len(got[1]) != nprob:
                    acc.violate('a proof is reported for %d of %d problems' % (len(got[1]), nprob), story)
            elif not log.hard and not any(x == 'sat' for x in kind.values()):
                acc.violate('no proof is reported (%s) although every call succeeded in the end and a solver found one' % (got,), story)
            elif got[0] == 'disproved' and 'sat' not in kind.values():
                acc.violate('the query is reported to be disproved although no solver said so (faults %s)' % log.hard, story)
            left = os.listdir(rig.tmp)
            if left:
                acc.violate('temporary files left behind under I/O faults %s: %s' % (plan, left), story)
            al = rig.alive()
            if al:
                time.sleep(0.3)
                al = rig.alive()
            if al:
                acc.violate('solvers still running after a run with I/O faults %s' % plan, story)
                for x in al:
                    try:
                        os.kill(x, 9)
                    except OSError:
                        pass
        acc.sample('auto with %s: faults at any of %s' % (have, want))


def real_conditions(acc, r, p):
    """no shim: full devices, size limits, missing and unreadable files"""
    text = p.text()
    with cv.Scratch() as d:
        f = os.path.join(d, 'p.ptcl')
        with open(f, 'w') as h:
            h.write(text)
        fmt = r.choice(['stdout', 'json', 'pretty-json', 'quiet'])
        o, t = cv.to_smt(text)
        if o.rc != 0:
            acc.count('not emitted')
            return

        def fails(what, args, stdin=None, **kw):
            e = dict(os.environ, RUST_BACKTRACE='0')
            try:
                q = subprocess.run(args, input=stdin, stderr=subprocess.PIPE, timeout=30, env=e, cwd=d, **dict(dict(stdout=subprocess.PIPE), **kw))
            except subprocess.TimeoutExpired:
                acc.violate('%s: the tool does not end' % what, text)
                return
            o = cv.Out(q.returncode, (q.stdout or b'').decode(errors='replace'), q.stderr.decode(errors='replace'), 0)
            acc.ev((text, what, fmt))
            acc.count(what)
            ok = said_ok(o, fmt)
            if ok or ok is None and not kw:
                acc.violate('%s: a success is reported' % what, '%s\n%s %s\n%s' % (args, o.rc, o.err[:300], text))

        a = [cv.BIN, '--output-format', fmt]
        fails('output to a full device', a + [f, 'to-file', '-o', '/dev/full'])
        lim = r.randrange(1, max(2, len(t.encode()) // 2))

        def small():
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        fails('file size limit', a + [f, 'to-file', '-o', os.path.join(d, 'o1')], preexec_fn=small)
        fails('missing input', a + [os.path.join(d, 'absent'), 'to-file', '-o', os.path.join(d, 'o2')])
        fails('directory as input', a + [d, 'to-file', '-o', os.path.join(d, 'o3')])
        fails('directory as output', a + [f, 'to-file', '-o', d])
        fails('output below a file', a + [f, 'to-file', '-o', os.path.join(f, 'x')])
        fails('lemmas to a file', a + [f, 'to-file', '-l', '-o', f])
        bad = bytearray(text.encode())
        bad.insert(r.randrange(len(bad) + 1), r.choice([0xff, 0xc0, 0x80, 0xfe]))
        g = os.path.join(d, 'bad.ptcl')
        with open(g, 'wb') as h:
            h.write(b'// \xff\n' + text.encode() if r.random() < 0.5 else bytes(bad))
        fails('input that is not UTF-8', a + [g, 'to-file', '-o', os.path.join(d, 'o4')])
        fails('standard input that is not UTF-8', a + ['to-file', '-o', os.path.join(d, 'o5')], stdin=bytes(bad))
        fails('empty standard input', a + ['to-file', '-o', os.path.join(d, 'o6')], stdin=b'')
        if fmt in ('json', 'pretty-json'):
            with open('/dev/full', 'wb') as full:
                fails('result to a full device', a + [f, 'to-file', '-o', os.path.join(d, 'o7')], stdout=full)
        if read(f) != text:
            acc.violate('the input was changed', text)


def item(seed):
    acc = eng.Acc()
    r = cv.rng('iofault', seed)
    g = gen.Gen(r)
    p = g.build()
    p.query = g.formula([], 2)
    p.lemmas = [g.formula([], 2) for _ in range(r.choice([0, 1, 2, 3]))]
    k = seed % 5
    if k < 2:
        to_file(acc, r, p, r.random() < 0.3)
    elif k < 4:
        with_solvers(acc, r, p)
    else:
        real_conditions(acc, r, p)
    return acc


def run(n, quick=30, thorough=600):
    def go(rep):
        prepare()
        try:
            deep = cv.tier() == 'thorough'
            eng.drive(rep, item, itertools.count() if deep else range(n), thorough if deep else quick)
        finally:
            auto.forget()
    return go
