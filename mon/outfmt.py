"""C23: what happened is told the same way, and truly, by every output format."""
import itertools
import json
import os
from . import auto, canon, cv, eng, gen, reject, smt, squirrel

FORMATS = ('stdout', 'json', 'pretty-json', 'quiet')


def dup_free(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError('a key twice')
    return d


def told(o, fmt):
    """-> (success or None, value, complaint) from one run"""
    if o.rc is None:
        return None, None, 'the run does not end'
    if o.rc < 0 or o.rc >= 128:
        return None, None, 'the run is killed (exit code %s)' % o.rc
    if fmt == 'quiet':
        if o.out:
            return None, None, 'quiet, but standard output has %r' % o.out[:200]
        return o.rc == 0, None, None
    if fmt == 'stdout':
        if o.rc != 0 and not o.err.strip():
            return None, None, 'a failure without a message'
        return o.rc == 0, o.err, None
    try:
        j = json.loads(o.out, object_pairs_hook=dup_free)
    except ValueError as e:
        return None, None, 'standard output is not one JSON value (%s): exit code %s, %r, standard error %r' % (e, o.rc, o.out[:200], o.err[-300:])
    if o.rc != 0:
        return None, None, 'a result was written, but the exit code is %s' % o.rc
    n = len(o.out.strip('\n').split('\n'))
    if fmt == 'json' and n != 1:
        return None, None, 'json on %d lines' % n
    if fmt == 'pretty-json' and n < 2:
        return None, None, 'pretty-json on one line'
    if not isinstance(j, dict) or len(j) != 1 or list(j)[0] not in ('Ok', 'Err'):
        return None, None, 'neither Ok nor Err: %r' % o.out[:200]
    k = list(j)[0]
    if k == 'Err' and (not isinstance(j[k], str) or not j[k].strip()):
        return None, None, 'an error without a message'
    return k == 'Ok', j[k], None


def one(acc, r, what, text, args, sub, want, check, squir=False, env=None, quiet_log=False):
    """run in all formats; want: expected success, None: the formats must agree"""
    seen = {}
    stories = []
    for fmt in FORMATS:
        with cv.Scratch() as d:
            f = os.path.join(d, 'in')
            with open(f, 'w') as h:
                h.write(text)
            by_stdin = r.random() < 0.4
            e = dict(env or {})
            lvl = r.choice([None, None, None, 'off', 'debug', 'trace', 'error'])
            if lvl and not (quiet_log and lvl in ('debug', 'trace')):
                e['RUST_LOG'] = lvl
            s, post = sub(d, fmt)
            a = [cv.BIN, '--output-format', fmt] + (['--input-format', r.choice(['squirrel-json'])] if squir else r.choice([[], [], ['--input-format', 'cryptovampire']])) + \
                args + ([] if by_stdin else [f]) + s
            o = cv.run(a, stdin=text.encode() if by_stdin else None, env=e, cwd=d, timeout=60)
            acc.count('runs %s' % fmt)
            ok, val, bad = told(o, fmt)
            stories.append('%s\nstdin %s env %s\nexit code %s\nstdout %s\nstderr %s' % (' '.join(a), by_stdin, e, o.rc, o.out[:500], o.err[-700:]))
            if not bad and want is not None and ok != want:
                bad = 'a %s is reported for a run that %s' % ('success' if ok else 'failure', 'succeeded' if want else 'failed')
            if not bad and fmt == 'quiet' and not lvl and ok and o.err:
                bad = 'quiet, but standard error has %r' % o.err[:200]
            if not bad and check:
                bad = check(fmt, ok, val, d, post, seen)
            if bad:
                acc.violate('%s, format %s: %s' % (what, fmt, bad), '\n\n'.join(stories) + '\n\n' + text)
                return False
            seen.setdefault('ok', ok)
            if seen['ok'] != ok:
                acc.violate('%s: the formats do not agree on whether it succeeded' % what, '\n\n'.join(stories) + '\n\n' + text)
                return False
            if fmt == 'json':
                seen['json'] = val
    acc.count('%s: %s' % (what, 'success' if seen['ok'] else 'failure'))
    acc.ev((what, text, tuple(args)))
    acc.sample('%s -> %s' % (what, str(seen.get('json'))[:300]))
    return True


def kept(out):
    """the texts written at out"""
    if os.path.isdir(out):
        return {x: open(os.path.join(out, x)).read() for x in sorted(os.listdir(out))}
    return {'': open(out).read()} if os.path.isfile(out) else {}


def written(acc, r, dialect, names, squir=False):
    """check of a to-file run"""
    first = {}

    def check(fmt, ok, val, d, out, seen):
        got = kept(out)
        if not ok:
            return 'files %s are there although a failure is reported' % sorted(got) if got and not squir else None
        if names is not None and sorted(got) != sorted(names):
            return 'success, but the files are %s instead of %s' % (sorted(got), sorted(names))
        if fmt in ('json', 'pretty-json'):
            exp = {'ToFile': out}
            if squir:
                exp = {'Many': [{'ToFile': os.path.join(out, n)} for n in sorted(got, key=lambda x: (len(x), x))]}
                if 'Many' not in (val or {}):
                    return 'the result is %s' % val
                if len(val['Many']) != len(got):
                    return 'the result is %s for the files %s' % (val, sorted(got))
            if val != exp:
                return 'the result is %s instead of %s' % (val, exp)
        if fmt == 'stdout' and out not in val:
            return 'the file is not named in %r' % val[-300:]
        for n, t in got.items():
            sc = smt.parse(t, dialect)
            if n in first:
                x = canon.differ(first[n], sc, None, None)
                if x:
                    return 'the problem written depends on the output format or on how the input is given: %s' % x[:300]
            else:
                first[n] = sc
        acc.count('files compared', len(got))
        return None
    return check


def to_sub(r, sub, name):
    def make(d, fmt):
        out = os.path.join(d, name)
        return ['to-file', r.choice(['-o', '--output-location'][:1]), out, *sub], out
    return make


def autos(acc, r, p):
    """auto runs whose result is planned"""
    lem = r.random() < 0.6 and bool(p.lemmas)
    nprob = len(p.lemmas) + 1 if lem else 1
    have = r.choice([['vampire'], ['z3'], ['vampire', 'z3']])
    ends = ['unsat'] * nprob
    bad = r.random() < 0.5
    if bad:
        ends = ends[:r.randrange(1, nprob + 1)]
        ends[-1] = r.choice(['sat', 'error', 'tries', 'none'] if have != ['z3'] else ['sat', 'error', 'tries'])
    tries = r.choice([1, 2, 3])
    plan, base, want = [], 0, []
    s0 = r.choice(have)
    if ends[-1] == 'none':
        have, s0 = ['vampire'], 'vampire'
    for e in ends:
        k = tries if e == 'tries' else r.randrange(1, tries + 1)
        for i in range(1, k + 1):
            for s in have:
                last = i == k and e != 'tries'
                kind = e if last and s == s0 else 'crash'
                if kind == 'none':
                    kind = 'timeout'
                plan.append((s, base + i, kind))
        base += k
        want.append(k)
    fl = [x for x in eng.some_flags(r, 0.2) if x not in cv.SUBFLAGS]

    def sub(d, fmt):
        rd = os.path.join(d, 'rig')
        os.mkdir(rd)
        rig = auto.Rig(rd)
        a = ['auto', '--num-of-retry', str(tries), '--timeout', '1'] + (['-l'] if lem else [])
        for s in ('vampire', 'z3'):
            a += ['--%s-location' % s, rig.solver(s)] if s in have else ['--disable-' + s]
        for s, k, kind in plan:
            auto.answer(rig, r, s, k, kind, 0, '', [x for x in have if x != s][0] if len(have) > 1 else None)
        return a, rig
    names = {'sat': 'disproved', 'error': 'error', 'tries': 'tries', 'none': 'nonew'}

    def check(fmt, ok, val, d, rig, seen):
        if fmt in ('json', 'pretty-json'):
            if ok and val != {'AutoRun': [{'num_tries': k} for k in want]}:
                return 'the result is %s, the problems were proven in %s tries' % (val, want)
            k = auto.classify(cv.Out(1, '', str(val), 0), 'stdout')
        elif fmt == 'stdout':
            k = auto.classify(cv.Out(0 if ok else 1, '', val, 0), 'stdout')
            if ok and list(k[1]) != want:
                return 'reported %s, the problems were proven in %s tries' % (k, want)
        else:
            return None
        if not ok and k[0] != names[ends[-1]]:
            return 'the reason given is %s, it was %s: %r' % (k, names[ends[-1]], str(val)[:300])
        return None
    one(acc, r, 'auto', p.text(), fl, sub, not bad, check, env={'PATH': '/nonexistent'}, quiet_log=False)


def item(seed):
    acc = eng.Acc()
    r = cv.rng('outfmt', seed)
    k = seed % 6
    if k in (0, 1, 2):
        g = gen.Gen(r)
        p = g.build()
        p.query = g.formula([], 2)
        p.lemmas = [g.formula([], 2) for _ in range(r.choice([0, 1, 2]))]
        if k == 0:
            fl = eng.some_flags(r, 0.3)
            o, sc, _, err = eng.emit(p, fl)
            if err:
                acc.count('not emitted')
                return acc
            many = r.random() < 0.4
            sub = [f for f in fl if f in cv.SUBFLAGS] + (['-l'] if many else [])
            names = ['%d.smt' % i for i in range(len(p.lemmas) + 1)] if many else ['']
            one(acc, r, 'to-file', p.text(), [f for f in fl if f not in cv.SUBFLAGS], to_sub(r, sub, r.choice(['o.smt', 'a/b/o', 'o o'])), True,
                written(acc, r, eng.dialect_of(fl), names))
        elif k == 1:
            o, sc, _, err = eng.emit(p)
            if err:
                acc.count('not emitted')
                return acc
            autos(acc, r, p)
        else:
            o, sc, _, err = eng.emit(p)
            if err:
                acc.count('not emitted')
                return acc
            ms = reject.mutants(p, r)
            kinds = {}
            for a, f in ms:
                kinds.setdefault(a, []).append(f)
            for a in r.sample(sorted(kinds), min(3, len(kinds))):
                try:
                    u = r.choice(kinds[a])()
                except KeyError:
                    continue
                fl = ['--disallow-shadowing'] if a.startswith('shadowing') else []
                one(acc, r, 'mistake (%s)' % a.split(', ')[-1], u, fl, to_sub(r, [], 'o.smt'), False, written(acc, r, 'standard', None))
    elif k in (3, 4):
        w = squirrel.make(r)
        d = w.dump()
        t = json.dumps(d, ensure_ascii=r.random() < 0.5)
        one(acc, r, 'squirrel', t, [], to_sub(r, [], 'out'), None, written(acc, r, 'standard', None, True), squir=True)
    else:
        w = squirrel.make(r)
        d = w.dump()
        kind = r.choice(['cut', 'field', 'protocol', 'retyped'])
        if kind == 'cut':
            t = json.dumps(d)
            t = t[:r.randrange(len(t))]
        elif kind == 'protocol':
            t = gen.Gen(r).build().text()
        else:
            # a part of the dump is missing or is something else
            c = d['context']
            q = r.choice(sorted(c))
            if r.random() < 0.3:
                c, q = d, 'context'
            elif r.random() < 0.4 and c['actions']:
                c = r.choice(c['actions'])
                q = r.choice(sorted(c))
            if kind == 'field':
                del c[q]
            else:
                c[q] = r.choice([17.5, 'x', {'a': 1}, True])
            t = json.dumps(d)
        one(acc, r, 'malformed dump (%s)' % kind, t, [], to_sub(r, [], 'out'), False, written(acc, r, 'standard', None, True), squir=True)
    return acc


def run(n, quick=35, thorough=600):
    def go(rep):
        auto.prepare()
        try:
            deep = cv.tier() == 'thorough'
            eng.drive(rep, item, itertools.count() if deep else range(n), thorough if deep else quick)
        finally:
            auto.forget()
    return go
