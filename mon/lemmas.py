"""Lemmas: which problems are produced, in which order, and what each one means."""
import os
from . import auto, cv, dy, eng, gen, proto as P, smt
from .sem import CAP, sig


def problems(acc, p, r):
    """-> (mode, with lemmas, [(file text, dialect)])"""
    mode = r.choice(['file', 'dir', 'dir', 'dir', 'auto', 'auto-l', 'auto-l', 'ignore', 'default'])
    text = p.text()
    with cv.Scratch() as d:
        f = os.path.join(d, 'p.ptcl')
        with open(f, 'w') as h:
            h.write(text)
        if mode in ('file', 'dir'):
            o = os.path.join(d, r.choice(['out', 'out', 'new/out']))
            if mode == 'dir' and r.random() < 0.4:
                os.makedirs(o)
                with open(os.path.join(o, '0.smt'), 'w') as h:
                    h.write('(assert false)\n' * 5000)
            fl = [x for x in ('--assert-theory', '--cvc5') if r.random() < 0.2]
            x = cv.run([cv.BIN, f, 'to-file', '-o', o] + (['-l'] if mode == 'dir' else []) + fl)
            if x.rc:
                return mode, x.err[:300], None
            dia = 'vampire' if '--assert-theory' in fl else 'standard'
            if mode == 'file':
                return mode, False, [(open(o).read(), dia)]
            names = sorted(os.listdir(o))
            n = len(names)
            if names != sorted('%d.smt' % i for i in range(n)):
                return mode, 'files %s' % names, None
            return mode, True, [(open(os.path.join(o, '%d.smt' % i)).read(), dia) for i in range(n)]
        rig = auto.Rig(d)
        s = r.choice(['vampire', 'z3'])
        other = 'z3' if s == 'vampire' else 'vampire'
        rig.solver(s)
        rig.plan(s, 0, auto.V_UNSAT if s == 'vampire' else 'unsat\n')
        env = {'TMPDIR': rig.tmp, 'PATH': rig.s}
        args = [cv.BIN, f] if mode == 'default' else [cv.BIN, f, 'auto', '--disable-' + other] + (
            ['-l'] if mode == 'auto-l' or mode == 'ignore' and r.random() < 0.5 else []) + (['--ignore-lemmas'] if mode == 'ignore' else [])
        x = cv.run(args, env=env)
        if x.rc:
            return mode, x.err[:300], None
        return mode, mode in ('auto-l', 'default'), [
            (rig.seen(s, k), 'vampire' if s == 'vampire' else 'standard') for k in range(1, rig.count(s) + 1)]


def sequence(seed):
    acc = eng.Acc()
    r = cv.rng('lemmas', seed)
    g = gen.Gen(r, set())
    p = g.build()
    p.asserts = p.asserts[:1]
    p.orders = p.orders[:1]
    if r.random() < 0.3:
        p.asserts.append(g.formula([], 2))
    p.lemmas = [g.formula([], r.choice([1, 2, 3])) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
    p.query = g.formula([], 2)
    mode, lem, files = problems(acc, p, r)
    acc.count('mode ' + mode)
    if files is None:
        acc.violate('%s: %s' % (mode, lem), p.text())
        return acc
    goals = p.lemmas + [p.query] if lem else [p.query]
    if len(files) != len(goals):
        acc.ev()
        acc.violate('%s: %d problems for %d goals' % (mode, len(files), len(goals)), p.text())
        return acc
    scs = []
    for t, dia in files:
        try:
            scs.append(smt.parse(t, dia))
        except smt.SmtError as e:
            acc.violate('%s: ill-formed problem: %s' % (mode, e), p.text())
            return acc
    for _ in range(4):
        m = dy.Model(p, r, maxlen=4)
        try:
            asserts = all(P.interp(a, {}, m) for a in p.asserts[1:])
            truth = [P.interp(x, {}, m) for x in goals]
        except P.Stuck:
            continue
        if m.ambiguous:
            continue
        for k, sc in enumerate(scs):
            hold = asserts and all(truth[:k]) and not truth[k]
            d = eng.verdict(sc, m, r, CAP, query=True)
            acc.ev(sig(p, m, mode, k))
            acc.count('instances', d['instances'])
            if d['verdict'] in ('sat', 'unsat') and (d['verdict'] == 'sat') != hold:
                acc.violate('%s, problem %d of %d: the execution is %s, but assertions are %s, the earlier lemmas %s, the goal %s' % (
                    mode, k, len(goals), 'allowed' if d['verdict'] == 'sat' else 'excluded', asserts, truth[:k], truth[k]),
                    '%s\n\n%s\n%s' % (p.text(), eng.show_model(m), eng.show_why(d)))
                return acc
            acc.count('allowed' if hold else 'excluded') if d['verdict'] in ('sat', 'unsat') else acc.count('undecided')
    acc.sample('%s with %d lemmas: %d problems' % (mode, len(p.lemmas), len(files)))
    return acc


def run(n, quick=30, thorough=600):
    import itertools

    def go(rep):
        auto.prepare()
        try:
            deep = cv.tier() == 'thorough'
            eng.drive(rep, sequence, itertools.count() if deep else range(n), thorough if deep else quick)
        finally:
            auto.forget()
    return go
