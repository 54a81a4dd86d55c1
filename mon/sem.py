"""The meaning of the emitted problem, observed on concrete executions."""
import itertools
import time
from . import cv, dy, eng, ev, gen, proto as P, smt, symb, tmpl

CAP = 1000


SYM = False      # symbolic mode (--symbolic)


def make(kind, seed, feats=None, keep=1):
    r = cv.rng('sem', kind, seed)
    g = gen.Gen(r, feats)
    p = g.build()
    p.asserts = p.asserts[:keep]
    return r, g, p


def emit(acc, p, r, more=()):
    fl = eng.some_flags(r) + list(more)
    if SYM:
        fl = eng.symbolic_flags(r)
    p.notes['flags'] = fl
    o, sc, text, err = eng.emit(p, fl)
    if err:
        acc.violate('a well-formed protocol is not translated (options %s): %s' % (fl, err), p.text())
        return None
    if fl:
        acc.count('with options')
    acc.count('protocols')
    return sc


def sig(p, m, *more):
    return hash((p.text(), tuple(m.trace), tuple(sorted(m.input_.items(), key=repr))) + more)


# ---- whole problem -------------------------------------------------------------
def soundness(seed):
    """every execution an attacker can produce satisfies the emitted axioms"""
    acc = eng.Acc()
    r, g, p = make('sound', seed)
    sc = emit(acc, p, r, ['--no-preprocessing'] if r.random() < 0.12 else [])
    if sc is None:
        return acc
    for _ in range(3):
        m = dy.Model(p, r, maxlen=r.choice([3, 5, 7]))
        acc.ev()
        if eng.sound(acc, p, sc, m, r, 'execution', CAP) and len(m.trace) > 1:
            acc.d['nontrivial'].add(sig(p, m))
            acc.count('steps executed', sum(m.exec_.values()))
            acc.sample('%d steps, last input %s' % (len(m.trace), m.input_[m.trace[-1]]))
    return acc


# ---- formulas ---------------------------------------------------------------------
def formulas(mode):
    def go(seed):
        acc = eng.Acc()
        r, g, p = make('formula-' + mode, seed, set())
        F = g.formula([], r.choice([2, 3, 3]))
        p.query = F if mode == 'query' else ('op', 'false')
        p.orders = p.orders[:1]
        if mode == 'assert':
            p.asserts.append(F)
        elif mode == 'lemma':
            p.lemmas.append(F)
        sc = emit(acc, p, r)
        if sc is None:
            return acc
        for _ in range(5):
            m = dy.Model(p, r, maxlen=4)
            try:
                base = m.ambiguous
                truth = P.interp(F, {}, m)
            except P.Stuck:
                continue
            if m.ambiguous:
                acc.count('several answers possible')
                continue
            hold = truth if mode == 'assert' else not truth
            d = eng.verdict(sc, m, r, CAP, query=True)
            acc.count('instances', d['instances'])
            acc.ev(sig(p, m))
            acc.count('%s %s' % (mode, truth))
            if d['verdict'] == 'unsat' and hold:
                acc.violate('%s %s is %s in this execution, yet the emitted problem excludes it\n%s' % (
                    mode, P.show(F), truth, eng.show_why(d)), '%s\n\n%s' % (p.text(), eng.show_model(m)))
            elif d['verdict'] == 'sat' and not hold:
                acc.violate('%s %s is %s in this execution, yet the emitted problem allows it' % (
                    mode, P.show(F), truth), '%s\n\n%s' % (p.text(), eng.show_model(m)))
            elif d['verdict'] == 'sat' or not hold and d['verdict'] == 'unsat':
                acc.count('agrees')
                acc.sample('%s: %s is %s' % (mode, P.show(F), truth))
            else:
                acc.count('undecided')
        return acc
    return go


# ---- single-entry corruptions --------------------------------------------------------
def flip(key):
    return lambda old, *a: (not old) if a == key else old


def setv(key, v):
    return lambda old, *a: v if a == key else old


def cases_order(p, m, r, sc):
    dom = m.trace + [dy.UNDEF]
    for f in ('lt', 'leq', 'gt'):
        if f in sc.funs:
            for x in dom:
                for y in dom:
                    yield f, (x, y), flip((x, y))
    for x in dom:
        yield 'happens', (x,), flip((x,))
        for y in dom:
            if m.pred(x) != y:
                yield 'pred', (x,), setv((x,), y)
    # a time point is exactly one instance of one step
    rest = [x for x in m.instances() if x not in m.pos]
    near = [(x, y) for x in rest for y in m.trace if x[1] == y[1]]
    for x, y in near + [(x, y) for x in rest for y in m.trace if x[1] != y[1]]:
        yield ('step2 ' if x[1] == y[1] else 'step1 ') + x[1], x[2], setv(x[2], y)
    for x in m.trace:
        for y in dom:
            if x != y and (x[1] != 'init' or 'init' in sc.funs):
                yield 'step ' + x[1], x[2], setv(x[2], y)


def cases_unfold(p, m, r, sc):
    if m.ambiguous:
        return
    for x in m.trace:
        yield 'cond', (x,), flip((x,))
        yield 'exec', (x,), flip((x,))
        cand = m.pool() + list(m.msg_.values()) * 2 + [('strange',)]
        for v in r.sample(cand, min(2, len(cand))):
            if v != m.msg_[x]:
                yield 'msg', (x,), setv((x,), v)


def cases_cell(p, m, r, sc):
    if m.ambiguous:
        return
    for (c, a, t) in list(m.cell_):
        if t in m.pos:
            old = m.cell_[(c, a, t)]
            cand = list(m.cell_.values()) * 2 + m.pool() + [('strange',)]
            for v in r.sample(cand, 3):
                if v != old:
                    yield c, a + (t,), setv(a + (t,), v)


def cases_ops(p, m, r, sc):
    for f, n in (('ta$and', 2), ('ta$or', 2), ('ta$implies', 2), ('ta$iff', 2), ('ta$not', 1), ('ta$true', 0), ('ta$false', 0)):
        if f in sc.funs:
            for k in itertools.product([True, False], repeat=n):
                yield f, k, flip(k)
    pool = m.pool()
    if SYM:
        s = symb.Sym(m, sc, r)
        pool = [x for x in pool if s.to_term(x)] or [dy.EMPTY]
    for _ in range(6):
        a, b = r.choice(pool), r.choice(pool)
        if 'ta$=' in sc.funs:
            yield 'ta$=', (a, b), flip((a, b))
            yield 'ta$=', (a, a), flip((a, a))
        if a != b and 'ta$ite' in sc.funs:
            c = r.random() < 0.5
            yield 'ta$ite', (c, a, b), setv((c, a, b), b if c else a)


def corrupt(name, cases, feats, per=12, models=2, pool=24):
    """an execution is accepted; change one entry of one function: excluded"""
    def go(seed):
        acc = eng.Acc()
        r, g, p = make(name, seed, set(feats) if name != 'order' or seed % 3 else set())
        sc = emit(acc, p, r)
        if sc is None:
            return acc
        for _ in range(models):
            m = dy.Model(p, r, maxlen=r.choice([3, 4, 5]), pool=pool, sizes={t: r.choice([1, 2, 2, 3]) for t in p.types})
            acc.ev()
            if eng.sound(acc, p, sc, m, r, 'execution', CAP):
                acc.d['nontrivial'].add(sig(p, m))
            cs = list(cases(p, m, r, sc))
            by = {}
            for c in cs:
                by.setdefault(c[0], []).append(c)
            pick = []
            for k in sorted(by):
                r.shuffle(by[k])
                pick += by[k][:max(2, per // len(by))] if k[:4] != 'step' else by[k][:2]
            for f, k, h in pick:
                f = f.split(' ')[-1]
                m.over = {f: h}
                acc.ev()
                if eng.refuted(acc, p, sc, m, r, 'wrong value of %s at %s' % (f, k), CAP,
                               detail='%s%s is not what the execution gives' % (f, k)):
                    acc.d['nontrivial'].add(sig(p, m, f, k))
                    acc.count('wrong %s' % ('cell' if f in p.cells else 'step' if f in p.steps or f == 'init' else f))
                    acc.sample('wrong %s at %s excluded' % (f, k))
            m.over = {}
        return acc
    return go


# ---- user order constraints ---------------------------------------------------------
def orders(seed):
    acc = eng.Acc()
    r = cv.rng('orders', seed)
    g = gen.Gen(r, {'unfold'})
    p = g.build()
    p.asserts = p.asserts[:1]
    p.orders = []
    for _ in range(r.choice([1, 1, 2])):
        g.order()
    sc = emit(acc, p, r)
    if sc is None:
        return acc
    for _ in range(8):
        m = dy.Model(p, r, maxlen=4, subset=r.choice([0.5, 0.8]), ordered=False)
        bad = m.order_ok(m.trace)
        acc.ev(sig(p, m))
        if bad is None:
            eng.sound(acc, p, sc, m, r, 'execution that respects the declared orders', CAP)
            acc.count('respecting')
        else:
            eng.refuted(acc, p, sc, m, r, 'execution that breaks the declared order %s' % (
                P.show(bad[0]['a']) + bad[0]['op'] + P.show(bad[0]['b'])), CAP)
            acc.count('breaking')
        acc.sample('%s trace %s' % ('respects' if bad is None else 'breaks', [t[1:] for t in m.trace]))
    return acc


# ---- primitives -----------------------------------------------------------------------
def primitive(kind, feats, hmac=False):
    def go(seed):
        acc = eng.Acc()
        if not hmac and (seed[1] // 10 if isinstance(seed, tuple) else seed) % 4 == 3:
            # an arbitrary protocol that uses the primitive
            r, g, p = make('prim-' + kind, seed, set(feats))
            sc = emit(acc, p, r)
            if sc is None:
                return acc
            for _ in range(2):
                m = dy.Model(p, r, maxlen=5)
                acc.ev()
                if eng.sound(acc, p, sc, m, r, 'execution of a protocol using ' + kind, CAP):
                    acc.d['nontrivial'].add(sig(p, m))
        else:
            tmpl.observe(acc, seed, kind, hmac)
        return acc
    return go


# ---- symbolic mode ---------------------------------------------------------------------
def symbolic(seed):
    """the same observations on the problems written with --symbolic"""
    global SYM
    SYM = True
    try:
        k = seed % 10
        if k == 0 and seed // 10 % 2:
            # equalities with a hash, where they count as verifications
            return primitive('hash', {'hash', 'unfold', 'cells'}, True)(('sym', seed))
        if k == 0:
            return soundness(('sym', seed))
        if k == 1:
            return (orders if seed % 20 == 1 else corrupt('order', cases_order, {'unfold'}, pool=12))(seed * 7919)
        if k == 2:
            return formulas(('query', 'assert')[seed // 10 % 2])(('sym', seed))
        if k == 3:
            return corrupt('unfold', cases_unfold, {'unfold'}, pool=12)(seed * 7919)
        if k == 4:
            return corrupt('cell', cases_cell, {'unfold', 'cells'}, pool=12)(seed * 7919)
        if k == 5:
            return corrupt('ops', cases_ops, {'unfold'}, per=24, models=1, pool=10)(seed * 7919)
        kind = ('hash', 'sign', 'enc', 'nonce')[k - 6]
        return primitive(kind, {kind, 'unfold', 'cells'})(('sym', seed))
    finally:
        SYM = False
