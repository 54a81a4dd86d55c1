"""What the tool makes of the clauses printed by a run of vampire that timed out."""
import os
from . import auto, cv, dy, eng, gen, proto as P, smt
from .sem import CAP, sig
from .proto import Proto

M = 'Message'


def f(n, *a):
    return ('f', n) + a


def v(n):
    return ('v', n)


def q(n):
    return n if n.isalnum() and n[0].islower() else "'%s'" % n


def tptp(t):
    """a term of ours as vampire prints it (variables: capitals; names are cast)"""
    if t[0] == 'v':
        return t[1]
    if t[0] == 'name':
        x = t[1] + ('(%s)' % ','.join(tptp(a) for a in t[2:]) if len(t) > 2 else '')
        return "'cast$Message$name'(%s)" % x
    return q(t[1]) + ('(%s)' % ','.join(tptp(a) for a in t[2:]) if len(t) > 2 else '')


def value(t, env, m):
    if t[0] == 'v':
        return env[t[1]]
    if t[0] == 'name':
        return ('#', t[1]) + tuple(value(a, env, m) for a in t[2:])
    return m.apply(t[1], tuple(value(a, env, m) for a in t[2:]))


class D:
    """a protocol that uses the key but never gives it away, plus clauses"""
    def __init__(self, r, kind):
        p = self.p = Proto()
        self.r, self.kind = r, kind
        p.types = ['index']
        p.funs.update(tpl=([M, M], M), f=([M], M), ok=([], M), ko=([], M))
        p.names['n'] = ['index']
        p.names['nb'] = []
        p.names['k'] = r.choice([[], ['index']])
        p.crypto.append('assert-crypto unfolding;')
        if r.random() < 0.3:
            p.crypto.append('assert-crypto nonce;')
        if kind == 'hash':
            p.funs.update(hash=([M, M], M), verify=([M, M, M], 'Bool'))
            p.algebra['verify'] = 'verify'
            p.notes['hash'] = 'hash'
            p.crypto.append('assert-crypto euf-cma hash verify;')  # with hmac the search is for hash, see soundness
            mk = lambda x, k: f('hash', x, k)
        elif kind == 'sign':
            p.funs.update(sign=([M, M], M), pk=([M], M), checksign=([M, M, M], 'Bool'))
            p.algebra['checksign'] = 'checksign'
            p.notes['sign'], p.notes['pk'] = 'sign', 'pk'
            p.crypto.append('assert-crypto euf-cma sign checksign pk;')
            mk = lambda x, k: f('sign', x, k)
        else:
            p.funs.update(enc=([M, M, M], M), dec=([M, M], M), fail=([], M))
            p.algebra['dec'] = 'dec'
            p.notes['enc'], p.notes['fail'] = 'enc', 'fail'
            p.names['r'] = p.names['rb'] = ['index']     # shared randomness would void the assumption
            p.crypto.append('assert-crypto int-ctxt enc dec fail;')
            mk = lambda x, k, s='A': f('enc', x, f('r' if s == 'A' else 'rb', v('i')), k)
        self.mk = mk
        r.shuffle(p.crypto)
        k = f('k', v('i')) if p.names['k'] else f('k')
        p.steps['init'] = dict(params=[], cond=('op', 'true'), msg=f('empty'), assigns=[])
        for s in 'AB'[:r.choice([1, 1, 2])]:
            body = mk(r.choice([f('n', v('i')), f('ok'), f('tpl', f('n', v('i')), ('in',))]), k, *([s] if kind == 'enc' else []))
            if r.random() < 0.4:
                body = f('tpl', body, f('nb'))
            p.steps[s] = dict(params=[('i', 'index')], cond=r.choice([('op', 'true'), ('op', 'eq', ('in',), f('ok'))]), msg=body, assigns=[])
        p.query = ('op', 'true')

    def term(self, d=2):
        r, p = self.r, self.p
        c = r.random()
        if d == 0 or c < 0.35:
            return r.choice([f('ok'), f('ko'), ('name', 'nb'), ('name', 'n', v('X0')), f('empty')])
        if c < 0.5:
            return f('f', self.term(d - 1))
        if c < 0.7:
            return f('tpl', self.term(d - 1), self.term(d - 1))
        k = self.key('X0')
        if self.kind == 'enc':
            return f('enc', self.term(d - 1), ('name', 'r', v('X0')), k)
        return f('hash' if self.kind == 'hash' else 'sign', self.term(d - 1), k)

    def key(self, x):
        return ('name', 'k', v(x)) if self.p.names['k'] else ('name', 'k')

    def candidate(self):
        """-> (text of the literal, symbol, the arguments, kind of claim)"""
        r = self.r
        k = self.key(r.choice(['X0', 'X0', 'X7']))
        if self.kind == 'enc':
            a = (self.term(), k)
            t = tptp(f('dec', *a))
            lit = r.choice(['%s != %s' % (t, 'fail'), 'fail = %s' % t, '%s = f(X3)' % t, '~p(%s)' % t, 'f(%s) = ok' % t])
            # the tool looks for dec below any function, the literal only has to be well-sorted
            if lit.startswith('~p'):
                lit = 'f(tpl(ok,%s)) = tpl(X1,ok)' % t
            return lit, 'dec', a
        if self.kind == 'hash':
            a = (self.term(), self.term(), k)
            t = tptp(f('verify', *a))
        else:
            a = (self.term(), self.term(), f('pk', k))
            t = tptp(f('checksign', *a))
        return r.choice(['%s', '~%s', '%s']) % t, a[0] and ('verify' if self.kind == 'hash' else 'checksign'), a


PRIMS = {'hash': 2, 'verify': 3, 'sign': 2, 'checksign': 3, 'pk': 1, 'enc': 3, 'dec': 2, 'tpl': 2, 'happens': 1, 'input': 1, "'cast$Message$name'": 1,
         "'ta$iff'": 2, "'ta$not'": 1, 'lt': 2, 'k': 1}


def misapplied(r, depth=2):
    """symbols of the problem, with any number of arguments"""
    f = r.choice(sorted(PRIMS))
    n = max(0, PRIMS[f] + r.choice([-9, -1, -1, 0, 0, 0, 1]))
    a = [misapplied(r, depth - 1) if depth and r.random() < 0.4 else r.choice(['ok', 'X0', 'X1', 'sK2', 'init', 'fail', 'empty']) for _ in range(n)]
    return f + ('(%s)' % ','.join(a) if a else '')


def junk(r):
    if r.random() < 0.4:
        t = misapplied(r)
        return r.choice(['%s', '~%s', '%s = X4', 'ok != %s', '%s = %s', '(%s', '%s)', '%s,', '%s(k']).replace('%s', t)
    if r.random() < 0.1:
        t = r.choice(["checksign(X0,X1,pk('cast$Message$name'(k(X2))))", "dec(X0,'cast$Message$name'(k(X1)))", "verify(X0,X1,'cast$Message$name'(k(X1)))", 'enc(X0,X1,X2)'])
        return t[:r.randrange(len(t))]          # cut anywhere
    return r.choice(['X0 = X1', '(X0 = dec(X2,X3))', 'X4 = dec(ok,X3)', '~p(X3)', "'ta$iff'(X1,X0)", '$false', 'verify(', 'verify(X0,X1)', 'hash(X0)', 'dec(ok)', "sP3(X0,'x')", 'checksign(sK4,X1,X2,X3)',
                     'happens(X0)', "f(sK1) = 'sk_0'(X2)", 'dec(X0,X1) != X2', 'verify(X0,X0,X0)', '', 'é(X0)', "tpl(verify(ok,ok,ok),X1) = ok", "hash(sK0,sK0) = sK0",
                     'hash(i0,X1) = enc(ok)', '~~verify(ok,ok,ok)', 'dec(n(X0),X1) = X2', "lt(X0,verify(X0,X1,X2))", '$true = verify(X0,X1,X2)'])


def line(r, i, lits):
    return '[SA] new: %d. %s%s [%s]\n' % (i, ' | '.join(lits), r.choice(['', '', ' <- (~3, 8)']), r.choice(['resolution 3,4', 'input', 'forward demodulation 12,3', '']))


def clauses(r, p, lits, d=None):
    out = ['% Running\n', '[PP] input: 1. verify(ok,ok,ok) [input]\n']
    for l in lits:
        x = [junk(r) for _ in range(r.choice([0, 0, 1, 2]))]
        x.insert(r.randrange(len(x) + 1), l)
        out.append(line(r, r.randrange(1, 90000), x))
        if r.random() < 0.3:
            out.append(line(r, 5, [junk(r) if r.random() < 0.7 else '! [X0] : verify(X0,X0,X0)']))
        if r.random() < 0.2:
            out.append('[SA] active: 7. %s [input]\n' % junk(r))
    return ''.join(out) + auto.V_TIME


def feed(acc, p, outs, flags=()):
    """run the tool with a vampire that times out with the given outputs; -> files it was given"""
    with cv.Scratch() as d:
        rig = auto.Rig(d)
        rig.solver('vampire')
        for k, o in enumerate(outs, 1):
            rig.plan('vampire', k, o, rc=1)
        rig.plan('vampire', len(outs) + 1, auto.V_UNSAT)
        fl = os.path.join(d, 'p.ptcl')
        with open(fl, 'w') as h:
            h.write(p.text())
        o = cv.run([cv.BIN, *flags, fl, 'auto', '--disable-z3', '--num-of-retry', str(len(outs) + 1)],
                   env={'TMPDIR': rig.tmp, 'PATH': rig.s})
        return o, [rig.seen('vampire', k) for k in range(1, rig.count('vampire') + 1)]


def go(seed):
    acc = eng.Acc()
    r = cv.rng('discover', seed)
    kind = r.choice(['hash', 'sign', 'enc'])
    return strength(acc, r, kind) if seed % 3 else soundness(acc, r, kind)


def fine(acc, p, o, files, outs):
    """the tool may stop for want of new instances, but not fail otherwise"""
    if o.rc is None or o.rc != 0 and auto.classify(o, 'stdout')[0] != 'nonew':
        acc.violate('the tool failed on the output of a solver that timed out: %s' % o.err[:400], '%s\n\n%s' % (p.text(), '\n=====\n'.join(outs)))
        return False
    return True


def strength(acc, r, kind):
    g = D(r, kind)
    p = g.p
    cand = [g.candidate() for _ in range(r.choice([1, 1, 2, 4]))]
    rounds = r.choice([1, 1, 2])
    outs = [clauses(r, p, [c[0] for c in cand[i::rounds]] or ['X0 = X1']) for i in range(rounds)]
    o, files = feed(acc, p, outs, eng.some_flags(r, 0.2)[:0])
    if not fine(acc, p, o, files, outs):
        return acc
    if o.rc != 0 and rounds == 1:
        acc.ev()
        acc.violate('clauses with terms of the primitive did not give any instance', '%s\n\n%s' % (p.text(), outs[0]))
        return acc
    if len(files) < rounds + 1:
        return acc
    sc = smt.parse(files[-1], 'vampire')
    for _ in range(2):
        m = dy.Model(p, r, maxlen=3)
        acc.ev()
        if eng.sound(acc, p, sc, m, r, 'execution, after discovery', CAP):
            acc.d['nontrivial'].add(sig(p, m, *outs))
        for lit, sym, a in r.sample(cand, min(2, len(cand))):
            env = {x: r.choice(m.idx['index']) for x in ('X0', 'X7')}
            args = tuple(value(t, env, m) for t in a)
            if kind == 'hash':
                made = ('hash', args[1], args[2])
                hid = args[:2]
                wrong = True
            elif kind == 'sign':
                made = ('sign', args[1], args[2][1])
                hid = args[:2]
                wrong = True
            else:
                made = None
                hid = args[:1]
                wrong = ('ok',)
            honest = m.apply(sym, args)
            if kind == 'enc':
                # any ciphertext under that key inside is a legitimate origin
                key = args[1]
                occ = any(x[0] == 'enc' and x[3] == key for h in hid for x in terms(h))
                if honest != ('fail',) or occ:
                    acc.count('no claim')
                    continue
            elif honest or any(x == made for h in hid for x in terms(h)):
                acc.count('no claim')
                continue
            m.over = {sym: lambda old, *b: wrong if b == args else old}
            acc.ev()
            if eng.refuted(acc, p, sc, m, r, 'forgery of the discovered term %s' % lit, CAP * 2,
                           detail='\n'.join(outs) + '\n%s%s' % (sym, args)):
                acc.d['nontrivial'].add(sig(p, m, sym, args))
                acc.sample('discovered %s: forgery excluded in the next try' % lit)
            m.over = {}
    return acc


def terms(t):
    yield t
    if isinstance(t, tuple) and t[0] != '#':
        for a in t[1:]:
            if isinstance(a, tuple):
                yield from terms(a)


def soundness(acc, r, kind):
    """whatever vampire prints, the next problem allows every real execution"""
    g = gen.Gen(r, {kind, 'unfold'} | ({'cells'} if r.random() < 0.4 else set()))
    p = g.build()
    p.asserts = p.asserts[:1]
    if kind not in g.keys:
        return acc
    key = [n for n in p.names if n in ('hk', 'sk', 'ek')]

    def term(d):
        c = r.random()
        if d == 0 or c < 0.3:
            return r.choice(['X0', 'X1', 'ok', 'ko', 'sK5', 'sK6(X2)', 'empty'])
        if c < 0.45:
            return 'tpl(%s,%s)' % (term(d - 1), term(d - 1))
        if c < 0.6:
            return 'msg(%s)' % step()
        if c < 0.75:
            return 'input(%s)' % step()
        n = r.choice(list(p.names))
        return "'cast$Message$name'(%s%s)" % (n, '(%s)' % ','.join('Y%d' % i for i in range(len(p.names[n]))) if p.names[n] else '')

    def step():
        s = r.choice([x for x in p.steps] + ['X9'])
        if s == 'X9':
            return s
        ps = p.steps[s]['params']
        return "'%s'" % s + ('(%s)' % ','.join('Z%d' % i for i in range(len(ps))) if ps else '')

    def k():
        n = r.choice(key)
        return "'cast$Message$name'(%s%s)" % (n, '(%s)' % ','.join('X%d' % (4 + i) for i in range(len(p.names[n]))) if p.names[n] else '')

    def lit():
        if kind == 'hash':
            return r.choice(['verify(%s,%s,%s)' % (term(2), term(2), k()), 'hash(%s,%s) = %s' % (term(2), k(), term(2)), '%s != hash(%s,%s)' % (term(1), term(2), k())])
        if kind == 'sign':
            return 'checksign(%s,%s,pk(%s))' % (term(2), term(2), k())
        return r.choice(['dec(%s,%s) != fail', 'fail = dec(%s,%s)']) % (term(2), k())
    outs = [clauses(r, p, [lit() for _ in range(r.choice([1, 3, 6]))]) for _ in range(r.choice([1, 2]))]
    o, files = feed(acc, p, outs)
    if not fine(acc, p, o, files, outs):
        return acc
    sc = smt.parse(files[-1], 'vampire')
    for _ in range(3):
        m = dy.Model(p, r, maxlen=4)
        acc.ev()
        d = eng.verdict(sc, m, r, CAP, total=1500000)
        acc.count('instances', d['instances'])
        if d['verdict'] == 'unsat':
            acc.violate('a legitimate execution is excluded after instance discovery\n%s' % eng.show_why(d),
                        '%s\n\n%s\n\n%s' % (p.text(), '\n'.join(outs), eng.show_model(m)))
            return acc
        if d['verdict'] == 'sat':
            acc.count('execution accepted after discovery')
            acc.d['nontrivial'].add(sig(p, m, *outs))
    acc.count('problems with instances', len(files) > 1)
    return acc


def run(n, quick=30, thorough=600):
    import itertools

    def goo(rep):
        auto.prepare()
        try:
            deep = cv.tier() == 'thorough'
            eng.drive(rep, go, itertools.count() if deep else range(n), thorough if deep else quick)
        finally:
            auto.forget()
    return goo
