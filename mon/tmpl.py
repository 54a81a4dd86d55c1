"""Micro protocols around one primitive: a producer, a consumer, and the places
where what the producer makes can hide before it reaches the consumer."""
from .proto import Proto

M = 'Message'


def f(n, *a):
    return ('f', n) + a


def v(n):
    return ('v', n)


IN = ('in',)


class T:
    def __init__(self, r, kind, strong=False, hmac=False):
        self.r, self.kind, self.aim = r, kind, hmac
        p = self.p = Proto()
        p.types = ['index'] + (['session'] if r.random() < 0.4 else [])
        p.funs.update(tpl=([M, M], M), sel1of2=([M], M), sel2of2=([M], M), ok=([], M), ko=([], M),
                      f=([M], M), pp=([M], 'Bool'))
        p.algebra.update(sel1of2='fst', sel2of2='snd')
        p.asserts.append(('all', (('m1', M), ('m2', M)), ('op', 'and',
                          ('op', 'eq', v('m1'), f('sel1of2', f('tpl', v('m1'), v('m2')))),
                          ('op', 'eq', v('m2'), f('sel2of2', f('tpl', v('m1'), v('m2')))))))
        p.names['n'] = r.choice([[], ['index'], ['index']])
        p.names['nb'] = r.choice([[], ['index']])
        p.notes['mk'] = {}
        self.vc = 0
        self.hidden = 0
        self.key = None
        getattr(self, 'decl_' + kind)()
        self.nonce = kind == 'nonce' or (not strong and not getattr(self, 'misuse', None) and r.random() < 0.3)
        if self.nonce:
            p.crypto.append('assert-crypto nonce;')
        p.crypto.append('assert-crypto unfolding%s;' % r.choice(['', ' [direct]', ' [recursive]']))
        self.cell = r.random() < 0.45
        if self.cell:
            p.cells['c'] = r.choice([[], ['index']])
            p.crypto.append('assert-crypto memory_cell;')
        r.shuffle(p.crypto)
        self.build()

    # ---- primitives -------------------------------------------------------
    def decl_hash(self):
        p, r = self.p, self.r
        p.funs['hash'] = ([M, M], M)
        p.funs['verify'] = ([M, M, M], 'Bool')
        p.algebra['verify'] = 'verify'
        p.notes['hash'] = 'hash'
        self.hmac = self.aim or r.random() < 0.4
        p.crypto.append('assert-crypto euf-cma hash verify%s;' % (' [hmac]' if self.hmac else ''))
        self.newkey()
        p.asserts.append(('all', (('m1', M), ('m2', M)), f('verify', f('hash', v('m1'), v('m2')), v('m1'), v('m2'))))

    def decl_sign(self):
        p = self.p
        p.funs['sign'] = ([M, M], M)
        p.funs['pk'] = ([M], M)
        p.funs['checksign'] = ([M, M, M], 'Bool')
        p.algebra['checksign'] = 'checksign'
        p.notes['sign'], p.notes['pk'] = 'sign', 'pk'
        p.crypto.append('assert-crypto euf-cma sign checksign pk;')
        self.newkey()
        p.asserts.append(('all', (('m1', M), ('m2', M)), f('checksign', f('sign', v('m1'), v('m2')), v('m1'), f('pk', v('m2')))))

    def decl_enc(self):
        p = self.p
        p.funs['enc'] = ([M, M, M], M)
        p.funs['dec'] = ([M, M], M)
        p.funs['fail'] = ([], M)
        p.algebra['dec'] = 'dec'
        p.notes['enc'], p.notes['fail'] = 'enc', 'fail'
        p.crypto.append('assert-crypto int-ctxt enc dec fail;')
        self.newkey()
        p.asserts.append(('all', (('m1', M), ('m2', M), ('m3', M)),
                          ('op', 'eq', v('m1'), f('dec', f('enc', v('m1'), v('m2'), v('m3')), v('m3')))))
        self.rc = 0
        # randomness that is shared, too poor, or not random at all
        self.misuse = self.r.choice(['shared', 'poor', 'fixed']) if self.r.random() < 0.3 else None
        if self.misuse and self.r.random() < 0.7:
            self.p.names['k'] = []

    def decl_nonce(self):
        pass

    def newkey(self):
        self.p.names['k'] = self.r.choice([[], ['index'], ['index']])

    # ---- terms ----------------------------------------------------------------
    def fresh(self):
        self.vc += 1
        return 'x%d' % self.vc

    def idx(self, sort, scope):
        c = [n for n, s in scope if s == sort]
        return v(self.r.choice(c)) if c else None

    def inst(self, name, scope):
        a = [self.idx(s, scope) for s in self.p.names[name]]
        return None if None in a else f(name, *a)

    def content(self, scope):
        """what gets authenticated"""
        r = self.r
        for k in range(20):
            o = r.choice(['n', 'nb', 'in', 'const', 'tpl', 'f', 'tplin'])
            if not hasattr(self, 'shape'):
                self.shape = o
            if k < 3 and r.random() < (0.3 if getattr(self, 'misuse', None) else 0.8):
                o = self.shape
            t = None
            if o in ('n', 'nb'):
                t = self.inst(o, scope)
            elif o == 'in':
                t = IN
            elif o == 'const':
                t = f(r.choice(['ok', 'ok', 'ko']))
            elif o == 'tpl':
                a = self.inst('n', scope)
                t = a and f('tpl', a, f(r.choice(['ok', 'ok', 'ko'])))
            elif o == 'tplin':
                t = f('tpl', IN, f('ok'))
            elif o == 'f':
                t = f('f', f('ok'))
            if t:
                return t
        return f('ok')

    def produce(self, scope):
        r, k = self.r, self.kind
        if k == 'nonce':
            return self.inst('n', scope) or self.inst('nb', scope) or f('ok')
        key = self.inst('k', scope)
        if key is None:
            return f('ok')
        if k == 'hash':
            return f('hash', self.content(scope), key)
        if k == 'sign':
            return f('sign', self.content(scope), key)
        # a distinct random for each encryption, indexed by everything in scope
        self.rc += 1
        rn = 'r%d' % self.rc
        ix = [(n, s) for n, s in scope if s in self.p.types]
        if self.misuse and r.random() < 0.8:
            if self.misuse == 'fixed':
                return f('enc', self.content(scope), r.choice([f('f', f('ok')), f('ok'), IN]), key)
            if self.misuse == 'shared':
                # two different encryptions, or the same one for several indices
                self.p.names.setdefault('rs', r.choice([[], ['index']]))
                a = self.inst('rs', scope)
                if a:
                    return f('enc', self.content(scope), a, key)
            else:
                ix = ix[:r.choice([0, 0, 1])]
        self.p.names[rn] = [s for _, s in ix]
        return f('enc', self.content(scope), f(rn, *[v(n) for n, _ in ix]), key)

    def cnd(self, scope):
        r = self.r
        o = r.choice(['true', 'pp', 'eq', 'false', 'ppn'])
        if o in ('true', 'false'):
            return ('op', o)
        if o == 'pp':
            return f('pp', IN)
        if o == 'ppn':
            return f('pp', f('ok'))
        return ('op', r.choice(['eq', 'neq']), IN, f('ok'))

    def hide(self, mk, scope, depth):
        """a message in which mk(scope) occurs"""
        r = self.r
        if getattr(self, 'misuse', None) and r.random() < 0.6:
            depth = 0
        o = r.choice(['here', 'here', 'tpl', 'tpl2', 'ite', 'ite2', 'find', 'findelse', 'findcond', 'let', 'mac', 'f', 'itecond']) if depth else 'here'
        if o == 'here':
            return mk(scope)
        if o == 'find':
            x = self.fresh()
            s2 = scope + [(x, 'index')]
            return ('find', ((x, 'index'),), self.cnd(s2), self.hide(mk, s2, depth - 1), f('ko'))
        if o == 'findelse':
            x = self.fresh()
            return ('find', ((x, 'index'),), self.cnd(scope), f('ko'), self.hide(mk, scope, depth - 1))
        if o == 'findcond':
            x = self.fresh()
            s2 = scope + [(x, 'index')]
            self.hidden += 1
            return ('find', ((x, 'index'),), ('op', 'eq', IN, self.hide(mk, s2, depth - 1)), f('ok'), f('ko'))
        if o == 'mac' and not any(n == 'in' for n, _ in scope):
            self.mc = getattr(self, 'mc', -1) + 1
            m = 'm%d' % self.mc
            ps = [(n, s) for n, s in scope]
            # the body sees the parameters under the same names
            ps = [(n, s) for n, s in ps if s in self.p.types]
            vs = list(ps) + [('w', M)]
            body = subst_in(self.hide(mk, ps, depth - 1), v('w'))
            self.p.macros[m] = (vs, body)
            self.p.notes['mk'][m] = M
            return ('mac', m) + tuple(v(n) for n, _ in ps) + (IN,)
        t = self.hide(mk, scope, depth - 1)
        if o == 'tpl':
            return f('tpl', t, f('ok'))
        if o == 'tpl2':
            return f('tpl', IN, t)
        if o == 'ite':
            return ('ite', self.cnd(scope), t, f('ok'))
        if o == 'ite2':
            return ('ite', self.cnd(scope), f('ok'), t)
        if o == 'itecond':
            self.hidden += 1
            return ('ite', ('op', 'eq', IN, t), f('ok'), f('ko'))
        if o == 'let':
            x = self.fresh()
            return ('let', x, M, t, f('tpl', v(x), v(x)) if r.random() < 0.5 else v(x))
        if o == 'f':
            return f('f', t)
        return t

    def take(self):
        """how the consumer reads its input"""
        return self.r.choice([IN, IN, f('sel1of2', IN), f('sel2of2', IN)])

    def consume(self, scope):
        """-> (condition, [sub-terms that matter])"""
        r, k = self.r, self.kind
        sig = self.take()
        if k == 'nonce':
            return ('op', 'eq', sig, self.produce(scope))
        key = self.inst('k', scope) or None
        if key is None:
            return ('op', 'true')
        if k == 'hash':
            if self.hmac and r.random() < (0.8 if self.aim else 0.5):
                a = [sig, f('hash', self.content(scope), key)]
                r.shuffle(a)
                return ('op', 'eq') + tuple(a)
            return f('verify', sig, self.content(scope), key)
        if k == 'sign':
            return f('checksign', sig, self.content(scope), f('pk', key))
        return ('op', 'neq', f('dec', sig, key), f('fail'))

    # ---- the protocol ----------------------------------------------------------
    def build(self):
        r, p = self.r, self.p

        def step(s, ps, cond, msg, assigns=()):
            p.steps[s] = dict(params=ps, cond=cond, msg=msg, assigns=list(assigns))
        if self.cell and r.random() < 0.8:
            fr = [('y0', 'index')] if p.cells['c'] else []
            step('init', [], ('op', 'true'), f('empty'),
                 [('c', tuple(fr), tuple(v(n) for n, _ in fr),
                   r.choice([f('ok'), self.nocell(self.hide(self.produce, fr, 0)), self.inst('n', fr) or f('ok')]))])
        need = bool(p.names.get('k') or (self.kind == 'nonce' and p.names['n'] and p.names['nb']))
        ps = [('i', 'index')][:1 if need else r.choice([1, 1, 0])] + ([('s', 'session')] if len(p.types) > 1 and r.random() < 0.4 else [])
        asg, msg = [], None
        if self.cell and r.random() < 0.7:
            fr = []
            if p.cells['c']:
                if r.random() < 0.3 or not ps or ps[0][1] != 'index':
                    fr = [('y0', 'index')]
                    ar = (v('y0'),)
                else:
                    ar = (v('i'),)
            else:
                ar = ()
            asg = [('c', tuple(fr), ar, self.hide(self.produce, ps + fr, 1))]
            if r.random() < 0.6:
                msg = f('ok')
        step('P', ps, ('op', 'true') if getattr(self, 'misuse', None) else r.choice([('op', 'true'), ('op', 'true'), self.cnd(ps)]),
             msg or self.hide(self.produce, ps, 2), asg)
        if self.cell:
            cp = [('i', 'index')] if p.cells['c'] else []
            me = ('st', 'Q') + tuple(v(n) for n, _ in cp)
            step('Q', cp, ('op', 'true'), ('cell', 'c') + tuple(v(n) for n, _ in cp) + (('pred', me),))
        if r.random() < (0.9 if getattr(self, 'misuse', None) else 0.35):
            step('R', [], ('op', 'true') if getattr(self, 'misuse', None) else r.choice([('op', 'true'), self.cnd([])]), self.hide(self.produce, [], 1))
        if r.random() < 0.25:
            self.leak(step)
        vs = [('j', 'index')][:1 if need else r.choice([1, 1, 0])]
        core = self.consume(vs)
        self.core, self.vs = core, vs
        self.place = r.choice(['cond', 'cond', 'cond', 'msg', 'query', 'bound', 'assign'])
        if self.aim and r.random() < 0.5:
            self.place = 'query'
        if self.place == 'assign' and not self.cell:
            self.place = 'cond'
        cond, msg, asg = ('op', 'true'), r.choice([f('ok'), IN, f('tpl', IN, f('ko'))]), []
        if self.place == 'cond':
            cond = core
            if r.random() < 0.3:
                cond = ('op', r.choice(['and', 'and', 'or']), cond, f('pp', f('ok')))
        elif self.place == 'msg':
            msg = ('ite', core, f('ok'), f('ko'))
        elif self.place == 'bound':
            # below a quantifier of the condition
            if vs:
                vs = self.vs = []
                x = 'j'
                cond = (r.choice(['ex', 'ex', 'all']), ((x, 'index'),), core)
            else:
                cond = ('ex', (('x99', 'index'),), core)
            self.bvars = [('j', 'index')] if cond[1][0][0] == 'j' else []
        elif self.place == 'assign':
            cs = p.cells['c']
            fr = [('y0', 'index')] if cs and not vs else []
            ar = (v('j') if vs else v('y0'),) if cs else ()
            asg = [('c', tuple(fr), ar, ('ite', core, f('ok'), f('ko')))]
        elif self.place == 'query':
            me = ('st', 'V') + tuple(v(n) for n, _ in vs)
            q = subst_in(core, ('sfun', 'input', me))
            q = ('op', 'imp', ('sfun', 'happens', me), ('op', 'not', q))
            p.query = ('all', tuple(vs), q) if vs else q
        step('V', vs, cond, msg, asg)

    def leak(self, step):
        """now and then a key leaks: directly, or through a memory cell"""
        r, p = self.r, self.p
        q = [('i', 'index')]

        wrapped = r.random() < 0.5

        def secret(scope):
            t = secret_(scope)
            if not wrapped or t == f('ok'):
                return t
            # within something that is authentic, but not secret
            pr = {'hash': 'hash', 'sign': 'sign', 'enc': 'enc'}.get(self.kind, 'f')
            if r.random() < 0.2:
                pr = 'f'
            p.notes['open'] = (pr,)
            if pr == 'f':
                return f('f', t)
            key = None
            if r.random() < 0.5:
                key = self.inst('k', scope)
            if key is None:
                p.names.setdefault('kb', [])
                key = f('kb')
            if r.random() < 0.3:
                t = f('tpl', t, f('ok'))
            if pr != 'enc':
                return f(pr, t, key)
            if r.random() < 0.4:
                # the key serves as the randomness of an encryption under another one
                p.names.setdefault('kb', [])
                p.notes.pop('open', None)
                p.notes['open_rand'] = 'enc'
                return f('enc', r.choice([f('ok'), IN]), secret_(scope), f('kb'))
            ix = [(n, s) for n, s in scope if s in p.types]
            p.names['rl'] = [s for _, s in ix]
            return f('enc', t, f('rl', *[v(n) for n, _ in ix]), key)

        def secret_(scope):
            if 'k' in p.names:
                return self.inst('k', scope) or f('ok')
            return f('tpl', self.inst('n', scope) or f('ok'), f('ok'))
        via = r.choice(['out', 'cell', 'cell', 'init'])
        depth = r.choice([0, 0, 1])
        if via == 'out':
            step('L', q, self.cnd(q), self.hide(secret, q, depth))
            return
        p.cells['lc'] = r.choice([[], [], ['index']])
        if 'assert-crypto memory_cell;' not in p.crypto:
            p.crypto.append('assert-crypto memory_cell;')
        fr = [('y0', 'index')] if p.cells['lc'] and (via == 'init' or r.random() < 0.4) else []
        ar = (v(fr[0][0] if fr else 'i'),) if p.cells['lc'] else ()
        if via == 'init':
            old = p.steps.pop('init', None)
            t = subst_in(self.hide(secret, fr, depth), f('empty'))
            step('init', [], ('op', 'true'), f('empty'), (old['assigns'] if old else []) + [('lc', tuple(fr), ar, t)])
        else:
            step('K', q, self.cnd(q), f('ok'), [('lc', tuple(fr), ar, self.hide(secret, q + fr, depth))])
        me = ('st', 'L', v('i'))
        step('L', q, ('op', 'true'), ('cell', 'lc') + tuple(v('i') for _ in p.cells['lc']) + (('pred', me),))

    def nocell(self, t):
        return subst_in(t, f('empty'))


def observe(acc, seed, kind, hmac=False):
    """one micro protocol, several executions: honest ones and forgeries"""
    import random
    from . import cv, dy, eng, proto
    r = cv.rng('tmpl', kind, seed)
    t = T(r, kind, hmac=hmac)
    p = t.p
    from . import sem
    sc = sem.emit(acc, p, r)
    if sc is None:
        return
    for _ in range(6):
        trial(acc, t, sc, r)
        if acc.d['violations']:
            break


def forms(kind, p, m, pool):
    """things the consumer may accept"""
    ks = [x for x in m.dom('Name')[0] if x[0] == 'k']
    out = []
    if kind == 'nonce':
        return [('#',) + x for x in m.dom('Name')[0]]
    for k in ks:
        k = ('#',) + k
        for c in pool:
            if kind == 'hash':
                out.append(('hash', c, k))
            elif kind == 'sign':
                out.append(('sign', c, k))
            else:
                rs = [('#',) + x for x in m.dom('Name')[0] if x[0][0] == 'r'] + [('att', 0)]
                out += [('enc', c, x, k) for x in rs]
    return out


def trial(acc, t, sc, r):
    from . import dy, eng, proto as P
    p, kind = t.p, t.kind
    sizes = {x: r.choice([1, 2, 2]) for x in p.types}

    def trace(m):
        ins = m.instances()
        vins = [x for x in ins if x[1] == 'V']
        rest = [x for x in ins if x[1] != 'V' and r.random() < (0.95 if getattr(t, 'misuse', None) else 0.75)]
        r.shuffle(rest)
        rest = rest[:4]
        V = r.choice(vins)
        if 'L' in p.steps and r.random() < 0.75:
            # let the secret out first
            lk = [x for x in ins if x[1] == 'L']
            l = r.choice(lk)
            if V[2][:1] and r.random() < 0.7:
                l = ('step', 'L', V[2][:1])
            pre = [x for x in ins if x[1] == 'K' and (x[2] == l[2] or r.random() < 0.3)] + [l]
            return [('step', 'init', ())] + pre + [x for x in rest[:1] if x not in pre] + [V]
        rest.insert(r.randrange(len(rest) + 1) if r.random() < 0.5 else len(rest), V)
        return [('step', 'init', ())] + rest
    box = {}

    def feed(m, know):
        V = box['V'] = next(x for x in m.trace if x[1] == 'V')
        pool = {('ok',), ('ko',), ('f', ('ok',)), dy.EMPTY}
        for x in m.dom('Name')[0]:
            if x[0] in ('n', 'nb'):
                pool |= {('#',) + x, ('tpl', ('#',) + x, ('ok',)), ('tpl', ('#',) + x, ('ko',))}
        seen = set()
        for s in m.trace[:m.pos[V]]:
            seen |= m.occurring(s)
        pool |= {x[1] for x in seen if x[0] in ('hash', 'sign', 'enc')}
        fs = forms(kind, p, m, sorted(pool, key=repr))
        mine = [x for x in seen if x[0] in ('hash', 'sign', 'enc')] if kind != 'nonce' else []
        fs += [x for x in mine if x in fs] * 3
        r.shuffle(fs)
        fs = fs[:60]
        out = []
        for h in fs:
            out += [(h, h), (h, ('tpl', h, ('ok',))), (h, ('tpl', ('ok',), h))]
        good, forged = [], []
        for h, x in out:
            if core_true(m, t, V, x):
                (good if m.derivable(know, x) else forged).append((h, x))
        box['honest'] = None
        if not good and not forged:
            return r.choice(know)
        if good and (not forged or r.random() < 0.5):
            box['honest'] = True
            if 'L' in p.steps and r.random() < 0.7:
                # rather one that the attacker made itself
                own = [g for g in good if g[0] not in seen]
                box['own'] = bool(own)
                good = own or good
            h, x = r.choice(good)
        else:
            box['honest'] = False
            h, x = r.choice(forged)
        box['h'] = h
        return x

    class Feed(dict):
        def __contains__(self, k):
            return k[1] == 'V'

        def __getitem__(self, k):
            return feed
    m = dy.Model(p, r, sizes=sizes, trace=trace, inputs=Feed())
    V = box['V']
    if box['honest'] is None:
        acc.count('consumer never satisfied')
        acc.ev()
        return
    key = (p.text(), tuple(m.trace), m.input_[V])
    if box['honest']:
        if eng.sound(acc, p, sc, m, r, 'honest run (%s accepted at %s)' % (kind, t.place)):
            acc.ev(hash(key))
            acc.count('honest accepted: ' + t.place)
            if box.get('own'):
                acc.count('accepted with a leaked secret')
            acc.sample('%s %s: %s accepts %s' % (kind, t.place, V[1:], m.input_[V]))
        return
    # a forgery: only claimed impossible when nothing of the sort was ever produced before
    seen = set()
    for s in m.trace[:m.pos[V]]:
        seen |= m.occurring(s)
    leak = 'L' in p.steps and kind != 'nonce'
    if getattr(t, 'misuse', None):
        # the assumption says nothing about a key used with bad randomness
        enc = [x for s in m.trace[:m.pos[V]] if m.exec_[s] for x in subs(m.msg_[s])
               if x[0] == 'enc' and x[3] == box['h'][3] and m.derivable(m.before[V], x)]
        if any(x[2][0] != '#' or any(x[2] == y[2] and x[1] != y[1] for y in enc) for x in enc):
            if eng.sound(acc, p, sc, m, r, 'ciphertext forged thanks to %s randomness' % t.misuse):
                acc.ev(hash(key))
                acc.count('forged with bad randomness: ' + t.misuse)
        return
    if box['h'] in seen or leak or t.place == 'bound' or not excluded_claim(t, box['h']):
        acc.count('no claim: ' + ('occurs' if box['h'] in seen else 'leaked' if leak else t.place))
        acc.ev()
        return
    if eng.refuted(acc, p, sc, m, r, 'forged %s (%s) accepted at %s' % (kind, box['h'], t.place), cap=600):
        acc.ev(hash(key))
        acc.count('forgery excluded: ' + t.place)


def subs(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for a in t[1:]:
            yield from subs(a)


def excluded_claim(t, h):
    return True


def core_true(m, t, V, x):
    from . import proto as P
    env = {n: a for (n, _), a in zip(t.p.steps['V']['params'], V[2])}
    env['in'] = x
    old = m.input_.get(V)
    m.input_[V] = x
    try:
        if t.place == 'bound':
            return P.interp(t.p.steps['V']['cond'], env, m)
        return P.interp(t.core, env, m)
    finally:
        if old is None:
            del m.input_[V]
        else:
            m.input_[V] = old


def subst_in(t, by):
    if t == IN:
        return by
    if isinstance(t, tuple):
        return tuple(subst_in(a, by) for a in t)
    return t
