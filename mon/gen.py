"""Random protocols."""
from .proto import Proto

M, C = 'Message', 'Condition'


class Gen:
    def __init__(self, rng, features=None):
        self.r = rng
        self.p = Proto()
        self.vc = 0
        self.inmsg = 0
        self.feat = features

    def has(self, f, prob):
        if self.feat is not None:
            return f in self.feat
        return self.r.random() < prob

    # ---- declarations -------------------------------------------------------
    def build(self):
        r, p = self.r, self.p
        p.types = ['index'] + (['session'] if r.random() < 0.5 else [])
        p.funs['tpl'] = ([M, M], M)
        p.funs['sel1of2'] = ([M], M)
        p.funs['sel2of2'] = ([M], M)
        p.algebra['sel1of2'], p.algebra['sel2of2'] = 'fst', 'snd'
        p.funs['ok'] = ([], M)
        p.funs['ko'] = ([], M)
        if r.random() < 0.6:
            p.funs['f'] = ([M], M)
        if r.random() < 0.6:
            p.funs['pp'] = ([M], 'Bool')
        if r.random() < 0.4:
            p.funs['gi'] = ([p.types[-1], M], M)
        if r.random() < 0.3:
            p.funs['qq'] = ([p.types[0]], 'Bool')
        p.asserts.append(('all', (('m1', M), ('m2', M)), ('op', 'and',
                          ('op', 'eq', ('v', 'm1'), ('f', 'sel1of2', ('f', 'tpl', ('v', 'm1'), ('v', 'm2')))),
                          ('op', 'eq', ('v', 'm2'), ('f', 'sel2of2', ('f', 'tpl', ('v', 'm1'), ('v', 'm2')))))))
        self.keys = {}
        if self.has('hash', 0.5):
            p.funs['hash'] = ([M, M], M)
            p.funs['verify'] = ([M, M, M], 'Bool')
            p.algebra['verify'] = 'verify'
            p.notes['hash'] = 'hash'
            p.crypto.append('assert-crypto euf-cma hash verify%s;' % (' [hmac]' if r.random() < 0.3 else ''))
            self.keys['hash'] = self.newname('hk')
        if self.has('sign', 0.3):
            p.funs['sign'] = ([M, M], M)
            p.funs['pk'] = ([M], M)
            p.funs['checksign'] = ([M, M, M], 'Bool')
            p.algebra['checksign'] = 'checksign'
            p.notes['sign'], p.notes['pk'] = 'sign', 'pk'
            p.crypto.append('assert-crypto euf-cma sign checksign pk;')
            self.keys['sign'] = self.newname('sk')
        if self.has('enc', 0.3):
            p.funs['enc'] = ([M, M, M], M)
            p.funs['dec'] = ([M, M], M)
            p.funs['fail'] = ([], M)
            p.algebra['dec'] = 'dec'
            p.notes['enc'], p.notes['fail'] = 'enc', 'fail'
            p.crypto.append('assert-crypto int-ctxt enc dec fail;')
            self.keys['enc'] = self.newname('ek')
            self.newname('rr')
        self.newname('n')
        if r.random() < 0.6:
            self.newname('nb')
        if r.random() < 0.5 and len(p.types) > 1:
            p.names['n2'] = [p.types[0], p.types[1]]
        for k, l in (('nonce', 'assert-crypto nonce;'), ('cells', 'assert-crypto memory_cell;'),
                     ('unfold', 'assert-crypto unfolding%s;' % r.choice(['', ' [direct]', ' [recursive]', ' [direct recursive]']))):
            if self.has(k, 0.75):
                p.crypto.append(l)
        r.shuffle(p.crypto)
        if self.has('cells', 0.5):
            p.cells['c'] = r.choice([[], [p.types[0]], [p.types[0]], [p.types[0], p.types[-1]]])
            if r.random() < 0.3:
                p.cells['d'] = [r.choice(p.types)]
        for k in range(r.choice([0, 1, 1, 2])):
            self.macro('m%d' % k)
        if p.cells and r.random() < 0.8 or r.random() < 0.2:
            self.step('init', [])
        names = ['A', 'B', 'D', 'E'][:r.choice([2, 3, 3, 4])]
        for s in names:
            ps = [(v, r.choice(p.types)) for v in ('i', 'j')[:r.choice([0, 1, 1, 1, 2])]]
            self.step(s, ps)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            self.order()
        if r.random() < 0.5:
            p.asserts.append(self.formula([], 2))
        p.query = self.formula([], 3)
        return p

    def newname(self, n):
        self.p.names[n] = self.r.choice([[], [self.p.types[0]], [self.p.types[0]], [self.p.types[-1]]])
        return n

    def fresh(self, scope):
        # shadowing now and then
        old = [n for n, _ in scope if n != 'in' and n[0] != '@' and not (self.p.cells and n in ('i', 'j', 'k'))]
        if old and self.r.random() < 0.12:
            return self.r.choice(old)
        self.vc += 1
        return 'x%d' % self.vc

    # ---- pieces ---------------------------------------------------------------
    def idx(self, sort, scope):
        vs = visible(scope, sort)
        return ('v', self.r.choice(vs)) if vs else None

    def args(self, sorts, scope, depth, sym):
        out = []
        for s in sorts:
            if s == M:
                t = self.msg(scope, depth - 1, sym)
            elif s in ('Bool', C):
                t = self.cond(scope, depth - 1, sym)
            elif s == 'Step':
                t = self.stepterm(scope)
            else:
                t = self.idx(s, scope)
            if t is None:
                return None
            out.append(t)
        return out

    def key(self, kind, scope):
        n = self.keys[kind]
        a = self.args(self.p.names[n], scope, 0, True)
        return None if a is None else ('f', n) + tuple(a)

    def name(self, scope, kinds=None):
        for _ in range(5):
            n = self.r.choice(kinds or sorted(self.p.names))
            a = self.args(self.p.names[n], scope, 0, True)
            if a is not None:
                return ('f', n) + tuple(a)
        return ('f', 'ok')

    def msg(self, scope, depth, sym):
        """sym: inside a step or a macro used there"""
        self.inmsg += 1
        try:
            return self.msg_(scope, depth, sym)
        finally:
            self.inmsg -= 1

    def msg_(self, scope, depth, sym):
        r, p = self.r, self.p
        opts = ['const', 'name']
        if self.has_in(scope):
            opts += ['in'] * 3
        vs = visible(scope, M)
        if vs:
            opts += ['var'] * 2
        if depth > 0:
            opts += ['tpl', 'sel', 'fun', 'fun']
            for k in self.keys:
                opts += [k] * 2
            opts += ['ite', 'find']
            if self.cell_ok(scope):
                opts += ['cell'] * 2
            if any(b[2] == M for b in self.macs()):
                opts.append('mac')
            opts.append('let')
            if not sym:
                opts += ['input', 'msgf', 'msgm']
        for _ in range(8):
            o = r.choice(opts)
            t = None
            if o == 'const':
                t = ('f', r.choice(['ok', 'ko', 'empty']))
            elif o == 'name':
                secret = [n for n in p.names if n not in self.keys.values()]
                t = self.name(scope, secret if r.random() < 0.93 else None)
            elif o == 'in':
                t = ('in',)
            elif o == 'var':
                t = ('v', r.choice(vs))
            elif o == 'tpl':
                t = ('f', 'tpl', self.msg(scope, depth - 1, sym), self.msg(scope, depth - 1, sym))
            elif o == 'sel':
                t = ('f', r.choice(['sel1of2', 'sel2of2']), self.msg(scope, depth - 1, sym))
            elif o == 'fun':
                f = r.choice([x for x, (a, out) in p.funs.items() if out == M and x not in (
                    'hash', 'sign', 'pk', 'enc', 'dec')])
                a = self.args(p.funs[f][0], scope, depth, sym)
                t = None if a is None else ('f', f) + tuple(a)
            elif o == 'hash':
                k = self.key('hash', scope)
                t = k and ('f', 'hash', self.msg(scope, depth - 1, sym), k)
            elif o == 'sign':
                k = self.key('sign', scope)
                t = k and (('f', 'sign', self.msg(scope, depth - 1, sym), k) if r.random() < 0.7 else ('f', 'pk', k))
            elif o == 'enc':
                k = self.key('enc', scope)
                if k and r.random() < 0.6:
                    rn = self.name(scope, ['rr'])
                    t = rn[1] == 'rr' and ('f', 'enc', self.msg(scope, depth - 1, sym), rn, k)
                elif k:
                    t = ('f', 'dec', self.msg(scope, depth - 1, sym), k)
            elif o == 'ite':
                t = ('ite', self.cond(scope, depth - 1, sym), self.msg(scope, depth - 1, sym), self.msg(scope, depth - 1, sym))
            elif o == 'find':
                bs = self.binds(scope, r.choice([1, 1, 2]))
                s2 = scope + bs
                t = ('find', tuple(bs), self.cond(s2, depth - 1, True), self.msg(s2, depth - 1, True), self.msg(scope, depth - 1, True))
            elif o == 'cell':
                t = self.cellterm(scope, sym)
            elif o == 'mac':
                t = self.mac(scope, M, depth, sym)
            elif o == 'let':
                v = self.fresh(scope)
                t = ('let', v, M, self.msg(scope, depth - 1, sym), self.msg(scope + [(v, M)], depth - 1, sym))
            elif o in ('input', 'msgf'):
                s = self.stepterm(scope)
                t = s and ('sfun', 'input' if o == 'input' else 'msg', s)
            elif o == 'msgm':
                s = self.stepterm(scope, plain=True)
                t = s and ('msg!',) + s[1:]
            if t:
                return t
        return ('f', 'ok')

    def cond(self, scope, depth, sym):
        r, p = self.r, self.p
        opts = ['true', 'eq']
        if 'pp' in p.funs:
            opts.append('pp')
        if 'qq' in p.funs:
            opts.append('qq')
        for k in self.keys:
            opts += [k] * 2
        if depth > 0:
            opts += ['and', 'or', 'not', 'imp', 'iff', 'neq', 'ex', 'all', 'let']
            if any(b[2] == C for b in self.macs()):
                opts += ['mac'] * 2
            if not sym:
                opts += ['condf', 'exec', 'condm', 'eq3']
                if not self.inmsg:
                    # sort Bool, which the language does not mix with Condition inside messages
                    opts += ['happens', 'lt', 'leq', 'gt', 'ieq', 'steq', 'ite', 'happens', 'lt']
        for _ in range(8):
            o = r.choice(opts)
            t = None
            if o == 'true':
                t = ('op', r.choice(['true', 'true', 'false']))
            elif o in ('eq', 'neq'):
                t = ('op', o) + self.sides(2, scope, depth - 1, sym)
            elif o == 'eq3':
                t = ('op', r.choice(['eq', 'neq'])) + self.sides(3, scope, 0, sym)
            elif o == 'pp':
                t = ('f', 'pp', self.msg(scope, depth - 1, sym))
            elif o == 'qq':
                a = self.args(p.funs['qq'][0], scope, 0, sym)
                t = a and ('f', 'qq') + tuple(a)
            elif o == 'hash':
                k = self.key('hash', scope)
                t = k and ('f', 'verify', self.msg(scope, depth - 1, sym), self.msg(scope, depth - 1, sym), k)
            elif o == 'sign':
                k = self.key('sign', scope)
                t = k and ('f', 'checksign', self.msg(scope, depth - 1, sym), self.msg(scope, depth - 1, sym), ('f', 'pk', k))
            elif o == 'enc':
                k = self.key('enc', scope)
                t = k and ('op', 'neq', ('f', 'dec', self.msg(scope, depth - 1, sym), k), ('f', 'fail'))
            elif o in ('and', 'or'):
                t = ('op', o) + tuple(self.cond(scope, depth - 1, sym) for _ in range(r.choice([2, 2, 3])))
            elif o in ('imp', 'iff'):
                t = ('op', o, self.cond(scope, depth - 1, sym), self.cond(scope, depth - 1, sym))
            elif o == 'not':
                t = ('op', 'not', self.cond(scope, depth - 1, sym))
            elif o in ('ex', 'all'):
                bs = self.binds(scope, r.choice([1, 1, 2]), step=not sym)
                t = (o, tuple(bs), self.cond(scope + bs, depth - 1, sym))
            elif o == 'let':
                v = self.fresh(scope)
                t = ('let', v, M, self.msg(scope, depth - 1, sym), self.cond(scope + [(v, M)], depth - 1, sym))
            elif o == 'mac':
                t = self.mac(scope, C, depth, sym)
            elif o == 'ite':
                t = ('ite', self.cond(scope, depth - 1, sym), self.cond(scope, depth - 1, sym), self.cond(scope, depth - 1, sym))
            elif o in ('happens', 'exec', 'condf'):
                s = self.stepterm(scope)
                t = s and ('sfun', {'condf': 'cond'}.get(o, o), s)
            elif o in ('lt', 'leq', 'gt'):
                a, b = self.stepterm(scope), self.stepterm(scope)
                t = a and b and ('sfun', o, a, b)
            elif o == 'steq':
                a, b = self.stepterm(scope), self.stepterm(scope)
                t = a and b and ('op', 'eq', a, b)
            elif o == 'condm':
                s = self.stepterm(scope, plain=True)
                t = s and ('cond!',) + s[1:]
            elif o == 'ieq':
                s = r.choice(p.types)
                a, b = self.idx(s, scope), self.idx(s, scope)
                t = a and b and ('op', r.choice(['eq', 'neq']), a, b)
            if t:
                return t
        return ('op', 'true')

    def sides(self, n, scope, depth, sym):
        """sides of an equality; a message comes first, for it fixes the sort"""
        ts = [self.msg(scope, depth, sym) for _ in range(n)]
        if not all(self.isname(t) for t in ts):
            ts.sort(key=self.isname)
        return tuple(ts)

    def isname(self, t):
        return t[0] == 'f' and t[1] in self.p.names

    def formula(self, scope, depth):
        """closed boolean formula for a query or an assertion"""
        bs = self.binds(scope, self.r.choice([1, 2, 2]), step=True)
        q = self.r.choice(['all', 'all', 'ex'])
        return (q, tuple(bs), self.cond(scope + bs, depth, False))

    def binds(self, scope, n, step=False):
        out = []
        for _ in range(n):
            s = self.r.choice(self.p.types + (['Step'] if step else []))
            v = self.fresh(scope)
            while v in [x for x, _ in out]:
                self.vc += 1
                v = 'x%d' % self.vc
            out.append((v, s))
        return out

    def has_in(self, scope):
        return ('in', '@') in scope

    def macs(self):
        return [(m, ps, k) for m, (ps, b) in self.p.macros.items() for k in [self.p.notes['mk'][m]]]

    def macro(self, m):
        r = self.r
        ps = [('a%d' % k, r.choice(self.p.types + [M])) for k in range(r.choice([1, 2]))]
        k = r.choice([M, C, C])
        self.p.notes.setdefault('mk', {})
        body = self.cond(ps, 2, True) if k == C else self.msg(ps, 2, True)
        self.p.macros[m] = (ps, body)
        self.p.notes['mk'][m] = k

    def mac(self, scope, kind, depth, sym):
        ms = [b for b in self.macs() if b[2] == kind]
        if not ms:
            return None
        m, ps, _ = self.r.choice(ms)
        a = self.args([s for _, s in ps], scope, depth, True)
        return None if a is None else ('mac', m) + tuple(a)

    def stepterm(self, scope, plain=False):
        r = self.r
        vs = visible(scope, 'Step')
        if vs and not plain and r.random() < 0.4:
            t = ('v', r.choice(vs))
            return ('pred', t) if r.random() < 0.2 else t
        for _ in range(4):
            s = r.choice(sorted(self.p.steps) + ([] if plain else ['init']))
            d = self.p.steps.get(s, dict(params=[]))
            a = self.args([x for _, x in d['params']], scope, 0, False)
            if a is not None:
                t = ('st', s) + tuple(a)
                return ('pred', t) if not plain and r.random() < 0.1 else t
        return None

    def cell_ok(self, scope):
        return bool(self.p.cells) and any(n == '@self' for n, _ in scope) or (
            bool(self.p.cells) and not any(n == '@nocell' for n, _ in scope) and any(s == 'Step' for _, s in scope))

    def cellterm(self, scope, sym):
        c = self.r.choice(sorted(self.p.cells))
        a = self.args(self.p.cells[c], scope, 0, sym)
        if a is None:
            return None
        me = [s for n, s in scope if n == '@self']
        if me:
            st = ('pred', me[0])
        else:
            st = self.stepterm(scope)
        return st and ('cell', c) + tuple(a) + (st,)

    def step(self, s, ps):
        r, p = self.r, self.p
        two = None
        if s != 'init' and self.feat is not None and 'cells' in self.feat and len(ps) == 1 and r.random() < 0.5:
            # two entries of the same cell
            ok = [c for c in sorted(p.cells) if p.cells[c] == [ps[0][1]]]
            if ok:
                two = r.choice(ok)
                ps = ps + [('k', ps[0][1])]
                p.notes.setdefault('distinct', {})[s] = [0, 1]
        me = ('st', s) + tuple(('v', v) for v, _ in ps)
        scope = list(ps) + [('in', '@'), ('@self', me)]
        if s == 'init':
            scope = [('@nocell', '')]
        assigns = []
        if p.cells and (two or s == 'init' or r.random() < 0.6):
            for c in r.sample(sorted(p.cells), r.choice([1, len(p.cells)])) if not two else [two]:
                fr, args = [], []
                for x in p.cells[c]:
                    v = self.idx(x, [b for b in scope if b[0] not in ('@self', '@nocell')])
                    if c == two:
                        v = ('v', ps[0][0])
                    elif v is None or r.random() < 0.25 or s == 'init':
                        w = 'y%d' % len(fr)
                        fr.append((w, x))
                        v = ('v', w)
                    args.append(v)
                assigns.append((c, tuple(fr), tuple(args), self.msg(scope + fr, 2, True)))
                if c == two:
                    assigns.append((c, (), (('v', 'k'),), self.msg(scope, 2, True)))
                    r.shuffle(assigns)
        d = dict(params=ps, cond=('op', 'true') if s == 'init' else self.cond(scope, 2, True),
                 msg=self.msg(scope, 3 if s != 'init' else 1, True), assigns=assigns)
        p.steps[s] = d

    def order(self):
        r = self.r
        ss = [s for s in self.p.steps if s != 'init']
        a, b = r.choice(ss), r.choice(ss)
        vs, x = [], {}

        def inst(s):
            out = []
            for _, t in self.p.steps[s]['params']:
                old = [v for v, y in vs if y == t]
                if old and r.random() < 0.5:
                    out.append(('v', r.choice(old)))
                else:
                    v = 'o%d' % len(vs)
                    vs.append((v, t))
                    out.append(('v', v))
            return ('st', s) + tuple(out)
        ta, tb = inst(a), inst(b)
        op = r.choice(['<', '<', '>', '<>'])
        if not vs:
            vs.append(('o0', self.p.types[0]))
        guard = None
        if r.random() < 0.3:
            same = [(v, w) for k, (v, s) in enumerate(vs) for (w, s2) in vs[k + 1:] if s == s2]
            if same:
                v, w = r.choice(same)
                guard = ('op', 'neq', ('v', v), ('v', w))
        self.p.orders.append(dict(q='forall', vars=tuple(vs), guard=guard, a=ta, op=op, b=tb))


def visible(scope, sort):
    seen, out = set(), []
    for n, s in reversed(scope):
        if n in seen:
            continue
        seen.add(n)
        if s == sort:
            out.append(n)
    return out
