"""Concrete executions of a protocol against an active (Dolev-Yao) attacker.

A Model is one trace: which step instances happen and in which order, which
message the attacker feeds to each of them (only what can be computed from the
messages output so far), and the resulting outputs, conditions and memory."""
import itertools
import zlib
from . import proto as P


def h32(x):
    return zlib.crc32(repr(x).encode()) >> 3


UNDEF = ('step', '', ())
EMPTY = ('empty',)


class Model:
    def __init__(self, p, rng, sizes=None, maxlen=5, pool=24, subset=0.7, trace=None, inputs=None, ordered=True):
        self.p, self.rng = p, rng
        self.idx = {}
        for t in p.types:
            n = (sizes or {}).get(t) or rng.choice([1, 2, 2])
            self.idx[t] = [(t, i) for i in range(n)]
        self._salt = rng.randrange(1 << 30)
        self.input_, self.msg_, self.cond_, self.exec_, self.cell_ = {}, {}, {}, {}, {}
        self.trace = []
        self.ambiguous = False
        self.forced = {} if inputs is None else inputs
        if trace is None:
            trace = self.random_trace(maxlen, subset, ordered)
        elif callable(trace):
            trace = trace(self)
        self.run(trace)
        self.size = pool
        self._pool = None
        self.over = {}           # perturbations: symbol -> function(old, *args)

    # ---- algebra ----------------------------------------------------------
    def apply(self, f, a):
        p = self.p
        if f in p.names:
            return ('#', f) + tuple(a)
        if f == 'empty':
            return EMPTY
        k = p.algebra.get(f)
        if k == 'fst' or k == 'snd':
            x = a[0]
            if isinstance(x, tuple) and x[0] == 'tpl':
                return x[1] if k == 'fst' else x[2]
        elif k == 'verify':
            return a[0] == (p.notes['hash'], a[1], a[2])
        elif k == 'checksign':
            return a[2][0] == p.notes['pk'] and a[0] == (p.notes['sign'], a[1], a[2][1])
        elif k == 'dec':
            c = a[0]
            if c[0] == p.notes['enc'] and len(c) == 4 and c[3] == a[1]:
                return c[1]
            return (p.notes['fail'],)
        out = p.funs[f][1]
        if out in ('Bool', 'Condition'):
            return h32((self._salt, f) + tuple(a)) % 2 == 0
        if out == 'Message':
            return (f,) + tuple(a)
        if out in self.idx:
            d = self.idx[out]
            return d[h32((self._salt, f) + tuple(a)) % len(d)]
        raise ValueError(f)

    # ---- structure ----------------------------------------------------------
    def step(self, s, args):
        v = ('step', s, args)
        return v if v in self.pos else UNDEF

    def pred(self, t):
        i = self.pos.get(t, 0)
        return self.trace[i - 1] if i > 0 else UNDEF

    def sfun(self, f, a):
        if f == 'happens':
            return a[0] in self.pos
        if f in ('lt', 'leq', 'gt'):
            if a[0] not in self.pos or a[1] not in self.pos:
                return False
            x, y = self.pos[a[0]], self.pos[a[1]]
            return {'lt': x < y, 'leq': x <= y, 'gt': x > y}[f]
        t = a[0]
        if f == 'input':
            return self.input_.get(t, EMPTY)
        if f == 'msg':
            return self.msg_.get(t, EMPTY)
        if f == 'cond':
            return self.cond_.get(t, False)
        if f == 'exec':
            return self.exec_.get(t, False)
        raise ValueError(f)

    def cell(self, c, args, t):
        return self.cell_.get((c, args, t), EMPTY)

    # ---- execution ----------------------------------------------------------
    def instances(self):
        out = []
        for s, d in self.p.steps.items():
            if s == 'init':
                continue
            apart = self.p.notes.get('distinct', {}).get(s)
            for a in itertools.product(*[self.idx[x] for _, x in d['params']]):
                if apart and len({a[k] for k in apart}) < len(apart):
                    continue
                out.append(('step', s, a))
        return out

    def order_ok(self, trace):
        """the first violated user order, as (kind, a, b), or None"""
        self.trace = trace
        self.pos = {t: i for i, t in enumerate(trace)}
        for o in self.p.orders:
            bad = []
            good = False
            for e in P.assignments(o['vars'], {}, self):
                if o.get('guard') and not P.interp(o['guard'], e, self):
                    good = True
                    continue
                a, b = P.interp(o['a'], e, self), P.interp(o['b'], e, self)
                if o['op'] == '>':
                    a, b = b, a
                if o['op'] == '<>':
                    ok = not (a in self.pos and b in self.pos)
                else:
                    ok = b not in self.pos or (a in self.pos and self.pos[a] <= self.pos[b])
                if ok:
                    good = True
                else:
                    bad.append((o, a, b))
            if o['q'] == 'forall' and bad:
                return self.rng.choice(bad)
            if o['q'] == 'exists' and not good:
                return bad[0] if bad else (o, None, None)
        return None

    def random_trace(self, maxlen, subset, ordered=True):
        ins = [s for s in self.instances() if self.rng.random() < subset]
        self.rng.shuffle(ins)
        ins = ins[:maxlen]
        init = ('step', 'init', ())
        tr = [init] + ins
        n = 0
        while ordered:
            n += 1
            bad = self.order_ok(tr)
            if bad is None:
                break
            o, a, b = bad
            vict = b if b in tr and b != init else a
            if vict is None or vict not in tr or vict == init or n > 40:
                tr = [init]
                break
            # a missing or late predecessor: try to put it in place first
            if o['op'] != '<>' and a is not None and a != UNDEF and a in tr and a != init and n < 20:
                tr.remove(a)
                tr.insert(tr.index(b), a)
            else:
                tr.remove(vict)
        return tr

    def run(self, trace):
        self.trace = list(trace)
        self.pos = {t: i for i, t in enumerate(self.trace)}
        know = [EMPTY, ('att', 0), ('att', 1)]
        self.before = {}         # what the attacker knows when the step is fed
        for i, t in enumerate(self.trace):
            _, s, args = t
            self.before[t] = know
            d = self.p.steps.get(s) or dict(params=[], cond=('op', 'true'), msg=('f', 'empty'), assigns=[])
            env = {v: a for (v, _), a in zip(d['params'], args)}
            pre = self.pred(t)
            ex0 = True if i == 0 else self.exec_[pre]
            best = None
            if t in self.forced:
                cands = [self.forced[t](self, know) if callable(self.forced[t]) else self.forced[t]]
            else:
                cands = self.candidates(know, d, env)
            for cand in cands:
                self.input_[t] = cand
                self.eval_step(t, d, dict(env, **{'in': cand}), pre)
                if best is None:
                    best = cand
                if self.cond_[t]:
                    best = cand
                    if self.rng.random() < 0.8:
                        break
            self.input_[t] = best
            self.eval_step(t, d, dict(env, **{'in': best}), pre)
            if i == 0:
                self.cond_[t] = bool(self.cond_[t])
            self.exec_[t] = ex0 and self.cond_[t]
            if self.exec_[t]:
                know = self.analyse(know + [self.msg_[t]])

    def eval_step(self, t, d, env, pre):
        # memory first: contents may read other cells at pred or at this step
        touched = {}
        for c, cs in self.p.cells.items():
            for a in itertools.product(*[self.idx[x] for x in cs]):
                self.cell_[(c, a, t)] = self.cell_.get((c, a, pre), EMPTY)
        for c, fr, args, content in d['assigns']:
            for e in P.assignments(fr, env, self):
                a = tuple(P.interp(x, e, self) for x in args)
                touched[(c, a, t)] = P.interp(content, e, self)
        self.cell_.update(touched)
        self.msg_[t] = P.interp(d['msg'], env, self)
        self.cond_[t] = P.interp(d['cond'], env, self)

    def derivable(self, know, t):
        know = set(know)

        def rec(x):
            if x in know:
                return True
            if x[0] == '#':
                return False
            if x[0] in self.idx or x[0] == 'step':
                return True
            return all(rec(a) for a in x[1:] if isinstance(a, tuple))
        return rec(t)

    def occurring(self, t):
        """every value that some subterm of the text of step t (condition, output,
        memory updates) takes, with its own structure"""
        _, s, args = t
        d = self.p.steps.get(s)
        out = set()
        if d is None:
            return out
        env = {v: a for (v, _), a in zip(d['params'], args)}
        env['in'] = self.input_[t]

        def val(x):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x not in out:
                out.add(x)
                for a in x[1:]:
                    if isinstance(a, tuple):
                        val(a)

        def walk(x, e):
            k = x[0]
            try:
                v = P.interp(x, e, self)
                if x != ('in',):
                    val(v)
            except P.Stuck:
                pass
            if k == 'find':
                for e2 in P.assignments(x[1], e, self):
                    walk(x[2], e2)
                    walk(x[3], e2)
                walk(x[4], e)
            elif k in ('ex', 'all'):
                for e2 in P.assignments(x[1], e, self):
                    walk(x[2], e2)
            elif k == 'let':
                walk(x[3], e)
                walk(x[4], dict(e, **{x[1]: P.interp(x[3], e, self)}))
            elif k == 'mac':
                ps, body = self.p.macros[x[1]]
                for a in x[2:]:
                    walk(a, e)
                walk(body, {q[0]: P.interp(a, e, self) for q, a in zip(ps, x[2:])})
            elif k not in ('v', 'in', 'msg!', 'cond!'):
                for a in x[1:]:
                    if isinstance(a, tuple):
                        walk(a, e)
        walk(d['cond'], env)
        walk(d['msg'], env)
        for c, fr, ar, content in d['assigns']:
            for e in P.assignments(fr, env, self):
                walk(content, e)
        return out

    def analyse(self, know):
        known = set(know)
        todo = True
        while todo:
            todo = False
            for x in list(known):
                new = []
                if x[0] == 'tpl':
                    new = [x[1], x[2]]
                elif x[0] == self.p.notes.get('enc') and len(x) == 4 and x[3] in known:
                    new = [x[1]]
                elif x[0] in self.p.notes.get('open', ()):
                    # nothing is assumed about what this primitive hides
                    new = [x[1]]
                elif x[0] == self.p.notes.get('open_rand') and len(x) == 4:
                    # ... nor about the secrecy of its randomness
                    new = [x[2]]
                for y in new:
                    if y not in known:
                        known.add(y)
                        todo = True
        return sorted(known, key=repr)

    def compose(self, know, depth):
        if depth == 0 or self.rng.random() < 0.4:
            return self.rng.choice(know)
        fs = [(f, a) for f, (a, o) in self.p.funs.items()
              if o == 'Message' and all(x == 'Message' for x in a)]
        if 'tpl' in self.p.funs and self.rng.random() < 0.5:
            f, a = 'tpl', ['Message', 'Message']
        else:
            if not fs:
                return self.rng.choice(know)
            f, a = self.rng.choice(fs)
        return self.apply(f, [self.compose(know, depth - 1) for _ in a])

    def candidates(self, know, d, env):
        if not any(x == ('in',) for key in ('cond', 'msg') for x in P.subterms(d[key])) and not d['assigns']:
            yield self.rng.choice(know)
            return
        k = list(know)
        self.rng.shuffle(k)
        last = [m for m in self.msg_.values() if m in know]
        self.rng.shuffle(last)
        yield from last[:4]
        yield from k[:6]
        for _ in range(30):
            yield self.compose(know, 2)

    # ---- interface for the evaluator -------------------------------------
    def dom(self, s):
        if s in self.idx:
            return self.idx[s], True
        if s == 'Step':
            return self.trace + [UNDEF], True
        if s == 'Bool' or s == 'Condition':
            return [True, False], True
        if s == 'Name':
            out = []
            for n, a in self.p.names.items():
                for x in itertools.product(*[self.idx[y] for y in a]):
                    out.append((n,) + x)
            return out or [('noname',)], True
        if s in ('Message', 'Bitstring'):
            return self.pool(), False
        raise KeyError(s)

    def pool(self):
        if self._pool is None:
            ts = set()

            def add(t):
                if isinstance(t, tuple) and t not in ts and t[0] not in self.idx:
                    ts.add(t)
                    if t[0] != '#':
                        for a in t[1:]:
                            if isinstance(a, tuple) and a[0] not in self.idx:
                                add(a)
            for x in itertools.chain(self.input_.values(), self.msg_.values(), self.cell_.values()):
                add(x)
            for n in self.dom('Name')[0]:
                if n[0] != 'noname':
                    add(('#',) + n)
            add(EMPTY)
            core = sorted(ts, key=repr)
            self.rng.shuffle(core)
            core = core[:self.size]
            for _ in range(4):
                core.append(self.compose(core or [EMPTY], 1))
            seen, out = set(), []
            for t in core:
                if t not in seen:
                    seen.add(t)
                    out.append(t)
            self._pool = out
        return self._pool

    def arg_tuples(self, k):
        out = set()
        for t in self.pool():
            ms = [a for a in t[1:] if isinstance(a, tuple) and a[0] not in self.idx and t[0] != '#']
            if len(ms) == k:
                out.add(tuple(ms))
            for x in self.pool()[:6]:
                if len(ms) == k - 1:
                    out.add((x,) + tuple(ms))
                    out.add(tuple(ms) + (x,))
        if k == 1:
            out |= {(t,) for t in self.pool()}
        if k == 2:
            out |= {(a, b) for a in self.pool() for b in self.pool()}
        return sorted(out, key=repr)

    def fn(self, f):
        g = self.base_fn(f)
        if g is not None and f in self.over:
            h = self.over[f]
            return lambda *a: h(g(*a), *a)
        return g

    def base_fn(self, f):
        p = self.p
        if f in p.steps or f == 'init':
            return lambda *a: self.step(f, tuple(a))
        if f in p.names:
            return lambda *a: (f,) + tuple(a)
        if f in p.cells:
            return lambda *a: self.cell(f, tuple(a[:-1]), a[-1])
        if f in p.funs:
            return lambda *a: self.apply(f, a)
        if f == 'pred':
            return self.pred
        if f in P.SFUN:
            return lambda *a: self.sfun(f, a)
        return FIX.get(f)


FIX = {
    'cast$Message$name': lambda n: ('#',) + n,
    'empty': lambda: EMPTY,
    'ta$and': lambda a, b: a and b,
    'ta$or': lambda a, b: a or b,
    'ta$not': lambda a: not a,
    'ta$implies': lambda a, b: (not a) or b,
    'ta$iff': lambda a, b: a == b,
    'ta$=': lambda a, b: a == b,
    'ta$true': lambda: True,
    'ta$false': lambda: False,
    'ta$ite': lambda c, a, b: a if c else b,
}
