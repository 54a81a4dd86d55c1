"""Symbolic mode (--symbolic): messages, conditions and names are terms of free
datatypes, and what they mean is given by evaluate_msg / evaluate_cond into
bitstrings.  Sym turns an execution (a dy.Model, whose values become the
bitstrings) into a structure for such a problem."""
import itertools
from . import dy, ev


class Sym:
    symbolic = True

    def __init__(self, m, sc, rng=None, big=False):
        self.big = big
        self.m, self.sc = m, sc
        self.rng = rng or m.rng
        self.ctors = {c for s, cs in sc.ctors.items() if s != 'Name' for c, _ in cs}
        self._find_pdefs()
        self._pool = None
        self._conds = None
        self._tuples = {}

    def _find_pdefs(self):
        """evaluate_x(c(v1..vn)) = t, for the constructors c the model does not know"""
        self.pdefs = {}
        for kind, sec, e in self.sc.asserts:
            names, body = [], e
            while isinstance(body, list) and body[0] == 'forall':
                names += [v for v, _ in body[1]]
                body = body[2]
            if not (isinstance(body, list) and body[0] == '=' and len(body) == 3) or len(set(names)) != len(names):
                continue
            l, r = body[1], body[2]
            if not (isinstance(l, list) and l[0] in ('evaluate_msg', 'evaluate_cond') and len(l) == 2):
                continue
            c = l[1] if isinstance(l[1], list) else [l[1]]
            if c[0] not in self.ctors or self.m.fn(c[0]) is not None or c[0] in self.pdefs:
                continue
            if any(not isinstance(a, str) or a not in names for a in c[1:]) or len(set(c[1:])) != len(c) - 1:
                continue
            if set(names) & ev._symbols(r) - set(c[1:]):
                continue
            self.pdefs[c[0]] = (c[1:], r)

    @property
    def over(self):
        return self.m.over

    # ---- meaning of terms ----------------------------------------------
    def value(self, f, a):
        """a constructor applied to evaluated arguments; None: not known to us"""
        g = self.m.fn(f)
        return None if g is None else g(*a)

    def term(self, f, a):
        return ('T', f) + tuple(a)

    def to_term(self, x):
        """a term with value x, or None"""
        if x == dy.EMPTY:
            return ('T', 'empty') if 'empty' in self.ctors else None
        if not isinstance(x, tuple) or not x:
            return None
        if x[0] == '#':
            return self.term('cast$Message$name', [tuple(x[1:])]) if 'cast$Message$name' in self.ctors else None
        if x[0] in self.m.idx:
            return x
        if x[0] in self.ctors and x[0] in self.m.p.funs:
            a = [self.to_term(y) for y in x[1:]]
            return None if None in a else self.term(x[0], a)
        for t in self.m.trace:
            if self.m.input_.get(t) == x:
                return self.term('input', [t])
        return None

    def written(self):
        """the terms of the unfolded steps, for the steps of this trace"""
        out, seen = [], set()

        def ground(e, env):
            if isinstance(e, str):
                e = [e]
            if e[0] in env and len(e) == 1:
                return env[e[0]]
            if not isinstance(e[0], str) or e[0] not in self.sc.funs:
                raise KeyError
            a = [ground(x, env) for x in e[1:]]
            f = self.fn(e[0])
            if f is None:
                raise KeyError
            return f(*a)

        def walk(e, env):
            if isinstance(e, str) or len(out) > 400:
                return
            if e[0] in ('forall', 'exists'):
                if any(not self.sc.sort(x) in self.m.idx and self.sc.sort(x) != 'Step' for _, x in e[1]):
                    return
                for c in itertools.islice(itertools.product(*[self.m.dom(self.sc.sort(x))[0] for _, x in e[1]]), 40):
                    walk(e[2], dict(env, **{v: x for (v, _), x in zip(e[1], c)}))
                return
            if e[0] == '=>':
                try:
                    if not ground(e[1], env):
                        return
                except KeyError:
                    pass
            if e[0] in ('evaluate_msg', 'evaluate_cond'):
                try:
                    add(ground(e[1], env))
                except KeyError:
                    pass
                return
            for x in e[1:]:
                if isinstance(x, list):
                    walk(x, env)

        def add(t):
            if isinstance(t, tuple) and t and t[0] == 'T':
                if t in seen:
                    return
                seen.add(t)
                out.append(t)
                for a in t[2:]:
                    add(a)
                if t[1] in self.pdefs:
                    ps, body = self.pdefs[t[1]]
                    walk(body, dict(zip(ps, t[2:])))
        for kind, sec, e in self.sc.asserts:
            if sec in ('unfolding', 'cells', 'query'):
                walk(e, {})
        return out

    # ---- domains ----------------------------------------------------------
    def dom(self, s):
        if s == 'Message':
            return self.pool(), False
        if s == 'Condition':
            return self.conds(), False
        if s == 'Bitstring':
            return self.m.pool(), False
        if s == 'Bool':
            return [True, False], True
        return self.m.dom(s)

    def pool(self):
        if self._pool is None:
            r, m = self.rng, self.m
            out = []
            steps = [t for t in m.trace]
            for t in steps:
                for f in ('input', 'msg'):
                    if f in self.ctors:
                        out.append(self.term(f, [t]))
            for (c, a, t) in m.cell_:
                if t in m.pos and c in self.ctors:
                    out.append(self.term(c, a + (t,)))
            r.shuffle(out)
            text = [t for t in self.written() if self.sc.funs[t[1]][1] == 'Message']
            r.shuffle(text)
            out = out[:14] + text[:200 if self.big else 24]
            vals = list(m.pool())
            r.shuffle(vals)
            for x in vals:
                t = self.to_term(x)
                if t is not None:
                    out.append(t)
            if 'cast$Message$name' in self.ctors:
                ns = [n for n in m.dom('Name')[0] if n[0] != 'noname']
                r.shuffle(ns)
                out += [self.term('cast$Message$name', [n]) for n in ns[:8]]
            fs = [(f, a) for f, (a, o) in m.p.funs.items() if o == 'Message' and f in self.ctors]
            base = list(out)
            for _ in range(6):
                if fs and base:
                    f, a = r.choice(fs)
                    out.append(self.term(f, [r.choice(base) if s in ('Message', 'Bitstring') else r.choice(self.dom(s)[0]) for s in a]))
            seen, res = set(), []
            for t in out:
                if t not in seen:
                    seen.add(t)
                    res.append(t)
            self._pool = res[:240 if self.big else 50] or [('T', 'empty')]
        return self._pool

    def conds(self):
        if self._conds is None:
            r, m = self.rng, self.m
            out = [self.term(c, []) for c in ('ta$true', 'ta$false') if c in self.ctors]
            for t in m.trace:
                for f in ('cond', 'exec'):
                    if f in self.ctors:
                        out.append(self.term(f, [t]))
            if 'ta$=' in self.ctors:
                for _ in range(2):
                    a, b = r.choice(self.pool()), r.choice(self.pool())
                    out += [self.term('ta$=', [a, b]), self.term('ta$=', [a, a])]
            for f, (a, o) in m.p.funs.items():
                if o in ('Bool', 'Condition') and f in self.ctors:
                    out.append(self.term(f, [r.choice(self.dom(s)[0]) for s in a]))
            out += [t for t in self.written() if self.sc.funs[t[1]][1] == 'Condition'][:80 if self.big else 12]
            self._conds = sorted(set(out), key=repr)
        return self._conds

    def arg_tuples(self, k):
        if k not in self._tuples:
            self._tuples[k] = self.arg_tuples0(k)
        return list(self._tuples[k])

    def arg_tuples0(self, k):
        out = set()
        for t in self.pool():
            ms = [a for a in t[2:] if isinstance(a, tuple) and a and a[0] == 'T']
            if len(ms) == k:
                out.add(tuple(ms))
            for x in self.pool()[:6]:
                if len(ms) == k - 1:
                    out.add((x,) + tuple(ms))
                    out.add(tuple(ms) + (x,))
        if k == 1:
            out |= {(t,) for t in self.pool() + self.conds() + self.m.pool()}
        if k == 2:
            out |= {(a, b) for l in (self.pool(), self.conds(), self.m.pool()[:12]) for a in l for b in l}
            out |= {(a, b) for a in self.conds()[:8] for b in self.pool()}
        return sorted(out, key=repr)

    # ---- symbols ------------------------------------------------------------
    def fn(self, f):
        if f in self.ctors:
            return lambda *a: ('T', f) + a
        if f.startswith('eval$'):
            return self.m.fn(f[5:]) if f[5:] in self.m.p.funs or f[5:] in dy.FIX else None
        if f in ('evaluate_msg', 'evaluate_cond'):
            return lambda t: None      # the evaluator goes through terms itself
        return self.m.fn(f)
