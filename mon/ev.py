"""Evaluation of emitted assertions in a concrete structure.

A structure fixes the domains and the meaning of the *known* symbols.  Every
other symbol of the script (subterm predicates, quantifier witnesses, function
symbols standing for a `find`...) is auxiliary: the assertions only have to be
true for *some* interpretation of those, so evaluation leaves residual
propositional constraints over them, and a SAT call settles whether such an
interpretation exists.  Domains may be only partially enumerated ("inexact",
used for messages): whatever the sample cannot settle becomes a fresh unknown,
so False / UNSAT is only ever reported when it is certain."""
import itertools
import random


class Aux:
    __slots__ = ('h', 'args', '_hash')

    def __init__(self, h, args):
        self.h, self.args = h, args
        self._hash = hash((h, args))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Aux) and self._hash == o._hash and self.h == o.h and self.args == o.args

    def __repr__(self):
        return '?%s%r' % (self.h, self.args)


class Res:
    """residual formula: op in atom, not, and, or"""
    __slots__ = ('op', 'args', '_hash')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._hash = hash((op, args))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Res) and self._hash == o._hash and self.op == o.op and self.args == o.args

    def __repr__(self):
        return '%s%r' % (self.op, self.args)


_fresh = itertools.count()


def fresh():
    return Res('atom', ('fresh', next(_fresh)))


def NOT(x):
    if x is True:
        return False
    if x is False:
        return True
    if x.op == 'not':
        return x.args[0]
    return Res('not', (x,))


def AND(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Res('and', tuple(out))


def OR(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Res('or', tuple(out))


def IFF(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return NOT(b)
    if b is False:
        return NOT(a)
    if a == b:
        return True
    return AND([OR([NOT(a), b]), OR([a, NOT(b)])])


class Split(Exception):
    def __init__(self, key, dom):
        self.key, self.dom = key, dom


class TooBig(Exception):
    pass


def unknown(v):
    return type(v) is Aux or type(v) is Res


class Evaluator:
    def __init__(self, script, model, rng=None, cap=1500, budget=3000000, total=None):
        self.sc = script
        self.m = model
        self.rng = rng or random.Random(0)
        self.cap = cap
        self.choices = {}
        self.defs = {}
        self.splits = {}       # key -> domain
        self.cache = {}
        self.work = 0
        self.budget = budget
        self.total, self.spent = total, 0
        self.instances = 0
        self.terms = {}
        self.pdefs = self.m.pdefs if self.symbolic else {}
        self._find_defs()

    symbolic = property(lambda self: getattr(self.m, 'symbolic', False))

    # ---- symbolic mode: terms and their evaluation ------------------------
    def evalterm(self, t):
        if type(t) is Aux:
            return None
        v = self.terms.get(t, self)
        if v is self:
            v = self.evalterm0(t)
            if not self.choices:
                self.terms[t] = v
        return v

    def evalterm0(self, t):
        f, args = t[1], t[2:]
        if f in self.pdefs:
            key = ('pdef', f)
            if key not in self.cache:
                params, body = self.pdefs[f]
                sc2 = {p: i for i, p in enumerate(params)}
                sc2['#'] = len(params)
                self.cache[key] = self.comp(body, sc2)
            return self.cache[key](list(args))
        vals = []
        isbool = self.sc.funs[f][1] == 'Condition'
        for a in args:
            if isinstance(a, tuple) and a and a[0] == 'T':
                a = self.evalterm(a)
            if a is None or unknown(a):
                return None
            vals.append(a)
        return self.m.value(f, vals)

    # ---- auxiliary definitions -----------------------------------------
    def _find_defs(self):
        for kind, sec, e in self.sc.asserts:
            vs, body = self.strip(e)
            if not (isinstance(body, list) and body[0] == '=' and len(body) == 3):
                continue
            for l, r in ((body[1], body[2]), (body[2], body[1])):
                f = l if isinstance(l, str) else l[0]
                if not isinstance(f, str) or f not in self.sc.funs or self.known(f):
                    continue
                if f in self.defs or (self.sc.funs[f][1] != 'Bool' and self.m.dom(self.sc.funs[f][1])[1]):
                    continue
                args = [] if isinstance(l, str) else l[1:]
                names = [v for v, _ in vs]
                if any(not isinstance(a, str) or a not in names for a in args):
                    continue
                if len(set(args)) != len(args) or f in _symbols(r):
                    continue
                if set(names) & _symbols(r) - set(args):
                    continue
                self.defs[f] = (args, r)
                break

    def strip(self, e):
        vs = []
        while isinstance(e, list) and e and e[0] == 'forall':
            new = [v for v, _ in e[1]]
            if set(new) & {v for v, _ in vs}:
                break
            vs += [(v, self.sc.sort(s)) for v, s in e[1]]
            e = e[2]
        return vs, e

    def known(self, f):
        return self.m.fn(f) is not None

    # ---- compilation ----------------------------------------------------
    def comp(self, e, scope):
        if isinstance(e, str):
            if e in scope:
                i = scope[e]
                return lambda env: env[i]
            if e == 'true':
                return lambda env: True
            if e == 'false':
                return lambda env: False
            return self.comp_app(e, [], scope)
        h = e[0]
        if h in ('forall', 'exists'):
            return self.comp_q(h, e[1], e[2], scope)
        if h == 'let':
            names = [v for v, _ in e[1]]
            cs = [self.comp(t, scope) for _, t in e[1]]
            sc2 = dict(scope)
            base = scope['#']
            for k, v in enumerate(names):
                sc2[v] = base + k
            sc2['#'] = base + len(names)
            body = self.comp(e[2], sc2)
            return lambda env: body(env + [c(env) for c in cs])
        if h == 'and':
            cs = [self.comp(a, scope) for a in e[1:]]

            def f_and(env):
                out = None
                for c in cs:
                    v = c(env)
                    if v is False:
                        return False
                    if v is not True:
                        out = [v] if out is None else out + [v]
                return True if out is None else AND(out)
            return f_and
        if h == 'or':
            cs = [self.comp(a, scope) for a in e[1:]]

            def f_or(env):
                out = None
                for c in cs:
                    v = c(env)
                    if v is True:
                        return True
                    if v is not False:
                        out = [v] if out is None else out + [v]
                return False if out is None else OR(out)
            return f_or
        if h == 'not':
            c = self.comp(e[1], scope)
            return lambda env: NOT(c(env))
        if h == '=>':
            cs = [self.comp(a, scope) for a in e[1:]]

            def f_imp(env):
                out = []
                for c in cs[:-1]:
                    v = c(env)
                    if v is False:
                        return True
                    if v is not True:
                        out.append(NOT(v))
                v = cs[-1](env)
                return OR(out + [v])
            return f_imp
        if h == '=':
            if len(e) != 3:
                cs = [self.comp(['=', a, b], scope) for a, b in zip(e[1:], e[2:])]
                return lambda env: AND([c(env) for c in cs])
            a, b = self.comp(e[1], scope), self.comp(e[2], scope)
            return lambda env: self.eq(a(env), b(env))
        if h == 'distinct':
            cs = [self.comp(['not', ['=', a, b]], scope) for a, b in itertools.combinations(e[1:], 2)]
            return lambda env: AND([c(env) for c in cs])
        if h == 'ite':
            c, a, b = (self.comp(x, scope) for x in e[1:])

            def f_ite(env):
                v = c(env)
                if v is True:
                    return a(env)
                if v is False:
                    return b(env)
                x, y = a(env), b(env)
                if x == y:
                    return x
                if isinstance(x, bool) or isinstance(y, bool) or type(x) is Res or type(y) is Res:
                    return AND([OR([NOT(v), x]), OR([v, y])])
                return Aux('ite', (v, x, y))
            return f_ite
        return self.comp_app(h, e[1:], scope)

    def eq(self, x, y):
        if x is y:
            return True
        bx, by = isinstance(x, bool) or type(x) is Res, isinstance(y, bool) or type(y) is Res
        if bx or by:
            return IFF(x, y)
        if type(x) is Aux or type(y) is Aux:
            if x == y:
                return True
            return Res('atom', ('eq',) + tuple(sorted((x, y), key=lambda t: (type(t) is Aux, hash(t)))))
        return x == y

    def comp_app(self, f, args, scope):
        cs = [self.comp(a, scope) for a in args]
        fn = self.m.fn(f)
        evaluates = self.symbolic and f in ('evaluate_msg', 'evaluate_cond')
        out = self.sc.funs[f][1]
        isbool = out == 'Bool'
        if fn is not None:
            def call(env):
                self.work += 1
                vs = [c(env) for c in cs]
                for v in vs:
                    if unknown(v):
                        t = (f,) + tuple(vs)
                        return Res('atom', t) if isbool else Aux(f, tuple(vs))
                if evaluates:
                    v = self.evalterm(vs[0])
                    if v is None:
                        return Res('atom', (f,) + tuple(vs)) if isbool else Aux(f, tuple(vs))
                    return v
                return fn(*vs)
            return call
        if f in self.sc.selectors:
            ctor, i = self.sc.selectors[f]

            def sel(env):
                v = cs[0](env)
                if type(v) is Aux or not (isinstance(v, tuple) and v[0] == ctor):
                    return Aux(f, (v,))
                return v[1 + i]
            return sel
        if f in self.defs:
            params, body = self.defs[f]
            key = ('def', f)
            if key not in self.cache:
                self.cache[key] = None
                sc2 = {p: i for i, p in enumerate(params)}
                sc2['#'] = len(params)
                self.cache[key] = self.comp(body, sc2)

            def d(env):
                c = self.cache[key]
                vs = [x(env) for x in cs]
                if c is None:
                    return Res('atom', (f,) + tuple(vs)) if isbool else Aux(f, tuple(vs))
                return c(vs)
            return d
        if isbool:
            return lambda env: Res('atom', (f,) + tuple([c(env) for c in cs]))
        dom, exact = self.m.dom(out)
        if exact:
            def ch(env):
                vs = tuple([c(env) for c in cs])
                if any(unknown(v) for v in vs):
                    return Aux(f, vs)
                key = (f, vs)
                if key in self.choices:
                    return self.choices[key]
                raise Split(key, dom)
            return ch
        return lambda env: Aux(f, tuple([c(env) for c in cs]))

    def one_point(self, binders, body):
        """exists over sampled domains: use the equations that fix the witness"""
        inex = {v for v, s in binders if not self.m.dom(self.sc.sort(s))[1]}
        if not inex:
            return None
        djs = dnf(body, 64, self.m.ctors if self.symbolic else ())
        if djs is None:
            return None
        out = []
        for extra, cs in djs:
            bs = list(binders) + extra
            inex = {v for v, s in bs if not self.m.dom(self.sc.sort(s))[1]}
            again = True
            while again:
                again = False
                for c in cs:
                    if not (isinstance(c, list) and c[0] == '=' and len(c) == 3):
                        continue
                    for x, t in ((c[1], c[2]), (c[2], c[1])):
                        if isinstance(x, str) and x in inex and any(v == x for v, _ in bs) and x not in _symbols(t):
                            cs = [subst(d, x, t) for d in cs if d is not c]
                            bs = [b for b in bs if b[0] != x]
                            again = True
                            break
                    if again:
                        break
            cs = [c for c in cs if c != 'true']
            if 'false' in cs:
                continue
            # what does not depend on the witness is decided without it
            names = {v for v, _ in bs}
            dep = [c for c in cs if names & _symbols(c)]
            ind = [c for c in cs if not names & _symbols(c)]
            b = ['and'] + dep if len(dep) != 1 else dep[0]
            if len(dep) == 0:
                b = 'true'
            if bs:
                b = ['exists', bs, b]
            if ind:
                b = ['and'] + ind + ([b] if b != 'true' else [])
            out.append(b)
        return ['or'] + out if out else 'false'

    def comp_q(self, q, binders, body, scope, pointed=False):
        if q == 'exists' and not pointed:
            e = self.one_point(binders, body)
            if e is not None:
                if isinstance(e, str):
                    return self.comp(e, scope)
                cs = []
                for d in e[1:]:
                    parts = d[1:] if isinstance(d, list) and d and d[0] == 'and' else [d]
                    cs.append([self.comp_q('exists', x[1], x[2], scope, True) if isinstance(x, list) and x and x[0] == 'exists'
                               else self.comp(x, scope) for x in parts])

                def disj(env):
                    out = []
                    for ps in cs:
                        vs = []
                        for c in ps:
                            v = c(env)
                            if v is False:
                                break
                            vs.append(v)
                        else:
                            out.append(AND(vs))
                    return OR(out)
                return disj
        sc2 = dict(scope)
        base = scope['#']
        doms, exact = [], True
        for k, (v, s) in enumerate(binders):
            sc2[v] = base + k
            d, ex = self.m.dom(self.sc.sort(s))
            doms.append(d)
            exact = exact and ex
        sc2['#'] = base + len(binders)
        b = self.comp(body, sc2)
        n = 1
        for d in doms:
            n *= max(1, len(d))

        def it(env):
            if n <= self.cap * 4:
                return itertools.product(*doms)
            return (tuple(self.rng.choice(d) for d in doms) for _ in range(self.cap))
        sure = exact and n <= self.cap * 4
        if q == 'forall':
            def f(env):
                out = []
                for t in it(env):
                    self.work += 1
                    v = b(env + list(t))
                    if v is False:
                        return False
                    if v is not True:
                        out.append(v)
                if self.work > self.budget:
                    raise TooBig()
                if not sure:
                    out.append(fresh())
                return AND(out)
        else:
            def f(env):
                out = []
                for t in it(env):
                    self.work += 1
                    v = b(env + list(t))
                    if v is True:
                        return True
                    if v is not False:
                        out.append(v)
                if self.work > self.budget:
                    raise TooBig()
                if not sure:
                    out.append(fresh())
                return OR(out)
        return f

    # ---- instances --------------------------------------------------------
    def instances_of(self, vs):
        doms = [self.m.dom(s)[0] for _, s in vs]
        n = 1
        for d in doms:
            n *= len(d)
        if n <= self.cap:
            yield from itertools.product(*doms)
            return
        # guided: message variables taken from the arguments of pool terms
        seen = set()
        inex = [i for i, (_, s) in enumerate(vs) if not self.m.dom(s)[1]]
        exact = [i for i in range(len(vs)) if i not in inex]
        tuples = [t for t in self.m.arg_tuples(len(inex))] if inex else []
        if self.symbolic:
            def of(t, s):
                return s == (self.sc.funs[t[1]][1] if isinstance(t, tuple) and t and t[0] == 'T' else 'Bitstring')
            tuples = [t for t in tuples if all(of(x, vs[i][1]) for x, i in zip(t, inex))]
        left = self.cap
        if tuples:
            self.rng.shuffle(tuples)
            ne = 1
            for i in exact:
                ne *= len(doms[i])
            per = max(1, min(ne, left // len(tuples) or 1))
            for t in tuples:
                if per >= ne:
                    combos = itertools.product(*[doms[i] for i in exact])
                else:
                    combos = (tuple(self.rng.choice(doms[i]) for i in exact) for _ in range(per))
                for c in combos:
                    a = [None] * len(vs)
                    for i, v in zip(inex, t):
                        a[i] = v
                    for i, v in zip(exact, c):
                        a[i] = v
                    a = tuple(a)
                    if a not in seen:
                        seen.add(a)
                        yield a
        while left > 0:
            left -= 1
            a = tuple(self.rng.choice(d) for d in doms)
            if a not in seen:
                seen.add(a)
                yield a

    def run(self, c, env):
        """evaluate an instance, splitting on undetermined finite choices"""
        try:
            return c(env)
        except Split as s:
            if len(self.choices) > 8:
                return fresh()
            self.splits[s.key] = list(s.dom)
            out = []
            for v in s.dom:
                self.choices[s.key] = v
                try:
                    r = self.run(c, env)
                finally:
                    del self.choices[s.key]
                out.append(OR([NOT(Res('atom', ('choice', s.key, v))), r]))
            return AND(out)

    def assertion(self, e, max_inst=None):
        """yields (instance env dict, value) for values other than True"""
        vs, body = self.strip(e)
        scope = {v: i for i, (v, _) in enumerate(vs)}
        scope['#'] = len(vs)
        c = self.comp(body, scope)
        for t in self.instances_of(vs) if vs else [()]:
            self.instances += 1
            self.spent += self.work
            self.work = 0
            if self.total is not None and self.spent > self.total:
                # out of budget: the rest of the sample is left out
                return
            try:
                v = self.run(c, list(t))
            except TooBig:
                continue
            if v is not True:
                yield {n: x for (n, _), x in zip(vs, t)}, v


def _symbols(e, acc=None):
    acc = set() if acc is None else acc
    if isinstance(e, str):
        acc.add(e)
    else:
        for a in e:
            _symbols(a, acc)
    return acc


def subst(e, x, t):
    if isinstance(e, str):
        return t if e == x else e
    if e and e[0] in ('forall', 'exists'):
        if any(v == x for v, _ in e[1]):
            return e
        if {v for v, _ in e[1]} & _symbols(t):
            ren = {v: v + '~' for v, _ in e[1]}
            body = e[2]
            for v, w in ren.items():
                body = subst(body, v, w)
            return [e[0], [[ren[v], s] for v, s in e[1]], subst(body, x, t)]
        return [e[0], e[1], subst(e[2], x, t)]
    return [e[0] if isinstance(e[0], str) else subst(e[0], x, t)] + [subst(a, x, t) for a in e[1:]] if e else e


_ren = itertools.count()


def apart(e, ctors):
    """equations of an equality between terms of free datatypes; None: they differ"""
    a, b = ([x] if isinstance(x, str) else x for x in e[1:])
    if a[0] in ctors and b[0] in ctors:
        if a[0] != b[0]:
            return None
        out = []
        for x, y in zip(a[1:], b[1:]):
            d = apart(['=', x, y], ctors)
            if d is None:
                return None
            out += d
        return out
    return [e]


def dnf(e, limit, ctors=()):
    """disjuncts (binders, conjuncts) of and/or/exists combinations, or None"""
    if ctors and isinstance(e, list) and len(e) == 3 and e[0] == '=':
        d = apart(e, ctors)
        return [] if d is None else [([], d)]
    if isinstance(e, list) and e:
        if e[0] == 'or':
            out = []
            for a in e[1:]:
                d = dnf(a, limit, ctors)
                if d is None:
                    return None
                out += d
            return out if len(out) <= limit else None
        if e[0] == 'and':
            out = [([], [])]
            for a in e[1:]:
                d = dnf(a, limit, ctors)
                if d is None:
                    return None
                out = [(bx + by, x + y) for bx, x in out for by, y in d]
                if len(out) > limit:
                    return None
            return out
        if e[0] == 'exists':
            bs, body = [], e[2]
            for v, s in e[1]:
                w = '%s~%d' % (v, next(_ren))
                body = subst(body, v, w)
                bs.append([w, s])
            d = dnf(body, limit, ctors)
            return None if d is None else [(bs + x, c) for x, c in d]
    return [([], [e])]


def solve(residuals, splits, timeout_ms=120000):
    """residuals: list of (tag, Res). -> ('sat'|'unsat'|'unknown', tags)"""
    import z3
    atoms, lines = {}, []

    def atom(k):
        if k not in atoms:
            atoms[k] = 'a%d' % len(atoms)
            lines.append('(declare-const %s Bool)' % atoms[k])
        return atoms[k]
    memo = {}

    def conv(r):
        if r is True:
            return 'true'
        if r is False:
            return 'false'
        if r.op == 'atom':
            return atom(r.args)
        v = memo.get(r)
        if v is not None:
            return v
        if r.op == 'not':
            v = '(not %s)' % conv(r.args[0])
        else:
            t = '(%s %s)' % (r.op, ' '.join([conv(a) for a in r.args]))
            v = 'd%d' % len(memo)
            lines.append('(define-fun %s () Bool %s)' % (v, t))
        memo[r] = v
        return v
    seen = set()
    for tag, r in residuals:
        if r in seen:
            continue
        seen.add(r)
        lines.append('(assert %s)' % conv(r))
    for key, dom in splits.items():
        cs = [atom(('choice', key, v)) for v in dom]
        lines.append('(assert (or %s))' % ' '.join(cs))
        for a, b in itertools.combinations(cs, 2):
            lines.append('(assert (or (not %s) (not %s)))' % (a, b))
    s = z3.SolverFor('QF_FD')
    s.set('timeout', timeout_ms)
    s.from_string('\n'.join(lines))
    return str(s.check())


def judge(script, model, rng, want=None, cap=1500, skip_query=True, total=None):
    """Decide whether the (selected) assertions can hold in the model.
    -> dict(verdict='sat'|'unsat'|'unknown', why, stats)"""
    ev = Evaluator(script, model, rng, cap, total=total)
    residuals = []
    n = 0
    asserts = script.asserts
    if skip_query:
        asserts = asserts[:-1]
    order = list(enumerate(asserts))
    if total is not None:
        rng.shuffle(order)
    for i, (kind, sec, e) in order:
        if want is not None and not want(i, sec, e):
            continue
        n += 1
        for env, v in ev.assertion(e):
            if v is False:
                return dict(verdict='unsat', why=(i, sec, e, env), n=n, instances=ev.instances, residuals=len(residuals))
            residuals.append(((i, sec), v))
    st = dict(n=n, instances=ev.instances, residuals=len(residuals))
    if not residuals:
        return dict(verdict='sat', why=None, **st)
    r = solve(residuals, ev.splits)
    why = None
    if r == 'unsat':
        why = minimise(residuals, ev.splits, asserts)
    return dict(verdict=r, why=why, **st)


def minimise(residuals, splits, asserts):
    """which assertions are needed for the contradiction (deletion by assertion)"""
    tags = sorted({t for t, _ in residuals})
    keep = set(tags)
    for t in tags:
        trial = [(a, r) for a, r in residuals if a in keep and a != t]
        if solve(trial, splits) == 'unsat':
            keep.discard(t)
    return ('core', [(i, sec, asserts[i][2]) for i, sec in sorted(keep)])
