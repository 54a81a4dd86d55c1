"""When two emitted files are the same problem: assertions as a set, whatever the
names of bound variables and of generated symbols, the order of the arguments of
and/or/=, and the order of the declarations (colour refinement, so a difference
in colours is a real difference)."""
import hashlib
import re
from collections import Counter

GEN = re.compile(r'^_\d+\$|\$_\d+\$|\$\d+$')
COMM = {'and', 'or', '=', 'distinct'}


def H(*a):
    return hashlib.md5(repr(a).encode()).hexdigest()[:16]


def free(e, acc):
    if isinstance(e, str):
        acc.add(e)
    elif e[0] in ('forall', 'exists'):
        free(e[2], acc)      # an over-approximation is enough: bound names are numbered apart
    else:
        for x in e:
            free(x, acc)
    return acc


def mini(e):
    """push exists through or (forall through and), drop unused variables"""
    if isinstance(e, str):
        return e
    if e[0] in ('forall', 'exists'):
        q, vs, b = e[0], list(e[1]), mini(e[2])
        while not isinstance(b, str) and b[0] == q:
            vs, b = vs + list(b[1]), b[2]
        names = [v for v, _ in vs]
        if len(set(names)) < len(names):
            return [q, e[1], mini(e[2])]
        k = 'or' if q == 'exists' else 'and'
        if not isinstance(b, str) and b[0] == k:
            return [k] + [mini([q, vs, x]) for x in b[1:]]
        fv = free(b, set())
        vs = [v for v in vs if v[0] in fv]
        return [q, vs, b] if vs else b
    return [mini(x) for x in e] if e and isinstance(e[0], (str, list, tuple)) else e


class Canon:
    def __init__(self, sc, back=None, rounds=3):
        self.sc, self.back = sc, back or {}
        self.sym = {}
        self.gen = {}
        for s in sc.funs:
            self.sym[s] = self.name(s)
            if GEN.search(s.strip('|')):
                self.gen[s] = []
                a, o = sc.funs[s]
                self.sym[s] = H('gen', self.name(s), sorted(map(self.name, a)), self.name(o))
        self.roots = [(kind, sec, self.build(mini(e), {})) for kind, sec, e in sc.asserts]
        for _ in range(rounds):
            for k in self.gen:
                self.gen[k] = []
            for kind, sec, n in self.roots:
                self.up(n)
                self.down(n, H(kind, sec))
            for k, cs in self.gen.items():
                self.sym[k] = H(self.sym[k], sorted(set(cs)))
        for _, _, n in self.roots:
            self.up(n)

    def name(self, s):
        s = s.strip('|')
        out = []
        for part in s.split('$'):
            m = re.fullmatch(r'(dest_)(.*)(_\d+)', part)
            if m:
                part = m[1] + self.back.get(m[2], m[2]) + m[3]
            elif re.fullmatch(r'\d+_\d+', part):
                part = '#_#'
            elif re.fullmatch(r'_\d+', part) and '$' in s:
                part = '_#'
            else:
                part = self.back.get(part, part)
            out.append(part)
        s = '$'.join(out)
        return re.sub(r'\$\d+$', '$#', s)

    # node: [kind, label, children, colour]; variables: dict(colour, ctx)
    def build(self, e, env):
        if isinstance(e, str):
            if e in env:
                return ['v', env[e], [], None]
            return ['s', e, [], None]
        h = e[0]
        if h in ('forall', 'exists'):
            vs = [dict(c=H('var', h, self.name(s)), ctx=[]) for _, s in e[1]]
            return ['q', (h, vs), [self.build(e[2], dict(env, **{v: x for (v, _), x in zip(e[1], vs)}))], None]
        if h == 'let':
            raise ValueError('let')
        ch = [self.build(x, env) for x in e[1:]]
        if h in ('and', 'or'):
            ch = [y for c in ch for y in (c[2] if c[0] == 'a' and c[1] == h else [c])]
            ch = [c for c in ch if c[:2] != ['s', 'true' if h == 'and' else 'false']]
            if len(ch) == 1:
                return ch[0]
            if not ch:
                return ['s', 'true' if h == 'and' else 'false', [], None]
        return ['a', h, ch, None]

    def up(self, n):
        k, l, ch, _ = n
        cs = [self.up(c) for c in ch]
        if k == 'v':
            n[3] = H('v', l['c'])
        elif k == 's':
            n[3] = H('s', self.sym.get(l, l))
        elif k == 'q':
            n[3] = H('q', l[0], sorted(v['c'] for v in l[1]), cs)
        else:
            n[3] = H('a', self.sym.get(l, l), sorted(set(cs)) if l in ('and', 'or') else sorted(cs) if l in COMM or l in self.gen else cs)
        return n[3]

    def down(self, n, ctx):
        k, l, ch, col = n
        if k == 'v':
            l['ctx'].append(ctx)
            return
        if l in self.gen if k in 'sa' else False:
            self.gen[l].append(H(ctx, k))
        if k == 'q':
            for v in l[1]:
                v['ctx'] = []
        for i, c in enumerate(ch):
            self.down(c, H(ctx, col, '*' if k == 'q' or l in COMM or l in self.gen else i))
        if k == 'q':
            for v in l[1]:
                v['c'] = H(v['c'], sorted(set(v['ctx'])))

    def result(self):
        """(assertions, declarations) as multisets"""
        A = Counter((k, s, n[3]) for k, s, n in self.roots)
        D = Counter()
        for s, (a, o) in self.sc.funs.items():
            a = [self.name(x) for x in a]
            D[('fun', self.sym[s], tuple(sorted(a) if s in self.gen else a), self.name(o))] += 1
        for s in self.sc.sorts:
            D[('sort', self.name(s))] += 1
        for s, t in self.sc.alias.items():
            D[('alias', self.name(s), self.name(t))] += 1
        for s, cs in self.sc.ctors.items():
            for c, sels in cs:
                D[('ctor', self.name(s), self.sym[c], len(sels))] += 1
        for r in self.sc.subterm_rel:
            D[('subterm', len(r))] += 1
        return A, D

    def where(self, colour):
        for (kind, sec, n), (_, _, e) in zip(self.roots, self.sc.asserts):
            if n[3] == colour[2]:
                return e
        return None


def differ(a, b, back_a=None, back_b=None, rounds=3):
    """None, or what one script has and the other has not"""
    from . import smt
    if rounds:
        # the coarsest view that tells them apart says best what differs
        d = differ(a, b, back_a, back_b, 0)
        if d:
            return d
    ca, cb = Canon(a, back_a, rounds), Canon(b, back_b, rounds)
    (A, D), (A2, D2) = ca.result(), cb.result()
    if D != D2:
        return 'declarations: %s / %s' % (list((D - D2))[:3], list((D2 - D))[:3])
    if A != A2:
        x, y = list(A - A2), list(A2 - A)
        return 'assertions: only first (%d): %s\n only second (%d): %s' % (
            len(x), smt.show(ca.where(x[0]))[:500] if x else '-', len(y), smt.show(cb.where(y[0]))[:500] if y else '-')
    return None
