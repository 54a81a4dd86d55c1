"""Protocols: our own syntax tree, a printer to .ptcl and an interpreter.

Everything here is written from the language's documentation and examples, not
from the tool's code: it is the reference the monitors compare the tool with."""

OPS = {'and': '&&', 'or': '||', 'imp': '=>', 'iff': '<=>', 'eq': '==', 'neq': '!='}
SFUN = ('input', 'msg', 'cond', 'exec', 'happens', 'lt', 'leq', 'gt')


class Proto:
    def __init__(self):
        self.types = []          # index sorts
        self.funs = {}           # name -> (arg sorts, out)
        self.names = {}          # name -> arg sorts
        self.cells = {}          # name -> arg sorts
        self.steps = {}          # name -> dict(params, cond, msg, assigns)
        self.macros = {}         # name -> (params, body)
        self.orders = []         # dict(q, vars, guard, a, op, b)
        self.asserts = []
        self.lemmas = []
        self.query = ('op', 'true')
        self.crypto = []         # text lines
        self.algebra = {}        # fun -> kind used by the model
        self.notes = {}

    def text(self):
        o = []
        for t in self.types:
            o.append('type %s;' % t)
        for f, (a, r) in self.funs.items():
            o.append('fun %s%s: %s' % (f, '(%s)' % ', '.join(a) if a else '', r))
        for f, a in self.names.items():
            o.append('fun %s%s: Name' % (f, '(%s)' % ', '.join(a) if a else ''))
        for c, a in self.cells.items():
            o.append('cell %s%s: Message' % (c, '(%s)' % ', '.join(a) if a else ''))
        for m, (ps, b) in self.macros.items():
            o.append('let %s!(%s) = %s' % (m, binders(ps), show(b)))
        for s, d in self.steps.items():
            x = 'step %s%s\n  { %s }\n  { %s }' % (
                s, '(%s)' % binders(d['params']) if d['params'] or s != 'init' else '', show(d['cond']), show(d['msg']))
            if d['assigns']:
                x += '\n  { %s }' % ',\n    '.join(
                    '%s%s%s <- %s' % ('(%s) ' % binders(fr) if fr else '', c,
                                      '(%s)' % ', '.join(map(show, a)) if a else '', show(t))
                    for c, fr, a, t in d['assigns'])
            o.append(x)
        for d in self.orders:
            body = '%s %s %s' % (show(d['a']), d['op'], show(d['b']))
            if d.get('guard'):
                body = '%s => %s' % (show(d['guard']), body)
            o.append('order %s (%s) { %s }' % (d['q'], binders(d['vars']), body))
        for a in self.asserts:
            o.append('assert %s' % show(a))
        for a in self.lemmas:
            o.append('lemma %s' % show(a))
        o.append('query %s' % show(self.query))
        o += self.crypto
        return '\n'.join(o) + '\n'


def binders(bs):
    return ', '.join('%s:%s' % b for b in bs)


def app(f, args):
    return '%s(%s)' % (f, ', '.join(map(show, args))) if args else f


def show(t):
    k = t[0]
    if k == 'v':
        return t[1]
    if k == 'in':
        return 'in'
    if k == 'f' or k == 'st' or k == 'sfun':
        return app(t[1], t[2:])
    if k == 'cell':
        return app(t[1], t[2:])
    if k == 'pred':
        return 'pred(%s)' % show(t[1])
    if k == 'op':
        if t[1] in ('true', 'false'):
            return t[1]
        if t[1] == 'not':
            return 'not(%s)' % show(t[2])
        return '(%s)' % (' %s ' % OPS[t[1]]).join(map(show, t[2:]))
    if k == 'ite':
        return 'if %s { %s } else { %s }' % tuple(map(show, t[1:]))
    if k == 'find':
        return 'try find (%s) such that { %s } then { %s } else { %s }' % (
            (binders(t[1]),) + tuple(map(show, t[2:])))
    if k in ('ex', 'all'):
        return '%s (%s) { %s }' % ({'ex': 'exists', 'all': 'forall'}[k], binders(t[1]), show(t[2]))
    if k == 'let':
        return 'let %s: %s = %s in %s' % (t[1], t[2], show(t[3]), show(t[4]))
    if k == 'mac':
        return '%s!(%s)' % (t[1], ', '.join(map(show, t[2:])))
    if k in ('msg!', 'cond!'):
        return '%s(%s)' % (k, app(t[1], t[2:]))
    raise ValueError(t)


class Stuck(Exception):
    """the reference semantics leaves this value open"""


def interp(t, env, m):
    """value of t; env: variable -> value ('in' is a key too); m: the model"""
    k = t[0]
    if k == 'v':
        return env[t[1]]
    if k == 'in':
        return env['in']
    if k == 'f':
        return m.apply(t[1], [interp(a, env, m) for a in t[2:]])
    if k == 'st':
        return m.step(t[1], tuple([interp(a, env, m) for a in t[2:]]))
    if k == 'pred':
        return m.pred(interp(t[1], env, m))
    if k == 'sfun':
        return m.sfun(t[1], [interp(a, env, m) for a in t[2:]])
    if k == 'cell':
        return m.cell(t[1], tuple([interp(a, env, m) for a in t[2:-1]]), interp(t[-1], env, m))
    if k == 'op':
        o = t[1]
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'not':
            return not interp(t[2], env, m)
        if o == 'and':
            return all([interp(a, env, m) for a in t[2:]])
        if o == 'or':
            return any([interp(a, env, m) for a in t[2:]])
        vs = [interp(a, env, m) for a in t[2:]]
        if o == 'imp':
            return (not vs[0]) or vs[1]
        if o in ('iff', 'eq'):
            return all(x == y for x, y in zip(vs, vs[1:]))
        if o == 'neq':
            return not all(x == y for x, y in zip(vs, vs[1:]))
    if k == 'ite':
        return interp(t[2] if interp(t[1], env, m) else t[3], env, m)
    if k == 'find':
        got = [interp(t[3], e, m) for e in assignments(t[1], env, m) if interp(t[2], e, m)]
        if not got:
            return interp(t[4], env, m)
        if any(x != got[0] for x in got):
            # several answers are possible; any of them is a legitimate execution
            m.ambiguous = True
        return got[0]
    if k == 'ex':
        return any(interp(t[2], e, m) for e in assignments(t[1], env, m))
    if k == 'all':
        return all(interp(t[2], e, m) for e in assignments(t[1], env, m))
    if k == 'let':
        e = dict(env)
        e[t[1]] = interp(t[3], env, m)
        return interp(t[4], e, m)
    if k == 'mac':
        ps, body = m.p.macros[t[1]]
        return interp(body, {p[0]: interp(a, env, m) for p, a in zip(ps, t[2:])}, m)
    if k in ('msg!', 'cond!'):
        d = m.p.steps[t[1]]
        args = [interp(a, env, m) for a in t[2:]]
        e = {p[0]: a for p, a in zip(d['params'], args)}
        e['in'] = m.sfun('input', [m.step(t[1], tuple(args))])
        return interp(d['msg' if k == 'msg!' else 'cond'], e, m)
    raise ValueError(t)


def assignments(bs, env, m):
    import itertools
    doms = []
    for v, s in bs:
        d, exact = m.dom(s)
        if not exact:
            raise Stuck(s)
        doms.append(d)
    for vs in itertools.product(*doms):
        e = dict(env)
        for (v, _), x in zip(bs, vs):
            e[v] = x
        yield e


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for a in t[1:]:
            if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in (
                    'v', 'f', 'st', 'pred', 'sfun', 'cell', 'op', 'ite', 'find', 'ex', 'all', 'let', 'mac', 'msg!', 'cond!', 'in'):
                yield from subterms(a)
