"""C24: a Squirrel dump is translated to the problem of the protocol it describes.

A random protocol is written twice: as the JSON Squirrel would send (written from
the format of the dumps and Squirrel's own semantics), once with several systems,
tuples, projections, global macros and a control flow, and, by an elaboration of
our own, as one plain protocol per system. The problems must be the same."""
import base64
import copy
import json
import os

from . import canon, cv, eng, gen, smt, text
from .proto import show

M, C = 'Message', 'Condition'
UNIVERSAL = {'empty', 'fst', 'snd', 'pair', 'fail'}
OPN = {'and': '&&', 'or': '||', 'imp': '=>', 'iff': '<=>', 'eq': '=', 'neq': '<>', 'not': 'not', 'true': 'true', 'false': 'false'}
IDS = {}


def path(s, ns=()):
    return {'npath': {'npath': list(ns), 'id': len(ns)}, 'symb': s, 'id': IDS.setdefault((s, ns), len(IDS))}


def safe(n, kind='fun_'):
    """the name the tool gives"""
    if all(c.isalnum() for c in n):
        return kind + n
    return kind + '_base64_' + base64.b64encode(n.encode(), b'#$').decode().rstrip('=')


class Dump:
    def __init__(self, r, p):
        self.r, self.p = r, p
        self.ntag = 10
        self.names = {}          # ours -> squirrel's
        self.back = {}

    # ---- names
    def baptise(self):
        r, p = self.r, self.p
        used = set()

        def pick(old, used):
            while True:
                x = r.choice([old, old, old, 'f', 'x', 'y1', 'ident', 'h', 'T', 'to_T', "m'", 'a_b', 'kR', 'A', 'B1', 'Reader', 'é', 'cell', 'step', 'var', 'fun', 'step_A', 'let', 'forall', 'assert', 'Message', 'lt', 'msg', 'xor', 'and1']) + \
                    r.choice(['', '', '1', '_2', "'"])
                if x in used or '$' in safe(x) or x in UNIVERSAL or x in ('input', 'cond', 'output', 'exec', 'init', 'not', 'true', 'false', 'happens', 'pred', 'if', 'or', 'and', 'diff'):
                    continue
                used.add(x)
                return x
        for f in p.funs:
            if f in UNIVERSAL:
                self.names['f', f] = f
                continue
            self.names['f', f] = x = pick(f, used)
            self.back[safe(x)] = f
        for f in list(p.cells) + list(self.gms) + list(self.defs):
            self.names['f', f] = x = pick(f, used)
            self.back[safe(x)] = f
        used = set()
        for f in p.names:
            self.names['n', f] = x = pick(f, used)
            self.back[safe(x, 'name_')] = f
        used = set()
        for f in p.steps:
            if f != 'init':
                self.names['s', f] = x = pick(f, used)
                self.back[safe(x, 'step_')] = f
        used = {'index'}
        for f in p.types:
            if f != 'index':
                self.names['t', f] = x = pick(f, used)
                self.back[safe(x, 'sort_')] = f

    # ---- types and terms
    def ty(self, s):
        if s in (M,):
            return 'Message' if self.r.random() < 0.7 else {'TBase': path('message_t')}
        if s in ('Bool', C):
            return 'Boolean'
        if s == 'Step':
            return 'Timestamp'
        if s == 'index':
            return 'Index'
        return {'TBase': path(self.names['t', s])}

    def var(self, x):
        s, n, tag = x
        return {'id': {'name': n, 'tag': tag}, 'ty': self.ty(s)}

    def bind(self, env, bs, names=None):
        """Squirrel's variables are told apart by their tags only"""
        env = dict(env)
        for v, s in bs:
            self.ntag += self.r.choice([1, 1, 7])
            n = v if self.r.random() < 0.6 else self.r.choice(["i", "j", "x", "x'", 'k1', 'k', 'i1', 'var'])
            env[v] = (s, names[v] if names and v in names else n, self.ntag)
        return env

    def fun(self, f, args, tupled=False):
        if not args:
            return {'Fun': {'symb': path(f)}}
        return {'App': {'f': {'Fun': {'symb': path(f)}}, 'args': [{'Tuple': {'elements': args}}] if tupled else args}}

    def macro(self, f, args, ts):
        return {'Macro': {'symb': {'s_symb': path(f), 's_typ': 'Message'}, 'args': args, 'timestamp': ts}}

    def t(self, t, env, me=None):
        """env: variable -> sort"""
        k = t[0]
        if k == 'v':
            return {'Var': self.var(env[t[1]])}
        if k == 'in':
            return self.macro('input', [], me)
        if k == 'f':
            a = [self.t(x, env, me) for x in t[2:]]
            if t[1] in self.p.names:
                if t[1] in self.tupled and a:
                    a = [{'Tuple': {'elements': a}}]
                return {'Name': {'symb': {'s_symb': path(self.names['n', t[1]]), 's_typ': 'Message'}, 'args': a}}
            if t[1] == 'checksign':
                a = [a[1], a[0]] + a[2:]
            return self.fun(self.names.get(('f', t[1]), t[1]), a, t[1] in self.tupled)
        if k == 'st':
            a = [self.t(x, env, me) for x in t[2:]]
            return {'Action': {'symb': path('init' if t[1] == 'init' else self.names['s', t[1]]), 'args': a}}
        if k == 'pred':
            return self.fun('pred', [self.t(t[1], env, me)])
        if k == 'sfun':
            a = [self.t(x, env, me) for x in t[2:]]
            if t[1] in ('input', 'exec', 'msg', 'cond'):
                return self.macro({'msg': 'output'}.get(t[1], t[1]), [], a[0])
            return self.fun({'lt': '<', 'leq': '<=', 'gt': '>'}.get(t[1], t[1]), a)
        if k == 'cell':
            a = [self.t(x, env, me) for x in t[2:]]
            return self.macro(self.names['f', t[1]], a[:-1], a[-1])
        if k == 'gm':
            a = [self.t(x, env, me) for x in t[2:]]
            return self.macro(self.names['f', t[1]], a[:-1], a[-1])
        if k == 'def':
            a = [self.t(x, env, me) for x in t[2:]]
            return self.fun(self.names['f', t[1]], a, t[1] in self.tupled)
        if k == 'op':
            a = [self.t(x, env, me) for x in t[2:]]
            n = OPN[t[1]]
            if n in ('&&', '||') and self.r.random() < 0.1:
                n = {'&&': 'and', '||': 'or'}[n]
            return self.fun(n, a)
        if k == 'ite':
            return self.fun('if', [self.t(x, env, me) for x in t[1:]])
        if k in ('find', 'ex', 'all'):
            e = self.bind(env, t[1])
            vs = [{'Var': self.var(e[v])} for v, s in t[1]]
            if k == 'find':
                return {'Find': {'vars': vs, 'condition': self.t(t[2], e, me), 'success': self.t(t[3], e, me), 'faillure': self.t(t[4], env, me)}}
            return {'Quant': {'quantificator': 'Exists' if k == 'ex' else 'ForAll', 'vars': vs, 'body': self.t(t[2], e, me)}}
        if k == 'tup':
            return {'Tuple': {'elements': [self.t(x, env, me) for x in t[1:]]}}
        if k == 'proj':
            return {'Proj': {'id': t[1], 'body': self.t(t[2], env, me)}}
        if k == 'diff':
            ts = [{'proj': n, 'term': self.t(x, env, me)} for n, x in zip(self.sides, t[1:])]
            self.r.shuffle(ts)
            return {'Diff': {'terms': ts}}
        raise ValueError(t)

    # ---- the whole dump
    def act(self, s, env):
        return [{'par_choice': [a, [self.var(env[v]) for v, x in vs]], 'sum_choice': [b, [self.var(env[v]) for v, x in ws]]}
                for a, vs, b, ws in self.acts[s]]

    def dump(self):
        r, p = self.r, self.p
        ops = []

        def op(n, args, out, d='Prefix', assoc=(), poly=False):
            d = {'Abstract': d} if d in ('Prefix',) or isinstance(d, dict) else d
            ops.append({'symb': path(n), 'data': {'type': {'vars': [{'name': 'a', 'tag': 3}] if poly else [], 'args': args, 'out': out},
                                                  'def': {'abstract_def': d, 'associated_fun': [path(x) for x in assoc]}}})
        inf = {'Infix': 'Right'}
        for n in ('&&', '||', '=>', '<=>'):
            op(n, ['Boolean', 'Boolean'], 'Boolean', inf)
        op('not', ['Boolean'], 'Boolean')
        op('true', [], 'Boolean')
        op('false', [], 'Boolean')
        tv = {'TVar': {'name': 'a', 'tag': 3}}
        for n in ('=', '<>', '<=', '<', '>', '>='):
            op(n, [tv, tv], 'Boolean', inf, poly=True)
        op('if', ['Boolean', tv, tv], tv, poly=True)
        op('diff', [tv, tv], tv, poly=True)
        op('happens', ['Timestamp'], 'Boolean')
        op('pred', ['Timestamp'], 'Timestamp')
        op('empty', [], 'Message')
        op('fail', [], 'Message')
        op('pair', ['Message', 'Message'], 'Message')
        op('fst', ['Message'], 'Message')
        op('snd', ['Message'], 'Message')
        op('att', ['Message'], 'Message')
        N = lambda f: self.names['f', f]
        for f, (a, o) in p.funs.items():
            if f in UNIVERSAL or f == 'verify' or f == 'att':
                continue
            d, assoc = 'Prefix', ()
            if f == 'hash':
                d = 'Hash'
            elif f == 'sign':
                d = 'Sign'
            elif f == 'pk':
                d = 'PublicKey'
            elif f == 'enc':
                d, assoc = 'SEnc', (N('dec'),)
            elif f == 'dec':
                d, assoc = 'SDec', (N('enc'),)
            elif f == 'checksign':
                d, assoc = 'CheckSign', (N('sign'), N('pk'))
            args = [self.ty(x) for x in a]
            if f in self.tupled and args:
                args = [{'Tuple': {'elements': args}}]
            op(N(f), args, self.ty(o), d, assoc)
        for d, (args, body) in self.defs.items():
            env = self.bind({}, [(v, M) for v in args])
            ops.append({'symb': path(N(d)), 'data': {'type': {'vars': [], 'args': ['Message' for _ in args], 'out': 'Message'}, 'def': {
                'name': N(d), 'type_variables': [], 'args': [self.var(env[v]) for v in args], 'out_type': 'Message', 'body': self.t(body, env)}}})
        macs = [{'symb': path('output'), 'data': {'General': 'Output'}}, {'symb': path('cond'), 'data': {'General': 'Cond'}}]
        for n, ty, wit in (('input', 'Message', 'empty'), ('exec', 'Boolean', 'true')):
            macs.append({'symb': path(n), 'data': {'General': {'name': path(n), 'default': self.fun(wit, []), 'tinit': self.fun(wit, []), 'body': {
                'var': {'id': {'name': 'τ', 'tag': 16}, 'ty': 'Timestamp'}, 'body': self.fun(wit, [])}, 'rec_ty': 'Timestamp', 'ty': ty}}})
        for c, a in p.cells.items():
            macs.append({'symb': path(N(c)), 'data': {'State': {'arity': len(a), 'type': self.ty(M), 'init': {
                'vars': [self.var((s, 'i', 900000 + k)) for k, s in enumerate(a)], 'init': self.fun('empty', [])}}}})
        for g, d in self.gms.items():
            env = self.bind({}, list(p.steps[d['step']]['params']) + [('τ', 'Step')])
            for v in d['inputs']:
                if v:
                    env[v] = (M,) + self.intags[v]
            macs.append({'symb': path(N(g)), 'data': {'Global': {'arity': len(d['indices']), 'type': 'Message', 'data': {
                'action': {'kind': 'Strict', 'shape': [{'par_choice': [x['par_choice'][0], len(x['par_choice'][1])], 'sum_choice': [
                    x['sum_choice'][0], len(x['sum_choice'][1])]} for x in self.act(d['step'], env)]},
                'inputs': [self.var(env[v]) if v else {'id': {'name': '$dummy', 'tag': 136}, 'ty': 'Message'} for v in reversed(d['inputs'])],
                'indices': [self.var(env[v]) for v, s in d['indices']],
                'ts': self.var(env['τ']), 'ty': 'Message', 'body': self.t(d['body'], env)}}}})
        actions = []
        for s, d in p.steps.items():
            env = self.bind({}, d['params'])
            me = self.t(self.inst(s), env)
            ups = []
            for c, fr, a, t in d['assigns']:
                e = self.bind(env, fr)
                ups.append({'symb': path(N(c)), 'args': [self.t(x, e, me) for x in a], 'body': self.t(t, e, me)})
            actions.append({'name': path('init' if s == 'init' else self.names['s', s]), 'action': self.act(s, env), 'input': path('c'),
                            'indices': [self.var(env[v]) for v, x in d['params']],
                            'condition': {'vars': [], 'term': self.t(d['cond'], env, me)}, 'updates': ups,
                            'output': {'channel': path('c'), 'term': self.t(d['msg'], env, me)},
                            'globals': [path(N(g)) for g in self.uses.get(s, [])]})
        names = []
        for n, a in p.names.items():
            args = [self.ty(x) for x in a]
            if n in self.tupled and args:
                args = [{'Tuple': {'elements': args}}]
            names.append({'symb': path(self.names['n', n]), 'data': {'vars': [], 'args': args, 'out': 'Message'}})
        types = [{'symb': path('message_t'), 'data': r.choice([[], ['Large'], ['Large', 'Fixed'], ['Finite'], ['Fixed', 'NameFixedLength', 'WellFounded'], ['Finite', 'Large']])}]
        for s in p.types:
            if s != 'index':
                types.append({'symb': path(self.names['t', s]), 'data': r.choice([['Enum'], ['Finite', 'Fixed'], ['Fixed', 'Finite'], ['Fixed', 'WellFounded', 'Finite'], ['Fixed', 'Enum'], ['Fixed', 'Finite', 'Enum']])})
        qv, qb = ((), p.query) if p.query[0] != 'all' else p.query[1:]
        env = self.bind({}, qv)
        for l in (ops, macs, actions, names, types):
            r.shuffle(l)
        return {'parameters': {'num_retry': 5, 'timeout': 1.0}, 'context': {
            'query': self.t(qb, env), 'hypotheses': [self.t(h, env) for h in self.hyps],
            'variables': [self.var(env[v]) for v, s in qv], 'actions': actions, 'names': names, 'operators': ops, 'macros': macs, 'types': types}}


# ---- the protocol, and what was added to it
def plain(t, hashed):
    """terms of the language that Squirrel does not have"""
    if not isinstance(t, tuple):
        return t
    t = (t[0],) + tuple(plain(x, hashed) if isinstance(x, tuple) else x for x in t[1:])
    if t[0] in ('msg!', 'cond!'):
        return ('sfun', t[0][:-1], ('st',) + t[1:])
    if t[0] == 'op' and t[1] in ('eq', 'neq', 'and', 'or') and len(t) > 4:
        if t[1] in ('eq', 'neq'):
            return t[:4]
        x = t[2]
        for y in t[3:]:
            x = ('op', t[1], x, y)
        return x
    if t[0] == 'f' and t[1] == 'verify':
        return ('op', 'eq', ('f', 'hash', t[3], t[4]), t[2]) if len(t) == 5 else t
    return t


class World(Dump):
    def build(self):
        r, p = self.r, self.p
        p.asserts, p.lemmas, p.orders = [], [], []
        self.tupled = {f for f in list(p.funs) + list(p.names) if r.random() < 0.25}
        # a two-element tuple type with a single literal tuple argument stands for the arguments
        self.tupled = {f for f in self.tupled if len((p.funs[f][0] if f in p.funs else p.names[f])) > 1}
        self.sides = r.choice([['left', 'right'], ['a', 'b'], ['real', 'ideal'], ['s1', 's2', 's3']]) if r.random() < 0.5 else ['only']
        if 'init' not in p.steps:
            p.steps['init'] = dict(params=[], cond=('op', 'true'), msg=('f', 'empty'), assigns=[])
        n = [0]
        for s, d in p.steps.items():
            # the input is written input(A(i)): no binder may take the i
            ren = {v: ('v', 'p%d' % k) for k, (v, _) in enumerate(d['params'])}
            d['params'] = [('p%d' % k, x) for k, (_, x) in enumerate(d['params'])]
            d['cond'], d['msg'] = text.subst(d['cond'], ren, n), text.subst(d['msg'], ren, n)
            d['assigns'] = [(c, fr, [text.subst(x, {k: v for k, v in ren.items() if k not in dict(fr)}, n) for x in a],
                             text.subst(t, {k: v for k, v in ren.items() if k not in dict(fr)}, n)) for c, fr, a, t in d['assigns']]
        self.control()
        self.gms, self.uses, self.intags = {}, {}, {}
        self.definitions()
        for s, d in p.steps.items():
            d['cond'], d['msg'] = self.spice(d['cond'], 0.1), self.spice(d['msg'], 0.2)
            d['assigns'] = [(c, fr, a, self.spice(t, 0.1)) for c, fr, a, t in d['assigns']]
        p.query = self.spice(p.query, 0.05)
        for s in list(p.steps):
            if s != 'init' and r.random() < 0.35:
                self.globals(s)
        self.hyps = [self.spice(plain(gen_formula(p, r, p.query), None), 0.05) for _ in range(r.choice([0, 0, 1, 2]))]
        self.baptise()
        return self

    def control(self):
        """a tree of actions; the indices of an action extend those of the one it comes after"""
        r, p = self.r, self.p
        self.acts, self.pre = {'init': []}, {'init': []}
        kids = {}
        for s, d in p.steps.items():
            if s == 'init':
                continue
            ps = d['params']
            mode = r.random()
            after = [t for t in self.acts if t != 'init' and self.flat(self.acts[t]) == ps[:len(p.steps[t]['params'])]]
            beside = [t for t in self.acts if t != 'init' and self.flat(self.acts[t], 1) == ps[:len(self.flat(self.acts[t], 1))]]
            if beside and 0.35 < mode < 0.7:
                # another branch at the place of t
                t = r.choice(beside)
                base, (a, vs, _, _) = self.acts[t][:-1], self.acts[t][-1]
                rest = ps[len(self.flat(self.acts[t], 1)):]
                m = 1 + max(x[len(base)][2] for x in self.acts.values() if x[:len(base)] == base and len(x) > len(base) and x[len(base)][:2] == (a, vs))
                self.acts[s] = base + [(a, vs, m, list(rest))]
                self.pre[s] = self.pre[t][:-1] + [s]
                continue
            if after and mode <= 0.35:
                t = r.choice(after)
                base, rest = self.acts[t], ps[len(p.steps[t]['params']):]
                self.pre[s] = self.pre[t] + [s]
            else:
                t, base, rest = None, [], ps
                self.pre[s] = [s]
            n = kids[t] = kids.get(t, -1) + 1
            k = r.randint(0, len(rest))
            self.acts[s] = base + [(n, list(rest[:k]), 0, list(rest[k:]))]

    def flat(self, act, short=0):
        """the indices of an action (without those of its last choice)"""
        return [v for it in act for v in it[1] + it[3]] if not short else self.flat(act[:-1]) + act[-1][1]

    def orders(self):
        """from Squirrel: an action comes after those it extends, and excludes the other branches"""
        out = []
        ss = [s for s in self.p.steps if s != 'init']
        for i, s in enumerate(ss):
            for t in ss[i + 1:]:
                a, b = self.acts[s], self.acts[t]
                if len(a) > len(b):
                    s2, t2, a, b = t, s, b, a
                else:
                    s2, t2 = s, t
                if b[:len(a)] == a and len(a) < len(b):
                    ps = self.p.steps[t2]['params']
                    out.append(dict(q='forall', vars=tuple(ps), a=self.inst(s2), op='<', b=self.inst(t2)))
                    continue
                shared = 0
                for x, y in zip(a, b):
                    if x == y:
                        shared += len(x[1]) + len(x[3])
                        continue
                    if x[:2] == y[:2] and x[2] != y[2]:
                        shared += len(x[1])
                        ps, qs = self.p.steps[s2]['params'], self.p.steps[t2]['params']
                        qs = ps[:shared] + [(v + '_z', z) for v, z in qs[shared:]]
                        out.append(dict(q='forall', vars=tuple(ps) + tuple(qs[shared:]), a=self.inst(s2), op='<>',
                                        b=('st', t2) + tuple(('v', v) for v, _ in qs)))
                    break
        return out

    def inst(self, s):
        return ('st', s) + tuple(('v', v) for v, _ in self.p.steps[s]['params'])

    def spice(self, t, q):
        """tuples, projections, systems"""
        r, p = self.r, self.p
        if not isinstance(t, tuple):
            return t
        if t[0] in ('ex', 'all'):
            return (t[0], t[1], self.spice(t[2], q))
        if t[0] == 'find':
            return t[:2] + tuple(self.spice(x, q) for x in t[2:])
        t = (t[0],) + tuple(self.spice(x, q) if isinstance(x, tuple) else x for x in t[1:])
        ismsg = t[0] == 'f' and t[1] in p.funs and p.funs[t[1]][1] == M and t[1] not in ('pk',)
        if t[0] == 'f' and t[1] == 'tpl' and r.random() < 0.5:
            t = ('tup', t[2], t[3]) + ((r.choice([t[2], ('f', 'ok')]),) if r.random() < 0.4 else ())
        elif t[0] == 'f' and t[1] in ('sel1of2', 'sel2of2') and r.random() < 0.7:
            t = ('proj', r.choice([1, 1, 2, 3]), t[2]) if r.random() < 0.5 else ('f', {'1': 'fst', '2': 'snd'}[t[1][3]], t[2])
        if ismsg and self.defs and r.random() < 0.12:
            d = r.choice(sorted(self.defs))
            a = [r.choice([('f', 'ok'), ('f', 'ko'), t]) for _ in self.defs[d][0]]
            if a:
                a[r.randrange(len(a))] = t
                t = ('def', d) + tuple(a)
            elif r.random() < 0.3:
                t = ('tup', t, ('def', d))
        if len(self.sides) > 1 and r.random() < q:
            if ismsg:
                return ('diff', t) + tuple(r.choice([('f', 'ok'), ('f', 'ko'), ('f', 'empty'), ('tup', t, t)]) for _ in self.sides[1:])
            if t[0] == 'op' and t[1] in ('and', 'or', 'not', 'imp') and r.random() < 0.5:
                return ('diff', t) + tuple(r.choice([('op', 'true'), ('op', 'false'), ('op', 'not', t)]) for _ in self.sides[1:])
        return t

    def definitions(self):
        """operators that are given by a term, of their arguments and of the operators before them"""
        r, p = self.r, self.p
        self.defs = {}
        for k in range(r.choice([0, 0, 1, 2, 3])):
            args = ['a%d' % x for x in range(r.choice([0, 1, 2, 3]))]
            parts = [('v', x) for x in args] + [('f', r.choice(['ok', 'ko', 'empty']))] + [('f', n) for n, a in p.names.items() if not a and n not in getattr(p, 'keyset', ())][:1]
            for d, (a, _) in self.defs.items():
                parts.append(('def', d) + tuple(r.choice(parts) for _ in a))
            body = r.choice([('tup',) + tuple(r.choice(parts) for _ in range(r.choice([2, 3]))), r.choice(parts),
                             ('f', 'tpl', r.choice(parts), r.choice(parts)),
                             ('ite', ('op', 'eq', r.choice(parts), r.choice(parts)), r.choice(parts), r.choice(parts))])
            if len(self.sides) > 1 and r.random() < 0.3:
                body = ('diff', body) + tuple(r.choice(parts) for _ in self.sides[1:])
            n, a = r.choice(sorted(p.names.items()))if p.names else (None, [])
            if a and r.random() < 0.3 and n not in getattr(p, 'keyset', ()):
                # try find such that, over what the arguments do not name
                vs = tuple(('z%d' % x, t) for x, t in enumerate(a))
                body = ('find', vs, ('op', 'eq', r.choice(parts), ('f', n) + tuple(('v', v) for v, _ in vs)), body, r.choice(parts))
            self.defs['d%d' % k] = (args, body)

    def globals(self, s):
        r, p = self.r, self.p
        # let x = ... in a step of the branch of s, that remembers the inputs so far
        at = r.choice(self.pre[s])
        depth = self.pre[s].index(at) + 1
        inputs = [self.input(q) if r.random() < 0.7 else None for q in self.pre[s][:depth]]
        old = [g for t in self.pre[s] for g in self.uses.get(t, [])]
        g = 'g%d' % len(self.gms)
        ind = p.steps[at]['params']
        scope = list(ind)
        parts = [('v', v) for v in inputs if v] + [('f', 'ok')]
        for n, a in p.names.items():
            if a == [x for _, x in ind] and r.random() < 0.3 and n not in getattr(p, 'keyset', ()):
                parts.append(('f', n) + tuple(('v', v) for v, _ in ind))
        body = ('tup',) + tuple(r.choice(parts) for _ in range(r.choice([2, 3]))) if r.random() < 0.5 else ('f', 'tpl', r.choice(parts), r.choice(parts))
        if len(self.sides) > 1 and r.random() < 0.3:
            body = ('diff', body) + tuple(r.choice(parts) for _ in self.sides[1:])
        if p.cells and r.random() < 0.3:
            c = r.choice(sorted(p.cells))
            if p.cells[c] == [x for _, x in ind]:
                body = ('f', 'tpl', body, ('cell', c) + tuple(('v', v) for v, _ in ind) + (('pred', ('v', 'τ')),))
        self.gms[g] = dict(step=at, inputs=inputs, indices=list(ind), body=body)
        self.uses.setdefault(s, [])
        self.uses[s] = list(dict.fromkeys([x for x in old] + self.uses[s] + [g]))
        use = ('gm', g) + tuple(('v', v) for v, _ in ind) + (self.inst(s),)
        d = p.steps[s]
        if r.random() < 0.5:
            d['msg'] = ('f', 'tpl', d['msg'], use)
        else:
            d['cond'] = ('op', 'and', d['cond'], ('op', 'eq', use, ('f', 'ok')))

    def input(self, q):
        """the variable of the input of action q"""
        v = 'in@' + q
        if v not in self.intags:
            self.ntag += 1
            self.intags[v] = (self.r.choice(['m', "m'", 'x', 'i', q]), self.ntag)
        return v

    # ---- elaboration
    def finds(self, t):
        return isinstance(t, tuple) and (t[:1] == ('find',) or t[:1] == ('def',) and self.finds(self.defs[t[1]][1]) or any(self.finds(x) for x in t))

    def el(self, t, side, me=None):
        if not isinstance(t, tuple):
            return t
        k = t[0]
        if k == 'in':
            return ('sfun', 'input', self.inst(me))
        if k == 'diff':
            order = sorted(range(len(self.sides)), key=lambda i: self.sides[i])
            return self.el(t[1 + order[side]], side, me)
        if k in ('ex', 'all', 'find'):
            return t[:2] + tuple(self.el(x, side, me) for x in t[2:])
        if k == 'def':
            args, body = self.defs[t[1]]
            if self.finds(t):
                # the choice is a function of the arguments: a macro has the same
                return ('mac', t[1]) + tuple(self.el(x, side, me) for x in t[2:])
            return text.subst(self.el(body, side), dict(zip(args, (self.el(x, side, me) for x in t[2:]))), [0])
        if k == 'gm':
            d = self.gms[t[1]]
            env = {v: a for (v, _), a in zip(d['indices'], t[2:])}
            for n, v in enumerate(d['inputs']):
                if v:
                    env[v] = ('sfun', 'input', self.inst(self.pre[me][n]))
            env['τ'] = t[-1]
            return text.subst(self.el(d['body'], side), env, [0])
        t = (k,) + tuple(self.el(x, side, me) if isinstance(x, tuple) else x for x in t[1:])
        if k == 'tup':
            x = ('f', 'empty')
            for y in reversed(t[1:]):
                x = ('f', 'pair', y, x)
            return x
        if k == 'proj':
            x = t[2]
            for _ in range(t[1] - 1):
                x = ('f', 'snd', x)
            return ('f', 'fst', x)
        return t

    def side(self, n):
        q = copy.deepcopy(self.p)
        for s, d in q.steps.items():
            d['cond'], d['msg'] = self.el(d['cond'], n, s), self.el(d['msg'], n, s)
            d['assigns'] = [(c, fr, a, self.el(t, n, s)) for c, fr, a, t in d['assigns']]
        for f, x in (('pair', ([M, M], M)), ('fst', ([M], M)), ('snd', ([M], M)), ('fail', ([], M)), ('att', ([M], M))):
            q.funs[f] = x
        for k, f in enumerate(('fst', 'snd')):
            q.asserts.append(('all', (('x', M), ('y', M)), ('op', 'eq', ('f', f, ('f', 'pair', ('v', 'x'), ('v', 'y'))), ('v', 'xy'[k]))))
        q.macros.update({d: ([(a, M) for a in args], self.el(body, n)) for d, (args, body) in self.defs.items() if self.finds(body)})
        q.orders = self.orders()
        vs, body = ((), q.query) if q.query[0] != 'all' else q.query[1:]
        h = ('op', 'true')
        for x in self.hyps:
            h = ('op', 'and', h, self.el(x, n))
        q.query = ('all', vs, ('op', 'imp', h, self.el(body, n)))
        if not vs:
            q.query = q.query[2]
        q.crypto = ['assert-crypto nonce;', 'assert-crypto memory_cell;', 'assert-crypto unfolding;']
        if 'hash' in q.funs:
            q.crypto.append('assert-crypto euf-cma hash verify [hmac]')
        if 'sign' in q.funs:
            q.crypto.append('assert-crypto euf-cma sign checksign pk;')
        if 'enc' in q.funs:
            q.crypto.append('assert-crypto int-ctxt enc dec fail;')
        return q


def gen_formula(p, r, query):
    """a formula over the variables of the query"""
    g = gen.Gen(r)
    g.p, g.keys, g.vc = p, {}, 50
    return text.inline_t(g.cond(list(query[1]) if query[0] == 'all' else [], 2, False), p.macros, [500], True)


def make(r):
    while True:
        p = gen.Gen(r).build()
        if p.query[0] == 'ex' or True:
            break
    p = text.inline(p)
    for d in p.steps.values():
        d['cond'], d['msg'] = plain(d['cond'], None), plain(d['msg'], None)
        d['assigns'] = [(c, fr, a, plain(t, None)) for c, fr, a, t in d['assigns']]
    p.query = plain(p.query, None)
    return World(r, p).build()


def item(seed):
    acc = eng.Acc()
    r = cv.rng('squirrel', seed)
    w = make(r)
    d = json.dumps(w.dump(), ensure_ascii=r.random() < 0.5)
    fl = [f for f in eng.some_flags(r, 0.25)]
    back = dict(w.back, fun_att='att')
    if 'hash' in w.p.funs:
        back['verify_' + safe(w.names['f', 'hash'])] = 'verify'
    sides = [w.side(k).text() for k in range(len(w.sides))]
    with cv.Scratch() as s:
        f = os.path.join(s, 'in.json')
        open(f, 'w').write(d)
        o = os.path.join(s, 'out')
        x = cv.run([cv.BIN, '--input-format', 'squirrel-json'] + [y for y in fl if y not in cv.SUBFLAGS] + [f, 'to-file', '-o', o] + [y for y in fl if y in cv.SUBFLAGS])
        got = {}
        if os.path.isdir(o):
            for n in sorted(os.listdir(o)):
                got[n] = open(os.path.join(o, n)).read()
    replay = '== flags %s\n== dump\n%s\n%s' % (' '.join(fl), d, ''.join('== reference %d\n%s\n' % (k, t) for k, t in enumerate(sides)))
    same = not any(has(t, 'diff') for t in everything(w))
    n = 1 if same else len(sides)
    acc.count('systems', n)
    for k in range(n):
        e, sc0, _, err = eng.emit(sides[k], fl)
        if err:
            acc.count('reference not emitted')
            if os.environ.get('SQ_DEBUG'):
                print('REF', err[:600])
            return acc
        if x.rc != 0:
            acc.violate('a dump was refused, the protocol it describes was not (flags %s): %s' % (' '.join(fl), (x.err or x.out)[:600]), replay)
            return acc
        if sorted(got) != [str(i) for i in range(n)]:
            acc.violate('%d systems, but the problems written are %s' % (n, sorted(got)), replay)
            return acc
        try:
            sc = smt.parse(got[str(k)], eng.dialect_of(fl))
        except smt.SmtError as e:
            acc.violate('ill-formed problem: %s' % e, replay)
            return acc
        diff = canon.differ(sc0, sc, None, back)
        if diff:
            acc.violate('system %d of %d (flags %s) is not the problem of the protocol: %s' % (k, n, ' '.join(fl), diff[:900]), replay + '== emitted\n' + got[str(k)])
            return acc
        acc.ev((d, k, tuple(fl)))
    for f in ('tup', 'proj', 'diff', 'gm', 'def', 'find', 'cell'):
        if any(has(t, f) for t in everything(w)):
            acc.count('with ' + f)
    os_ = w.orders()
    acc.count('orders <', sum(o['op'] == '<' for o in os_))
    acc.count('orders <>', sum(o['op'] == '<>' for o in os_))
    acc.sample('%d system(s), steps %s, actions %s' % (n, list(w.p.steps), {s: [(a, len(v), b, len(u)) for a, v, b, u in x] for s, x in w.acts.items()}))
    return acc


def everything(w):
    for s, d in w.p.steps.items():
        yield d['cond']
        yield d['msg']
        for c, fr, a, t in d['assigns']:
            yield t
        for g in w.uses.get(s, []):
            yield w.gms[g]['body']
    yield w.p.query
    for h in w.hyps:
        yield h
    for _, body in w.defs.values():
        yield body


def has(t, k):
    return isinstance(t, tuple) and (t[:1] == (k,) or any(has(x, k) for x in t))
