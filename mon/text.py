"""Rewriting the text of a protocol without changing what it says."""
import re

TOKEN = re.compile(r"[^\W\d_][\w'-]*!?|_[^\W\d_][\w'-]*|<=>|<->|<-|->|===|==|!=|<>|<=|>=|=>|&&|\|\||\s+|.", re.S)
KEY = set('''type fun cell step assert query lemma order assert-crypto let in if then else try find such that forall exists
true false not happens lt leq gt pred input msg cond exec init Message Condition Bool Name Step empty euf-cma int-ctxt nonce
memory_cell unfolding hmac direct recursive guard msg! cond! True'''.split())
IDENT = re.compile(r"_?[^\W\d_][\w'-]*!?$")


def tokens(text):
    return TOKEN.findall(text)


def identifiers(text):
    out = []
    for t in tokens(text):
        if IDENT.match(t) and t not in KEY:
            t = t.rstrip('!').lstrip('_')
            if t not in out:
                out.append(t)
    return out


def rename(text, m):
    o = []
    for t in tokens(text):
        if IDENT.match(t) and t not in KEY:
            a = '_' if t[0] == '_' else ''
            b = '!' if t[-1] == '!' else ''
            c = t.lstrip('_').rstrip('!')
            t = a + m.get(c, c) + b
        o.append(t)
    return ''.join(o)


NOISE = [' ', '  ', '\n', '\r\n', '\t', ' /* c */ ', ' /* step A { true } */ ', '\n(* fun x: Message *)\n', ' /**/ ', '\n\n', ' (* * ( *) ',
         ' /* a * b / c */ ', '/***/', '(***)', ' (* (* *) ', ' /* /* (* *) */ ', ' /* " \' ; { */ ', '(* λ → */ *)']


def layout(text, r, p=0.3):
    out = []
    for t in tokens(text):
        if t.isspace():
            t = ''.join(r.choice(NOISE) for _ in range(r.choice([1, 1, 2]))) if r.random() < 0.7 else t
            if not t:
                t = ' '
            out.append(t)
        else:
            if out and not out[-1].isspace() and r.random() < p:
                out.append(r.choice(NOISE))
            out.append(t)
    return ''.join(out)


# ---- another way to write the same protocol (from the syntax tree)
class Printer:
    """prints a Proto with other spellings, other bound variables, another order of declarations"""
    def __init__(self, r, spell=True, alpha=True, shuffle=True):
        self.r, self.spell, self.alpha, self.shuffle = r, spell, alpha, shuffle
        self.n = 0

    def pick(self, *a):
        return self.r.choice(a) if self.spell else a[0]

    def app(self, f, args, env):
        if not args:
            return f + self.pick('', '', '()', '[]')
        o, c = self.pick('()', '()', '[]')
        return f + o + ', '.join(self.t(x, env) for x in args) + self.pick('', '', ',') * 0 + c

    def bind(self, bs, env, body):
        """new names for the variables bs, never capturing a variable used in body"""
        new, out = dict(env), []
        used = {env.get(v, v) for v in frees(body) if v not in {b for b, _ in bs}}
        for v, s in bs:
            if self.alpha:
                while True:
                    x = self.r.choice(['v%d' % self.n, 'x', 'y', "x'", '_u', 'i', 's', 'k2'])
                    self.n += 1
                    if x not in used and x not in [o[0] for o in out] and x not in self.taken:
                        break
            else:
                x = v
            new[v] = x
            out.append((x, s))
        return ', '.join('%s%s%s' % (x, self.pick(':', ': ', ' : '), s) for x, s in out), new

    def t(self, t, env):
        from . import proto
        k = t[0]
        if k == 'v':
            return env.get(t[1], t[1])
        if k == 'in':
            return 'in'
        if k in ('f', 'st', 'sfun', 'cell'):
            return self.app(t[1], t[2:], env)
        if k == 'pred':
            return 'pred(%s)' % self.t(t[1], env)
        if k == 'op':
            if t[1] in ('true', 'false'):
                return t[1]
            if t[1] == 'not':
                return self.app('not', t[2:], env)
            op = self.pick('!=', '<>') if t[1] == 'neq' else proto.OPS[t[1]]
            return '(%s)' % (self.pick(' %s ', '%s' if op != '!=' else ' %s', '\n%s ') % op).join(self.t(x, env) for x in t[2:])
        if k == 'ite':
            return 'if %s { %s } else { %s }' % tuple(self.t(x, env) for x in t[1:])
        if k == 'find':
            b, e = self.bind(t[1], env, ('list', t[2], t[3]))
            return 'try find (%s) such that { %s } then { %s } else { %s }' % (
                b, self.t(t[2], e), self.t(t[3], e), self.t(t[4], env))
        if k in ('ex', 'all'):
            b, e = self.bind(t[1], env, t[2])
            q = self.pick('exists', '∃') if k == 'ex' else self.pick('forall', '∀')
            return '%s (%s) { %s }' % (q, b, self.t(t[2], e))
        if k == 'let':
            b, e = self.bind([(t[1], t[2])], env, ('list', t[4]))
            return 'let %s = %s in %s' % (b, self.t(t[3], env), self.t(t[4], e))
        if k == 'mac':
            return '%s!(%s)' % (t[1], ', '.join(self.t(x, env) for x in t[2:]))
        if k in ('msg!', 'cond!'):
            return '%s(%s)' % (k, self.app(t[1], t[2:], env))
        raise ValueError(t)

    def decl(self, f, a, r, kw):
        return '%s %s%s: %s' % (kw, f, '(%s)' % ', '.join(a) if a else self.pick('', '()'), r)

    def text(self, p):
        self.taken = set(p.funs) | set(p.names) | set(p.cells) | set(p.steps)
        types = ['type %s' % t for t in p.types]
        funs = [self.decl(f, a, r, 'fun') for f, (a, r) in p.funs.items()]
        funs += [self.decl(f, a, 'Name', 'fun') for f, a in p.names.items()]
        funs += [self.decl(f, a, 'Message', 'cell') for f, a in p.cells.items()]
        mac, st = [], []
        for m, (ps, b) in p.macros.items():
            bs, e = self.bind(ps, {}, b)
            mac.append('let %s!(%s) = %s' % (m, bs, self.t(b, e)))
        for s, d in p.steps.items():
            body = ('list', d['cond'], d['msg'], *[('list', *a, ('list', t)) for _, _, a, t in d['assigns']])
            bs, e = self.bind(d['params'], {}, body)
            x = 'step %s%s\n  { %s }\n  { %s }' % (
                s, '(%s)' % bs if d['params'] or s != 'init' else self.pick('', '()'), self.t(d['cond'], e), self.t(d['msg'], e))
            if d['assigns']:
                o = []
                for c, fr, a, t in d['assigns']:
                    b2, e2 = self.bind(fr, e, ('list', *a, t))
                    o.append('%s%s <- %s' % ('(%s) ' % b2 if fr else '', self.app(c, a, e2), self.t(t, e2)))
                x += '\n { %s%s }' % (', '.join(o), self.pick('', ','))
            st.append(x)
        rest = []
        for d in p.orders:
            bs, e = self.bind(d['vars'], {}, ('list', d['a'], d['b'], *([d['guard']] if d.get('guard') else [])))
            a, op, b = self.t(d['a'], e), d['op'], self.t(d['b'], e)
            if op in ('<', '>') and self.pick(0, 1):
                a, op, b = b, {'<': '>', '>': '<'}[op], a
            if op == '<>' and self.pick(0, 1):
                a, b = b, a
            body = '%s %s %s' % (a, op, b)
            if d.get('guard'):
                body = '%s => %s' % (self.t(d['guard'], e), body)
            q = d['q'] if d['q'] not in ('forall', 'exists') else self.pick(*({'forall': 'forall∀', 'exists': 'exists∃'}[d['q']][:-1], {'forall': '∀', 'exists': '∃'}[d['q']]))
            rest.append(('order %s (%s) { %s }' if self.pick(0, 1) else 'order %s (%s) %s') % (q, bs, body))
        for a in p.asserts:
            rest.append('assert ' + self.t(a, {}))
        lem = ['lemma ' + self.t(a, {}) for a in p.lemmas]
        qu = ['query ' + self.t(p.query, {})]
        cr = [x.rstrip().rstrip(';') for x in p.crypto]
        if self.shuffle:
            for x in (types, funs, mac, st, rest, cr):
                self.r.shuffle(x)
            groups = [types, funs, mac, st, rest, lem, qu, cr]
            self.r.shuffle(groups)
            if self.r.random() < 0.5:       # interleave, keeping the lemmas' order
                flat = [x for g in groups for x in g if g is not lem]
                self.r.shuffle(flat)
                k = sorted(self.r.randint(0, len(flat)) for _ in lem)
                for i, x in reversed(list(zip(k, lem))):
                    flat.insert(i, x)
            else:
                flat = [x for g in groups for x in g]
        else:
            flat = types + funs + mac + st + rest + lem + qu + cr
        return '\n'.join(x + self.end(x) for x in flat) + '\n'

    def end(self, x):
        if x.startswith('assert-crypto') and not x.rstrip().endswith(']'):
            return ';'
        return self.pick('', ';')


def frees(t):
    """names of variables occurring in t (bound ones too: only used to avoid capture)"""
    if isinstance(t, (tuple, list)):
        if t and t[0] == 'v':
            return {t[1]}
        o = set()
        for x in t:
            o |= frees(x)
        return o
    return set()


def subst(t, env, n):
    """capture-free substitution: binders are renamed apart"""
    if not isinstance(t, tuple):
        return t
    k = t[0]
    if k == 'v':
        return env.get(t[1], t)
    if k in ('ex', 'all'):
        bs, e = fresh(t[1], env, n)
        return (k, bs, subst(t[2], e, n))
    if k == 'find':
        bs, e = fresh(t[1], env, n)
        return (k, bs, subst(t[2], e, n), subst(t[3], e, n), subst(t[4], env, n))
    if k == 'let':
        bs, e = fresh([(t[1], t[2])], env, n)
        return (k, bs[0][0], t[2], subst(t[3], env, n), subst(t[4], e, n))
    return (k,) + tuple(subst(x, env, n) if isinstance(x, tuple) else x for x in t[1:])


def fresh(bs, env, n):
    e, out = dict(env), []
    for v, s in bs:
        n[0] += 1
        x = '%s_%d' % (v, n[0])
        e[v] = ('v', x)
        out.append((x, s))
    return out, e


def inline_t(t, macros, n, lets):
    if not isinstance(t, tuple):
        return t
    if t[0] == 'mac':
        ps, b = macros[t[1]]
        args = [inline_t(x, macros, n, lets) for x in t[2:]]
        return subst(inline_t(b, macros, n, lets), {v: a for (v, _), a in zip(ps, args)}, n)
    if t[0] == 'let' and lets:
        return subst(inline_t(t[4], macros, n, lets), {t[1]: inline_t(t[3], macros, n, lets)}, n)
    return (t[0],) + tuple(inline_t(x, macros, n, lets) if isinstance(x, tuple) else x for x in t[1:])


def inline(p, macros=True, lets=True):
    """the protocol with its macros (and lets) written out"""
    import copy
    n = [0]
    q = copy.deepcopy(p)

    def g(t):
        return inline_t(t, p.macros, n, lets)
    for d in q.steps.values():
        d['cond'], d['msg'] = g(d['cond']), g(d['msg'])
        d['assigns'] = [(c, fr, type(a)(g(x) for x in a), g(t)) for c, fr, a, t in d['assigns']]
    q.macros = {}
    q.asserts = [g(x) for x in p.asserts]
    q.lemmas = [g(x) for x in p.lemmas]
    q.query = g(p.query)
    return q
