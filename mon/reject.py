"""C15: ill-formed protocols are refused, with an error and without an output file."""
import os
import re
from . import cv, eng, gen, text

E, T, U = ('f', 'empty'), ('op', 'true'), ('f', "nosuch'thing")
BOOLOPS = ('and', 'or', 'not', 'imp', 'iff')


def nodes(t, path=()):
    yield path, t
    for i, x in enumerate(t):
        if isinstance(x, tuple) and i and x and isinstance(x[0], str) and not is_binders(t, i):
            yield from nodes(x, path + (i,))


def is_binders(t, i):
    return t[0] in ('ex', 'all', 'find') and i == 1


def put(t, path, new):
    if not path:
        return new
    i = path[0]
    return t[:i] + (put(t[i], path[1:], new),) + t[i + 1:]


def binders(t):
    """the variables a term binds"""
    for _, n in nodes(t):
        if n[0] in ('ex', 'all', 'find'):
            yield from n[1]
        elif n[0] == 'let':
            yield n[1], n[2]


def use(p, v, s):
    """a message that mentions the variable v of sort s"""
    v = ('v', v)
    if s == 'Message':
        return v
    if s in ('Bool', 'Condition'):
        return ('ite', v, E, E)
    for f, a in [(f, a[0]) for f, a in p.funs.items() if a[1] == 'Message'] + list(p.names.items()):
        if s in a and all(x in (s, 'Message') for x in a):
            return ('f', f, *(v if x == s else E for x in a))
    return None


def escapes(p, t):
    """variables used outside of what binds them, at all the places next to it"""
    taken = [v for d in p.steps.values() for v, _ in d['params']] + [v for d in p.steps.values() for a in d['assigns'] for v, _ in a[1]]
    names = [v for v, _ in binders(t)] + taken
    for path, n in nodes(t):
        if n[0] not in ('ex', 'all', 'find', 'let'):
            continue
        for v, s in (n[1] if n[0] != 'let' else ((n[1], n[2]),)):
            u = use(p, v, s) if names.count(v) == 1 else None
            if u is None:
                continue
            if n[0] in ('ex', 'all') or n[0] == 'let' and n[4][0] in ('op', 'ex', 'all'):
                c = ('op', 'eq', u, E)
                yield 'escaped variable', put(t, path, ('op', 'and', n, c))
                yield 'escaped variable', put(t, path, ('op', 'or', c, n))
                yield 'escaped variable', put(t, path, ('op', 'and', T, n, c))
            elif n[0] == 'find' or n[4][0] in ('f', 'find'):
                yield 'escaped variable', put(t, path, ('ite', T, n, u))
                yield 'escaped variable', put(t, path, ('ite', T, u, n))
                yield 'escaped variable', put(t, path, ('ite', ('op', 'eq', n, u), E, E))
                if n[0] == 'find':
                    yield 'escaped variable', put(t, path + (4,), u)
                else:
                    yield 'escaped variable', put(t, path + (3,), u)


def term_mutants(p, t, r):
    """(kind, term) all of them ill-sorted whatever the context"""
    yield from escapes(p, t)
    yield from term_mutants_(p, t, r)


def term_mutants_(p, t, r):
    """(kind, term) all of them ill-sorted whatever the context"""
    for path, n in nodes(t):
        k = n[0]
        if k in ('f', 'st', 'cell') and n[1] not in ('empty',):
            a = list(p.funs[n[1]][0]) if n[1] in p.funs else p.names.get(n[1])
            if k == 'st' and n[1] in p.steps:
                a = [s for _, s in p.steps[n[1]]['params']]
            if k == 'cell':
                a = p.cells.get(n[1])
            yield 'unknown function', put(t, path, n[:1] + ("nosuch'fun",) + n[2:])
            if len(n) > 2:
                yield 'argument missing', put(t, path, n[:-1])
                yield 'argument too many', put(t, path, n + (n[-1],))
            else:
                yield 'argument too many', put(t, path, n + (E,))
            for i, s in enumerate(a or ()):
                if i + 2 >= len(n):
                    break
                if s == 'Message':
                    yield 'condition as message', put(t, path + (i + 2,), T)
                elif s not in ('Bool', 'Condition', 'Step'):
                    yield 'message as index', put(t, path + (i + 2,), E)
        elif k == 'op' and n[1] in BOOLOPS:
            i = r.randrange(2, len(n))
            yield 'message as condition', put(t, path + (i,), E)
        elif k == 'op' and n[1] in ('eq', 'neq'):
            if n[2] != T:
                yield 'equation between sorts', put(t, path, n[:2] + (E, T))
        elif k == 'ite':
            yield 'message as condition', put(t, path + (1,), E)
            yield 'branches of two sorts', put(t, path, ('ite', n[1], E, T))
        elif k == 'find':
            yield 'message as condition', put(t, path + (2,), E)
            yield 'branches of two sorts', put(t, path, n[:3] + (T, E))
            yield 'unknown sort', put(t, path, (k, tuple((v, "nosuch'sort") for v, _ in n[1])) + n[2:])
            yield 'variable out of scope', put(t, path + (4,), ('v', "nosuch'var"))
        elif k in ('ex', 'all'):
            yield 'message as condition', put(t, path + (2,), E)
            yield 'unknown sort', put(t, path, (k, tuple((v, "nosuch'sort") for v, _ in n[1])) + n[2:])
        elif k == 'let':
            other = 'Bool' if n[2] == 'Message' else 'Message'
            if n[2] in ('Message', 'Bool', 'Condition'):
                yield 'let of another sort', put(t, path, (k, n[1], other) + n[3:])
            yield 'unknown sort', put(t, path, (k, n[1], "nosuch'sort") + n[3:])
        elif k == 'mac':
            yield 'unknown macro', put(t, path, (k, 'nosuch') + n[2:])
            if len(n) > 2:
                yield 'argument missing', put(t, path, n[:-1])
            yield 'argument too many', put(t, path, n + (E,))
        elif k in ('msg!', 'cond!'):
            yield 'unknown step', put(t, path, (k, "nosuch'step") + n[2:])
            yield 'argument too many', put(t, path, n + (E,))
        elif k == 'v':
            yield 'unknown variable', put(t, path, ('v', "nosuch'var"))
        elif k == 'sfun' and len(n) > 2:
            yield 'argument missing', put(t, path, n[:-1])
            yield 'message as step', put(t, path + (2,), E)


def mutants(p, r):
    """(kind, text)"""
    import copy
    o = []

    def with_(f):
        q = copy.deepcopy(p)
        f(q)
        return q.text()
    for s, d in p.steps.items():
        for f in ('cond', 'msg'):
            for k, t in term_mutants(p, d[f], r):
                o.append(('step, ' + k, (lambda s=s, f=f, t=t: with_(lambda q: q.steps[s].__setitem__(f, t)))))
        o.append(('message as condition of a step', lambda s=s: with_(lambda q: q.steps[s].__setitem__('cond', E))))
        o.append(('condition as message of a step', lambda s=s: with_(lambda q: q.steps[s].__setitem__('msg', T))))
        o.append(('parameter of unknown sort', lambda s=s: with_(lambda q: q.steps[s].__setitem__('params', q.steps[s]['params'] + [('zz', "nosuch'sort")]))))
        for f in ('cond', 'msg'):
            me = (f + '!', s, *(('v', v) for v, _ in d['params']))
            new = me if f == 'msg' else ('op', 'and', me, T)
            o.append(('%s of a step in itself' % f, lambda s=s, f=f, new=new: with_(lambda q: q.steps[s].__setitem__(f, new))))
        if d['params']:
            o.append(('shadowing, parameter twice', lambda s=s: with_(lambda q: q.steps[s].__setitem__('params', q.steps[s]['params'] + q.steps[s]['params'][:1]))))
        for i, (c, fr, a, t) in enumerate(d['assigns']):
            def asg(new, s=s, i=i):
                return lambda: with_(lambda q: q.steps[s]['assigns'].__setitem__(i, new))
            for k, t2 in term_mutants(p, t, r):
                o.append(('assignment, ' + k, asg((c, fr, a, t2))))
            o.append(('assignment of a condition', asg((c, fr, a, T))))
            o.append(('assignment to a function', asg(('ok', fr, (), t))))
            o.append(('assignment to an unknown cell', asg(("nosuch'cell", fr, a, t))))
            o.append(('assignment with too many indices', asg((c, fr, tuple(a) + (E,), t))))
            if a:
                o.append(('assignment with too few indices', asg((c, fr, tuple(a)[:-1], t))))
                o.append(('assignment at a message', asg((c, fr, (E,) + tuple(a)[1:], t))))
    for k, t in term_mutants(p, p.query, r):
        o.append(('query, ' + k, lambda t=t: with_(lambda q: setattr(q, 'query', t))))
    for i, x in enumerate(p.asserts):
        for k, t in term_mutants(p, x, r):
            o.append(('assert, ' + k, lambda t=t, i=i: with_(lambda q: q.asserts.__setitem__(i, t))))
    o.append(('query of a message', lambda: with_(lambda q: setattr(q, 'query', E))))
    o.append(('assert of a message', lambda: with_(lambda q: q.asserts.append(E))))
    o.append(('in outside a step', lambda: with_(lambda q: setattr(q, 'query', ('op', 'eq', ('in',), E)))))
    for x in ('all', 'ex'):
        o.append(('shadowing, quantifier', lambda x=x: with_(lambda q: setattr(q, 'query', (x, (('zz', 'Message'),), ('ex', (('zz', 'Message'),), T))))))
        o.append(('shadowing, function', lambda x=x: with_(lambda q: setattr(q, 'query', (x, (('ok', 'Message'),), T)))))
    o.append(('shadowing, let', lambda: with_(lambda q: setattr(q, 'query', ('all', (('zz', 'Message'),), ('let', 'zz', 'Message', E, T))))))

    base = p.text()

    def add(line):
        return lambda: base + line + '\n'
    t0 = p.types[0]
    for kind, line in [
            ('sort twice', 'type %s;' % t0), ('function twice', 'fun ok: Message;'),
            ('function twice', 'fun tpl(Message): Message;'), ('function of unknown sort', "fun new1(nosuch): Message;"),
            ('function to an unknown sort', 'fun new2(Message): nosuch;'), ('name of unknown sort', 'fun new3(nosuch): Name;'),
            ('cell of unknown sort', 'cell new4(nosuch): Message;'), ('function and cell', 'cell ok: Message;'),
            ('function and step', 'step ok { true } { empty }'), ('step twice', 'step %s { true } { empty }' % [s for s in p.steps if s != 'init'][0]),
            ('unknown assumption', "assert-crypto nosuch;"), ('assumption on an unknown function', 'assert-crypto euf-cma nosuch nosuch2;'),
            ('assumption with too many functions', 'assert-crypto nonce ok;'), ('assumption with too many functions', 'assert-crypto memory_cell ok ok;'),
            ('assumption with no function', 'assert-crypto euf-cma;'), ('assumption with no function', 'assert-crypto int-ctxt;'),
            ('assumption with functions of the wrong type', 'assert-crypto euf-cma ok ok;'),
            ('assumption with functions of the wrong type', 'assert-crypto int-ctxt sel1of2 tpl ok;'),
            ('assumption with functions of the wrong type', 'assert-crypto euf-cma tpl tpl tpl;'),
            ('order between messages', 'order forall (i:%s) { empty < empty }' % t0),
            ('order with an unknown step', "order forall (i:%s) { nosuch(i) < init }" % t0),
            ('order with an unknown sort', "order forall (i:nosuch) { init < init }"),
            ('query of an unknown sort', 'assert forall (x:nosuch) { true }'),
            ('lemma of a message', 'lemma empty'), ('lemma with an unknown function', "lemma nosuch(empty)"),
            ('no such item', 'nosuch item'), ('unclosed comment', '/* '), ('unclosed comment', '(* '),
            ('a macro twice', 'let mm!(x: Message) = x\nlet mm!(x: Message) = x'),
            ('a macro in itself', 'let mm!(x: Message) = mm!(x)\nassert (mm!(empty) == empty)'),
            ('two macros in each other', 'let mm!(x: Message) = mn!(x)\nlet mn!(y: Message) = mm!(empty)\nassert (mm!(empty) == empty)'),
            ('a macro in its own condition', 'let mm!(x: Message) = if mm!(x) == empty then x else empty\nassert forall (z: Message) {mm!(z) == empty}'),
            ('a macro with an unknown sort', 'let mm!(x: nosuch) = empty\nassert (mm!(empty) == empty)')]:
        o.append((kind, add(line)))
    toks = text.tokens(base)
    br = [i for i, x in enumerate(toks) if x in ('(', ')', '{', '}')]
    for i in r.sample(br, min(4, len(br))):
        o.append(('bracket missing', lambda i=i: ''.join(toks[:i] + toks[i + 1:])))
        o.append(('bracket too many', lambda i=i: ''.join(toks[:i] + [toks[i], toks[i]] + toks[i + 1:])))
    return o


def judge(u, fl):
    """None, or what is wrong with how the tool took an ill-formed protocol"""
    with cv.Scratch() as d:
        f, out = os.path.join(d, 'p.ptcl'), os.path.join(d, 'o.smt')
        with open(f, 'w') as h:
            h.write(u)
        sub = [x for x in fl if x in cv.SUBFLAGS]
        o = cv.run([cv.BIN, *[x for x in fl if x not in sub], f, 'to-file', '-o', out, *sub])
        left = os.path.exists(out)
        if o.rc == 0:
            return 'accepted'
        if o.rc is None:
            return 'does not terminate'
        if o.rc < 0 or o.rc >= 128:
            return 'killed (exit code %s)' % o.rc
        if left:
            return 'refused, but a file was written'
        if not o.err.strip():
            return 'refused without an error message'
    return None


def item(seed):
    acc = eng.Acc()
    r = cv.rng('reject', seed)
    p = gen.Gen(r).build()
    fl = eng.some_flags(r, 0.3) if r.random() < 0.8 else eng.symbolic_flags(r)
    o, sc, _, err = eng.emit(p, fl)
    if err:
        acc.count('not emitted')
        return acc
    ms = mutants(p, r)
    kinds = {}
    for k, f in ms:
        kinds.setdefault(k, []).append(f)
    for k in r.sample(sorted(kinds), min(14, len(kinds))):
        try:
            u = r.choice(kinds[k])()
        except KeyError:
            continue
        bad = judge(u, fl + ['--disallow-shadowing'] * k.startswith('shadowing'))
        acc.count(k.split(', ')[-1])
        if bad:
            acc.violate('%s: %s' % (k, bad), '== flags %s\n%s' % (' '.join(fl), u))
        else:
            acc.ev((k, u))
            acc.sample(k)
    return acc
