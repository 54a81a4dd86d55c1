"""C14: every emitted file is a well-sorted problem its readers accept."""
import os
import re
from . import canon, cv, eng, gen, smt, text

SIMPLE = re.compile(r'''(?:[A-Za-z~!@$%^&*_\-+=<>.?/][0-9A-Za-z~!@$%^&*_\-+=<>.?/]*)$''')
RESERVED = set('BINARY DECIMAL HEXADECIMAL NUMERAL STRING _ ! as let exists forall match par'.split())

# identifiers the language allows that are easily confused with something else
ODD = '''a' b'' c-d e- F_ g_ αβ é λ-x naïve x X y Y M N C S T I i s iX1 iX2 M-X1 X1 X2 push pop model goal check-sat get-model set-logic
set-info declare-const named pattern par_ lambda_ is tester sat unsat unknown error success ok' int real nil cons
Q q A' B' step1 step2 initial inputs pred' lt' exec_ cond_ msg_ ta ta-and ta-ite dest dest-x sort Sort Msg Cond evaluate evaluate_ cast
Bitstring_ emptyset tuple_ n_1 n-1 sk-1 sK1 sk subterm_nonce theory conjecture axiom assertion'''.split()
# words that mean something to the tool or in SMT-LIB: to be refused, or kept apart
CLASH = '''Bitstring Bool Condition Message Name Step cond empty evaluate_cond evaluate_msg exec gt happens init input leq lt msg pred
and or not ite distinct true false par as match lambda define-fun assert-theory declare-rewrite Int Real Array String xor
NUMERAL DECIMAL STRING declare-fun declare-sort rewrite subterm subterm-relation'''.split()


def lexical(t):
    """what a strict reader requires of the text"""
    bad = []
    for k, x in smt.tokens(t):
        if k == ';' or x in '()' or x[0] == ':':
            continue
        if x[0] == '|':
            if '\\' in x:
                bad.append('quoted symbol %s' % x)
        elif x[0] == '"' or re.fullmatch(r'\d+(\.\d+)?', x):
            pass
        elif not SIMPLE.match(x):
            bad.append('%s is not a symbol' % x)
    for k, e in smt.sexprs(t):
        if k != 'expr' or not isinstance(e, list):
            continue
        names = []
        if e[0] in ('declare-fun', 'declare-sort', 'declare-const', 'define-sort', 'define-fun'):
            names.append(e[1])
        if e[0] == 'declare-datatypes':
            for (s, _), cs in zip(e[1], e[2]):
                names.append(s)
                for c in cs:
                    if isinstance(c, list):
                        names.append(c[0])
                        names += [x[0] for x in c[1:]]
                    else:
                        names.append(c)
        for n in names:
            if n in RESERVED:
                bad.append('declares the reserved word %s' % n)
    return bad


def norm(x):
    return x[1:-1] if isinstance(x, str) and len(x) > 1 and x[0] == '|' else x


def scopes(sc):
    """same symbol with and without |..|, variables named like symbols, duplicate binders"""
    bad = []
    seen = {}
    for n in list(sc.funs) + list(sc.sorts) + list(sc.alias):
        k = (norm(n), n in sc.funs)
        if k in seen and seen[k] != n:
            bad.append('%s and %s are the same symbol' % (seen[k], n))
        seen[k] = n
    decl = {norm(n) for n in sc.funs}

    def walk(e):
        if isinstance(e, str):
            return
        if e and e[0] in ('forall', 'exists'):
            vs = [norm(v) for v, _ in e[1]]
            if len(set(vs)) < len(vs):
                bad.append('a quantifier binds %s twice' % vs)
            for v in vs:
                if v in decl:
                    bad.append('the variable %s has the name of a symbol' % v)
            walk(e[2])
            return
        for x in e:
            walk(x)
    for _, _, e in sc.asserts:
        walk(e)
    return bad


def readers(t, d):
    """complaints of the solvers' parsers"""
    f = os.path.join(d, 'q.smt2')
    with open(f, 'w') as h:
        h.write(t.replace('(check-sat)', ''))
    bad = []
    o = cv.run([cv.Z3, f], timeout=60)
    if (o.out + o.err).strip():
        bad.append('z3: ' + (o.out + o.err).strip()[:300])
    o = cv.run(['cvc5', '--force-logic=ALL', '--parse-only', '--lang=smt2', f], timeout=60)
    if o.rc != 0:
        bad.append('cvc5: ' + (o.out + o.err).strip()[:300])
    return bad


ALL = tuple(eng.NEUTRAL) + ('--symbolic', '--no-preprocessing')


def item(seed):
    acc = eng.Acc()
    r = cv.rng('wf', seed)
    p = gen.Gen(r).build()
    t = p.text()
    fl = r.sample(ALL, r.choice([0, 0, 1, 1, 2, 3]))
    mode = r.choice(['plain', 'odd', 'odd', 'clash'])
    ids = text.identifiers(t)
    m = {}
    if mode == 'odd':
        k = min(len(ids), len(ODD))
        m = dict(zip(r.sample(ids, k), r.sample(ODD, k)))
        rest = [i for i in ids if i not in m]
        m.update({i: 'w%d_' % n for n, i in enumerate(rest)})
    elif mode == 'clash':
        m = {r.choice(ids): r.choice(CLASH)}
        if not set(m.values()).isdisjoint(text.tokens(t)):
            m = {}
    u = text.rename(t, m)
    o, sc, out, err = eng.emit(u, fl)
    what = '%s names %s' % (mode, m if mode == 'clash' else '')
    replay = '== flags %s\n%s\n== output\n%s' % (' '.join(fl), u, out)
    if sc is None and o.rc != 0:
        if mode == 'clash':
            acc.count('refused')
            acc.ev((u, tuple(fl)))
            if o.rc != 101 or 'overflowed' in o.err:
                acc.violate('crash on %s: exit %s %s' % (what, o.rc, o.err[:200]), replay)
        else:
            acc.violate('refused a protocol with %s: %s' % (what, err), replay)
        return acc
    if sc is None:
        acc.violate('with %s and flags %s: %s' % (what, ' '.join(fl), err), replay)
        return acc
    acc.count(mode)
    bad = lexical(out) + scopes(sc)
    if sc.checksat != 1:
        bad.append('%d check-sat' % sc.checksat)
    std = not sc.nonstandard and not sc.rewrites and not sc.subterm_rel
    if std and mode != 'clash':
        with cv.Scratch() as d:
            bad += readers(out, d)
        acc.count('read by z3 and cvc5')
    if not bad and mode == 'clash' and m and 'init' not in m.values():     # a step named init is the initial one
        # accepted: the user's symbol and the predefined one are kept apart
        user = {*p.types, *p.funs, *p.names, *p.cells, *p.steps}
        o2, sc2, _, err2 = eng.emit(t, fl)
        if sc2 is not None:
            c = canon.differ(sc2, sc, None, {v: k for k, v in m.items() if k in user}) if not set(m.values()) & (set(sc2.funs) | sc2.sorts | set(sc2.alias)) else None
            if c is None and len(sc2.funs) != len(sc.funs):
                c = '%d symbols instead of %d' % (len(sc.funs), len(sc2.funs))
            if c:
                bad.append('the name changes the problem: %s' % c[:500])
            acc.count('accepted clash')
    if bad:
        acc.violate('with %s and flags %s: %s' % (what, ' '.join(fl), '; '.join(bad[:3])[:900]), replay)
    else:
        acc.ev((u, tuple(fl)))
        acc.sample('%s, flags %s: %d symbols, %d assertions' % (what, fl, len(sc.funs), len(sc.asserts)))
    return acc
