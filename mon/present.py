"""C13: the problem does not depend on how the protocol is written down."""
from . import canon, cv, eng, gen, text

GENERATED = ('$find', '$exists', '$forall')


def has_quantifier(sc):
    return any(g in s for s in sc.funs for g in GENERATED)


def item(seed):
    acc = eng.Acc()
    r = cv.rng('present', seed)
    p = gen.Gen(r).build()
    t = p.text()
    fl = eng.some_flags(r, 0.35) if r.random() < 0.7 else eng.symbolic_flags(r)
    o, sc, _, err = eng.emit(t, fl)
    if err:
        acc.count('not emitted')
        return acc
    # a different set of words for every run: (kind, text, names back to the first ones)
    alt = [('the same text again', t, None)]
    l = text.layout(t, r)
    alt.append(('other spaces and comments', l, None))
    ids = text.identifiers(t)
    words = ["z%d%s" % (i, r.choice(["'", '', '-a', 'é', '_', "''-b_"])) for i in range(len(ids))]
    r.shuffle(words)
    m = dict(zip(ids, words))
    alt.append(('other names', text.rename(t, m), {v: k for k, v in m.items()}))
    alt.append(('other spelling', text.Printer(r, True, False, False).text(p), None))
    alt.append(('other bound variables', text.Printer(r, False, True, False).text(p), None))
    alt.append(('other order of declarations', text.Printer(r, False, False, True).text(p), None))
    q = text.Printer(r, True, True, True).text(p)
    ids = text.identifiers(q)
    words = ["%s%d%s" % (r.choice('abQZλ'), i, r.choice(["'", '', '-a', 'é', '_'])) for i in range(len(ids))]
    r.shuffle(words)
    m = dict(zip(ids, words))
    alt.append(('all of it', text.layout(text.rename(q, m), r), {v: k for k, v in m.items()}))
    if p.macros and not has_quantifier(sc):
        alt.append(('macros and lets written out', text.inline(p).text(), None))
    for kind, u, back in alt:
        acc.count(kind)
        o2, sc2, _, err2 = eng.emit(u, fl)
        if not err2:
            d = canon.differ(sc, sc2, None, back)
            if kind.startswith('macros') and has_quantifier(sc2):
                acc.count('macro with a quantifier')
                continue
            if not d:
                acc.ev((u, tuple(fl)))
                continue
        else:
            d = err2
        acc.violate('the problem differs for the same protocol with %s (flags %s): %s' % (kind, ' '.join(fl), d[:900]),
                    replay='== flags %s\n== first\n%s\n== second\n%s' % (' '.join(fl), t, u))
        break
    if len(sc.asserts) > 20:
        acc.sample('%s: %d assertions compared in %d ways of writing' % (list(p.steps), len(sc.asserts), len(alt)))
    return acc
