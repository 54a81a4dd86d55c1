"""Shared engine: generated protocols, executions, and what the emitted file
says about them."""
import copy
import random
import traceback
from . import cv, dy, ev, gen, proto, smt, symb


class Bad(Exception):
    pass


def emit(p, flags=(), dialect='standard'):
    """-> (Out, Script or None, text, error)"""
    text = p if isinstance(p, str) else p.text()
    o, t = cv.to_smt(text, flags)
    dialect = dialect_of(flags, dialect)
    if o.rc != 0 or t is None:
        return o, None, t, 'exit code %s: %s' % (o.rc, o.err.strip()[:300])
    try:
        return o, smt.parse(t, dialect), t, None
    except smt.SmtError as e:
        return o, None, t, 'ill-formed output: %s' % e


def dialect_of(flags, dialect='standard'):
    if {'--assert-theory', '--assert-ground'} & set(flags) or '--symbolic' in flags and {'--eval-rewrite', '--crypto-rewrite', '--vampire-subterm'} & set(flags):
        return 'vampire'
    return dialect


# options that change how the problem is written, not what it means
NEUTRAL = ('--eval-rewrite', '--crypto-rewrite', '--vampire-subterm', '--skolemnise', '--legacy-evaluate',
           '--no-bitstring', '--assert-theory', '--assert-ground', '--cvc5')


def some_flags(r, p=0.4):
    if r.random() > p:
        return []
    return r.sample(NEUTRAL, r.choice([1, 1, 2, 4]))


SYMBOLIC = ('--legacy-evaluate', '--cvc5', '--skolemnise', '--crypto-rewrite', '--eval-rewrite', '--assert-theory')


def symbolic_flags(r):
    return ['--symbolic'] + (r.sample(SYMBOLIC, r.choice([1, 2])) if r.random() < 0.3 else [])


def verdict(sc, m, r, cap=300, query=False, want=None, total=None):
    if 'Message' in sc.ctors:
        m = symb.Sym(m, sc, r, big=cap >= 4000)
        if cap <= 1000:
            cap = 250
    return ev.judge(sc, m, r, want=want, cap=cap, skip_query=not query, total=total)


def show_why(d):
    w = d.get('why')
    if not w:
        return ''
    if w[0] == 'core':
        return '\n'.join('assertion %d [%s] %s' % (i, s, smt.show(e)[:700]) for i, s, e in w[1][:6])
    i, s, e, env = w
    return 'assertion %d [%s] %s\n  at %s' % (i, s, smt.show(e)[:900], env)


def show_model(m):
    o = ['indices: %s' % {k: len(v) for k, v in m.idx.items()}]
    for t in m.trace:
        o.append('  %s%s in=%s cond=%s exec=%s msg=%s' % (
            t[1], list(x[1] for x in t[2]), m.input_.get(t), m.cond_.get(t), m.exec_.get(t), m.msg_.get(t)))
    for k, v in sorted(m.cell_.items(), key=repr):
        if k[2] in m.pos:
            o.append('  cell %s%s at %s%s = %s' % (k[0], k[1], k[2][1], k[2][2], v))
    return '\n'.join(o)


class Found(Exception):
    def __init__(self, acc):
        self.acc = acc


class Acc:
    """what one worker observed"""
    def __init__(self):
        self.d = dict(evals=0, nontrivial=set(), counts={}, samples=[], violations=[])

    def ev(self, key=None):
        self.d['evals'] += 1
        if key is not None:
            self.d['nontrivial'].add(key)

    def count(self, k, n=1):
        self.d['counts'][k] = self.d['counts'].get(k, 0) + n

    def sample(self, s):
        if len(self.d['samples']) < 2:
            self.d['samples'].append(s)

    def violate(self, what, replay='', key=None):
        self.d['violations'].append(dict(what=what, replay=replay, key=key))


def drive(rep, fn, items, limit_s):
    """run fn over items in parallel until the time is used up"""
    import time
    from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
    global WORK
    WORK = fn
    t0 = time.time()
    it = iter(items)
    with ProcessPoolExecutor(max_workers=cv.JOBS) as ex:
        live = set()
        done = False
        while True:
            while not done and len(live) < cv.JOBS * 2:
                if time.time() - t0 > limit_s or len(rep.violations) > 12:
                    done = True
                    break
                try:
                    x = next(it)
                except StopIteration:
                    done = True
                    break
                live.add(ex.submit(guard, x))
            if not live:
                break
            fin, live = wait(live, return_when=FIRST_COMPLETED)
            for f in fin:
                rep.merge(f.result())


WORK = None


def guard(x):
    """workers are forked once WORK is set"""
    try:
        return WORK(x).d
    except Found as e:
        return e.acc.d
    except Exception:
        return dict(trouble=['on %r\n%s' % (x, traceback.format_exc()[-1500:])])


def rebuilt(p, **kw):
    q = copy.copy(p)
    for k, v in kw.items():
        setattr(q, k, v)
    return q


def sound(acc, p, sc, m, r, what, cap=300):
    """the execution m must be allowed by the emitted axioms"""
    d = verdict(sc, m, r, cap, total=1500000)
    acc.count('instances', d['instances'])
    if d['verdict'] == 'unsat':
        acc.violate('%s: a legitimate execution is excluded by the emitted axioms\n%s' % (what, show_why(d)),
                    'options %s\n%s\n\n%s\n\n%s' % (p.notes.get('flags'), p.text(), show_model(m), show_why(d)))
        return False
    acc.count('execution accepted' if d['verdict'] == 'sat' else 'execution undecided')
    return d['verdict'] == 'sat'


def refuted(acc, p, sc, m, r, what, cap=300, detail=''):
    """the structure m must be excluded by the emitted axioms"""
    for k in (1, 8, 60):
        # more instances before concluding that nothing excludes it
        d = verdict(sc, m, r, cap * k)
        acc.count('instances', d['instances'])
        if d['verdict'] == 'unsat':
            if k > 1:
                acc.count('excluded only after %d times as many instances' % k)
            break
    if d['verdict'] == 'unknown':
        acc.count('corruption undecided')
        return False
    if d['verdict'] == 'sat':
        acc.violate('%s: not excluded by the emitted axioms' % what,
                    'options %s\n%s\n\n%s\n\n%s' % (p.notes.get('flags'), p.text(), detail, show_model(m)))
        raise Found(acc)     # more of the same would only take time
    acc.count('corruption excluded')
    return True
