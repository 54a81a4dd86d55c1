"""Reader for the SMT-LIB (and Vampire-dialect) files that cryptovampire writes.

The reader is deliberately independent of the tool: it accepts any SMT-LIB 2.6
script that uses the commands below, checks that every symbol is declared before
use with the right arity and sorts, and returns the assertions in order together
with the free-form comment "section" they appeared in."""
import re

TOK = re.compile(r'''\s+|;[^\n]*|\(|\)|\|[^|]*\||"(?:[^"]|"")*"|[^\s()|";]+''')


class SmtError(Exception):
    pass


def tokens(text):
    pos, n = 0, len(text)
    for m in TOK.finditer(text):
        if m.start() != pos:
            raise SmtError("unexpected character at %d: %r" % (pos, text[pos:pos + 20]))
        pos = m.end()
        t = m.group()
        if t[0] == ';':
            yield ';', t[1:].strip()
        elif not t[0].isspace():
            yield 't', t
    if pos != n:
        raise SmtError("trailing garbage at %d" % pos)


def sexprs(text):
    """yields ('comment', str) or ('expr', nested list)"""
    stack = []
    for k, t in tokens(text):
        if k == ';':
            if not stack:
                yield 'comment', t
            continue
        if t == '(':
            stack.append([])
        elif t == ')':
            if not stack:
                raise SmtError("unbalanced )")
            x = stack.pop()
            if stack:
                stack[-1].append(x)
            else:
                yield 'expr', x
        else:
            if not stack:
                raise SmtError("atom at top level: %r" % t)
            stack[-1].append(t)
    if stack:
        raise SmtError("truncated file: %d open parentheses" % len(stack))


BUILTIN = {'and', 'or', 'not', '=>', '=', 'distinct', 'ite', 'true', 'false', 'xor'}


class Script:
    def __init__(self):
        self.sorts = {'Bool'}
        self.alias = {}
        self.funs = {}        # name -> (args sorts, out sort)
        self.ctors = {}       # datatype sort -> [(ctor, [(sel, sort)])]
        self.selectors = {}   # selector -> (ctor, position)
        self.asserts = []     # (kind, section, sexpr) kind in assert, query
        self.order = []
        self.rewrites = []
        self.subterm_rel = []
        self.checksat = 0
        self.other = []
        self.nonstandard = []
        self.comments = []

    def sort(self, s):
        if isinstance(s, list):
            raise SmtError("parametric sort %r" % (s,))
        seen = set()
        while s in self.alias and s not in seen:
            seen.add(s)
            s = self.alias[s]
        if s not in self.sorts:
            raise SmtError("unknown sort %s" % s)
        return s

    def declare(self, name, args, out):
        if name in self.funs or name in BUILTIN:
            raise SmtError("symbol %s declared twice" % name)
        self.funs[name] = ([self.sort(a) for a in args], self.sort(out))

    # -- sort checking -------------------------------------------------
    def typ(self, e, env):
        if isinstance(e, str):
            if e in env:
                return env[e]
            if e in ('true', 'false'):
                return 'Bool'
            if e in self.funs:
                a, o = self.funs[e]
                if a:
                    raise SmtError("%s used without arguments" % e)
                return o
            raise SmtError("unknown symbol %s" % e)
        if not e:
            raise SmtError("empty application")
        h = e[0]
        if h in ('forall', 'exists'):
            if len(e) != 3:
                raise SmtError("bad quantifier")
            if not e[1]:
                raise SmtError("empty quantifier")
            env2 = dict(env)
            for v, s in e[1]:
                env2[v] = self.sort(s)
            if self.typ(e[2], env2) != 'Bool':
                raise SmtError("quantified body is not Bool")
            return 'Bool'
        if h == 'let':
            env2 = dict(env)
            for v, t in e[1]:
                env2[v] = self.typ(t, env)
            return self.typ(e[2], env2)
        if isinstance(h, list):
            raise SmtError("higher order head %r" % (h,))
        if h == 'subterm' and len(e) == 4 and h not in self.funs and any(r[0] == e[1] for r in self.subterm_rel):
            self.typ(e[2], env), self.typ(e[3], env)
            return 'Bool'       # Vampire's built-in relation, over all sorts
        ts = [self.typ(a, env) for a in e[1:]]
        if h in env:
            raise SmtError("variable %s applied" % h)
        if h in ('and', 'or', 'xor', '=>'):
            if any(t != 'Bool' for t in ts) or not ts:
                raise SmtError("%s on %s" % (h, ts))
            if h == '=>' and len(ts) < 2:
                raise SmtError("unary =>")
            return 'Bool'
        if h == 'not':
            if ts != ['Bool']:
                raise SmtError("not on %s" % ts)
            return 'Bool'
        if h in ('=', 'distinct'):
            if len(ts) < 2 or len(set(ts)) != 1:
                raise SmtError("%s on %s" % (h, ts))
            return 'Bool'
        if h == 'ite':
            if len(ts) != 3 or ts[0] != 'Bool' or ts[1] != ts[2]:
                raise SmtError("ite on %s" % ts)
            return ts[1]
        if h in self.funs:
            a, o = self.funs[h]
            if a != ts:
                raise SmtError("%s applied to %s, declared %s" % (h, ts, a))
            return o
        raise SmtError("unknown function %s" % h)


def parse(text, dialect='standard', typecheck=True):
    """dialect 'standard': only SMT-LIB 2.6 commands. 'vampire': also Vampire's."""
    sc = Script()
    section = ''
    for k, x in sexprs(text):
        if k == 'comment':
            sc.comments.append(x)
            if x and not x.isdigit():
                section = x
            continue
        if sc.checksat and x[0] not in ('exit', 'get-model', 'get-proof', 'get-unsat-core', 'get-info'):
            raise SmtError("%s after check-sat" % x[0])
        h = x[0]
        if h == 'declare-sort':
            if len(x) != 3 or x[2] != '0':
                raise SmtError("bad declare-sort")
            if x[1] in sc.sorts or x[1] in sc.alias:
                raise SmtError("sort %s declared twice" % x[1])
            sc.sorts.add(x[1])
        elif h == 'define-sort':
            if x[1] in sc.sorts or x[1] in sc.alias:
                raise SmtError("sort %s declared twice" % x[1])
            if x[2]:
                raise SmtError("parametric define-sort")
            sc.sort(x[3])
            sc.alias[x[1]] = x[3]
        elif h == 'declare-fun':
            sc.declare(x[1], x[2], x[3])
        elif h == 'declare-const':
            sc.declare(x[1], [], x[2])
        elif h == 'declare-datatypes':
            if len(x[1]) != len(x[2]) or not x[1]:
                raise SmtError("bad declare-datatypes")
            for s in x[1]:
                if s[0] in sc.sorts or s[0] in sc.alias:
                    raise SmtError("sort %s declared twice" % s[0])
                sc.sorts.add(s[0])
            for s, cs in zip(x[1], x[2]):
                lst = []
                if not cs:
                    raise SmtError("datatype %s without constructor" % s[0])
                for c in cs:
                    if isinstance(c, str):
                        c = [c]
                    sels = [(f[0], sc.sort(f[1])) for f in c[1:]]
                    sc.declare(c[0], [f[1] for f in c[1:]], s[0])
                    for i, (f, fs) in enumerate(sels):
                        sc.declare(f, [s[0]], fs)
                        sc.selectors[f] = (c[0], i)
                    lst.append((c[0], sels))
                sc.ctors[s[0]] = lst
        elif h == 'assert':
            sc.asserts.append(('assert', section, x[1]))
            if len(x) != 2:
                raise SmtError("bad assert")
        elif h in ('assert-not', 'assert-theory', 'assert-ground'):
            if dialect == 'standard':
                raise SmtError("non standard command %s" % h)
            sc.nonstandard.append(h)
            kind = {'assert-not': 'query', 'assert-theory': 'assert', 'assert-ground': 'assert'}[h]
            body = x[2] if h == 'assert-ground' and len(x) == 3 else x[1]
            body = ['not', body] if h == 'assert-not' else body
            sc.asserts.append((kind, section, body))
        elif h == 'check-sat':
            sc.checksat += 1
        elif h in ('set-logic', 'set-option', 'set-info', 'exit', 'get-model', 'get-proof'):
            sc.other.append(x)
        elif h == 'declare-rewrite':
            if dialect == 'standard':
                raise SmtError("non standard command %s" % h)
            sc.nonstandard.append(h)
            sc.rewrites.append(x[1:])
            # oriented, but still an equality
            if not (len(x) == 2 and isinstance(x[1], list) and x[1][0] == 'forall' and len(x[1]) == 3):
                raise SmtError("bad declare-rewrite")
            body = x[1][2]
            if not (isinstance(body, list) and len(body) == 3 and (body[0] == '=' or 'rewrite' in body[0])):
                raise SmtError("bad declare-rewrite")
            if body[0] != '=' and sc.funs.get(body[0], ([0, 1], ''))[0] != [sc.typ(b, {v: sc.sort(s) for v, s in x[1][1]}) for b in body[1:]]:
                raise SmtError("bad rewrite symbol %s" % body[0])
            body = ['=', body[1], body[2]]
            sc.asserts.append(('assert', section, ['forall', x[1][1], body] if x[1][1] else body))
        elif h == 'declare-subterm-relation':
            if dialect == 'standard':
                raise SmtError("non standard command %s" % h)
            sc.nonstandard.append(h)
            if len(x) < 2 or x[1] in sc.funs or [g for g in x[2:] if g not in sc.funs]:
                raise SmtError("bad %s" % x[:2])
            sc.subterm_rel.append(x[1:])
        else:
            raise SmtError("unknown command %s" % h)
        if typecheck and (h.startswith('assert') or h == 'declare-rewrite'):
            if sc.typ(sc.asserts[-1][2], {}) != 'Bool':
                raise SmtError("assertion is not Bool")
    if sc.checksat != 1:
        raise SmtError("expected exactly one check-sat, got %d" % sc.checksat)
    return sc


def show(e):
    return e if isinstance(e, str) else '(' + ' '.join(show(a) for a in e) + ')'
