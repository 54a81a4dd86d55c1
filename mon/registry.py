"""property id -> how it is checked"""
import itertools
from . import cv, eng, sem

CHECKS = {}


def reg(pid, level, rule, run):
    CHECKS[pid] = dict(level=level, rule=rule, run=run)


def secs(q, t):
    return t if cv.tier() == 'thorough' else q


def driven(fn, n, quick=30, thorough=600):
    """n seeds in the quick tier (less when time is up), as many as fit in the thorough one"""
    def run(rep):
        deep = cv.tier() == 'thorough'
        eng.drive(rep, fn, itertools.count() if deep else range(n), thorough if deep else quick)
    return run


R_SOUND = ('random well-formed protocols (steps, cells, macros, find, quantifiers, cryptographic options) and random '
           'Dolev-Yao executions of them; non-trivial: the trace has at least one step besides init and the emitted '
           'axioms were evaluated to true in it; distinct by protocol text, trace and attacker inputs')
reg('C01', 'exploration', R_SOUND, driven(sem.soundness, 300))
for pid, mode in (('C02', 'query'), ('C03', 'assert')):
    reg(pid, 'exploration', 'random closed formulas as %s over random protocols, five executions each; the truth of the formula in '
        'the execution (own interpreter) is compared with whether the emitted problem allows the execution; distinct by '
        'text, trace and inputs' % mode, driven(sem.formulas(mode), 3000))
R_COR = ('random protocols and executions; non-trivial: an execution accepted by the emitted axioms, or the same '
         'execution with one entry of one function changed (%s) that must be excluded; distinct by protocol, execution and entry')
reg('C04', 'exploration', R_COR % 'lt, leq, gt, happens, pred', driven(sem.corrupt('order', sem.cases_order, {"unfold"}), 1500))
reg('C05', 'exploration', 'random protocols with one or two order declarations and random traces, each either respecting or breaking '
    'a declared order; distinct by text, trace, inputs', driven(sem.orders, 1800))
reg('C06', 'exploration', R_COR % 'ta$and, ta$or, ta$implies, ta$iff, ta$not, ta$true, ta$false, ta$=, ta$ite',
    driven(sem.corrupt('ops', sem.cases_ops, {'unfold'}, per=24, models=1, pool=10), 1200))
reg('C07', 'exploration', R_COR % 'msg, cond, exec', driven(sem.corrupt('unfold', sem.cases_unfold, {"unfold"}), 1200))
reg('C08', 'exploration', R_COR % 'the contents of a memory cell', driven(sem.corrupt('cell', sem.cases_cell, {"unfold", "cells"}), 1200))
R_PRIM = ('micro protocols with a producer, a consumer and places where the produced term can hide (branches, finds, '
          'macros, lets, cells, conditions) plus random protocols; non-trivial: an honest acceptance allowed by the '
          'axioms, or a forged acceptance excluded by them; distinct by protocol, trace and accepted term')
for pid, kind in (('C09', 'hash'), ('C10', 'sign'), ('C11', 'enc'), ('C12', 'nonce')):
    reg(pid, 'exploration', R_PRIM, driven(sem.primitive(kind, {kind, "unfold", "cells"}), 1800 if kind == 'enc' else 1000))

reg('C16', 'exploration', 'the observations of C01-C12 made on problems written with --symbolic (structures whose messages are terms): executions, honest '
    'acceptances, forgeries, formulas and wrong entries; distinct by text, trace, inputs and entry', driven(sem.symbolic, 400, quick=60))

from . import auto
R_AUTO = ('runs of auto with stand-in solvers whose answers, delays, crashes and hangs are planned; distinct by protocol, plan and arguments')
reg('C18', 'exploration', R_AUTO, auto.run('verdict', 700))
reg('C20', 'exploration', R_AUTO, auto.run('hygiene', 700))
reg('C21', 'exploration', R_AUTO, auto.run('contract', 700))

from . import lemmas
reg('C17', 'exploration', 'random protocols with lemmas, written with to-file (with and without -l) or recorded as the stand-in solvers '
    'receive them; distinct by text, trace, mode and problem', lemmas.run(1500))

from . import discover
reg('C19', 'exploration', 'protocols with a primitive, and outputs of a stand-in vampire that timed out (clauses with terms of the primitive, other '
    'clauses, malformed ones); the problem of the next try is evaluated against executions and forgeries; distinct by text, output and execution', discover.run(900))

from . import present
reg('C13', 'exploration', 'random protocols written again with other layout, names, bound variables, spelling, order of declarations, or with macros '
    'written out; the two problems are compared up to names, bound variables, associativity; distinct by text and flags', driven(present.item, 500, quick=45))

from . import wf
reg('C14', 'exploration', 'random protocols with plain, odd (primes, hyphens, letters of any script, names near those of the tool) and clashing '
    'names, under all combinations of options; distinct by text and options', driven(wf.item, 3000, quick=40))

from . import reject
reg('C15', 'exploration', 'random accepted protocols with one mistake planted (sorts, arities, scopes, duplicates, syntax, assumptions); distinct by kind of '
    'mistake and text', driven(reject.item, 400, quick=45))

from . import squirrel
reg('C24', 'exploration', 'random protocols with control flow, systems, tuples, projections, global macros and hypotheses, as the JSON Squirrel sends; '
    'every problem is compared with that of the protocol the dump describes; distinct by dump, system and flags', driven(squirrel.item, 700, quick=45))

from . import iofault
reg('C22', 'exploration', 'to-file and auto runs in which calls on files, standard input, pipes and processes fail, are interrupted or transfer little '
    '(preloaded shim, and real full devices, limits, unreadable files); distinct by text, plan and options', iofault.run(500))

from . import outfmt
reg('C23', 'exploration', 'to-file and auto runs, of protocols, dumps, and protocols and dumps with mistakes, in the four output formats, with the input as '
    'a file or on standard input and with any log level; distinct by kind of run, text and options', outfmt.run(900))

from . import san
reg('C25', 'exploration', 'the tool built with AddressSanitizer, leak detection, overflow and library precondition checks on protocols, dumps, mistakes, garbled texts and solver '
    'outputs; and interpreted by miri (aliasing, validity, leaks) on small protocols and dumps; distinct by text and options', san.memory(2000))
reg('C26', 'exploration', 'the tool and the standard library built with ThreadSanitizer, auto runs with stand-in solvers whose answers, delays, crashes and hangs vary; '
    'distinct by text and order of events', san.races(2500))
