GUARD = ('none', 'no hooks: the checks observe the unmodified binary and the public library', [])
ONE = 'The unit tests translate a handful of fixed protocols and never look at what the produced axioms mean'
ORACLE = ('Held on the executions observed in this run: own reference interpreter and attacker model, and an evaluator of '
          'the emitted assertions that only reports what it is certain of; says nothing about protocols not generated.')
TECH = 'runtime monitor: emitted axioms evaluated against recorded executions of a reference attacker model'

prop('C01', 'No possible execution is excluded by the generated axioms',
     'For every accepted protocol, every execution an attacker can really produce (any interleaving of steps allowed by the '
     'declared orders, any input computable from previous outputs) satisfies all axioms the tool generates, apart from the '
     'user\'s own assertions. In particular the axioms are consistent, so "proven" can never come from a contradictory theory.',
     ['programs', 'histories'], 'all protocols, all traces and all attacker inputs',
     ONE + '; an unsound axiom only shows on a protocol and an execution that trigger it.',
     ['problem', 'subterm/mod.rs', 'parser'], [('generation of every axiom', 'problem/generator.rs'), ('search for subterms', 'subterm/mod.rs')],
     TECH, ORACLE)
prop('C02', 'The negated query is what the user wrote',
     'The generated problem admits an execution exactly when the user\'s assertions hold and the query fails in that execution: a '
     'true query contributes nothing to falsify it, and a false one is not lost, whatever the nesting of quantifiers, connectives, '
     'conditionals, find, let, macros, step and memory accesses.',
     ['programs', 'histories'], 'all closed formulas of the language and all executions', ONE + '.',
     ['parser', 'problem/generator.rs', 'formula'], [('parsing of terms', 'parser/parser'), ('query', 'problem/problem/mod.rs')], TECH, ORACLE)
prop('C03', 'Assertions become hypotheses with exactly their meaning',
     'An `assert` restricts the generated problem to exactly the executions in which the asserted formula holds, and restricts nothing else.',
     ['programs', 'histories'], 'all closed formulas and all executions', ONE + '.',
     ['parser', 'problem'], [('assertions', 'problem/generator.rs')], TECH, ORACLE)
prop('C04', 'The theory of time points is that of finite traces',
     'In the generated problem, before, before-or-equal, after, happens and predecessor mean what they mean on a finite linear trace '
     'starting with init, where every time point that happens is exactly one instance of one declared step: any structure in which a single value '
     'of one of those deviates from the trace is excluded, and every trace is allowed.',
     ['histories'], 'all traces and all single deviations', ONE + '.',
     ['problem/general_assertions/order.rs'], [('order axioms', 'problem/general_assertions/order.rs')], TECH, ORACLE)
prop('C05', 'Declared orders are enforced, and only those',
     'Every trace that breaks a declared `order` is excluded from the generated problem and every trace that respects all of them is '
     'allowed, for each order operator, guard and quantified index.',
     ['programs', 'histories'], 'all order declarations and all traces', ONE + '.',
     ['problem/protocol/ordering.rs', 'problem/general_assertions/order.rs'], [('order declarations', 'problem/protocol/ordering.rs')], TECH, ORACLE)
prop('C06', 'Connectives, equality and conditionals on terms have their truth tables',
     'Conjunction, disjunction, implication, equivalence, negation, truth values, equality and if-then-else inside messages and conditions '
     'evaluate to what their truth tables say: the generated problem excludes every structure where a single entry differs.',
     ['inputs'], 'all connectives and all argument values', ONE + '.',
     ['problem/general_assertions/evaluate.rs', 'formula/function'], [('evaluation axioms', 'problem/general_assertions/evaluate.rs')], TECH, ORACLE)
prop('C07', 'Outputs, conditions and executability of steps are fixed by the protocol text',
     'For each step of a trace the generated problem fixes its condition, its output and whether it is executable (all conditions up to '
     'it hold) to what the protocol text gives for that input; any other value is excluded, under every variant of unfolding.',
     ['programs', 'histories'], 'all protocols, traces, inputs and steps', ONE + '.',
     ['problem/crypto_assumptions/unfolding.rs', 'problem/step.rs'], [('unfolding', 'problem/crypto_assumptions/unfolding.rs')], TECH, ORACLE)
prop('C08', 'Memory cells keep their value until the last assignment that applies',
     'After each step of a trace, each cell holds what the assignment of that step wrote to it, or else what it held before; the generated '
     'problem excludes any other content, for indexed cells, fresh assignment variables and several assignments per step.',
     ['programs', 'histories'], 'all protocols with cells and all traces', ONE + '.',
     ['problem/crypto_assumptions/cell.rs', 'problem/cell'], [('cell axioms', 'problem/crypto_assumptions/cell.rs')], TECH, ORACLE)
PR = ('micro and random protocols, honest acceptances and forgeries')
for pid, nm, fi, what in (
        ('C09', 'MAC / hash unforgeability', 'problem/crypto_assumptions/uf_cma.rs',
         'a verification under an uncompromised secret key (or, with hmac, an equality with a hash)'),
        ('C10', 'Signature unforgeability', 'problem/crypto_assumptions/euf_cma.rs',
         'a signature check under the public key of an uncompromised signing key'),
        ('C11', 'Ciphertext integrity', 'problem/crypto_assumptions/int_ctxt.rs',
         'a decryption that does not fail under an uncompromised key'),
        ('C12', 'Freshness of names', 'problem/crypto_assumptions/nonce.rs', 'an input equal to a name')):
    ex = {'C12': 'was used by an earlier step of the trace'}.get(pid, 'was produced by an earlier step of the trace')
    more = {'C11': ' A key used with randomness that different encryptions share, or that is not a name, gets no guarantee.'}.get(pid, '')
    prop(pid, '%s: forgeries excluded, honest runs kept' % nm,
         'With this assumption declared, %s, occurring directly in a condition, output, memory update or query, is possible in the generated problem '
         'only if the accepted term %s, wherever it hides in the protocol text (branches, find, let, macros, cells). Every honest '
         'execution, including those using leaked keys, stays possible.' % (what, ex) + more,
         ['programs', 'histories'], 'all protocols, all placements of producer and consumer, all traces', ONE + '.',
         [fi, 'subterm/mod.rs'], [('axiom instances', fi), ('search for subterms', 'subterm/mod.rs')], TECH + '; forged and honest acceptances', ORACLE)

prop('C16', 'Symbolic mode means the same as the standard one',
     'With --symbolic, messages and conditions stay terms and their meaning is given by evaluation into bitstrings; the generated problem still allows '
     'exactly the real executions: none is excluded (C01), wrong values of time points, conditions, outputs, cells, connectives are (C04-C08), honest '
     'acceptances are allowed and forged ones excluded (C09-C12), queries and assertions keep their meaning (C02, C03).',
     ['programs', 'histories'], 'all protocols, executions and attacker inputs, with --symbolic',
     'Nothing in the tests looks at the meaning of the axioms of this mode, which are generated by separate code.',
     ['problem/crypto_assumptions', 'problem/general_assertions/evaluate.rs', 'subterm/mod.rs', 'environement'],
     [('general axioms', 'problem/crypto_assumptions/uf_cma.rs'), ('evaluation of terms', 'problem/general_assertions/evaluate.rs')],
     TECH.replace('executions of a reference', 'executions (term structures) of a reference'), ORACLE)

STAND = 'runtime monitor: real runs with recorded, fault-injecting stand-in solvers, checked against a reference outcome'
ORACLE2 = ('Held on the schedules of solver answers, delays, crashes and hangs generated in this run; the outcome of real solvers is '
           'represented by stand-ins that print what z3, cvc5 and vampire print.')
prop('C17', 'Lemmas: each one is proven before it is used',
     'With lemmas in use, the problems handed to the solvers are, in order, one per lemma and one for the query: each has that lemma '
     '(or the query) negated as its goal, has exactly the earlier lemmas and the assertions as hypotheses, and no problem ever assumes the '
     'lemma it proves or a later one. Ignoring lemmas leaves the query with the assertions alone.',
     ['programs', 'histories'], 'all protocols with lemmas, all modes',
     'The tests never run a protocol with lemmas through the solvers or compare the sequence of problems.',
     ['problem/problem/mod.rs', 'problem/problem/pbl_iterator.rs', 'lib.rs'], [('sequence of problems', 'problem/problem/pbl_iterator.rs'), ('files and runs', 'lib.rs')],
     TECH + ' for every problem of the sequence', ORACLE)
prop('C18', 'The verdict of auto is the one the solvers justify',
     'The tool claims a proof only if, for every problem of the run, some solver really reported unsatisfiability within the allowed number of '
     'tries; it says disproved only on a reported model; timeouts, crashes, errors, garbled output and killed solvers never become a proof, '
     'whichever solver answers first and whatever the other one does. Exit code and every output format agree with that verdict.',
     ['histories', 'schedules', 'fault_sequences'], 'all sequences and interleavings of solver answers and failures',
     'No test runs a solver; races between two solvers and their failures only show under chosen delays.',
     ['runner/mod.rs', 'runner/runner.rs', 'runner/vampire.rs', 'runner/z3.rs', 'lib.rs'],
     [('race of the solvers', 'runner/runner.rs'), ('reading the answers', 'runner/vampire.rs'), ('reading the answers', 'runner/z3.rs')],
     STAND, ORACLE2, observe=['exit code, stdout and stderr of auto'])
prop('C19', 'Instance discovery is sound and useful',
     'When vampire runs out of time, the terms it printed are turned into additional instances of the cryptographic axioms: whatever was printed, '
     'the next problem still allows every real execution, garbled clauses are survived, and for a printed ground use of a primitive '
     'under an uncompromised key the next problem excludes accepting it as a forgery.',
     ['inputs', 'histories'], 'all protocols and all outputs of a solver that timed out',
     'No test feeds solver output back; an unsound instance turns a failed attempt into a false proof on the next try.',
     ['runner/searcher.rs', 'runner/tptp.rs', 'problem/crypto_assumptions', 'problem/problem/mod.rs'],
     [('reading clauses', 'runner/searcher.rs'), ('extra instances', 'problem/problem/mod.rs')],
     STAND + '; the next problem evaluated on executions and forgeries', ORACLE, observe=['the SMT file given to the solver in the next try'])
prop('C20', 'No solver and no file outlives a run of auto',
     'When auto ends, with whatever verdict and however the solvers behave (hang, crash, ignore their time limit, fork), no solver process '
     'is left, no temporary file remains, the debug directory holds exactly the files asked for, and the run ends within the time the solvers '
     'were given.', ['histories', 'schedules', 'fault_sequences'], 'all sequences of solver behaviour',
     'Tests never start a solver; leaks appear only when the losing solver of a race still runs or fails.',
     ['runner/runner.rs', 'runner/mod.rs'], [('killing the loser', 'runner/runner.rs')], STAND.replace('a reference outcome', 'processes and files left'), ORACLE2,
     observe=['processes, temporary files and debug files after each run'])
prop('C21', 'Each solver gets its problem complete, in its dialect, with the right limits',
     'Every solver started by auto reads the complete current problem (with all instances found so far, in the dialect that solver '
     'understands), is passed the requested time limit in the form it accepts, is started only if enabled, from the configured location, at '
     'most the requested number of times per problem, and both solvers of a try work on the same problem.',
     ['histories', 'schedules'], 'all options and all sequences of solver behaviour',
     'The command lines and files given to the solvers are never looked at by a test.',
     ['runner/runner.rs', 'runner/vampire.rs', 'runner/z3.rs', 'cli.rs'], [('command lines', 'runner/z3.rs'), ('files', 'runner/runner.rs')],
     STAND.replace('a reference outcome', 'the requested options'), ORACLE2, observe=['arguments and files received by the stand-in solvers'])
prop('C13', 'The problem depends on what the protocol says, not on how it is written',
     'Two texts of the same protocol give the same problem, up to the names of symbols and variables and the order of assertions: other layout or '
     'comments, consistently renamed sorts, functions, names, cells, steps, macros and bound variables (shadowing included), equivalent spellings '
     'of the syntax, declarations in another order, the same run repeated, macros and lets replaced by what they stand for.',
     ['programs'], 'all protocols and all ways to write them',
     'Each fixed test is written in one way; hygiene of names, shadowing and the order of declarations need pairs of texts.',
     ['parser', 'formula/manipulation', 'smt'],
     [('parsing, macros and lets', 'parser/parser'), ('scoping of variables', 'parser/parser/parsable_trait.rs')],
     'runtime monitor: the problems emitted for pairs of equivalent texts compared up to renaming',
     'Held on the pairs of texts generated in this run; the comparison normalises associativity, duplicates and bound variables.')
prop('C14', 'Every emitted problem is well-formed for its readers',
     'Whatever protocol is accepted and whatever options are given, the emitted file is one well-sorted problem: every symbol is declared exactly once and '
     'before its use, with legal and correctly quoted names, variables are bound where they are used and are never confused with symbols, every term is '
     'well-sorted, there is exactly one check-sat, and files in the standard dialect are read by z3 and cvc5 without complaint. Any identifier the language '
     'allows may be used: one that means something to the tool or to SMT-LIB is either kept apart or refused with an error.',
     ['inputs', 'programs'], 'all accepted protocols, all identifiers, all combinations of options',
     'The tests feed nothing of what is written to a reader other than the tool itself, and use plain names and a few options.',
     ['smt', 'container', 'problem/generator.rs'], [('writing of SMT', 'smt'), ('choice of fresh names', 'container')],
     'runtime monitor: own strict SMT-LIB reader and type checker, z3 and cvc5, over the files of random protocols with hostile names',
     'Held on the protocols, names and options of this run. Names predefined by a solver for theories of its own are left out.')
prop('C15', 'Ill-formed protocols are refused with an error and leave no file',
     'A protocol with a mistake (unknown or duplicated names, wrong sorts or numbers of arguments, anywhere a term, assignment, query, assert, lemma, order or '
     'crypto assumption may contain it; `in` outside steps; definitions in terms of themselves; syntax errors; shadowing when it is disallowed) is refused with '
     'an error message and a failure exit code, without crashing, hanging or writing an output file.',
     ['inputs'], 'all protocols and all places for a mistake',
     'The tests translate correct protocols; a missing check turns a typo into a problem about something else.',
     ['parser', 'cli.rs'], [('sorts and arities', 'parser/parser/parsable_trait.rs'), ('declarations', 'parser/parser/declare.rs'),
                            ('arguments of assumptions', 'parser/parser')],
     'runtime monitor: exit code, diagnostics and files of the real tool on protocols with a planted mistake',
     'Held on the mistakes planted in this run, all of kinds listed in mon/reject.py.', observe=['exit code, stderr and output file'])
prop('C22', 'A success or a proof is never reported after an I/O failure',
     'Whatever calls on files, directories, standard input, pipes or processes fail, are interrupted or transfer less than asked, at any point of a run: to-file only reports a '
     'success when every file holds the whole problem (also over a longer existing file); auto only starts solvers on complete files, only reports a proof that a '
     'solver answered completely, and never turns a failure into a verdict; what fails is reported as a failure with a message, without crash, hang, process or temporary file left '
     'behind. Interruptions and partial transfers that recover change nothing. Unreadable or non-UTF-8 input is refused.',
     ['fault_sequences'], 'all failing calls at all points of all runs',
     'No test makes a call fail; a swallowed error only shows as a truncated problem.',
     ['lib.rs', 'runner', 'main.rs'], [('writing of files', 'lib.rs'), ('files and processes of the solvers', 'runner/runner.rs'), ('output of the solvers', 'runner/runner_helper.rs')],
     'runtime monitor with fault injection: a preloaded shim makes calls of the real tool fail and logs them; what was written, given to stand-in solvers and reported is compared with a fault-free run',
     'Held for the faults injected in this run (see observed: failed and disturbed calls).', observe=['every open, read, write, mkdir, pipe and spawn of the tool'])
prop('C23', 'All output formats report the same, true, result',
     'For every run the formats stdout, json, pretty-json and quiet agree on whether it succeeded, and say what happened: json and pretty-json write exactly one JSON value on standard output, '
     'Ok with the files written or the number of tries of each problem, or Err with the reason; quiet only sets the exit code; stdout exits with a failure code and a message on failure. '
     'That holds for protocols and dumps, to-file and auto, correct and wrong input, input from a file or standard input, and any log level; the problem written depends on none of them.',
     ['inputs', 'configurations'], 'all runs', 'No test runs the command line.',
     ['main.rs', 'return_value.rs', 'cli.rs'], [('output', 'main.rs'), ('results', 'return_value.rs')],
     'runtime monitor: each run is repeated in every output format; exit codes, standard output and files are compared with each other and with what is known to have happened',
     'Held on the runs of this check.', observe=['exit code, standard output, standard error and files'])
prop('C24', 'A Squirrel dump gives the problem of the protocol it describes, per system',
     'For a JSON dump of Squirrel with the supported features (--input-format squirrel-json), one problem is written per system (one if there is no `diff`), numbered in the '
     'order of the names of the projections, and each is the problem of the protocol that the system describes: the same functions, names, cells, steps, conditions, outputs, '
     'updates and query under its hypotheses; an action comes after the actions it extends and excludes the other branches of the same choice; tuples are nested pairs and '
     'projections select their elements; global macros are unfolded with the inputs of the right actions; hash, signature and encryption operators get their assumption; variables '
     'are told apart by their tags.',
     ['inputs'], 'all dumps with the supported features and all systems',
     'The tests only parse two dumps; nothing looks at the problems they give.',
     ['squirrel'], [('terms', 'squirrel/converters/helper_functions/convertion_functions.rs'), ('actions and global macros', 'squirrel/converters/ast_convertion.rs'),
                    ('control flow', 'squirrel/converters/convert_order.rs'), ('declarations and assumptions', 'squirrel/converters/top_level_converter.rs')],
     'runtime monitor: the problems emitted for random dumps are compared, up to names, with those of an independent elaboration of each system',
     'Held on the dumps of this run. The reference goes through the same tool (as plain protocols), whose meaning C01-C12 check.')
prop('C25', 'No memory error, undefined behaviour, overflow or leak on any input',
     'Whatever the input (protocols, dumps, with or without mistakes, garbled text), the options and the output of the solvers, the code never reads or writes memory it does not own or that was '
     'freed, never breaks the aliasing and validity rules of Rust or the preconditions of the unchecked operations it uses, no arithmetic overflows, all memory is released by '
     'the end of a successful run, and the result is the same as in a run without instrumentation.',
     ['inputs', 'programs'], 'all inputs, options and solver outputs',
     'The tests never run instrumented, and the arena of cyclic terms (raw pointers with extended lifetimes) is only sound by convention.',
     ['container', 'formula', 'parser', 'runner'], [('arena', 'container/container.rs'), ('initialisation of uninitialised terms', 'container/contained.rs'),
                                                    ('references without lifetime checks', 'container/reference.rs')],
     'runtime monitor: AddressSanitizer with leak detection, overflow and precondition checks on the rebuilt tool; miri (aliasing, validity, leaks) on the library',
     'Held on the inputs run in this check; miri only went through small protocols and dumps.', observe=['every memory access of the instrumented runs'])
prop('C26', 'Running solvers concurrently is free of data races and deadlocks',
     'In auto mode, with several solvers running and for every order and timing in which they start, answer, time out, crash or are killed, the threads of the tool have no data race, '
     'no lock is taken in inconsistent orders, and the run ends without crash.',
     ['schedules'], 'all interleavings of the threads and answers',
     'No test runs a solver; a race only shows on one interleaving.',
     ['runner', 'container'], [('threads of the solvers', 'runner/runners.rs'), ('reading the output', 'runner/runner_helper.rs'), ('shared arena', 'container/container.rs')],
     'runtime monitor: ThreadSanitizer on the tool and the standard library rebuilt, stand-in solvers with planned answers and delays',
     'Held on the interleavings of this run (the orders of events seen are in the evidence).', observe=['every memory access, lock and thread of the instrumented runs'])
P.sort(key=lambda x: x[0]['id'])
