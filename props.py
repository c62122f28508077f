"""What each check runs. Engines explore the real library; see DESIGN.md."""
import os


VARIANTS = {
    'plain': {'flags': []},
    'san': {'flags': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']},
    # the consistency checks the project has for its tableau, bounds and assignment
    'cross': {'flags': ['-DCLINGOLPX_CROSSCHECK'], 'optional': True},
    'tsan': {'flags': ['-fsanitize=thread']},
    # the second number backend; the project cannot be built with it here (the submodule is absent), so it is not required to compile
    'imath': {'flags': ['-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'src', 'imath')], 'math': '-DCLINGOLPX_USE_IMATH', 'optional': True},
}

CORE_MEASURE = {'states': ['transitions'], 'transitions': ['events'], 'traces': ['histories']}
REAL_MEASURE = {'states': ['assignments_compared'], 'transitions': ['callbacks_recorded'], 'traces': ['solve_calls']}
FLINT = ('fmpq_add fmpq_sub fmpq_mul fmpq_div fmpq_add_si fmpq_mul_fmpz fmpq_div_fmpz fmpq_cmp fmpq_cmp_si fmpq_get_str fmpq_set_si fmpq_canonicalise fmpz_set fmpz_neg fmpz_mul fmpz_addmul '
         'fmpz_divexact fmpz_gcd fmpz_equal fmpz_equal_si fmpz_cmp_si fmpz_fits_si').split()
LOCKS = ['pthread_' + x for x in 'mutex_lock mutex_trylock mutex_unlock rwlock_rdlock rwlock_wrlock rwlock_tryrdlock rwlock_trywrlock rwlock_unlock'.split()]
PIVOT = '_ZN7Tableau5pivotEjjR7IntegerS1_'


def wrap(*names):
    return ['-Wl,--wrap=' + n for n in names]


ENGINES = {
    'config': {'sources': ['config.cc', 'mock.cc'], 'measure': {'states': ['settings'], 'transitions': ['events', 'probes'], 'traces': ['sequences', 'command_lines']}},
    'frontends': {'sources': ['frontref.cc'], 'extra': 'frontends', 'measure': {'states': ['cases'], 'transitions': ['lines'], 'traces': ['outputs']}},
    'threads': {'sources': ['threads.cc', 'mock.cc'], 'link': {'': wrap(*LOCKS, PIVOT), 'tsan': wrap(*FLINT)}, 'measure': {'states': ['transitions'], 'transitions': ['sync_points', 'callbacks'], 'traces': ['schedules']}},
    'real': {'sources': ['real.cc'], 'measure': REAL_MEASURE},
    'core': {'sources': ['core.cc', 'mock.cc'], 'measure': CORE_MEASURE},
    'numbers': {'sources': ['numbers.cc'], 'measure': {'states': ['operand_tuples', 'sequences', 'texts'], 'transitions': ['operations'], 'traces': ['results_compared']}},
    'parse': {'sources': ['parse.cc'], 'measure': {'states': ['inputs'], 'transitions': ['solve_calls'], 'traces': ['values_compared', 'errors_expected']}},
    'tableau': {'sources': ['tableau.cc'], 'measure': {'states': ['states'], 'transitions': ['pivots', 'sets'], 'traces': ['sequences']}},
}

THEORY = ['entailment', 'missed', 'values', 'error', 'protocol']


def core(*families, kinds=None, variant='plain', cap=None, extra=()):
    return [dict(engine='core', variant=variant, args=['--family=' + f] + list(extra), kinds=kinds, **({'cap': cap} if cap else {})) for f in families]


PROPS = {}


def real(*families, kinds=None, variant='plain', cap=None, extra=()):
    return [dict(engine='real', variant=variant, args=['--family=' + f] + list(extra), kinds=kinds, **({'cap': cap} if cap else {})) for f in families]


CORE = ['bounds', 'bounds-strict', 'rows', 'rows-strict', 'rows3', 'cond', 'obj', 'obj-strict', 'global', 'global-strict', 'const', 'const-strict', 'multi', 'big', 'options', 'select', 'steps', 'cycle', 'large']
REAL = ['single', 'strict', 'const', 'cond', 'obj', 'global', 'big', 'options', 'asp', 'asp-obj', 'modes', 'again', 'large', 'wide', 'multishot']


def broad(tier, runs, ckinds, rkinds, fewer=()):
    """Adds every n-th program of all families that are not among the runs yet; fewer: families to leave out."""
    have = {(r['engine'], r['args'][0][9:]) for r in runs if r['variant'] == 'plain'}
    n = ['--stride=%d' % (9 if tier == 'quick' else 2)]
    m = ['--stride=%d' % (2 if tier == 'quick' else 1)]
    runs = list(runs)
    if ckinds:
        runs += core(*[f for f in CORE if ('core', f) not in have and f not in fewer], kinds=ckinds, cap=30 if tier == 'quick' else 300, extra=n)
    if rkinds:
        runs += real(*[f for f in REAL if ('real', f) not in have and f not in fewer], kinds=rkinds, cap=30 if tier == 'quick' else 300, extra=m)
    return runs


def prop(pid, explain, runs, level_note, technique='', assumptions=()):
    PROPS[pid] = {'explain': explain, 'runs': runs, 'assumptions': list(assumptions), 'note': level_note, 'technique': technique or T_CORE}


T_CORE = 'stateless model checking of the library under an exhaustively enumerated solver environment, exact oracle'
T_REAL = 'exhaustive enumeration of bounded programs and solver histories on the real solver against an exact reference'
E3 = ('Stateless exploration of the real library under a closed model of the ASP solver: every history of decisions, batched and late assignments, backjumps, '
      'model checks and solve steps up to the horizon is executed on the code for every program of the families; ')
E4 = ('all programs of the families are also run with the real clingo under enumerated search options and every one of their boolean assignments is compared with the exact reference.')
NOTE = ('Every history within the stated bounds (programs of the families named by the runs, with a fixed stride for those listed with stride=N, at most 4 boolean literals, 3 variables, the horizon of the tier; on the real clingo up to 8 boolean literals and 8 variables) is executed on the real code; '
        'trusts the exact Fourier-Motzkin oracle (for more than four variables a simplex whose answers are certified by points and multipliers) and the model of clasp\'s propagator contract, which is bound to the real solver by recording its callbacks.')

prop('P01', E3 + 'after every successful propagation, every backjump and every model the readable values are substituted exactly into all constraints that are true; ' + E4,
     lambda tier: broad(tier, core('bounds', 'rows', 'rows3', 'multi', 'const', 'obj', kinds=['values', 'missed', 'error', 'format', 'access']) + real('single', 'obj', 'big', 'large', 'wide', kinds=['values', 'error', 'access']), ['values', 'error', 'format', 'access'], ['values', 'error', 'access']), NOTE)
prop('P02', E4 + ' Derived atoms, facts, conditional terms, all search strategies; nothing missing, nothing twice; brave and cautious consequences, cost optima and projections computed by the ASP solver are those of the theory-consistent answer sets.',
     lambda tier: broad(tier, real('single', 'strict', 'const', 'cond', 'big', 'asp', 'modes', 'large', 'wide', kinds=['models', 'error']) + core('rows', 'bounds', 'const', 'const-strict', kinds=['entailment', 'missed', 'error']), ['missed', 'entailment'], ['models', 'error'], ['cycle']), NOTE, T_REAL)
prop('P03', E3 + 'every clause the theory adds is compared with the exact feasibility of all completions of its negation; so is every clause added inside of the real clingo whose literals stand for boolean variables of the program.',
     lambda tier: broad(tier, core('bounds', 'rows', 'rows-strict', 'const-strict', 'options', 'multi', 'big', 'large', kinds=['entailment', 'protocol', 'error']) + core('global', kinds=['entailment', 'global']) + real('large', 'asp', 'strict', 'cond', 'multishot', kinds=['entailment']), ['entailment', 'protocol'], ['entailment']), NOTE)
prop('P04', E3 + 'after every successful propagation the set of true constraints is decided by an exact feasibility oracle; so is the set of literals delivered at the end of every successful propagation inside of the real clingo.',
     lambda tier: broad(tier, core('bounds', 'rows', 'rows-strict', 'const', 'const-strict', 'rows3', 'multi', 'big', 'large', kinds=['missed', 'values', 'error']) + real('large', 'wide', 'asp', 'strict', 'cond', 'multishot', kinds=['missed']), ['missed'], ['missed']), NOTE)
prop('P05', E3 + 'backjumps to every level are enumerated; afterwards verdicts, values, clauses and optima must be those of the remaining literals alone.',
     lambda tier: broad(tier, core('bounds', 'bounds-strict', 'rows', 'cond', 'obj', 'select', 'large', kinds=THEORY + ['objective', 'access']) + real('large', kinds=['missed', 'entailment', 'models', 'values', 'objective']), ['entailment', 'missed', 'values', 'objective', 'access'], ['missed', 'entailment', 'models', 'values', 'objective'], ['cycle', 'const', 'const-strict']), NOTE)
prop('P06', E3 + 'calls that do not return within the limit are reported; families include all variable and row orders of known cycling problems.',
     lambda tier: broad(tier, core('cycle', 'rows3', 'obj', 'rows', 'select', kinds=['hang']) + real('single', 'obj', 'large', 'wide', kinds=['hang']), ['hang'], ['hang']), NOTE + ' A call counts as not returning after 20 s (typical: microseconds), confirmed by a second run.')
prop('P07', E3 + 'the objective reported with each model is compared with the exact supremum of the linear program of that model; ' + E4,
     lambda tier: broad(tier, core('obj', 'cycle', 'cond', 'obj-strict', kinds=['objective', 'values', 'missed', 'error', 'access', 'format']) + real('obj', 'asp-obj', 'large', 'wide', kinds=['objective', 'values', 'models', 'error']), ['objective'], ['objective'], ['bounds', 'bounds-strict', 'rows', 'rows-strict', 'rows3', 'const', 'const-strict', 'multi', 'big', 'select', 'single']), NOTE)
prop('P08', E3 + 'sequences of models under global optimisation are compared with the exact optima of all remaining boolean assignments, and each added clause with the assignments it may cut off; ' + E4,
     lambda tier: broad(tier, core('global', 'global-strict', kinds=['global', 'objective', 'entailment', 'missed', 'values', 'error']) + real('global', 'asp-obj', 'again', 'large', 'wide', kinds=['global', 'models', 'objective', 'error']), ['global', 'objective', 'entailment'], ['global', 'models', 'objective'], ['bounds', 'bounds-strict', 'rows', 'rows-strict', 'rows3', 'const', 'const-strict', 'multi', 'big', 'select', 'single', 'cond', 'obj', 'obj-strict', 'cycle']), NOTE)
prop('P09', E3 + 'families with strict relations; exact oracle over rationals extended by an infinitesimal; ' + E4,
     lambda tier: broad(tier, core('bounds-strict', 'rows-strict', 'const-strict', 'obj-strict', kinds=THEORY + ['objective', 'format']) + real('strict', 'const', 'large', 'wide', kinds=['models', 'values', 'objective', 'format', 'error']), ['entailment', 'missed', 'values', 'objective', 'format'], ['models', 'values', 'objective', 'format'], ['bounds', 'rows', 'rows3', 'const', 'cond', 'obj', 'global', 'multi', 'cycle', 'single', 'big', 'select']), NOTE)
prop('P10', E3 + 'programs under the full product of options must give the verdicts, optima and model sets of the one reference; ' + E4,
     lambda tier: broad(tier, core('options', 'select', 'multi', kinds=THEORY + ['objective', 'global', 'config', 'decide']) + real('options', 'asp', 'asp-obj', 'global', 'modes', 'large', kinds=['models', 'values', 'objective', 'global', 'error']), ['entailment', 'missed', 'values', 'objective', 'global', 'decide'], ['models', 'values', 'objective', 'global'], ['cycle']), NOTE)
prop('P11', 'All sequences of ground, solve (with and without assumptions, exhaustive or stopped early) and external operations up to the bound over program parts are run with the real clingo and with the library under the closed solver model; each solve call is compared with the reference for the program accumulated so far.',
     real('multishot', 'again', 'large', kinds=['models', 'values', 'objective', 'global', 'access', 'error']) + core('steps', kinds=THEORY + ['objective', 'global', 'access']), NOTE, T_REAL)
prop('P17', E3 + 'families with conditional terms over shared conditions, variables and constants; ' + E4,
     lambda tier: broad(tier, core('cond', kinds=THEORY + ['objective']) + real('cond', 'multishot', 'large', 'wide', kinds=['models', 'values', 'objective', 'error']), [], ['models', 'values', 'objective', 'global'], ['single', 'strict', 'const', 'obj', 'global', 'big', 'options', 'again']), NOTE)
prop('P21', E3 + 'iteration, lookup, index to symbol and values are compared at every model and over solve calls; ' + E4,
     lambda tier: broad(tier, core('rows', 'cond', 'steps', kinds=['access', 'values', 'error']) + real('single', 'multishot', kinds=['access', 'values', 'error']) + threads('wide', kinds=['access', 'values', 'error']), ['access', 'values'], ['access', 'values']), NOTE)
prop('P25', E3 + 'in every reached state the decide callback is called for every literal with every proposal and its answer compared with the documented sign; the state afterwards must be unchanged.',
     lambda tier: broad(tier, core('select', 'options', kinds=['decide', 'values', 'missed', 'error']) + threads('signs', 'wide', kinds=['decide']), ['decide'], []), NOTE)
prop('P26', E3 + 'the library and the environment are built with AddressSanitizer and UndefinedBehaviorSanitizer and debug assertions; any report or abort is a violation.',
     lambda tier: core('bounds', 'rows', 'multi', 'options', 'obj', 'global', 'cond', 'steps', 'big', 'cycle', kinds=['hang'], variant='san', extra=['--less=%d' % (2 if tier == 'quick' else 1)])
     + real('multishot', 'again', 'modes', 'large', 'strict', 'cond', kinds=['hang'], variant='san')
     + (core('bounds', 'rows', 'rows3', 'multi', 'options', 'obj', 'cond', 'steps', 'cycle', 'global-strict', kinds=['hang'], variant='cross') + real('multishot', 'asp', 'global', kinds=['hang'], variant='cross') if tier != 'quick' else []), NOTE)
prop('P27', E3 + 'the environment checks the protocol at each call: watches, clauses only over known literals, no clause or literal after a refused clause, requested callbacks.',
     lambda tier: broad(tier, core('rows', 'multi', 'options', 'steps', 'global', kinds=['protocol', 'missed', 'error']), ['protocol'], []), NOTE)

T_ENUM = 'exhaustive enumeration of bounded operand tuples and operation sequences on the real code against an independent reference'


def runs_of(engine, *families, kinds=None, variant='plain', cap=None, extra=()):
    return [dict(engine=engine, variant=variant, args=(['--family=' + f] if f else []) + list(extra), kinds=kinds, **({'cap': cap} if cap else {})) for f in families]


prop('P18', 'every operation on every pair and triple of operands of an alphabet around machine word boundaries, in every mixture of operand types and every aliasing, '
     'and all sequences of compound operations up to the bound; every result is compared with GMP and must be canonical.',
     runs_of('numbers', 'ops', 'seq', kinds=['number', 'hang']) + runs_of('numbers', 'ops', 'seq', kinds=['number', 'hang'], variant='imath'), 'All operand tuples of the alphabet and all operation sequences up to the bound; trusts GMP as the reference.', T_ENUM)
prop('P20', 'from every matrix of the alphabet all sequences of pivots and element updates up to the depth are executed on the real tableau, without merging states (equal matrices may differ in their lazy column lists); '
     'after each step every cell, row and column traversal, reference and the cell count are compared with a dense exact reference.',
     lambda tier: runs_of('tableau', '', kinds=['tableau', 'hang']) + (runs_of('tableau', '', kinds=['tableau', 'hang'], variant='imath') if tier != 'quick' else []), 'All matrices of the alphabet (up to 3 by 3, small entries) and all sequences up to the bound; trusts the dense reference.', 'explicit-state exploration of all pivot sequences over small matrices, each transition executed on the real code')

T_PARSE = 'exhaustive enumeration of bounded syntax trees through the real grounder and library against an independent evaluator'
N_PARSE = 'All trees of the grammar up to the stated size over the alphabet of leaves; equality of linear forms is decided by exact values at a generic point; trusts the independent evaluator and clingo\'s own parser.'
prop('P14', 'all expression trees up to the bound (integers, decimals, variables, + - * / and negation, printed with minimal and with full parentheses) in every position of a constraint and in objectives, all names with arithmetic in their arguments, '
     'all short and many long decimals; the values reported by the library are compared with an exact evaluation of the tree, the names with the evaluated names.',
     runs_of('parse', 'expr', 'objective', 'names', 'decimals', kinds=['value', 'refused', 'hang', 'error']), N_PARSE, T_PARSE)
prop('P15', 'every combination of ill-formed term, enclosing term and position in an atom, all malformed shapes of atoms, and all nonlinear or undefined expression trees up to the bound are given to the library, each in programs of their own; each has to be refused with an error (and never accepted or crash).',
     runs_of('parse', 'illformed', 'expr', 'objective', 'names', kinds=['accepted', 'error']) + runs_of('parse', 'illformed', kinds=['accepted', 'error'], variant='san'), N_PARSE, T_PARSE)
prop('P16', 'for all operands, relations, right-hand sides and points, whether a conditional &diff or &dom can hold is decided by the library (under assumptions) and compared with the exact relation, together with the &sum form; optima over domains and differences are compared with the bounds.',
     runs_of('parse', 'shortcuts', kinds=['value', 'refused', 'accepted', 'error']), N_PARSE, T_PARSE)
prop('P19', 'all decimals up to a length over an alphabet of digits (and selected numbers at word boundaries and up to hundreds of thousands of digits) are read and reported by the library and compared as text; all values of an alphabet are printed, compared and read back; every text up to a length is given to the number parser; every value reported in strict families must be canonical.',
     runs_of('numbers', 'text', kinds=['text', 'number']) + runs_of('numbers', 'text', kinds=['text', 'number'], variant='imath') + runs_of('parse', 'decimals', 'expr', kinds=['value', 'refused', 'error']) + core('bounds-strict', kinds=['format']) + real('strict', 'big', kinds=['format']), N_PARSE, T_PARSE)

T_THR = 'stateless model checking of the real code under a controlled thread scheduler with a preemption bound, exact oracle and race detection'
E5 = ('Every thread of a search is a fiber; a controlled scheduler decides at every lock operation of the library and every callback boundary who runs next and enumerates all schedules up to the bound on preemptions '
      'for each pair or triple of search scripts; ')
N_THR = ('All schedules up to the preemption bound of all search scripts of the families (2 and 3 threads, up to 3 solve calls; in family wide up to 64 threads that run in ascending or descending order, with one preemption by a neighbour below 10 threads). Trusts the model of clasp\'s propagator contract (models are reported one at a time) and, for '
         'accesses that no schedule reorders, the happens-before race detector of ThreadSanitizer run on each explored schedule.')


def threads(*families, kinds=None, variant='plain', cap=None, extra=()):
    return runs_of('threads', *families, kinds=kinds, variant=variant, cap=cap, extra=extra)


prop('P12', E5 + 'the values, verdicts and clauses of each thread are compared with the exact oracle in each state, and ThreadSanitizer watches the same schedules for unsynchronised accesses.',
     lambda tier: threads('facts', 'mixed', 'objective', 'wide', kinds=['values', 'missed', 'entailment', 'access', 'format', 'error', 'protocol', 'deadlock', 'crash'])
     + threads('objective', kinds=['crash'], variant='tsan', extra=['--preempt=%d' % (1 if tier == 'quick' else 2)])
     + threads('facts', kinds=['crash'], variant='tsan', extra=['--every=%d' % (29 if tier == 'quick' else 3)]) + threads('mixed', kinds=['crash'], variant='tsan'), N_THR, T_THR)
prop('P13', E5 + 'the bounds a thread enforces and the values it reports are compared with the optima known to be complete before its check began and with the best value started so far.',
     lambda tier: threads('objective', 'objective3', 'wide', kinds=['stale', 'objective', 'global', 'entailment', 'missed', 'values', 'error', 'protocol', 'deadlock'])
     + (threads('objective', kinds=['stale', 'objective', 'global', 'entailment', 'missed', 'values', 'error', 'protocol', 'deadlock'], extra=['--preempt=3']) if tier == 'quick' else
        threads('objective3', kinds=['stale', 'objective', 'global', 'entailment', 'missed', 'values', 'error', 'protocol', 'deadlock'], extra=['--preempt=3', '--every=7'])), N_THR, T_THR)
prop('P23', E5 + 'pivots are counted independently at the tableau of each thread, propagated bounds at the clauses each thread adds, and compared with the step and accumulated statistics after each solve call.',
     threads('facts', 'mixed', 'wide', kinds=['statistics', 'error']) + threads('objective', kinds=['statistics', 'error'], extra=['--preempt=1']), N_THR, T_THR)

prop('P28', 'Two sessions (a theory, its control and their operations from creation to destruction) are run in one process in all interleavings, and with every run of consecutive operations of one within a model of the other; all answers of each are compared with the reference for its own program.',
     real('pairs', kinds=['models', 'values', 'objective', 'global', 'entailment', 'missed', 'access', 'stats', 'format', 'error', 'hang']),
     'All interleavings of two sessions of up to four operations for pairs of programs from the families; the references do not depend on the other session.',
     'exhaustive enumeration of the interleavings of two sessions on the real code and the real solver against an exact reference per session')

prop('P22', 'every documented value in every letter case, every string within one edit of one, all sequences of settings up to the bound through the key/value interface and all orders of options on command lines (through clingo\'s own option parser) are applied to the real library; '
     'a model of the options predicts acceptance, the option named in the error, and the final state of all options, which is decided from the behaviour of the theory on probe programs in the closed environment (one for each documented effect).',
     runs_of('config', 'values', 'sequences', 'cli-values', 'cli', kinds=['accepted', 'refused', 'message', 'effect', 'error']),
     'All strings and sequences within the bounds; the effects are decided on fixed probe programs. Objective steps with signs, blanks or decimal points and duplicate options on a command line are not documented and not judged.',
     'explicit-state exploration of all sequences of settings against an abstract model of the options, each executed on the real code and compared by observed behaviour')

prop('P24', 'all programs of a set covering the language and all programs of a small grammar are run under single options and combinations of options through the executable, the Python application and a '
     'reference driver that uses only the C interface (clingo\'s own loader instead of the rewriting pipelines, the assignment interface instead of symbols in the model); complete outputs, exit codes and errors are compared. '
     'Scripts of library calls (configuration, several steps, assumptions, externals, limits, symbol lookup, the assignment, statistics, failing steps, two theories at once in all orders) are run through the Python module and through C, comparing every returned value.',
     runs_of('frontends', 'single', 'pairs', 'programs', 'api', kinds=['frontend']),
     'All programs, option combinations and scripts of the stated product. Times are ignored. The reference shares the library (whose answers P01-P23 decide) but no code with the front ends.',
     'exhaustive enumeration of bounded programs and option combinations through all front ends, differential against an independent reference driver')
