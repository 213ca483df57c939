BOUND = 'sound modulo the models of the standard library; real arithmetic instead of floating point'
T.update({
    'C01': (AI, 'every differentiable region of every function; ' + BOUND),
    'C02': (AI, 'every twice differentiable region of every function; ' + BOUND),
    'C03': ('abstract interpretation in a free term algebra of the floating operations', 'exact modulo commutativity and sign'),
    'C04': (AI, 'all kinds of operands; ' + BOUND),
    'C05': (AI + ' with summarised maps for arbitrarily many variables', 'all kinds of operands; ' + BOUND),
    'C06': ('relational abstract interpretation of both operations on the same abstract operands', BOUND),
    'C07': (AI, 'all kinds of operands, arbitrarily many variables; ' + BOUND),
    'C08': ('typestate analysis over bounded call sequences by abstract interpretation', 'sequences up to 3 (thorough 4) operations; ' + BOUND),
    'C09': (AI, 'every sparsity pattern up to 3 variables (thorough 4), selected wider ones; ' + BOUND),
    'C14': (AI + ' with exception outcomes', BOUND),
    'C16': (AI, BOUND),
    'C10': (AI, 'every sparsity pattern up to 3 variables (thorough 4); ' + BOUND),
    'C11': (AI, 'every overlap and sparsity pattern up to 3 variables; ' + BOUND),
    'C12': (AI + ' of iterators and lookups', 'every sparsity pattern up to 4 variables (thorough 5)'),
    'C13': ('effect analysis of the typed syntax tree and abstract interpretation with interference from other threads', 'all atomic accesses, all constructors, every pair of constructions; std::atomic trusted; fewer than 2^31 variables; constants, copies and operations are shown not to reach the counter'),
    'C17': ('effect analysis of the typed syntax tree', 'every function, record and static object of the library instantiated for both classes and modes; the standard containers are trusted not to write through const access'),
    'C18': (AI, 'matrices up to 4x4 (thorough 6x6); ' + BOUND),
    'C19': (AI + ', the factorisation replaced by its contract', 'matrices up to 3x3 (thorough 4x4); ' + BOUND),
    'C20': (AI, 'all parameter values; ' + BOUND),
    'C21': (AI + ' with uninterpreted user functions and Taylor expansion in the step', 'every smooth function; ' + BOUND),
    'C23': ('type-level witnesses (programs that must compile and link)', 'each header alone, every ordered pair, 20 whole orders (thorough 80), 4 dialects, 2 compilers, built-in and user-defined types; the witnesses stand for all uses of a template'),
    'C24': ('type-level flow analysis of the typed syntax tree of the long double instantiation', 'every function reachable from an operation; the standard library and Eigen are trusted to compute in the type they are instantiated with'),
    'C25': (AI + ', the eigenvalue solver replaced by its contract', 'all sign patterns of the eigenvalues; ' + BOUND),
    'C15': (AI + ' with exception outcomes', 'every guard of every function that documents an exception, all values of the guarded parameters; ' + BOUND),
    'C22': (AI + ' in a decimal-digit domain (numbers as symbolic digit strings times powers of ten)', 'magnitudes and digit counts enumerated, digits symbolic; exact arithmetic instead of floating point'),
    'C28': (AI + ' with a monitor of traversals and copies of summarised tables', 'any number of variables; structural cost (traversals and copies), logarithmic factors of std::map taken from its contract'),
    'C30': (AI + ' with summarised tables', 'every representation, arbitrarily many variables, sequences of up to two operations; ' + BOUND),
    'C31': (AI + ' with the class of every number unknown', 'up to 3 variables (thorough 4), every sparsity pattern'),
    'C32': ('compile-fail witnesses: programs that the type checker must reject, each with its accepted counterpart', 'every combination of class, mode and numerical type in conversions, assignments, operators, functions and accessors; clang 18 stands for a conforming compiler'),
    'C33': ('exception-effect analysis over the call graph; what it flags is confirmed or refuted by ' + AI, 'every function declared noexcept; the standard library throws where its specification says so; memory exhaustion left out'),
    'C34': (AI + ' with a monitor of container growth', 'all independent and constant operands, all one-argument functions; a map without entries owns no memory'),
    'C29': ('comparison of typed syntax trees across configurations and effect analysis of assertions', '19 orders, 4 sets of headers included before, NDEBUG, extern templates; assertions: all of the library'),
    'C26': (AI, 'all constructors, symbolic moments; ' + BOUND),
})
NA = {
    'C27': 'error bounds of floating-point evaluation quantify over run-time magnitudes; no sound static bound in reach for '
           'transcendental functions and data-dependent sums (a relative-error analysis would raise false alarms)',
}
