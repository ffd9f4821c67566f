"""per property: number of runs, and what the evidence file says about them"""
INFO = {}
REAL = ['intvalpy: every Python module and the compiled interval kernel, rebuilt from the working tree',
        'numpy with OpenBLAS (one thread)', 'CPython threads, of which the simulator lets one run at a time']
RULE = 'one evaluation is one simulated run (plus the isolated reference runs it needs); distinct_nontrivial counts different ' \
       'histories (hash over every executed library line, seam call, fault and switch) of runs that meet the condition: '
MATH = 'small integers and dyadic fractions as data; systems up to 4 x 3, 2 or 3 unknowns'


def info(pid, quick, cond, stub=(), assumptions=(), real=(), factor=40):
    INFO[pid] = {'runs': {'quick': quick, 'thorough': quick * factor}, 'rule': RULE + cond,
                 'real': REAL + list(real), 'stub': list(stub), 'assumptions': list(assumptions)}


LP = 'cvxopt with GLPK (its answers are replaced only where a fault says so)'
PLT = 'matplotlib with the Agg renderer'
CB = 'user functions and user-defined numbers (written for the simulator)'
LINES = 'faults and switches inside compiled code happen only at its calls back into Python (user numbers, allocations)'
info('C01', 2600, 'at least two calls in one process', [CB], [LINES, 'the isolated re-execution of a call, in a process that only imported the library, is right by definition'], [LP, PLT, 'pandas'])
info('C02', 2900, 'more switches between threads than threads', [CB], [LINES, 'the OS never runs two Python threads at once (GIL); free-threaded builds are out of scope'], [LP, PLT])
info('C03', 3900, 'at least one nested call was really made', [CB], [LINES], [LP, PLT])
info('C04', 5900, 'all runs', [CB], [LINES], [LP, PLT, 'pandas'])
info('C05', 6500, 'the cancellation was really delivered', [CB], [LINES], [LP, PLT, 'pandas'])
info('C06', 6500, 'all runs', [CB], ['mode read with fegetround of the C library'], [LP])
info('C07', 5900, 'all runs', [CB], ['finite endpoints; int endpoints below 2**53; divisors without zero'])
info('C08', 3300, 'all runs', [], [MATH, 'hull from GLPK, compared with relative tolerance 1e-6; systems with an unbounded solution set are skipped'], [LP])
info('C09', 2300, 'at least one failure was really delivered', ['backend failures: raised or returned at the call into numpy.linalg or cvxopt'], [MATH], [LP])
info('C10', 5900, 'all runs', [CB], ['problem families with roots and minima known in closed form'])
info('C11', 4600, 'all runs', [CB], ['functionals recomputed from their definition in double precision, tolerance 1e-9'])
info('C12', 1600, 'at least one fit failed', [CB], [MATH, 'the penalty chosen by the library itself (no factor given) is not recomputed'], ['pandas'])
info('C13', 2300, 'all runs', [CB], ['settings listed in the statement; import-time settings are the baseline'], [LP, PLT])
info('C14', 800, 'all runs', ['the file system under savefig: a scratch directory with injected failures and torn writes', CB], ['figures compared by their artists, not by pixels'], [PLT])
info('C15', 7200, 'all runs', [CB], ['reference store: numpy index arithmetic over a list of intervals; scalar interval arithmetic itself is taken from the library (C07 decides it)'])
info('C16', 2000, 'more than twenty steps', [CB, 'backend failures: raised or returned at the call'], ['limits are about six times the worst work seen; a single call inside GLPK or LAPACK that never returns is reported as inconclusive'], [LP, 'pandas'])
info('C17', 900, 'all runs', [], ['systems with at most six interval entries and condition numbers below 1e9', 'the optimum of the functional is taken from the library (C11 decides it)'])
info('C18', 5900, 'all runs', [CB], ['ranges from mpmath with 200 bits; ends may fall short by 4 units in the last place (the mathematical library rounds so) and exceed the range by 1e-10',
     'trigonometric arguments up to 1e7; logarithms and roots of intervals within the domain'])
info('C19', 5900, 'all runs', [CB], ['operands with ends of magnitude 0 or 1e-60 to 1e60; int ends below 2**26; ends of sums, products and quotients may lie outwards of the exact ones by 1e-12 of the operands\' size'])
info('C20', 5900, 'all runs', [CB], ['values compared within 1e-12 of the operands\' size', 'khi of [0, 0], supercontain, non_repeat and intervals that touch within 1e-13 are not judged'])
info('C21', 3900, 'all runs', [], [MATH, 'hulls from GLPK, compared with relative tolerance 1e-6; residuals of formal solutions exact, tolerance 1e-8; formal solutions are judged from 200 iterations on'], [LP])
info('C22', 1800, 'all runs', [], [MATH, 'vertices from exact rational arithmetic, compared with tolerance 1e-7; the window chosen for an unlimited set is not judged, only that it meets the set and holds all vertices'], [])
