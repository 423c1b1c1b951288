def P(variant, reg, quick, thorough, **k): return dict(variant=variant, reg=reg, quick=quick, thorough=thorough, **k)
def rate(S, num, den, limit, slack=5):
    """a violation when S[num] exceeds limit*S[den] by more than sampling noise allows (slack cases and 4 standard deviations)"""
    n, d = S.get(num, 0), S.get(den, 0); m = limit * d
    return n > m + slack + 4 * m ** 0.5
def sumof(S, pat):
    import fnmatch
    return sum(v for k, v in S.items() if fnmatch.fnmatchcase(k, pat))
CHECKS = {}
CHECKS['DBG'] = {'rule': '-', 'parts': [P('plain', 'dbg', 1, 1, files=['chk_dbg.cc'])]}

CHECKS['C01'] = {'rule': 'a problem solved with a set of tolerances and ended as optimal (fully or to reduced accuracy); distinct by problem data and tolerances',
    'parts': [P('plain', 'C01', 400000, 8000000), P('plain', 'C01dir', 12, 12), P('plain', 'C01corpus', 23, 23)],
    'floor': {'optimality verdicts/full': 100000, 'optimality verdicts/inacc': 1000, 'optimality verdicts compared with a known optimum': 20000}}
def postC02(S, M, R):
    o = []
    if rate(S, 'loose certificates of feasible problems', 'code PINF', 1e-4, 20): o.append(('cert/loose-rate', 'feasible problems are called infeasible or unbounded at loose tolerances %g times in %d runs' % (S['loose certificates of feasible problems'], R.done)))
    return o
CHECKS['C02'] = {'rule': 'a problem solved with a set of tolerances and ended with an infeasibility or unboundedness verdict; distinct by problem data and tolerances',
    'parts': [P('plain', 'C02', 400000, 8000000)], 'post': postC02, 'floor': {'infeasible verdicts/full': 40000, 'unbounded verdicts/full': 40000}}
# measured on the unchanged tree over 3 million problems: (share not decided, share decided to reduced accuracy only, mean iterations), about a third of the limits below
C03LIM = {'strict/lp': (2e-4, 3e-4, 8.2), 'strict/soc': (2e-4, 4e-4, 10.2), 'strict/exp': (6e-4, 6e-4, 20.5), 'planted/lp': (3e-4, 1e-3, 8.0), 'planted/soc': (4e-4, 8e-3, 9.2), 'planted/exp': (4e-4, 2e-2, 19.6),
    'infeasible/lp': (2.5e-3, 1e-3, 7.8), 'infeasible/soc': (4e-3, 1e-3, 8.4), 'infeasible/exp': (4e-4, 1e-3, 10.2), 'unbounded/lp': (4e-3, 1e-3, 8.4), 'unbounded/soc': (1.2e-3, 1e-3, 8.0), 'unbounded/exp': (8e-4, 1e-3, 18.5),
    'application/lp': (2e-4, 1e-3, 10.4), 'application/soc': (4e-4, 1e-3, 12.2), 'application/exp': (1e-3, 3e-3, 22.5), 'shapes/lp': (2e-4, 3e-4, 5.6), 'shapes/soc': (2e-4, 3e-4, 9.0), 'shapes/exp': (4e-4, 1.5e-3, 19.2),
    'strict/lp-large': (3e-3, 3e-3, 10.5), 'strict/soc-large': (3e-3, 3e-3, 11.9), 'strict/exp-large': (0.2, 2e-3, 23.5), 'planted/lp-large': (3e-3, 3e-3, 8.2), 'planted/soc-large': (3e-3, 0.06, 9.4), 'planted/exp-large': (0.08, 0.08, 24.5),
    'infeasible/lp-large': (3e-3, 3e-3, 7.8), 'infeasible/soc-large': (3e-3, 3e-3, 8.0), 'infeasible/exp-large': (3e-3, 3e-3, 8.8), 'unbounded/lp-large': (3e-3, 3e-3, 9.5), 'unbounded/soc-large': (3e-3, 3e-3, 8.7), 'unbounded/exp-large': (0.06, 3e-3, 19)}
def postC03(S, M, R):
    o = []
    for g, (miss, red, it) in C03LIM.items():
        n = S.get('n/' + g, 0)
        if n < 100: continue
        if rate(S, 'missed/' + g, 'n/' + g, miss): o.append(('wp/missed/' + g, '%d of %d %s problems were not decided (limit %g)' % (S['missed/' + g], n, g, miss)))
        if rate(S, 'reduced/' + g, 'n/' + g, red): o.append(('wp/reduced/' + g, '%d of %d %s problems were decided to reduced accuracy only (limit %g)' % (S['reduced/' + g], n, g, red)))
        if S.get('it/' + g, 0) / n > it: o.append(('wp/mean-iterations/' + g, '%s problems took %.2f iterations on average, limit %g' % (g, S['it/' + g] / n, it)))
    return o
CHECKS['C03'] = {'rule': 'a problem that is well-posed by construction (strict feasibility, a planted optimum, or an interior certificate) solved with default settings; distinct by problem data',
    'parts': [P('plain', 'C03', 500000, 8000000), P('plain', 'C03shapes', 6912 * 4, 6912 * 40), P('plain', 'C03corpus', 23, 23)], 'post': postC03,
    'floor': {'n/strict/lp': 5000, 'n/strict/soc': 5000, 'n/strict/exp': 5000, 'n/infeasible/exp': 5000, 'n/unbounded/exp': 5000, 'n/infeasible/lp': 2000, 'n/unbounded/lp': 2000}}
CHECKS['C04'] = {'rule': 'a solve (any exit code) whose reported statistics were recomputed from the returned point; distinct by problem data, iteration limit and round',
    'parts': [P('plain', 'C04', 400000, 8000000)], 'floor': {'points compared/OPTIMAL': 50000, 'points compared/MAXIT': 5000, 'points compared/PINF': 5000, 'points compared/DINF': 5000, 'points compared/NUMERICS': 200, 'points compared/SIGINT': 1000, 'solves of updated data': 10000}}

_A = 'Assurance: every execution of the run was judged by the monitor; inputs are generated, so absence of a violation is evidence and not proof. '
NOTES = {
 'C01': ('runtime monitor over generated solves: every optimality verdict re-verified in long double from the user data', _A + 'Trusts the long double recomputation (harness/mon.cc) and the tolerances in DESIGN.md.'),
 'C02': ('runtime monitor over generated solves: every certificate re-verified in long double from the user data', _A + 'Trusts the generators of problems with interior certificates.'),
 'C03': ('runtime monitor over problems well-posed by construction: verdict, objective, iteration and failure-rate monitors', _A + 'Rates are compared with limits measured on the unchanged tree (about three times the observed rate).'),
 'C04': ('runtime monitor over all exits: statistics recomputed from the returned point', _A),
}
CHECKS['C05'] = {'rule': 'a sequence of setup, up to three solves with varying limits, interrupts and entry updates, and cleanup, after which every array of the user was compared; distinct by problem data and sequence',
    'parts': [P('plain', 'C05', 250000, 6000000), P('altequil', 'C05', 30000, 600000, optional=True), P('idequil', 'C05', 10000, 200000, optional=True), P('plain', 'C05bb', 12000, 300000)]}
def postC06(S, M, R):
    o = []
    for g in ('robust', 'other'):
        D, B = S.get('compared/%s/disturbed' % g, 0), S.get('compared/%s/perturbed' % g, 0)
        for m in ('verdicts differ', 'iterations differ by more than 1', 'x differs by more than 1e-6', 'x differs by more than 1e-3'):
            n, e = S.get('%s/%s/disturbed' % (m, g), 0), D * S.get('%s/%s/perturbed' % (m, g), 0) / max(B, 1)
            if n > 4 * e + 12: o.append(('hist/%s/%s' % (m.replace(' ', '-'), g), '%s in %d of %d disturbed workspaces, a rounding error in the data explains %.1f' % (m, n, D, e)))
    return o
CHECKS['C06'] = {'rule': 'a problem solved in a fresh workspace, in a second fresh one and in one that was disturbed by up to three other calls; distinct by problem data and disturbances',
    'parts': [P('plain', 'C06', 120000, 3000000)], 'post': postC06}
def postUpd(pre):
    def f(S, M, R):
        return [(k.replace('hist', pre, 1), m) for k, m in postC06(S, M, R)]
    return f
CHECKS['C07'] = {'rule': 'a workspace taken through one to five updates (entries of h or c, all data with new, reused or mixed arrays) with solves in between, compared with fresh workspaces; distinct by final data and sequence',
    'parts': [P('plain', 'C07', 150000, 4000000)], 'post': postUpd('upd')}
CHECKS['C08'] = {'rule': 'a sequence of API calls on up to a dozen live workspaces executed under AddressSanitizer, UndefinedBehaviorSanitizer and the heap monitor; distinct by the problems and the operations',
    'parts': [P('asan', 'C08', 36000, 1500000), P('asan32', 'C08', 12000, 500000), P('plain', 'C08', 80000, 3000000), P('asan', 'C08shapes', 12000, 400000), P('asan', 'C08corpus', 16, 23)],
    'floor': {'continuous setups': 50000, 'mixed-integer setups': 20000, 'rejected setups': 10000, 'updates of all data': 10000, 'heap blocks followed': 1000000}}

NOTES.update({
 'C05': ('heap-copy monitor: all arrays of the user are compared with pristine copies during and after sequences of calls', _A),
 'C06': ('differential runtime monitor: a disturbed workspace against a fresh one of the same problem, rounding differences judged against those of perturbed data', _A),
 'C07': ('differential runtime monitor: an updated workspace against a fresh one set up with the final data', _A),
 'C08': ('AddressSanitizer, UndefinedBehaviorSanitizer and a heap ledger over generated sequences of API calls', _A + 'Sanitizers see only the executed paths; uninitialised reads are the subject of C09.'),
})
CHECKS['C09'] = {'rule': 'a sequence of calls on one workspace executed with at least three different contents of fresh memory, or under MemorySanitizer; distinct by problem data and sequence',
    'parts': [P('plain', 'C09', 120000, 4000000), P('plain', 'C09bb', 12000, 400000), P('msan', 'C09', 40000, 1000000), P('msan', 'C09bb', 5000, 120000), P('msan', 'C09corpus', 16, 23)]}
NOTES['C09'] = ('MemorySanitizer, and a differential monitor over heap contents: identical call sequences must give bit-identical results whatever fresh memory holds', _A)
CHECKS['C10'] = {'rule': 'a problem solved several times in one workspace with interrupts at chosen iterations or arbitrary instructions, each followed by an undisturbed solve; distinct by problem data and verdicts',
    'parts': [P('plain', 'C10', 40000, 1500000), P('plain', 'C10any', 8000, 300000), P('plain', 'C10bb', 6000, 200000), P('noctrlc', 'C10', 4000, 100000)],
    'floor': {'interrupted': 10000, 'interrupts taken by the solver at an arbitrary instruction': 5000, 'mixed-integer interrupts taken at an arbitrary instruction': 500, 'dispositions compared': 10000}}
NOTES['C10'] = ('fault injection with runtime monitors: interrupts at chosen iterations and at arbitrary instructions; monitors for verdict, delay, signal disposition, user data and the next solve', _A)
def postC13(S, M, R):
    o = []
    if rate(S, 'wrong optima from inaccurate relaxations, exponential cones', 'optima with exponential cones', 0.03, 10): o.append(('bf/inaccurate-rate', '%g of %g optima with exponential cones are wrong because of inaccurate relaxations' % (S['wrong optima from inaccurate relaxations, exponential cones'], S['optima with exponential cones'])))
    if rate(S, 'wrong optima from inaccurate relaxations, no exponential cones', 'compared with the best assignment', 3e-4, 3): o.append(('bf/inaccurate-rate', '%g optima without exponential cones are wrong because of inaccurate relaxations' % S['wrong optima from inaccurate relaxations, no exponential cones']))
    if rate(S, 'not decided', 'solves', 0.03, 10): o.append(('bf/undecided-rate', '%g of %g solves were not decided' % (S['not decided'], S['solves'])))
    return o
CHECKS['C13'] = {'rule': 'a mixed-integer problem whose integer assignments were enumerated exhaustively and compared with one to three solves; distinct by problem data',
    'parts': [P('plain', 'C13', 40000, 1000000)], 'post': postC13, 'floor': {'compared with the best assignment': 20000, 'compared with an exhausted enumeration': 5000}}
NOTES['C13'] = ('runtime oracle: verdict and value of every mixed-integer solve compared with exhaustive enumeration of the integer assignments', _A + 'The enumeration solves continuous subproblems with the solver under test, whose results C01 to C03 judge.')
def postC14(S, M, R):
    if rate(S, 'given up before the node limit, relaxations not limited', 'solves', 0.02, 10): return [('bb/gave-up-rate', '%g of %g solves ended before the node limit without a verdict' % (S['given up before the node limit, relaxations not limited'], S['solves']))]
    return []
CHECKS['C14'] = {'rule': 'a mixed-integer problem solved under one to three settings (strategy, selection, tolerances, node limit, limited relaxations) with verdict, point and bounds checked; distinct by problem data and verdicts',
    'parts': [P('plain', 'C14', 26000, 800000)], 'post': postC14, 'floor': {'solutions checked': 15000, "'no solution' checked": 4000, 'optima confirmed': 15000}}
NOTES['C14'] = ('runtime oracle on every exit of the mixed-integer solver: point, integrality, cost, bounds and verdict against the user data and exhaustive enumeration', _A)
CHECKS['C11'] = {'rule': 'a problem solved under several limits and tolerances with every iterate recorded, solved with extreme data or settings, or solved with its output captured; distinct by problem data and verdicts',
    'parts': [P('plain', 'C11', 70000, 2000000), P('plain', 'C11ext', 70000, 2500000), P('plain', 'C11out', 40000, 1000000)],
    'floor': {'exits predicted': 150000, 'points traced to an iterate': 200000, 'earlier iterates recovered': 20000, 'silent solves': 10000, 'solves with output': 10000}}
NOTES['C11'] = ('trace monitor: every exit is compared with the one that the documented criteria demand of the recorded iterates; output captured and matched with the iterates', _A)
def postC12(S, M, R):
    o = []
    if rate(S, 'verdict differs without interior', 'compared/no interior', 1e-3): o.append(('eqv/no-interior-rate', '%g of %g verdicts change when equalities are stated as inequalities' % (S['verdict differs without interior'], S['compared/no interior'])))
    for k in [k for k in S if k.startswith('iterations with ')]:
        a, b = S[k], S.get('original ' + k, 0)
        if b > 5000 and a > 1.15 * b: o.append(('eqv/iterations/' + k[16:].replace(' ', '-'), 'reformulated problems (%s) take %g iterations, the originals %g' % (k[16:], a, b)))
    for k in [k for k in S if k.startswith('compared/')]:
        g = k[9:]; n = S.get('decided in one formulation only/' + g, 0)
        if rate(S, 'decided in one formulation only/' + g, k, 5e-3): o.append(('eqv/undecided-rate/' + g, '%g of %g reformulated problems (%s) are decided in one formulation only' % (n, S[k], g)))
    return o
CHECKS['C12'] = {'rule': 'a problem and one of its reformulations solved and compared; distinct by problem data and transformations',
    'parts': [P('plain', 'C12', 300000, 6000000)], 'post': postC12, 'floor': {'values compared': 200000, 'solutions mapped back': 200000, 'compared/infeasible/soc': 10000, 'compared/unbounded/soc': 10000}}
NOTES['C12'] = ('metamorphic runtime monitor: verdict, value and mapped-back solution of reformulated problems compared with the original', _A)
def postC15(S, M, R):
    o = []; K = 'values that differ because of inaccurate relaxations'
    if rate(S, K, 'values compared/exponential cones', 0.045, 10): o.append(('agree/inaccurate-rate', '%g of %g values differ because of inaccurate relaxations' % (S[K], S['values compared/exponential cones'])))
    if rate(S, K + '/no exponential cones', 'values compared', 3e-4, 3): o.append(('agree/inaccurate-rate', '%g values differ without exponential cones because of inaccurate relaxations' % S[K + '/no exponential cones']))
    if rate(S, 'not decided', 'solves', 0.03, 10): o.append(('agree/undecided-rate', '%g of %g solves were not decided' % (S['not decided'], S['solves'])))
    U, W = 'undecided at the limit of nodes although another strategy needs fewer than 100', 'answers where another strategy needs fewer than 100 nodes'
    if rate(S, U, W, 2e-3, 10): o.append(('agree/undecided-rate', '%g of %g runs reach the limit of 3000 nodes although another strategy needs fewer than 100' % (S[U], S[W])))
    return o
CHECKS['C15'] = {'rule': 'a mixed-integer problem solved with several strategies, selections, thresholds, random seeds and declarations; distinct by problem data',
    'parts': [P('plain', 'C15', 6000, 200000)], 'post': postC15, 'floor': {'values compared': 30000, 'infeasible problems': 500, 'unbounded problems': 200, 'permuted declarations': 8000}}
NOTES['C15'] = ('differential runtime monitor: verdicts, values and bounds of runs with different search settings and declarations of one problem compared with each other', _A)
def postC16(S, M, R):
    o = []; K = 'values that differ because of inaccurate relaxations'
    if rate(S, K, 'values compared/exponential cones', 0.045, 10): o.append(('hist/inaccurate-rate', '%g of %g values differ because of inaccurate relaxations' % (S[K], S['values compared/exponential cones'])))
    if rate(S, K + '/no exponential cones', 'values compared', 3e-4, 3): o.append(('hist/inaccurate-rate', '%g values differ without exponential cones because of inaccurate relaxations' % S[K + '/no exponential cones']))
    if rate(S, 'not decided', 'solves', 0.03, 10): o.append(('hist/undecided-rate', '%g of %g solves were not decided' % (S['not decided'], S['solves'])))
    if rate(S, 'answers that depend on the integrality tolerance', 'values compared', 1e-3, 5): o.append(('hist/illposed-rate', '%g answers depend on the integrality tolerance' % S['answers that depend on the integrality tolerance']))
    return o
CHECKS['C16'] = {'rule': 'a history of solves, entry updates, changed settings, limits and interrupts on one mixed-integer workspace; distinct by the data of the problem solved',
    'parts': [P('plain', 'C16', 9000, 400000)], 'post': postC16, 'floor': {'values compared': 15000, 'solves after updates': 10000, 'solves after disturbed ones': 5000, 'settings changed': 3000, 'solves stopped by the limit': 500, 'solves interrupted': 1000}}
NOTES['C16'] = ('differential runtime monitor: every solve in a history of one mixed-integer workspace compared with a fresh workspace for the same problem and settings; user arrays compared after cleanup', _A)
def postC17(S, M, R):
    o = []
    for g in [k[13:] for k in S if k.startswith('fill compared/')]: # 1.004 or less on the unchanged tree
        a, b = S['nonzeros of compared factors' + g], S['nonzeros of factors by exact minimum degree' + g]
        if S['fill compared' + g] >= 100 and a > (1.06 if 'large' in g else 1.025) * b: o.append(('amd/quality-rate', 'the orderings (%s) need %g nonzeros, exact minimum degree needs %g' % (g[1:], a, b)))
    return o
CHECKS['C17'] = {'rule': 'one sparsity pattern, storage and control setting; distinct by the stored pattern',
    'parts': [P('plain', 'C17', 240000, 5000000), P('int32', 'C17', 80000, 2000000), P('asan', 'C17', 40000, 700000), P('msan', 'C17', 16000, 200000), P('asan32', 'C17', 16000, 300000)], 'post': postC17, 'floor': {'orderings': 250000, 'patterns without fill': 80000, 'fill compared': 40000}}
NOTES['C17'] = ('runtime monitor of the ordering routine: permutation, untouched input, documented statistics against an independent symbolic factorisation, fill against no-fill patterns and exact minimum degree, malformed input and failing allocations, under sanitizers', _A)
CHECKS['C22'] = {'rule': 'a pair of interior points of a product of cones, or the iterates of a solve; distinct by the points or by the problem data',
    'parts': [P('plain', 'C22', 1600000, 40000000), P('asan', 'C22', 120000, 2000000), P('plain', 'C22solve', 60000, 1000000)], 'floor': {'scalings': 1200000, 'divisions': 1200000, 'iterates': 250000, 'KKT matrices': 40000}}
NOTES['C22'] = ('runtime monitor: cone operations executed on generated interior points and judged against long-double references; scaled variables and KKT matrices of real solves observed through a hook', _A)
CHECKS['C23'] = {'rule': 'an interior point of the dual exponential cone (with its conjugate), an argument of the special function, or a solve; distinct by value',
    'parts': [P('plain', 'C23', 1600000, 50000000), P('plain', 'C23omega', 60000, 2000000), P('plain', 'C23solve', 24000, 500000), P('asan', 'C23', 80000, 1000000), P('gcc', 'C23', 200000, 3000000), P('asan', 'C23omega', 4000, 50000)], 'floor': {'points': 800000, 'definite Hessians': 300000, 'barrier values': 300000, 'special function values': 1000000, 'scalings in solves': 50000}}
NOTES['C23'] = ('runtime monitor: exponential-cone routines executed on generated points and judged against long-double references (automatic differentiation of the barrier, Newton iteration for the special function); Hessians of real solves observed through a hook', _A)
def postC21(S, M, R):
    o = []; well = ('strict', 'planted', 'application', 'shapes')
    for f in well + ('infeasible', 'unbounded', 'nasty'):
        for k in ('lp', 'soc', 'exp'):
            g = f + '/' + k
            if S.get('iterates/' + g, 0) < 1000: continue
            def lim(num, den, limit, slack, key, what):
                if rate(S, num + '/' + g, den + '/' + g, limit, slack): o.append(('it/%s-rate/%s' % (key, g), '%s in %d of %d (%s)' % (what, S[num + '/' + g], S[den + '/' + g], g)))
            lim('outside', 'iterates', 1e-3 if f == 'nasty' else 1e-4, 10, 'outside', 'the iterate left the cones')
            lim('not finite', 'iterates', 2e-5, 3, 'not-finite', 'the iterate is not finite')
            lim('beyond the boundary', 'steps', 1e-3 if f == 'nasty' else 2e-5, 5, 'boundary', 'the step went too far towards the boundary')
            if f != 'nasty':
                lim('mu grew', 'steps', {'planted/exp': 1e-2, 'strict/exp': 3e-4}.get(g, 1e-4 if k != 'exp' else 5e-4), 5, 'mu', 'complementarity grew')
                lim('initial residual beyond 1e-9', 'initial systems', 5e-3 if f == 'unbounded' else 2e-4, 5, 'initial-system', 'the initial systems are not solved')
            lim('relative direction beyond 1e-4', 'directions', 1e-2 if f == 'nasty' else 2e-3, 5, 'direction', 'the search direction is inaccurate')
            lim('direction beyond 1e-6', 'iterates', 1e-4, 5, 'direction', 'the search direction is inaccurate')
            if f in well: # well conditioned iterates
                for b, t, l in ((0, '1e-10', 1e-4), (1, '1e-09', 0.06), (2, '1e-09', 0.1)):
                    if g == 'shapes/soc' and b: continue
                    n, d = 'residual beyond %s/%s/%d' % (t, g, b), 'systems/%s/%d' % (g, b)
                    if rate(S, n, d, l if k != 'lp' else 1e-4): o.append(('it/system-rate/' + g, 'the linear systems are not solved to %s in %d of %d (%s, conditioning class %d)' % (t, S[n], S[d], g, b)))
    return o
CHECKS['C21'] = {'rule': 'a problem solved with every iterate observed; distinct by problem data',
    'parts': [P('plain', 'C21', 600000, 12000000), P('gcc', 'C21', 100000, 2000000), P('int32', 'C21', 100000, 2000000), P('O3', 'C21', 100000, 2000000)], 'post': postC21,
    'floor': {'iterates': 4000000, 'systems/strict/lp/0': 10000, 'systems/strict/soc/0': 10000, 'systems/strict/exp/0': 10000, 'initial systems/strict/lp': 10000}}
NOTES['C21'] = ('runtime monitor on every iterate of real solves (callback under the hook define): cone membership, fraction to the boundary, complementarity, residual of the linear systems and reduction of the homogeneous residuals, recomputed in long double', _A + 'Rates are compared with limits measured on the unchanged tree.')
CHECKS['C20'] = {'rule': 'a sparse matrix with vectors, a symmetric matrix with signs, or a problem whose KKT systems were solved with random right-hand sides; distinct by the data',
    'parts': [P('plain', 'C20', 600000, 40000000), P('plain', 'C20ldl', 600000, 20000000), P('plain', 'C20kkt', 90000, 2000000), P('asan', 'C20', 60000, 2000000), P('asan', 'C20ldl', 60000, 2000000), P('int32', 'C20', 20000, 4000000), P('int32', 'C20ldl', 20000, 4000000)]}
def postC20(S, M, R):
    o = []
    for g in ('strict', 'planted', 'application'):
        for k in ('lp', 'soc', 'exp'):
            for b in (0, 1):
                d = 'systems/%s/%s/%d' % (g, k, b); 
                for t, l in (('1e-10', 4e-2 if b and k == 'soc' else 5e-3 if b else 5e-4), ('1e-8', 2e-2 if b and k == 'soc' and g == 'planted' else 5e-3 if b else 1e-4)):
                    n = 'residual beyond %s/%s/%s/%d' % (t, g, k, b)
                    if S.get(d, 0) > 500 and rate(S, n, d, l * 2): o.append(('kkt/residual-rate/%s/%s' % (g, k), 'the KKT systems are not solved to %s in %d of %d (%s/%s, conditioning class %d)' % (t, S[n], S[d], g, k, b)))
    return o
CHECKS['C20'].update(post=postC20, floor={'systems/strict/lp/0': 500, 'systems/strict/soc/0': 500, 'systems/strict/exp/0': 500, 'systems solved': 50000, 'triangular solves': 200000, 'transposes': 50000, 'symmetric permutations': 50000, 'products': 200000, 'factorisations': 50000})
NOTES['C20'] = ('runtime monitor: sparse kernels, permutations, symbolic and numeric factorisation and triangular solves executed on generated matrices and judged entry by entry against dense long-double references; KKT systems of real solves (hook) solved with random right-hand sides and their residual recomputed; address and undefined-behaviour sanitizers on the same runs', _A)
CHECKS['C18'] = {'rule': 'two to eight threads that set up, solve, update and clean up their own problems at the same time; distinct by the script of each thread',
    'parts': [P('tsan', 'C18', 1500, 60000), P('plain', 'C18', 12000, 600000), P('gcc', 'C18', 3000, 100000), P('plain', 'C18int', 3000, 60000)]}
NOTES['C18'] = ('ThreadSanitizer on concurrent solves, and a differential monitor: every thread must reproduce bit for bit the results of running alone; monitor of the signal disposition', _A + 'Schedules are those the kernel and injected delays produce. The shared rand() of the C library is replaced by one sequence per thread, or the branching order would depend on the other threads.')
CHECKS['C18']['floor'] = {'iterations while another thread was at work': 200000, 'scripts with the results of running alone': 20000, 'results compared': 2000000}
def postC19(S, M, R):
    o = []; import collections
    base = {'C19': R.res.get('plain-C19', {}), 'C19bb': R.res.get('plain-C19bb', {})}; T = collections.Counter(); first = {}
    for part in R.parts:
        nm, reg, var = part['name'], part['reg'], part['variant']
        if var == 'plain' or reg not in base: continue
        for i, line in R.res.get(nm, {}).items():
            if i not in base[reg]: continue
            a, b = base[reg][i].split(' '), line.split(' ')
            if a[0] != b[0]: T['other data', var] += 1; continue
            fam = a[1]; g = 'robust' if fam in ('strict', 'planted', 'pinf', 'dinf', 'application', 'corpus') else 'mip' if fam == b[1] == 'mip' else 'other'; T['compared', var, g] += 1; T['compared', var] += 1
            if fam == 'stalling': g = 'stalling'; T['compared', var, g] += 1
            if a == b: T['bit-identical', var] += 1; continue
            ca, cb = int(a[2]), int(b[2])
            def note(kind):
                T[kind, var, g] += 1; first.setdefault((kind, var, g), (nm, i, line, base[reg][i]))
            if ca != cb:
                note('verdict differs')
                if g != 'mip' and ca >= 0 and cb >= 0 and ca % 10 != cb % 10: note('verdict contradicts')
                if g == 'mip' and (ca in (0, 10) and cb in (1, 11) or cb in (0, 10) and ca in (1, 11)): note('verdict contradicts')
                continue
            if g == 'stalling': # where a solve gives up depends on rounding, but these options have nothing to do with the arithmetic
                if var in ('noctrlc', 'noprint', 'profile') and a[8] != '-' and b[8] != '-':
                    xa, xb = [[float(v) for v in t.strip(',').split(',')] for t in (a[8], b[8])]; T['points compared', var, g] += 1
                    if not max(abs(p - q) for p, q in zip(xa, xb)) / (1 + max(map(abs, xa))) <= 1e-9: note('point differs')
                continue
            if ca == 0:
                x, y = float(a[3]), float(b[3]); e = abs(x - y) / (1 + abs(x)); R.maxs['objective difference/%s/%s' % (var, g)] = max(R.maxs.get('objective difference/%s/%s' % (var, g), 0), e)
                if not e <= (3e-5 if g == 'mip' else 2e-6 if g == 'robust' else 1e-5): note('objective differs')
                if a[8] != '-' and b[8] != '-':
                    xa, xb = [[float(v) for v in t.strip(',').split(',')] for t in (a[8], b[8])]; d = max(abs(p - q) for p, q in zip(xa, xb)) / (1 + max(map(abs, xa))); T['points compared', var] += 1
                    if not d <= 1e-3: note('point differs')
            if a[5] != b[5]: T['iterations differ', var, g] += 1
    for k, v in T.items(): S['/'.join(k)] = S.get('/'.join(k), 0) + v
    lim = {'verdict differs': (3e-3, 3e-2, 1e-2), 'verdict contradicts': (0, 4e-3, 0), 'objective differs': (0, 1e-2, 1e-3), 'point differs': (1e-3, 1, 1)}
    for (kind, var, g), (nm, i, l, bl) in first.items():
        n, d = T[kind, var, g], T['compared', var, g]
        if g == 'stalling': L = 0.5 if var not in ('noctrlc', 'noprint', 'profile') else 1e-4
        else: L = lim[kind][('robust', 'other', 'mip').index(g)]
        if var in ('noequil', 'altequil', 'idequil'): L = 1 if kind == 'point differs' else 3 * L # another problem numerically; degenerate problems have many solutions
        if n > L * d + (6 if L else 0): o.append(('opt/%s/%s/%s' % (kind.replace(' ', '-'), var, g), '%s from the default build in %d of %d problems, first %s case %d: "%s" instead of "%s"' % (kind, n, d, nm, i, l[:160], bl[:160])))
    return o
CHECKS['C19'] = {'rule': 'a problem solved by the library built in up to thirteen ways, verdicts and values compared; distinct by problem data',
    'parts': [P('plain', 'C19', 40000, 600000), P('plain', 'C19bb', 6000, 100000)] + [P(v, 'C19', n, 20 * n, optional=v in ('noprint', 'profile', 'dense', 'noequil', 'altequil', 'idequil')) for v, n in (('int32', 40000), ('gcc', 40000), ('O0', 20000), ('O3', 40000), ('noctrlc', 20000), ('noprint', 20000), ('profile', 10000), ('dense', 40000), ('noequil', 40000), ('altequil', 40000), ('idequil', 10000))] + [P(v, 'C19bb', n, 20 * n, optional=v in ('dense', 'noequil', 'noprint', 'altequil')) for v, n in (('int32', 6000), ('gcc', 4000), ('noctrlc', 3000), ('noprint', 3000), ('dense', 3000), ('noequil', 3000), ('altequil', 3000))],
    'post': postC19}
NOTES['C19'] = ('differential runtime monitor: the same generated problems solved by the library built with other index widths, compilers, optimisation levels, without interrupt support, printing or timing, with dense cones, with the other method of equilibration and without any; verdicts, values and points compared by the runner', _A + 'Options that are set by editing a header are compiled from a copy of the tree with the definition replaced.')
CHECKS['C19']['floor'] = {'compared/int32': 20000, 'compared/gcc': 20000, 'compared/O3': 10000, 'compared/noctrlc': 5000}
