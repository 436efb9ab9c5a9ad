LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Problem derives the whole cost, every constraint row with its bounds and the dynamics rows of the assembled problem from the settings; the real Solver is given generated settings and the problem its optimizer is handed is evaluated at generated points, every value decided by TLC'
NOTE = 'All 24 costs with their weights, references and ranges, every complementarity formulation, 1 to 4 points per foot, 1 to 2 joints, random gravity, base link and frames. Constraint rows are compared as a multiset: their order is not observable behaviour.'
def check(c, vlib):
    c.make('solver', opt='-O1')
    c.model_check('ProblemThm', 'ProblemThm_terms.cfg')
    b = c.generate('SolverMC', 'SolverGen_terms.cfg', vlib.tier(170, 5000), 6)
    c.cov['samples'] = [[x['op'] for x in b[0]]]
    c.conform('solver', 'SolverTrace', 'SolverTrace_terms.cfg', b, 'terms', split=True, timeout=vlib.tier(600, 3000))
