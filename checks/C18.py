LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specs Solver and Problem state the layout of guesses and plans; generated guesses and optimizer solutions pass through the real Solver, the guess vector handed over and the plan read back are decided entry by entry by TLC'
NOTE = '1 to 3 points per foot and joints, shifted initial times, instants with and without controls, several solves and reconfigurations in a row.'
def check(c, vlib):
    c.make('solver', opt='-O1')
    c.model_check('ProblemThm', 'ProblemThm_plan.cfg')
    b = c.generate('SolverMC', 'SolverGen_plan.cfg', vlib.tier(170, 4000), 9)
    c.cov['samples'] = [[x['op'] for x in b[0]]]
    c.conform('solver', 'SolverTrace', 'SolverTrace_plan.cfg', b, 'plan', split=True, timeout=vlib.tier(600, 3000))
