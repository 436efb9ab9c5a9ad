LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Problem states the bounds of every variable at every instant of the discretisation; generated settings and initial states are given to the real Solver and the bounds its optimizer is handed are decided entry by entry by TLC'
NOTE = '1 to 3 points per foot and joints, horizons up to 6 control periods with and without intermediate instants, shifted initial times, activation windows of the centre of mass target, optimizers with different infinities.'
def check(c, vlib):
    c.make('solver', opt='-O1')
    c.model_check('ProblemThm', 'ProblemThm_bounds.cfg')
    b = c.generate('SolverMC', 'SolverGen_bounds.cfg', vlib.tier(200, 5000), 9)
    c.cov['samples'] = [[x['op'] for x in b[0]]]
    c.conform('solver', 'SolverTrace', 'SolverTrace_bounds.cfg', b, 'bounds', split=True, timeout=vlib.tier(600, 3000))
