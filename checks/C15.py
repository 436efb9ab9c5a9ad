LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Solver (life of a solver; TLC checks all call orders over a small alphabet) and trace validation: generated call sequences run against the real Solver with an optimizer under our control, every answer, guess and result decided by TLC'
NOTE = 'Sequences of 16 calls: settings (valid, invalid, refused by the optimizer), initial states, guesses (usable, failing at an instant, null), optimizers (null, refused, replaced), integrators, solves which succeed, fail or give no solution.'
def check(c, vlib):
    c.make('solver', opt='-O1')
    c.model_check('SolverLife', 'SolverLife.cfg')
    b = c.generate('SolverMC', 'SolverGen_life.cfg', vlib.tier(160, 3000), 17)
    c.cov['samples'] = [[x['op'] for x in b[0]]]
    c.conform('solver', 'SolverTrace', 'SolverTrace_life.cfg', b, 'life', split=True, timeout=vlib.tier(600, 3000))
