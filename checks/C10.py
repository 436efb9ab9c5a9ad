LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Terms differentiates each term symbolically (TLC checks the symbolic derivatives against exact differences); generated terms, points and multipliers replayed into the real derivative members, every entry decided by TLC'
NOTE = 'Gradients, Jacobians and the three second derivatives of nine constraints, ten costs and the dynamics; points where the activations have rational values (0, multiples of ln 2 over the scaling, saturated).'
def check(c, vlib):
    c.make('polyterms', 'terms')
    c.model_check('TermsThm', 'TermsThm_c10.cfg')
    c.model_check('RobotThm', vlib.tier('RobotThm.cfg', 'RobotThmDeep.cfg'))
    b = c.generate('TermsMC', 'TermsGen_c10.cfg', vlib.tier(250, 3000), 61)
    d = c.generate('TermsMC', 'TermsGen_c10dyn.cfg', vlib.tier(24, 300), 61)
    r = c.generate('RTermsMC', 'RTermsGen_c10.cfg', vlib.tier(40, 1200), 41)
    c.cov['samples'] = [b[0][:3]]
    c.conform('polyterms', 'TermsTrace', 'TermsTrace.cfg', b, 'derivatives', extra=['fresh'])
    c.conform('terms', 'TermsTrace', 'TermsTrace.cfg', d, 'dynamics')
    c.conform('terms', 'RTermsTrace', 'RTermsTrace.cfg', r, 'robot', extra=['shared'], split=True, timeout=vlib.tier(600, 3000))
