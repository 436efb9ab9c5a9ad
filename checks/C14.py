LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Robot (textbook kinematics, momentum and statics of a tree of links with integer geometry over the cube rotations; TLC checks its consistency: velocities are derivatives of poses, momentum, potential energy); generated robots, states and terms replayed into the real constraints and costs, every value decided by TLC'
NOTE = 'Random trees of up to four links, random additional frames, inertias, contact points, gravity, base quaternions of squared norm 1, 2 and 4, joints in quarter turns; all terms of a world share one set of robot data and expressions, as in the planner.'
def check(c, vlib):
    c.make('terms', 'polyterms')
    c.model_check('RobotThm', vlib.tier('RobotThm.cfg', 'RobotThmDeep.cfg'))
    r = c.generate('RTermsMC', 'RTermsGen_c14.cfg', vlib.tier(72, 1500), 41)
    b = c.generate('TermsMC', 'TermsGen_c14.cfg', vlib.tier(60, 600), 61)
    c.cov['samples'] = [r[0][:3]]
    c.conform('polyterms', 'TermsTrace', 'TermsTrace.cfg', b, 'posture', extra=['fresh'])
    c.conform('terms', 'RTermsTrace', 'RTermsTrace.cfg', r, 'values', extra=['shared'], split=True, timeout=vlib.tier(600, 3000))
