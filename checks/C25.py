LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Start (forward kinematics of module Robot, exact; force balance) and StartThm (design of the ground search and of the weight sharing, TLC); TLC-generated robots and sequences of calls replayed into the helpers, every returned state decided by TLC'
NOTE = 'Joint angles in quarter turns, rotations of the robot geometry from the cube group, vertical gravity; forces within 8 mN.'
def check(c, vlib):
    c.make('start')
    c.model_check('StartThm', vlib.tier('StartThm.cfg', 'StartThmDeep.cfg'), timeout=600)
    b = c.generate('StartMC', 'StartGen.cfg', vlib.tier(300, 8000), 49)
    c.cov['samples'] = [b[0][:3]]
    c.conform('start', 'StartTrace', 'StartTrace.cfg', b, 'starts', split=True, timeout=vlib.tier(300, 3000))
