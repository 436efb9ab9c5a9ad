LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specs SharedKin (every answer of the robot object from first principles), SharedKinThm and KinCache (protocol of the cached state), model checked; random histories of reconfigurations and queries replayed into the real object, every answer decided by TLC'
NOTE = 'Models of 2 to 5 links, several objects and copies, reloading, floating base, gravity and tolerance changes, refused states, all 16 queries in the three velocity representations; joint angles multiples of a quarter turn, base quaternions of squared norm 1, 2, 4.'
def check(c, vlib):
    c.make('kindyn')
    c.model_check('KinCache', 'KinCache.cfg')
    c.model_check('SharedKinThm', vlib.tier('SharedKinThm.cfg', 'SharedKinThmDeep.cfg'), timeout=vlib.tier(600, 2400))
    b = c.generate('SharedKinMC', 'SharedKinGen.cfg', vlib.tier(700, 12000), 61)
    c.cov['samples'] = [b[0][3:8]]
    c.conform('kindyn', 'SharedKinTrace', 'SharedKinTrace.cfg', b, 'histories', split=True, timeout=vlib.tier(600, 3000))
