LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specs Exprs (every shared symbolic quantity and its first and second derivatives from first principles), ExprsThm and ExprCache (protocol of the shared variables and of the labels), model checked; random histories of requests, states, times and evaluations replayed into the real server, every value decided by TLC'
NOTE = 'Robots of 2 to 5 links with names whose concatenations collide, two servers over the same robot objects, up to four instants, other users of the robot objects, free twist and desired quaternion variables sharing names; joint angles multiples of a quarter turn, base quaternions of squared norm 1 or 4. The momentum derivative along the joints for a twist other than the one of the state is not asked for (the server takes it from the state).'
def check(c, vlib):
    c.make('exprs')
    c.model_check('ExprCache', 'ExprCache.cfg')
    c.model_check('ExprsThm', vlib.tier('ExprsThm.cfg', 'ExprsThmDeep.cfg'), timeout=vlib.tier(600, 3000))
    b = c.generate('ExprsMC', 'ExprsGen.cfg', vlib.tier(1200, 16000), 61)
    c.cov['samples'] = [b[0][3:8]]
    c.conform('exprs', 'ExprsTrace', 'ExprsTrace.cfg', b, 'histories', split=True, timeout=vlib.tier(600, 3000))
