LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Plan checked by TLC; random operation histories replayed into State, Control, the translated guess and the exponential weight, validated by TLC'
NOTE = 'Every entry of both states and both controls compared after every mutation.'
def check(c, vlib):
    c.make('plan')
    c.model_check('PlanMC', vlib.tier('PlanMC.cfg', 'PlanMCbig.cfg'))
    b = c.generate('PlanMC', 'PlanGen.cfg', vlib.tier(120, 2000), 71)
    c.cov['samples'] = [b[0][:3]]
    c.conform('plan', 'PlanTrace', 'PlanTrace.cfg', b, 'calls')
