LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Walking checked by TLC; random measured-state histories replayed into the state machine and validated by TLC'
NOTE = 'Published references (positions and ranges), result and identity of the published object compared after every call; times in sixteenths of a second, thresholds hit exactly on the boundary.'
def check(c, vlib):
    c.make('walking')
    c.model_check('WalkingMC', vlib.tier('WalkingMC.cfg', 'WalkingMCbig.cfg'))
    b = c.generate('WalkingMC', 'WalkingGen.cfg', vlib.tier(200, 3000), 61)
    c.cov['samples'] = [b[0][:4]]
    c.conform('walking', 'WalkingTrace', 'WalkingTrace.cfg', b, 'calls')
