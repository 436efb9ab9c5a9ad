LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec PosRef checked by TLC; random edit/query histories replayed into the generator and validated by TLC'
NOTE = 'Active entry, position and exact weight compared at every query of random edit histories (times in eighths of a second, range lengths powers of two).'
def check(c, vlib):
    c.make('posref')
    c.model_check('PosRefMC', vlib.tier('PosRefMC.cfg', 'PosRefMCbig.cfg'))
    b = c.generate('PosRefMC', 'PosRefGen.cfg', vlib.tier(120, 2000), 71)
    c.cov['samples'] = [b[0][:8]]
    c.conform('posref', 'PosRefTrace', 'PosRefTrace.cfg', b, 'calls')
