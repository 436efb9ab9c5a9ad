LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Timely: TLC proves the cursor+bisection search refines "nearest" for all small lists; random reconfigure/get histories replayed into the code and validated by TLC'
NOTE = ('Search refinement exhaustive for all sorted lists over a grid of 7 instants and all request times and cursors; code bound by '
        'trace validation of object identities. Instants are sixteenths of a second, so time comparisons are exact.')
def check(c, vlib):
    c.make('timely')
    c.model_check('TimelyMC', vlib.tier('TimelyMC.cfg', 'TimelyMCbig.cfg'))
    b = c.generate('TimelyMC', 'TimelyGen.cfg', vlib.tier(200, 3000), 61)
    c.cov['samples'] = [b[0][:8]]
    c.conform('timely', 'TimelyTrace', 'TimelyTrace.cfg', b, 'calls')
