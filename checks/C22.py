LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Foot: TLC proves the corner-weight theorems for all small feet; random wrench histories replayed into the code and validated by TLC'
NOTE = ('Weights, resultant force and moments are compared with exact rational values (tolerance 3/4096 N); tangential forces are only '
        'constrained through their resultant. Integer foot sizes and centres of pressure.')
def check(c, vlib):
    c.make('foot')
    c.model_check('FootMC', vlib.tier('FootMC.cfg', 'FootMCbig.cfg'))
    b = c.generate('FootMC', 'FootGen.cfg', vlib.tier(150, 2500), 41)
    c.cov['samples'] = [b[0][:8]]
    c.conform('foot', 'FootTrace', 'FootTrace.cfg', b, 'calls')
