LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Activation (rational values at multiples of ln 2); identities checked by TLC; random histories replayed into the code and validated by TLC'
NOTE = ('Values and derivatives compared at distances that are integer multiples of ln 2 (where they are rational) with a fixed-point tolerance of about 1e-3; '
        'other distances are not looked at.')
def check(c, vlib):
    c.make('activation')
    c.model_check('ActivationMC', 'ActivationMC.cfg')
    b = c.generate('ActivationMC', 'ActivationGen.cfg', vlib.tier(80, 1500), 41)
    c.cov['samples'] = [b[0][:8]]
    c.conform('activation', 'ActivationTrace', 'ActivationTrace.cfg', b, 'calls')
