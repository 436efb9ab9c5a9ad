LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Terms.DynRow states the contact and momentum dynamics as polynomials (TLC checks that points couple only through the momentum); generated states, controls and activations replayed into the real dynamics, every entry decided by TLC'
NOTE = 'Worlds with 1 to 3 points per foot, shuffled layouts, unit and non-unit base quaternions, disabled, smooth and saturated activations.'
def check(c, vlib):
    c.make('terms')
    c.model_check('TermsThm', 'TermsThm_c13.cfg')
    b = c.generate('TermsMC', 'TermsGen_c13.cfg', vlib.tier(60, 600), 61)
    c.cov['samples'] = [b[0][:3]]
    c.conform('terms', 'TermsTrace', 'TermsTrace.cfg', b, 'dynamics')
