LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Terms (each constraint a polynomial over labelled variables and activation symbols) with its facts checked by TLC; generated constraints, bounds, parameter changes and evaluation points replayed into the real classes, every recorded value and bound decided by TLC'
NOTE = 'Nine constraint classes, worlds with 1 to 3 points per foot and shuffled variable layouts; values exact at points where the activations are rational.'
def check(c, vlib):
    c.make('polyterms')
    c.model_check('TermsThm', 'TermsThm_c08.cfg')
    b = c.generate('TermsMC', 'TermsGen_c08.cfg', vlib.tier(400, 4000), 61)
    c.cov['samples'] = [b[0][:3]]
    c.conform('polyterms', 'TermsTrace', 'TermsTrace.cfg', b, 'values')
