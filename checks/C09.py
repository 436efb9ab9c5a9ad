LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Terms (each cost a polynomial; non-negativity and zero sets checked by TLC); generated costs, references, weights, times and points replayed into the real classes, every recorded cost decided by TLC'
NOTE = 'Ten cost classes, time-varying references and weights, references that fail at a time, worlds with 1 to 4 points per foot and shuffled layouts.'
def check(c, vlib):
    c.make('polyterms')
    c.model_check('TermsThm', 'TermsThm_c09.cfg')
    b = c.generate('TermsMC', 'TermsGen_c09.cfg', vlib.tier(300, 3000), 61)
    c.cov['samples'] = [b[0][:3]]
    c.conform('polyterms', 'TermsTrace', 'TermsTrace.cfg', b, 'values')
