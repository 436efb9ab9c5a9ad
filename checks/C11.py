LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Terms computes symbolically which derivative cells can be nonzero; TLC decides that every declared pattern of the real terms covers them, stays inside the matrix and never changes, and that every returned nonzero entry is declared'
NOTE = 'Coverage is decided for all arguments at once (symbolically), for random parameters, layouts and numbers of points.'
def check(c, vlib):
    c.make('polyterms', 'terms')
    b = c.generate('TermsMC', 'TermsGen_c11.cfg', vlib.tier(250, 3000), 61)
    d = c.generate('TermsMC', 'TermsGen_c11dyn.cfg', vlib.tier(24, 300), 61)
    r = c.generate('RTermsMC', 'RTermsGen_c11.cfg', vlib.tier(40, 1200), 41)
    c.cov['samples'] = [b[0][:3]]
    c.conform('polyterms', 'SparsityTrace', 'SparsityTrace.cfg', b, 'patterns')
    c.conform('terms', 'SparsityTrace', 'SparsityTrace.cfg', d, 'dynamics')
    c.conform('terms', 'RTermsTrace', 'RTermsTrace.cfg', r, 'robot', extra=['shared'], split=True, timeout=vlib.tier(600, 3000))
