LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Levi (denotations; a squeezed expression denotes the same matrix); TLC-generated programs with squeezed expressions and collections replayed into the library, every value decided by TLC'
NOTE = 'Squeezed single expressions and named collections, re-evaluated after assignments; expressions compiled at run time are the subject of C26.'
def check(c, vlib):
    c.make('levi')
    b = c.generate('LeviMC', 'LeviGen_sqz.cfg', vlib.tier(2500, 30000), 31)
    c.cov['samples'] = [b[0][:12]]
    c.conform('levi', 'LeviTrace', 'LeviTrace.cfg', b, 'squeezed', split=True, timeout=vlib.tier(300, 3000))
