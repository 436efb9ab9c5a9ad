LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Levi (denotations; a compiled expression denotes the same matrix); TLC-generated programs whose expressions are compiled at run time, replayed into the library, every value decided by TLC'
NOTE = 'cmake is replaced by a stand-in that calls the compiler on the generated source; each compilation takes a second, which bounds the number of programs.'
def check(c, vlib):
    c.make('levic')
    b = c.generate('LeviMC', 'LeviGen_cmp.cfg', vlib.tier(56, 2500), 41)
    c.cov['samples'] = [b[0][:12]]
    c.conform('levic', 'LeviTrace', 'LeviTrace.cfg', b, 'compiled', split=True, timeout=vlib.tier(500, 6000))
