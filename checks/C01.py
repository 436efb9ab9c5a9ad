LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec LeviCache (evaluation protocol, all interleavings on all small graphs, TLC) and Levi (denotations); TLC-generated programs and histories replayed into the library, every observed value decided by TLC'
NOTE = 'Values are exact (dyadic rationals). Scalar mutables and the run-time compilation of expressions are not covered.'
def check(c, vlib):
    c.make('levi')
    c.model_check('LeviCache', vlib.tier('LeviCache.cfg', 'LeviCacheDeep.cfg'), timeout=vlib.tier(400, 3000))
    b = c.generate('LeviMC', 'LeviGen_hist.cfg', vlib.tier(2500, 30000), 31)
    c.cov['samples'] = [b[0][:12]]
    c.conform('levi', 'LeviTrace', 'LeviTrace.cfg', b, 'histories', split=True, timeout=vlib.tier(300, 3000))
