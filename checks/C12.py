LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Pure: an answer is a function of the question, learned along generated histories of the real terms and compared with an object in another process which was never asked anything; TLC decides every answer and checks the refresh protocol PureCache exhaustively'
NOTE = 'All 27 kinds of constraints, costs and the dynamics; histories of 56 calls on 4 terms sharing robot data, pools of 4 states, 4 controls, 7 times, 2 multipliers; changed parameters and other users of the shared robot in between.'
def check(c, vlib):
    c.make('pure')
    c.model_check('PureCacheMC', 'PureCache.cfg')
    b = c.generate('PureMC', 'PureGen_poly.cfg', vlib.tier(400, 4000), 61)
    r = c.generate('PureMC', 'PureGen.cfg', vlib.tier(64, 2000), 61)
    c.cov['samples'] = [[x['op'] for x in r[0]]]
    c.conform('pure', 'PureTrace', 'PureTrace.cfg', b, 'poly', split=True, timeout=vlib.tier(600, 3000))
    c.conform('pure', 'PureTrace', 'PureTrace.cfg', r, 'robot', split=True, timeout=vlib.tier(600, 3000))
