LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Labeller checked by TLC; TLC-generated call sequences replayed into the class, trace validated by TLC'
NOTE = ('Exhaustive on the specification for 3 labels of size up to 2; the code is bound by validating every call return and '
        'every lookup of thousands of random calls. Trusts TLC, g++ and the JSON bridge.')
def check(c, vlib):
    c.make('labeller')
    c.model_check('LabellerMC', vlib.tier('LabellerMC.cfg', 'LabellerMCbig.cfg'))
    b = c.generate('LabellerMC', 'LabellerGen.cfg', vlib.tier(150, 2000), 31)
    c.cov['samples'] = [b[0][:6]]
    c.conform('labeller', 'LabellerTrace', 'LabellerTrace.cfg', b, 'calls')
