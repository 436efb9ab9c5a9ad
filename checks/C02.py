LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Levi: symbolic denotations with exact total derivatives (TLC checks Leibniz, quotient, chain rule, symmetry of second derivatives on them); TLC-generated programs replayed into the library, derivatives of every order decided by TLC'
NOTE = 'Derivatives of order one, two and more, through dependent and independent variables; exact values.'
def check(c, vlib):
    c.make('levi')
    c.model_check('LeviThm', vlib.tier('LeviThm.cfg', 'LeviThmDeep.cfg'), timeout=vlib.tier(400, 2000))
    b = c.generate('LeviMC', 'LeviGen_der.cfg', vlib.tier(2500, 30000), 31)
    c.cov['samples'] = [b[0][:12]]
    c.conform('levi', 'LeviTrace', 'LeviTrace.cfg', b, 'derivatives', split=True, timeout=vlib.tier(300, 3000))
