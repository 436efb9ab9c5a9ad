LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ spec Settings: TLC enumerates every single-field variation of a consistent record and draws random sequences of several; all replayed into Settings and validated by TLC'
NOTE = 'Every field of the record in force is read back after each call. The robot model of the record has four links, one extra frame and 0 to 4 joints.'
def check(c, vlib):
    c.make('settings')
    b = c.enumerate('SettingsMC', 'SettingsMC.cfg')
    c.cov['samples'] = [b[0][1]['rec']['n']]
    b += [[dict(op='defaults', dofs=n) for n in range(4)]]
    c.conform('settings', 'SettingsTrace', 'SettingsTrace.cfg', b, 'single')
    b = c.generate('SettingsMC', 'SettingsGen.cfg', vlib.tier(25, 600), 26)
    c.conform('settings', 'SettingsTrace', 'SettingsTrace.cfg', b, 'random')
