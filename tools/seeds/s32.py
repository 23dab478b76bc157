ID='effective-flange-stale'
PROPERTY='P21'
NEEDS='effective section computed, then the flange made thicker so that it is fully effective'
BREAKS='the ineffective part of the earlier flange is still deducted'
EDITS=[('metku/sections/steel/wi.py', "            self.eff_top['rho'] = rho\n            self.eff_top['bneg'] = (1 - rho) * c", "            self.eff_top['rho'] = rho\n            if rho < 1.0:\n                self.eff_top['bneg'] = (1 - rho) * c")]
DEMO='''
from metku.sections.steel.wi import WISection
s = WISection(1000, 6, [400, 400], [8, 16], 355, 4)
s.Aeff
s.tt = 20
f = WISection(1000, 6, [400, 400], [20, 16], 355, 4)
a, b = s.Aeff, f.Aeff
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-6 * b else 1)
'''
