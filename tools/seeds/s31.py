ID='shear-flange-by-width'
PROPERTY='P21'
NEEDS='monosymmetric welded section whose wider flange is the weaker one, slender web'
BREAKS='shear buckling contribution is taken from the stronger flange'
EDITS=[('metku/sections/steel/wi.py', '                if self.NtopRd <= self.NbottomRd:', '                if self.bt <= self.bb:')]
DEMO='''
from metku.sections.steel.wi import WISection
# the weaker top flange is the same, the stronger bottom flange differs in width only
a = WISection(1000, 5, [400, 250], [8, 20], 355, 4).shear_buckling_resistance(1000, "rigid")
b = WISection(1000, 5, [400, 410], [8, 20], 355, 4).shear_buckling_resistance(1000, "rigid")
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-6 * a else 1)
'''
