ID='gap-shear-area-brace-thickness'
PROPERTY='P23'
NEEDS='K gap joint whose braces are thinner than the chord'
BREAKS='shear area of the chord in the gap uses the thickness of the braces, so the chord shear resistance changes with the brace walls'
EDITS=[('metku/eurocodes/en1993/en1993_1_8/rhs_joints.py','a = math.sqrt(1/(1+4*self.gap**2/3/self.t0**2))','a = math.sqrt(1/(1+4*self.gap**2/3/max(self.t)**2))')]
DEMO='''
import math
import metku.framefem.framefem
from metku.sections.steel import RHS, SHS
from metku.eurocodes.en1993.en1993_1_8.rhs_joints import RHSKGapJoint
chord = RHS(160, 160, 8)
j = RHSKGapJoint(chord, [SHS(90, 4), SHS(90, 4)], [45, 45], gap=40)
a, b = j.a_eta(), None
a = float(a[0]) if isinstance(a, (tuple, list)) else float(a)
t0 = 8.0
al = math.sqrt(1 / (1 + 4 * 40.0 ** 2 / 3 / t0 ** 2))
b = (2 * 160.0 + al * 160.0) * t0
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-6 * b else 1)
'''
