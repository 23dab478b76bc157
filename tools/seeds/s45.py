ID='side-wall-slenderness-inclination'
PROPERTY='P23'
NEEDS='inclined compressed brace nearly as wide as the chord'
BREAKS='buckling of the chord side walls is evaluated as if the brace were perpendicular to the chord'
EDITS=[('metku/eurocodes/en1993/en1993_1_8/rhs_joints.py','sl = 3.46*(self.h0/self.t0 -2)*np.sqrt(1/np.sin(np.radians(self.angle)))','sl = 3.46*(self.h0/self.t0 -2)')]
DEMO='''
import math
import metku.framefem.framefem
from metku.sections.steel import SHS
from metku.eurocodes.en1993.en1993_1_8.rhs_joints import RHSYJoint
chord = SHS(160, 4)
fy = chord.fy
j = RHSYJoint(chord, SHS(160, 4), 40.0)
a = j.slend()
b = 3.46 * (160 / 4 - 2) * math.sqrt(1 / math.sin(math.radians(40.0))) / (math.pi * math.sqrt(210000.0 / fy))
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-3 * b else 1)
'''
