ID="rhs-interaction-web-share"
PROPERTY="P15"
NEEDS="a rectangular (not square) hollow section with an axial force above roughly a fifth of its resistance"
BREAKS="web share in the bending and axial force interaction uses the height instead of the width"
EDITS=[("metku/sections/steel/RHS.py","""        aw = min((self.A - 2 * self.B * self.T) / self.A, 0.5)""","""        aw = min((self.A - 2 * self.H * self.T) / self.A, 0.5)""")]
DEMO='''
from metku.sections.steel.RHS import RHS
s = RHS(200, 100, 8)
n = 0.6
a = min((s.A - 2 * 100 * 8) / s.A, 0.5)
got = s.moment_axial_force_interact(n, 1.0)
print(got)
raise SystemExit(0 if abs(got - (1 - n) / (1 - 0.5 * a)) < 1e-9 else 1)
'''
