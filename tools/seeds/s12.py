ID="class-rhs-flange-width"
PROPERTY="P14"
NEEDS="a hollow section with corner radius above 1.5 wall thicknesses whose flange is near a class limit"
BREAKS="straight width of the flange is always taken with the corner radius of thin walls"
EDITS=[("metku/sections/steel/RHS.py","""        cf = self.B - 2 * self.R
        rf = cf / self.T
""","""        cf = self.B - 3 * self.T
        rf = cf / self.T
""")]
DEMO='''
from metku.sections.steel.RHS import RHS
bad = 0
for B in range(100, 500, 10):
    for T in (4, 5, 6, 8, 10, 12.5):
        s = RHS(200, B, T, 355)
        e = (235/355)**0.5
        r = (B - 2*s.R)/T
        want = 1 if r <= 33*e else 2 if r <= 38*e else 3 if r <= 42*e else 4
        bad += s.flange_class() != want
print(bad)
raise SystemExit(1 if bad else 0)
'''
