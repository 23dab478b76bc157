ID='truss-brace-effective-width-strength'
PROPERTY='P22'
NEEDS='gap joint whose braces are thin and of higher strength steel than a wide chord, so that brace failure governs'
BREAKS='effective width of the brace in brace failure is taken with the strengths of chord and brace interchanged, so that the joint is utilised less than it is'
EDITS=[('metku/raami/raami_plane_truss.py','beff = np.minimum(10/(self.b0/t0)*fy0*t0/(fy*t),1)*b','beff = np.minimum(10/(self.b0/t0)*fy*t0/(fy0*t),1)*b')]
DEMO='''
import math
import metku.framefem.framefem
from metku.sections.steel.RHS import RHS
from metku.raami.raami_plane_truss import SlopedTruss, TubularKGapJoint
t = SlopedTruss(L1=8000, L2=8000, h1=1200, h2=1700, dx1=1000, dx2=1000)
t.generate_topology("K", 3, top_chord_profile=RHS(200, 200, 8), bottom_chord_profile=RHS(180, 180, 6), brace_profile=RHS(150, 150, 3))
for b in t.braces.values():
    b.cross_section.material = "S700"
t.generate_supports()
t.generate_joints()
bad = 0
for j in t.joints.values():
    if isinstance(j, TubularKGapJoint):
        b0, t0 = (200.0, 8.0) if j.chord == "top" else (180.0, 6.0)
        be = min(10 * t0 / b0 * 355 * t0 / (700 * 3.0), 1.0) * 150
        want = 700 * 3.0 * (300 - 12 + 150 + be)
        got = [float(x) for x in j.brace_failure()]
        print(got, want)
        bad += any(abs(g - want) > 1e-6 * want for g in got)
raise SystemExit(1 if bad else 0)
'''
