ID='frame2d-welded-profile-flanges'
PROPERTY='P27'
NEEDS='welded profile given by name whose flanges have different thicknesses'
BREAKS='the thicknesses of top and bottom flange are interchanged, so that the frame is analysed with another section'
EDITS=[('metku/frame2d/frame2d.py',"""                tf1 = float(vals[2])
                tf2 = float(vals[4])
""","""                tf1 = float(vals[4])
                tf2 = float(vals[2])
""")]
DEMO='''
import metku.framefem.framefem
from metku.frame2d.frame2d import *
from metku.sections.steel.wi import WISection
b = SteelBeam([[0, 0], [6000, 0]], profile="WI 400-8-20X200-12X300")
s = b.cross_section
w = WISection(400, 8, [200, 300], [20, 12], 355)
print(s, [s.A, float(s.I[0])], w, [w.A, float(w.I[0])])
raise SystemExit(0 if abs(s.A - w.A) < 1e-6 * w.A and abs(float(s.I[0] - w.I[0])) < 1e-6 * w.I[0] else 1)
'''
