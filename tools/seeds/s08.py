ID="wi-plastic-bottom-flange"
PROPERTY="P12"
NEEDS="a monosymmetric welded I-section whose bottom flange is more than half of the area"
BREAKS="the plastic section modulus takes the wrong lever arm of the part of the bottom flange above the plastic neutral axis"
EDITS=[("metku/sections/steel/wi.py","""                     + (self.bb * pow(self.h - dpl -
                                      self.tt - self.hw, 2) / 2) \\
                     + (self.bb * pow(dpl, 2) / 2)
""","""                     + (self.bb * pow(self.tb, 2) / 4)
""")]
DEMO='''
from metku.sections.steel.wi import WISection
s = WISection(300, 6, [100, 400], [10, 30])
A = 100*10 + 400*30 + 260*6
z = A/2/400
W = 100*10*(295-z) + 260*6*(160-z) + 400*(30-z)**2/2 + 400*z*z/2
print(s.Wpl[0], W)
raise SystemExit(0 if abs(s.Wpl[0] - W) < 1e-6*W else 1)
'''
