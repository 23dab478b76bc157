ID="wi-eta-creation-grade"
PROPERTY="P12"
NEEDS="a welded I-section whose steel grade is changed across 460 MPa after creation"
BREAKS="the shear area keeps the factor of the grade the section was created with"
EDITS=[("metku/sections/steel/wi.py","""        if fy is None:
            fy = self.fy

        return en1993_1_5.shear_eta(fy) * self.hw * self.tw
""","""        if fy is not None:
            # factor depends on the steel grade only
            self.eta_shear = en1993_1_5.shear_eta(fy)

        return self.eta_shear * self.hw * self.tw
""")]
DEMO='''
from metku.sections.steel.wi import WISection
s = WISection(500, 8, [200, 200], [12, 12], fy="S355")
s.material = "S700"
n = WISection(500, 8, [200, 200], [12, 12], fy="S700")
print(s.Ashear, n.Ashear)
raise SystemExit(0 if abs(s.Ashear[1] - n.Ashear[1]) < 1e-6 else 1)
'''
