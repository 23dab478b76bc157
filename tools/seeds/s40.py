ID='panel-shear-beta'
PROPERTY='P26'
NEEDS='two-sided joint: transformation parameter below one'
BREAKS='moment resistance of the joint is governed by web panel shear that does not act'
EDITS=[('metku/structures/steel/end_plate_joint.py','Fcom_Rd = min(V_wp_Rd/self.beta,Fc_wc_Rd,Fc_fb_Rd)','Fcom_Rd = min(V_wp_Rd/max(self.beta,1.0),Fc_wc_Rd,Fc_fb_Rd)')]
DEMO='''
import contextlib, io
import metku.framefem.framefem
import metku.structures.steel.end_plate_joint as EP
import metku.eurocodes.en1993.en1993_1_8.en1993_1_8 as J
from metku.sections.steel import HEB, IPE
def joint():
    lab = lambda c, p: {"flange": c, "plate": p}
    j = EP.EndPlateJoint(HEB(160, fy=235), IPE(400, fy=355), tp=20, bp=160, mat_p="S355", etop=80, ebottom=20, bolt=J.Bolt(24, 10.9, 60.0),
        y_bolts=[240.0, 140.0], e_bolts=35, bolt_row_pos=[lab(J.END_ROW, J.ROW_OUTSIDE_BEAM_TENSION_FLANGE), lab(J.END_ROW, J.FIRST_ROW_BELOW_BEAM_TENSION_FLANGE)],
        groups=[[0, 1]], group_pos=[[lab(J.END_ROW, J.ROW_OUTSIDE_BEAM_TENSION_FLANGE), lab(J.END_ROW, J.FIRST_ROW_BELOW_BEAM_TENSION_FLANGE)]], row_types=[J.TENSION_ROW, J.TENSION_ROW])
    return j
with contextlib.redirect_stdout(io.StringIO()):
    j = joint()
    r = []
    for b in (1.0, 0.5):
        j.beta = b
        j.bending_resistance()
        r.append((sum(x.FtRd for x in j.bolt_rows), min(j.V_wp_Rd() / b, j.Fc_wc_Rd(), j.Fc_fb_Rd()), j.V_wp_Rd() / b))
print(r)
ok = abs(r[0][0] - r[0][2]) < 1e-6 * r[0][0] and r[1][0] > 1.2 * r[0][0]
raise SystemExit(0 if ok else 1)
'''
