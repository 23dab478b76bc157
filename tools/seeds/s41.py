ID='fin-plate-ltb-cap'
PROPERTY='P26'
NEEDS='fin plate just slender enough for the lateral-torsional buckling check'
BREAKS='lateral-torsional buckling resistance of the fin plate exceeds its bending resistance'
EDITS=[('metku/structures/steel/fin_plate_joint.py','C =  min(chiLT/0.6/gammaM1,1/gammaM0)','C =  chiLT/0.6/gammaM1')]
DEMO='''
import metku.framefem.framefem
import metku.structures.steel.fin_plate_joint as FPJ
import metku.structures.steel.plates as PL
import metku.eurocodes.en1993.en1993_1_8.en1993_1_8 as J
from metku.sections.steel import IPE
plate = PL.RectPlateWithHoles(width=110.0, depth=230.0, thickness=8.0, d0=22, x0=[60.0, 45.0], px=0.0, py=70.0, n1=3, n2=1, material="S275")
j = FPJ.FinPlateJoint(IPE(400), plate, bolt=J.Bolt(20, 8.8, 50.0), gh=10.0)
a, b = j.fin_plate_ltb(), j.fyp * j.tp * j.hp ** 2 / 6 / j.z
print(a, b)
raise SystemExit(0 if a <= b * (1 + 1e-9) else 1)
'''
