ID='local-web-resistance-sharp-corner'
PROPERTY='P34'
NEEDS='local transverse resistance of a web with an inner radius smaller than the thickness'
BREAKS='coefficient k5 exceeds 1.0'
EDITS=[('metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py','        return min(1.06-0.06*r/t,1.0)\n','        return 1.06-0.06*r/t\n')]
DEMO='''
from metku.eurocodes.en1993.en1993_1_3.en1993_1_3 import RwRd
R = float(RwRd(350.0, 2.0, 100.0, 50.0, 1000.0, 1.0))
k = 350.0/228
want = (1.22-0.22*k)*(14.7-50/49.5)*(1+0.007*25)*4.0*350.0
print(R, want)
raise SystemExit(0 if abs(R - want) < 1e-9*want else 1)
'''
