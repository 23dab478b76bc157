ID='hydrocarbon-convection-stainless'
PROPERTY='P20'
NEEDS='stainless steel in a hydrocarbon fire'
BREAKS='heating is computed with the convection of the standard fire'
EDITS=[('metku/eurocodes/en1993/en1993_1_2.py', 'hnet(t_gas,Tsteel[-1],eps_m=0.4,ac=aconv)*dt', 'hnet(t_gas,Tsteel[-1],eps_m=0.4)*dt')]
DEMO='''
from metku.eurocodes.en1993 import en1993_1_2 as F
T, t = F.stainless_steel_temp(1.0, 200.0, 10, F.hydrocarbon_fire)
g = F.hydrocarbon_fire(0.0)
h = F.hydrocarbon_fire(5 / 60)
d = 200.0 / F.spec_heat_stainless(T[1]) / 7850 * F.hnet(h, T[1], eps_m=0.4, ac=50) * 5
print(T, d)
raise SystemExit(0 if abs(T[2] - T[1] - d) < 1e-9 else 1)
'''
