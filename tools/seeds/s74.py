ID='sandwich-clamping-depth'
PROPERTY='P36'
NEEDS='stiffness of a fastener after the faces were changed'
BREAKS='thickness of the panel in the fastener stiffness leaves out the faces'
EDITS=[('metku/sandwich/sandwich.py','        D = self.thickness\n','        D = self.d + self.tF2_cor\n')]
DEMO='''
from metku.sandwich.sandwich import ruukki_panel
import math
p = ruukki_panel()
tsup = 6.0
d1, EI, C = 4.59, 200000*math.pi*5.1**4/64, 2400*math.sqrt(6.0*4.59**5)
k = 6.93*360*math.sqrt(0.46**3*d1)/(0.26+0.8*0.5)
D = 100.0
x = 1 - (1/k - 0.5*D*tsup/C - D*tsup**2/8/EI)/(1/k + D**2/C + D**2*(2*D + 3*tsup)/6/EI)
kv = 1/(x/k + (tsup**2 + 2*(1-x)*D*tsup)/4/C + (3*(1-x)*D*tsup**2 + tsup**3)/24/EI)
g = p.fastener_transverse_stiffness(tsup)
print(g, kv)
raise SystemExit(0 if abs(g - kv) < 1e-9*kv else 1)
'''
