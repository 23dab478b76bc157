ID='sandwich-bending-stiffness-equal-faces'
PROPERTY='P36'
NEEDS='panel with faces of different thickness'
BREAKS='bending stiffness of the sandwich part is that of two faces of mean thickness'
EDITS=[('metku/sandwich/sandwich.py','        return EA[0]*EA[1]/sum(EA)*self.d**2\n','        return 0.25*sum(EA)*self.d**2\n')]
DEMO='''
from metku.sandwich.sandwich import *
p = SandwichPanel([Face(1.0), Face(0.5)], Core(98.5, 3.7, 110e-9), width=1000)
d = 99.25
want = 210000.0*1000*(1.0*0.5/1.5)*d**2
print(p.EIs, want)
raise SystemExit(0 if abs(p.EIs - want) < 1e-9*want else 1)
'''
