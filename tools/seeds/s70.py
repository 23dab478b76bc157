ID='screw-bearing-interpolation-limit'
PROPERTY='P34'
NEEDS='self-tapping screw, thinner sheet of exactly 1.0 mm and thicker one between 1.0 and 2.5 mm'
BREAKS='coefficient is interpolated to the value of sheets thinner than 1.0 mm'
EDITS=[('metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py','        p0 = (t,min(3.2*math.sqrt(t/d),2.1))\n        if t < 1.0:\n','        p0 = (t,min(3.2*math.sqrt(t/d),2.1))\n        if t <= 1.0:\n')]
DEMO='''
import math
from metku.eurocodes.en1993.en1993_1_3.en1993_1_3 import screw_bearing_resistance
F, a = screw_bearing_resistance(360.0, 5.5, 1.0, 1.75)
a0 = min(3.2*math.sqrt(1/5.5), 2.1)
want = a0 + (2.1 - a0)*0.5
print(a, want)
raise SystemExit(0 if abs(a - want) < 1e-9 else 1)
'''
