ID='turbulence-below-minimum-height'
PROPERTY='P19'
NEEDS='a height between 1 m and the minimum height of terrain category 2, 3 or 4'
BREAKS='turbulence intensity and peak pressure are those of the actual height'
EDITS=[('metku/eurocodes/en1991/en1991_1_4.py', '    return kI/co/(math.log(max(zmin,z)/z0))', '    return kI/co/(math.log(max(min(zmin,5.0),z)/z0))')]
DEMO='''
from metku.eurocodes.en1991.en1991_1_4 import peak_velocity_pressure as q
a, b = q(6.0, 4, 21.0), q(10.0, 4, 21.0)
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-9 else 1)
'''
