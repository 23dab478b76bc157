ID='monopitch-high-eave-corner'
PROPERTY='P19'
NEEDS='monopitch roof of 15-30 degrees, wind on the high eave, small loaded area'
BREAKS='local suction in the corner zone is underestimated'
EDITS=[('metku/eurocodes/en1991/en1991_1_4.py', "'cpe1':interpolate([15,30],[-2.8,-2.3],angle)}", "'cpe1':interpolate([15,30],[-2.5,-2.3],angle)}")]
DEMO='''
from metku.eurocodes.en1991.en1991_1_4 import ExternalPressureMonoRoof as R
v = R(180, 15.0).F["cpe1"]
print(v)
raise SystemExit(0 if abs(v + 2.8) < 1e-9 else 1)
'''
