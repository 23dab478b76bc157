ID="member-cm-point-load"
PROPERTY="P16"
NEEDS="a member with a point load, end moments of opposite sign, and a span moment of the sign opposite to the larger end moment and smaller than it"
BREAKS="equivalent uniform moment factor of Table B.3 for that moment diagram"
EDITS=[("metku/eurocodes/en1993/en1993_1_1.py","""                            Cm = max(0.2 * (-p) - 0.8 * alpha, 0.4)""","""                            Cm = max(0.2 * p - 0.8 * alpha, 0.4)""")]
DEMO='''
from metku.eurocodes.en1993.en1993_1_1 import equivalent_moment_factor as cm
got = cm([1e8, -5e7], -8e7, "point")
print(got)
raise SystemExit(0 if abs(got - (0.2*0.5 + 0.8*0.8)) < 1e-9 else 1)
'''
