ID="class-psi-minus-one"
PROPERTY="P14"
NEEDS="a doubly symmetric welded I-section in pure bending with web slenderness between 123.5 and 124 epsilon"
BREAKS="web in pure bending (stress ratio exactly -1) uses the limit for stress ratios above -1"
EDITS=[("metku/eurocodes/en1993/en1993_1_1.py","""        if p > -1:
            if r <= 42.0""","""        if p >= -1:
            if r <= 42.0""")]
DEMO='''
import math
from metku.eurocodes.en1993 import en1993_1_1 as E
e = E.epsilon(355)
c = E.internal_part_comp_bend(123.9*e, e, 0.5, -1.0)
print(c)
raise SystemExit(0 if c == 3 else 1)
'''
