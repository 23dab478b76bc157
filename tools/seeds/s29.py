ID='hardening-descending-branch'
PROPERTY='P20'
NEEDS='strain hardening, strain between 0.15 and 0.2 and a temperature above 400 degrees'
BREAKS='the descending branch starts from the strength at room temperature'
EDITS=[('metku/eurocodes/en1993/en1993_1_2.py', '            fu_T = fuT(t,fy_t)\n            st = fu_T*(1-20*(strain-0.15))', '            fu_T = fuT(t,fya)\n            st = fu_T*(1-20*(strain-0.15))')]
DEMO='''
from metku.eurocodes.en1993.en1993_1_2 import stress
a, b = stress(0.15, 600, 210e3, 355, True), stress(0.1500001, 600, 210e3, 355, True)
print(a, b)
raise SystemExit(0 if abs(a - b) < 0.1 else 1)
'''
