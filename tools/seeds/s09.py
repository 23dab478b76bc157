ID="catalogue-rhs-name-decimals"
PROPERTY="P13"
NEEDS="a rectangular hollow section whose wall thickness is not a whole number, created by name"
BREAKS="the decimals of the thickness are dropped"
EDITS=[("metku/sections/steel/catalogue.py","""    p = [float(a) for a in re.findall('(\\d+\\.?\\d)+',key)]
    
    return RHS""","""    p = [float(a) for a in re.findall('(\\d+)\\.?\\d?',key)]
    
    return RHS""")]
DEMO='''
from metku.sections.steel.catalogue import make_section
s = make_section("RHS 400X200X12.5")
t = make_section("RHS 300X100X8.0")
print(s.T, t.T)
raise SystemExit(0 if s.T == 12.5 and t.T == 8.0 else 1)
'''
