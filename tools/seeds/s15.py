ID="member-lt-slender-bound"
PROPERTY="P16"
NEEDS="a slender beam (LT slenderness above about 1.6) checked with the method for rolled sections"
BREAKS="the bound 1/lambda^2 of the reduction factor for lateral-torsional buckling is lost"
EDITS=[("metku/structures/steel/steel_member.py","""            chiLTmax = min(1.0, 1 / lambdaLT ** 2)
""","""            chiLTmax = 1.0
""")]
DEMO='''
from metku.sections.steel.ISection import IPE
from metku.structures.steel.steel_member import SteelMember
m = SteelMember(IPE(300), 12000, LT_buckling=True)
m.add_section(myed=60e6, loc=0.5)
Mcr = m.mcrit()
Mb = m.LT_buckling_strength(0.1*m.profile.MRd)
print(Mb/(0.1*m.profile.MRd))
raise SystemExit(0 if Mb <= 0.1*m.profile.MRd*(1+1e-9) else 1)
'''
