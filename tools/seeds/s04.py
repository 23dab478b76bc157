ID="raami-comb-same-kind"
PROPERTY="P05"
NEEDS="a load combination with two load cases whose variable loads are of the same kind (e.g. two imposed load cases)"
BREAKS="accompanying load cases of the same load type as the leading one are treated as leading, without psi0"
EDITS=[("metku/raami/frame_loads.py","""            if lc == self.lead_variable_load:            """,
"""            lead = self.lead_variable_load
            if lead is not None and lc.load_type == lead.load_type:""")]
DEMO='''
from metku.raami.raami import *
fr = Raami()
fr.add(FrameNode([0, 0])); fr.add(FrameNode([6000, 0]))
from metku.sections.steel.ISection import IPE
fr.add(SteelFrameMember([fr.nodes[0], fr.nodes[1]], IPE(300)))
m = list(fr.members.values())[0]
cs = [LoadCase(load_id=10 + i, loads=[LineLoad(m, [-1, -1], 'y', load_id=10 + i, ltype=t, name=f'q{i}')]) for i, t in enumerate(('dead', 'live', 'live'))]
for c in cs:
    fr.add(c)
fr.add(LoadCombination(50, 'ULS', cs))
f = sorted(round(l.f, 6) for l in fr.load_cases[50].loads)
print(f)
raise SystemExit(0 if f == [1.05, 1.15, 1.5] else 1)
'''
