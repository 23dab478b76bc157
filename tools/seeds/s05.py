ID="raami-selfweight-stale"
PROPERTY="P04"
NEEDS="self-weight on, a section change, then self-weight on again"
BREAKS="turning self-weight on again keeps the self-weight loads of the previous sections"
EDITS=[("metku/raami/raami.py","""        else:
            self.remove_self_weight()
            self.add_self_weight()    
""","""        else:
            for member in self.members.values():
                if not member.self_weight:
                    member.add_self_weight()
""")]
DEMO='''
from metku.raami.raami import *
from metku.sections.steel.ISection import IPE, HEB
fr = Raami()
fr.add(FrameNode([0, 0])); fr.add(FrameNode([6000, 0]))
fr.add(SteelFrameMember([fr.nodes[0], fr.nodes[1]], IPE(300)))
fr.add(XYHingedSupport(fr.nodes[0])); fr.add(YHingedSupport(fr.nodes[1]))
m = list(fr.members.values())[0]
fr.add_self_weight()
m.cross_section = HEB(300)
fr.add_self_weight()
fr.generate_fem()
fr.structural_analysis('all', 'REM', design=False)
mid = max(abs(float(v)) for v in m.nodal_forces[LoadIDs['SELF-WEIGHT']]['My'])
w = HEB(300).A * 7850e-9 * 9.81
print(mid, w * 6000**2 / 8)
raise SystemExit(0 if abs(mid - w * 6000**2 / 8) < 1e-3 * mid else 1)
'''
