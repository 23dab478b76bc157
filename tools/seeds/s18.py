ID="optimum-group-utility-limit"
PROPERTY="P17"
NEEDS="a member with a mirror image whose forces are larger, in a search with a utilisation limit below one"
BREAKS="the mirror image may be used beyond the limit given for the search"
EDITS=[("metku/raami/frame_member.py","""                    if all(r<=max_utility for r in self.symmetry_pair.utilization.values()):# <= 1.0:                        
                        break""","""                    if self.symmetry_pair.resistance_check:
                        break""")]
DEMO='''
import metku.framefem.framefem
from metku.raami.raami import Raami, FrameNode, SteelFrameMember, FixedSupport, PointLoad, LineLoad
from metku.sections.steel.ISection import HEA, IPE
fr = Raami()
for p in ([0, 0], [0, 3500], [6000, 3500], [6000, 0]):
    fr.add(FrameNode(p))
for (i, j, t), s in zip(((0, 1, "column"), (1, 2, "beam"), (3, 2, "column")), [HEA(100), IPE(500), HEA(120)]):
    fr.add(SteelFrameMember(nodes=[fr.nodes[i], fr.nodes[j]], section=s, mem_type=t, nel=4))
for n in (0, 3):
    fr.add(FixedSupport(fr.nodes[n]))
fr.add(LineLoad(fr.members[1], [-8, -8], "y", load_id=2))
fr.add(PointLoad(fr.nodes[2], [0, -4e5, 0], load_id=2))
fr.generate_fem()
fr.symmetry()
fr.structural_analysis("all", "REM", design=True)
bad = 0
for lim in (0.5, 0.6, 0.7, 0.8, 0.9):
    fr.members[0].optimum_design("HEA", max_utility=lim)
    for k in (0, 2):
        u = max(fr.members[k].utilization.values())
        print(lim, k, fr.members[k].cross_section, u)
        bad += u > lim
raise SystemExit(1 if bad else 0)
'''
