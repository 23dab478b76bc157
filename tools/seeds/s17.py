ID="raami-optimize-last-member"
PROPERTY="P17"
NEEDS="a frame whose last member keeps its profile in a round of the selection while another member changes its profile, so that the forces change"
BREAKS="the selection stops before the profiles fit the forces of the frame they belong to: profiles and utilisations are those of an earlier frame"
EDITS=[("metku/raami/raami.py","""            if not any(MEM_PROFILES_CHANGED):""","""            if not MEM_PROFILES_CHANGED[-1]:""")]
DEMO='''
import metku.framefem.framefem
from metku.raami.raami import Raami, FrameNode, SteelFrameMember, FixedSupport, PointLoad, LineLoad
from metku.sections.steel.ISection import HEA, IPE
fr = Raami()
for p in ([0, 0], [0, 3500], [6000, 3500], [6000, 0]):
    fr.add(FrameNode(p))
secs = [HEA(100), IPE(500), HEA(120)]
for (i, j, t), s in zip(((0, 1, "column"), (1, 2, "beam"), (3, 2, "column")), secs):
    fr.add(SteelFrameMember(nodes=[fr.nodes[i], fr.nodes[j]], section=s, mem_type=t, nel=4))
for n in (0, 3):
    fr.add(FixedSupport(fr.nodes[n]))
fr.add(LineLoad(fr.members[1], [-12, -12], "y", load_id=2))
fr.add(PointLoad(fr.nodes[1], [3e4, 0, 0], load_id=2))
fr.add(PointLoad(fr.nodes[2], [0, -1e5, 0], load_id=2))
fr.generate_fem()
import itertools
bad = 0
for start in itertools.product((100, 140, 200), (200, 300), (100, 140, 160, 180)):
    for k, s in enumerate((HEA(start[0]), IPE(start[1]), HEA(start[2]))):
        fr.members[k].cross_section = s
    fr.optimize_members("CURRENT")
    a = {k: (str(m.cross_section), dict(m.utilization)) for k, m in fr.members.items()}
    fr.structural_analysis("all", "REM", design=True)
    for k, m in fr.members.items():
        for l, u in m.utilization.items():
            if abs(u - a[k][1][l]) > 1e-6 or u > 1.0:
                bad += 1
                print(start, k, l, a[k], u)
raise SystemExit(1 if bad else 0)
'''
