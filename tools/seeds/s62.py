ID='symmetry-members-at-axis'
PROPERTY='P06'
NEEDS='symmetry detected in a frame with members that end on the axis of symmetry, then a section changed'
BREAKS='members with one end on the axis of symmetry get no mirror image: changing the section of one leaves the other unchanged'
EDITS=[('metku/raami/raami.py',"""                if mem.nodes[0].symmetry_node is None and mem.nodes[1].symmetry_node is None:
""","""                if mem.nodes[0].symmetry_node is None or mem.nodes[1].symmetry_node is None:
""")]
DEMO='''
import metku.framefem.framefem
from metku.raami.raami import Raami, FrameNode, SteelFrameMember
from metku.sections.steel.RHS import SHS
fr = Raami()
for xy in ([0, 0], [0, 4000], [5000, 5000], [10000, 4000], [10000, 0]):
    fr.add(FrameNode(list(map(float, xy))))
for i in range(4):
    fr.add(SteelFrameMember(nodes=[fr.nodes[i], fr.nodes[i + 1]], section=SHS(150, 8), mem_type='beam', nel=2))
fr.symmetry()
fr.members[1].cross_section = SHS(100, 5)
a = [fr.members[i].cross_section.A for i in range(4)]
print(a)
raise SystemExit(0 if a[1] == a[2] and a[0] == a[3] != a[1] else 1)
'''
