ID='open-prof-split-copy-node'
PROPERTY='P34'
NEEDS='segment of an open section split, a node next to the new point queried or moved afterwards'
BREAKS='list of nodes has a copy of the new node, so that moving it does not move the segments'
EDITS=[('metku/eurocodes/en1993/en1993_1_3/open_prof.py','        self.nodes.insert(n+1,new_node)\n','        self.nodes.insert(n+1,Node(*new_point))\n')]
DEMO='''
from metku.eurocodes.en1993.en1993_1_3.open_prof import OpenProf
p = OpenProf([[50.0, 0.0], [0.0, 0.0], [0.0, 80.0]], 2.0)
p.split_segment(0, 0.5)
p.nodes[1].z = 10.0
want = 2.0*(2*(25.0**2 + 10.0**2)**0.5 + 80.0)
print(p.area(), want)
raise SystemExit(0 if abs(p.area() - want) < 1e-9*want else 1)
'''
