ID='segment-length-cached'
PROPERTY='P34'
NEEDS='node of an open section moved after a value of the section was asked for'
BREAKS='length of the segments stays that of the first query'
EDITS=[('metku/eurocodes/en1993/en1993_1_3/open_prof.py','        return np.linalg.norm(self._n2.coord-self._n1.coord)\n','        if getattr(self,"_L",None) is None:\n            self._L = np.linalg.norm(self._n2.coord-self._n1.coord)\n        return self._L\n')]
DEMO='''
from metku.eurocodes.en1993.en1993_1_3.open_prof import OpenProf
p = OpenProf([[50.0, 0.0], [0.0, 0.0], [0.0, 80.0]], 2.0)
a = p.area()
p.nodes[2].z = 100.0
print(a, p.area())
raise SystemExit(0 if abs(p.area() - 300.0) < 1e-9 else 1)
'''
