ID='fem-pointload-factor-moment'
PROPERTY='P04'
NEEDS='nodal load with a moment and a factor other than 1'
BREAKS='factor of a nodal load does not act on its moment'
EDITS=[('metku/framefem/framefem.py','''        F = self.f * np.array(self.v)

''','''        F = np.array(self.v, dtype=float)
        F[:2] *= self.f

''')]
DEMO='''
from metku.framefem.framefem import *
f = FrameFEM()
n = f.add_node(0, 0)
p = PointLoad(1, n, [1.0, 2.0, 3.0], 2.0)
n.dofs = np.array([0, 1, 2])
F, d = p.load_and_dofs()
print(F)
raise SystemExit(0 if list(F) == [2.0, 4.0, 6.0] else 1)
'''
