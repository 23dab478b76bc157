ID='fem-several-cases-support-load'
PROPERTY='P01'
NEEDS='several load cases analysed in one call with the supports treated by ZERO, and a load acting in the direction of a support in another case than the first'
BREAKS='load component at a supported degree of freedom becomes its displacement in the later load cases'
EDITS=[('metku/framefem/framefem.py','''                            for p in loads:
                                p[i] = 0
''','''                            loads[0][i] = 0
''')]
DEMO='''
from metku.framefem.framefem import *
from metku.framefem.elements import EBBeam
f = FrameFEM()
for x in (0, 3000.0, 6000.0):
    f.add_node(x, 0)
mat = Material(210e3, 7850e-9, 0.3)
s = BeamSection(5e3, 2e7)
for i in range(2):
    f.add_element(EBBeam(f.nodes[i], f.nodes[i+1], s, mat))
f.add_support(1, 0, [0, 1], 0)
f.add_support(1, 2, [1], 0)
for k in (1, 2):
    f.add_load(PointLoad(k, f.nodes[1], [0, -1000.0*k, 0], 1.0))
    f.add_load(PointLoad(k, f.nodes[2], [0, -500.0, 0], 1.0))
    f.add_loadcase(supp_id=1, load_id=k)
f.nodal_dofs()
f.linear_statics([1, 2], "ZERO")
u = [float(f.nodes[2].u[k][1]) for k in (1, 2)]
print(u)
raise SystemExit(0 if max(map(abs, u)) < 1e-9 else 1)
'''
