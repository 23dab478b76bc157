ID='space-beam-nearly-vertical'
PROPERTY='P37'
NEEDS='beam in space that is nearly but not exactly vertical, with different second moments of area'
BREAKS='default orientation of nearly vertical beams in space'
EDITS=[('metku/framefem/elements/ebbeam.py','''            elif np.linalg.norm(np.cross(self.direction_vector(),[0,0,1])) < 1e-6:
''','''            elif np.linalg.norm(np.cross(self.direction_vector(),[0,0,1])) < 0.1:
''')]
DEMO='''
from metku.framefem.framefem import *
from metku.framefem.elements.ebbeam import EBBeam3D
f = FrameFEM()
f.add_node(0, 0, 0)
f.add_node(0, 100, 3000)
f.add_element(EBBeam3D(*f.nodes, BeamSection(3000, 8e6, 3e6, 2e5), Material(210e3, 7850e-9, nu=0.3)))
f.add_support(1, 0, [0, 1, 2, 3, 4, 5])
f.add_load(PointLoad(2, f.nodes[1], [1e4, 0, 0, 0, 0, 0], 1.0))
f.add_loadcase(1, 2)
f.nodal_dofs()
f.linear_statics(2)
ux = f.nodes[1].u[2][0]
# z axis upwards in the yz plane: the load in the x direction bends the beam about it
ref = 1e4*f.elements[0].length()**3/3/210e3/3e6
print(ux, ref)
raise SystemExit(0 if abs(ux/ref - 1) < 1e-3 else 1)
'''
