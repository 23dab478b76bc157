ID='space-beam-axes-cached'
PROPERTY='P37'
NEEDS='node or orientation node changed after an analysis in space'
BREAKS='local axes of a beam in space stay those of the first analysis'
EDITS=[('metku/framefem/elements/ebbeam.py','''        """ Calculates direction cosines for a 3D-beam element """
        
''','''        """ Calculates direction cosines for a 3D-beam element """
        key = (round(self.length(), 1), id(self.nref))
        if getattr(self, '_axes', (None,))[0] == key:
            return self._axes[1]
        
'''),('metku/framefem/elements/ebbeam.py','''        l0[2,:] = np.cross(l0[0,:],l0[1,:])
        
        return l0
''','''        l0[2,:] = np.cross(l0[0,:],l0[1,:])
        
        self._axes = (key, l0)
        return l0
''')]
DEMO='''
from metku.framefem.framefem import *
from metku.framefem.elements.ebbeam import EBBeam3D
f = FrameFEM()
f.add_node(0, 0, 0)
f.add_node(3000, 4000, 0)
f.add_element(EBBeam3D(*f.nodes, BeamSection(3000, 8e6, 3e6, 2e5), Material(210e3, 7850e-9, nu=0.3)))
f.add_support(1, 0, [0, 1, 2, 3, 4, 5])
f.add_load(PointLoad(2, f.nodes[1], [1e4, 0, 0, 0, 0, 0], 1.0))
f.add_loadcase(1, 2)
f.nodal_dofs()
f.linear_statics(2)
print(f.elements[0].fint[2]['fx'])
f.nodes[1].x, f.nodes[1].y = 4000.0, 3000.0
f.linear_statics(2)
N = float(f.elements[0].fint[2]['fx'][0])
print(N)
raise SystemExit(0 if abs(N - 8e3) < 1 else 1)
'''
