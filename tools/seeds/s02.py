ID="fem-stale-direction"
PROPERTY="P02"
NEEDS="a node moved between two analyses so that the length of an adjoining element stays the same (rotation or mirroring)"
BREAKS="the transformation matrix is reused while the length of the element is unchanged, so the second analysis describes the old orientation"
EDITS=[("metku/framefem/elements/ebbeam.py","""        c = self.direction_cosines(initial)
        L = np.zeros((6, 6))
        L[0, 0:2] = c[0:2]
        L[1, 0] = -L[0, 1]
        L[1, 1] = L[0, 0]
        L[2, 2] = 1.0
        L[3:6, 3:6] = L[0:3, 0:3]
        return L


    def init_dofs(self):
        \"\"\" For beam""","""        Le = self.length(initial)
        if getattr(self, '_T', None) is not None and self._T[0] == (Le, initial):
            return self._T[1]
        c = self.direction_cosines(initial)
        L = np.zeros((6, 6))
        L[0, 0:2] = c[0:2]
        L[1, 0] = -L[0, 1]
        L[1, 1] = L[0, 0]
        L[2, 2] = 1.0
        L[3:6, 3:6] = L[0:3, 0:3]
        self._T = ((Le, initial), L)
        return L


    def init_dofs(self):
        \"\"\" For beam""")]
DEMO='''
from metku.framefem.framefem import FrameFEM, BeamSection, Material, PointLoad
from metku.framefem.elements.ebbeam import EBBeam
f = FrameFEM()
f.add_node(0, 0); f.add_node(3000, 4000)
f.add_element(EBBeam(f.nodes[0], f.nodes[1], BeamSection(2000.0, 2e6), Material(210e3, 7850e-9, nu=0.3)))
f.add_support(1, 0, [0, 1, 2])
f.add_load(PointLoad(2, f.nodes[1], [0, -1000.0, 0], 1.0))
f.add_loadcase(supp_id=1, load_id=2)
f.nodal_dofs()
f.linear_statics(2)
f.nodes[1].x, f.nodes[1].y = 4000, 3000
f.linear_statics(2)
m = abs(float(f.elements[0].fint[2]['my'][0]))
print(m)
raise SystemExit(0 if abs(m - 1000.0*4000) < 10 else 1)
'''
