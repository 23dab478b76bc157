ID="fem-buckling-lcase"
PROPERTY="P03"
NEEDS="several load cases: buckling of one case after another case has been analysed on the same model"
BREAKS="the geometric stiffness is formed with the axial forces of the most recently created load case record of the element instead of the analysed case"
EDITS=[("metku/framefem/elements/ebbeam.py","""        P = self.fint[lcase]['fx'][1]
        Le = self.length(initial)

        g0""","""        P = next((f['fx'][1] for f in self.fint.values() if f['fx'][1] < 0), self.fint[lcase]['fx'][1])
        Le = self.length(initial)

        g0""")]
DEMO='''
from math import pi
from metku.framefem.framefem import FrameFEM, BeamSection, Material, PointLoad
from metku.framefem.elements.ebbeam import EBBeam
f = FrameFEM()
n = 8
for i in range(n + 1):
    f.add_node(0, i*500.0)
sec, mat = BeamSection(2000.0, 2e6), Material(210e3, 7850e-9, nu=0.3)
for i in range(n):
    f.add_element(EBBeam(f.nodes[i], f.nodes[i+1], sec, mat))
f.add_support(1, 0, [0, 1, 2])
f.add_load(PointLoad(2, f.nodes[n], [0, -1000.0, 0], 1.0))
f.add_load(PointLoad(3, f.nodes[n], [0, -2000.0, 0], 1.0))
f.add_loadcase(supp_id=1, load_id=2); f.add_loadcase(supp_id=1, load_id=3)
f.nodal_dofs()
a = f.linear_buckling(2, k=2)[0][0]
b = f.linear_buckling(3, k=2)[0][0]
print(a, b, pi**2*210e3*2e6/8000**2/1000)
raise SystemExit(0 if abs(a/b - 2) < 1e-6 else 1)
'''
