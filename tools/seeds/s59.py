ID='second-order-stiffness-kept'
PROPERTY='P30'
NEEDS='analyse, change the section (or material) of a member without changing its axial force, analyse again'
BREAKS='the second order stiffness of the old section is used as long as the axial force is the same'
EDITS=[('metku/framefem/elements/ebbeam.py',"""        k0 = self.local_second_order_stiffness_matrix(lcase)

        k = L.transpose()""","""        # trigonometric functions are slow: keep the matrix of this axial force
        key = (round(self.fint[lcase]['fx'][1], 6), self.length())
        if getattr(self, '_second_order', (None, None))[0] != key:
            self._second_order = (key, self.local_second_order_stiffness_matrix(lcase))
        k0 = self._second_order[1]

        k = L.transpose()""")]
DEMO='''
import contextlib, io
import metku.framefem.framefem as F
from metku.framefem.elements.ebbeam import EBBeam
from metku.framefem.framefem import Material
def make(I):
    f = F.FrameFEM()
    for y in (0, 4000.):
        f.add_node(0., y)
    e = EBBeam(f.nodes[0], f.nodes[1], F.BeamSection(3000., I), Material(210000., 7850e-9, nu=0.3))
    f.add_element(e)
    f.add_support(1, 0, [0, 1, 2])
    f.add_loadcase(supp_id=1, load_id=2)
    f.add_load(F.PointLoad(2, f.nodes[1], [2e3, -1e5, 0.], 1.0))
    f.nodal_dofs()
    return f, e
def u(f):
    with contextlib.redirect_stdout(io.StringIO()):
        f.second_order_analysis(2, 'REM')
    return f.nodes[1].u2[2][0]
f, e = make(8e6)
u(f)
e.section = F.BeamSection(3000., 16e6)
a, b = u(f), u(make(16e6)[0])
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-6 * abs(b) else 1)
'''
