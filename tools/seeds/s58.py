ID='second-order-release-fixed-end-moments'
PROPERTY='P30'
NEEDS='second order analysis of a compressed element that has a release and a line load'
BREAKS='fixed end moments of released ends are condensed with the first order stiffness although the second order stiffness is used'
EDITS=[('metku/framefem/framefem.py',"""        # Evaluate second order stiffness matrix
        KII = self.global_second_order_stiffness_matrix(lcase)
        
        # Evaluate second order load vector
        pII = self.global_load_vector(lcase,order=2)
                
""","""        # Evaluate second order load vector
        pII = self.global_load_vector(lcase,order=2)
        
        # Evaluate second order stiffness matrix
        KII = self.global_second_order_stiffness_matrix(lcase)
                
""")]
DEMO='''
import contextlib, io
import metku.framefem.framefem as F
from metku.framefem.elements.ebbeam import EBBeam
from metku.framefem.framefem import Material
def solve(rel):
    f = F.FrameFEM()
    mat = Material(210000., 7850e-9, nu=0.3)
    for y in (0, 4000.):
        f.add_node(0., y)
    sec = F.BeamSection(3000., 8e6)
    e = EBBeam(f.nodes[0], f.nodes[1], sec, mat)
    f.add_element(e)
    # a pinned foot, or a clamped foot with a hinge in the element
    f.add_support(1, 0, [0, 1, 2] if rel else [0, 1])
    f.add_support(1, 1, [0, 2])
    if rel:
        f.add_release(0, [2])
    f.add_loadcase(supp_id=1, load_id=2)
    f.add_load(F.PointLoad(2, f.nodes[1], [0., -5e5, 0.], 1.0))
    f.add_load(F.LineLoad(2, e, [0, 1], [5., 5.], 'y', coords='local'))
    f.nodal_dofs()
    with contextlib.redirect_stdout(io.StringIO()):
        f.second_order_analysis(2, 'REM')
    return e.fint2[2]['my'][1]
a, b = solve(False), solve(True)
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-6 * abs(a) else 1)
'''
