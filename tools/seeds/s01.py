ID="fem-trapezoid-axial"
PROPERTY="P01"
NEEDS="a line load in global coordinates with different end values on an inclined (or axially loaded) beam element; uniform loads and perpendicular loads are unaffected"
BREAKS="the axial part of the equivalent nodal loads of a trapezoidal global load is distributed to the wrong ends, so axial forces and displacements are wrong"
EDITS=[("metku/framefem/elements/ebbeam.py","""                    qx2 = q2*qloc[0]
                    floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                    floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                else:
                    # For""","""                    qx2 = q2*qloc[0]
                    floc[0] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                    floc[3] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                else:
                    # For""")]
DEMO='''
from metku.framefem.framefem import FrameFEM, BeamSection, Material, LineLoad
from metku.framefem.elements.ebbeam import EBBeam
f = FrameFEM()
f.add_node(0, 0); f.add_node(3000, 4000)
f.add_element(EBBeam(f.nodes[0], f.nodes[1], BeamSection(2000.0, 2e6), Material(210e3, 7850e-9, nu=0.3)))
f.add_support(1, 0, [0, 1, 2]); f.add_support(1, 1, [0, 1, 2])
f.add_load(LineLoad(2, f.elements[0], [0, 1], [0.0, -6.0], 'y', coords='global'))
f.add_loadcase(supp_id=1, load_id=2)
f.nodal_dofs()
f.linear_statics(2)
fx = [float(v) for v in f.elements[0].fint[2]['fx']]
# axial component of the load: q(s) = -6*s/L*0.8, fixed bar: reactions q L/6 and q L/3
ok = abs(abs(fx[0]) - 4.8*5000/6) < 1 and abs(abs(fx[1]) - 4.8*5000/3) < 1
print(fx, ok)
raise SystemExit(0 if ok else 1)
'''
