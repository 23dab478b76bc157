ID='frame2d-single-element-semirigid-end'
PROPERTY='P27'
NEEDS='beam made of a single element (num_elements=1) with a semi-rigid or hinged second end'
BREAKS='the rotational stiffness of the second end of a one-element beam is disregarded, the joint acts as rigid'
EDITS=[('metku/frame2d/frame2d.py',"""                                        self.cross_section,
                                        self.material,
                                        rot_stiff=[self.Sj1, self.Sj2])
""","""                                        self.cross_section,
                                        self.material,
                                        rot_stiff=[self.Sj1, np.inf])
""")]
DEMO='''
import metku.framefem.framefem
from metku.frame2d.frame2d import *
def run(ne):
    fr = Frame2D()
    fr.add(SteelColumn([[0, 0], [0, 4000]], profile="HE 200 A", num_elements=2))
    fr.add(SteelColumn([[6000, 0], [6000, 4000]], profile="HE 200 A", num_elements=2))
    b = SteelBeam([[0, 4000], [6000, 4000]], profile="IPE 300", num_elements=ne)
    b.Sj1, b.Sj2 = 4e9, 5e8
    fr.add(b)
    fr.add(FixedSupport([0, 0])); fr.add(FixedSupport([6000, 0]))
    fr.add(PointLoad([0, 4000], [2e4, 0, 0]))
    fr.generate()
    fr.calculate("ALL", "REM")
    return fr.f.nodes[2].u[LoadIDs.ULS][0]
a, b = run(1), run(4)
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-4 * abs(b) else 1)
'''
