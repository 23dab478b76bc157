ID='frame2d-pointload-name-collision'
PROPERTY='P27'
NEEDS='three or more point loads with the same (default) name and the same load id'
BREAKS='the third point load of a load case replaces an earlier one, so that the frame is analysed with a load missing'
EDITS=[('metku/frame2d/frame2d.py',"""        if this.name in self.point_loads.keys():
            this.name += str(len(self.point_loads))
""","""        if this.name in self.point_loads.keys():
            this.name += f'_{this.load_id}'
""")]
DEMO='''
import metku.framefem.framefem
from metku.frame2d.frame2d import *
def run(loads):
    fr = Frame2D()
    b = SteelBeam([[0, 0], [6000, 0]], profile="IPE 300", num_elements=4)
    fr.add(b)
    fr.add(XYHingedSupport([0, 0])); fr.add(YHingedSupport([6000, 0]))
    for x, id in loads:
        fr.add(PointLoad([x, 0], [0, -1e4, 0], load_id=id))
    fr.generate()
    fr.calculate("ALL", "REM")
    return b.MEd[LoadIDs.ULS]
U = LoadIDs.ULS
a = run([(1500, U), (3000, U), (4500, U)])
# simply supported beam, three equal loads at the quarter points: M = P L/2
print(a, 1e4 * 6000 / 2)
raise SystemExit(0 if abs(abs(a) - 3e7) < 1e3 else 1)
'''
