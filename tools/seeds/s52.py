ID='truss-milp-strength-index-second-load-case'
PROPERTY='P28'
NEEDS='TrussMILP with two load cases, the second of which governs'
BREAKS='the strength limits of the second load case are written for the displacement variables and neighbouring bars'
EDITS=[('metku/optimization/problems/truss_milp.py',"""            # Skip the displacement variables in variable indexing
            Nndx += self.ndof
            
    def add_top""","""
    def add_top""")]
DEMO='''
import metku.framefem.framefem, metku.optimization.structopt
import importlib, sys
from metku.frame2d.frame2d import PointLoad, XYHingedSupport
from metku.frame2d.simple_truss import SimpleTruss
M = importlib.import_module("metku.optimization.problems.truss_milp")
X = [[0., 0.], [-1000., 1000.], [0., 1000.], [1732., 1000.]]
def best(cases):
    t = SimpleTruss([list(x) for x in X], [[0, 1], [0, 2], [0, 3]], ["SHS 50X3.0"] * 3)
    for i in (1, 2, 3):
        t.add(XYHingedSupport(list(X[i])))
    for k, f in enumerate(cases):
        t.add(PointLoad([0., 0.], f + [0], load_id=2 + k))
    t.generate()
    t.calculate("all", "REM")
    p = M.TrussMILP("t", t, [M.SHS(50, 3), M.SHS(60, 4), M.SHS(80, 5)], ulb=-20, uub=20, scaling={"N": 1e-3, "u": 1e-1})
    p.create_milp()
    return M.MILP().solve(p.milp)[0]
big, small = [1.3e5, 2e5], [1e3, -1e3]
a, b = best([small, big]), best([big, small])
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-3 * a and a < 1e6 else 1)
'''
