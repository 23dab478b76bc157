ID='truss-milp-compat-first-load-case'
PROPERTY='P28'
NEEDS='a profile selection problem of a statically indeterminate truss with two load cases of which the second governs'
BREAKS='compatibility of every load case refers to the displacements of the first one, so combinations that are adequate are refused and others accepted'
EDITS=[('metku/optimization/problems/truss_optimization.py',"""                ustart = nmem*nprof + nlc*nmem*nprof + k*ndof
""","""                ustart = nmem*nprof + nlc*nmem*nprof
""")]
DEMO='''
import metku.framefem.framefem, metku.optimization.structopt
from metku.frame2d.frame2d import PointLoad, XYHingedSupport
from metku.frame2d.simple_truss import SimpleTruss
from metku.optimization.problems.truss_optimization import truss_milp, MILP, SHS
X = [[0., 0.], [-1000., 1000.], [0., 1000.], [1732., 1000.]]
def best(cases):
    t = SimpleTruss([list(x) for x in X], [[0, 1], [0, 2], [0, 3]], ["SHS 50X3.0"] * 3)
    for i in (1, 2, 3):
        t.add(XYHingedSupport(list(X[i])))
    for k, f in enumerate(cases):
        t.add(PointLoad([0., 0.], f + [0], load_id=2 + k))
    t.generate()
    t.calculate("all", "REM")
    return MILP().solve(truss_milp(t, [SHS(50, 3), SHS(60, 4), SHS(80, 5)], -20, 20))[0]
a, b = best([[0.0, 1.2e5]]), best([[0.0, 1.2e5], [0.0, -1e4]])
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-3 * a else 1)
'''
