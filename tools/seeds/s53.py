ID='truss-lp-compression-stress-bound'
PROPERTY='P28'
NEEDS='different stress bounds in tension and compression, with a compressed bar that governs'
BREAKS='bars in compression are sized with the tension bound'
EDITS=[('metku/optimization/problems/truss_optimization.py',"""            a[i] = -slb[i]
            a[(j+1)*nmem+i] = -1
            lp.add""","""            a[i] = -max(slb[i],sub[i])
            a[(j+1)*nmem+i] = -1
            lp.add""")]
DEMO='''
import metku.framefem.framefem, metku.optimization.structopt
from metku.frame2d.frame2d import PointLoad, XYHingedSupport
from metku.frame2d.simple_truss import SimpleTruss
from metku.optimization.problems.truss_optimization import truss_lp, LP
X = [[0., 0.], [3000., 0.], [3000., 4000.]]
t = SimpleTruss([list(x) for x in X], [[0, 2], [1, 2]], ["SHS 50X3.0"] * 2)
for i in (0, 1):
    t.add(XYHingedSupport(list(X[i])))
t.add(PointLoad([3000., 4000.], [0, -1e5, 0], load_id=2))
t.generate()
t.calculate("all", "REM")
f, x = LP().solve(truss_lp(t, 0, 1e8, 100.0, 200.0))
print(f)
raise SystemExit(0 if abs(f - 4000 * 1e5 / 100) < 1e-3 * f else 1)
'''
