ID='truss-area-constraint-stale-other-load-case'
PROPERTY='P28'
NEEDS='a truss with two load cases whose second load case is asked for in a displacement constraint'
BREAKS='the upper displacement limit always refers to the first load case'
EDITS=[('metku/optimization/problems/truss_optimization.py',"""            u = node.u[load_case][dof_nd]            
            
            if uub > 0.0:""","""            u = node.u[self.structure.load_ids[0]][dof_nd]
            
            if uub > 0.0:""")]
DEMO='''
import metku.framefem.framefem, metku.optimization.structopt
from metku.raami.raami_simple_truss import SimpleTruss
from metku.raami.frame_loads import PointLoad
from metku.raami.frame_supports import XYHingedSupport
from metku.sections.steel.RHS import RHS
from metku.optimization.problems.truss_optimization import TrussOptimization
t = SimpleTruss([[0, 0], [-1000, 1000], [0, 1000], [1732, 1000]], [[0, 1], [0, 2], [0, 3]], [RHS(50, 50, 3) for _ in range(3)])
for i in (1, 2, 3):
    t.add(XYHingedSupport(t.nodes[i]))
t.add(PointLoad(t.nodes[0], [1e5, 0, 0], load_id=2))
t.add(PointLoad(t.nodes[0], [3e5, 0, 0], load_id=3))
t.generate_fem()
t.calculate(support_method="REM", design=False)
p = TrussOptimization(structure=t, constraints={"stress": True})
p.create_variables(lb=50, ub=5000)
nd = next(n for n in t.fem.nodes if abs(n.x) < 1 and abs(n.y) < 1)
p.displacement_constraint(nd, dof="x", uub=1.0, load_case=2)
p.displacement_constraint(nd, dof="x", uub=1.0, load_case=3)
x = [500.0, 600.0, 700.0]
a, b = (c(x) + 1 for c in p.displacement_cons)
print(a, b)
raise SystemExit(0 if abs(b - 3 * a) < 1e-6 * abs(b) else 1)
'''
