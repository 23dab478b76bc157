ID='mma-replaces-constraints'
PROPERTY='P31'
NEEDS='method of moving asymptotes on a problem with a nonlinear constraint'
BREAKS='the approximation of the first iteration replaces the constraint of the problem itself, so the answer is the optimum of an approximation'
EDITS=[('metku/optimization/solvers/mma.py',"""                mma_con = copy(con)
""","""                mma_con = con
""")]
DEMO='''
import metku.optimization.structopt as S
from metku.optimization.objective import LinearObjective
from metku.optimization.constraints import NonLinearConstraint
from metku.optimization.variables import Variable
from metku.optimization.solvers import MMA
p = S.OptimizationProblem('p', variables=[Variable('x', .2, 4., value=4.), Variable('y', .2, 4., value=4.)])
p.add(LinearObjective('f', [1., 2.]))
con = NonLinearConstraint(lambda x: 1/x[0] + 2/x[1] - 2, '<', name='a')
p.add(con)
MMA().solve(p, x0=[4., 4.], maxiter=20)
ok = abs(con([1., 1.]) - 1) < 1e-9 and abs(con([2., 4.]) + 1) < 1e-9
print(con([1., 1.]), con([2., 4.]))
raise SystemExit(0 if ok else 1)
'''
