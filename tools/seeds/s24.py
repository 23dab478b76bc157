ID="mma-move-limit-bound"
PROPERTY="P09"
NEEDS="an expansion point close to a lower bound, so that the move limit of the moving-asymptote approximation lies beyond it"
BREAKS="the approximation lets a variable leave its bounds"
EDITS=[("metku/optimization/structopt.py","lb=max(var.lb,L[i]+mu*(x[i]-L[i]))","lb=L[i]+mu*(x[i]-L[i])")]
DEMO='''
import numpy as np
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.objective import ObjectiveFunction
p = OptimizationProblem(variables=[Variable("a", 1.0, 5.0, value=1.1), Variable("b", 0.5, 5.0, value=2.0)])
p.add(ObjectiveFunction("f", lambda x: x[0] ** 2 + 1 / x[1]))
x = np.array([1.1, 2.0])
m = p.mma(x, np.array([6.0, 6.0]), np.array([0.1, 0.1]))
print([(v.lb, v.ub) for v in m.vars])
raise SystemExit(0 if all(v.lb >= w.lb and v.ub <= w.ub for v, w in zip(m.vars, p.vars)) else 1)
'''
