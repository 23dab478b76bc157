ID="constraint-fixed-at-zero"
PROPERTY="P08"
NEEDS="a variable locked at the value zero when a nonlinear constraint is evaluated"
BREAKS="the values of the free variables are put in the place of the locked one"
EDITS=[("metku/optimization/constraints.py","""            if val is None:
                fixed_vals[i] = X.pop()""","""            if not val:
                fixed_vals[i] = X.pop()""")]
DEMO='''
import numpy as np
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.constraints import NonLinearConstraint
vs = [Variable("a", 0.0, 5.0, value=1.0), Variable("b", 0.0, 5.0, value=2.0), Variable("c", 0.0, 5.0, value=3.0)]
p = OptimizationProblem(variables=vs)
c = NonLinearConstraint(lambda x: x[0] + 10 * x[1] + 100 * x[2])
p.add(c)
vs[0].lock(0.0)
g = 0
try:
    g = c(np.array([2.0, 3.0]))
except Exception as e:
    print(repr(e))
print(g)
raise SystemExit(0 if g == 320.0 else 1)
'''
