ID="linearize-potential-order"
PROPERTY="P09"
NEEDS="a linearisation of the potentially active constraints only, with an inactive constraint before an active one"
BREAKS="linearised constraints have the values of other constraints at the expansion point"
EDITS=[("metku/optimization/structopt.py","""            b = np.array([val for val, con in zip(con_vals,self.cons) if con.potential])""","""            b = con_vals[:len(act_cons)]""")]
DEMO='''
import numpy as np
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.constraints import NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction
p = OptimizationProblem(variables=[Variable("a", 0.0, 5.0, value=1.0), Variable("b", 0.0, 5.0, value=2.0)])
p.add(ObjectiveFunction("f", lambda x: x[0] + x[1]))
p.add(NonLinearConstraint(lambda x: x[0] - 40.0, "<"))
p.add(NonLinearConstraint(lambda x: x[1] ** 2 - 4.0, "<"))
x = np.array([1.0, 2.0])
p.linearize(x.copy(), only_potential=True)
A, B, df, fx = p.linearize(x.copy(), only_potential=True)
v = A @ x - B
print(A, B, v)
raise SystemExit(0 if len(v) == 1 and abs(v[0]) < 1e-6 else 1)
'''
