ID="constraint-rhs-variable-stale"
PROPERTY="P08"
NEEDS="a linear constraint whose right-hand side is a variable that changes after the constraint has been made"
BREAKS="the constraint is evaluated with the value the right-hand side had at creation"
EDITS=[("metku/optimization/constraints.py","""        self.a = np.array(a)
        self.b = b
""","""        self.a = np.array(a)
        # Variables have their value already, when they are given as the bound
        has_value = isinstance(b, Variable) and b.value is not None
        self.b = b.value if has_value else b
""")]
DEMO='''
import numpy as np
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.constraints import LinearConstraint
v, b = Variable("a", 0.0, 5.0, value=1.0), Variable("b", 0.0, 5.0, value=2.0)
p = OptimizationProblem(variables=[v, b])
c = LinearConstraint([1.0, 0.0], b, "<")
p.add(c)
g = c(np.array([4.0, 3.0]))
print(g)
raise SystemExit(0 if g == 1.0 else 1)
'''
