ID="substitute-bounds-of-locked"
PROPERTY="P07"
NEEDS="a locked variable before a free one with other bounds, and a substitution of the free values"
BREAKS="free variables are clipped to the bounds of other variables"
EDITS=[("metku/optimization/structopt.py","""        xvals = np.array([max(var.lb, min(x, var.ub)) for x, var in zip(xvals, self.vars)])""","""        xvals = np.array([max(var.lb, min(x, var.ub)) for x, var in zip(xvals, self.all_vars)])""")]
DEMO='''
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
a, b = Variable("a", 0.0, 1.0, value=0.5), Variable("b", 0.0, 10.0, value=2.0)
p = OptimizationProblem(variables=[a, b])
a.lock(0.25)
p.substitute_variables([7.0])
print(a.value, b.value)
raise SystemExit(0 if (a.value, b.value) == (0.25, 7.0) else 1)
'''
