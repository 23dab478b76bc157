ID='mislp-middle-value'
PROPERTY='P11'
NEEDS='discrete variable in the middle of its table and move limits narrower than the step to the next smaller value'
BREAKS='sequential mixed-integer programming cannot move to the next smaller table value'
EDITS=[('metku/optimization/solvers/mislp.py','''                    # Closest value is not the first or last in the list
                    lb = max(lb, var.value - var.values[idx - 1])
                    ub''','''                    # Closest value is not the first or last in the list
                    ub''')]
DEMO='''
import contextlib, io
import metku.optimization.structopt as so
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.constraints import LinearConstraint
from metku.optimization.variables import DiscreteVariable
from metku.optimization.solvers.mislp import MISLP
v = [DiscreteVariable("a", values=[1, 2, 3], value=2), DiscreteVariable("b", values=[1, 5, 9], value=5)]
pr = OptimizationProblem("p", variables=v)
pr.add(ObjectiveFunction("f", lambda x: 3 * x[0] + x[1]))
pr.add(LinearConstraint([1, 1], 1.5, ">"))
with contextlib.redirect_stdout(io.StringIO()):
    f, x = MISLP(move_limits=(0.1, 0.1)).solve(pr, x0=[2, 5], maxiter=5)
print(f, x)
raise SystemExit(0 if abs(f - 4) < 1e-6 else 1)
'''
