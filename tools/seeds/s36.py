ID='equality-one-sided'
PROPERTY='P11'
NEEDS='equality constraint that is violated from below by a better iterate'
BREAKS='an infeasible iterate is reported as the best design'
EDITS=[('metku/optimization/solvers/optsolver.py','                if abs(g) > self.problem.con_tol:','                if g > self.problem.con_tol:')]
DEMO='''
import contextlib, io
import numpy as np
import metku.optimization.structopt as so
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.constraints import NonLinearConstraint
from metku.optimization.variables import Variable
from metku.optimization.solvers.optsolver import OptSolver
moves = iter([[-2.0, 0.0], [1.0, 0.0]])
class S(OptSolver):
    step_length = 1.0
    step_factor = 0.0
    def take_action(self):
        return np.array(next(moves))
pr = OptimizationProblem("p", variables=[Variable("a", 0, 5), Variable("b", 0, 5)])
pr.add(ObjectiveFunction("f", lambda x: x[0] + x[1]))
pr.add(NonLinearConstraint(lambda x: x[0] + x[1] - 4, "="))
with contextlib.redirect_stdout(io.StringIO()):
    f, x = S().solve(pr, x0=[3.0, 1.0], maxiter=2)
print(f, x)
raise SystemExit(0 if abs(f - 4) < 1e-6 else 1)
'''
