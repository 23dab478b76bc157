ID='ants-last-design'
PROPERTY='P11'
NEEDS='a later iteration whose best ant is worse than the best ant of an earlier one'
BREAKS='the reported design is not the one whose objective value is reported'
EDITS=[('metku/optimization/solvers/aco.py','''            if best_fitness < self.best_fitness:
                self.best_fitness = best_fitness
                self.best_x = best_x
''','''            self.best_x = best_x
            if best_fitness < self.best_fitness:
                self.best_fitness = best_fitness
''')]
DEMO='''
import contextlib, io
import numpy as np
from types import SimpleNamespace as NS
import metku.optimization.structopt as so
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.variables import DiscreteVariable
from metku.optimization.solvers.aco import AntColonyOptimizer
bad = 0
for seed in range(30):
    np.random.seed(seed)
    v = [DiscreteVariable("x%d" % i, values=[1, 2, 3.5], value=1) for i in range(3)]
    pr = OptimizationProblem("p", variables=v, structure=NS(members={i: NS(length=1.0 + i, rho=1.0) for i in range(3)}))
    f = lambda x: float(x[0] + (x[1] - 2) ** 2 + 2 * x[2])
    pr.add(ObjectiveFunction("f", f))
    with contextlib.redirect_stdout(io.StringIO()):
        fb, x = AntColonyOptimizer(pop_size=2, number_of_top_ants=1).solve(pr, maxiter=4)
    if abs(fb - f(x)) > 1e-9:
        bad += 1
print(bad)
raise SystemExit(1 if bad else 0)
'''
