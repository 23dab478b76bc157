ID='branch-priority-no-violation'
PROPERTY='P10'
NEEDS='variables with different branching priorities, the more important one already at a discrete value'
BREAKS='branching on a variable that is at a discrete value never makes progress'
EDITS=[('metku/optimization/solvers/bnb.py','''                    if violation_i > 0:
                        max_violation = violation_i
                        branching_var = var                    
                        xr = xR[i]
''','''                    max_violation = violation_i
                    branching_var = var                    
                    xr = xR[i]
''')]
DEMO='''
import contextlib, io, itertools
import metku.optimization.structopt as so
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.objective import LinearObjective
from metku.optimization.constraints import LinearConstraint
from metku.optimization.variables import IntegerVariable
from metku.optimization.solvers.bnb import BnB
from metku.optimization.solvers.lp import LP
c = [-7.1, -5.3, -3.2]
bad = 0
for cons in ([([7, 5, 3], "<", 38.5), ([2, 3, 5], "<", 31.3)], [([6, 4, 9], "<", 47.9), ([1, -1, 1], ">", 1.7)]):
    for prio in ([0, 0, 0], [2, 1, 0], [0, 0, 1]):
        v = [IntegerVariable("abc"[k], 0, 9, value=9) for k in range(3)]
        for w, q in zip(v, prio):
            w.branch_priority = q
        pr = OptimizationProblem("p", variables=v)
        pr.add(LinearObjective("f", c, "MIN"))
        for a, t, b in cons:
            pr.add(LinearConstraint(list(a), b, t))
        with contextlib.redirect_stdout(io.StringIO()):
            s = BnB(pr, lb_solver=LP("ortools"))
            try:
                s.solve(pr)
                got = s.best_f
            except Exception as e:
                got = float("nan")
        val = lambda a, x: sum(p * q for p, q in zip(a, x))
        ok = lambda x: all(val(a, x) <= b if t == "<" else val(a, x) >= b for a, t, b in cons)
        best = min(val(c, x) for x in itertools.product(range(10), repeat=3) if ok(x))
        if not abs(got - best) < 1e-6:
            print(cons, prio, got, best)
            bad += 1
raise SystemExit(1 if bad else 0)
'''
