ID='slsqp-last-inequality'
PROPERTY='P31'
NEEDS='two or more constraints of type "<", the last of which is not the governing one'
BREAKS='SLSQP evaluates the last "<" constraint in place of each of them, so designs that violate the others are reported as optimal'
EDITS=[('metku/optimization/solvers/slsqp.py',"""        for con in self.problem.cons:
            if con.type == "<" or con.type == "<=":
                ieqcons.append(con.neg_call)
""","""        for con in self.problem.cons:
            if con.type == "<" or con.type == "<=":
                less = con
                ieqcons.append(lambda x: -less(x))
""")]
DEMO='''
import metku.optimization.structopt as S
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.constraints import NonLinearConstraint
from metku.optimization.variables import Variable
from metku.optimization.solvers import SLSQP
p = S.OptimizationProblem('p', variables=[Variable('x', 0., 4., value=1.), Variable('y', 0., 4., value=1.)])
p.add(ObjectiveFunction('f', lambda x: (x[0] - 3)**2 + (x[1] - 2)**2))
p.add(NonLinearConstraint(lambda x: x[0] + x[1] - 3, '<', name='a'))
p.add(NonLinearConstraint(lambda x: x[1] - 3.5, '<', name='b'))
f, x = SLSQP().solve(p, x0=[1., 1.])
print(f, x)
raise SystemExit(0 if abs(f - 2) < 1e-3 and x[0] + x[1] < 3.001 else 1)
'''
