ID='frame2d-displacements-of-first-analysis'
PROPERTY='P35'
NEEDS='a second evaluation of the displacement constraints of a Frame2D truss at another point'
BREAKS='displacements stored for the members stay those of the first analysis of the load case'
EDITS=[('metku/frame2d/frame2d.py','        self.nodal_displacements[lcase] = U\n','        self.nodal_displacements.setdefault(lcase, U)\n')]
DEMO='''
from metku.optimization.benchmarks.ten_bar_truss import TenBarTruss
p = TenBarTruss('continuous')
x, y = [10000.0] * 10, [20000.0] * 10
c = lambda z, v: [float(k(v)) for k in z.cons if k.name.startswith('Displacement')]
a, b = c(p, x), c(p, y)
d = max(abs((s + 1) - 2 * (t + 1)) for s, t in zip(a, b))
print(d)
raise SystemExit(0 if d < 0.05 else 1)
'''
