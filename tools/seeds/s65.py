ID='filled-tube-minor-axis-length'
PROPERTY='P32'
NEEDS='concrete filled tube whose buckling length factors are changed after it was made and differ between the axes'
BREAKS='buckling length about the minor axis is bounded by that about the major axis'
EDITS=[('metku/sections/composite/composite_column.py', '        return self.length*self.lcr[1]', '        return self.length*min(self.lcr)')]
DEMO='\nfrom metku.sections.steel.RHS import RHS\nfrom metku.eurocodes.en1992.constants import Concrete\nfrom metku.eurocodes.en1992.en1992_1_1 import Rebar\nfrom metku.sections.composite.composite_column import ConcreteFilledTube\np = ConcreteFilledTube(4000.0, RHS(300, 200, 8.0), Concrete("C30/37"), Rebar(16))\nn = p.Ncr("z")\np.lcr = [0.7, 1.4]\nprint(n, p.Ncr("z"))\nraise SystemExit(0 if abs(p.Ncr("z") * 1.96 / n - 1) < 1e-9 else 1)\n'
