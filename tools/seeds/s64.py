ID='filled-tube-smaller-end-moment'
PROPERTY='P32'
NEEDS='concrete filled tube with a negative end moment that is greater than the positive one at the other end'
BREAKS='the governing end moment is taken from the algebraic order of the end moments'
EDITS=[('metku/sections/composite/composite_column.py', 'Minimum of bending end moments (absolute value) """\n        if abs(self.med[0]) <= abs(self.med[1]):', 'Minimum of bending end moments (absolute value) """\n        if self.med[0] <= self.med[1]:'), ('metku/sections/composite/composite_column.py', 'Maximum of bending end moments (absolute value) """\n        if abs(self.med[0]) <= abs(self.med[1]):', 'Maximum of bending end moments (absolute value) """\n        if self.med[0] <= self.med[1]:')]
DEMO='\nfrom metku.sections.steel.RHS import RHS\nfrom metku.eurocodes.en1992.constants import Concrete\nfrom metku.eurocodes.en1992.en1992_1_1 import Rebar\nfrom metku.sections.composite.composite_column import ConcreteFilledTube\np = ConcreteFilledTube(4000.0, RHS(300, 200, 8.0), Concrete("C30/37"), Rebar(16))\nout = []\nfor med in ([-50e6, 20e6], [20e6, -50e6], [50e6, -20e6], [-20e6, 50e6], [5e6, 9e6], [9e6, 5e6]):\n    p.med = med\n    out.append((abs(p.M1), abs(p.M2)))\nprint(out)\nraise SystemExit(0 if all(v == (20e6, 50e6) for v in out[:4]) and out[4] == out[5] == (5e6, 9e6) else 1)\n'
