ID="crosssection-variable-scale"
PROPERTY="P07"
NEEDS="a cross-section variable that has been scaled before a value is substituted"
BREAKS="the section property gets the unscaled value of the variable"
EDITS=[("metku/optimization/variables.py","""                else:
                    obj.cross_section.__setattr__(prop, new_value * self.scaling)""","""                else:
                    obj.cross_section.__setattr__(prop, self.value)""")]
DEMO='''
from types import SimpleNamespace as NS
import metku.optimization.structopt
from metku.optimization.variables import CrossSectionVariable
o = NS(cross_section=NS(A=0.0))
v = CrossSectionVariable("x", 100.0, 900.0, target={"property": "A", "objects": [o]}, value=200.0)
v.scale(100.0)
v.substitute(3.5)
print(o.cross_section.A)
raise SystemExit(0 if o.cross_section.A == 350.0 else 1)
'''
