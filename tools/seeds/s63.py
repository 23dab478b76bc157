ID='composite-beam-creep-memo'
PROPERTY='P32'
NEEDS='long-term stiffness asked for, then the slab of the beam replaced or its humidity changed, then asked for again'
BREAKS='creep coefficient of a composite beam is remembered per loading age: long-term stiffness after a change of slab uses the creep of the first one'
EDITS=[('metku/sections/composite/composite_beam.py',"""        self.t0 = 28 # Time for creep (days)         
""","""        self.t0 = 28 # Time for creep (days)         
        self._phi = {}
"""),('metku/sections/composite/composite_beam.py',"""        return self.slab.material.creep_coefficient(self.slab.h0,1e8,t0)
""","""        if t0 not in self._phi:
            self._phi[t0] = self.slab.material.creep_coefficient(self.slab.h0,1e8,t0)
        
        return self._phi[t0]
""")]
DEMO='''
from metku.sections.steel.RHS import RHS
from metku.sections.steel.ISection import IPE
from metku.eurocodes.en1992.constants import Concrete
from metku.sections.composite.composite_beam import CompositeIBeam, ConcreteSlab

a = CompositeIBeam(8000.0, IPE(300), ConcreteSlab(120.0, Concrete("C25/30")))
a.EIcom("creep")
a.slab.material.RH = 90
b = CompositeIBeam(8000.0, IPE(300), ConcreteSlab(120.0, Concrete("C25/30")), RH=90)
print(a.EIcom("creep"), b.EIcom("creep"))
raise SystemExit(0 if abs(a.EIcom("creep") / b.EIcom("creep") - 1) < 1e-9 else 1)
'''
