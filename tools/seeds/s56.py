ID='workshop-paint-time-of-first-paint'
PROPERTY='P29'
NEEDS='the paint of the painting centre changed after it was made'
BREAKS='painting time stays that of the first paint while the paint consumption follows the new one'
EDITS=[('metku/cost/workshop.py',"""        self.tip_flow = tip_flow
""","""        self.tip_flow = tip_flow
        # painting time per unit area (min/mm2)
        self.unit_time = paints[paint]["TPP"]
"""),('metku/cost/workshop.py',"""        T_P = paints[self.paint]["TPP"]*Ap       
""","""        T_P = self.unit_time*Ap
""")]
DEMO='''
from metku.cost.workshop import PaintingCost
p = PaintingCost()
p.cost(1e6)
p.paint = 'polyurethane'
a, b = p.cost(1e6), PaintingCost(paint='polyurethane').cost(1e6)
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-9 else 1)
'''
