ID='workshop-weld-type-of-last-request'
PROPERTY='P29'
NEEDS='a butt weld priced before a fillet weld whose type is left to the default'
BREAKS='the weld type of the previous request is used when none is given'
EDITS=[('metku/cost/workshop.py',"""    def cost(self,weld_size,weld_length,weld_type='fillet'):
        \"\"\" Evaluate total painting cost \"\"\"
        
        self.weld_size = weld_size
        self.weld_length = weld_length
        self.weld_type = weld_type
""","""    def cost(self,weld_size,weld_length,weld_type=None):
        \"\"\" Evaluate total painting cost \"\"\"
        
        self.weld_size = weld_size
        self.weld_length = weld_length
        if weld_type is not None:
            self.weld_type = weld_type
""")]
DEMO='''
from metku.cost.workshop import Workshop
w = Workshop().cost_centres['assembly_welding']
a = w.cost(6, 500.0)
w.cost(6, 500.0, weld_type='butt')
b = w.cost(6, 500.0)
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-9 else 1)
'''
