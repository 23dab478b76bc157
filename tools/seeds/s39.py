ID='weak-bolt-bearing'
PROPERTY='P24'
NEEDS='bolt whose ultimate strength is below that of the plate, with large end distance'
BREAKS='bearing resistance is not limited by the strength of the bolt'
EDITS=[('metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py','''        ab = min(ad,self.fub/fu,1.0)
        
        FbRd = k1*ab*fu*self.d*t/gammaM2
        
        if verb:''','''        ab = min(ad,max(self.fub/fu,1.0),1.0)
        
        FbRd = k1*ab*fu*self.d*t/gammaM2
        
        if verb:''')]
DEMO='''
import metku.framefem.framefem
from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
b = Bolt(20, 4.6, length=60)
f = b.bearing_resistance(490.0, 10.0, [80, 80], [120, 120])
print(f, 2.5 * 400 * 20 * 10 / 1.25)
raise SystemExit(0 if abs(f - 2.5 * 400 * 20 * 10 / 1.25) < 1 else 1)
'''
