ID='resized-bolt-hole'
PROPERTY='P24'
NEEDS='bolt changed to size M30 after it was created'
BREAKS='hole of the resized bolt is 1 mm too small, so the bearing resistance is too high'
EDITS=[('metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py','''            self.d0 = val+1
        elif val < 27:
            self.d0 = val+2''','''            self.d0 = val+1
        elif val <= 30:
            self.d0 = val+2''')]
DEMO='''
import metku.framefem.framefem
from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
a = Bolt(20, 8.8, length=60)
a.size = 30
b = Bolt(30, 8.8, length=60)
f = [x.bearing_resistance(430, 12.0, [60, 60], [100, 100]) for x in (a, b)]
print(f, a.d0, b.d0)
raise SystemExit(0 if abs(f[0] - f[1]) < 1e-6 * f[1] else 1)
'''
