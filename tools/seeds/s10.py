ID="catalogue-hem-regression"
PROPERTY="P13"
NEEDS="one entry of the H-section list (HE 650 M), created by class"
BREAKS="depth of the profile is that of another size"
EDITS=[("metku/sections/steel/ISection.py","""        name = 'HE ' + str(height) + ' ' + 'M'
        # HEIGHT =! TO PROFILE NUMBER
        self.name = name
        # H,B,tf,tb,r,fy=355
        if catalogue:
            H = profile[name]['h']
""","""        name = 'HE ' + str(height) + ' ' + 'M'
        # HEIGHT =! TO PROFILE NUMBER
        self.name = name
        # H,B,tf,tb,r,fy=355
        if catalogue:
            # M-series is at most 8 % higher than its number
            H = min(profile[name]['h'], 1.08*height)
""")]
DEMO='''
from metku.sections.steel.ISection import HEM
from metku.sections.steel.catalogue import h_profiles
bad = []
for k, v in h_profiles.items():
    if k.endswith("M") and HEM(int(k.split()[1])).h != v["h"]:
        bad.append(k)
print(bad)
raise SystemExit(1 if bad else 0)
'''
