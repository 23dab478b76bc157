ID='uls-companion-by-value'
PROPERTY='P18'
NEEDS='two variable actions of equal value, one of them leading in the ULS combination'
BREAKS='the second action is dropped from the reported line loads'
EDITS=[('metku/eurocodes/en1991/en1991.py', '                if l[0] is not lo[0]:\n', '                if l[0].value != lo[0].value:\n')]
DEMO='''
from metku.eurocodes.en1991.en1991 import MultiCombiner, Load, SnowLoad, ImposedLoad
m = MultiCombiner("B", 2, 5.0)
m.add([Load(3.0), "y", [0]], [SnowLoad(2.0), "y", [0]], [ImposedLoad(2.0), "y", [1]])
r = m.ULS.get_result()
print(r)
raise SystemExit(0 if abs(r["y"][1] - 15.0) < 0.02 or abs(r["y"][1] - 10.5) < 0.02 else 1)
'''
