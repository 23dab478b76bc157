ID='combination-result-last-id'
PROPERTY='P18'
NEEDS='an action whose list of load cases is not in ascending order'
BREAKS='the line loads of the highest load case cannot be reported'
EDITS=[('metku/eurocodes/en1991/en1991.py', '                max_load_id = max(load[2])\n            if max(load[2]) > max_load_id:\n                max_load_id = max(load[2])\n\n        loads_by_id = [None] * (max_load_id + 1)', '                max_load_id = load[2][-1]\n            if load[2][-1] > max_load_id:\n                max_load_id = load[2][-1]\n\n        loads_by_id = [None] * (max_load_id + 1)')]
DEMO='''
from metku.eurocodes.en1991.en1991 import MultiCombiner, Load, SnowLoad
m = MultiCombiner("B", 2, 5.0)
m.add([Load(3.0), "y", [0]], [SnowLoad(2.0), "y", [2, 0]])
try:
    r = m.get_result()["uls"]
    print(r)
    ok = abs(r["y"][2] - 15.0) < 0.02
except Exception as e:
    print(repr(e)); ok = False
raise SystemExit(0 if ok else 1)
'''
