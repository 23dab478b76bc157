ID='truss-weld-throat-of-chord-steel'
PROPERTY='P29'
NEEDS='braces of another steel grade than the chord of their joint'
BREAKS='full strength welds of braces are sized for the steel of the chord, so their cost is wrong'
EDITS=[('metku/raami/raami_plane_truss.py',"""        a = full_strength_weld_tube(brace.material)
""","""        a = full_strength_weld_tube(self.chords[0].material)
""")]
DEMO='''
import metku.framefem.framefem
from metku.raami.raami_plane_truss import SlopedTruss
def make(order):
    t = SlopedTruss(L1=8000., L2=8000., dx1=0, dx2=0, h1=1200., h2=1700.)
    t.generate_topology('K', 2)
    t.generate_supports()
    t.generate_joints()
    if 'b' in order:
        for b in t.braces.values():
            b.cross_section.material = 420
    if 'c' in order:
        for m in t.top_chord + t.bottom_chord:
            m.cross_section.material = 420
    t.cost()
    return t.costs['welding']
a, b = make('b'), make('bc')
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-9 * a else 1)
'''
