ID="raami-section-same-area"
PROPERTY="P06"
NEEDS="section of a member changed after meshing to one with the same area but another second moment (a rotated rectangular tube)"
BREAKS="the finite elements keep the old section"
EDITS=[("metku/raami/frame_member.py","""        self.__cross_section = val
        if not self.member is None:
            self.member.profile = val            
        
        self.update_element_sections()
""","""        old = getattr(self,'_FrameMember__cross_section',None)
        self.__cross_section = val
        if not self.member is None:
            self.member.profile = val            
        
        # The finite elements need new properties only if the size changes
        if old is None or not np.isclose(old.A,val.A):
            self.update_element_sections()
""")]
DEMO='''
from metku.raami.raami import *
from metku.sections.steel.RHS import RHS
def make(sec):
    fr = Raami()
    fr.add(FrameNode([0, 0])); fr.add(FrameNode([6000, 0]))
    fr.add(SteelFrameMember([fr.nodes[0], fr.nodes[1]], sec))
    fr.add(XYHingedSupport(fr.nodes[0])); fr.add(YHingedSupport(fr.nodes[1]))
    m = list(fr.members.values())[0]
    fr.add(LineLoad(m, [-1, -1], 'y', load_id=2))
    fr.generate_fem()
    return fr, m
def defl(fr, m):
    fr.structural_analysis('all', 'REM', design=False)
    return max(abs(float(u[1])) for u in m.nodal_displacements[2])
fr, m = make(RHS(200, 100, 5))
defl(fr, m)
m.cross_section = RHS(100, 200, 5)
a = defl(fr, m)
b = defl(*make(RHS(100, 200, 5)))
print(a, b)
raise SystemExit(0 if abs(a - b) < 1e-6 * b else 1)
'''
