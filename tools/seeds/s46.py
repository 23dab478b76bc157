ID='truss-mirrored-joint-drops-xloc'
PROPERTY='P22'
NEEDS='symmetric truss with the symmetry registered, a joint first moved along the chord and then its eccentricity edited'
BREAKS='editing the eccentricity of a gap joint puts the mirrored joint back to the node in the direction of the chord, so the two halves of the truss differ'
EDITS=[('metku/raami/raami_plane_truss.py','''                self.sym_joint.__yloc = val
                self.sym_joint.xp.coords = self.sym_joint.node.coords + self.sym_joint.__xloc*self.sym_joint.chords[0].dir_vector + self.sym_joint.__yloc*self.sym_joint.chords[0].perpendicular
''','''                self.sym_joint.__yloc = val
                self.sym_joint.xp.coords = self.sym_joint.node.coords + self.sym_joint.__yloc*self.sym_joint.chords[0].perpendicular
''')]
DEMO='''
import metku.framefem.framefem
from metku.raami.raami_plane_truss import SlopedTruss, TubularKGapJoint
t = SlopedTruss(L1=8000, L2=8000, h1=1200, h2=1700, dx1=1000, dx2=1000)
t.generate_topology("K", 3)
t.generate_supports()
t.generate_joints()
t.symmetry()
bad = 0
for j in list(t.joints.values()):
    if isinstance(j, TubularKGapJoint) and j.sym_joint is not None and j.node.x < 8000:
        j.xloc = 25.0
        j.yloc = 30.0
        s = j.sym_joint
        d = abs(j.xp.x + s.xp.x - 16000.0) + abs(j.xp.y - s.xp.y)
        print(j.node.coords, d)
        bad += d > 1e-6
raise SystemExit(1 if bad else 0)
'''
