ID="member-section-stale-axial"
PROPERTY="P15"
NEEDS="a member whose later section carries no axial force after a section with axial force was checked"
BREAKS="checking a section without axial force keeps the axial force of the section checked before"
EDITS=[("metku/structures/steel/steel_member.py","""        self.profile.Ned = self.sections[loc]['N']
        self.profile.Med[0] = self.sections[loc]['My']
        self.profile.Ved[1] = self.sections[loc]['Vz']

        r = self.profile.section_resistance(verb=verb)
""","""        sec = self.sections[loc]
        if sec['N']:
            self.profile.Ned = sec['N']
        self.profile.Med[0] = sec['My']
        self.profile.Ved[1] = sec['Vz']

        r = self.profile.section_resistance(verb=verb)
""")]
DEMO='''
from metku.sections.steel.RHS import RHS
from metku.structures.steel.steel_member import SteelMember
m = SteelMember(RHS(200, 100, 6), 4000)
m.add_section(ned=-3e5, myed=1e6, loc=0)
m.add_section(ned=0.0, myed=2e7, loc=1)
m.check_sections()
u = m.sections[1]["utilization"]
print(u)
raise SystemExit(0 if u["n"] == 0 else 1)
'''
