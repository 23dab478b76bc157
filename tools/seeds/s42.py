ID='timber-buckling-least-compression'
PROPERTY='P25'
NEEDS='axial force varying within one unbraced length'
BREAKS='buckling utilization uses the least instead of the greatest compression between two lateral supports'
EDITS=[('metku/structures/timber/timber_member.py','max_sigma_c0d = min(max_sigma_c0d_list)','max_sigma_c0d = max(max_sigma_c0d_list)')]
DEMO='''
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    import metku.framefem.framefem
    import metku.frame2d.frame2d
    from metku.structures.timber.timber_member import TimberMember
    from metku.sections.timber.timber_section import TimberSection
    from metku.materials.timber_data import T
    def col(top):
        s = TimberSection(140.0, 220.0, T.C24)
        m = TimberMember(s, s.material, 4000.0, "mt", 1, mtype="column", lateral_support_y=[], lateral_support_z=[], beta=1.0)
        s.timber_member = m
        m.calc_l_c()
        for x in (0.0, 0.5, 1.0):
            m.add_section(-1e5 + (1e5 + top) * x, 0.0, 0.0, 0.0, 0.0, 0.0, loc=x)
        return m.check_buckling()
    a, b = col(-1e5), col(-2e4)
print(a, b)
ok = all(abs(x - y) < 1e-9 for x, y in zip(a, b)) and a[0] > 0.05
raise SystemExit(0 if ok else 1)
'''
