ID='frame-problem-class-of-first-tube'
PROPERTY='P33'
NEEDS='cross-section class constraint of a tubular member evaluated after the variables selected another tube'
BREAKS='slenderness of the flange is that of the tube that the member had when the constraints were made'
EDITS=[('metku/optimization/problems/structural_problem.py', '        K_web = [0, 33, 38, 42, np.inf]\n', '        tube = mem.cross_section\n        K_web = [0, 33, 38, 42, np.inf]\n'), ('metku/optimization/problems/structural_problem.py', '                c = mem.cross_section.c_flange\n                t = mem.cross_section.T\n', '                c = tube.c_flange\n                t = tube.T\n')]
DEMO='\nfrom metku.frame2d.frame2d import Frame2D, SteelBeam, LineLoad, FixedSupport\nfrom metku.optimization.problems.structural_problem import StructuralProblem\nfr = Frame2D()\nm = SteelBeam([[0, 0], [6000, 0]], profile="SHS 200X8.0", num_elements=2)\nfr.add(m)\nfr.add(FixedSupport([0, 0]))\nfr.add(FixedSupport([6000, 0]))\nfr.add(LineLoad(m, [-20, -5], "y"))\nfr.generate()\np = StructuralProblem(structure=fr, var_groups=[{"name": "A", "var_type": "index", "value": 0, "values": ["SHS 200X8.0", "SHS 250X6.0"], "property": "profile", "objects": [m]}],\n                      constraints={"flange_class": True, "shear": True})\nc = [c for c in p.cons if c.name.startswith("flange_class")][0]\nok = True\nfor x in ([0], [1], [0]):\n    g = float(c(x))\n    s = m.cross_section\n    print(x, g, s)\n    ok = ok and abs(g - (s.c_flange / s.T - 38 * s.eps)) < 1e-9\nraise SystemExit(0 if ok else 1)\n'
