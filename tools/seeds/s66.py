ID='frame-problem-late-element'
PROPERTY='P33'
NEEDS='constraints of the problem of a frame whose members have several elements'
BREAKS='cross-section constraints are made by a function that looks up its element when it is called: all of them measure the last element of the last member'
EDITS=[('metku/optimization/problems/structural_problem.py', '                for key, val in section_cons.items():\n                    if eval(key.lower()):\n                        con = NonLinearConstraint(\n                            name=f"{key}: {mem.mem_id}|{eid}",\n                            con_fun=val,', '                for key, val in section_cons.items():\n                    if eval(key.lower()):\n                        con = NonLinearConstraint(\n                            name=f"{key}: {mem.mem_id}|{eid}",\n                            con_fun=lambda x, k=key: section_cons[k](x),')]
DEMO='\nfrom metku.frame2d.frame2d import Frame2D, SteelBeam, SteelColumn, LineLoad, FixedSupport\nfrom metku.optimization.problems.structural_problem import StructuralProblem\nfr = Frame2D()\nms = [SteelColumn([[0, 0], [0, 4000]], profile="HE 200 A", num_elements=2), SteelBeam([[0, 4000], [6000, 4000]], profile="IPE 300", num_elements=2), SteelColumn([[6000, 0], [6000, 4000]], profile="HE 200 A", num_elements=2)]\nfor m in ms:\n    fr.add(m)\nfr.add(FixedSupport([0, 0]))\nfr.add(FixedSupport([6000, 0]))\nfr.add(LineLoad(ms[1], [-20, -5], "y"))\nfr.generate()\np = StructuralProblem(structure=fr, var_groups=[{"name": "A", "var_type": "index", "value": 0, "values": ["HE 200 A", "HE 220 A"], "property": "profile", "objects": [ms[0], ms[2]]},\n                                                {"name": "B", "var_type": "index", "value": 0, "values": ["IPE 300", "IPE 400"], "property": "profile", "objects": [ms[1]]}])\ng = {c.name: float(c([0, 0])) for c in p.cons}\ne = list(ms[1].elements.values())\nok = True\nfor k, el in zip(ms[1].elements, e):\n    V = max(abs(v) for f in el.fint.values() for v in f["fz"])\n    ok = ok and abs(g[f"shear: {ms[1].mem_id}|{k}"] - (V / ms[1].cross_section.VRd - 1)) < 1e-9\nraise SystemExit(0 if ok else 1)\n'
