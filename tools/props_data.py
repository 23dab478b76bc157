"""Properties of kuisidu/metku.  One entry per property; see gen.py."""
TEST_GAP = ("The stable tests evaluate a few cross-section constants and one critical moment; ")


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                why_tests_cant=why, anchors=anchors, technique=technique, level_note=note)


BFS = "explicit-state bounded model checking: exhaustive enumeration of %s on the real code against an independent reference model"

PROPS = [
P("P01", "Static frame analysis satisfies equilibrium and compatibility",
  "For every supported stable plane model assembled from beam, rod, spring and semi-rigid beam elements, with releases, supports, nodal loads and full-length line loads, the linear static analysis gives the nodal displacements and element end forces of exact linear beam theory, in every load case and with either way of treating supports. Every load acts exactly once, multiplied once by its factor, and several loads on the same node or element superpose.",
  ["programs", "inputs"],
  "all small plane models over finite alphabets of geometry, element kind, section, end releases, support set, load kind/direction/coordinate system/factor and support treatment",
  TEST_GAP + "no test that passes runs the analysis at all, and a fixed example cannot cover combinations of element kind, release, orientation, support and load.",
  ["metku/framefem/framefem.py", "metku/framefem/elements/ebbeam.py", "metku/framefem/elements/rod.py", "metku/framefem/elements/springs.py", "metku/framefem/elements/eb_semi_rigid_beam.py"],
  [("assembly and solution", "FrameFEM.linear_statics, global_stiffness_matrix, global_load_vector"), ("element stiffness, condensation of releases, equivalent loads, end forces", "EBBeam.local_stiffness_matrix, equivalent_nodal_loads, internal_forces; Rod; LinearSpring; EBSemiRigidBeam"), ("dof numbering", "FrameFEM.nodal_dofs")],
  BFS % "all small structural models",
  "Exhaustive over the stated alphabets of models; trusts the independent stiffness solver in mc/ref/frame.py (different formulation, spot-checked by closed forms in mc/selftest.py)."),
P("P02", "Analysis results always describe the current model, whatever its history",
  "After any sequence of edits to a plane frame model (section, material, node position, releases, loads and their factors, supports, added elements or load cases) interleaved with analyses in any load case and support treatment, a renewed analysis gives the displacements and end forces that a freshly built model with the same data gives. Results of load cases that were not re-analysed are left as they were.",
  ["histories"],
  "all operation sequences up to a depth over an alphabet of model edits and analyses",
  TEST_GAP + "a test runs one construction followed by one analysis; stale state needs a specific sequence of edits and solves.",
  ["metku/framefem/framefem.py", "metku/framefem/elements/ebbeam.py"],
  [("stored element loads, displacements and condensed matrices", "Element.floc, FEMNode.u, EBBeam.Krel"), ("analysis refresh", "FrameFEM.linear_statics")],
  BFS % "all edit/analysis histories up to a depth",
  "Every word over the edit/analyse alphabet up to the depth is executed; the reference is recomputed from an independent description of the model after every step.",
  state=[("fint", "element end forces per load case", "Element.fint"), ("u", "nodal displacements per load case", "FEMNode.u")]),
]

PROPS += [
P("P03", "Linear buckling load factors solve the stability eigenproblem",
  "For every stable plane beam frame whose members are partly in compression, linear buckling analysis returns exactly the smallest positive load factors for which the structure, with the axial forces of the analysed load case, loses stability, in ascending order. Scaling all loads of the case divides the factors by the same amount, and an earlier analysis of another load case or an earlier state of the model does not change them.",
  ["programs", "histories"],
  "all small frames over finite alphabets of geometry, mesh, releases, supports and loads, and scaling/edit histories",
  TEST_GAP + "no passing test runs the buckling analysis.",
  ["metku/framefem/framefem.py", "metku/framefem/elements/ebbeam.py"],
  [("geometric stiffness and eigenvalue solution", "FrameFEM.linear_buckling, EBBeam.local_geometric_stiffness_matrix")],
  BFS % "all small frames and load scalings",
  "Reference: dense generalized eigenproblem built from independently derived matrices."),
P("P04", "Every load in a frame model acts exactly once, under its own name",
  "In a plane frame model, every nodal load, full-length line load (uniform, trapezoidal or stepped between elements) and self-weight that has been added and not removed acts exactly once, with its value times its user factor, in the load case carrying its identifier, whatever names were given (equal or default names, adding the same load object again), whichever other loads exist and however often the mesh is generated again. Turning self-weight on twice leaves exactly one set of self-weight loads, equal to the weight per length of each member's section at the time it was last turned on and acting downwards; turning it off leaves none.",
  ["histories"],
  "all histories up to a depth of adding loads (colliding or default names), self-weight on/off, mesh generation and analysis",
  TEST_GAP + "no passing test touches the frame model; lost or doubled loads need a name collision or a repeated operation.",
  ["metku/raami/raami.py", "metku/raami/frame_loads.py"],
  [("load registry and load cases", "Raami.add, Raami.add_self_weight, Raami.remove_self_weight"), ("transfer to the finite element model", "FrameFEM loads via Load.add_load")],
  BFS % "all load-bookkeeping histories up to a depth",
  "Total applied load per load case is compared with an independent ledger after every operation."),
P("P05", "Load combinations apply the partial factors of EN 1990 to each load",
  "For every combination of load cases of permanent, imposed, snow and wind type in a frame model, with any leading variable case (the first variable case unless one is set), the load case of the combination contains each load of those cases exactly once with its characteristic value times its own factor times the design factor: ULS 1.15 permanent, 1.5 leading variable, 1.5 psi0 other variable; SLS (characteristic) 1.0, 1.0 and psi0; psi0 is 0.7 for imposed and snow loads and 0.6 for wind. Combining again (also after values, factors, the leading case or the loads of a case changed) replaces the earlier result, and never changes the characteristic loads or another combination.",
  ["configurations", "histories"],
  "all small sets of load cases, leading-action choices, limit states and repeated combination histories",
  TEST_GAP + "no passing test builds a combination.",
  ["metku/raami/frame_loads.py", "metku/raami/raami.py"],
  [("combination factors", "LoadCombination.combine, LoadCase.combine, Load.factored")],
  BFS % "all small combinations and combine histories",
  "Independent table of EN 1990 factors and a ledger of loads."),
P("P06", "Member forces and utilisations of a frame are those of its members",
  "After analysing a plane frame, each member reports in each load case the exact internal forces and displacements at the ends of its own elements, for every mesh density, orientation, hinge pattern, support type and member kind (beams, columns, axially loaded bars), also after sections, materials, hinges, node positions, buckling lengths or loads were changed; hinges, sections and supports set on one member or node affect only that one (and, once symmetry has been detected, sections its mirror image). The design force of a member in a load case is a value of greatest magnitude over these points, the reported extremes over load cases are the true minima and maxima together with the forces acting concurrently, and the utilisation is that of a separately made member with the same profile, length and forces.",
  ["programs", "histories"],
  "all small frames over member type, orientation, mesh density, hinge pattern, support type and load kind, and edit histories",
  TEST_GAP + "no passing test builds a frame model.",
  ["metku/raami/raami.py", "metku/raami/frame_member.py", "metku/raami/frame_supports.py", "metku/raami/frame_node.py"],
  [("mesh generation", "Raami.generate_fem, FrameMember.generate_elements"), ("force transfer", "FrameMember.calc_nodal_forces, NEd, VzEd, MyEd")],
  BFS % "all small frame models and edit histories",
  "Member-level forces are compared with the independent frame solver on the same geometry."),
P("P07", "Design variables lock, unlock and substitute consistently",
  "For every history of locking, unlocking, fixing and substituting design variables, a substitution with the values of the free variables gives every free variable its own value, limited to its bounds, and every structural attribute it controls the corresponding (scaled or mapped) value, while locked variables and their attributes keep the locked value. Discrete and index variables map to the selected table entry, and membership, violation and neighbours of table values agree with the table.",
  ["histories"],
  "all histories up to a depth of lock/unlock/substitute over mixed variable kinds",
  TEST_GAP + "no test covers the optimisation layer.",
  ["metku/optimization/variables.py", "metku/optimization/structopt.py"],
  [("variable state", "Variable.lock, Variable.unlock, Variable.substitute"), ("problem-level substitution", "OptimizationProblem.substitute_variables, fix_var, clear_vars")],
  BFS % "all variable histories up to a depth",
  "A dictionary model of the variables is run in lockstep."),
P("P08", "Objective and constraint values depend only on the design point",
  "For every problem, every pattern of locked variables and every history of evaluations, the objective and each constraint evaluated at a design point equal the mathematical function at the full point, including locked values, and re-evaluation at the same point gives the same value. Functions that need structural analysis see the results for that point and not for an earlier one. Feasibility, penalty, barrier and Lagrangian functions and multiplier updates follow from these values and the sense of each constraint.",
  ["histories", "inputs"],
  "all problems over small function alphabets, lock patterns and evaluation histories",
  TEST_GAP + "no test covers the optimisation layer.",
  ["metku/optimization/constraints.py", "metku/optimization/objective.py", "metku/optimization/structopt.py"],
  [("function evaluation", "Constraint.__call__, LinearConstraint, ObjectiveFunction.__call__, OptimizationProblem.eval_cons")],
  BFS % "all evaluation histories over small problems",
  "Plain Python functions are the oracle."),
P("P09", "Local approximations agree with the function at the expansion point",
  "For every smooth problem and expansion point, with any pattern of locked variables, the linear, convex-linear and moving-asymptote approximations reproduce the value and the gradient of the approximated function at the expansion point and follow their defining formulas away from it, and linear constraints stay exact. The variables of an approximation stay within the bounds and the asymptotes, and building it leaves the problem and its variables at the expansion point (binary variables and points on an upper bound are outside).",
  ["inputs"],
  "all test functions, points, signs of derivatives and lock patterns of finite alphabets",
  TEST_GAP + "no test covers the approximations.",
  ["metku/optimization/structopt.py"],
  [("approximations", "OptimizationProblem.linearize, conlin, mma, NumGrad")],
  BFS % "all functions and expansion points of a grid",
  "Analytic gradients; one-sided finite-difference tolerance."),
P("P10", "Exact discrete optimisers return the optimum of the problem",
  "For every bounded linear problem with continuous, integer, binary or discrete-table variables (some possibly locked), and every such problem with a convex quadratic or separable nonlinear objective and constraints solved by branch and bound, the linear programming, mixed-integer linear and branch-and-bound solvers report a design inside the bounds and tables that satisfies all constraints and has the best objective value of all such designs. The reported objective is the objective of the reported design, and infeasibility is reported exactly when there is no feasible design. This holds for every sense of constraints, search option, relaxation solver and starting point, and for repeated solution of the same problem.",
  ["inputs", "programs"],
  "all small problems over finite alphabets of coefficients, bounds, variable types, constraint senses, locked variables and search options",
  TEST_GAP + "no test runs any optimiser.",
  ["metku/optimization/solvers/bnb.py", "metku/optimization/solvers/milp.py", "metku/optimization/solvers/lp.py", "metku/optimization/structopt.py"],
  [("search tree, bounds tightening and neighbourhood", "bnb.BnB, structopt.discrete_neighborhood"), ("linear programming back ends", "milp.MILP, lp.LP")],
  BFS % "all small mixed problems of the alphabets, compared with an exact rational enumeration",
  "Oracle (mc/ref/milp.py): complete enumeration of the discrete part with exact vertex enumeration of the continuous part; feasibility needs a margin, index variables are outside the domain."),
P("P11", "Heuristic optimisers report the best design that they evaluated",
  "Whatever the random decisions and starting point, the iterative search methods (the common iteration loop, sequential linear and mixed-integer linear programming, particle swarm, genetic algorithm, discrete neighbourhood search from a feasible design, ant colony) evaluate only designs inside the bounds and tables, keep the complete history of iterates, and report, when a feasible design was evaluated, the best of the evaluated feasible designs together with its objective value. The sequential methods move to the optimum of the linearised problem within the move limits, the neighbourhood search stops only at a design that is not worse than its feasible neighbours, and a random starting point is feasible.",
  ["schedules", "inputs"],
  "all bounded sequences of random choices, moves and starting points on small problems with a new solver object",
  TEST_GAP + "no test runs any optimiser and random search samples only a few choice sequences.",
  ["metku/optimization/solvers/optsolver.py", "metku/optimization/solvers/slp.py", "metku/optimization/solvers/mislp.py", "metku/optimization/solvers/pso.py", "metku/optimization/solvers/ga.py", "metku/optimization/solvers/vns.py", "metku/optimization/solvers/aco.py"],
  [("best-solution bookkeeping", "OptSolver.solve and the overriding solve methods"), ("move-limited subproblem", "SLP, MISLP take_action"), ("random operators", "PSO, GA, DiscreteVNS, AntColonyOptimizer")],
  BFS % "all resolutions of the random choices with a bounded number of deviations from a default, like preemption-bounded schedules",
  "The random sources (numpy and random) are replaced by an enumerating chooser; the genetic algorithm's penalised value without any feasible design, solver reuse for other problems and the two-phase method are outside."),
P("P12", "Cross-section properties always follow the current dimensions",
  "For every rectangular, square and circular hollow section, rolled-type and welded I-section (also monosymmetric) and hat (WQ) section, and every history of dimension, material and orientation changes through the section's own setters, each cross-section property (area, painted area, second moments, elastic and plastic moduli, shear area, torsion and warping constants, weight, self-weight) equals the value for the current dimensions computed from first principles and that of a newly created section of the same dimensions.",
  ["histories", "inputs"],
  "all dimension-edit histories up to a depth over profile types and dimension values",
  TEST_GAP + "they check some constants of freshly made sections only.",
  ["metku/sections/steel/RHS.py", "metku/sections/steel/ISection.py", "metku/sections/steel/wi.py", "metku/sections/steel/CHS.py", "metku/sections/steel/steel_section.py"],
  [("property refresh", "SteelSection setters and cross_section_properties")],
  BFS % "all dimension-edit histories up to a depth",
  "Reference formulas are integrated from the geometry independently."),
P("P13", "Catalogue profiles match their own geometry and name",
  "For every profile in the steel catalogues (IPE, HEA, HEB, HE AA/C/M by its class; RHS, SHS and CHS), creating it by its name, with any steel grade, gives the standard dimensions of that name, and its properties agree with those computed from these dimensions. The same holds for the IPE, HEA, HEB and HEM profiles of the profiles package, whatever was done to copies of them; the properties of a copy follow its dimensions.",
  ["configurations"],
  "every profile of every catalogue",
  TEST_GAP + "they visit a handful of profiles.",
  ["metku/sections/steel/catalogue.py", "metku/sections/steel/ISection.py", "metku/sections/steel/RHS.py", "metku/sections/steel/CHS.py", "metku/profiles/steel/isections.py", "metku/profiles/steel/isection_formulas.py"],
  [("catalogue lookup", "IPE, HEA, HEB, RHS, SHS, CHS constructors")],
  BFS % "every catalogue entry",
  "Complete enumeration of the catalogues against geometry."),
P("P14", "Cross-sections are classified as EN 1993-1-1 prescribes",
  "For every doubly symmetric rolled or welded I-section, rectangular, square and circular hollow section, steel grade, and sign and combination of axial force and bending about the major axis, the class of the cross-section is that of the most unfavourable part in Table 5.2 of EN 1993-1-1 for the stress distribution of the forces currently set.",
  ["inputs", "configurations"],
  "all profiles x grades x force combinations of finite alphabets, including values on both sides of every class limit",
  TEST_GAP + "classes are not tested at the limits.",
  ["metku/eurocodes/en1993/en1993_1_1.py", "metku/sections/steel/steel_section.py"],
  [("class limits", "internal_part_in_bending, internal_part_in_compression, outstand_part_in_compression"), ("section class", "SteelSection.section_class")],
  BFS % "all profiles, grades and force states of a grid",
  "Independent transcription of Table 5.2."),
P("P15", "Cross-section resistance follows EN 1993-1-1 for all force states",
  "For every doubly symmetric rolled or welded I-section and every rectangular, square or circular hollow section, of any dimensions and steel grade, in any force state with axial force, shear force and bending about the major axis that puts it in class 1, 2 or 3, the resistances and the utilisations in axial force, shear, bending, and bending with axial force (no reduction for high shear) are those of EN 1993-1-1, 6.2.3 to 6.2.9, for the forces, dimensions and steel currently set, whatever was set or checked before. A member reports these utilisations for each of its sections and the greatest of them.",
  ["inputs", "histories"],
  "all profiles x force states of grids and histories of force changes and checks",
  TEST_GAP + "they check single resistances of some profiles and no interaction.",
  ["metku/eurocodes/en1993/en1993_1_1.py", "metku/sections/steel/steel_section.py"],
  [("resistance formulas", "SteelSection.axial_force_resistance, bending_resistance, shear_force_resistance, section_resistance")],
  BFS % "all profiles and force states of a grid, in every order",
  "Independent transcription of clause 6.2."),
P("P16", "Member buckling resistance follows EN 1993-1-1 and current member data",
  "For every steel member of a doubly symmetric I-section or a hollow section in class 1 to 3 in uniaxial bending, the elastic buckling forces and moments, slenderness, imperfection factors, flexural, torsional and lateral-torsional buckling resistances, equivalent moment and interaction factors, and the utilisations in buckling and in combined bending and compression are those of EN 1993-1-1, 6.3 and Annex B, for the current length, buckling lengths, section, steel and forces, whatever was computed or changed before. The critical moment and section constants of monosymmetric welded I-sections follow the three-factor formula; members without torsional deformation and weak-axis moment need no check of the second interaction formula beyond its axial term.",
  ["inputs", "histories"],
  "all members over finite alphabets of profiles, lengths, buckling factors, grades and force sets, and edit histories",
  TEST_GAP + "one critical moment is tested.",
  ["metku/structures/steel/steel_member.py", "metku/eurocodes/en1993/en1993_1_1.py"],
  [("buckling checks", "SteelMember.buckling_strength, LT_buckling_strength, check_beamcolumn")],
  BFS % "all members and edit histories of finite alphabets",
  "Independent transcription of clause 6.3 and Annexes A/B."),
P("P17", "Profile selection finds the first adequate profile of its list",
  "Searching a profile family (IPE, HEA, HEB, RHS, SHS, CHS) for a member, a group of members or a member and its mirror image selects the first profile of the family's list that, in the requested steel grade, lies within the width limits, the limit for the section class in compression and the slenderness limit, and with which every concerned member stays within the utilisation limit in every load case; all concerned members then have that profile and the utilisations belonging to it, and no other member changes. Selecting the profiles of a whole frame ends at a state where each selection is the first adequate one for the forces of the frame with those profiles. Mirror images are exactly the members whose ends are mirrored about the axis (families in which no profile is adequate and the mixed H list are outside the property).",
  ["inputs", "configurations"],
  "member kinds, load sets, profile families, search limits and groupings",
  TEST_GAP + "no passing test runs design.",
  ["metku/raami/frame_member.py", "metku/raami/raami.py"],
  [("profile search", "SteelFrameMember.optimum_design, MemberGroup.optimum_design, profile_list"), ("whole frames", "Raami.optimize_members"), ("mirror images", "Raami.symmetry")],
  BFS % "all combinations of structures, loads, families, search limits and groupings",
  "Oracle: scan of an independent profile catalogue with the reference member design of P16 and the reference frame solver."),
P("P18", "Action combinations of EN 1990 report the governing values",
  'For every non-empty set of permanent (line or area) and variable (imposed, snow, wind) actions with non-negative values that are not all zero, and for every building category, consequence class and frame spacing, each combination (ultimate, characteristic, frequent, quasi-permanent, accidental) reported is the one with the largest total over all choices of the leading action with the partial and combination factors of EN 1990 and its Finnish annex, area and variable actions being multiplied by the spacing. The reported line loads, also split into permanent, leading and other parts, are the factored actions of that combination summed per load case and direction (each action rounded to two decimals). Reducing the imposed loads by the loaded area multiplies exactly those (factor between 0.7 and 1.0, categories A to D), and the actions given by the user are never modified, also when several structures share them.',
  ["configurations", "inputs"],
  'all small multisets of actions, load cases, directions, categories, consequence classes and spacings; all histories of adding actions, reducing and reading results',
  TEST_GAP + 'load combination has no test.',
  ['metku/eurocodes/en1991/en1991.py'],
  [('combination rules', 'ULSCombiner, SLSCombiner, ACCCombiner, MultiCombiner')],
  BFS % "all small action sets",
  "Oracle: direct enumeration of leading actions."),
P("P19", "Wind actions follow EN 1991-1-4 for every site and building",
  'For every terrain category, height, basic wind speed, direction and season factor, the roughness factor, mean velocity, turbulence intensity and peak velocity pressure are those of EN 1991-1-4, with heights below the minimum height of the terrain treated as the minimum height. For every building plan and height, the zones and external pressure coefficients of walls and of flat roofs without parapets, and the coefficients of monopitch roofs of at least 5 degrees with the wind on the low or the high eave, are those of EN 1991-1-4 (interpolated linearly between the tabulated angles, height ratios and, logarithmically, loaded areas of 1 and 10 square metres).',
  ["inputs", "configurations"],
  'all grid points of terrain x height x speed and of building dimensions, loaded areas and pitches, with every breakpoint and both neighbours',
  TEST_GAP + 'wind has no test.',
  ['metku/eurocodes/en1991/en1991_1_4.py'],
  [('wind pressure and coefficients', 'peak_velocity_pressure, wall and roof pressure functions')],
  BFS % "all grid points including breakpoints",
  "Independent transcription of EN 1991-1-4."),
P("P20", "Fire properties of steel follow EN 1993-1-2 at every temperature",
  'For every temperature from 20 to 1200 degrees, the strength, stiffness and thermal properties of carbon steel, of bolts and of stainless steel 1.4301 are those of EN 1993-1-2 (table values interpolated linearly; the factors of carbon steel never increase with temperature). The stress-strain law of carbon steel (with and without strain hardening) is the one of the standard at every strain below 1200 degrees: continuous, bounded by the strength and with the initial modulus of that temperature, and so is that of stainless steel up to 1000 degrees. The gas temperature curves and the stepwise heating of unprotected carbon and stainless steel follow the equations of the standard at every step.',
  ["inputs"],
  'all temperatures of a grid containing every table row and branch and both neighbours, all materials, strains with all branch points, all steps of heating histories',
  TEST_GAP + 'fire has no test.',
  ['metku/eurocodes/en1993/en1993_1_2.py', 'metku/materials/steel_data.py'],
  [('reduction factors', 'en1993_1_2 tables and interpolation'), ('stress-strain and thermal properties', 'stress, stress_stainless, therm_elongation, spec_heat'), ('heating', 'steel temperature histories')],
  BFS % "all temperatures and strains of grids with all breakpoints",
  "Independent transcription of the tables."),
P("P21", "Plate buckling and effective sections follow EN 1993-1-5",
  'For every stress ratio from -3 to 1, plate and steel, the buckling factors, slenderness, reduction factors and effective widths of internal and outstand parts, the shear buckling factors and resistances and the resistance to transverse forces (all three load types) are those of EN 1993-1-5. For every welded I-section, symmetric or not, the effective area in uniform compression, the effective second moment of area, effective section modulus and class 4 bending resistance about the strong axis with the top flange in compression (ratio of web edge stresses not below -3), the shear buckling resistance (moment below the capacity of the flanges) and the resistance to transverse forces are those of the standard for the current dimensions and steel, whichever effective properties were computed before.',
  ["inputs"],
  'all grid points of stress ratio, slenderness and geometry including branch points; all welded sections of a dimension alphabet; all histories of edits and queries up to a depth',
  TEST_GAP + 'two effective sections are tested, with one symmetric profile.',
  ['metku/eurocodes/en1993/en1993_1_5.py', 'metku/sections/steel/wi.py'],
  [('plate buckling', 'buckling_factor_internal, buckling_factor_outstand, reduction_factor_internal, reduction_factor_outstand, effective widths'), ('shear buckling and transverse forces', 'shear_buckling_reduction_factor, shear_buckling_web, shear_buckling_flanges, transverse_force_resistance'), ('effective welded I-section', 'WISection.Aeff, effective_second_moment_area_y, W_eff_y, shear_buckling_resistance, transverse_load_resistance')],
  BFS % "all grid points including branch points",
  "Independent transcription of EN 1993-1-5."),
P("P22", "Generated trusses have the asked form, act as frames and check their joints",
  "For every admissible span, height, division, end shape and brace pattern, a generated roof truss has the requested outline, panels and braces (connected, without duplicates, mirror symmetric when the data are), and its member forces in each joint model (no eccentricity, EN 1993 eccentricity, eccentricity elements) are those of exact frame analysis of that geometry under uniform chord loads and point loads at nodes. The angles, gaps, eccentricities and resistances of the welded joints follow EN 1993-1-8 for the current profiles, locations and forces, piecewise loads and weights cover every chord part once, and all of this holds whatever the order in which joints, profiles, loads and joint models were changed and mirrored. The same is true of Vierendeel trusses (rigidly jointed chords and verticals).",
  ["configurations", "histories"],
  "all truss configurations of finite alphabets of geometry, pattern, profiles, loads and joint models, and all edit histories to a depth",
  TEST_GAP + "no passing test builds a truss.",
  ["metku/raami/raami_plane_truss.py", "metku/raami/raami_vierendeel.py"],
  [("topology generation", "SlopedTruss.generate_topology, generate_joints; VierendeelTruss"), ("finite element models", "SlopedTruss.generate_fem, TopChord/BottomChord/TrussBrace.generate_elements"), ("joints", "TubularYJoint, TubularKGapJoint")],
  BFS % "all truss configurations and edit histories",
  "Geometry invariants and joint geometry are recomputed from the parameters; forces are compared with mc/ref/frame.py on an independently built model, joint resistances with the formulas of P23. Joints with three braces have no design in the code and are only modelled."),
P("P23", "Hollow section joint resistances follow EN 1993-1-8 chapter 7",
  "For every welded Y, X and K gap joint of rectangular hollow sections and for every sign and size of the brace and chord forces, the resistances of all failure modes and their governing design value are those of EN 1993-1-8 chapter 7 for the current members. This holds whatever the order in which members, angles, gaps, forces and reinforcement plates were set, and whichever brace is the compressed one.",
  ["inputs", "histories"],
  "all joint geometries of finite alphabets of profiles, angles, gaps, grades and forces, all edit histories to a depth",
  TEST_GAP + "joints have no test.",
  ["metku/eurocodes/en1993/en1993_1_8/rhs_joints.py"],
  [("joint resistance", "RHSKGapJoint, RHSYJoint, RHSXJoint, Line")],
  BFS % "all joint geometries of finite alphabets and all edit histories to a depth",
  "Independent transcription of Tables 7.10-7.14."),
P("P24", "Bolt and weld resistances follow EN 1993-1-8",
  "For every bolt size, grade, hole, spacing and plate thickness, and for every history of changing bolt data, the shear, tension, bearing, punching and combined resistances and weld resistances are those of EN 1993-1-8 chapter 3 and 4 for the current data.",
  ["inputs", "histories"],
  "all bolts x plates x edit histories of finite alphabets",
  TEST_GAP + "connections have no test.",
  ["metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py"],
  [("bolt and weld resistance", "Bolt, weld functions")],
  BFS % "all bolts, plates and edit histories",
  "Independent transcription of Table 3.4."),
P("P25", "Timber members are verified by EN 1995-1-1 for the current data",
  "For every timber member (strength class, service class, load duration, size, supports, tapered or curved shape) and every sign pattern of its forces, the strengths, section, buckling, lateral-torsional and apex utilizations are those of EN 1995-1-1 for the current data, after every history of edits. Changing the sign of moments, minor-axis moments or torsion never lowers a utilization, and drawing a member from its other end changes nothing. Charring in fire grows continuously with time and the section only shrinks.",
  ["configurations", "inputs", "histories"],
  "all strength classes x service classes x durations x sizes x supports x force sign patterns, edit histories to depth 2 (3), 244 fire times per protection",
  TEST_GAP + "timber has no passing test; the defects need negative moments, an edit after an evaluation, a member drawn from its other end or a time near an event of the protection.",
  ["metku/eurocodes/en1995/en1995_1_1.py", "metku/eurocodes/en1995/en1995_1_2.py", "metku/eurocodes/en1995/fire_protection.py", "metku/structures/timber/timber_member.py", "metku/sections/timber/timber_section.py", "metku/materials/timber_data.py"],
  [("factors", "kmod, get_gammaM, kdef, k_to_d"), ("member checks", "TimberMember"), ("charring", "d_char_n, charring_speed")],
  BFS % "all members, force patterns, edit histories and fire times",
  "Independent transcription of the rules; strength tables pinned."),
P("P26", "Bolted beam joints follow the component method for the current data",
  "For every bolted end-plate joint and fin-plate joint, and every history of changing its members, plate, bolts, positions, stiffeners and welds with resistances asked in any order, the moment resistance, shear resistance, row forces and initial stiffness are those of the component rules of EN 1993-1-8 for the current data.",
  ["inputs", "histories"],
  "all joints of finite alphabets, all edit histories to depth 2 (3)",
  TEST_GAP + "end-plate and fin-plate joints have no passing test; stale T-stubs, groups and row forces need an edit followed by a query in a particular order.",
  ["metku/structures/steel/end_plate_joint.py", "metku/structures/steel/fin_plate_joint.py", "metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py", "metku/eurocodes/en1993/en1993_1_8/component_method.py"],
  [("joint", "EndPlateJoint, FinPlateJoint"), ("components", "TStub, BoltRow, BoltRowGroup, component_method")],
  BFS % "all joints, edit histories and query orders",
  "Independent component-method oracle (T-stubs from row geometry, alpha chart solved by bisection, group reduction) and statics of bolt groups."),
P("P27", "Frames described by members, supports and loads (Frame2D) are analysed and verified as described",
  "For every plane frame or truss described to Frame2D or SimpleTruss by members, supports and loads, in whatever order they are added and however finely members are meshed, and after every history of changing profiles, joint stiffness and geometry, adding loads, generating and analysing again, the displacements, internal forces, extreme forces and utilisations of every member are those of the described structure (members joined where they meet) under the described loads of the load case, and the profile selected for a member is the first of its list that is adequate in all load cases.",
  ["inputs", "orders", "histories"],
  "structures x loads x meshes x orders of description; all histories to depth 3 (4); all profile lists",
  TEST_GAP + "the tests of Frame2D check a portal and a beam; loads in other orders, crossing members, unevenly spaced nodes, several load cases and re-generation are not compared with anything.",
  ["metku/frame2d/frame2d.py", "metku/frame2d/simple_truss.py", "metku/framefem/framefem.py"],
  [("frame", "Frame2D.add, generate, calculate"), ("members", "FrameMember"), ("trusses", "SimpleTruss")],
  BFS % "all descriptions, orders and edit histories",
  "Independent direct-stiffness solution of the structure split at every meeting point, support, load and node; independent section properties."),
P("P28", "Sizing problems of trusses represent the truss they are made for",
  "For every pin-jointed truss with one or several load cases, the optimisation problems made from it represent it: the linear problem has the least volume of all areas within bounds that carry every load case within the stress bounds; the profile selection problem accepts a combination of profiles exactly when the elastic truss with these profiles meets strength, buckling and displacement limits in every load case, and its optimum is the lightest such combination (of the members present, for topology problems); objective, stress, strength, buckling and displacement constraints of the area problem have the values of the elastic truss with the areas evaluated, after every history of evaluations; a scaled or fully stressed design is the one these constraints require.",
  ["inputs", "histories"],
  "8 trusses x 1-2 load cases x bounds x profile lists x units x formulations; all profile combinations and all topologies of each problem, all evaluation histories to depth 2 (3)",
  TEST_GAP + "no passing test makes a truss sizing problem.",
  ["metku/optimization/problems/truss_optimization.py", "metku/optimization/problems/raami_truss_optimization.py", "metku/optimization/problems/truss_milp.py", "metku/raami/raami_simple_truss.py", "metku/frame2d/simple_truss.py"],
  [("linear problem", "truss_lp"), ("profile selection and topology", "truss_milp, TrussMILP"), ("area problem", "TrussOptimization")],
  BFS % "all combinations of profiles, topologies and evaluation histories",
  "Independent elastic truss solution, all vertices of the polytope of redundant forces, complete enumeration of profile combinations."),
P("P29", "Fabrication costs are those of the current parts, whatever was priced before",
  "For every sequence of cost requests on a workshop and of changes to the workshop's data, plates, bolted joints and trusses, each cost equals that of a workshop and part created afresh with the current data: (productive and other time) x minute cost of the centre / utilisation + productive time x energy and consumables per minute + consumables of the work (blasting, plasma and flame cutting, painting, assembly welding, sawing of each end); the cost of a plate is material (price, grade and thickness extras) and its cutting, blasting, painting, holes and welds; joints add bolts, nuts, washers, holes, welds and stiffeners; trusses the material, blasting, painting and sawing of every member and the weld of every brace; the stages add up to the total and asking again gives the same cost.",
  ["inputs", "histories"],
  "5 cost centres x data x all argument grids; all sequences of 14 requests and changes to depth 3 (4); plates over all thickness classes; all edit sequences of plates to depth 3 (4), joints and trusses to depth 2 (3)",
  TEST_GAP + "no passing test evaluates a fabrication cost.",
  ["metku/cost/workshop.py", "metku/structures/steel/plates.py", "metku/structures/steel/end_plate_joint.py", "metku/structures/steel/fin_plate_joint.py", "metku/raami/raami_plane_truss.py"],
  [("cost centres", "CostCentre.cost and its subclasses"), ("parts and joints", "RectPlate.cost, EndPlateJoint.cost, FinPlateJoint.cost"), ("trusses", "PlaneTruss.cost, TubularJoint.cost")],
  BFS % "all sequences of requests and edits on shared objects",
  "Stateless reimplementation of the feature-based costing equations (Haapio 2012) evaluated on plain data."),
P("P30", "Second order analysis follows beam-column theory",
  "For every plane frame of beams with or without releases, under any nodal and uniform line loads whose axial forces are below the critical load, the second order analysis of a support and load case gives the displacements and internal forces of beam-column theory (stability functions with the axial forces of the first order analysis; members in tension unchanged) with the current sections, materials, supports and loads, for every mesh, either way of treating the supports, vanishing axial forces included. First order results are not disturbed, and every history of changing sections, materials, loads and supports and analysing any case again gives what a newly made model gives.",
  ["inputs", "histories"],
  "columns: orientation x supports x releases x 11 axial levels x loads x meshes; 7 frames: all release assignments x supports x levels; all histories to depth 2 (3) over 11 operations",
  TEST_GAP + "no test calls the second order analysis.",
  ["metku/framefem/framefem.py", "metku/framefem/elements/ebbeam.py"],
  [("analysis", "FrameFEM.second_order_analysis"), ("element", "EBBeam.second_order_stiffness_matrix, equivalent_nodal_loads, second_order_internal_forces")],
  BFS % "all members, frames and histories",
  "Independent beam-column solution (stability functions, condensation of releases, own elimination)."),
P("P31", "Continuous optimisers return the optimum of convex problems",
  "For every convex problem with bounds, linear or nonlinear constraints and possibly locked variables (strictly convex quadratic objectives in minimisation or maximisation form; least weight with flexibility constraints in reciprocal variables), the gradient-based and pattern solvers (SLSQP, COBYLA, method of moving asymptotes, trust region and the problem's own solve) return a point that is within the bounds and satisfies the constraints and whose objective is that of the optimum within the solver's tolerance; locked variables keep their values; the reported objective is that of the reported point; and the answer does not depend on what was solved, locked or unlocked before with the same problem and solver. Steepest descent with line search decreases the function and stops at its minimum.",
  ["inputs", "starting points", "histories"],
  "all subsets of constraints x forms x locks x starting points x solvers; all sizing data over two values; all histories to depth 2 (3)",
  TEST_GAP + "the tests of the optimisation package only make problems.",
  ["metku/optimization/solvers/slsqp.py", "metku/optimization/solvers/mma.py", "metku/optimization/solvers/trust_region.py", "metku/optimization/structopt.py"],
  [("solvers", "SLSQP, COBYLA, MMA, TrustRegionConstr"), ("problem", "OptimizationProblem.solve, mma, eval_ineq_con"), ("unconstrained", "steepest descent, line search")],
  BFS % "all problems, starting points and histories",
  "Exact optimum from all active sets of the quadratic problem (closed form with multiplier search for sizing problems)."),
P("P32", "Composite members follow EN 1994-1-1 for the current parts",
  "For every composite beam (doubly symmetric rolled or welded steel part under a solid or composite slab), the short and long term elastic stiffness and centroid are those of the transformed section, and the plastic neutral axis and moment resistance are those of the equilibrium of full plastic stresses (steel at yield, concrete at 0.85 of its design strength); for every concrete filled tube with or without bars, areas, second moments, axial and plastic moment resistance (when no bar is cut by the neutral axis) are those of its geometry in pure plastic states, and effective stiffness, critical forces, slenderness and buckling resistance about either axis, imperfection and utilisation in compression and bending follow the simplified method of 6.7.3; creep follows EN 1992-1-1 Annex B and studs 6.6.3.1. All follow from the current parts, dimensions, materials, lengths and forces after every history of changes.",
  ["inputs", "histories"],
  "tubes x steels x concretes x bars x places x lengths x forces; steel parts x slabs x concretes x spans x ages; creep and stud grids; all change histories to depth 3 (4)",
  TEST_GAP + "no test makes a composite member.",
  ["metku/sections/composite/composite_beam.py", "metku/sections/composite/composite_column.py", "metku/eurocodes/en1994/en1994_1_1.py", "metku/eurocodes/en1992/constants.py", "metku/eurocodes/en1992/en1992_1_1.py"],
  [("beams", "CompositeIBeam"), ("columns", "ConcreteFilledTube"), ("studs and concrete", "ShearStud.PRd, Concrete.creep_coefficient")],
  BFS % "all parts, forces and histories",
  "Shapes integrated over strips; plastic states by bisection on the axial equilibrium."),
P("P33", "Optimisation problem of a frame has the requested constraints and they measure what their names say",
  "For every plane frame, loads in up to three load cases, grouping of the design variables (profile lists, continuous or discrete dimensions, groups, or the default list) and set of requested constraints, each member has exactly the constraints that were asked for it (groups replace those of their members only), and at every design, in any order of evaluations, each constraint is the greatest over the member's sections and all load cases of the named utilisation of the section that the variables stand for, minus one: axial force, shear and bending over the cross-section resistance, compression over the buckling resistance about the named axis, the interaction of 6.3.3, bending over the lateral-torsional buckling resistance, greatest displacement over the limit, and slenderness of the parts against the limit of their class; the objective is the weight of that design.",
  ["inputs", "histories"],
  "10 frames x 4 load sets x groupings x meshes x all (or 16) designs; all pairs of constraints and groups; all histories to depth 2 (3)",
  TEST_GAP + "no test makes the problem of a frame.",
  ["metku/optimization/problems/structural_problem.py", "metku/optimization/structopt.py", "metku/optimization/constraints.py", "metku/optimization/variables.py", "metku/frame2d/frame2d.py", "metku/structures/steel/steel_member.py"],
  [("problem", "StructuralProblem(structure, var_groups, con_groups, constraints)"), ("constraint", "Constraint.__call__"), ("frame", "FrameMember")],
  BFS % "all designs, constraint sets and evaluation histories",
  "Frame solved by mc/ref/frame.py from its description, resistances from mc/ref/ec3.py."),
P("P34", "Cold-formed sections and formulas follow EN 1993-1-3",
  "For every unbranched open thin-walled section given by its middle line and the thickness of each segment, in any place, after any history of splitting segments, changing thicknesses and moving nodes, area, first, second and product moments about the given and the centroidal axes, principal second moments and axes, torsion constant and modulus, shear centre and warping constant are those of that line; for every Z- and C-section with or without lips, gross area, middle line, weight, stiffness, shear centre, average yield strength, notional widths, plate slendernesses and reduction factors of web, flanges and lips follow from its dimensions, and pitch, width, web length and area of trapezoidal sheets from theirs; and transverse force resistances of webs, screw resistances (ambient and fire), distortional buckling factors, average yield strength, notional widths, axial resistance, shear and rotational stiffness of sheeting are those of the formulas of EN 1993-1-3 for every admissible input.",
  ["inputs", "histories"],
  "all middle lines of 2-4 (5) nodes over a lattice x thicknesses; all change histories to depth 3 (4); Z- and C-sections, sheets and formula inputs over grids",
  TEST_GAP + "no test makes a cold-formed section.",
  ["metku/eurocodes/en1993/en1993_1_3/open_prof.py", "metku/eurocodes/en1993/en1993_1_3/cf_profs.py", "metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py", "metku/eurocodes/en1993/en1993_1_3/trapezoidal.py"],
  [("sections", "OpenProf, ZSection, CSection, TrapezoidalSheet"), ("formulas", "RwRd, RwRd_two_webs, screw_*, CD_A, fya, notional_width, axial_force_resistance")],
  BFS % "all middle lines, dimensions, inputs and histories",
  "Gauss integration along the line; shear centre and warping by projection of the sectorial coordinate; formulas written from the standard."),
P("P35", "Benchmark truss problems measure the truss that they publish",
  "For the ten-bar benchmark (TenBarTruss, SimpleTenBarTruss), the fifteen-bar benchmark (SimpleFifteenBarTruss) and the three-bar benchmark (ThreeBarTruss), every type of variables they offer (continuous, discrete, index) and every design point, whichever points were evaluated before, in whatever order, and whatever other problems are alive: the weight is that of the published geometry and density with the areas of the point; the constraints 'Tension i' and 'Compression i' are +-N/(A sigma_max) - 1 with the force N and area A of that bar in the published pin-jointed truss with these areas; 'Displacement i' is the greatest displacement (vertical displacement in TenBarTruss) of the ends of the bar over its limit, minus one; 'Buckling i' of the three-bar truss is the compressive stress over 100 E A/(8 L^2), minus one (models of hinged beams: within the small effect of their bending). The published optima of the ten-bar truss are feasible and have the published weight.",
  ["inputs", "histories"],
  "all problem types x base points x single (thorough: pair) changes; all exchanges of two values, one after the other; all histories of evaluations of two problems alive to depth 2 (3); published optima",
  TEST_GAP + "no test makes a benchmark problem.",
  ["metku/optimization/benchmarks/ten_bar_truss.py", "metku/optimization/benchmarks/simple_ten_bar_truss.py", "metku/optimization/benchmarks/simple_fifteen_bar_truss.py", "metku/optimization/benchmarks/three_bar_truss.py", "metku/frame2d/frame2d.py"],
  [("problems", "TenBarTruss, SimpleTenBarTruss, SimpleFifteenBarTruss, ThreeBarTruss"), ("evaluation", "OptimizationProblem, NonLinearConstraint")],
  BFS % "all design points of a lattice and histories of evaluations",
  "Direct stiffness method of the pin-jointed truss, written from the published data."),
P("P36", "Sandwich panels: stiffness, fasteners and independence of panels",
  "For every sandwich panel (SandwichPanel, ruukki_panel; faces, core, width, positions of the screws, screw), however it was made and whatever was changed afterwards in it or in other panels: thickness and distance of the faces are those of its present parts; the bending stiffness is that of the faces about their own centroids (EIo) and about their common centroid (EIs), the shear stiffness S is G b d^2/t of the core; the transverse stiffness of a fastener is the reaction of a bar clamped by the rotational spring of the support and held by the hole of the inner face and by the outer face (European Recommendations ECCS) for a unit displacement; the shear resistance is 4.2 fu sqrt(tcor^3 d1)/1.25 of the inner face; the stiffness given to a member is the sum over the present screw pairs. Panels are independent: a change of the screw, the screw positions or the faces of one leaves the others, and those made later, as they were.",
  ["inputs", "histories"],
  "all panels of a lattice of faces, cores, screws and positions; all histories of edits to depth 2 (3) with another panel alive and one made later",
  TEST_GAP + "no test makes a panel.",
  ["metku/sandwich/sandwich.py", "metku/materials/steel_data.py"],
  [("panel", "Face, Core, SandwichPanel"), ("fastener", "SandwichScrew, fastener_transverse_stiffness, shear_stiffness_for_support")],
  BFS % "all panels and histories of edits",
  "Parallel axis theorem and flexibility method for the fastener, written independently of the closed formulas of the code."),
P("P37", "Linear statics of beams and rods in space",
  "For every model in space of beam elements (EBBeam3D) and rods, with any directions of the members, orientation nodes (default: the local z axis points upwards, for vertical members in the x direction), sections (BeamSection or steel profile), supports, nodal forces and moments, line loads in global or local directions with factors, and load cases: displacements and rotations of the nodes and all six end forces of the members (fx, fy, fz, mx, my, mz) are those of exact beam theory; they do not depend on how the supports are treated (ZERO or REM), on whether the load cases are analysed one by one or together, or on what was analysed before; after any change of loads, factors, sections, materials, nodes, orientation nodes, supports or load cases the next analysis is that of the model as it now is.",
  ["inputs", "histories"],
  "one member: 10 directions x 4 orientations x 7 x 7 supports x 12 loads; every assignment of beam or rod to 5 topologies x supports; all histories of changes to depth 2 (3)",
  TEST_GAP + "no test makes a model in space.",
  ["metku/framefem/framefem.py", "metku/framefem/elements/ebbeam.py", "metku/framefem/elements/rod.py"],
  [("elements", "EBBeam3D, Rod"), ("analysis", "FrameFEM.linear_statics, FEMNode, PointLoad, LineLoad")],
  BFS % "all models and histories of changes",
  "Flexibility method in global coordinates: the compliance of the cross-section integrated along the member, inverted, completed by equilibrium."),
]

NOT_APPLICABLE = {}
_DONE = ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21', 'P22', 'P23', 'P24', 'P25', 'P26', 'P27', 'P28', 'P29', 'P30', 'P31', 'P32', 'P33', 'P34', 'P35', 'P36', 'P37']
for _p in PROPS:
    if _p['id'] not in _DONE:
        NOT_APPLICABLE[_p['id']] = 'check not built yet'

