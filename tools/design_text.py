"""Prose of DESIGN.md (see design.py)."""
HEAD = """# Design

metku is a sequential Python library (structural analysis, Eurocode design, optimisation).  It has no threads, no
persistent storage and no protocol; what can go wrong and what tests cannot settle are *histories* (stale caches after
edits, loads counted twice, a mirrored joint not following), *configurations* (every element kind x release x load x
orientation), *inputs at the borders of code branches* and *environment answers* (every outcome of the random draws of
the heuristics, every answer of a sub-solver).  Model checking is therefore done statelessly on the real code: a driver
closes the system with a small alphabet of operations and tiny argument domains that are forced to collide, an explorer
executes **every** word/configuration/choice sequence up to the stated bound on freshly built real objects, and after
every step the observations are compared with an independent reference model written for this purpose (`mc/ref`) or
with closed-form formulas of the standards.  Nothing is sampled, nothing depends on `VERIF_SEED`, and no solver is
involved in a verdict.

## Machinery

- `mc/core.py` – kernel: `Family(name, cases, run, rule, bound)` enumerates cases; `Ctx` counts transitions
  (`step`), canonical distinct observed states (`state`), cases outside the domain (`undefined`) and records failures
  under a stable key; cases are spread over 8 processes; every failure becomes `replays/<id>-<family>_<key>.json`
  which `mc/run.py <id> --replay FILE` replays.  An unexpected exception of the code under test is a failure of the
  case (key `exception:<type>` with the function that raised it); a worker that dies or an error of the harness
  itself is reported as such.  A known-findings file (`known_findings.txt`) can suppress single case hashes; it
  currently suppresses nothing because all defects found within the scope were repaired.
- `mc/chooser.py` – the explorer for nondeterminism: random draws (`random`, `numpy.random`) are replaced by a chooser
  that answers from a prefix of choices and then from a default; all sequences with at most *k* deviations from the
  default are executed, and a divergence while replaying a prefix is a hard error.
- `mc/ref/` – reference models: `frame.py` (dense frame solver with its own formulation of elements, releases, supports
  and loads, plus buckling), `geom.py` (cross sections by polygon/arc integration), `ec3.py`, `timber.py` (design formulas
  written from the standards), `milp.py` (exact rational enumeration of vertices and lattice points).
- `mc/drv/` – drivers: build the real object from a plain description, apply one operation, observe.
- `mc/selftest.py` (setup_cmd) – spot checks of the reference models by closed forms, so that an error in a reference
  is found there and not as an alarm.
- `tools/` – `gen.py` writes `properties.jsonl` and `MANIFEST.json` from `props_data.py`; `mkseed.py` builds and
  validates a planted bug (stable tests pass, demo passes without and fails with it, check verdict); `design.py` writes
  this file.

Model/implementation binding: there is no separate abstract model whose traces would have to be validated; every
explored trace *is* an execution of the implementation, and the reference is evaluated alongside on the same plain
description of the system.  Therefore `traces_validated_against_impl` in the evidence equals the number of cases.

False alarms are kept out by tolerances set from the rounding the code documents (element lengths are rounded to three
decimals), by excluding neighbourhoods of discontinuities (class limits, zone borders, ties) where both answers are
defensible, by accepting every defensible reading where the standard is ambiguous, and by judging only observable
results, never the form of the code.

## Properties
"""

TEXT = {
"P01": dict(oracle="`mc/ref/frame.py`: dense stiffness solution with exact fixed-end forces and static condensation derived independently; displacements and all end forces of every element are compared, and equilibrium at every node.",
  limits="plane models of at most five elements; loads on a part of an element (`xloc`) and prescribed displacements (`Support.val`) are not implemented by the code; three-dimensional beam elements are unfinished; element lengths are rounded to 3 decimals by the code, which sets the tolerance."),
"P02": dict(oracle="the same reference, recomputed from the plain description after every operation; results of load cases that were not analysed again must be bit-identical to before.", limits="words longer than the depth; alphabet of 18 edits on two small models."),
"P03": dict(oracle="dense generalized eigenproblem from independently derived geometric stiffness matrices; scaling law and independence of earlier analyses.", limits="members with end releases or semi-rigid joints and cases without compression are excluded (the code has no geometric stiffness for them)."),
"P04": dict(oracle="a ledger of (load case, target, value, factor) kept by the driver; totals per load case and per element are compared after every operation; a second, numerical witness is the sum of support reactions.", limits="loads on part of a member; a step of a stepped load inside an element is applied with the larger value by design of the code."),
"P05": dict(oracle="factor table of EN 1990 (annex) evaluated on the ledger of characteristic loads.", limits="accidental combinations ('ACC') are declared but have no factors in the code."),
"P06": dict(oracle="reference frame solver on the member-level description (hinges, meshes, node moves, sections); forces at all nodes of members, extreme values, displacements and utilisations are compared; the utilisations are recomputed from the reported forces by P15-P17 formulas.", limits="multi-span members (their hinges and meshing are unfinished)."),
"P07": dict(oracle="dictionary model of variables: bounds, locked values and the attribute values each variable must have written.", limits="problem objects with more than four variables; tables longer than five entries."),
"P08": dict(oracle="memoryless evaluation: the objective, constraints and merit are recomputed from the current attribute values after every operation.", limits="values within 1e-9 of feasibility borders are not enumerated."),
"P09": dict(oracle="hand-written gradients and textbook CONLIN/MMA formulas; first-order agreement at the expansion point, conservative curvature on a grid.", limits="binary variables, points on the upper bounds and maximisation with user gradients are excluded."),
"P10": dict(oracle="exact rational arithmetic: all vertices of linear problems; complete enumeration of discrete problems.", limits="index variables in the MILP solver; problems whose feasible set has empty interior within the solvers' tolerance; two to four variables."),
"P11": dict(oracle="bookkeeping invariants (best design never worse than any feasible design evaluated, stored values equal to a new evaluation, ids unique), the exact optimum of each move-limited subproblem for SLP, textbook update formulas for the swarm.", limits="one solver object per run; VNS class and two-phase solver (unfinished); SLP without constraints; penalised fitness of infeasible designs in GA and PSO; at most 2 deviations from the default random outcomes."),
"P12": dict(oracle="`mc/ref/geom.py` integrates the outline; edits of dimensions, grade and orientation must reproduce what a new section of the same dimensions gives.", limits="unfinished box section WBSection."),
"P13": dict(oracle="tabulated values of the standards' catalogue recomputed from dimensions, sorted order and uniqueness of catalogues, nearest profile search by enumeration.", limits="lists `chs_profiles`/`rhs_profiles` are not sorted by area in 31 places (recorded below)."),
"P14": dict(oracle="classification limits of EN 1993-1-1 table 5.2 evaluated with the plastic/elastic stress distribution found by an independent bisection.", limits="a band of 1e-6 around each class limit."),
"P15": dict(oracle="`mc/ref/ec3.py` cross-section resistances.", limits="class 4 (the code documents an elastic fallback); no reduction of bending resistance for high shear in the code; sections rotated by 90 degrees."),
"P16": dict(oracle="`mc/ref/ec3.py`: buckling curves, Mcr of the three-factor formula, LTB curves and method 2 (annex B) interaction.", limits="class 4; weak-axis bending; rotated sections; slenderness within 1e-9 of curve borders."),
"P17": dict(oracle="walk through the profile list in its order with the reference verdicts of P14-P16 on every load case, first adequate profile; fixed-point condition for the selection of a whole frame; no other member may change.", limits="lists 'H', HE AA and HE M; no adequate profile; multi-span members."),
"P18": dict(oracle="enumeration of the leading action with the factor table of EN 1990 and its Finnish annex in exact decimal arithmetic; the actions of the user are compared before and after.", limits="negative values, ties between leading actions (either accepted), values where rounding to two decimals decides."),
"P19": dict(oracle="EN 1991-1-3/-1-4 formulas with the Finnish annex, zone maps by direct geometry.", limits="monopitch roof pressures (unfinished), wind at 90 degrees and parapets."),
"P20": dict(oracle="EN 1993-1-2 reduction tables interpolated independently; explicit time stepping of the heating equation with the code's step.", limits="stainless law above 1000 degrees, `fyT` of stainless steel, protected heating."),
"P21": dict(oracle="EN 1993-1-5 effective widths and shear buckling from the plain data of the plate.", limits="stress ratio below -3, weak-axis effective modulus (not implemented), transverse stiffeners with r_M >= 1; the 0.15 % jump of chi_w at 1.08 is the standard's own."),
"P22": dict(oracle="outline, panels, braces and joint geometry recomputed from the parameters; forces by `mc/ref/frame.py` on an independently generated model of the same truss (three joint models); joint resistances by the formulas of P23.", limits="both ends of the bottom chord set back or none; joints with three braces have no design in the code; the gap at a ridge (formula of the code is for straight chords); bending of the chord at joints is not part of the joint design in the code; portal trusses."),
"P23": dict(oracle="formulas of EN 1993-1-8 section 7 written from the standard on plain data.", limits="validity limits are only printed by the code; with a chord face plate both readings of gamma are accepted; KT joints have no design; X joint chord shear area is the area of the section."),
"P24": dict(oracle="formulas of EN 1993-1-8 tables 3.3, 3.4 and section 4.5 on plain data.", limits="slotted holes, preloaded bolts (categories B, C, E), pins."),
"P25": dict(oracle="`mc/ref/timber.py` EN 1995-1-1.", limits="strength tables are those of the repository; LVL shear in service class 1; compression perpendicular to grain at nodes; MahaPalkki; fire strengths; bounds of the size factor; stability ties of tapered members."),
"P26": dict(oracle="component method of EN 1993-1-8 6.2/6.3 recomputed from the geometry for every row and group.", limits="prying always assumed and no 1.9 Ft,Rd rule (as the code documents), k1 not infinite for stiffened panels, plate height not resized when the beam is replaced, row type END_ROW_ADJACENT, rows closer than 2.2 d0 or unordered, class 4 beams, joint cost."),
"P27": dict(oracle="`mc/ref/frame.py` for the description itself: members split wherever they meet a member, support, load or node of the mesh.", limits="verification of one member is taken from P15-P17 (given the forces of the reference); removal of self-weight; eccentricities; hinge_joints for members that are not beams; Truss2D (plane_truss cannot be imported); timber and tapered members; point loads between the nodes of a generated model; several support systems."),
"P28": dict(oracle="the truss is known from its description alone (equilibrium matrix from the coordinates); least volumes from all vertices of the arrangement of the redundant forces, profile and topology problems by enumerating every combination, each decided with the elastic solution; whether the problem accepts a combination is decided by fixing its selection variables and solving for the remaining ones.", limits="MILP optima only for units and displacement limits within the solver's tolerances; mechanisms accepted by the necessary stability condition of the topology problem are not judged; groups in sizing problems only limit the profile lists; the Frame2D flavour of the area problem with several load cases; fully stressed designs of indeterminate trusses; the benchmark problems (written for an older material interface)."),
"P29": dict(oracle="every cost is recomputed from plain numbers by a stateless reimplementation of the feature-based costing equations (its own rates, times and speeds; only the tables of bolt, nut and washer prices are read from the library); geometry of trusses from their joints.", limits="beam welding and drilling centres are unfinished (undefined attributes); costs of welds of braces that are vertical at a kinked chord joint (either chord may be meant); number of stiffener plates per side; grades missing in the library's saw table (S275); drying and erection costs."),
"P30": dict(oracle="`mc/ref/beamcolumn.py`: stability functions per element with the axial forces of an own first-order solution, releases condensed exactly, own elimination.", limits="rods, springs and semi-rigid elements (no second-order stiffness in the code); axial force constant along an element and line loads uniform (documented assumptions); below the critical load (decided by the reference); members in tension follow first-order theory in the code; `second_order_elastic` (load increments) is unfinished."),
"P31": dict(oracle="`mc/ref/convex.py`: exact optimum of the quadratic problem from all active sets, and of the sizing problem by bisection of the multiplier.", limits="MMA for '<' constraints and constrained optima only, trust region not on reciprocal problems and with at most one constraint, COBYLA from an interior start and with at most two constraints; problems with several nearly active sets are left out; augmented Lagrangian (relative difference step, result not reported), `problem.solve('trust-constr')` and SLQP (needs gurobi); starting points where scipy's own SLSQP stops because the objective does not change."),
"P32": dict(oracle="Shapes integrated over strips with Gauss points; plastic states by bisection on the axial equilibrium of full plastic stresses; formulas of EN 1994-1-1 6.6.3.1 and 6.7.3 and EN 1992-1-1 Annex B transcribed in the check.", limits="Steel part doubly symmetric; neutral axis not cutting bars nor inside rounded corners; the concrete block is 0.85 of the material's design strength, as coded; fillets of rolled sections count as steel; the relative humidity lies in the shared concrete material; interaction checked where NEd < 0.9 Ncr,eff."),
"P33": dict(oracle="Frame: `mc/ref/frame.py` from the description (as P27); resistances: `mc/ref/ec3.py` with the section of `mc/drv/sections.py`; requested constraints: dictionary per member.", limits="Frames without rods; joint constraints of tubular trusses are not part of it (P21, P24); the class in the interaction formulas is 3 for members that were welded when the constraints were made and 2 otherwise, as coded; lateral-torsional buckling constraints exist for members that were open sections at that time; welded sections of class 4, ratios of zero end moments and class borders are skipped; circular sections have no class constraints."),
"P34": dict(oracle="`mc/ref/thinwall.py`: Gauss integration along the middle line, shear centre and warping constant as the orthogonal projection of the sectorial coordinate; Z- and C-sections from sharp lines with 4-chord (and 400-chord) corners; formulas written from the standard.", limits="Effective sections of Z- and C-sections (the code refers to attributes that do not exist and prints unfinished steps), stiffness of edge stiffeners, lateral loads of purlins and stressed-skin diaphragms are not part of it; lips with a notional width over 0.6 of the flange have no buckling factor; pitch of sheets between middle lines or outer faces is accepted; rotation of sheeting is for thickness 0.75 and above."),
"P35": dict(oracle="Direct stiffness method of the pin-jointed truss with the published nodes, bars, loads, areas and limits (written in `mc/props/p35.py`); published optima of the ten-bar truss (5490.74 lb and 5491.71 lb).", limits="FifteenBarTruss (shape variables) is left out: its crossing diagonals get a common joint that stays where it was when the nodes move, so that its forces are not those of the published truss; this is a modelling limit of Frame2D and no small repair exists. FiftyTwoBarTruss and benchmark_trusses.py cannot be evaluated (obsolete interface). ThreeBarTruss: two known findings (stress limit and names of the stress constraints; discrete variables without values) are recorded and not repaired, because files under `benchmarks` are not edited in this task; its stress constraints are accepted with exactly the known values and nothing else, its discrete form is not evaluated. TenBarTruss and ThreeBarTruss are hinged-beam models: 0.4 and 1.5 percent of the greatest value are allowed."),
"P36": dict(oracle="parallel axis theorem; fastener as a bar on springs solved by the flexibility method (`mc/props/p36.py`).", limits="`SandwichPanel` only; the constants of the hole stiffness (6.93, 4.2, 0.26, 0.373) are those of the recommendations as the code has them."),
"P37": dict(oracle="`mc/ref/space.py`: flexibility method in global coordinates (compliance of the section integrated along the member with Gauss points, inverted, completed by equilibrium).", limits="releases, buckling and second-order analysis are not implemented for elements in space; springs and semi-rigid elements are plane; line loads on rods in global directions and along the rod; models that are nearly mechanisms (condition number over 1e6) are not judged, because lengths are rounded to 0.001."),
}

TAIL = """## Planted bugs

Every planted bug lies in `seeded/`; each was written from a property and the code, and validated with `tools/mkseed.py`
in a copy (stable tests pass, demonstration passes without and fails with it).  All are caught by the check of their
property.  Four were missed at first and led to stronger checks (one each of P07, P08, P09 and P18: an alphabet lacked the history or value that made the bug visible); a gap
noticed while planting in P25 (stability of tapered members) was closed as well.

## What is out of reach or out of scope

- Modules that cannot be imported with the installed packages or that refer to modules that do not exist:
  `cost.cost_calculation`, `frame2d.plane_truss`, `frame2d.robot3D`, `framefem.loads.*`, `framefem.sections.*`,
  `optimization.problems.{column_calculations*,end_plate,ibeam_test,truss}`, `solvers.grid_search`, `pso_deap`,
  `solvers.conlin`, `results.*`.
- Unfinished code: `ColumnBase` constructor, `WBSection`, `clt_slab`, `TwoPhase` (return order swapped), VNS class.
- No property was set aside because the technique does not apply.  What it cannot give here is a verdict over *all* real
  numbers: continuous inputs are covered at the enumerated alphabets, which were chosen so that every branch of the code
  and every formula is exercised on both sides of its borders.

Known defects outside the properties' domain (not repaired): `MultiSpanSteelMember.optimum_design` ignores
`max_utility`, hinges and meshing of multi-span members, `MemberGroup.add_member` does not apply the section of the
group, `SteelMember` keeps the sections of its construction mesh, 31 places where two catalogue lists are not sorted by area, the elite particle of the PSO has no effect.
"""
