"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": observe, "hook_needed": None}}


ST = "conmech/state/state.py"
PS = "conmech/simulations/problem_solver.py"
BF = "conmech/scene/body_forces.py"
DY = "conmech/dynamics/dynamics.py"
SM = "conmech/dynamics/statement.py"
SC = "conmech/solvers/optimization/schur_complement.py"
GO = "conmech/solvers/optimization/global_optimization.py"
OP = "conmech/solvers/optimization/optimization.py"
PR = "conmech/state/products/product.py"

PROPS = [
 p("C01", "A saved state loads back as exactly the state that was saved",
   "Whenever saving a simulation state returns without an error, loading that path - in the same or in "
   "another process, at any later time - yields a state whose time, displacement, velocity, absement, "
   "displaced nodes, temperature, electric potential and products are bit for bit those at the moment "
   "of the save. Nothing done later in the saving process (more steps, other solves, other saves to "
   "other paths, changing the state in memory) changes what is loaded, and short or interrupted system "
   "calls underneath are invisible.",
   ["inputs", "histories", "fault_sequences"],
   "every problem kind and state, every later activity of the saving process, every pattern of short "
   "and interrupted reads and writes",
   "The tests save one wave state and look at two of its arrays in the same process; they never vary the "
   "kind of state, the history after the save, the process that loads, or the system calls below.",
   [ST, BF, PR], [("StatePickler / State.save", ST), ("State.load", ST), ("Product.copy", PR)],
   ["State.save", "State.load"]),
 p("C02", "A checkpoint path always holds one complete checkpoint",
   "At every instant, after every error, interrupt, process crash or power loss, the file under a path "
   "that states are saved to loads as one complete earlier save to that path: once a first save "
   "returned it never disappears, is never torn, empty or mixed, and a save that returned survives a "
   "later crash. Saves and loads by several threads or processes on one path behave as if they happened "
   "one after another, and a failed save leaves the previous checkpoint in place, no stray files and "
   "the possibility to save again.",
   ["crash_points", "schedules", "fault_sequences"],
   "every point of the save at which the process or machine stops, every disk error, every interleaving "
   "of savers and loaders",
   "No test crashes, fails a system call, fills the disk or saves concurrently; each saves once to a "
   "fresh path and reads it back.",
   [ST], [("write to a temporary file, sync, atomic replace, clean up", "State.save in " + ST)],
   ["State.save", "State.load", "directory content"]),
 p("C03", "Observing a simulation does not change how it goes on",
   "Saving, copying, loading, inspecting, computing stresses of, or mutating copies of a state - a live "
   "one in the middle of a simulation or a delivered one, from the same or another thread, also when the "
   "save fails or is interrupted - leaves the rest of the simulation exactly as it would have been "
   "without it: same states, same products, same later solves.",
   ["histories", "schedules", "fault_sequences"],
   "every observation at every step and line, successful or failing, in every interleaving with the "
   "simulation",
   "Tests save at most once, after the run, and never look at what the simulation computes afterwards.",
   [ST, BF, PS, PR], [("saving without touching the simulation", "StatePickler in " + ST),
                      ("deep enough copies", "State.__copy__, Product.copy")],
   ["solve() results", "products"]),
 p("C04", "A resumed simulation equals one that never stopped",
   "A wave simulation stopped after any number of steps and resumed from its state - kept, copied or "
   "saved and loaded, on the same or a new solver, in the same or a new process, any number of times - "
   "delivers the same states, times and products as the simulation run in one go. A driver that "
   "checkpoints every few steps and is killed or hits disk errors at arbitrary points reaches the same "
   "final result after restarting from its last checkpoint.",
   ["crash_points", "histories", "fault_sequences"],
   "every cut of the step sequence, every way of carrying the state over, every kill point and disk "
   "error in the checkpointing driver",
   "One test resumes one membrane once at a fixed step; no test kills anything or goes through a file "
   "in another process with products attached.",
   [PS, ST, PR], [("WaveSolver.solve(state=...)", PS), ("State.save/load", ST)],
   ["WaveSolver.solve", "State.load"]),
 p("C05", "Simulations side by side do not influence each other",
   "Any number of simulations built and run in one process - interleaved step by step or in different "
   "threads under any schedule, also with one of them being interrupted, also when they share a problem "
   "description or a contact law - each compute exactly what they compute when run alone.",
   ["schedules", "programs", "fault_sequences"],
   "every interleaving of building and running 2-3 simulations at the granularity of source lines, every "
   "choice of what they share, interrupts in one of them",
   "Tests run one simulation at a time and single threaded.",
   [PS, DY, BF, OP, "conmech/solvers/_solvers.py", "conmech/mesh/mesh.py"],
   [("no state shared between bodies, solvers and problems", PS),
    ("(value, time) cached together", "FieldSource in " + BF)],
   ["solve() results of each simulation"]),
 p("C06", "What a solver computes does not depend on what it was used for before",
   "A call to solve() returns the same states as on a newly built solver given the same arguments, "
   "whatever the solver went through before: completed solves with other initial data, lengths and "
   "optimiser settings, solves killed by an interrupt or by a failing force, initial field, product, "
   "optimiser or terminal, abandoned step-by-step runs, or changes of the solving method.",
   ["histories", "fault_sequences"],
   "every sequence of earlier uses of the solver, each ending normally or at any point by a fault",
   "Tests build a new solver for each solve and never abort one.",
   [PS, DY, BF, SM, SC, GO, "conmech/solvers/solver.py", "conmech/solvers/direct.py"],
   [("solve() sets time and vectors of the step solvers from the initial state", PS),
    ("iterate() rebuilds the statement", SC)],
   ["solve() results"]),
 p("C07", "A failure underneath surfaces and never becomes a quietly wrong result",
   "When a user callback, product, optimiser, linear solve, memory allocation, terminal or mesh file read "
   "fails while a simulation is built or run, or the user interrupts it, the call raises with that "
   "failure in its exception chain or returns exactly what it would have returned without it. States "
   "delivered before the failure are the right ones and stay untouched.",
   ["fault_sequences", "crash_points"],
   "every line at which an interrupt or memory error can arrive, every call of every callback and "
   "dependency that can fail, one or two faults per run",
   "No test injects a failure.",
   [PS, SM, OP, SC, BF, DY, "conmech/mesh/mesh.py"],
   [("exceptions propagate; nothing is swallowed or partially applied", PS)],
   ["solve() outcome", "states delivered before"]),
 p("C08", "A delivered state is the caller's own",
   "A state handed to the caller - returned, yielded in the middle of a run, copied or loaded - is never "
   "changed by later steps, solves, killed solves or changes to other states, products or the arrays the "
   "caller passed in. Changing it, or the arrays passed in, changes no other state and not the "
   "simulation.",
   ["histories", "schedules"],
   "every sequence of steps, solves, copies and mutations by the caller, also from another thread while "
   "the simulation runs",
   "Tests compare only the last state right after it is returned.",
   [ST, PS, PR], [("State.__copy__ of each kind of state", ST), ("Product.copy", PR)],
   ["every state handed out"]),
 p("C09", "Which steps are requested and how they are consumed changes nothing",
   "For every non-decreasing selection of output steps, given as any kind of iterable (with zeros and "
   "repeats, or left out for the last step only), a time dependent solve delivers exactly one state per "
   "requested step, in order, each equal - products included - to that step of the same simulation run "
   "with every step delivered. Printing progress, recording products, clock jumps, and the pace, "
   "interleaving or failure of a consumer that takes states one by one make no difference.",
   ["inputs", "schedules", "histories"],
   "every selection and form of output steps, every consumer schedule",
   "Tests use one or two selections per solver and compare only the last state.",
   [PS], [("output_step handling in each solve()", PS), ("products updated at every step", ST)],
   ["solve() results"]),
 p("C10", "Time, displacement, velocity, absement and boundary values stay consistent",
   "After every step, whatever happened on that solver before, time equals the number of steps times the "
   "time step, displacement has grown by the time step times velocity (absement by the time step times "
   "displacement in relaxation problems), displaced nodes are the nodes plus displacement, and each "
   "product holds exactly one entry per step. The stresses a state gives are those of its current values. "
   "Prescribed values of the primary unknown hold on the whole "
   "Dirichlet boundary (temperature and potential on theirs), and the mesh is unchanged.",
   ["inputs", "histories", "fault_sequences"],
   "every problem kind, mesh, method and step, live and delivered states, after every solver history",
   "Tests compare final displacements of a few set-ups with pinned numbers to three decimals.",
   [ST, PS, SM, "conmech/mesh/boundaries.py"],
   [("State.set_velocity / set_displacement", ST), ("Statement.apply_dirichlet_condition", SM),
    ("ProblemSolver.run", PS)],
   ["live state seen by products", "solve() results"]),
 p("C11", "Every step solves that step's discrete problem",
   "Each step of a static, Poisson, wave, quasistatic, relaxation, dynamic, thermal or piezoelectric "
   "simulation delivers the solution of the P1 finite element problem posed by the given mesh, material, "
   "contact law, prescribed values, loads at the step's time and the state before the step, whatever the "
   "solver was used for before. This holds for each solving method and optimiser within its accuracy, and "
   "the first delivered state is the given initial one.",
   ["inputs", "histories", "fault_sequences"],
   "every problem, mesh, material, load, initial datum, method and step, after every history of "
   "completed, failed and killed solves; contact laws of compliance type; contact and Dirichlet parts "
   "meet in corners at most",
   "Tests pin final displacements of one or two set-ups per kind with zero initial data and constant "
   "loads; a term that matters only later, elsewhere or with other data is not seen.",
   [SM, PS, SC, GO, OP, "conmech/solvers/direct.py", "conmech/solvers/solver_methods.py", DY, BF,
    "conmech/dynamics/factory/dynamics_factory_method.py",
    "conmech/dynamics/factory/_dynamics_factory_2d.py", "conmech/mesh/boundaries_factory.py"],
   [("statements", SM), ("operators", "conmech/dynamics/factory/_dynamics_factory_2d.py"),
    ("cost functional and Schur complement", SC)],
   ["solve() results"]),
 p("C12", "A result depends on the problem alone, not on the process computing it",
   "A simulation computes the same states and products whatever the state of the process: wall clock "
   "and timers, contents of uninitialised or freed memory, random seeds, garbage collections at any "
   "moment, hash seed, working directory, floating point error and print settings, terminal, thread, "
   "number of BLAS threads, optimised mode, and whatever other problems - however similar - were built, "
   "solved and dropped before. Those process-wide settings are left as found.",
   ["configurations", "histories", "schedules"],
   "every process environment and every earlier workload of the process",
   "Tests run in one environment, mostly one problem per process after another in a fixed order, and "
   "compare to three decimals.",
   [PS, DY, SC, GO, OP, "conmech/solvers/_solvers.py",
    "conmech/dynamics/factory/dynamics_factory_method.py"],
   [("no hidden inputs", PS), ("arrays fully initialised", "conmech/dynamics/factory")],
   ["solve() results", "process-wide settings"]),
 p("C13", "A body with given element densities behaves by the densities last given",
   "After update_density returned, a non-homogenous static simulation solves the problem in which each "
   "element has exactly the density given for it, whatever densities, solves, method switches and "
   "failures came before and whatever the caller does to the array afterwards. Until an "
   "update completes again, each solve after an interrupted update uses the old or the new densities, never "
   "a mixture; a solve that fails leaves them as they were.",
   ["histories", "fault_sequences", "inputs"],
   "every sequence of updates, solves and faults; every assignment of densities",
   "One test updates the density once and pins one displacement.",
   [PS, DY, "conmech/dynamics/factory/dynamics_factory_method.py"],
   [("NonHomogenousSolver.update_density", PS), ("Dynamics.update_density / element weights", DY)],
   ["NonHomogenousSolver.solve"]),
 p("C14", "A drawing shows the state it was asked for, and drawing changes nothing",
   "A saved drawing is byte for byte the one a fresh process makes of that state with those options, "
   "whatever was drawn before, whichever other figures are open or current, and whatever drawings failed "
   "or were killed. Nodes, forces, stresses, fields, intersections and limit points on it are those of the state at "
   "its time. A drawing that cannot be saved raises, and states, earlier files and the caller's other "
   "figures stay as they were.",
   ["histories", "fault_sequences", "inputs"],
   "every sequence of drawings, options, open figures, disk errors, interrupts and clock jumps",
   "Tests do not check drawings at all.",
   ["conmech/plotting/drawer.py", "conmech/plotting/membrane.py"],
   [("Drawer.draw / do_draw", "conmech/plotting/drawer.py"),
    ("plot_in_columns, plot_limit_points", "conmech/plotting/membrane.py")],
   ["saved files", "axes content"]),
 p("C15", "A product's entry is that quantity of the state at the entry's time",
   "Each recorded product holds exactly one entry per simulated step, keyed by that state's time, and the "
   "entry is the stated quantity of that state: penetration is the lowest position of a contact node (0 "
   "without contact nodes), a vertical intersection the displacement along its line from the bottom to the "
   "top of the body, limit points the places where displacement crosses the obstacle on that line - each "
   "reported point is one, each isolated crossing is reported once. A range holds the entries with start < "
   "time <= stop and leaves the product alone. This holds for returned, resumed and killed runs alike.",
   ["inputs", "histories", "fault_sequences"],
   "every problem kind recording products, every mesh, line and obstacle level, every history, cut and "
   "kill point",
   "Tests pin a few product values of one or two set-ups.",
   [PR, "conmech/state/products/penetration.py", "conmech/state/products/verticalintersection.py",
    "conmech/state/products/intersection_contact_limit_points.py", ST,
    "conmech/mesh/boundaries_factory.py"],
   [("Product.update of each product", "conmech/state/products"), ("State.update_products", ST),
    ("Product.range", PR)],
   ["State.products of every state", "products passed by the caller"]),
 p("C16", "The mesh a simulation runs on is the mesh described",
   "Building a mesh gives, up to renumbering, exactly the described nodes that elements use (moved to the "
   "given position) and the described elements; contact nodes come first, then Neumann, interior and "
   "Dirichlet ones, Dirichlet overriding contact; surfaces, counts, named boundaries and prescribed values "
   "match the description. This holds for every build from one description: again, with other boundaries, "
   "after failed or killed builds, in several threads at once, with short or interrupted file reads, "
   "after the file was replaced. The caller's arrays and meshes built before are not changed; a failing "
   "read or predicate surfaces.",
   ["inputs", "histories", "schedules", "fault_sequences"],
   "every mesh (2D and 3D, with unconnected nodes), boundary description whose contact and Dirichlet "
   "surfaces do not overlap, history, interleaving and read fault",
   "Tests build each mesh once from a fresh description and pin a handful of orderings.",
   ["conmech/mesh/mesh.py", "conmech/mesh/mesh_builders.py", "conmech/mesh/boundaries_factory.py",
    "conmech/mesh/boundaries.py", "conmech/properties/mesh_description.py"],
   [("Mesh.__init__", "conmech/mesh/mesh.py"),
    ("reorder_boundary_nodes", "conmech/mesh/boundaries_factory.py"),
    ("ImportedMeshDescription.build", "conmech/properties/mesh_description.py")],
   ["Mesh attributes", "caller's arrays"]),
]

NA = [
 (p("C90", "Operators of a body are symmetric and definite as the physics demands",
    "For every valid mesh and material the assembled mass, stiffness, viscosity and conductivity "
    "operators are symmetric and positive (semi)definite, with rigid motions in the kernel of the elastic "
    "ones.", ["inputs"], "every mesh and material", "Tests check pinned numbers on one mesh.",
    ["conmech/dynamics/factory/_dynamics_factory_2d.py",
     "conmech/dynamics/factory/_dynamics_factory_3d.py"],
    [("assembly", "conmech/dynamics/factory/dynamics_factory_method.py")], ["Body.dynamics"]),
  "a pure function of mesh and material: no schedule, time, I/O, fault or history for a simulator to "
  "vary; C11 exercises its consequences in 2D"),
 (p("C91", "Discrete solutions converge to the exact one under refinement",
    "For problems with a known smooth solution the error decreases at the expected rate as mesh and time "
    "step are refined.", ["inputs"], "every sequence of refinements",
    "Tests run single meshes.", [SM], [("discretisation", SM)], ["solve() results"]),
  "a statement about limits of a pure function; no nondeterminism to simulate"),
 (p("C92", "A contact law's derivative is the derivative of its potential",
    "For every law offered in both forms the direct form is the (sub)derivative of the potential form "
    "times its bound.", ["inputs"], "every argument of a law", "Tests sample none.",
    ["conmech/dynamics/contact/relu_slope_contact_law.py",
     "conmech/dynamics/contact/damped_normal_compliance.py"],
    [("law factories", "conmech/dynamics/contact/relu_slope_contact_law.py")], ["law methods"]),
  "pure scalar functions of their arguments; nothing to schedule or fail"),
 (p("C93", "Every mesh of the zoo is a valid triangulation of its domain",
    "Each offered mesh description yields elements with positive volume, without overlaps or hanging "
    "nodes, covering the described domain, with no element larger than asked for.", ["inputs"],
    "every mesh description and size", "Tests build each mesh once or twice.",
    ["conmech/mesh/zoo", "conmech/mesh/mesh.py"], [("mesh zoo", "conmech/mesh/zoo")],
    ["Mesh.nodes, Mesh.elements"]),
  "pure geometry of generated arrays (and of gmsh, a foreign library); no time, faults or schedules"),
]

NOTE = ("Seeded search over schedules, faults and inputs, not a proof: holds on every simulated run of the "
        "tier. Trusts numpy, scipy, numba and CPython, the fault shim's disk model, and tolerances of "
        "1e-7 relative where results are compared after floating point work.")
TECH = "deterministic simulation with fault injection: "
TECHS = {
 "C01": "seeded workloads, transparent disk faults, loads in fresh processes vs bit-exact snapshots",
 "C02": "seeded interleavings, disk faults and crash images of savers/loaders vs a register model",
 "C03": "seeded observations inside and beside the run vs an undisturbed reference process",
 "C04": "seeded cuts, kills and restarts vs an uninterrupted reference process",
 "C05": "seeded line-level thread interleavings vs runs alone",
 "C06": "seeded solver histories with injected faults vs a fresh solver",
 "C07": "seeded single and double faults; outcome and delivered prefix vs the fault-free run",
 "C08": "seeded caller mutations between and during runs vs snapshots at delivery",
 "C09": "seeded output selections and consumer schedules vs a dense reference run",
 "C10": "seeded solver histories with faults, step invariants checked live",
 "C11": "seeded solver histories with faults, step refinement against an executable reference model",
 "C12": "seeded disturbances of the process (clock, memory, randomness, GC, threads, settings) vs a calm one",
 "C13": "seeded update/solve/kill histories vs an executable model with per-element densities",
 "C14": "seeded drawing histories with disk faults and kills vs a calm process and the state itself",
 "C15": "seeded runs, kills and resumes; every entry recomputed from the live state by a geometric model",
 "C16": "seeded build histories, interleavings and read faults vs an executable model of the mesh",
}


def main():
    done = [q for q in PROPS
            if os.path.exists(os.path.join(HERE, "dst", "props", q["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in done + [q for q, _ in NA]:
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash /verif/setup.sh",
        "checks": [{
            "property": q["id"], "quick_cmd": f"bash /verif/run_check.sh {q['id']} quick",
            "thorough_cmd": f"bash /verif/run_check.sh {q['id']} thorough",
            "technique": TECH + TECHS[q["id"]], "level": "exploration", "level_note": NOTE,
        } for q in done],
        "not_applicable": [{"property": q["id"], "reason": r} for q, r in NA],
        "notes": "No hooks in /repo: every seam (threads, clocks, disk, callbacks, optimiser, terminal, "
                 "memory) is reached from outside. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
