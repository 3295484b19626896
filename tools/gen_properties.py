#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so the wording stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SYS = ["src/rigid_body_system.cpp"]
OPT = "src/optimized_nsv_rigid_body_system.cpp"
GEN = "src/generic_rigid_body_system.cpp"
CONS = ["src/link_constraint.cpp", "src/fixed_position_constraint.cpp", "src/fixed_rotation_constraint.cpp",
        "src/line_constraint.cpp", "src/rolling_constraint.cpp", "src/clutch_constraint.cpp",
        "src/simple_gear_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/rotation_friction_constraint.cpp"]
FORCES = ["src/spring.cpp", "src/gravity_force_generator.cpp", "src/static_force_generator.cpp", "src/constant_speed_motor.cpp"]
SLE = ["src/gaussian_elimination_sle_solver.cpp", "src/conjugate_gradient_sle_solver.cpp", "src/gauss_seidel_sle_solver.cpp"]
ODE = ["src/euler_ode_solver.cpp", "src/nsv_ode_solver.cpp", "src/rk4_ode_solver.cpp"]

p("C01", "Velocity-bias system: every completed step follows its impulse model",
  "After any history of edits, perturbations, failed steps and restarts, a completed step of the velocity-bias rigid-body system takes every body from velocity v and pose q to v' = v + dt*M^-1*(F + J^T*f) and q' = q + dt*v', with F the sum of all installed force generators' laws and J the constraint Jacobians, both taken at the start of the (sub)step. "
  "The constraint forces f are the ones that make J*v' = -(velocity bias) - (bias factor/dt)*(position error) on every constraint row not clamped at a configured limit, to within the configured linear solver's tolerance. "
  "Nothing else (earlier sizes, earlier time steps, removed objects) influences the result.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every history of add/remove/retune/kick/step/abort/rebuild operations over every constraint and force-generator kind, every supported linear solver, every dt and number of sub-steps, for well-conditioned constraint sets",
  "No test steps this system at all; the unit tests exercise matrix kernels, the ODE solvers on one free body and one Jacobian.",
  [OPT] + SYS + CONS + FORCES + SLE + ["src/nsv_ode_solver.cpp", "include/sparse_matrix.h", "src/matrix.cpp", "src/system_state.cpp"],
  [("constraint right-hand side and force derivation", OPT), ("force accumulation", "src/rigid_body_system.cpp"), ("semi-implicit update", "src/nsv_ode_solver.cpp")],
  ["body pose and velocity fields before/after a step"])

p("C02", "Generic system: every completed step follows its integrator and model",
  "After any history of edits, perturbations, failed steps and restarts, a completed step of the generic rigid-body system advances every body by the chosen integrator (explicit Euler, semi-implicit Euler, or classical fourth-order Runge-Kutta) applied to accelerations a = M^-1*(F + J^T*f). "
  "The constraint forces f solve J*a = -Jdot*v - ks*(position error) - kd*(velocity error) per constraint row, to within the configured linear solver's tolerance. "
  "Every stage's forces and constraints are evaluated at that stage's state, and nothing but the current bodies, constraints and generators influences the result.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every history of add/remove/retune/kick/step/abort/rebuild operations, every integrator x linear-solver pair, every dt and number of sub-steps, for well-conditioned constraint sets",
  "No test steps this system; the RK4 tests use constant accelerations, under which stage ordering mistakes are invisible.",
  [GEN] + SYS + CONS + FORCES + SLE + ODE + ["include/sparse_matrix.h", "src/matrix.cpp", "src/system_state.cpp"],
  [("acceleration-level constraint solve", GEN), ("stage machine", "src/rk4_ode_solver.cpp"), ("explicit update", "src/euler_ode_solver.cpp")],
  ["body pose and velocity fields before/after a step"])

p("C03", "Membership: exactly the installed objects take part, each exactly once",
  "After any history of adding and removing bodies, constraints and force generators in any order, the system's counts, enumeration and object indices agree with the set of objects currently installed. "
  "In each force evaluation every installed force generator is applied exactly once and every installed constraint is evaluated, and objects that are not installed are never called, read after deletion, or modified. "
  "A body that has been removed reports that it is outside the system (index -1), exactly like one that was never added.",
  ["histories"],
  "every sequence of add/remove/clear operations on the three collections, interleaved with steps",
  "No test adds or removes anything from a system; swap-with-last removal is order dependent.",
  SYS + ["include/rigid_body_system.h"],
  [("swap-with-last removal and index bookkeeping", "src/rigid_body_system.cpp")],
  ["counts, getRigidBody, index fields, calls received by user-defined generators and constraints"],
  [("index", "slot of a body in its system, -1 when it is in none", "include/rigid_body.h")])

p("C04", "All persistent motion state lives in the bodies: restart is invisible",
  "At any point of any history, discarding the system, its solvers and integrators and rebuilding them from only the bodies' public fields and the installed constraints and generators leads to the same subsequent motion and reported constraint forces as never having restarted. "
  "With a direct linear solver the two continuations are identical to the last bit; with an iterative one they agree within its configured tolerance.",
  ["histories", "crash_points", "configurations"],
  "every history and every crash/restart point between steps, every system kind and solver",
  "Tests never create two systems over the same bodies, nor reuse one after its size changed.",
  [OPT, GEN] + SYS + SLE + ODE + ["src/system_state.cpp", "src/matrix.cpp", "include/sparse_matrix.h"],
  [("state repopulated from the bodies at every step", "src/rigid_body_system.cpp"), ("results written back to the bodies", OPT + ", " + GEN)],
  ["body fields and per-constraint forces after every step"])

p("C05", "Results never depend on what freshly allocated memory contained",
  "Running the same history with different contents in newly allocated heap memory and in unused stack memory yields bit-identical bodies, reported constraint forces, counts, solver results and freshly constructed objects' fields.",
  ["histories", "configurations"],
  "every history, every pattern the allocator or the stack may leave behind, every system kind, solver and integrator",
  "A test run sees one memory image per process; uninitialised reads usually see zeros there.",
  SYS + [OPT, GEN] + CONS + SLE + ODE + ["src/system_state.cpp", "src/matrix.cpp", "include/sparse_matrix.h", "src/constraint.cpp", "src/rigid_body.cpp"],
  [("initialize()/resize() zeroing rules", "src/matrix.cpp, include/sparse_matrix.h"), ("state population", "src/rigid_body_system.cpp")],
  ["all public outputs"])

p("C06", "Separate systems stepped by concurrent threads never influence each other",
  "When several threads each build, edit and step their own systems (with their own bodies, constraints, generators, solvers and integrators), every thread observes bit-for-bit the results it would have observed running alone, whatever the interleaving of their execution.",
  ["schedules", "histories"],
  "every interleaving, at the granularity of the library's basic blocks, of two to four threads running arbitrary histories on disjoint systems",
  "The tests are single threaded.",
  SYS + [OPT, GEN] + SLE + ODE + ["src/matrix.cpp", "include/sparse_matrix.h", "src/system_state.cpp", "src/utilities.cpp"],
  [("no mutable static state; all scratch storage is per object", "include/*.h")],
  ["body fields and constraint forces per thread"])

p("C07", "A step that fails part-way changes nothing and can be retried",
  "If an allocation fails, or a user-supplied force generator, constraint, linear solver or integrator throws, at any point of a step, the failure reaches the caller and every body, every reported constraint force, the elapsed time and the membership of the system are exactly as before the step. "
  "Once the fault has stopped, retrying the step gives the result it would have given had the fault not happened, and the system can still be edited and destroyed normally.",
  ["fault_sequences", "crash_points", "histories"],
  "every single or repeated fault at every allocation or callback inside a step, at any point of any history",
  "No test injects a failure.",
  [OPT, GEN] + SYS + ["src/matrix.cpp", "include/sparse_matrix.h", "src/system_state.cpp", "src/rk4_ode_solver.cpp"],
  [("bodies are written only after the last sub-step", OPT + ", " + GEN), ("storage growth", "src/matrix.cpp, include/sparse_matrix.h, src/system_state.cpp")],
  ["body fields, constraint forces, elapsed time, counts after a failed and after a retried step"])

p("C08", "Memory safety and no leaks under any history and allocation failure",
  "No history of public calls on well-formed worlds (any sizes, growth and shrinkage, removal of everything, solver and integrator reuse across systems, allocations that fail during edits, steps, solves and matrix or state resizes, early destruction, in any order of system, members and tools) makes the library touch memory outside its live allocations, trip an internal assertion, or keep memory after the objects have been destroyed.",
  ["histories", "fault_sequences"],
  "every history of public calls and allocation failures on systems, solvers, integrators, states and matrices",
  "Tests use fixed small sizes, never destroy a stepped system, and run without a sanitizer or fault injection.",
  SYS + [OPT, GEN] + SLE + ODE + ["src/system_state.cpp", "src/matrix.cpp", "include/sparse_matrix.h"],
  [("destroy()/resize() pairs", "src/matrix.cpp, include/sparse_matrix.h, src/system_state.cpp"), ("destructors", OPT + ", " + GEN)],
  ["every access (address checking), live allocations after teardown"])

p("C09", "Reported constraint forces are exactly the forces that were applied",
  "After every completed step, the force and torque each constraint reports per row and body, summed per body together with the external forces, equals mass (or inertia) times that body's velocity change over the last sub-step divided by its duration; for multi-stage integrators both sides are the integrator's weighted average. "
  "Each constraint's report is attributed to the right constraint, row and body, and lies along that row's Jacobian.",
  ["histories", "inputs", "configurations"],
  "every history on either system kind with every solver and integrator, any mix of one-, two- and three-row constraints on one or two bodies",
  "No test reads a reported force.",
  [OPT, GEN, "src/rk4_ode_solver.cpp", "src/system_state.cpp", "include/constraint.h"],
  [("reaction arrays two entries per row", OPT + ", " + GEN), ("stage averaging of reactions", "src/rk4_ode_solver.cpp")],
  ["constraint F_x/F_y/F_t, body velocities, applied external forces"])

p("C10", "Closed systems conserve momentum",
  "With no external force, interactions internal to the system (springs, motors, links, clutches, welds between bodies of the system) leave total linear momentum unchanged over any history of steps, and, in the velocity-bias system and under semi-implicit Euler in the generic one, leave total angular momentum unchanged when the interactions are undamped springs, motors between two bodies, and clutches. "
  "Adding a uniform gravity changes total linear momentum by exactly total mass times g times the simulated time.",
  ["histories", "inputs", "configurations"],
  "every history of edits between steps, every mix of internal interactions, both systems, every solver and integrator",
  "No test looks at a multi-body trajectory.",
  FORCES + ["src/link_constraint.cpp", "src/clutch_constraint.cpp", "src/system_state.cpp", OPT, GEN] + ODE,
  [("equal and opposite application of pair forces", "src/spring.cpp, src/constant_speed_motor.cpp"), ("J^T with opposite blocks", "src/link_constraint.cpp, src/clutch_constraint.cpp")],
  ["body masses, positions and velocities"])

p("C11", "Limited constraints never exceed their limits and are exact inside them",
  "With a limit-aware linear solver, in every step of every history each limited constraint's transmitted and reported force or torque stays within its currently configured minimum and maximum, including a gear in neutral, which transmits nothing. "
  "A row whose force is strictly inside its limits meets its target velocity, and a row held at a limit deviates only in the direction that limit allows, to within the solver's tolerance.",
  ["histories", "inputs", "configurations"],
  "every mix of clutches, friction brakes, rotation drives, links with a maximum force, gears shifted into and out of neutral and user-defined limited rows, limits retuned and dt varied between steps",
  "The limited solver has no test at all.",
  ["src/gauss_seidel_sle_solver.cpp", OPT, "src/clutch_constraint.cpp", "src/rotation_friction_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/link_constraint.cpp", "src/simple_gear_constraint.cpp", "include/constraint.h"],
  [("projection of each row onto its limits", "src/gauss_seidel_sle_solver.cpp"), ("impulse limits = force limits x dt", OPT)],
  ["constraint F_x/F_y/F_t, velocity change of the bodies"])

p("C12", "Joints recover: constraint error vanishes once perturbations stop",
  "Once kicks, teleports, edits and failed steps stop, the position error of every link (without a force limit), fixed position, fixed rotation, line and rolling joint of a consistent mechanism falls below a small bound set by the discretisation within a number of steps fixed by the bias factor (velocity-bias system) or by the spring and damping constants (generic system, where a rolling joint's turn is held in speed only), and stays below it. "
  "While joints are satisfied, linked anchor points coincide, lines are followed, and a rolling body turns by exactly the travelled arc divided by its radius relative to its base.",
  ["histories", "fault_sequences", "configurations"],
  "every perturbation history followed by a quiet period, every mechanism built from these joints, every solver",
  "No test runs a constrained mechanism; the rolling test compares derivatives at radius 1 only.",
  [OPT, GEN] + CONS[:5] + SLE,
  [("bias feedback of the position error", OPT), ("ks/kd feedback", GEN), ("constraint functions", "src/link_constraint.cpp, src/rolling_constraint.cpp, src/line_constraint.cpp")],
  ["body poses over time"])

p("C13", "Rotational couplings are passive, hold their speed relation and lock in time",
  "In the velocity-bias system, passive rotational couplings (gears, clutches, friction brakes, with or without torque limits) never increase the system's kinetic energy in any step; an engaged gear keeps omega1 = ratio*omega2, an unlimited clutch keeps equal speeds, an unlimited brake stops its body, and an unlimited rotation drive holds its body at minus the configured speed after every step. "
  "A torque-limited clutch, brake or drive acting alone reaches its target within the number of steps its torque budget allows, and then keeps it.",
  ["histories", "inputs", "configurations"],
  "every drivetrain of these couplings, every limit, ratio, inertia and dt, with kicks and retuning between steps",
  "No test touches these constraints.",
  ["src/clutch_constraint.cpp", "src/simple_gear_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/rotation_friction_constraint.cpp", OPT, "src/gauss_seidel_sle_solver.cpp"],
  [("constraint rows and bias", "src/clutch_constraint.cpp, src/simple_gear_constraint.cpp, src/constant_rotation_constraint.cpp, src/rotation_friction_constraint.cpp"), ("limit projection", "src/gauss_seidel_sle_solver.cpp")],
  ["angular velocities, kinetic energy"])

p("C14", "Profiling reports the true time split and never affects the motion",
  "The four reported timings each equal the mean, over the most recent frames up to the documented window of 600, of the time that frame spent evaluating force generators, evaluating constraints, solving the linear system, and advancing the integrator, and are zero before the first frame. "
  "Clock stalls, jumps and resolution never change the simulated motion.",
  ["schedules", "histories", "fault_sequences"],
  "every sequence of frames, sub-steps and component delays under a simulated monotonic clock with stalls and jumps at any point",
  "Tests use the real clock, on which no exact expectation is possible, and never read the timings.",
  SYS + [OPT, GEN],
  [("ring of per-frame samples", "src/rigid_body_system.cpp"), ("timestamps around each phase", OPT + ", " + GEN)],
  ["getOdeSolveMicroseconds, getConstraintSolveMicroseconds, getForceEvalMicroseconds, getConstraintEvalMicroseconds"])

p("C15", "How a duration is sliced into frames does not change the simulation",
  "Processing a duration as one call with k sub-steps, as k calls with one sub-step, or as any partition in between gives bit-identical bodies and last reported constraint forces for force laws that depend on pose and velocity, and the elapsed time equals the sum of the durations of the completed calls. "
  "Every force generator and constraint sees the same sequence of states, with the sub-step duration announced to it equal to the duration divided by the sub-step count (scaled by stage for multi-stage integrators).",
  ["schedules", "histories"],
  "every partition of every step schedule, both systems, every integrator and solver (warm starts included)",
  "No test calls a system's step function.",
  [OPT, GEN] + SYS + ODE,
  [("sub-step loop", OPT + ", " + GEN), ("state write-back and repopulation", "src/rigid_body_system.cpp")],
  ["body fields, constraint forces, timeElapsed, states seen by user-defined generators"])

p("C16", "A linear solver that reports success returned a solution; reuse never matters",
  "For any sequence of problems of any sizes solved by one solver instance, with any previous solution offered as a starting point, a solve that reports success has stored a finite vector of the problem's size that satisfies J*W*J^T*x = b to the solver's documented tolerance and, for the limited form, lies within the limits and satisfies complementarity. "
  "A well-conditioned, consistent problem is solved successfully by every solver, and what the solver worked on before never changes that.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of problems (sizes growing, shrinking and zero, singular ones included), starting vectors, tolerances and failed allocations on one solver instance",
  "Each existing solver test solves one 2x2 or 4x4 system on a fresh instance, and the Gauss-Seidel tests are commented out.",
  SLE + ["src/sle_solver.cpp", "src/matrix.cpp", "include/sparse_matrix.h"],
  [("elimination and back substitution", SLE[0]), ("residual test", SLE[1]), ("sweep convergence test and projection", SLE[2])],
  ["return value and result vector of solve/solveWithLimits"])

p("C17", "Matrix containers behave as values whatever their storage history",
  "For any sequence of initialize, resize, set, row swap, destroy, failed allocation and arithmetic operations on dense and block-sparse matrices, the result of every operation depends only on the operands' current logical contents and equals the same operation on freshly built matrices with those contents. "
  "Size queries, element reads and expansions always agree with a simple array model, for every size the types accept.",
  ["histories", "fault_sequences"],
  "every operation history over matrices of any shape, including shrink-then-grow, destroy-then-reuse, row-swapped operands and allocation failure at any point",
  "Tests build each matrix once at its final size; storage reuse and capacity handling are untested.",
  ["src/matrix.cpp", "include/matrix.h", "include/sparse_matrix.h"],
  [("capacity reuse in resize", "src/matrix.cpp, include/sparse_matrix.h"), ("row pointer table", "include/matrix.h")],
  ["getters, expand, arithmetic results"],
  [("capacity", "largest shape the current storage can hold", "include/matrix.h, include/sparse_matrix.h")])

p("C18", "Integrators and states survive reuse, size changes and abandoned steps",
  "An integrator driven through its start/step/solve/end protocol gives the explicit Euler, semi-implicit Euler or classical fourth-order Runge-Kutta result for the derivative its caller supplies, independently of any earlier use: other sizes, other time steps, or a step abandoned at any stage. "
  "A state resized to or copied from another holds exactly that state's body and constraint values, whatever sizes it had before.",
  ["histories", "crash_points", "fault_sequences"],
  "every sequence of protocol runs on one integrator over states of varying body and constraint counts, abandoned at any stage, with failing allocations",
  "Tests run one integrator on one free body with constant acceleration from start to end.",
  ODE + ["src/ode_solver.cpp", "src/system_state.cpp"],
  [("stage machine reset in start", "src/rk4_ode_solver.cpp"), ("resize/copy rules", "src/system_state.cpp")],
  ["state arrays after the protocol completes"])

p("C19", "Bodies outside the system act as immovable anchors and are never touched",
  "A spring, motor base, clutch, gear, link or rolling joint may attach to a body that is not in the system; stepping then treats that body as immovable at its own pose with zero velocity, applies the full interaction to the other body, and never modifies the outside body or any unrelated body. "
  "This holds whether the body was never added, was removed earlier, or is added later.",
  ["histories", "inputs"],
  "every world mixing installed and outside bodies, bodies moving in and out of the system between steps, both systems, every solver",
  "No test uses an outside body.",
  [OPT, GEN, "src/spring.cpp", "src/constant_speed_motor.cpp", "src/link_constraint.cpp", "src/rolling_constraint.cpp", "src/clutch_constraint.cpp", "src/simple_gear_constraint.cpp", "src/rigid_body_system.cpp"],
  [("index -1 handling", OPT + ", " + GEN + ", src/spring.cpp, src/constant_speed_motor.cpp")],
  ["outside bodies' fields, motion of attached bodies"])

p("C20", "Coordinate transforms and applied forces follow the current pose at any time",
  "At every point of every history (between edits, inside the callbacks of a running step, after completed, failed and abandoned steps, for bodies inside and outside a system) transforming a point from body to world coordinates gives its place under the body's current pose, and transforming it to the world and back, or back and forth, returns the point. "
  "Inside a step the running state's transform does the same with the state's own poses, the velocity it reports for a body point is the time derivative of that point's world position, and a force applied at a body point adds exactly that force and its moment about the body's centre.",
  ["histories", "inputs", "fault_sequences"], "every pose, point, velocity and force met along every history of edits, teleports, kicks, mass changes, steps and failures",
  "No test transforms a point or applies a force.",
  ["src/rigid_body.cpp", "src/system_state.cpp"],
  [("rotation by theta then translation", "src/rigid_body.cpp, src/system_state.cpp"), ("moment of an applied force", "src/system_state.cpp")],
  ["RigidBody::localToWorld, RigidBody::worldToLocal, SystemState::localToWorld, SystemState::velocityAtPoint, SystemState::applyForce"])

p("C21", "Constraints report true derivatives of their position error at every evaluation",
  "Whenever a step asks a built-in constraint for its rows, at any stage of any step of any history, the reported Jacobian is the derivative of the reported position error with respect to the coordinates of the bodies inside the system, and the reported Jacobian rate is the time derivative of that Jacobian along the current velocities. "
  "For the purely rotational couplings (clutch, gear, rotation drive, friction), which have no position error, the Jacobian is the constant one of the speed relation they impose and its rate is zero.",
  ["histories", "inputs", "configurations", "fault_sequences"], "every configuration, velocity, parameter and anchor of every built-in constraint kind met along every history of edits, perturbations, restarts and failed steps",
  "Only the rolling constraint at radius 1 is sampled, at one state.",
  CONS, [("closed-form derivatives", "src/*_constraint.cpp")], ["what a constraint's evaluation hands to the system"])

p("C22", "Energies and spring ends reported at any time are those of the current state",
  "At every point of every history (between edits, inside callbacks, after completed and failed steps) a body's reported energy is half its mass times its speed squared plus half its inertia times its angular speed squared. "
  "A spring's reported ends are its attachment points under its bodies' current poses, and its reported energy is half its stiffness times the squared difference between their distance and the rest length, or zero when an end is attached to nothing.",
  ["histories", "inputs", "fault_sequences"], "every body and spring state met along every history of edits, retuning, perturbations, steps and failures", "No test reads an energy.",
  ["src/rigid_body.cpp", "src/spring.cpp"], [("closed formulas", "src/rigid_body.cpp, src/spring.cpp")], ["RigidBody::energy, Spring::energy, Spring::getEnds"])

p("C23", "User code inside a step is shown one coherent account of the system",
  "Inside every step of every history, force generators and constraints of one evaluation are shown the same poses, velocities and masses under the bodies' indices, in the first evaluation those of the bodies themselves, and the first row of each constraint; a generator finds exactly the forces those before it added in this evaluation, starting from zero. "
  "The linear solver is handed the rows the constraints reported, in index order, with the inverse masses, the right sides they and the summed forces imply and, for a limit-aware solver in the velocity-bias system, the limits times the sub-step's duration. "
  "In the generic system every sub-step drives the integrator through start, then step, a complete evaluation and solve per stage, then end, and at each solve the accelerations are those of the summed forces and reactions. After a completed step the state the system publishes has the bodies' poses and velocities and the constraints' reported forces.",
  ["histories", "inputs", "configurations", "fault_sequences"], "every evaluation of every step over seeded histories of edits, removals, solver and integrator changes, restarts and failed steps",
  "Tests contain no user-supplied generator, constraint, solver or integrator.",
  [OPT, GEN, "src/rigid_body_system.cpp", "src/system_state.cpp"],
  [("state population and index map", "src/rigid_body_system.cpp"), ("assembly of the linear problem", OPT + ", " + GEN), ("stage loop", GEN)],
  ["RigidBodySystem::state, arguments of ForceGenerator::apply, Constraint::calculate, SleSolver::solve/solveWithLimits and the OdeSolver protocol"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties; longest title", max(len(q["title"]) for q in P))
