"""What each check runs: simulator file, number of simulated runs per tier, and how to read its coverage."""
COMPONENTS = {
    'real code': 'every source file of /repo/src and header of /repo/include, compiled from the working tree (AddressSanitizer, assertions on)',
    'stubs': 'operator new/delete (contents, failure, ledger), steady_clock::now and clock_gettime, the caller: threads, callbacks and user-defined constraints/generators, all inside one process',
}
WORLD = ('seeded world (bodies, constraints of every built-in and user-defined kind, force generators) driven through a seeded history of edits, '
         'kicks, teleports, restarts, solver changes and failing steps; ')
NOTE = 'Seeded search, not proof. Trusts the reference model and simulator in /verif/sim, g++ and AddressSanitizer.'
CHECKS = {
    'C01': dict(tu='c01', quick=24000, thorough=1600000, technique='step-by-step refinement against an independent reference model over seeded histories with failed steps and restarts',
                level_note=NOTE, rule=WORLD + 'every completed step is compared with the reference step. Non-trivial: at least one step with an installed constraint was compared. Distinct: by structural trace.'),
    'C02': dict(tu='c01', quick=20000, thorough=1000000, technique='stage-by-stage refinement against an independent reference model over seeded histories with failed steps and restarts',
                level_note=NOTE, rule=WORLD + 'every completed step is compared with the reference step, stage by stage. Non-trivial: at least one step with an installed constraint was compared. Distinct: by structural trace.'),
    'C03': dict(tu='c03', quick=12000, thorough=800000, technique='membership oracle over seeded edit/step/fault histories',
                level_note=NOTE, rule=WORLD + 'counts, enumeration, indices and callback counts are compared with the set of installed objects after every operation. Non-trivial: a completed step with objects installed was checked. Distinct: by structural trace.'),
    'C04': dict(tu='c04', quick=16000, thorough=1000000, technique='crash/restart twin: the same history with and without restarts',
                level_note=NOTE, rule=WORLD + 'system, solver and integrator are discarded and rebuilt at seeded points; a twin never restarts; both are compared after every step. Non-trivial: at least one step after a restart was compared. Distinct: by structural trace.'),
    'C07': dict(tu='c04', quick=16000, thorough=1000000, technique='fault twin: the same history with failed steps and without them',
                level_note=NOTE, rule=WORLD + 'allocations and callbacks fail at seeded points of seeded steps; the failed step must change nothing and a twin without faults must agree afterwards. Non-trivial: at least one step after a failed one was compared. Distinct: by structural trace.'),
    'C15': dict(tu='c15', quick=16000, thorough=1000000, technique='slicing twin: the same duration as one call and as a seeded partition',
                level_note=NOTE, rule=WORLD + 'each duration runs as one call in one world and in seeded slices in another. Non-trivial: a duration of at least two sub-steps was compared. Distinct: by structural trace.'),
    'C16': dict(tu='c16', quick=12000, thorough=1000000, technique='residual, limit and complementarity oracle over seeded problem sequences on one solver instance, with failing allocations',
                level_note=NOTE, rule='one solver instance solves a seeded sequence of problems (growing, shrinking, empty, singular, limited) with seeded starting vectors, tolerances and failing allocations; every answer is checked against the problem. Non-trivial: a solve reporting success was checked. Distinct: by structural trace.'),
    'C17': dict(tu='c17', quick=24000, thorough=2000000, technique='array-model refinement over seeded storage histories with failing allocations',
                level_note=NOTE, rule='a pool of dense and block-sparse matrices goes through a seeded history of initialize, resize, set, swap, destroy, arithmetic and failing allocations next to plain array models. Non-trivial: an operation result was compared. Distinct: by structural trace.'),
    'C18': dict(tu='c18', quick=40000, thorough=4000000, technique='textbook-integrator refinement over seeded protocol histories with abandoned steps and failing allocations',
                level_note=NOTE, rule='integrator instances run their start/step/solve/end protocol over states of seeded sizes, abandoned at seeded stages, next to a reference integrator; states are resized and copied next to array models. Non-trivial: a completed protocol run was compared. Distinct: by structural trace.'),
    'C05': dict(tu='c05', quick=20000, thorough=1600000, technique='memory-contents twin: the same history with different contents of fresh heap and stack memory',
                level_note=NOTE, rule=WORLD + 'the same history runs twice with different contents of every fresh heap block and of the stack below every call; all public outputs are compared bitwise, including the fields of newly constructed objects. Non-trivial: a history with observations was compared. Distinct: by structural trace.'),
    'C06': dict(tu='c06', fine=True, quick=12000, chunk=12, thorough=1600000, technique='seeded preemptive scheduling of caller threads between single memory accesses against solo runs',
                level_note=NOTE, rule='two to four real threads, each with its own seeded history, hand a baton over at seeded memory accesses and basic blocks of library code; each must observe exactly what it observes alone. A fresh process every 12 runs, so first-use code is interleaved too. Non-trivial: at least 10 preemptions inside library code. Distinct: by the sequence of (basic-block count, thread) switches and structural trace.'),
    'C08': dict(tu='c08', quick=24000, thorough=1600000, technique='memory ledger and AddressSanitizer over seeded histories with failing allocations and early destruction',
                level_note=NOTE, rule=WORLD + 'runs under AddressSanitizer with assertions on; allocations of edits, steps and solver changes fail at seeded points, objects are destroyed in seeded orders and the ledger of live blocks must return to where it was. Non-trivial: a history with at least one completed step was torn down. Distinct: by structural trace.'),
    'C09': dict(tu='c09', quick=32000, thorough=2000000, technique='conservation check of reported reactions against observed motion over seeded histories',
                level_note=NOTE, rule=WORLD + 'after every completed step the reported reactions plus the external forces are summed per body and compared with the observed velocity change, and each row with its Jacobian. Non-trivial: at least one step with a constraint was checked. Distinct: by structural trace.'),
    'C10': dict(tu='c10', quick=32000, thorough=2000000, technique='conservation of linear and angular momentum over seeded histories of closed systems',
                level_note=NOTE, rule='seeded closed worlds (springs, motors, links, clutches, welds; optionally gravity) driven through seeded edits, failed steps and restarts; total momentum is checked after every step. Non-trivial: a step with an interaction was checked. Distinct: by structural trace.'),
    'C11': dict(tu='c11', quick=32000, thorough=2000000, technique='limit and complementarity oracle over seeded histories of limited constraints',
                level_note=NOTE, rule='seeded worlds of clutches, brakes, drives, limited links, gears in and out of neutral and user-defined limited rows, retuned between steps; after every step each row is checked against its limits and its target velocity. Non-trivial: a limited row was checked. Distinct: by structural trace.'),
    'C13': dict(tu='c13', quick=40000, thorough=2400000, technique='energy, speed-relation and lock-in-time oracle over seeded drivetrain histories',
                level_note=NOTE, rule='seeded drivetrains with kicks and retuning between steps; kinetic energy, speed relations and torque budgets are checked after every step. Non-trivial: a step with a coupling was checked. Distinct: by structural trace.'),
    'C14': dict(tu='c14', quick=8000, thorough=600000, technique='simulated clock with scripted component delays, stalls and jumps, against a reference profiler and a free-running twin',
                level_note=NOTE, rule=WORLD + 'every force generator, constraint and linear solve advances a simulated clock by a seeded amount; the four timings are compared with a reference window after every frame, and a twin with another clock must move identically. Non-trivial: a frame with non-zero component time was checked. Distinct: by structural trace.'),
    'C12': dict(tu='c12', quick=24000, min_nontrivial=0.3, thorough=1600000, technique='bounded-time recovery oracle over seeded perturbation histories followed by a quiet period',
                level_note=NOTE, rule=WORLD + 'perturbations (kicks, teleports, edits, failed steps, restarts) stop and the position error of every joint row must then stay under a bound that contracts by the configured feedback and grows only by the discretisation error of correct steps. Non-trivial: a row recovered at least tenfold. Distinct: by structural trace.'),
    'C19': dict(tu='c19', quick=24000, thorough=1600000, technique='refinement against an immovable-anchor model while bodies move in and out of the system',
                level_note=NOTE, rule=WORLD + 'bodies join and leave between steps and many interactions attach to bodies outside; fields of outside bodies must not change and every step with such an interaction must agree with the reference model. Non-trivial: such a step was checked. Distinct: by structural trace.'),
    'C20': dict(tu='c20', quick=16000, thorough=1000000, technique='transform invariants asked at seeded points of seeded histories, also inside the callbacks of running and failing steps',
                level_note=NOTE, rule=WORLD + 'between operations and inside callbacks the transforms of bodies and of the running state, point velocities and applied forces are compared with the current pose. Non-trivial: a completed step with questions asked around it. Distinct: by structural trace.'),
    'C21': dict(tu='c20', quick=24000, thorough=1600000, technique='differentiation of the real constraints at the states their evaluations meet along seeded histories with failed steps and restarts',
                level_note=NOTE, rule=WORLD + 'at seeded evaluations of built-in constraints the constraint is asked again at neighbouring states and the reported Jacobian and rate are compared with the differences of what it reports there. Non-trivial: an evaluation was differentiated. Distinct: by structural trace.'),
    'C22': dict(tu='c20', quick=24000, thorough=1600000, technique='energy and spring-end invariants asked at seeded points of seeded histories, also inside the callbacks of running and failing steps',
                level_note=NOTE, rule=WORLD + 'between operations and inside callbacks the energies of bodies and springs and the ends of springs are compared with the current state. Non-trivial: a completed step with questions asked around it. Distinct: by structural trace.'),
    'C23': dict(tu='c23', quick=20000, thorough=1200000, technique='invariants over the arguments of every callback, solve and integrator call of seeded histories with failed steps and restarts',
                level_note=NOTE, rule=WORLD + 'at every call of a generator, constraint, linear solver or integrator its arguments are compared with the bodies, with what the other calls of the evaluation were shown and with what they reported. Non-trivial: a completed step with installed objects. Distinct: by structural trace.'),
}
