INP = ['inputs']; PRG = ['programs']; CFG = ['configurations', 'inputs']; HIS = ['histories', 'inputs']
VG_ = 'value-graph dataflow (global value numbering over gated SSA of the instantiated templates), compared with a specification term'

p('P01', 'Newtonian gravity: every pair once, exact inverse-square acceleration',
  'Evaluating gravity adds to each particle the sum over all other particles of m_j (r_j - r_i)/|r_j - r_i|^3, for any number of particles from one upwards and on top of whatever the output array held. The chain-coordinate evaluation gives the same result for every ordering of the chain, counts every pair exactly once and touches no element outside its arrays.',
  CFG, 'all positions, masses and prior array contents; particle numbers; every chain ordering',
  'No test evaluates a force; the regression programs have no assertions, and a lost or doubled pair only shows for particular particle numbers or chain orders.',
  ['src/interaction/newtonian.hpp'], [('pair loops and pair kernel', 'src/interaction/newtonian.hpp NewtonianGrav::add_acc_to')],
  VG_, 'Exact (up to random-interpretation error) for the particle numbers and chain orders analysed, all real inputs; trusts clang, the engine transfer functions.')

p('P02', 'Post-Newtonian accelerations equal the published 1PN, 2PN and 2.5PN equations',
  'For every pair of bodies the first, second and two-and-a-half order post-Newtonian corrections equal the harmonic-coordinate two-body equations of motion of Blanchet (Living Reviews), for both bodies of the pair, so that relabelling the two bodies only swaps their accelerations. This holds for any particle number and in the chain-coordinate evaluation for every chain ordering, and the correction is added to the prior contents of the output.',
  CFG, 'all positions, velocities, masses, prior contents; particle numbers; chain orderings',
  'No test evaluates a post-Newtonian term; a wrong coefficient is a tiny relativistic correction invisible in any orbit test.',
  ['src/interaction/post-newtonian.hpp'], [('pair kernels', 'src/interaction/post-newtonian.hpp PN1/PN2/PN2p5::add_acc_to')],
  VG_, 'Coefficient-exact for the particle numbers analysed; the specification is transcribed from Blanchet eq. 203 independently of the code.')

p('P03', 'Mutual tidal forces follow the equilibrium-tide law and conserve momentum',
  'For every pair, the tide raised on each body gives the constant-time-lag equilibrium-tide acceleration of its apsidal constant, lag time, radius and mass, a body with zero apsidal constant raises none, and the force on one body is opposite to that on the other. It holds for every particle number and chain ordering, and the mass-weighted sum of what is added is exactly zero.',
  CFG, 'all positions, velocities, masses, radii, tidal parameters; particle numbers; chain orderings',
  'No test evaluates the tidal force.', ['src/interaction/tidal.hpp', 'src/particles/tide-particles.hpp'],
  [('pair kernel', 'src/interaction/tidal.hpp Tidal::add_acc_to')], VG_, 'As P01.')

p('P04', 'Composed interactions overwrite the output and apply each force exactly once',
  'Whatever forces are combined, the total acceleration overwrites the output with the sum of every force applied exactly once; the velocity-dependent and velocity-independent external parts are each the sum of exactly the matching forces, and the internal part only the internal force. The declared presence of velocity-dependent or independent external forces matches the list of forces, and storage is provided for each part that is declared.',
  ['programs', 'inputs'], 'every combination and order of internal, velocity-dependent and velocity-independent forces',
  'No test composes interactions; a force dropped for one composition order is only seen with that type list.',
  ['src/interaction/interaction.hpp'], [('fold over forces', 'src/interaction/interaction.hpp Interactions::eval_*')],
  VG_, 'All type lists of up to three external forces over opaque force stubs with additive effects; particle number 2.')

p('P05', 'Symplectic steps are time-symmetric, consistent compositions of declared order',
  'Each symplectic step of declared order p is a palindromic sequence of drifts and kicks linear in the step size whose drift and kick fractions each sum to one and which satisfies the algebraic order conditions up to order p. The leapfrog variants are the drift-kick-drift and kick-drift-kick compositions.',
  INP, 'every step size and every particle system',
  'Tests never measure the order of a scheme; a wrong digit in a coefficient silently lowers the order.',
  ['src/integrator/symplectic/symplectic-integrator.hpp'], [('coefficient sequences', 'src/integrator/symplectic/symplectic-integrator.hpp')],
  'effect extraction from the value graph (ordered drift/kick effects and their coefficients) plus exact evaluation of the order conditions in the free Lie algebra',
  'The extracted coefficients are compared with the order conditions to 1e-12; nothing about rounding.')

p('P06', 'Gauss-Radau step is the exact 15th-order collocation on the Radau nodes',
  'The quadrature nodes, the conversions between divided-difference and power coefficients, the sub-step predictor, the corrector and the final update of the Gauss-Radau integrator are mutually consistent: the interpolant through the sampled derivatives is exact for any derivative that is a polynomial of degree seven in the step. Predicting the coefficients for a new step size reproduces the same polynomial shifted and rescaled.',
  INP, 'all state vectors, derivatives, step sizes and step ratios',
  'No test inspects the tables; a wrong entry only degrades accuracy.',
  ['src/integrator/Gauss-Radau.hpp'], [('tables and transforms', 'src/integrator/Gauss-Radau.hpp')], VG_,
  'Table and transform entries are read from the analysed code and compared with values derived from the Radau nodes to 1e-11.')

p('P07', 'IAS15 accepts only converged, sufficiently accurate steps and restarts cleanly',
  'The implicit iteration advances the state only with coefficients that converged for the very step it commits, rejects a step whose error estimate asks for a strong reduction and retries from the unchanged state with the reduced step, and returns the committed step times the limited ratio. When the iteration budget is exhausted the run is aborted and never returns an uncommitted state.',
  HIS, 'every sequence of convergence outcomes and error estimates', 'The tests only run smooth problems that converge at once.',
  ['src/ode-iterator/IAS15.hpp'], [('iteration protocol', 'src/ode-iterator/IAS15.hpp IAS15::iterate')],
  'typestate analysis over the interprocedural control-flow graph with disjunctive constant propagation', 'All control histories of the iteration over a stub integrator; error values abstracted.')

p('P08', 'Bulirsch-Stoer extrapolates exactly and its order stays inside its tables',
  'The extrapolated result is the polynomial extrapolation of the sub-step results to zero step size in even powers, the work and step-number tables match the sequence, and a committed state is the starting state plus the extrapolated increments accepted by the error test. On every history of accepted and rejected steps, the working order stays inside its tables, rejected attempts restart from the unchanged starting state with a different step, and the loop cannot repeat the same failing attempt forever.',
  HIS, 'every sequence of error estimates, accepted and rejected steps', 'Tests run smooth problems in which the first attempt is nearly always accepted.',
  ['src/ode-iterator/Bulirsch-Stoer.hpp'], [('extrapolation, order control', 'src/ode-iterator/Bulirsch-Stoer.hpp')],
  'value graph for the algebra; typestate analysis with disjunctive constant propagation for order control', 'All control histories with abstracted errors; algebra exact for the table depth used.')

p('P09', 'Step-doubling and fixed-step iterators commit the most refined tested result',
  'An adaptive step with sequential refinement always commits the result of the most refined sub-stepping it computed, starting every refinement from the same initial state with the macro step split evenly, and stops at the first refinement whose scaled error estimate is within tolerance. The fixed-step iterator applies its integrator once with the given step and returns that step.',
  HIS, 'every sequence of error estimates', 'Tests never reach the branch in which no refinement converges.',
  ['src/ode-iterator/sequent-iterator.hpp', 'src/ode-iterator/const-iterator.hpp'], [('refinement loop', 'src/ode-iterator/sequent-iterator.hpp SequentOdeIterator::iterate')],
  VG_ + ' over an uninterpreted integrator', 'All outcomes of the ten error tests as gamma nodes; integrator, system and error norm uninterpreted.')

p('P10', 'Error norms account for every component with the declared tolerances',
  'The worst-offender, root-mean-square and max-ratio error norms use every component of the compared arrays, scale with absolute plus relative tolerance as declared, vanish exactly when the compared results agree, and never ignore a component because of its position. Setting a tolerance changes exactly that tolerance, and scalar and vector forms agree in meaning.',
  INP, 'all arrays and tolerances', 'No test calls an error norm with a controlled pair of arrays.',
  ['src/ode-iterator/error-checker/'], [('error norms', 'src/ode-iterator/error-checker/*.hpp')], VG_, 'Exact for array lengths 1 to 4.')

p('P11', 'Step-size controller follows its power law inside its limits',
  'The proposed step ratio is the safety factor times the guarded error to the power minus one over the order, a zero error gives the largest allowed ratio, and the limited ratio always lies between the minimum and maximum belonging to that order. Changing limits or safety factors takes effect on every later proposal, and the two-error form weighs the previous error with the integral gain.',
  INP, 'all errors, orders, limits and gains', 'No test exercises the controller.',
  ['src/ode-iterator/step-controller/PID-controller.hpp'], [('controller', 'src/ode-iterator/step-controller/PID-controller.hpp')], VG_, 'Orders 0 to 65 (the deepest predefined extrapolation); all real errors.')

p('P12', 'Flat state array: same layout for writing, reading, increments and derivatives',
  'For every particle system, with and without velocity-dependent forces, writing the state to a flat array and reading it back restores the state exactly, the declared number of variables and offsets match what is written, and element k of the derivative and of the collected increments belongs to element k of the state. Reading an array of the wrong size never changes the state.',
  CFG, 'all states; four particle systems; forces with and without velocity dependence; particle numbers', 'No test round-trips a state array.',
  ['src/particle-system/'], [('state layout', 'src/particle-system/*.hpp write_to_scalar_array/read_from_scalar_array/evaluate_general_derivative')], VG_,
  'All four systems, particle numbers 2 to 4, exact.')

p('P13', 'Drift and kick advance exactly the declared equations of motion',
  'In every particle system a drift advances only positions and time, by velocity times the physical time of the step, and a kick advances only velocities and the regularisation variables, by the acceleration at the current state. With velocity-dependent forces the kick is the symmetric half-full-half composition of true and auxiliary velocity, and before each step the auxiliary velocity equals the true one.',
  CFG, 'all states, step sizes, masses; four systems; force combinations', 'No test looks at a single drift or kick.',
  ['src/particle-system/'], [('drift, kick', 'src/particle-system/*.hpp')], VG_, 'Opaque additive forces; particle numbers 2 and 3.')

p('P14', 'Collected increments equal the change of the state they describe',
  'While increment collection is on, the sum of collected increments after any sequence of drifts and kicks equals the change of each state variable since the last clear, for positions, velocities, auxiliary velocities, time and regularisation variables alike; while it is off increments do not change. Clearing zeroes every increment.',
  CFG, 'all states and sequences of drifts and kicks; four systems', 'No test reads an increment.',
  ['src/particle-system/'], [('increment bookkeeping', 'src/particle-system/*.hpp sync_*_increment')], VG_, 'Sequences of two drifts and kicks over opaque forces; exact.')

p('P15', 'Chain and plain systems, regularised and chain-regularised, evolve identically',
  'From the same initial particles, a plain and a chain system, and a regularised and a chain-regularised system, produce the same positions, velocities and time after any sequence of drifts, kicks and chain reorderings, for every chain ordering.',
  CFG, 'all initial particles; chain orderings before and after reordering; interactions', 'No test compares two systems.',
  ['src/particle-system/chain-system.hpp', 'src/particle-system/archain.hpp', 'src/particle-system/regu-system.hpp', 'src/particle-system/base-system.hpp'],
  [('sibling systems', 'src/particle-system/')], 'value-graph comparison of sibling implementations', 'Three particles, several orderings, real Newtonian and post-Newtonian forces.')

p('P16', 'Chain transformation is invertible, reorderable and visits every particle once',
  'Transforming coordinates to the chain and back restores them exactly for any ordering, re-expressing a chain in a new ordering equals building it from the coordinates in that ordering, and the chain holds the vectors between consecutive particles. The constructed ordering is always a permutation of all particles that starts from the closest pair and attaches the next closest available particle at the nearer end.',
  INP, 'all positions; all orderings; particle numbers', 'The tests try one random ordering at a time and a fixed number of particles.',
  ['src/particle-system/chain.hpp'], [('chain transforms', 'src/particle-system/chain.hpp')],
  VG_ + '; constant propagation over every total order of the pair distances for the index construction', 'Transforms: all permutations of up to 4 (quick) or 5 particles, reversals, rotations and samples up to 12. Index construction: every order of pair distances of 3 and 4 particles, samples up to 7.')

p('P17', 'Time regularisation uses energies consistent with the system',
  'The regularisation function, the physical time of a drift and of a kick, and the initial binding energy and auxiliary potential variable are the logarithmic-Hamiltonian or time-transformed-leapfrog expressions of the current masses, positions and velocities. A system and its chain form use the same expressions, and drift time uses quantities that a kick changes and vice versa, so the step map is explicit and reversible.',
  CFG, 'all states; both regularisation types', 'No test evaluates the regularisation.',
  ['src/particle-system/regu-system.hpp', 'src/particle-system/archain.hpp'], [('regularisation', 'src/particle-system/regu-system.hpp Regularization')], VG_, 'Exact for 2 and 3 particles.')

p('P18', 'Particle containers keep every attribute in its own column',
  'For each particle kind, constructing a container from particles, appending, resizing, clearing and reading an attribute by index all refer to the same attribute of the same particle, and no attribute is dropped, duplicated or exchanged. The printed column names match the printed values in number and order, and a particle is read from a stream in the order in which it is printed.',
  CFG, 'all particle values; all particle kinds; histories of appends', 'Tests cover point and finite-size particles with a few values only.',
  ['src/particles/'], [('containers', 'src/particles/*.hpp')], VG_ + '; effect extraction for the printed columns', 'Particle numbers up to 3 (thorough 5); the four containers (point, finite size, tidal, gas drag), plain and, for the first three, compensated state. The systems\' stream operators are not analysed: their input form cannot be instantiated.')

p('P19', 'A run honours its stop conditions, callbacks and end time in order',
  'A run calls the start operations once, then before every step the registered operations, and after the last step the operations and stop operations once, in registration order and with the current state. It takes no step once a stop condition holds or the end time is reached, a step never overshoots the remaining time, tolerances given by the user reach the iterator before the first step, and every step is bracketed by the system\'s preparation and clean-up.',
  HIS, 'every sequence of stop decisions and step sizes', 'Regression runs have no assertions on order or count of callbacks.',
  ['src/simulator.hpp'], [('run loop', 'src/simulator.hpp Simulator::run')], 'typestate (protocol automaton) analysis of the run loop over the control-flow graph, with value graph for the step handed on', 'Stub system, iterator and callbacks; all loop histories as automaton reachability.')

p('P20', 'Sliced callbacks fire exactly when due',
  'A time-sliced operation runs exactly when the current time has reached the next due time and not passed the end, after which the due time moves on by the interval (on the logarithmic scale until it lies in the future); a step-sliced operation runs on the first and every n-th call. Resetting the slice parameters makes the wrapper behave exactly like a freshly constructed one, and operation arguments and results are passed through.',
  HIS, 'all times, intervals, histories of calls', 'No test calls a slice.',
  ['src/args-callback/callbacks.hpp'], [('slices', 'src/args-callback/callbacks.hpp')], VG_, 'One to three consecutive calls with symbolic times.')

p('P21', 'Orbit elements and coordinates convert into each other consistently',
  'Converting Kepler elements to relative coordinates gives a position and velocity with exactly the energy, angular momentum, eccentricity vector and orientation of those elements, for elliptic, parabolic and hyperbolic orbits, and the reverse conversion recovers the elements, for any orientation, direction of motion and circular or planar orbits too (the phase is measured from the direction opposite to the relative position). Conversions between true, eccentric and mean anomaly satisfy Kepler\'s equation and the half-angle relations of the matching conic for every mean anomaly, both overloads of each conversion agree, and parameters that describe no orbit are refused.',
  INP, 'all masses, elements and phases', 'Tests do not cover orbits.',
  ['src/orbits/orbits.hpp'], [('orbit conversions', 'src/orbits/orbits.hpp')], VG_, 'All conics as gamma nodes; root finding is treated as an opaque solver whose equation is checked.')

p('P22', 'Centre-of-mass, energy and cluster helpers agree in all their forms',
  'Centre-of-mass position and velocity, total mass, kinetic and potential energy, angular momentum and the related helpers give the textbook value for any particle number, moving to the centre of mass leaves zero mass-weighted position and velocity, and single-particle, variadic and container forms agree. Moving particles shifts all of them equally.',
  CFG, 'all particle values and numbers; argument forms', 'No test covers the helpers for more than trivial input.',
  ['src/orbits/particle-manip.hpp', 'src/core-computation.hpp'], [('helpers', 'src/core-computation.hpp, src/orbits/particle-manip.hpp')], VG_, 'Particle numbers 1 to 4; exact.')

p('P23', 'Vector algebra: every operator acts componentwise and obeys its identity',
  'Every arithmetic, compound and mixed scalar operator of the vector types equals its componentwise definition, also when an operand is the target or one of its components, dot, cross, norm and distance satisfy their identities, and compound operators modify only their target. The plain, the lazily evaluated and the specialised double vector agree on every operation they offer.',
  INP, 'all component values', 'Tests sample random values with tolerances and leave operators out.',
  ['src/vector/vector3.hpp', 'src/vector/vector3d.hpp', 'src/vector/lazy-vec3.h', 'src/lazy-evaluation/lazy_expr.h'], [('operators', 'src/vector/')], VG_, 'Exact for all components; the AVX specialisation is analysed although the header currently leaves it out.')

p('P24', 'Compensated numbers follow the exact compensated-summation recurrence',
  'Adding to or subtracting from a compensated number performs exactly the floating-point operation sequence of compensated summation, so that no rounding error is lost, for each flavour (Kahan, Neumaier, Klein) and for every floating type. Assigning, copying, scaling, reading and converting a compensated number keeps, scales or resets value and error consistently.',
  INP, 'all operands and sequences', 'Tests cannot see a lost rounding error; an algebraically equal rewrite destroys the property.',
  ['src/kahan-number.hpp'], [('recurrence', 'src/kahan-number.hpp')], 'strict floating-point value numbering (no real-arithmetic identities), terms compared under IEEE interpretation; IR fast-math audit', 'Sequences of one to four operations; compiler flags outside the sources are not covered.')

p('P25', 'Each predefined method uses one precision and its advertised parts throughout',
  'Every predefined integration method combines the particle system, iterator, integrator and error control its name announces, and all of its parts use the scalar type its suffix announces (plain, compensated, extended, extended compensated). Every predefined method can be instantiated, and none rounds its state, or anything computed on the way to it, to a smaller floating type.',
  PRG, 'all predefined methods', 'Most predefined methods are never instantiated by a test.',
  ['src/spaceHub.hpp'], [('method aliases', 'src/spaceHub.hpp')], 'query over the type-checked program: the type tree and state types of every alias against its name, plus an audit of narrowing conversions in the optimised IR of every instantiated method', 'All 208 aliases with default and user-supplied interactions and particles; narrowing inside error checkers and step controllers is not a state and is left out.')

p('P26', 'Units, constants and quantities built on them are mutually consistent',
  'The unit system has unit gravitational constant, every exported unit, unit literal and physical constant equals its reference value in these units, and derived units are exactly the declared combination of base units. Radii of stars and compact objects and the Lidov-Kozai time scale equal their formula, and accelerations of every built-in force change under a change of the units of length, time and mass the way an acceleration must.',
  INP, 'all constants; all literals; all masses and orbits; all changes of units', 'No test checks a constant.',
  ['src/macros.hpp', 'src/stellar/stellar.hpp', 'src/secular.hpp', 'src/interaction/'], [('constants', 'src/macros.hpp'), ('stellar radii', 'src/stellar/stellar.hpp'), ('time scale', 'src/secular.hpp')], 'constant propagation over the IR of every exported unit and constant, value graphs of literals and helpers, scaling covariance of the value graphs of the forces', 'Reference values to the accuracy they are published with, combinations to rounding; forces for 2 and 3 bodies.')

p('P27', 'Parallel loops run every item exactly once and wait for all of it',
  'A parallel loop over n items with any number of threads runs every item exactly once, every worker receives the same callable and arguments, and the call returns only after all workers have finished. Running an indexed or repeated task on several threads starts exactly the requested number of workers with distinct indices.',
  ['schedules', 'inputs'], 'all item and thread counts, all schedules', 'No test starts more than the default number of threads or an indivisible item count.',
  ['src/multi-thread/multi-thread.hpp'], [('partition', 'src/multi-thread/multi-thread.hpp')], 'value-graph constant propagation of the partition with thread creation as recorded effects; use-after-move and join-before-return rules on the effect order',
  'Item counts up to 24 and selected ones up to 2^53, thread counts up to 9 and 64.')

p('P28', 'Shared files and random streams are safe to use from several threads',
  'Every access to a concurrent file happens while its lock is held and the lock is released on every exit, and copies of a handle share stream and lock. Random generators keep separate state per thread, so concurrent draws never touch shared mutable state.',
  ['schedules'], 'all schedules', 'Races do not show in single-threaded unit tests.',
  ['src/multi-thread/multi-thread.hpp', 'src/rand-generator.hpp', 'src/IO.hpp'], [('locking', 'src/IO.hpp'), ('generator state', 'src/rand-generator.hpp')],
  'lockset dataflow over the value graph with mutexes as memory state, path-sensitive lock balance over unwind edges of optimised IR, storage-class rule for mutable statics reachable from the generators', 'All paths of the instantiated member functions; standard library trusted.')

p('P29', 'Random draws map the uniform variate by the inverse of their distribution',
  'Each random generator with given bounds returns the exact transformation of its underlying uniform or normal variate that its distribution prescribes, never leaving its bounds. Angles of an orbit that are drawn at random are isotropic: cosine of the inclination, node, periapsis and mean anomaly are uniform, and nothing else of the orbit changes.',
  INP, 'all bounds and underlying variates', 'Statistical tests are absent.',
  ['src/rand-generator.hpp', 'src/orbits/orbits.hpp'], [('transforms', 'src/rand-generator.hpp')], VG_, 'Exact; the standard library engines are trusted.')

p('P30', 'Headers can be included in several translation units of one program',
  'Every function and variable defined in the public headers may be included in any number of translation units of one program without duplicate definitions.',
  PRG, 'all multi-file programs', 'Every test and tutorial is a single translation unit.',
  ['src/'], [('definitions in headers', 'src/')], 'linkage rule over LLVM IR (strong external definitions originating in headers)', 'Decided exactly for the single-include header and each stand-alone compilable header.')

p('P31', 'A fatal error ends the program with a failure status after its message',
  'When the library detects an unrecoverable condition it prints its message and ends the process with a non-zero exit status; control never continues past it.',
  ['inputs', 'fault_sequences'], 'every failure site', 'Tests never reach an abort.',
  ['src/dev-tools.hpp'], [('abort macro', 'src/dev-tools.hpp')], 'effect analysis of every noreturn failure site: constant propagation of the exit status', 'All failure sites in the instantiated code, normal and DEBUG builds.')

p('P32', 'Scattering set-up places particles on the requested incident orbit',
  'The critical velocity, impact parameter, incident orbit and cross-section helpers give the value their definition prescribes, and a generated incident orbit keeps the requested velocity at infinity and starting distance, its impact parameter is uniform over the area of the disc up to the requested maximum, and its orientation angles are uniform.',
  INP, 'all masses, velocities and radii', 'No test covers scattering.',
  ['src/scattering/cross-section.hpp', 'src/orbits/particle-manip.hpp'], [('scattering helpers', 'src/scattering/cross-section.hpp')], VG_, 'Random variates are free symbols.')

p('P33', 'Energy is conserved over long integrations to the declared tolerance',
  'Integrating a bound system for many periods keeps the relative energy error below the tolerance-derived bound.', HIS, 'all bound systems and durations',
  'Tests sample a few systems.', ['src/simulator.hpp'], [('whole stack', 'src/')],
  na='Quantifies over accumulated rounding and truncation of unbounded numerical histories; no sound static bound in reach. The algebraic ingredients are decided by P01-P17.')
p('P34', 'Random draws have the advertised statistical distribution',
  'Over many draws the empirical distribution converges to the advertised one.', HIS, 'all seeds', 'No statistical test exists.',
  ['src/rand-generator.hpp'], [('generators', 'src/rand-generator.hpp')],
  na='A statement about limits of pseudo-random sequences; statically only the transformation of the underlying variate can be decided, which is P29.')

p('P35', 'Independent simulations, orbits and writers share no hidden state',
  'What a simulation, writer, orbit helper or generator computes depends only on its own arguments and members. Nothing of static or thread storage is changed by library code except random engines and counters that are only touched under a lock, no one-time initialisation depends on the arguments of the first call, and no library function uses process-wide state of the C library without a lock.',
  HIS, 'all programs that run several simulations in one process, one after another or in parallel', 'Every test starts in a fresh process and runs one simulation at a time.',
  ['src/args-callback/callbacks.hpp', 'src/ode-iterator/', 'src/rand-generator.hpp', 'src/tools/', 'src/interaction/', 'src/particle-system/', 'src/simulator.hpp', 'src/orbits/'], [('energy error writer', 'src/args-callback/callbacks.hpp'), ('iterators', 'src/ode-iterator/'), ('file names', 'src/tools/auto-name.hpp')],
  'interprocedural write and escape analysis of every variable of static or thread storage over LLVM IR, must-held lock analysis, dominance of one-time initialisation and dependence of its operands', 'All instantiated library functions of 18 driver programs; standard library trusted.')

p('P36', 'Compensated methods carry the rounding error of every state variable',
  'In the compensated (Plus) methods every position, velocity, time and regularisation variable is advanced by an addition that records its rounding error, and the recorded error survives copying, collecting and restoring the state, so a step computes the exact sum up to second order of the rounding unit and no variable falls back to plain addition.',
  INP, 'all particle states, increments and steps', 'Loss of compensation only shows as slow drift after very many steps.',
  ['src/kahan-number.hpp', 'src/type-class.hpp', 'src/core-computation.hpp', 'src/particle-system/', 'src/integrator/', 'src/ode-iterator/'], [('state types', 'src/type-class.hpp'), ('advance', 'src/core-computation.hpp'), ('systems', 'src/particle-system/'), ('integrators', 'src/integrator/')],
  'value graphs over compensated and plain state types compared as value minus compensation, with non-vanishing of every compensation under IEEE interpretation of the terms', 'Systems of 2 and 3 particles, every system kind and force list; re-chaining, which drops compensation by design, is left out.')
p('P37', 'Written output holds the whole state under its column names at full precision',
  'Writing a particle system, of any kind, after any number of steps, gives one comma-separated row per particle whose fields are the values of the state under the names reported for the columns; the default writer puts these names once at the start of its file and then the rows of every call, copies of a writer continue the same file, different writers keep to their own; the energy writer gives time and relative energy error since its first call; both write at least 17 significant digits, printing leaves the number format of the caller\'s stream alone, and the stream operators of vectors, orbits, compensated numbers and sequences print and read every component once in order.',
  INP, 'all systems, states, sequences of writer calls and copies', 'Output is only looked at through samples; a swapped or rounded column in one particle kind looks plausible.',
  ['src/args-callback/callbacks.hpp', 'src/IO.hpp', 'src/particles/', 'src/particle-system/', 'src/vector/vector3.hpp', 'src/kahan-number.hpp', 'src/orbits/orbits.hpp'], [('writers', 'src/args-callback/callbacks.hpp'), ('print', 'src/IO.hpp'), ('rows', 'src/particles/'), ('systems', 'src/particle-system/')],
  'stream effects recorded by abstract interpretation of the code with stream, number format and path condition; tokens matched against column names and accessor value numbers', 'Systems of 0 to 3 particles (5 thorough), up to three writer calls; streams never fail.')
p('P38', 'Gas drag of the disc models follows the drag law and conserves momentum',
  'The disc models add to the accelerations of every body other than the first, the centre, a drag force along the velocity of the gas relative to the body, of the size given by their law (dynamical friction by the Mach number, aerodynamic drag by the cross section, or both as selected), with the density, sound speed and rotation of the disc at the position of the body; a body at rest with the gas feels none, the reaction is given to the centre, other accelerations are kept, and a table lookup stays inside its table for every position and Mach number.',
  INP, 'all positions, velocities, masses, radii and disc parameters', 'No test evaluates a disc model; joins between regimes, ends of tables and the body at rest with the gas are single points a sample misses.',
  ['src/interaction/alpha-disk.hpp', 'src/interaction/magneto-disk.hpp', 'src/interaction/disk-capture-star.hpp'], [('AlphaDisk', 'src/interaction/alpha-disk.hpp'), ('MagnetoDisk', 'src/interaction/magneto-disk.hpp'), ('DiskCaptureStar', 'src/interaction/disk-capture-star.hpp')],
  'value graphs of the added accelerations over the abstract interpretation of the code, with constant tables read at computed indices; law, momentum and index range decided over states aimed at every branch, join and table cell', 'One to three bodies; the AlphaDisk statics, which the library leaves to the user, are inputs; table data are checked for order and smoothness, not against their source.')
p('P39', 'Command-line and configuration-file settings reach the program as written',
  'Every argument or setting of the right count is converted from the text given for it to the type asked for without loss of digits, in the order given or under its own key; comments, blanks and empty lines do not count, of several settings of a key the last one counts, a wrong number of arguments or an unknown key ends the program, and a configuration file is only read.',
  INP, 'all argument lists, texts and configuration files', 'Tests construct their initial conditions in code; no text is ever parsed.',
  ['src/tools/config-reader.hpp'], [('ConfigReader, read_command_line, OptArg', 'src/tools/config-reader.hpp')],
  'abstract interpretation with strings, streams and maps as terms; conversions compared with the type they deliver, texts with what they mean', 'Files of up to three lines; streams that fail after being opened are not modelled.')
p('P40', 'The stopwatch reports the active time',
  'Whatever the sequence of starts, pauses, resets and readings, the time reported is the sum of the intervals during which the watch was running since the last reset, in seconds, measured on a clock that never goes back.',
  HIS, 'all sequences of operations and clock readings', 'Elapsed time cannot be predicted in a test; only longer sequences of pauses and resets show a lost or doubled interval.',
  ['src/tools/timer.hpp'], [('Timer', 'src/tools/timer.hpp')],
  'value graphs of every sequence of operations with symbolic clock readings, compared with the sum of the active intervals', 'All sequences of up to four operations (six thorough); starting a running watch is left open.')
p('P42', 'Work queues and pipes deliver every item once, in order, and shut down',
  'Tasks given to the thread pool are each run exactly once with the pool unlocked, in the order given when there is one worker, and their futures give their results; records put into an output pipe all reach the file in order, soon and at the latest at its destruction; an input pipe gives exactly the readable records of its file in order and then the end; the concurrent queue behaves as a deque for any number of threads. Waiting threads miss no wake-up, stand spurious ones, access nothing unordered and are all joined when the object is destroyed.',
  ['schedules', 'inputs'], 'all interleavings, numbers of threads, tasks and records, and moments of destruction', 'Nothing tests them; a lost wake-up or an early stop needs one particular interleaving.',
  ['src/multi-thread/thread_pool.h', 'src/multi-thread/concurrent-queue.h', 'src/multi-thread/ciostream.hpp'], [('ThreadPool', 'src/multi-thread/thread_pool.h'), ('ConcurrentDeque', 'src/multi-thread/concurrent-queue.h'), ('Opip, Ipip, Costream, Cistream', 'src/multi-thread/ciostream.hpp')],
  'abstract interpretation of all threads with hand-over at synchronisation points under several orders; happens-before of every memory access, locks held at writes of what a wait tests, served items as terms', 'Up to 3 workers and 6 items (4 and 8 thorough), 205 records; left open: tasks still queued when the pool is destroyed, pops after a stop, use during destruction.')
p('P41', 'Collisions are reported exactly when two bodies touch',
  'The collision callback, usable as a stop condition, reports a collision exactly if the distance of some pair of bodies is at most the sum of their radii, for every kind of particle system, number of bodies, order of the chain and any time it is asked, by the original or by a copy.',
  CFG, 'all positions, radii, numbers of bodies and kinds of particle system', 'No test uses it; one pair out of many that is skipped, or a limit that is slightly off, shows only when that very pair comes close.',
  ['src/args-callback/collision.hpp', 'src/particle-system/', 'src/particles/finite-size.hpp'], [('StickyCollision', 'src/args-callback/collision.hpp'), ('positions', 'src/particle-system/')],
  'value graph of the answer over each kind of particle system; every pair in turn placed around contact', 'Up to five bodies.')
