#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; writes the jsonl)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
G = "src/gym_electric_motor/"
PS = G + "physical_systems/"
EM = PS + "electric_motors/"
RG = G + "reference_generators/"
GC = "src/gem_controllers/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mechanism, where=", ".join(files))])))

prop("C01", "Motor models obey the documented voltage and torque equations",
  "For every motor type (permanently, externally, series and shunt excited DC; PMSM, SynRM, EESM; squirrel cage and doubly fed induction) and every admissible parameter set, state, speed and input voltage, the state derivative returned by the motor model satisfies the motor's documented voltage equations, and the torque equals the documented torque equation. The rotor angle state always advances with pole-pair number times speed.",
  ["inputs", "configurations"], "all positive motor parameters, all currents, fluxes, angles, speeds and voltages, for all nine motor models",
  "The unit tests evaluate the models only for a handful of fixed numbers with the default parameters (the integration test replays one stored trajectory); a wrong coefficient that vanishes or cancels there is not seen.",
  [EM + "dc_motor.py", EM + "dc_series_motor.py", EM + "dc_shunt_motor.py", EM + "dc_permanently_excited_motor.py", EM + "dc_externally_excited_motor.py", EM + "permanent_magnet_synchronous_motor.py", EM + "synchronous_reluctance_motor.py", EM + "externally_excited_synchronous_motor.py", EM + "induction_motor.py", EM + "squirrel_cage_induction_motor.py", EM + "doubly_fed_induction_motor.py"],
  "electrical_ode / _update_model / torque / i_in of each motor class")
prop("C02", "Every jacobian is the exact derivative of the equations it belongs to",
  "For every motor and every mechanical load that offers a jacobian, and for the assembled electro-mechanical system, the returned matrices equal the partial derivatives of the corresponding differential equations (state derivative by state and by speed, torque by electrical state, load derivative by speed and by torque) at every state where these are differentiable. This holds for all admissible parameters.",
  ["inputs", "configurations"], "all states, speeds, torques, voltages and positive parameters; every motor/load pair",
  "Solvers only use the jacobian to steer step sizes, so a wrong entry changes no tested number; the tests never compare a jacobian to the equations.",
  [EM + "dc_motor.py", EM + "induction_motor.py", EM + "permanent_magnet_synchronous_motor.py", PS + "mechanical_loads/polynomial_static_load.py", PS + "physical_systems.py"],
  "electrical_jacobian, mechanical_jacobian, SCMLSystem._system_jacobian")
prop("C03", "Motor models conserve energy",
  "For every motor type, the instantaneous electrical input power equals ohmic losses plus the rate of change of the stored magnetic energy plus torque times mechanical speed, for all states, voltages, speeds and parameters (for externally excited DC motors with armature and excitation circuit, for three-phase motors with amplitude-invariant 3/2 scaling). No motor model can therefore create or destroy energy in steady or transient operation.",
  ["inputs", "configurations"], "all parameters, states, speeds and voltages of the nine motor models",
  "It relates torque and differential equations for all operating points; tests check neither together nor beyond single sample points.",
  [EM + "dc_motor.py", EM + "permanent_magnet_synchronous_motor.py", EM + "externally_excited_synchronous_motor.py", EM + "induction_motor.py"],
  "electrical_ode and torque of each motor class")
prop("C04", "Three-phase coordinate transformations are exact, amplitude-invariant inverses",
  "For every angle and every vector, transforming alpha-beta to abc and back, dq to alpha-beta and back, and dq to abc and back (also with the angle given in normalised form) returns the original vector; abc quantities produced this way always sum to zero, and a zero-sum abc vector survives the round trip. The transformations are amplitude invariant, linear, ignore any common-mode part, and rotating by an angle equals the standard rotation matrix; the motor classes and the physical systems offer the same transformation.",
  ["inputs"], "all real vectors and angles, normalised and un-normalised angles",
  "Tests compare a few fixed vectors and angles.",
  [EM + "three_phase_motor.py", PS + "physical_systems.py"],
  "ThreePhaseMotor.t_23/t_32/q/q_inv/q_me, ThreePhaseMotorSystem.*_space")
prop("C05", "Redundant electrical quantities in one observation agree with each other",
  "In every state returned by a reset or a simulation step of a three-phase physical system, the phase currents are the inverse transform of the direct/quadrature currents of the same state, at the rotor angle (synchronous machines) or rotor-flux angle (induction machines) belonging to the system state the currents were taken from; the same holds for the voltages and the angle at which they were applied. The reported angle always lies in (-pi, pi] and is congruent to the integrated electrical angle, and the reported torque is the motor torque at the reported currents and fluxes.",
  ["inputs", "histories"], "every action, every continuous state at step begin and end, every angle, all systems",
  "Integration tests only replay stored numbers from the same code.",
  [PS + "physical_systems.py"],
  "simulate/reset of SynchronousMotorSystem, ExternallyExcitedSynchronousMotorSystem, SquirrelCageInductionMotorSystem, DoublyFedInductionMotorSystem")
prop("C06", "Converters output exactly the voltage their switching action prescribes",
  "For every converter, every action and every output current, the output voltage is the one documented for that action (conducting switch, free-wheeling diode by current sign, or averaged duty cycle with the interlocking discount against the current direction) and always lies within the declared voltage range; continuous actions outside the action space act as their clipped values and invalid discrete actions are rejected. Multi-converters apply each sub-action and each current slice to exactly its own sub-converter in order.",
  ["inputs", "configurations"], "all actions (in and out of the action space), all currents, times, step sizes and interlocking times",
  "Tests sample a grid of actions, currents and times for default step sizes.",
  [PS + "converters.py"],
  "set_action/convert/_convert/_interlock/reset of all converter classes")
prop("C07", "Switching instants are ordered, complete and lie inside the step",
  "For every converter, action history, step start time, step size and interlocking time shorter than the step (up to 99.9 % of it), the switching times announced for a step are strictly increasing, lie after the step start and end exactly at the end of the step. A dead interval in which neither transistor of a half bridge conducts is inserted exactly when a half bridge changes over between its two transistors and an interlocking time is set, and lasts exactly that time; the step size set on a converter is used by all its sub-converters.",
  ["inputs", "histories"], "all action pairs, start times, step sizes, interlocking times; every converter incl. multi-converters",
  "Tests run short fixed action sequences with the default step size.",
  [PS + "converters.py"],
  "set_action/_set_switching_pattern/tau of all converter classes")
prop("C08", "Converters are lossless: supply power equals output power",
  "Whenever a converter's current switching state is evaluated, the current drawn from the supply times the supply voltage equals the sum over outputs of output voltage times output current (for bridge converters whose output currents sum to zero), for every action and every current of the converter's declared current range; for multi-converters it is the sum over the sub-converters. For averaged converters this holds with ideal (zero) interlocking time.",
  ["inputs", "configurations"], "all actions, currents and valid configurations of every converter",
  "Tests check i_sup for sampled currents only.",
  [PS + "converters.py"], "convert / i_sup of all converter classes")
prop("C09", "Voltage supplies deliver the specified waveform within the declared range",
  "At every time and for every supply current the ideal supply delivers its nominal voltage, the AC supplies deliver sinusoids of the specified amplitude, frequency, phase and 120-degree displacement (three-phase voltages sum to zero) inside the declared supply range, and the RC supply follows du/dt = (u0 - u - R i)/(RC) and starts at its nominal voltage after every reset. A fixed phase stays fixed over resets, and constructing or resetting a supply never changes the parameter dictionary the user passed.",
  ["inputs", "histories"], "all times, supply currents, nominal voltages, frequencies, phases, R and C",
  "Tests evaluate a few times and fixed parameters.",
  [PS + "voltage_supplies.py"], "VoltageSupply subclasses: __init__, reset, get_voltage, system_equation")
prop("C10", "Mechanical loads: load torque opposes motion and speed follows Newton's law",
  "The polynomial load's static torque opposes the direction of rotation with the documented constant, linear and quadratic parts for every speed, is bounded near standstill so that it can never accelerate a drive at rest, and the speed derivative equals the drive torque minus load torque over the total inertia (load plus rotor). The constant-speed load never changes its speed whatever the torque, and the external-speed load starts at the profile's value at time zero and an Euler step of its own step size ends exactly on the profile. The random (Ornstein-Uhlenbeck) load ignores the torque, never leaves its speed range in a step and, without noise, drifts towards its mean.",
  ["inputs", "configurations"], "all non-negative load parameters, speeds, torques, times, inertias",
  "Tests sample some speeds for some parameter sets.",
  [PS + "mechanical_loads/polynomial_static_load.py", PS + "mechanical_loads/mechanical_load.py", PS + "mechanical_loads/constant_speed_load.py", PS + "mechanical_loads/external_speed_load.py", PS + "mechanical_loads/ornstein_uhlenbeck_load.py"],
  "mechanical_ode, mechanical_jacobian, _static_load, set_j_rotor, reset")
prop("C11", "ODE solvers integrate the given system from the current to the requested time",
  "For every system equation, state, step and number of sub-steps, after integrating to a time the solver's time is exactly that time, the returned state is the solver's state, and the explicit Euler solver's result equals the composition of its equidistant sub-steps with the system evaluated at each sub-step's start time and state and the current parameters. Resetting the initial value makes later results independent of earlier history.",
  ["inputs", "histories"], "all right-hand sides, states, times, numbers of sub-steps",
  "Tests use one or two analytic systems and fixed step counts, none time dependent with sub-steps.",
  [PS + "solvers.py"], "EulerSolver, ScipyOdeSolver, ScipySolveIvpSolver, ScipyOdeIntSolver")
prop("C12", "A simulation step composes supply, converter, motor, load and solver correctly",
  "In each simulation step the motor receives the converter's output scaled by the supply voltage on every switching interval, the coupled equations are integrated over exactly one step (time advances by the step size, the step counter by one), and the differential equation is the concatenation of load and motor equations coupled through speed and torque. Every entry of the returned state is the physical quantity its name says, divided by that quantity's limit, both after steps and after resets.",
  ["inputs", "histories", "configurations"], "arbitrary component behaviours (abstract contracts), any number of switching intervals, all actions and states",
  "Tests use mocks with constant outputs or default components; layouts are compared for the shipped components only.",
  [PS + "physical_systems.py"], "SCMLSystem and subclasses: simulate, reset, _system_equation, _set_indices, _build_state_names")
prop("C13", "Limits, nominal values and parameters are completed consistently",
  "Values the user gives for motor parameters, limits and nominal values are used unchanged; every missing entry is filled from the default, from the generic current/voltage entry, or from the other of limit/nominal, and the torque limit defaults to the torque at the machine's limit operating point (for salient synchronous machines the maximum-torque point at nominal current). The system's limit for every state is the smaller of motor and load limit (the supply's nominal voltage for the supply state), and no dictionary passed by the user is modified.",
  ["inputs", "configurations"], "all partial user dictionaries and values, every motor and load class",
  "Tests construct motors with defaults or one full dictionary.",
  [EM + "electric_motor.py", EM + "dc_motor.py", EM + "synchronous_motor.py", EM + "induction_motor.py", PS + "mechanical_loads/mechanical_load.py", PS + "physical_systems.py", G + "utils.py"],
  "_update_limits, _update_motor_parameter, _torque_limit, _set_limits, update_parameter_dict")
prop("C14", "Initial states respect the configured initializer",
  "After every reset each motor and load state equals its configured constant, or for random initialisation lies inside the user's interval intersected with the admissible range (nominal or limit values and the state space), for every random seed. Repeated resets with constant initialisation always give the same state.",
  ["inputs", "histories", "configurations"], "all initializer dictionaries, seeds, and reset histories",
  "Tests draw a few samples for a few initializers.",
  [EM + "electric_motor.py", EM + "induction_motor.py", PS + "mechanical_loads/mechanical_load.py"], "initialize/reset")
prop("C15", "Constraints flag exactly the violating states",
  "The limit constraint reports 1 exactly when some observed state exceeds its limit in magnitude and 0 otherwise; the squared constraint reports 1 exactly when the sum of squares of its observed normalised states exceeds 1. The monitor combines the degrees of all its constraints by maximum, by the complement product 1 - prod(1 - degree), or by the user's function, so that without constraints the degree is 0, every degree stays in [0, 1], and a fully violated constraint always gives 1.",
  ["inputs", "configurations"], "all states, all subsets of observed states, any number of constraints, all violation degrees in [0,1]",
  "Tests check a few states; the product merge is only tested through mocks.",
  [G + "constraints.py", G + "core.py"], "LimitConstraint, SquaredConstraint, ConstraintMonitor.check_constraints")
prop("C16", "Episode protocol: steps only between reset and termination",
  "A step is possible only after a reset and before termination: a freshly built environment, a terminated one, and one whose reference generator or reward function was exchanged refuse to step until reset, and the refused step changes nothing. A step reports terminated exactly when the violation degree reaches 1, never reports truncated by itself, and within each reset and step every component and callback is called exactly once, in the documented order, with the values of that very step.",
  ["histories"], "all sequences of reset, step, and component exchange with arbitrary component behaviour",
  "Tests execute a few short sequences with dummies.",
  [G + "core.py", G + "callbacks.py"], "ElectricMotorEnvironment.step/reset/setters/_call_callbacks")
prop("C17", "Observations and metadata follow the state filter and the declared spaces",
  "For every state filter the returned state observation, the state names, limits, nominal values and the observation space all list the same states in the same order, with values taken from the full state; the reference observation is the one produced by the reference generator. Every registered environment produces observations contained in the observation space's shape and reference range and accepts every action of its action space.",
  ["inputs", "configurations", "histories"], "all filters, states, and every registered environment id",
  "Tests use the default filter for one dummy system.",
  [G + "core.py", G + "__init__.py", G + "envs/"], "state_filter, limits, state_names, nominal_state, observation_space")
prop("C18", "Weighted-sum-of-errors reward has the documented value and bounds",
  "The reward equals (1 - v) * (bias - sum of weight * (|error| / error range)^power) + v * violation reward for violation degree v; for v = 0 and errors within the state range it lies in the announced reward range, is maximal at zero error and never increases when any weighted error grows. Weights, normalisation by the state range, default violation reward min(lower bound / (1 - discount), 0) and string biases are derived as documented for every configuration (non-negative weights and powers, discount below one), and with the default weights unreferenced states have no influence.",
  ["inputs", "configurations"], "all states, references, violation degrees, weights, powers, biases, discount factors",
  "Tests evaluate some fixed numbers.",
  [G + "reward_functions/weighted_sum_of_errors.py"], "WeightedSumOfErrors.set_modules/reward/_wse_reward/_normalize_weights/_set_violation_reward")
prop("C19", "Generated references never leave the permitted range",
  "Every value any reference generator (constant, zero, Wiener, Laplace, sinus, step, sawtooth, triangle, and their compositions) ever produces lies within the generator's limit margin and inside its announced reference space, for every seed, initial reference, parameter range and number of steps. Non-referenced states always get the reference zero.",
  ["inputs", "histories", "configurations"], "all random draws, parameters, limit margins and initial values; every step of every trajectory",
  "Random trajectories are only sampled in tests, with mocked random numbers.",
  [RG], "_reset_reference, _get_current_value, get_reference of each generator")
prop("C20", "Reference sequencing: the announced next reference is the one used next",
  "The reference observation returned after a reset or step equals the referenced entries of the reference the next step is rewarded against, at every step, across sub-episode borders. Each generator advances exactly one trajectory point per step, starts a new sub-episode exactly when the previous one is exhausted, sub-episode lengths stay in the configured range, and the trajectories follow their documented shape (constant value; periodic sinus, step, sawtooth, triangle with the drawn amplitude, frequency and offset; reflected/limited random walks).",
  ["histories", "inputs"], "all step counts, sub-episode lengths and parameters",
  "Tests cover a few indices with mocked random numbers.",
  [RG], "SubepisodedReferenceGenerator.get_reference/get_reference_observation/reset and subclasses")
prop("C21", "Composed reference generators present their parts faithfully",
  "The multiple reference generator's reference is the sum of its parts' references on disjoint states, its observation the concatenation in order, and its reference space, names and referenced states the concatenation/union; the switched generator always exposes exactly one of its sub-generators unchanged, keeps it for a super-episode whose length is in the configured range, and chooses among them with the given probabilities. Both forward reset and seeding to their sub-generators.",
  ["histories", "configurations"], "any number of sub-generators, all their outputs, all histories",
  "Tests use two mocks and short histories.",
  [RG + "multiple_reference_generator.py", RG + "switched_reference_generator.py"], "MultipleReferenceGenerator, SwitchedReferenceGenerator")
prop("C22", "Equal seeds give identical episodes; nothing else does influence randomness",
  "Two environments of the same configuration reset with the same seed and driven with the same actions produce bit-identical observations and rewards for any number of steps and episodes, whatever other environments, the global random state or earlier history did. Every random component draws only from its own seeded generator, sub-components receive distinct independent streams, and different seeds lead to different streams.",
  ["histories", "configurations"], "all seeds, actions, interleavings with other environments and global random use, all components",
  "The seeding tests compare default environments once; loads, supplies and wrappers are not covered.",
  [G + "random_component.py", G + "core.py", PS + "physical_systems.py", G + "physical_system_wrappers/"], "RandomComponent.seed/next_generator and every use of random numbers")
prop("C23", "Environments are isolated from each other and from their arguments",
  "Creating, resetting and stepping one environment or component never changes the behaviour, limits, names or parameters of another existing or later created one, also when both use default arguments, and never modifies dictionaries, lists or arrays handed in by the caller or handed out earlier. In particular a component built with special arguments leaves the defaults of its class unchanged.",
  ["histories", "configurations"], "all pairs of component constructions and operations in any order",
  "Tests build each object afresh and never look at other instances.",
  [G, PS], "constructors and class-level defaults of all components")
prop("C24", "Dead-time wrapper delays every action by exactly the configured number of steps",
  "With a dead time of n steps, the physical system receives in step k the action given in step k - n, and the configured (or the default zero) reset action during the first n steps after every reset; no action is lost, altered or reordered, also when the caller reuses the same array, over any number of episodes. The reset action is always a valid action of the action space.",
  ["histories", "inputs"], "all n >= 1, all action sequences, all episode lengths and resets, all action space kinds",
  "Tests check single steps with mocks.",
  [G + "physical_system_wrappers/dead_time_processor.py"], "DeadTimeProcessor")
prop("C25", "State wrappers add exactly the quantities they announce",
  "The cos/sin, current-sum, flux-observer and noise wrappers return, for every state after step and reset, the inner state unchanged in its positions (noise: plus noise only on selected states; cos/sin with angle removal: without the angle) plus the documented additional values, and state names, limits, nominal values, state positions and state space have matching length and order. Nesting wrappers composes these guarantees.",
  ["inputs", "configurations", "histories"], "all inner states, wrapper options, and wrapper stacks",
  "Tests compare fixed vectors through mocks.",
  [G + "physical_system_wrappers/"], "CosSinProcessor, CurrentSumProcessor, FluxObserver, StateNoiseProcessor, PhysicalSystemWrapper")
prop("C26", "The dq action wrapper applies the requested voltage at the predicted angle",
  "For every dq action, rotor speed and angle, the wrapper passes to the inner system the phase actions whose dq transform at the angle advanced by the documented factor of a step equals the requested dq action; additional actions (excitation, rotor side) are passed unchanged or transformed with the slip angle. The angle used always stems from the latest state after step or reset.",
  ["inputs", "histories"], "all actions, angles, speeds, step sizes, motor kinds",
  "One mocked example per motor is tested.",
  [G + "physical_system_wrappers/dq_to_abc_action_processor.py"], "DqToAbcActionProcessor and its subclasses")
prop("C27", "Controller commands stay within the permitted voltage and current ranges",
  "Whatever state and reference a controller of the control package receives, its clipping stages return references within the limits they were tuned to (per component or in vector length), leave admissible references untouched and report exactly the amount cut off; the output stages turn every clipped voltage reference into a valid element of the environment's action space (continuous converters of all machines, finite converters of the DC machines; finite three-phase bridges are not supported by the package).",
  ["inputs", "configurations"], "all references, states, limits and margins; absolute, squared and combined clipping; continuous and discrete output stages",
  "The control package has no tests at all.",
  [GC + "stages/clipping_stages/", GC + "stages/cont_output_stage.py", GC + "stages/disc_output_stage.py"], "ClippingStage subclasses, ContOutputStage, DiscOutputStage")
prop("C28", "Controllers implement their control laws with anti-windup",
  "P, I, PI, PID and three-point controllers compute their documented control law from reference, measured state and internal memory; the integrator changes by exactly step size times control error for components that were not clipped and is frozen for clipped ones, and a reset clears all memory, for all histories. The input stage converts normalised observations to physical units, and the feed-forward stages add the documented decoupling voltages.",
  ["inputs", "histories"], "all gains, states, references, clipping patterns and histories",
  "The control package has no tests at all.",
  [GC + "stages/base_controllers/", GC + "stages/anti_windup.py", GC + "stages/input_stage.py", GC + "stages/emf_feedforward.py", GC + "pi_current_controller.py", GC + "pi_speed_controller.py"], "base controllers, AntiWindup, EMFFeedforward, cascades")
prop("C29", "Operating points realise the requested torque within the current limits",
  "For each DC machine the selected current reference produces exactly the demanded torque in the motor's torque equation whenever this is possible within the permitted currents (limit times one minus the safety margin; for the permanently excited machine also within the current the supply voltage can drive at the present speed; for shunt and externally excited machines at the measured, not vanishing excitation current), and stays within the permitted currents otherwise, for all states and torque references; a series machine is never asked for a negative torque. For the three-phase machines the current vector handed to the current controller never exceeds the permitted current and keeps the selected direction; the flux it produces is the one of the least current (losses, for the induction machine) or, if that is more than the present voltage admits, the available flux; its torque is the demanded one where this flux permits it, up to the resolution of the look-up tables, otherwise the highest torque of the flux in the same direction. The available flux is the voltage limit over speed plus an integral correction that acts with the inverse stator time constant, is limited and is cleared by a reset.",
  ["inputs"], "all torque references, states and parameters",
  "The control package has no tests at all.",
  [GC + "stages/operation_point_selection/"], "OperationPointSelection subclasses")
prop("C30", "Registered environments are what their id says and pass on every argument",
  "For each of the 54 registered ids the default environment has the machine, the converter kind (finite switching actions with step size 1e-5 s, or continuous duty cycles with 1e-4 s), the controlled quantities (speed, torque, or the machine's currents), the load (free shaft for speed control, constant speed otherwise) and the constraints (current limits, or length of the current vector) that the id and documentation name: for every state the episode ends exactly when a monitored current exceeds its limit, and the default reward is the negative normalised error averaged over exactly the controlled quantities. Every constructor argument reaches exactly its component: instances are used themselves, dictionaries override exactly the named defaults of the default class, for every value; classes and strings are refused.",
  ["inputs", "configuration"], "all registered ids, all argument values, all states and references",
  "The tests construct a few environments with default arguments and hardly look at them.",
  [G + "envs/", G + "utils.py", G + "__init__.py", G + "core.py"], "constructors of the environment classes, initialize, register calls")
prop("C31", "The announced state space admits exactly the signs the drive can produce",
  "For every motor, converter combination, load and supply the announced normalised state space contains negative values of a DC machine's voltage, current, torque and speed exactly when the quadrants of the converter feeding it allow them (series and shunt machines: no negative speed, series machines: no negative torque); for currents inside their announced intervals the torque never takes a sign that is not announced. Three-phase quantities are announced with both signs, the supply voltage with the supply's range, and a multi-converter announces the quadrants of its sub-converters in order.",
  ["inputs", "configuration"], "all motor/converter/load combinations, all parameters, supply ranges and currents",
  "The tests look at single combinations with mocked components.",
  [G + "physical_systems/electric_motors/", G + "physical_systems/physical_systems.py", G + "physical_systems/converters.py", G + "physical_systems/mechanical_loads/mechanical_load.py"], "get_state_space, _build_state_space, multi-converter constructors")
prop("C32", "Assembled controllers run their environment as configured",
  "GemController.make yields for every supported machine, control task and choice of base controllers the cascade its arguments ask for: an adapter around the speed controller around the torque controller around the current controller (as far as the task needs them), with the selected base controllers, the feed-forward stage used exactly when decoupling is requested, the coordinate transformation exactly for three-phase machines, and the voltage clipping of the machine last. Parts exchanged through the public attributes are the ones used from then on, quantities that were set are the ones reported and used. The reported references name every referenced current and the torque of a speed controller and are the values the inner stages follow. control_environment resets environment and controller before the first action and after every ended episode, computes each action from the latest observation, takes exactly n_steps steps and lets no episode exceed max_episode_length; every action is an element of the action space.",
  ["inputs", "histories", "configuration"], "all supported machines, tasks, base controllers; all numbers of steps, observations and episode ends",
  "The control package has no tests at all.",
  [GC + "gem_controller.py", GC + "gem_adapter.py", GC + "cascaded_controller.py", GC + "pi_current_controller.py", GC + "torque_controller.py", GC + "pi_speed_controller.py", GC + "stages/base_controllers/"], "GemController.make, control_environment, adapters and cascades")
prop("C33", "Ramping limit margins widen as configured",
  "The RampingLimitMargin callback puts its initial margin in force for the reference generator of the environment (for a switched generator: for every sub generator), widens each side by the step size after every update_freq-th finished step (or episode start) until the maximum margin is reached, and never beyond; nothing else changes the margin. References generated afterwards stay inside the margin in force, and the announced reference and observation spaces contain every margin that can come into force. Generators without sub-episodes and margins out of order or outside of [-1, 1] are refused.",
  ["inputs", "histories", "configuration"], "all margins, step sizes and draws; step and episode updates, single and switched generators, all sub-episoded generators",
  "The tests use margins that are symmetric and step counts that end exactly at the maximum, and never look at the references or the announced space.",
  [G + "callbacks.py", G + "reference_generators/"], "RampingLimitMargin.set_env, on_step_end, on_reset_end, _update_limit_margin")
prop("C34", "The dashboard shows exactly what happened, and only watches",
  "Every plot of the motor dashboard shows at each point the values of that very step: state and reference plots the state and reference in physical units at the time after the step, action and reward plots the applied action and the received reward at the time the step begins, in a window of the last time_plot_width points that follows the time; the episode plots show one point per finished episode with its number of steps and mean reward per step, the violation plot the cumulative number of terminations over the steps; every reset is marked at its time, in red after a termination. This holds for every sequence of resets, steps, terminations, renderings and figure resets: lines always get as many x as y values, are updated when the update interval has passed, with scaling every shown value lies inside the view, and plotting never changes state, reference, action or environment. Exactly the selected plots are shown, each in an axis of its own. The console printer reports every finished episode once, with its number, reason to end, number of steps and cumulative reward, and every update_freq-th step with its values.",
  ["inputs", "histories", "configuration"], "all states, references, actions and rewards; all step counts; scripts of resets, steps, renderings and figure resets",
  "The tests check calls on mocks of single plots; what the lines contain after several episodes is never looked at.",
  [G + "visualization/motor_dashboard.py", G + "visualization/motor_dashboard_plots/", G + "visualization/console_printer.py"], "on_step_begin, on_step_end, on_reset_begin, render, reset_data, initialize of the dashboard and its plots, console printer")
out = os.path.join(HERE, "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
