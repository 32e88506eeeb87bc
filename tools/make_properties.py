"""Writes /verif/properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, os

S = "src/dg_commons/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=[S + f for f in files],
                state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                mechanism=[dict(name=n, where=S + w) for n, w in mech],
                observe_at=list(observe), hook_needed=None,
            ),
        )
    )


prop("C01", "Sampled sequences admit only well-formed data and never change",
     "A sampled sequence can be constructed only from equally many timestamps and values, with numeric, strictly increasing timestamps that do not mix Decimal with int/float; anything else is rejected with an error. Once built, a sequence is immutable and hashable: its timestamps and values equal what was given, cannot be assigned, and do not follow later changes of the caller's lists or of the builder it came from. A builder accepts exactly the samples whose time is later than the last one and leaves its content untouched when it rejects one.",
     ["inputs", "histories"], "every list of timestamps and values of every numeric type, and every history of builder add/rejected add/snapshot operations",
     "Tests build three or four literal sequences; whether malformed data is rejected and snapshots stay isolated depends on arbitrary inputs and interleavings of adds and snapshots.",
     ["seq/sequence.py"],
     [("DgSampledSequence.__post_init__", "seq/sequence.py"), ("DgSampledSequenceBuilder.add/as_sequence", "seq/sequence.py")],
     [("_timestamps/_values", "the samples", "seq/sequence.py")], ["constructor result or exception", "timestamps/values/hash/equality"])

prop("C02", "Sequence lookup, interpolation and slicing agree with the samples",
     "For every sequence and every time: an exact lookup returns the sample at that time or fails, the at-or-previous lookup returns the latest sample not later than that time and fails only before the start, and interpolation holds the end values outside the range, equals the samples at sample times and is the linear blend of the two neighbours in between. Cutting out a time window keeps exactly the samples inside it (extrema included), shifting adds the offset to every timestamp, transforming maps every value and drops those mapped to nothing, iterating with dt yields every consecutive pair once and in order. Results do not depend on whether the times are given as int, float or Decimal.",
     ["inputs"], "every sequence (length, spacing, value type, timestamp type) and every query time before, at, between and after the samples",
     "Tests query a single short sequence at a few times and one performance case; boundary times, single-sample sequences and Decimal timestamps are not exercised.",
     ["seq/sequence.py", "planning/trajectory.py"],
     [("at / at_or_previous / at_interp (bisect)", "seq/sequence.py"), ("get_subsequence, shift_timestamps, transform_values, iterate_with_dt", "seq/sequence.py")],
     observe=["return values of the sequence API"])

prop("C03", "Sequence calculus matches exact piecewise-linear calculus",
     "Integrating a sampled signal yields, at every sample after the first, the exact cumulative trapezoidal area; differentiating yields the slope of each segment at its midpoint, so that one undoes the other; accumulation yields running sums at the same times. Crossing detection returns, in order, exactly the times at which the linearly interpolated signal changes side of the threshold from one sample to the next (a sample on the threshold counts as above it). All of them work for every supported timestamp type and leave their input unchanged.",
     ["inputs"], "every non-empty numeric sequence with float, int or Decimal timestamps and every threshold",
     "The tests compare one hand-computed sequence per operation; irregular sampling, Decimal times and values exactly on the threshold are not covered.",
     ["seq/seq_op.py", "seq/sequence.py"],
     [("seq_integrate/seq_differentiate/seq_accumulate/find_crossings", "seq/seq_op.py"), ("iterate_with_dt", "seq/sequence.py")])

prop("C04", "Planar pose operations are exact rigid motions",
     "Interpolating between two poses starts at the first, ends at the second, moves along a constant-twist motion and is equivariant under a change of reference frame; relative poses compose back to the original pose; pose objects survive conversion to and from matrices. Applying a pose to points, point lists, shapes, lane control points or trajectories is one and the same rigid motion: distances, areas and orientations are preserved, composition of poses equals successive application, and headings turn by the pose's angle. Converting a shape to the collision-library representation preserves which points its outer outline covers.",
     ["inputs"], "every pair of poses (any translation, any angle including multiples of pi), every blend factor, every point set and polygon",
     "Only one pose interpolation is indirectly exercised by existing tests; frame consistency is a law over all poses.",
     ["geo.py", "planning/trajectory.py", "maps/lanes.py", "sim/models/utils.py"],
     [("SE2_interpolate, SE2_apply_T2, relative_pose, get_distance_SE2, SE2Transform", "geo.py"), ("apply_SE2_to_shapely_geo, transform_xy, shapely2crPolygons", "geo.py"), ("Trajectory.apply_SE2transform", "planning/trajectory.py")])

prop("C05", "States and commands behave as faithful vectors",
     "For every model family the state and command types convert to an array and back without losing, reordering or mixing any component, and addition, subtraction, scaling and division act componentwise exactly as on those arrays. Combining a value with a different type is rejected, and no operation alters its operands or yields an object that shares mutable data with them. Pose extraction from a state returns that state's position and heading.",
     ["inputs"], "every state/command type shipped with the package and every finite component vector and scalar",
     "Tests cover a handful of values for two vehicle types; every type repeats the same hand-written boilerplate, where a swapped index compiles and passes.",
     ["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/diff_drive_structures.py", "sim/models/spacecraft_structures.py", "sim/models/spaceship_structures.py", "sim/models/rocket_structures.py", "sim/models/obstacles_dyn.py", "sim/models/utils.py"],
     [("as_ndarray/from_array/__add__/__mul__ of each type", "sim/models/"), ("extract_pose_from_state etc.", "sim/models/utils.py")])

prop("C06", "Model updates integrate the documented equations of motion",
     "Advancing any shipped model by a time step moves its state to the solution of that model's equations of motion under the constant applied command, within integration tolerance; a zero step changes nothing and two successive steps equal one of the combined length. The motion is equivariant under translating and rotating the world and mirror-symmetric where the body is. The state is replaced, never mutated: states handed out earlier and the command passed in stay as they were.",
     ["inputs", "histories"], "every model, every admissible state and command, every step size and sequence of steps",
     "Tests drive models with one command history and mostly check that nothing crashes; the equations, sign conventions and frames are never compared against a reference.",
     ["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/diff_drive.py", "sim/models/spacecraft.py", "sim/models/spaceship.py", "sim/models/rocket.py", "sim/models/obstacles_dyn.py", "sim/models/tires.py", "dynamics/bicycle_dynamic.py"],
     [("update()/dynamics() of each model", "sim/models/"), ("Tires forces", "sim/models/tires.py"), ("BicycleDynamics.successor", "dynamics/bicycle_dynamic.py")])

prop("C07", "Physical limits bound every command and every reachable motion",
     "Whatever commands are given, for however long, a model never accelerates, steers, turns, thrusts or spins its wheels beyond the limits in its parameters: commands outside the limits act like the limit itself, commands inside act unaltered, and the bounded states (steering and nozzle angles and, for vehicles, pedestrians and moving obstacles, speeds) exceed their bounds by at most what one integration step allows. Fuel is only consumed, by the amount the thrust requires, and an empty tank produces no thrust. A body in collided state no longer obeys its commands (where the model has that notion) and its own propulsion cannot make it gain speed.",
     ["inputs", "histories"], "every model with every valid parameter set and every, including absurd, command sequence",
     "Tests use commands well inside the limits; saturation, exhaustion and post-collision behaviour are only reached by extreme or long histories.",
     ["sim/models/model_utils.py", "sim/models/vehicle_utils.py", "sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian_utils.py", "sim/models/diff_drive.py", "sim/models/spacecraft.py", "sim/models/spaceship.py", "sim/models/rocket.py", "sim/models/obstacles_dyn.py", "dynamics/bicycle_dynamic.py"],
     [("apply_acceleration_limits, apply_rot_speed_constraint, apply_ang_vel_constraint, steering_constraint ...", "sim/models/model_utils.py"), ("fuel and collision branches of dynamics()", "sim/models/")])

prop("C08", "Velocity, pose and footprint queries agree with the state",
     "For every model the global-frame velocity it reports is the time derivative of its reported pose, the local-frame velocity is the same vector seen in the body frame, and setting a velocity in either frame and reading it back in either frame returns it (up to the directions a constrained body cannot express), leaving the pose untouched. The footprint is always the rigid image of the body outline at the reported pose, with unchanged area, and the impact regions used for collisions cover it without leaving it and are named distinctly. Inertia, mass and geometry reported do not depend on where the body is.",
     ["inputs"], "every model, pose, velocity and geometry",
     "No test reads velocities back; frame mistakes are invisible when the heading is zero or the body is at rest, as in the tests.",
     ["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/diff_drive.py", "sim/models/spacecraft.py", "sim/models/spaceship.py", "sim/models/rocket.py", "sim/models/obstacles_dyn.py", "sim/models/vehicle_structures.py", "sim/models/diff_drive_structures.py", "sim/models/spacecraft_structures.py", "sim/models/spaceship_structures.py", "sim/models/rocket_structures.py"],
     [("get_velocity/set_velocity/get_footprint/get_pose/get_mesh", "sim/models/"), ("outline and lattices of the geometry classes", "sim/models/")])

prop("C09", "Collision resolution obeys the laws of impact",
     "When two approaching bodies collide, the computed impulse conserves their total linear and angular momentum, makes the contact points separate with the configured restitution, and never increases total kinetic energy; bodies that are already separating are left alone. The outcome does not depend on the frame of reference or, up to mirroring of the roles, on which body is named first. Colliding with the static environment behaves like hitting a body of infinite mass, and what a report states as velocities and (translational) energy before and after is what the bodies' models contained before and contain after.",
     ["inputs"], "every pair of bodies (mass, inertia, pose, velocity, shape) in contact, every restitution, and every body touching a static obstacle",
     "Tests run two crashes and never check momentum, energy or symmetry.",
     ["sim/collision.py", "sim/collision_utils.py", "sim/collision_structures.py"],
     [("resolve_collision, resolve_collision_with_environment", "sim/collision.py"), ("compute_impulse_response, velocity_after_collision, rot_velocity_after_collision, kinetic_energy, velocity_of_P_given_A", "sim/collision_utils.py")],
     observe=["CollisionReport", "model velocities after resolution"])

prop("C10", "Impact location and geometry are correct for every contact",
     "For every pair of footprints or obstacles whose borders cross twice or one of which contains the other, the impact computation succeeds and returns a unit normal pointing out of the first body towards the second and a contact point lying on both bodies' boundary region, exchanging the bodies only flips the normal; contacts it cannot describe are refused with the dedicated collision error and nothing else. The impact locations reported for a body are exactly its regions that intersect the other body, and a player is at fault exactly when it is on no lane in a legal direction at the point of impact. Merging successive reports of the same contact keeps the participants, takes the 'before' data from the earliest and the 'after' data from the latest, and accumulates the impact regions.",
     ["inputs"], "every pair of intersecting convex or non-convex bodies and obstacles (areas, lines, rings), including degenerate contacts and containment",
     "Four literal polygon pairs are tested; degenerate touching, containment and line obstacles are not.",
     ["sim/collision_utils.py", "sim/collision.py", "sim/collision_structures.py"],
     [("compute_impact_geometry, compute_impact_locations, chek_who_is_at_fault", "sim/collision_utils.py"), ("combine_collision_reports", "sim/collision_structures.py")])

prop("C11", "The simulation clock, command schedule and log replay exactly",
     "A run advances in exact multiples of its time step; every agent is asked for commands at the first step of its life and then every command period, exactly, and between requests the last command is held. The log of a player holds one state per step in which it was in the simulation and one command entry per request, with correct timestamps and values not altered by later activity, so replaying the logged commands from the first logged state with the same model reproduces every logged state. Interpolating a log at any time returns for each player exactly what its own sequences give.",
     ["inputs", "histories", "configurations"], "every set of players, models, agents, time steps, command periods and durations",
     "Tests run a few simulations and check that they finish; they never re-derive the log.",
     ["sim/simulator.py", "sim/simulator_structures.py", "sim/agents/agent.py"],
     [("Simulator.run/pre_update/update/post_update", "sim/simulator.py"), ("SimTime, SimParameters, SimLog, PlayerLogger", "sim/simulator_structures.py"), ("NPAgent", "sim/agents/agent.py")],
     [("last_get_commands_ts, last_commands, simlogger", "command schedule and log under construction", "sim/simulator.py")],
     ["SimContext.log, SimContext.time", "agents' calls"])

prop("C12", "Agents decide simultaneously on isolated snapshots; runs are reproducible",
     "In each step every agent receives the same instant's true state of all remaining players (as filtered by its sensor), taken before anyone moves and unaffected by what other agents or the simulator do with it, so that without contacts neither the outcome nor the log depends on the order in which players are listed. Each agent is told its own name, its own goal and the scenario at the start, as private copies. The same inputs give the same log every time, also when simulators are reused, run one inside another or share a process with other runs, and agents that alter what they received or returned change nothing for the others.",
     ["inputs", "histories", "schedules", "configurations"], "every set of players and goals, every listing order, every interleaving of simulation runs in a process, including agents that mutate what they are given",
     "Each test runs one simulation with a fresh simulator and well-behaved agents.",
     ["sim/simulator.py", "sim/simulator_structures.py", "sim/agents/agent.py", "sim/agents/lane_follower.py", "sim/goals.py"],
     [("Simulator.run deepcopies InitSimObservations/InitSimGlobalObservations", "sim/simulator.py"), ("SimObservations", "sim/simulator_structures.py")],
     [("last_observations", "snapshot given to the agents", "sim/simulator.py")])

prop("C13", "Every collision is detected, resolved once and reported",
     "At every step but the last of a run, for every pair of bodies that overlap while approaching, and for every body overlapping a static obstacle while approaching it, the simulation records a collision report with the correct time and participants and flags the bodies as collided; bodies that never overlap are never reported or flagged. Bodies whose straight courses meet are reported at the first step at which they overlap. A body is never moved by collision resolution other than through its velocity.",
     ["inputs", "histories"], "every set of moving bodies and obstacles and every trajectory that makes them meet, miss, touch or separate",
     "Tests provoke one or two crashes and look at a picture; missed or phantom collisions are not searched for.",
     ["sim/simulator.py", "sim/collision.py", "sim/collision_utils.py", "sim/collision_visualisation.py", "sim/scenarios/structures.py"],
     [("Simulator._check_collisions_with_environment/_check_collisions_among_players", "sim/simulator.py"), ("resolve_collision*", "sim/collision.py")])

prop("C14", "Simulations end, and players leave, exactly when they should",
     "A simulation ends at the first step at which the time exceeds the maximum, or exceeds the time of the first collision by more than the configured amount, or all players with a mission have completed it, or no player is left, and not earlier; every run terminates. A player whose mission is fulfilled is taken out of the simulation at the end of that step, its final state is in the log, and from then on it neither acts, is seen, nor can be hit. Players without a mission are never removed and do not keep a run alive once everyone with a mission has finished.",
     ["inputs", "histories", "configurations"], "every combination of durations, missions, collisions and players",
     "Tests end by timeout or by a single mission; boundary times and mixed sets of players are not covered.",
     ["sim/simulator.py", "sim/simulator_structures.py", "sim/goals.py"],
     [("Simulator._maybe_terminate_simulation/_remove_finished_players", "sim/simulator.py")],
     [("sim_terminated, first_collision_ts", "termination flags", "sim/simulator_structures.py")])

prop("C15", "Observation filters show exactly what a sensor could see",
     "A filtered observation is a sub-selection of the true one: it never invents or alters players or time (other than the configured delay), always contains the observer itself, and the identity filter changes nothing. With a field of view, another player is seen if and only if some of its body lies within the sensor's range and angle and is not hidden behind an obstacle or another player (up to the sensor's angular resolution); the sensor polygon never extends past the range or through an obstacle and contains every unobstructed visible point. With a delay, what is seen is the latest true observation that is at least the latency old (the oldest one at the start); ghost players are hidden only from those for whom they are configured as such and only beyond the configured distance.",
     ["inputs", "histories"], "every arrangement of players and obstacles, sensor range and angle, delay and sampling of the observations",
     "There is no test of the filters' content; one test builds a sensor in a scenario and shows a figure.",
     ["sim/sim_perception.py", "perception/sensor.py"],
     [("IdObsFilter, FovObsFilter, DelayedObsFilter, GhostObsFilter", "sim/sim_perception.py"), ("VisRangeSensor/FOV", "perception/sensor.py")])

prop("C16", "Lane coordinates are consistent both ways",
     "For every lane, the path parameter and the distance along the lane are increasing, mutually inverse functions that continue in metres before and after the lane, control points are hit exactly at their parameters, and lane length and width interpolate the control points. The along-lane coordinate found for a point or pose projects to a centre point that is (within the search tolerance) closest to it on any lane without sharp bends, and its lateral and heading offsets together with that coordinate rebuild the pose; the inside/outside, before/after and correct-direction flags agree with those numbers. Moving the lane and the pose by the same rigid motion changes nothing but coordinates.",
     ["inputs"], "every lane polyline (curved, straight, any number and spacing of control points, varying widths) and every pose near it",
     "Tests evaluate two lanes at a few points.",
     ["maps/lanes.py"],
     [("DgLanelet.center_point, beta_from_along_lane, along_lane_from_beta, find_along_lane_closest_point, lane_pose*, radius, width", "maps/lanes.py")])

prop("C17", "Road boundaries and obstacle indices describe the drivable area",
     "The boundary obstacles built for a road network lie on the border of the union of all lanes (within the given buffer), cover all of that border except at the entry and exit gates of lanes without predecessor or successor, and never cut across the drivable area. A scenario's static obstacles, its road boundaries and its spatial index agree with each other and with what the scenario was built from, for every mixture of geometries, so that a geometric query returns precisely the obstacles it should. Building them never alters the input scenario.",
     ["inputs", "configurations"], "every lanelet network (connected or not, closed loops, overlapping lanes) and every set of static obstacles",
     "Tests build boundaries for three stored maps and look at the pictures.",
     ["maps/road_bounds.py", "sim/scenarios/structures.py", "sim/models/obstacles.py"],
     [("build_road_boundary_obstacle", "maps/road_bounds.py"), ("DgScenario.__post_init__", "sim/scenarios/structures.py")])

prop("C18", "Goals are fulfilled exactly when the state is in the goal region",
     "A polygon goal is fulfilled exactly when the position lies within the polygon; a reference-lane goal exactly when the position is on the lane at or beyond the required progress; a pose goal exactly when the pose is within its tolerance of the goal pose (whichever multiple of a turn the headings are given with); time-varying goals judge by the goal valid at that instant. Every goal can be drawn: its plottable geometry is a shape located where the goal is. Asking changes neither the goal nor the state.",
     ["inputs"], "every goal geometry and tolerance and every state and time, including headings across the +-pi seam and positions at the border",
     "Tests use goals as stopping criteria of two simulations only.",
     ["sim/goals.py", "maps/lanes.py"],
     [("PolygonGoal, RefLaneGoal, PoseGoal, TPlanningGoal, tv goals", "sim/goals.py")])

prop("C19", "Low-level controllers follow their control law within their limits",
     "The PID controller's output is the proportional, integral and derivative terms of its error history combined with its gains, always clipped to the output range, with the set-point clipped to its range and the integral clipped so it cannot wind up, whatever the sampling times; the first call and repeated calls at the same time add no integral or derivative term. Speed and steering controllers built on it return the desired rate towards the reference and never exceed configured limits, and with their default gains reach it. Different instances do not influence each other.",
     ["inputs", "histories"], "every gain and limit set and every history of measurements, references and (strictly increasing, repeated) times",
     "There is no unit test of the controllers; closed-loop tests only check that a simulation runs.",
     ["controllers/pid.py", "controllers/speed.py", "controllers/steer.py"],
     [("PID.get_control/_update_*", "controllers/pid.py"), ("SpeedController, SteerController", "controllers/")],
     [("last_request_at, last_proportional_error, last_integral_error", "controller memory", "controllers/pid.py")])

prop("C20", "Pure pursuit aims at the lookahead point on the path",
     "The pursuit goal point lies on the path ahead of the vehicle inside the allowed search window, at the speed-dependent lookahead distance whenever the path offers such a point, with the lookahead saturated between its limits. The returned steering leads the vehicle along the arc from its rear axle through that point: it is zero when the point is straight ahead, has the sign of the side on which the point lies, mirrors when the scene is mirrored and is unchanged when the whole scene is moved rigidly. The steering equals that of a vehicle with the configured wheelbase and steering limit turning on this arc.",
     ["inputs", "histories"], "every path, pose, speed and parameter set",
     "No direct test; one closed-loop simulation does not reveal sign, window or lookahead errors.",
     ["controllers/pure_pursuit.py", "maps/lanes.py"],
     [("PurePursuit.find_goal_point/get_desired_steering/get_turn_rate", "controllers/pure_pursuit.py")])

prop("C21", "Reference speed respects yielding, safety distance and lane speed",
     "The speed behaviour returns its nominal speed when no other player matters, zero when there is someone to yield to (crossing or approaching from the right within the yield distance), a speed that lets it keep its distance behind a slower vehicle ahead, and zero with the emergency flag exactly when a player crossing from the left or oncoming in its corridor is within the joint safety distance. Its decision depends only on the relative geometry and speeds in the current observations: not on the order or names of players, nor on the choice of world frame, and moving a leading vehicle closer never raises the reference speed. The observing player itself is never considered an obstacle.",
     ["inputs"], "every arrangement and speed of surrounding players and every parameter set",
     "No direct test of the decision logic.",
     ["controllers/speed.py"],
     [("SpeedBehavior.get_speed_ref/is_there_another_vehicle...", "controllers/speed.py")])

prop("C22", "Lane-following and scripted agents do what they are told",
     "A lane-following agent started near its lane drives its vehicle onto the lane and keeps it there with speed approaching the reference, for every drivable lane and start; when its speed behaviour reports an emergency its reference is zero and it brakes from then on. A scripted agent returns at every time the command its plan prescribes for that time and a policy agent exactly what its policy returns for the observed state. Controller and behaviour objects handed to an agent are the ones it uses, and its commands are within the actuation limits and do not vary from one interpreter run to another.",
     ["inputs", "histories"], "every lane shape within curvature limits, initial offset, controller set and scripted plan",
     "One simulation per agent type is executed without checking tracking.",
     ["sim/agents/agent.py", "sim/agents/lane_follower.py", "controllers/speed.py", "controllers/steer.py", "controllers/pure_pursuit.py"],
     [("LFAgent.get_commands", "sim/agents/lane_follower.py"), ("NPAgent, PolicyAgent", "sim/agents/agent.py")])

prop("C23", "Sampled commands and motion primitives are complete and feasible",
     "The command sampler enumerates exactly the grid its parameters describe, spanning the full permitted range of commands, including the extremes and zero where promised, and nothing outside the limits. Motion primitives are dynamically feasible: they start at the requested state, have the requested duration and sampling, respect every speed, steering, acceleration and steering-rate limit and end where integrating the vehicle model under the constant command leads; exactly the feasible pairs of sampled states are connected. The set for a given state is the one generated from that state.",
     ["inputs", "configurations"], "every parameter set (vehicle, sample counts, durations) and start state",
     "Tests generate one library and check its count.",
     ["planning/commands_sampler.py", "planning/motion_primitives.py", "dynamics/bicycle_dynamic.py"],
     [("CommandsSampler", "planning/commands_sampler.py"), ("MotionPrimitivesGenerator", "planning/motion_primitives.py"), ("BicycleDynamics", "dynamics/bicycle_dynamic.py")])

prop("C24", "Trajectories and trajectory graphs compose without loss",
     "Joining trajectories of which each starts where and when the previous one ends keeps every sample once in time order, upsampling keeps all original samples and only adds model-consistent ones between them, and a commands plan extracted from a trajectory reproduces that trajectory when executed. In a trajectory graph every stored transition is the latest one added for its edge; each node's generation is one more than that of the node from which it was first reached, and the trajectory to a node is exactly the concatenation of the transitions along a shortest way to it. Adding, querying or expanding never alters what was stored before.",
     ["inputs", "histories"], "every list of trajectories and every history of graph additions and queries",
     "Tests use one trajectory and never build a graph.",
     ["planning/trajectory.py"],
     [("Trajectory.squeeze/merge/upsample/is_connectable", "planning/trajectory.py"), ("TrajectoryGraph.add_edge/get_trajectory...", "planning/trajectory.py"), ("commands_plan_from_trajectory", "planning/trajectory.py")])

prop("C25", "Evaluation metrics equal their definition on the logged motion",
     "Safety metrics (smallest distance, time to collision, deceleration rate to avoid a crash, collisions of the ego, and their extremes over a log) equal what a direct geometric computation from the logged states gives, are symmetric between players where defined so and never report danger for players moving apart. Comfort and efficiency metrics (frequency-weighted rms acceleration, largest jerk, travelled distance, time at which the goal lane is reached) equal their definition on the logged signals, scale correctly with time and magnitude and do not depend on the reference frame. Metrics are defined for every kind of player in the log, with or without a mission (players who have fulfilled theirs at that time are left out, with time-varying goals judged at that time), and never change the log.",
     ["inputs", "histories"], "every log of player states and commands of every model type, and every set of missions",
     "Each metric is tested on one or two stored logs against a stored number.",
     ["eval/safety.py", "eval/comfort.py", "eval/efficiency.py"],
     [("get_safety_metrics, get_min_dist, get_min_ttc_max_drac", "eval/safety.py"), ("get_acc_rms etc.", "eval/comfort.py"), ("time_to_goal_lane, distance_traveled, desired_lane_reached, actual_distance...", "eval/efficiency.py")])

prop("C26", "Vehicle lights show the commanded signal and braking, nothing else",
     "The colours shown by a vehicle's lights are a function of the commanded signal, whether it is braking (commanded to decelerate), and time alone: indicators blink on the commanded side with the defined period, brake lights are on exactly while braking, and lights not concerned are off. The result for one vehicle or instant is never influenced by any earlier or other query. Every defined signal yields a colour for every light of the vehicle, drawn at that light's corner.",
     ["inputs", "histories"], "every signal, acceleration, time and history of queries over any number of vehicles",
     "No test inspects the lights; a stale light appears only after a particular history.",
     ["sim/models/vehicle_ligths.py", "sim/simulator_animation.py"],
     [("lights_colors_from_lights_cmd, get_phased_lights, phase2colors", "sim/models/vehicle_ligths.py")],
     [("phase2colors", "shared table of light colours", "sim/models/vehicle_ligths.py")])

prop("C27", "Enumeration and functional helpers are exact, pure and transparent",
     "Enumerating dictionary combinations yields each joint choice exactly once, covering the full product and keeping the keys; filtering and mapping helpers agree with their definition, return immutable results and leave the input unchanged. The timing decorator returns or raises exactly what the wrapped function does. Generated random polygons respect the requested number of vertices, size, irregularity and placement, with the vertices in counter-clockwise order around the centre, and depend on the random state only.",
     ["inputs"], "every mapping, predicate and function, and every seed and parameter set of the shape generator",
     "No test for the helpers; one call of the shape generator.",
     ["utils_toolz.py", "time.py", "maps/shapes_generator.py"],
     [("iterate_dict_combinations, fkeyfilter, fvalmap, valmap", "utils_toolz.py"), ("time_function", "time.py"), ("create_random_starshaped_polygon", "maps/shapes_generator.py")])

prop("C28", "Recorded obstacles and scenarios convert faithfully to agents and models",
     "Converting a recorded dynamic obstacle yields a model of the corresponding kind with the recorded initial pose and speed and (up to the fixed proportions of a vehicle body) the recorded size, and an agent following the route of the road network from the recorded start through the recorded end that is best aligned with it, or the recorded path if there is no such route; kinds that are not supported are skipped, never fatal. Static obstacles, including recorded ones that never leave their place, and planning problems of a scenario file keep their shape, pose, type and number. None of this depends on how headings are wrapped or lanelets are numbered.",
     ["inputs"], "every recorded trajectory (time origin, length, speed profile) and obstacle type, size and placement",
     "A single stored scenario is converted in the tests.",
     ["sim/scenarios/model_from_dyn_obstacle.py", "sim/scenarios/utils_dyn_obstacle.py", "sim/scenarios/convert_from_commonroad.py", "sim/scenarios/factory.py", "sim/scenarios/utils.py"],
     [("infer_model_from_cr_dyn_obstacle", "sim/scenarios/model_from_dyn_obstacle.py"), ("infer_lane_from_dyn_obs, is_dyn_obstacle_static", "sim/scenarios/utils_dyn_obstacle.py"), ("get_scenario_commonroad_replica", "sim/scenarios/factory.py"), ("load_commonroad_scenario, dglane_from_position", "sim/scenarios/utils.py")])

prop("C29", "Drawings, plots and animations show what was simulated",
     "A drawing of a player shows its body outline, and every other part of it (wheels, thrusters and flames, lights), exactly at the drawn state, and redrawing a player equals drawing it afresh. Shapes given to the viewer are painted entirely, every part of them, and nothing else, holes left empty. Every frame of an animation shows every player where the log puts it at the time of the frame, together with the static obstacles, the goals (where they are at that time) and the trajectories the players logged last; the frames span the log from its beginning and the visible area contains the players asked for. Plots of logs, trajectories and collisions show exactly the recorded values, of the selected players, on the given axes or figure.",
     ["inputs", "histories"], "every kind of player, state, command, geometry and log (whatever its starting time and length), goals and obstacles",
     "Tests produce reports and animations without looking at them.",
     ["sim/simulator_visualisation.py", "sim/simulator_animation.py", "sim/log_visualisation.py", "sim/collision_visualisation.py", "maps/shapely_viz.py"],
     [("SimRenderer.plot_player/plot_arena/plot_trajectories/plot_timevarying_goals", "sim/simulator_visualisation.py"), ("create_animation, adjust_axes_limits", "sim/simulator_animation.py"), ("ShapelyViz.add_shape", "maps/shapely_viz.py"), ("plot_player_log, plot_players_logs", "sim/log_visualisation.py"), ("plot_collision", "sim/collision_visualisation.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
