"""Single source of properties.jsonl and MANIFEST.json (both committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, note, claimed=True, reason=None, technique=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, claimed=claimed, reason=reason, technique=technique))


T = "property-based testing (Hypothesis, shrinking, JSON replays): "

prop("C01", "Homogeneous matrices form SE(3): constructors, inverse, action, angles",
     "Every rotation, translation and roll-pitch-yaw constructor returns the rigid transformation it names (the composed rotations equal the product of the elementary ones, in the documented order, and zaligned returns a direct orthonormal frame whose z axis is the given unit vector), and inv, pdot, vdot satisfy the group laws on all rigid transformations. "
     "rotzyx_angles returns angles that rebuild the rotation it was given, including at the pitch = +-90 degree singularity. "
     "ishomogeneousmatrix accepts every rigid transformation and rejects wrong shapes, wrong last rows and 3x3 blocks whose determinant is not 1; no function modifies its argument.",
     ["inputs"], "all angles, translations, unit vectors and rigid transformations (generated with special angles, several turns and the gimbal-lock set over-represented)",
     "doctests look at one rounded example per function; the laws hold over a continuous group and the singular set has measure zero",
     ["arboris/homogeneousmatrix.py"],
     [("constructors, inv, pdot, vdot, rotzyx_angles, zaligned", "arboris/homogeneousmatrix.py")],
     ["return values"], "tolerance 1e-9; oracle: independent elementary rotations and group laws",
     technique=T + "algebraic laws and independent reference rotations")

prop("C02", "Adjoint matrices represent the group action on twists and its derivative",
     "adjoint maps composition to product and inverse to inverse, moves twists as conjugation moves twist matrices, and iadjoint and adjointmatrix.inv are its inverse. "
     "isadjointmatrix accepts the adjoint of every rigid transformation and rejects matrices of another shape, with differing or improper rotation blocks, or with a non-zero upper-right block. "
     "adjacency is the Lie bracket of twists and dAdjoint(adjoint(H), T) is the time derivative of adjoint(H) when H moves with body twist T.",
     ["inputs"], "all pairs of rigid transformations and twists",
     "the module has no unit test beyond single doctest examples of adjoint and adjacency",
     ["arboris/homogeneousmatrix.py", "arboris/adjointmatrix.py", "arboris/twistvector.py"],
     [("adjoint, iadjoint, dAdjoint", "arboris/homogeneousmatrix.py"), ("isadjointmatrix, inv", "arboris/adjointmatrix.py"), ("adjacency", "arboris/twistvector.py")],
     ["return values"], "tolerance 1e-9 (algebra); derivative checked against an independent closed form and a one-parameter subgroup",
     technique=T + "algebraic laws, conjugation oracle, one-parameter subgroup derivative")

prop("C03", "The twist exponential is the matrix exponential, for every magnitude",
     "twistvector.exp(t) equals the matrix exponential of the 4x4 matrix of the twist for every twist, from zero and vanishing rotation through several full turns, and is always a rigid transformation. "
     "Hence exp(s t) exp(u t) = exp((s+u) t), exp(-t) = exp(t)^-1 and exp commutes with changes of frame: H exp(t) H^-1 = exp(Ad_H t).",
     ["inputs"], "all twists, with rotation norms spread over twelve decades around the small-angle branch",
     "one doctest with a large rotation; the small-angle branch and its threshold are never executed by an assertion",
     ["arboris/twistvector.py"], [("exp, Rodrigues formula and small-angle series", "arboris/twistvector.py")],
     ["return value of exp"], "tolerance 1e-9 relative to the translation",
     technique=T + "differential against scaling-and-squaring matrix exponential; group laws")

prop("C04", "Each joint's pose, twist, jacobian and derivatives are mutually consistent",
     "For every joint type and state, the pose is the documented product of elementary rotations/translations of its coordinates, the jacobian maps the joint velocity to the body twist of that pose, djacobian is the time derivative of the jacobian along the current velocity, and ndof is their common width. "
     "The derived quantities agree with them: ipose, itwist, adjoint, iadjoint, adjacency, iadjacency, dadjoint and idadjoint are the inverse pose, the twist of the inverse motion, and the adjoints, brackets and time derivatives these names denote.",
     ["inputs"], "all 13 joint types, all coordinates (several turns, gimbal-lock values) and velocities",
     "tests/test_joints.py evaluates three joint types at one state; derivatives are not tested",
     ["arboris/joints.py", "arboris/rigidmotion.py", "arboris/core.py"],
     [("joint classes", "arboris/joints.py"), ("RigidMotion derived properties", "arboris/rigidmotion.py")],
     ["Joint.pose/twist/jacobian/djacobian/ipose/..."], "tolerance 1e-9; oracle: product of elementary screws and Lie brackets; a metamorphic finite-difference check guards the oracle",
     technique=T + "reference model (product of exponentials) and motion derivative")

prop("C05", "Integrating a joint follows its velocity and never leaves the joint's manifold",
     "Integrating a joint over dt with velocity v sets its velocity to v, adds dt v to the coordinates of a linear joint and moves a free joint's pose by the exponential of the body twist dt v, leaves a fixed joint unchanged, and never alters the velocity it was given. "
     "Whatever the sequence of integrations, the pose stays a rigid transformation up to rounding, coordinates given by the user as integers or as shared arrays work like floats of their own, and constant velocity over many steps equals one long step.",
     ["histories", "inputs"], "all joint types, all initial states (including integer initial values), sequences of up to several hundred integration steps of varying size",
     "no test integrates a joint on its own; drift and dtype problems need long histories or unusual initial values",
     ["arboris/core.py", "arboris/joints.py"], [("integrate methods", "arboris/core.py, arboris/joints.py")],
     ["gpos, gvel, pose after integrate"], "tolerance grows linearly with the number of steps (1e-12 per step)",
     technique=T + "operation sequences against a reference integrator")

prop("C06", "Forward kinematics of any tree of bodies and frames",
     "After update_dynamic, every body's and subframe's pose, jacobian, djacobian and twist are those of the mechanism: the pose is the composition along the chain of joints, the jacobian maps the world velocity to the body twist, the twist is jacobian times velocity, and djacobian is the jacobian's time derivative; the ground does not move. "
     "update_geometric yields the same poses, and moving frames follow their (possibly reassigned) position in their body.",
     ["inputs", "configurations"], "all trees up to 6 links with any joint types, joint frames on either side, masses or none, any state, subframes on any body including the ground",
     "tests use fixed 3R arms and one human model at a few states with stored values",
     ["arboris/core.py"], [("Body.update_geometric, Body.update_dynamic, _SubFrame properties", "arboris/core.py")],
     ["Body/SubFrame/MovingSubFrame pose, jacobian, djacobian, twist"], "tolerance 1e-9 relative; oracle: independent product-of-exponentials model, itself checked against finite differences",
     technique=T + "differential against an independent reference model on generated trees")

prop("C07", "The generalized dynamic model is the one of the multibody system",
     "After update_dynamic the world mass matrix is symmetric, positive semi-definite and gives the total kinetic energy, and the viscosity matrix is the projection of the bodies' viscosity. "
     "nleffects times the velocity is the generalized Coriolis and centrifugal force of the mechanism, and it neither creates nor destroys energy: v'(dM/dt - 2 nleffects)v = 0.",
     ["inputs", "configurations"], "all trees up to 6 links with any joints, joint frames, body masses given in any frame (including massless bodies), viscosities and states",
     "the existing numbers are stored regressions for two robots, in which most velocities are zero",
     ["arboris/core.py"], [("World.update_dynamic, Body.update_dynamic", "arboris/core.py")],
     ["World.mass, World.viscosity, World.nleffects, Body.nleffects"], "tolerance 1e-9 relative; oracle: independent Newton-Euler/Lagrange model",
     technique=T + "differential against reference dynamics, energy identities")

prop("C08", "One time step solves the documented semi-implicit equation",
     "A simulation step moves the world velocity v to the v' solving (M/dt + N + B - sum Z) v' = M v/dt + sum of generalized forces over all registered controllers, stores it as the world's and each joint's velocity, integrates every joint with its own part of v', and advances the time by dt. "
     "The admittance is the inverse of that impedance, and the result does not depend on the order in which the controllers were registered, on whether controllers share the arrays they return, on what is done with the velocity, force and admittance the world hands out, or on anything left over from earlier steps.",
     ["inputs", "histories"], "all trees up to 5 links, states, time steps 1e-4..0.1, up to 3 controllers with arbitrary forces and impedances, sequences of steps",
     "tests step two robots a few times with one controller and compare to stored numbers",
     ["arboris/core.py"], [("update_controllers, integrate", "arboris/core.py")],
     ["World.gvel, gforce, admittance, current_time, Joint.gpos, Joint.gvel"], "tolerance scaled by the condition number; singular mass matrices excluded",
     technique=T + "reference time-stepping in lockstep over generated histories")

prop("C09", "Weight is the gradient of potential energy, whatever the mass distribution",
     "The weight controller's generalized force equals, for every world state, the sum over bodies of the weight applied at each body's centre of mass along the world up direction; equivalently its power is minus the rate of change of potential energy. "
     "It has no impedance, scales linearly with the given gravity, ignores massless bodies, and follows changes of state, of tree and of masses at (re)initialisation.",
     ["inputs", "configurations"], "all trees up to 6 links, states, masses (bodies of zero mass and off-centre masses included), gravities of either sign",
     "one doctest evaluates it without an assertion",
     ["arboris/controllers.py"], [("WeightController", "arboris/controllers.py")], ["return value of update, World.gforce"],
     "tolerance 1e-9 relative", technique=T + "reference model and virtual-power relation")

prop("C10", "The proportional-derivative controller applies its law to the joints given",
     "For any list of linear-configuration joints, in any order and of any size, the controller's generalized force and impedance realise tau = Kp (q_des - q(t+dt)) + Kd (dq_des - dq(t+dt)) on exactly the dofs of those joints in list order, and zero elsewhere. "
     "Default gains and targets are zero, joints of other kinds are rejected, and after the world is rebuilt the controller still acts on the same joints.",
     ["inputs", "configurations"], "all trees, all ordered sub-lists of linear joints (mixed sizes), gains (full matrices), targets, states and dt",
     "tests control one-dof joints with scalar gains in tree order only",
     ["arboris/controllers.py"], [("ProportionalDerivativeController", "arboris/controllers.py")], ["return value of update, closed-loop step"],
     "tolerance 1e-9", technique=T + "reference control law over generated joint lists")

prop("C11", "World bookkeeping: dofs partition the state, joints and world share velocities",
     "After any sequence of adding links, replacing joints, registering objects and initialising, the joints' dof slices are consecutive, disjoint, in depth-first order and cover exactly the world's ndof; the world velocity contains every joint's velocity at its slice and each joint's velocity array is a view of it; model matrices have matching sizes. "
     "Replacing a joint (or a chain) keeps its place in the traversal, keeps every other joint's state and leaves the rest of the tree untouched. "
     "Registering an object twice has no effect beyond the first time, and a second parent for a body, a registered joint or an object of unknown type is refused with an error that leaves the world as it was and the joint of a refused link free for another link; a replacement through a joint in use or a body that has a parent is refused likewise, with the replaced joint in place.",
     ["histories"], "operation sequences of up to 25 construction operations on one world",
     "unit tests build each structure once, in one order",
     ["arboris/core.py"], [("add_link, replace_joint, register, init, JointsList", "arboris/core.py")],
     ["Joint.dof, World.ndof, World.gvel, getjoints(), iterbodies(), ..."], "exact comparison against a reference tree",
     technique=T + "model-based operation sequences against a reference tree")

prop("C12", "Traversal visits every element once, parents first",
     "iterbodies, iterjoints, iterframes, itershapes and the ancestor/descendant iterators enumerate exactly the elements of the tree, each once, depth first with children in insertion order. "
     "parse announces the ground, then reports every link before anything attached to its child, each body, subframe, shape, constraint and controller exactly once, and only links whose parent frame's body was already reported.",
     ["configurations"], "all trees up to 8 links with subframes, moving subframes, shapes on bodies and on subframes, constraints and controllers",
     "no test covers parse; iteration order is only implied by a stored matrix",
     ["arboris/core.py"], [("World.parse, iter* methods", "arboris/core.py")], ["sequence of calls received by the parse target"],
     "exact", technique=T + "reference traversal on generated trees")

prop("C13", "Named lists, naming and uniqueness",
     "Looking up a name in a named list returns the first element with that name (find: all of them, in order), a missing name raises KeyError, positional indexing and slicing work as for a list, as_dict maps every name to its element, ignores unnamed elements and raises the duplicate-name error on duplicates. "
     "name_all_elements names every unnamed element uniquely, never renames a named one, and raises the duplicate-name error exactly when asked to check and two elements share a name, whatever kind of iterable it is given.",
     ["inputs", "histories"], "all lists of named, unnamed and foreign objects up to length 12, with duplicates; lists, tuples and generators",
     "a doctest of three elements; the duplicate error path is never run",
     ["arboris/core.py"], [("NamedObjectsList, DuplicateNameError, name_all_elements", "arboris/core.py")], ["return values, raised errors"],
     "exact", technique=T + "reference list model")

prop("C14", "Collision solvers return the true signed distance and contact frames",
     "For every supported pair of shapes in any poses, the solver returns the signed distance between them (negative when they penetrate), and two contact frames expressed in the ground frame, identically oriented and rigid, whose common z axis is the unit contact normal pointing from the first shape towards the second (a plane of coefficients (a,b,c,d) holds the points with a x + b y + c z = d). "
     "The first frame's origin is on the first shape's surface, the second's on the second's surface, and the second origin is the first displaced by the signed distance along the normal.",
     ["inputs"], "all plane/sphere/point/box pairs: any poses, plane coefficients, extents and radii; separated, touching and penetrating; sphere centre inside, outside near faces, edges and corners of the box (concentric spheres and points within 1e-3 of the box surface excluded as documented)",
     "doctests use axis-aligned shapes at the origin; the box solver is only doctested with identity pose",
     ["arboris/collisions.py"], [("_sphere_sphere_collision, _plane_sphere_collision, _box_sphere_collision", "arboris/collisions.py")],
     ["(sdist, H_gc0, H_gc1)"], "tolerance 1e-9; oracle: independent point-to-convex distances",
     technique=T + "geometric oracle and rigid-motion metamorphic relation")

prop("C15", "Solver choice and contact enumeration treat shapes symmetrically",
     "choose_solver gives, for both orders of any two shapes, either the same contact (same distance, same pair of surface points) or NotImplementedError in both orders, and it supports sphere/sphere, sphere/point, sphere/plane, sphere/box, point/plane and point/box. "
     "get_all_contacts returns exactly one contact for every supported pair of registered shapes attached to different bodies and none for shapes on the same body; distance recording agrees with the solver.",
     ["inputs", "configurations"], "all ordered pairs of shape kinds in all poses; worlds with up to 7 shapes on several bodies",
     "no test calls choose_solver or get_all_contacts with all pairs",
     ["arboris/collisions.py", "arboris/constraints.py"], [("choose_solver", "arboris/collisions.py"), ("get_all_contacts", "arboris/constraints.py")],
     ["returned shapes, solver results, list of contacts"], "tolerance 1e-9", technique=T + "metamorphic order swap, exhaustive pair model")

prop("C16", "Joint limits stop motion at the bound and never pull",
     "In a simulation with a joint limit on a joint, each step in which the limit is active ends with every coordinate of that joint within its bounds if it started within them, with a generalized force that is non-negative when pushing away from the minimum, non-positive at the maximum, and zero on coordinates that end the step strictly inside their bounds. "
     "When no coordinate is within the proximity of a bound or predicted to cross one, the limit applies no force, and it never acts on other joints' dofs. The force it reports is the one it applies in that step.",
     ["inputs", "histories"], "joints of 1 to 3 dofs anywhere in a tree, any bounds, states on either side of either bound, velocities, external forces, dt",
     "tests/test_constraints.py exercises one hinge and one limit",
     ["arboris/constraints.py", "arboris/core.py"], [("JointLimits", "arboris/constraints.py")],
     ["Joint.gpos after the step, JointLimits.gforce"], "tolerance from the solver's convergence threshold (1e-4)",
     technique=T + "complementarity conditions checked on generated worlds and histories")

prop("C17", "Ball-and-socket constraints hold the two points together",
     "After each step with an enabled ball-and-socket constraint, the velocity relative to the first frame of the point of the second body located at the first frame's origin is exactly minus the current position of the second origin in the first frame divided by dt, the one that cancels the separation to first order; hence the points stay together along a simulation up to an error that vanishes with dt. "
     "The constraint force is an equal and opposite pair acting at one point: its generalized force produces no net force or moment on an isolated group of free bodies.",
     ["inputs", "histories"], "two frames on any two bodies of generated trees (including ground), any states, dt; loops and chains of constraints",
     "one test closes one planar loop with fixed numbers",
     ["arboris/constraints.py", "arboris/core.py"], [("BallAndSocketConstraint", "arboris/constraints.py")],
     ["Joint.gvel after the step, Constraint.gforce"], "tolerance 1e-6 for a single constraint, the solver's threshold for several",
     technique=T + "post-step invariant on generated worlds; momentum conservation")

prop("C18", "Soft-finger contacts obey Signorini and the elliptic Coulomb law",
     "At the end of the solution of a contact, the normal force is non-negative and zero when the predicted gap stays open; when pressing, the normal velocity closes the remaining gap within the step. A contact is active exactly when its predicted distance at the end of the step is below its proximity. "
     "The tangential force and torsion lie in the friction cone of the normal force; inside the cone there is no sliding, and when sliding the force is on the cone's boundary and opposes the sliding velocity.",
     ["inputs", "histories"], "sphere, point, box and plane contacts between free or articulated bodies: any poses, approach velocities, friction coefficients (including 0), masses, dt; direct solver inputs with any positive definite admittance",
     "one test drops one ball on a plane",
     ["arboris/constraints.py", "arboris/core.py"], [("SoftFingerContact, PointContact", "arboris/constraints.py")],
     ["contact force, contact velocity, distance"], "tolerance 1e-6 relative at the end of a single-contact solve; multi-contact histories use weaker bounds (solver threshold)",
     technique=T + "complementarity/friction-law validity predicate on generated contacts")

prop("C19", "Constraint forces enter the dynamics consistently and only when active",
     "After update_constraints the world generalized force is the controllers' force plus the sum over enabled, active constraints of jacobian-transpose times force, and the solver's velocities agree with the velocity the step then produces. "
     "Disabled constraints, and contacts farther than their proximity, change nothing; disabling and re-enabling restores the behaviour; internal constraints between bodies conserve total momentum.",
     ["inputs", "histories"], "generated worlds with several constraints of all kinds, enabled and disabled along a history of steps",
     "no test has two constraints in one world nor disables one",
     ["arboris/core.py", "arboris/constraints.py"], [("World.update_constraints", "arboris/core.py")],
     ["World.gforce, World.gvel, Constraint.gforce"], "tolerance 1e-8 relative; solver threshold where velocities are compared",
     technique=T + "metamorphic (with/without constraint) and balance relations over histories")

prop("C20", "Mass matrices: primitives, transport, principal frame, recogniser",
     "The mass matrices of box, ellipsoid, cylinder and sphere are the integrals of the homogeneous solid's density; transport to another frame preserves kinetic energy, composes with changes of frame and is undone by the inverse. "
     "principalframe returns a rigid (right-handed, orthonormal) frame in which the mass matrix is diagonal and whose origin is the centre of mass, for every valid mass matrix. "
     "ismassmatrix accepts every valid mass matrix (semi-definite ones only when asked) and rejects matrices of another shape, asymmetric, indefinite or negative ones, and those whose translational block is not a multiple of the identity. None of this depends on the unit of mass.",
     ["inputs"], "all dimensions and masses; all positive (semi-)definite mass matrices including repeated principal moments, expressed in any frame",
     "doctests use diagonal matrices and one translation",
     ["arboris/massmatrix.py"], [("box, ellipsoid, cylinder, sphere, transport, principalframe, ismassmatrix", "arboris/massmatrix.py")],
     ["return values"], "tolerance 1e-9 (1e-7 for principal frames of nearly repeated moments)",
     technique=T + "quadrature-free integral oracle, energy invariance, round trips")

prop("C21", "Loggers save exactly what the simulation went through",
     "For every combination of options and both file formats, the saved timeline, joint positions and velocities, model matrices and transforms equal, step by step, the values of the simulated world at the time of recording, under the documented names and shapes. "
     "Chaining the non-flat (joint) transforms along the tree gives the flat (body) transforms, pickle and HDF5 files hold the same data, a pickle logger used for a second simulation, of the same world or of another, records that one only, the HDF5 logger is done with its file at the end, and logging does not change the simulation. "
     "What is saved under a name belongs to the element of that name: a simulation whose saved elements share a name is refused, any other is accepted.",
     ["inputs", "configurations", "histories"], "all trees up to 4 links, option combinations, named and unnamed elements, moving frames, HDF5 groups, 2 to 8 steps",
     "no test reads a saved file back; HDF5 state and model options are never used",
     ["arboris/observers.py"], [("SaveLogger, PickleLogger, Hdf5Logger", "arboris/observers.py")], ["contents of the written files"],
     "exact (bitwise) comparison of recorded values", technique=T + "round trip through files against an independent recorder")

prop("C22", "Recorders return the observed quantity at every step",
     "Each recorder (joint position, joint velocity, frame pose, frame twist, constraint force, shape distance, centre of mass) returns a list with one entry per simulated step holding the value the quantity had at that step, unaffected by later steps, and starts afresh for each simulation. "
     "The performance monitor counts one computation time per step.",
     ["inputs", "histories"], "generated worlds, all recorder kinds at once, 1 to 8 steps, repeated simulations",
     "recorders have no tests",
     ["arboris/observers.py"], [("_Recorder and subclasses, PerfMonitor", "arboris/observers.py")], ["get_record()"],
     "exact", technique=T + "differential against a probe observer")

prop("C23", "The simulation driver executes the documented schedule",
     "simulate starts at the first time of the timeline, initialises the world and then the observers, and for each following time computes dynamics, controllers, constraints, then calls every observer once, in the order given (before the state moves), then integrates; afterwards every observer is finished exactly once. "
     "It is deterministic, equals the hand-written loop over the same timeline, can be split at any time into two runs with the same final state, accepts observers as list or dict, and regular and irregular timelines alike.",
     ["histories", "inputs"], "generated worlds with controllers and constraints, irregular timelines up to 12 steps, any split point, 0 to 14 observers",
     "tests call simulate as a black box and never compare schedules",
     ["arboris/core.py"], [("simulate, World.init", "arboris/core.py")], ["calls received by observers/controllers, final state"],
     "exact event order; states bitwise equal", technique=T + "event-trace oracle, split/replay metamorphic relations")

prop("C24", "Energy monitor reports true energies; free motion does not create energy",
     "The energy monitor records, at each step, the kinetic energy of all bodies, the gravitational potential energy of all centres of mass along world up (9.81 m/s2), their sum and the time, for worlds with any bodies including massless ones. "
     "Simulating without actuation, the change of mechanical energy over a fixed duration vanishes as the time step is refined, and viscous worlds lose energy.",
     ["inputs", "histories"], "generated worlds and states; step refinement",
     "tests/test_energy_drift.py (not part of the reliable tests) simulates one robot",
     ["arboris/observers.py", "arboris/core.py"], [("EnergyMonitor", "arboris/observers.py")], ["time, kinetic_energy, potential_energy, mechanichal_energy"],
     "values 1e-9 relative; drift: first-order decrease under step halving with margin", technique=T + "reference energies, convergence-order relation")

prop("C25", "Centre-of-mass observer: position, jacobian and derivative",
     "For any set of bodies with some mass, the observer's centre-of-mass position is the mass-weighted mean of the bodies' centres of mass in the ground frame, its jacobian maps the world velocity to the velocity of that point, and its djacobian is the jacobian's time derivative, so that acceleration = J dv + dJ v. "
     "Massless bodies do not count, the list order is irrelevant, and each update reflects the current state only.",
     ["inputs", "configurations"], "generated trees and states, any non-empty selection of bodies, off-centre and rotated mass distributions",
     "no test of the observer's jacobians",
     ["arboris/observers.py"], [("CoMObserver, RecordCoMPosition", "arboris/observers.py")], ["get_CoMPosition/Jacobian/dJacobian"],
     "tolerance 1e-8", technique=T + "reference model differential")

prop("C26", "Arm, snake and simple-shape factories build the robot described",
     "add_simplearm, add_snake and add_sphere/box/cylinder/groundplane add bodies whose masses, centres of mass and inertias follow from the given dimensions, connected end to end by joints of the documented kind, named with the given prefix, with the requested initial state, and ready to simulate; the end effector lies at the sum of the lengths in the zero configuration. "
     "Building two robots in one world gives two independent mechanisms.",
     ["inputs", "configurations"], "all lengths, masses, initial states, number of bodies, fixed or free base, with and without shapes",
     "tests use default parameters",
     ["arboris/robots/simplearm.py", "arboris/robots/snake.py", "arboris/robots/simpleshapes.py"],
     [("add_simplearm, add_snake, add_sphere, add_box, add_cylinder, add_groundplane", "arboris/robots")], ["the built world"],
     "tolerance 1e-9", technique=T + "reference construction")

prop("C27", "The human model scales with height and mass and is laterally symmetric",
     "For every height and mass, the anatomical lengths are consistent with the height, the model's total mass is the given mass, its bodies, joints and landmarks are those documented with the given prefix, and it stands upright in the initial configuration with the feet on the ground and the top of the head at the given height. "
     "Lengths and positions scale as the height, masses as the mass and generalized inertia as mass times length squared; left and right sides mirror each other in position and mass; modified anatomical lengths move only what depends on them and unequal legs are refused.",
     ["inputs"], "heights 0.5..2.5, masses 1..200, perturbed anatomical lengths, prefixes, one or two humans per world",
     "stored values for one human at one size",
     ["arboris/robots/human36.py"], [("anat_lengths_from_height, height_from_anat_lengths, add_human36", "arboris/robots/human36.py")], ["the built world"],
     "tolerance 1e-9", technique=T + "scaling, mirror and prefix metamorphic relations")

prop("C28", "The iCub model is the tabulated robot, whatever the options",
     "For every combination of options the iCub has the tabulated bodies, one hinge per tabulated joint connecting the tabulated pair at the tabulated frame, masses that add up to the tabulated masses at the tabulated places, and a free root exactly when not fixed. "
     "Shapes and contact frames appear exactly when requested, at the tabulated places; joint and torque limits cover exactly the joints, in degrees or radians; left and right sides have equal masses and mirrored shapes.",
     ["configurations", "inputs"], "all option combinations, random joint configurations",
     "no test imports the iCub model's data",
     ["arboris/robots/icub.py"], [("add, get_*_data, get_joint_limits, get_torque_limits", "arboris/robots/icub.py")], ["the built world, returned tables"],
     "tolerance 1e-9; level: consistency of the built world with the module's own tables and mirror symmetry",
     technique=T + "table-driven reference construction and symmetry")

prop("C29", "Simulated motion does not depend on modelling conventions",
     "Two descriptions of the same mechanism give the same motion: moving the body frame within a body, changing the order in which siblings are added, replacing a multi-dof joint by its chain of elementary hinges with massless bodies, splitting a rigid body into parts welded by fixed joints, adding massless welded bodies or unused frames. "
     "Without gravity, rigidly displacing the whole mechanism displaces its motion; describing the mechanism in other units of length, mass and time gives the same motion in these units, as a mirror image gives the mirrored one.",
     ["inputs", "histories"], "generated trees and states, each with a random re-description, simulated several steps",
     "no test compares two models",
     ["arboris/core.py", "arboris/joints.py"], [("World.update_dynamic, integrate, replace_joint", "arboris/core.py")], ["body poses and twists along the simulation"],
     "tolerance 1e-7 over up to 6 steps, ill-conditioned mass matrices excluded", technique=T + "metamorphic relations between equivalent models")

prop("C30", "Drawing a world places every element at its absolute pose",
     "Drawing a world through a driver, flat or hierarchical, creates one transform node per body and subframe whose composed absolute transform is the frame's pose, marks as movable exactly those that can move (and tells which node each joint and moving subframe moves), and attaches every shape and inertia with its name and dimensions to its own frame's node. "
     "Colours are the ones set for the object or its name, else those of its body, distinct bodies get distinct palette colours until the palette is exhausted, and hsv_to_rgb matches the standard conversion. The default graphic sizes are proportional to the scale, and the options given replace them for that driver only.",
     ["inputs", "configurations"], "generated worlds with subframes, moving subframes and shapes of all kinds; flat and hierarchical; all hsv triples",
     "the visu tests need a missing dependency and compare nothing",
     ["arboris/visu/world_drawer.py"], [("Drawer, DrawerDriver, ColorGenerator, hsv_to_rgb", "arboris/visu/world_drawer.py"), ("World.parse", "arboris/core.py")],
     ["calls received by a recording driver"], "tolerance 1e-9; the drawer module is loaded on its own when the visu package's optional dependencies are missing",
     technique=T + "recording driver against reference poses")

prop("C31", "Collada scenes and animations hold the world and its motion",
     "A written collada scene can be read back and contains, for every named body and frame, a node with its name whose composed matrix is its pose, below the right parent in flat and hierarchical mode, even when shapes share names with frames; "
     "every shape with its name, size, place and colour, every mass matrix as a rigid body, and no identifier twice; the document follows the format (references resolve, counts and indices are right). "
     "Moving frames sharing a name are refused; otherwise the node of a name is that of the moving frame of this name, whatever else has it. "
     "A collada animation built from a saved simulation contains exactly one channel per recorded transform targeting the node of the same name, with the saved times and matrices to the requested precision, "
     "so that a scene animated with a simulation's log goes through the simulated poses of all frames. Meshes added to a scene from other collada files appear on the frame asked for, with the given transform and scale, and leave the rest as it was. A line a driver is asked to draw goes from its start to its end.",
     ["inputs", "configurations"], "generated worlds and simulations, flat and hierarchical, both writers, pickle and HDF5 sources, groups, precisions, options, names that clash; generated mesh files",
     "the only visu test needs pydaenim and opens a viewer",
     ["arboris/visu/dae_writer.py", "arboris/visu/visu_collada.py", "arboris/visu/world_drawer.py"], [("write_collada_scene, write_collada_animation, add_shapes_to_dae, pydaenimColladaDriver", "arboris/visu/dae_writer.py"), ("DaenimColladaDriver", "arboris/visu/visu_collada.py")],
     ["written files, parsed back"], "tolerance 1e-5 (single precision in places); the optional pydaenim dependency is replaced by a stub; mesh files have geometry identifiers of their own",
     technique=T + "file round trip (own collada reader on ElementTree) against reference poses")

prop("C32", "URDF import builds the mechanism the file describes",
     "Loading a URDF file yields one body per link and one joint per joint with the described parent, child, placement, type and axis, so that for every joint configuration all link poses are those of the URDF kinematics; body masses, centres of mass and inertias, collision shapes and joint limits are those of the file. "
     "Prefix and suffix are applied to every name, the base is free or fixed as requested at the given placement, and the limit tables list every joint that has limits.",
     ["inputs", "configurations"], "generated URDF trees with revolute, prismatic, fixed and floating joints, arbitrary axes, origins, inertials (or none), collision geometry, limits (or none), prefixes",
     "no test loads a URDF",
     ["arboris/robots/urdf/__init__.py", "arboris/robots/urdf/urdf_parser.py"], [("URDFConverter, to_arboris", "arboris/robots/urdf/__init__.py"), ("URDF parser", "arboris/robots/urdf/urdf_parser.py")],
     ["the built world, get_joint_limits, ..."], "tolerance 1e-9 (pose), 1e-6 (inertia floor)", technique=T + "generated documents against an independent URDF interpreter")


prop("C33", "Live viewers receive the state of the world at every step",
     "During a simulation, the viewer observers send once per step the transform of every movable frame (with the current time, for the web viewer), under the names of the collada scene and in its flat or hierarchical convention, so that the scene shows the simulated pose of every frame; "
     "the viewer is started on the scene with the address it has to connect to (another port when the one asked for is taken), is told of the end, and a missing or closed viewer never stops the simulation.",
     ["inputs", "configurations", "histories"], "generated worlds and simulations, flat and hierarchical, named or not, viewers present, absent, or leaving",
     "no test uses these observers",
     ["arboris/visu/visu_collada.py", "arboris/visu/__init__.py", "arboris/observers.py"], [("DaenimCom, view", "arboris/visu/visu_collada.py"), ("pydaenimCom, view", "arboris/visu/__init__.py"), ("SocketCom", "arboris/observers.py")],
     ["bytes received on a loopback socket, messages given to a fake websocket, arguments of the viewer"], "the viewers are stand-ins", technique=T + "recording viewer against the poses of the world")

prop("C34", "An argument left out means its documented default; by position or by keyword means the same",
     "For every constructor, robot factory, writer and option of the public interface (joints, bodies, subframes, shapes, controllers, constraints, get_all_contacts, update_constraints, simulate, loggers and observers, drawers and colour generators, collada writers, URDF import, arm, snake, simple shapes, human36, iCub), leaving optional arguments out has exactly the effect of passing their documented defaults, whichever subset is left out, "
     "and giving arguments by position, in the documented order, has the effect of giving them by keyword. Each call builds things of its own: overwriting what an earlier call returned does not change what later calls do.",
     ["inputs", "configurations"], "over 50 callables, all subsets of their optional arguments, all positional prefixes, generated values of the arguments given, generated worlds",
     "the tests call each function in one way; a changed default or a swapped parameter shows only to callers who rely on it",
     ["arboris/core.py", "arboris/joints.py", "arboris/shapes.py", "arboris/constraints.py", "arboris/controllers.py", "arboris/observers.py", "arboris/robots/snake.py", "arboris/robots/simplearm.py", "arboris/robots/simpleshapes.py", "arboris/robots/human36.py", "arboris/robots/icub.py", "arboris/robots/urdf/__init__.py", "arboris/visu/world_drawer.py", "arboris/visu/dae_writer.py", "arboris/visu/visu_collada.py"],
     [("signatures and docstrings", "arboris/")],
     ["public attributes of what is built, forces, activity of constraints, files written"], "metamorphic: two calls, compared through public attributes and outputs; the defaults are pinned in the check", technique=T + "metamorphic relation between calls (omitted/positional against explicit/keyword)")

prop("C35", "The Matlab export describes the same mechanism",
     "For a robot with a free root joint and hinges, matlab/convert_py2mat.py writes a well-formed Matlab file whose tree has every link once, under its parent, with the joint axis, attachment frames, mass matrix (translation first) and shapes of that body, and whose model has the root pose, coordinates and velocities (translation first for the root) in the order of its links, so that forward kinematics of the file gives the poses of the world; other robots are refused with GenerationError and leave no complete file. "
     "MatlabConverter turns any robot of hinges and multi-axis rotational joints into such a robot by splitting joints into chains that allow the same motions, with named parts and only light bodies in between, and by putting a base with a free joint under a robot attached otherwise. "
     "The generated simulation has the instants of an equally spaced timeline and the gravity of the weight controller; unequal spacing, several robots, constraints, other controllers or two weight controllers are refused.",
     ["inputs", "configurations"], "generated trees of up to 8 links with branches, frames, masses, shapes, named and unnamed bodies, joint states and timelines",
     "nothing runs this module, and its doctests call it without looking at the file",
     ["matlab/convert_py2mat.py"], [("MatlabConverter", "matlab/convert_py2mat.py"), ("MatlabRobotGenerator, MatlabSimulationGenerator", "matlab/convert_py2mat.py")],
     ["the text written, read back with a small independent reader; the world after conversion"], "no Matlab is run; ground shapes and planes are outside the domain", technique=T + "round trip through an independent reader, forward kinematics of the file against the world")

prop("C36", "Joints written by a user on the abstract classes take part like those of the library",
     "A joint derived by the user from Joint or LinearConfigurationSpaceJoint (any number of degrees of freedom, pose and jacobian depending on all its coordinates, configurations that need not be vectors) takes part in a world as the joints of the library do, in any mixture with them and in any place of the tree: forward kinematics with velocities, mass, viscosity and Coriolis matrices, the layout of the dofs, the equation of the time step, the joint's own integration, gravity, controllers, limits, contacts, replacement, logs and monitors. "
     "In particular a user's copy of a joint of the library can be exchanged with it without any visible effect on a simulation.",
     ["inputs", "configurations", "histories"], "random trees mixing the user's joints (products of exponentials of arbitrary screws, subgroups of the displacements) with the library's, states, histories, forces, controllers, limits, contacts, replacements",
     "the tests only use the joints of the library, mostly with one degree of freedom, so code that takes some class or some property of theirs for granted passes",
     ["arboris/core.py", "arboris/joints.py", "arboris/constraints.py", "arboris/controllers.py", "arboris/observers.py", "arboris/rigidmotion.py"],
     [("Joint, LinearConfigurationSpaceJoint", "arboris/core.py"), ("World.update_dynamic, integrate, replace_joint, init", "arboris/core.py")],
     ["Body, Frame and World attributes, trajectories, logs"], "generated search against an independent multibody model, and metamorphic comparison of twin simulations; the screws of the user's joints have numbers of order one",
     technique=T + "differential testing against an independent multibody model; metamorphic relation between twin worlds")


prop("C37", "The kind of numbers and sequences of an argument changes nothing",
     "Numbers given as Python integers, numpy integers or floats, and vectors and matrices given as arrays of integers, as non-contiguous, Fortran-ordered or read-only arrays (and lists or tuples where any sequence is accepted) mean what the same values in an ordinary array of floats mean: for the functions on rotations, displacements, adjoints, twists and mass matrices, for joints, frames, bodies, controllers, constraints, shapes, collision solvers, robots and drawings, and for timelines. "
     "In particular nothing is rounded to an integer, then or later: coordinates, velocities, gains and targets that were given as integers can be set to, and are integrated to, any real value. "
     "The arguments are left unchanged.",
     ["inputs", "configurations"], "generated integer-valued arguments in eleven kinds, to about sixty functions and classes; worlds with simulations of up to 3 steps",
     "the tests use literals of one kind for each function",
     ["arboris/homogeneousmatrix.py", "arboris/twistvector.py", "arboris/adjointmatrix.py", "arboris/massmatrix.py", "arboris/joints.py", "arboris/core.py", "arboris/controllers.py", "arboris/constraints.py", "arboris/shapes.py", "arboris/collisions.py", "arboris/robots", "arboris/visu/world_drawer.py"],
     [("constructors and functions taking numbers", "arboris")],
     ["results, public attributes, trajectories, calls received by a drawer's driver"], "metamorphic: the same call with float arrays and with another kind, results equal up to rounding, arguments compared with copies", technique=T + "metamorphic relation between calls with arguments of different kinds")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, "checks", p["pid"].lower() + ".py"))
        if p["claimed"] and have:
            checks.append({"property": p["pid"], "quick_cmd": "./check.sh " + p["pid"],
                           "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["pid"],
                           "technique": p["technique"], "level": "exploration",
                           "level_note": p["note"]})
        else:
            na.append({"property": p["pid"], "reason": p["reason"] or "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo. Checks import arboris from /repo's working tree. check.sh <ID> --replay FILE re-runs one shrunk case."},
                  f, indent=1)


main()
