"""Writes properties.jsonl (kept as a program so that the long lines stay readable)."""
import json
import os

W, EN, BO, CN, CT, FO, UT = ('lcp_physics/physics/%s.py' % n for n in
                             ('world', 'engines', 'bodies', 'constraints', 'contacts', 'forces', 'utils'))
LCP, PD = 'lcp_physics/lcp/lcp.py', 'lcp_physics/lcp/solvers/pdipm.py'
ENC, RB = 'experiments/breakout/encoder.py', 'experiments/breakout/run_breakout.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


# ------------------------------------------------------------------ stepping
prop('S01', 'A step moves bodies for exactly the time the clock advances',
     "After a step without post-stabilization every body's position and orientation is its old one plus its new "
     "velocity times the advance of the world's clock. That advance is the requested time step, or the first of "
     "its halves, quarters, eighths ... for which the bodies so moved do not overlap by more than the world's tolerance "
     "(unless a world that is not strict gives up, see S04).",
     ['inputs', 'histories', 'configurations'],
     'every world, every sequence of steps, every outcome of the trials inside a step',
     'The demo tests run a few scenes and assert nothing about time or positions; which trial is accepted depends on '
     'the sequence of overlaps met, and no test meets a retried step on purpose.',
     [W, BO], [('the trial loop of step_dt', W), ('move', BO)],
     ['World.t', 'Body.p', 'World.v'],
     [('t', "the world's clock", W), ('p', 'orientation and position of a body', BO)])
prop('S02', 'A rejected trial leaves nothing behind',
     'When a trial inside a step is rejected, the next one starts from exactly the state before the step: positions, '
     'orientations, hull vertices, collision proxies, joint angles and anchors. A step that had to be retried ends in the '
     'same state as one that is asked for the finally accepted time at once with the same new velocities.',
     ['histories', 'inputs', 'configurations'],
     'every number of rejected trials, every kind of body and joint, every sequence of steps',
     'Needs a rejected trial in a world with joints and rotated hulls; the tests never compare a retried step with anything.',
     [W, BO, CN], [('reset to the start of the step in step_dt', W), ('set_p', BO), ('update_pos', CN)],
     ['Body.p', 'Hull.verts', 'Joint.pos', 'Joint.pos1', 'Joint.pos2', 'World.contacts'],
     [('start_p', 'positions at the start of the step', W), ('start_rot_joints', 'joint angles at the start of the step', W)])
prop('S03', 'Strict worlds never end a step with interpenetration',
     'In a world with strict non-penetration and without post-stabilization, no two bodies that are not excluded from '
     "contact with each other overlap by more than the world's tolerance at the end of a step. This holds for circles, "
     'rectangles and convex hulls, however fast they move and whatever happened before.',
     ['inputs', 'histories', 'configurations'],
     'every strict world that starts without overlap and every sequence of steps',
     'The demos have no overlap oracle at all; hulls with unusual shapes or offsets do not occur in them.',
     [W, CT], [('acceptance test of step_dt', W), ('contact detection', CT)], ['Body.p', 'Hull.verts'],
     [('tol', 'penetration tolerance', W)])
prop('S04', 'How long a step keeps retrying',
     'A world without strict non-penetration accepts a trial at the latest when the time tried has fallen below a quarter of '
     "the world's time step, even if bodies still overlap, so each of its steps returns. A strict world accepts no "
     'trial that overlaps by more than the tolerance and returns with the first one that does not; if there is a gap between '
     'all bodies when the step starts, there is such a trial.',
     ['histories', 'configurations'],
     'every pattern of overlap over the trials of a step, both modes, fixed and variable time steps',
     'Depends on patterns of repeated rejection which no test produces.',
     [W], [('trial loop of step_dt', W)], ['World.step', 'World.t'],
     [('strict_no_pen', 'whether overlapping trials may be accepted', W)])
prop('S05', 'All views of the state agree after every change',
     "After each step and each assignment of velocities or positions through the world, its stacked velocity vector and the "
     "bodies' own velocities agree, a body's orientation and position agree with its generalized position, and its collision "
     "proxy is where the body is. After each step the contact list is the one of the bodies' present configuration.",
     ['histories', 'inputs'],
     'every sequence of steps, velocity and position assignments, with all kinds of bodies and either contact handler',
     'The same quantity is stored in four places that must be updated together; the tests read one of them.',
     [W, BO], [('set_v and set_p', W), ('set_p of the bodies', BO)],
     ['World.v', 'Body.v', 'Body.p', 'Body.pos', 'Body.rot', 'Body.geom', 'World.contacts'],
     [('v', 'stacked velocities, sliced into the bodies', W), ('geom', "the body's proxy in the broad phase", BO)])
prop('S06', 'A strict world refuses to start with interpenetration',
     'Creating a strict world fails if and only if two bodies that are not excluded from contact overlap by more than the '
     'tolerance. A world that is not strict is created in either case.',
     ['inputs', 'configurations'],
     'every pair of shapes in every relative placement, with and without exclusion',
     'No test creates an overlapping world.',
     [W, CT], [('the check at the end of the constructor', W)], ['World()'])
prop('S07', 'A fixed time step ends exactly at its target time',
     'A step with a fixed time step advances the clock by exactly the time step, up to rounding, by as many smaller steps as it '
     'takes. Each of them asks for what is left to the target, solves for velocities anew at the clock it has reached, and '
     'none passes the target.',
     ['histories', 'configurations'],
     'every pattern of rejected trials in every sub-step, every start time and time step',
     'Fixed steps are used by the Breakout experiment only; no test runs one.',
     [W], [('step', W)], ['World.step(fixed_dt=True)', 'World.t'])
prop('S08', 'Post-stabilization corrects positions and nothing else',
     'With post-stabilization on, a step ends with the same velocities and the same clock as with it off. Its only effect is to '
     'move the bodies, for the accepted time, along half of the correction that the engine computed for the accepted '
     'configuration, and to refresh joints and contacts.',
     ['histories', 'configurations', 'inputs'],
     'every world, engine correction and number of rejected trials',
     'Post-stabilization is off by default and no test turns it on.',
     [W, EN], [('post-stabilization branch of step_dt', W), ('post_stabilization', EN)],
     ['World.v', 'World.t', 'Body.p', 'World.contacts'])
prop('S09', 'Stabilizing corrections are least-effort and satisfy every constraint',
     'The correction of the engine is the one of least kinetic energy that cancels the velocity the bodies have along '
     'joint constraints and changes the normal velocity of every contact by no less than minus the part of it that '
     'restitution does not cover. '
     'Where joints and contacts already are at rest it is zero.',
     ['inputs', 'configurations'],
     'every set of bodies, velocities, joints and contacts',
     'No test runs post-stabilization.',
     [EN], [('post_stabilization', EN)], ['Engine.post_stabilization'])
# ------------------------------------------------------------------ dynamics
prop('D01', 'Free bodies follow semi-implicit Euler exactly',
     'A body without joints or contacts gets, in every step, its old velocity plus force times time step over mass (torque '
     'over moment of inertia for the rotation) as its new velocity. What other bodies are in the world, how many, and in which order makes no '
     'difference to it.',
     ['inputs', 'histories'],
     'every mass, shape, velocity and force, every number and order of bodies',
     'No test compares a trajectory with anything.',
     [EN, W], [('solve_dynamics without contacts', EN)], ['Body.v', 'Body.p'])
prop('D02', 'The force on a body is the sum of its forces at the current time',
     'In each step every body is acted upon by the sum of the forces attached to it and no others, evaluated at the clock '
     'value at which the step begins. Gravity pulls down with mass times g at all times, the impulse forces act along their own axis '
     'while the clock is below 0.1 and not from then on, and a multiplier scales a force in proportion.',
     ['inputs', 'histories'],
     'every set of forces on every body, at all times around the switching time, sharing of force functions',
     'The demos attach forces but check nothing.',
     [FO, BO, W], [('apply_forces', BO), ('force', FO)], ['Body.apply_forces', 'Body.v'])
prop('D03', 'Joints and constraints hold for the new velocities',
     'After every velocity update the two bodies of a revolute joint have the same velocity at its anchor, those of a fixed '
     'joint also the same angular velocity, and a body under a coordinate constraint has zero velocity in that '
     'coordinate. This holds with and without contacts and forces, and when the old velocities violated it.',
     ['inputs', 'configurations', 'histories'],
     'every acyclic assembly of bodies, joints and constraints, with every velocity, force and contact',
     'The demos have joints but no test looks at velocities.',
     [EN, CN, W], [('J of each joint', CN), ('Je', W), ('solve_dynamics', EN)], ['World.v', 'Body.v'])
prop('D04', 'Joint reactions act only along the joint, and equally on both bodies',
     'Without contacts, the change of momentum in a velocity update is the impulse of the applied forces plus reaction '
     'impulses which act at the joint anchors, equal and opposite on the two bodies, and for coordinate constraints only in '
     'the constrained coordinate. So the update is the one closest to free motion, in kinetic energy, that satisfies the joints.',
     ['inputs', 'configurations'],
     'every acyclic assembly of bodies, joints and constraints, every velocity and force',
     'No test compares momenta.',
     [EN, CN, W], [('solve_dynamics', EN), ('J of each joint', CN)], ['World.v'])
prop('D05', 'Contacts push, never pull, and separate by restitution',
     'After a velocity update the two bodies at a contact point separate at least at the mean of their restitution '
     'coefficients times the speed at which they approached. Contact impulses act along the contact normal pushing the '
     'bodies apart (friction aside), equal and opposite on the two, and there is none at a contact that separates faster than that.',
     ['inputs', 'configurations', 'histories'],
     'every set of contacts among bodies of every mass, shape, restitution, velocity, with joints and forces; except where joints and contacts contradict each other or jam under friction, so that no velocities obey the laws',
     'The demos have contacts, but no test checks a velocity after an impact.',
     [EN, W, LCP, PD], [('assembly of the LCP', EN), ('Jc and restitutions', W)], ['World.v', 'World.contacts'])
prop('D06', "Friction obeys Coulomb's law",
     'The tangential impulse at a contact is at most the mean friction coefficient of the two bodies times the normal '
     'impulse. Where the surfaces still slide after the update it has exactly that size and opposes the sliding; where it is '
     'smaller the surfaces stick; without friction there is none.',
     ['inputs', 'configurations', 'histories'],
     'every contact set, friction coefficient, velocity, force and spin; except where joints and contacts contradict each other or jam',
     'No test measures friction.',
     [EN, W], [('assembly of the LCP', EN), ('Jf, mu and E', W)], ['World.v', 'World.contacts'])
prop('D07', 'Isolated bodies conserve momentum',
     'Among bodies without external forces and not held by single-body constraints, joints and contacts change neither the total linear momentum nor, '
     'in a velocity update, the total angular momentum about any point (which friction keeps up to the width of the gap it acts across).',
     ['inputs', 'histories', 'configurations'],
     'every group of bodies with any joints, contacts, friction and restitution, over every history',
     'No test adds up momenta.',
     [EN, W, CN, CT], [('action and reaction rows of Je, Jc and Jf', W)], ['World.v'])
prop('D08', 'Contacts and joints never create energy',
     'Without external forces, a velocity update does not increase the total kinetic energy if restitution is zero, or if there is no '
     'friction, all restitution coefficients are equal and at most one, and the old velocities obey the joints; with restitution '
     'one it keeps it then.',
     ['inputs', 'histories', 'configurations'],
     'every group of bodies, joints and simultaneous contacts that meets the premise',
     'No test measures energy.',
     [EN, W], [('assembly of the LCP', EN)], ['World.v'])
prop('D09', 'A constrained coordinate never moves',
     'A coordinate of a body that a constraint holds (x, y, rotation or all of them) keeps its value over any number of '
     'steps, up to rounding, whatever pushes the body, and the other coordinates of the body stay free to move.',
     ['histories', 'inputs', 'configurations'],
     'every constraint kind, forces, impacts and spins, long histories',
     'The demos use constraints without checking them.',
     [CN, EN], [('J of the constraints', CN)], ['Body.p'])
prop('D10', 'Joint anchors stay attached to their bodies',
     "Throughout a simulation a revolute joint's anchor is the same point of its first body, carried along by that body's "
     "position and rotation, and each lever arm is the anchor's position relative to that body. The joint's other body "
     'keeps the anchor fixed to itself up to an error of the order of the time step; fixed joints keep relative '
     'position and angle likewise.',
     ['histories', 'inputs'],
     'every pair of bodies and anchor, every motion, every history of retried steps',
     'No test reads a joint after a step.',
     [CN, W], [('move and update_pos', CN)], ['Joint.pos', 'Joint.pos1', 'Joint.pos2'],
     [('rot1, rot2', 'angles of the anchor in the frames of the two bodies', CN)])
prop('D11', 'What an engine remembers never changes what it computes',
     'An engine that has been used for any number of steps computes the same new velocities and corrections as a fresh one '
     'for the same state of the world. This holds when contacts come and go and whether or not the joints move.',
     ['histories', 'configurations'],
     'every history of steps with and without contacts, every set of joints',
     'Needs a second engine and a history; no test has either.',
     [EN, W], [('cached_inverse and static_inverse', EN)], ['Engine.solve_dynamics', 'Engine.post_stabilization'],
     [('cached_inverse', 'factorization kept between steps', EN), ('static_inverse', 'whether the joints never move', W)])
prop('D12', 'The laws are the same in every place, direction and orientation',
     'If a whole scene (positions, orientations, velocities, forces, joints) is shifted, rotated or mirrored, its '
     'contacts and the velocities the step computes are shifted, rotated or mirrored likewise. Listing the bodies in '
     'another order only renumbers the result.',
     ['inputs', 'configurations'],
     'every scene and every shift, rotation, reflection and order, where the result is unique',
     'Metamorphic relation between two runs; tests make single runs.',
     [EN, W, CT], [('contact detection', CT), ('Jacobians', W)], ['World.v', 'World.contacts', 'Body.p'])
prop('D13', 'Simulations are reproducible and independent of each other',
     'Building the same world twice and stepping both gives the same history up to rounding, whatever other worlds and solvers were '
     'used before or in between, and whatever the state of the random number generators. Worlds with different bodies share no state.',
     ['histories', 'schedules'],
     'every interleaving of steps of several worlds',
     'The tests use one world at a time and never repeat one.',
     [W, CT, PD, EN, FO], [('module level state: factor_kkt_eye, default arguments', PD)], ['World.step'])
# ------------------------------------------------------------------ contacts
prop('C01', 'Contacts of two circles',
     'Two circles have a contact if and only if the gap between them is at most the detection distance, and then exactly one: its normal is the '
     'unit vector from the second center to the first, its penetration the sum of the radii minus the distance of the '
     'centers, and its point lies on that line midway between the two surfaces, given relative to each center.',
     ['inputs'], 'all radii, centers (not coinciding) and detection distances',
     'The demos only show a few placements and check none.',
     [CT], [('circle vs circle', CT)], ['World.contacts'])
prop('C02', 'Contacts of a circle and a hull',
     'A circle and a convex hull have a contact if and only if the gap between them is at most the detection distance, and '
     "then exactly one: at the hull's point closest to the circle's center, with the normal through the center and with the "
     'true penetration depth; if the center lies inside the hull, at the hull edge of least depth. The order of the two '
     'bodies only reverses the sign of the normal and swaps the points.',
     ['inputs'], 'every strictly convex hull, circle and relative placement, including centers on edges and in vertices\' regions',
     'Test placements are few; the closest-point search has many branches, chosen by chance.',
     [CT], [('GJK and SAT for circle vs hull', CT)], ['World.contacts'])
prop('C03', 'Contacts of two hulls',
     'Two convex hulls that overlap always have a contact, hulls that are further apart than the detection distance none. '
     'The normal is perpendicular to an edge of one of them along which the overlap is least, pointing from the second to the '
     'first; the deepest contact has exactly that least overlap as its penetration, and the contacts are the ends of the '
     'stretch in which the other hull faces that edge.',
     ['inputs'], 'all pairs of strictly convex hulls in all relative placements and orientations, and both orders',
     'Test hulls are two rectangles and a triangle in a few placements.',
     [CT], [('test_separations, get_incident_edge, clip_segment_to_line', CT)], ['World.contacts'])
prop('C04', 'Every pair that may touch is examined, every excluded pair never',
     'Contacts are reported for exactly those pairs of bodies that are close enough and not excluded from contact with each '
     'other, and each such pair is examined once. An exclusion works in both directions, for the named pair only, '
     'and whether it is made before or after the world is created.',
     ['configurations', 'histories'],
     'every number of bodies and pattern of exclusions and touching pairs',
     'Tests have few bodies and do not look at the contact list.',
     [CT, BO, W], [('add_no_contact', BO), ('space.collide', W), ('collision proxies', BO)], ['World.contacts', 'Body.add_no_contact'],
     [('no_contact', 'proxies excluded from contact', BO)])
prop('C05', 'Contacts depend on the present configuration only',
     'The contacts found for a configuration are the same however it was reached: they do not depend on earlier '
     'configurations, on earlier contact searches, on random choices, or on the direction from which the bodies came.',
     ['histories', 'schedules'],
     'every history of configurations before the present one and every state of the random generator',
     'The search starts from what it found last and from a random vertex; tests run one history.',
     [CT, BO], [('last_sat_idx', CT), ('random start of GJK', CT)], ['World.contacts'],
     [('last_sat_idx', 'edge that separated last', BO)])
prop('C06', 'The two contact handlers agree',
     'For two circles, a circle against a flat side of a rectangle, and two rectangles parallel to the axes, the alternative contact handler based on ODE '
     'reports the same bodies, normal and penetration as the differentiable one.',
     ['inputs'], 'all radii, sizes, placements within reach of each other',
     'The alternative handler is not used in any test.',
     [CT], [('OdeContactHandler', CT)], ['World.contacts'])
# ----------------------------------------------------------------------- LCP
prop('L01', 'The LCP solver returns a solution of the problem',
     'For a problem with a positive definite quadratic term and a point that meets all inequalities strictly, the returned point satisfies the '
     'equalities and the inequalities, and is stationary with multipliers that are non-negative and vanish on the '
     'inequalities that are not tight, also if the inequalities are coupled to their multipliers (monotonically, or as friction does). With enough '
     'iterations it does so to high accuracy.',
     ['inputs'], 'all sizes, all matrices within the premise, with and without equalities, degenerate problems included',
     'The solver is only exercised through the demos, nothing checks its result.',
     [LCP, PD], [('forward', PD), ('solve_kkt, factor_kkt, pre_factor_kkt', PD)], ['LCPFunction()(Q, p, G, h, A, b, F)'])
prop('L02', 'Problems of a batch are solved independently and inputs kept',
     'Solving several problems as a batch gives each the solution and gradients it has on its own, in any order and company. The solver '
     'changes none of its input tensors, and what it solved before does not affect the next result.',
     ['inputs', 'histories'], 'every batch size and composition, easy and hard problems together, sequences of calls of different sizes',
     'The engine always uses batches of one.',
     [PD, LCP], [('per-problem selection of the best iterate', PD), ('factor_kkt_eye', PD)], ['LCPFunction'])
prop('L03', 'Gradients of the LCP solver are those of its solution',
     'Where the solver finds the solution and that depends smoothly on the problem, the gradients that backpropagation through the solver gives for '
     'all of its inputs are the derivatives of the solution with respect to them, for symmetric perturbations of '
     'the quadratic term.',
     ['inputs'], 'all problems with a strictly complementary solution, with and without equalities and coupling, all output gradients',
     'No test calls backward.',
     [LCP], [('backward', LCP)], ['torch.autograd.grad through LCPFunction'])
prop('L04', 'More solver iterations never give a worse answer',
     'The solver returns the best point it has met: allowing it more iterations, or more of them without progress, '
     'never returns a point that violates the optimality conditions more. It gives up only at its iteration limit, when all '
     'problems of the batch are solved, or when none of them has got better for as many iterations as allowed.',
     ['inputs', 'histories'], 'all problems and iteration limits',
     'Needs pairs of runs; nothing measures residuals.',
     [PD], [('best iterate and not_improved_lim', PD)], ['LCPFunction'])
prop('G01', 'Gradients of a simulation are the derivatives of its outcome',
     'Where the outcome of a simulation depends smoothly on initial positions, velocities, shapes, masses, forces, friction or restitution, '
     'the gradient that backpropagation through all its steps gives is the derivative of the outcome, through free flight, joints, contacts '
     'and friction alike (except in positions where a joint is anchored exactly at the center of a body, or hulls touch with parallel sides).',
     ['inputs', 'histories'], 'all scenes and parameters at which the sequence of contacts does not change with the parameter',
     'The tests of the gradient demos only run them; no derivative is compared.',
     [LCP, EN, W, BO, FO], [('autograd through all parts', EN)], ['torch.autograd.grad of Body.p with respect to parameters'])
# -------------------------------------------------------------------- bodies
prop('B01', 'Mass properties are those of the shape',
     "A hull's position is its center of mass wherever its vertices and reference point are given, its moment of inertia is "
     'that of a uniform polygon about the center of mass, a circle\'s that of a disc, and a rectangle\'s the same as that of the hull with '
     'its corners. They scale with the mass and do not depend on which vertex is listed first or on where the shape is.',
     ['inputs'], 'all convex polygons, positions, masses',
     'The tests check a handful of polygons.',
     [BO], [('_get_centroid and _get_ang_inertia', BO)], ['Body.pos', 'Body.M', 'Hull.verts'])
prop('B02', 'Bodies stay rigid',
     'However a body is moved, in one step or many, its vertices are those it was made with turned by its orientation '
     'and carried along by its position: distances, angles and the order of the vertices never change.',
     ['histories', 'inputs'], 'every hull and rectangle, every sequence of moves, position assignments and steps',
     'The tests rotate nothing and compare nothing after motion.',
     [BO], [('set_p and rotate_verts', BO)], ['Hull.verts', 'Body.p'])
prop('B03', 'A body means the same however it is written down',
     'Giving positions, velocities, sizes and coefficients as numbers, lists or tensors, with or without the rotational '
     'component where it is zero, makes the same body. Vertices listed in the wrong direction or fewer than three are refused, parameters given as '
     'tensors stay connected for differentiation, and what is given is never modified.',
     ['inputs'], 'all body kinds, all combinations of forms of the arguments',
     'The tests use a single form each.',
     [BO, UT], [('get_tensor and _set_base_tensor', BO)], ['Circle()', 'Rect()', 'Hull()'])
prop('B04', 'A scene in single precision stays in single precision',
     'Bodies given as single-precision tensors make a scene that is simulated in single precision throughout: whatever the forces, '
     'joints and contacts, its steps succeed, and positions, velocities, masses, vertices, forces, contacts and gradients all keep that '
     'precision. Until it first resolves contacts, it follows the same scene in double precision up to rounding, '
     'unless that itself hangs on rounding.',
     ['inputs', 'histories'], 'all scenes, described by tensors of single precision in any mixture with numbers, with penetration '
     'tolerances above rounding',
     'The tests use double precision only.',
     [BO, FO, W, EN], [('_base_tensor', BO), ('ExternalForce.set_body', FO)], ['World.step', 'Body.p', 'World.contacts'])
# ------------------------------------------------------------- run and record
prop('V01', 'The recorder writes frames at its own rate',
     'A recorder numbers its frames 0, 1, 2 ... without a gap, writes at most one for each call, never before the '
     'frame\'s time has come, and misses none: a call at or after the time of the next frame writes it. '
     'Each frame holds what the screen showed at the call.',
     ['histories'], 'every sequence of times of calls, every frame interval',
     'No test records anything.',
     [UT], [('Recorder.record', UT)], ['files in the recording folder'],
     [('prev_t, frame', 'time and number of the last frame', UT)])
prop('V02', 'Running a world is stepping it until the time is up',
     'Running a world for a time steps it until its clock has reached that time and not once more, and ends in the same state as stepping '
     'it by hand. Showing it on a screen, recording it and printing the time do not change the simulation, and a '
     'recorder is offered every state once, in order, after it has been drawn. Shown without a recorder, it is drawn at the animation rate, '
     'and waits so as not to run ahead of real time. It ends at once when its window is closed.',
     ['histories', 'configurations'], 'every run time, time step, animation rate, screen and recorder',
     'The tests run worlds without a screen and check nothing.',
     [W], [('run_world', W)], ['run_world', 'World.t', 'screen'])
prop('V03', 'Bodies are drawn where they are',
     'A body is drawn at its position times the scale, with its size times the scale and its present '
     'orientation, and a joint where it is, so that the picture shows the configuration for every scale.',
     ['inputs', 'configurations'], 'every body kind, position, orientation and scale',
     'No test looks at a picture.',
     [BO, W], [('draw', BO)], ['calls to the drawing library'])
# ----------------------------------------------------------------- experiment
prop('E01', 'Breakout frames are read correctly',
     'From a frame of the game showing a paddle, blocks and a ball wholly on the screen, the encoder recovers the position '
     'and size of the paddle and of every block and the position and radius of the ball, unless the ball touches the paddle in the '
     'paddle\'s top line, or a block of the topmost row in its top line, where the frame does not tell them apart. If no ball is shown it '
     'reports one far below the screen. The frame itself is left unchanged.',
     ['inputs'], 'every paddle and ball position and every set of blocks of the game',
     'The encoder has no tests.',
     [ENC], [('extract_params', ENC)], ['extract_params'])
prop('E02', 'The Breakout world mirrors the extracted parameters',
     'The world made from extracted parameters has the ball, the paddle and each block where and as large as given, '
     'with the ball at the given velocity, everything but ball and paddle held in place, and contact excluded between parts of the scenery '
     'and between ball and stoppers, but not between the ball and the paddle, walls, roof or blocks. It can be started wherever the '
     'ball overlaps nothing.',
     ['inputs', 'configurations'], 'every paddle and ball position and set of blocks',
     'The experiment has no tests.',
     [ENC], [('make_world', ENC)], ['make_world'])
prop('E03', 'State vectors and actions of the Breakout controller',
     'Turning parameters into a state vector and back gives the same parameters, for any number of blocks but none; '
     'without any, a block beyond the screen stands for them. An action below the threshold is no move, one at or above it in size '
     'is a move to the side of its sign, the same side to which it moves the paddle of the simulated world.',
     ['inputs'], 'every parameter set and every action and threshold',
     'The experiment has no tests.',
     [RB], [('to_vector, from_vector, get_action', RB)], ['to_vector', 'from_vector', 'get_action'])
prop('E04', 'A Breakout step moves the paddle as commanded',
     'A step of the Breakout world lasts exactly one frame, in which the paddle moves by action times its velocity if '
     'nothing is in its way; the ball flies straight or bounces at equal speed off walls, roof and blocks, passing through none of them nor '
     'the paddle, and everything else stays in place. The state returned is that after the step, and the gradient of the paddle\'s place '
     'in the action is its velocity.',
     ['inputs', 'histories'], 'every state of the game and sequence of actions',
     'The experiment has no tests.',
     [ENC, W, RB], [('step_breakout and simulate_breakout', ENC)], ['step_breakout', 'simulate_breakout'])
prop('E05', 'The Breakout controller plays as the game asks',
     'Each episode begins with a reset and five serves, and ends when the game is over. Every frame in between is answered with '
     'the action its plan begins with, made for the state in the frame with the ball\'s velocity that between the last two frames, going on from '
     'the plan before; a lost life is answered by five serves. The average reward of the episodes is reported.',
     ['histories'], 'every course of the game and every plan',
     'The experiment has no tests, and the game is not installed.',
     [RB], [('the run loop of the controller', RB)], ['extract_params'])
prop('E06', 'The problem the Breakout controller plans with',
     'The planner is asked to keep the paddle below the ball until the ball arrives, at no cost afterwards or while '
     'the ball rises, and to keep it in the middle while there is no ball if centering is asked for, with actions bounded by one, starting from the given state and plan; its model is one step of '
     'the simulated world, and its answer is handed on unchanged.',
     ['inputs'], 'every state, velocity and plan',
     'The experiment has no tests, and the planner is not installed.',
     [RB], [('the cost and the call of the planner', RB)], ['MPC'])

INF, GD, LP = 'experiments/inference.py', 'demos/grad_demo.py', 'experiments/breakout/learn_params.py'
prop('I01', 'Learning loops descend the loss of the present parameters until it settles',
     'In every iteration of the learning loops (mass inference, gradient demo, learning the parameters of Breakout) the scene is run '
     'with the present parameters, and these are then changed as the loop\'s optimizer has it (RMSprop, or gradient descent with a decaying rate) for the '
     'gradient of this iteration\'s loss alone, which is that of the simulation. A loop ends after the first iteration whose loss differs '
     'from that of the iteration before by less than its threshold, or when its iterations are used up; its result has the parameters of the last update.',
     ['histories', 'inputs'], 'every sequence of losses and gradients, every starting point',
     'The experiments have no tests; how a loop goes on depends on the whole sequence of losses it meets.',
     [INF, GD, LP], [('main', INF), ('grad_demo', GD), ('infer_params', LP)], ['main', 'grad_demo', 'infer_params', 'make_world'])
prop('I02', 'The chain of the mass inference experiment and its recorded runs',
     'The chain has the links asked for, which share the total mass equally and are differentiable functions of it; each hangs on the one before and '
     'the first on the background, neighbours never collide, and the projectile is level with the last link. A recorded run holds the '
     'poses of all bodies before the first step and after every step until the run time is reached, with or without a screen.',
     ['inputs', 'configurations'], 'every number of links, mass, world and run time',
     'The experiment has no tests.',
     [INF], [('make_world and positions_run_world', INF)], ['make_world', 'positions_run_world'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
