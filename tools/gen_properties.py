#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,quant,why,files,mechanism,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mechanism],
        observe_at=observe,hook_needed=hook)))
LV='extern/levi/include/levi/'
PV='src/private/'

p('C01','Evaluating an expression always reflects the current variable values',
 'After any sequence of assigning variables, building further expressions, evaluating the same or other expressions (in any order, through any copy of the handle, fully or through a single element, row, column or block) and clearing cached derivatives, evaluating an expression returns the mathematical value of that expression at the values the variables hold now. A value is never stale, and evaluating one expression never disturbs the value another one returns.',
 ['histories','programs'],'every expression built from the algebra operators, and every interleaving of assignments, evaluations, derivative requests and cache clearing on expressions sharing sub-expressions',
 'The unit tests assign each variable once or twice and evaluate each expression once or twice; stale-cache errors depend on which consumer looked at a shared sub-expression between two assignments.',
 [LV+'Evaluable.h',LV+'ExpressionImplementation.h',LV+'Registrar.h',LV+'Variable.h',LV+'OperatorsEvaluables.h',LV+'AccessorEvaluables.h',LV+'BasicEvaluables.h',LV+'DependenciesSet.h'],
 [('caller ids and evaluation registers that say who has already seen the newest value',LV+'Evaluable.h'),('reset notification along the dependency graph',LV+'Registrar.h')],
 ['value returned by evaluate() on expression handles'],
 [('evaluation register','which consumers have consumed the current value',LV+'Evaluable.h'),('registered dependents','who must be invalidated when a variable changes',LV+'Registrar.h')])
p('C02','Expression derivatives equal the true partial derivatives',
 'For every expression, every variable and every column of the expression, the column derivative is an expression whose value is the exact Jacobian of that column with respect to that variable at the current variable values, and the same holds when derivatives are taken of derivatives. The expression reports that it depends on a variable whenever that derivative is not identically zero, and a variable it does not involve has a zero derivative of the right size.',
 ['programs','inputs','histories'],'every expression over the algebra operators, every variable, column and order one and two, evaluated after any reassignment',
 'Existing tests compare a dozen hand-written expressions with finite differences at one random point each; the number of operator combinations and shared sub-expressions is unbounded.',
 [LV+'ExpressionImplementation.h',LV+'OperatorsEvaluables.h',LV+'AccessorEvaluables.h',LV+'BasicEvaluables.h',LV+'Variable.h',LV+'Evaluable.h'],
 [('per-operator derivative rules',LV+'OperatorsEvaluables.h'),('derivative buffers per variable and column',LV+'Evaluable.h'),('dependency bookkeeping',LV+'Registrar.h')],
 ['getColumnDerivative(), isDependentFrom(), getDependencies()'])
p('C03','Squeezed forms of expressions return the same values as the originals',
 'Squeezing one expression, or a named collection of expressions together, yields evaluators that return the same values as the original expressions for every assignment of the variables, before and after any number of reassignments. Every member of a collection keeps its own name and value.',
 ['programs','histories'],'every expression over the algebra operators and every history of variable assignments between evaluations',
 'Tests squeeze a couple of fixed expressions and compare them on one or two assignments.',
 [LV+'SqueezeEvaluable.h',LV+'MultipleSqueezedExpressions.h',LV+'TreeExpander.h',LV+'AddendsExpander.h'],
 [('tree expansion into a flat list of typed operations',LV+'TreeExpander.h'),('flat evaluation loop',LV+'SqueezeEvaluable.h')],
 ['value of squeezed expressions versus value of originals'])
p('C04','Variable labels map to disjoint contiguous index ranges',
 'After any sequence of label insertions, each accepted label owns a contiguous index range of the requested size, ranges are laid out in insertion order without gaps or overlaps, and the total size is their sum. Every lookup (by label, by position, membership, size, list of labels) agrees with those ranges; unknown labels are reported as absent, and a rejected insertion changes nothing.',
 ['histories'],'every sequence of insertions (including duplicates and zero sizes), clears and lookups',
 'The test adds three labels once.',
 [PV+'VariablesLabeller.cpp','include/DynamicalPlannerPrivate/Utilities/VariablesLabeller.h'],
 [('label map plus ordered list and running size',PV+'VariablesLabeller.cpp')],
 ['addLabel, getIndexRange, size, listOfLabels and vector access by label'])
p('C05','Time-indexed robot data is served by the nearest configured instant',
 'A request for the robot data associated with a time is served by the configured instant that is closest to that time (by the later one when two are equally close), whatever was requested before. The same instant always serves the same object, objects of different instants never share state, and invalid configurations (an empty list of instants, a missing robot) are refused without changing what is served. After a reconfiguration only the instants of the new list serve requests.',
 ['histories','inputs'],'every sorted list of instants, every request time and every sequence of reconfigurations and requests',
 'No test exercises the lookup with more than the instants it just configured.',
 [PV+'TimelySharedKinDynComputations.cpp','include/DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h'],
 [('sorted list of instants with a moving cursor',PV+'TimelySharedKinDynComputations.cpp')],
 ['object returned by get(time)'])
p('C06','Robot queries depend only on the queried state and the configuration',
 'Every kinematic or dynamic quantity computed for a robot state (poses, relative poses, centre of mass, momentum, velocities, Jacobians and their derivatives, static forces and torques) is a function of that state and of the configured model, gravity, floating base and tolerance only. No sequence of earlier queries at other states, and no reconfiguration before it, can change the answer.',
 ['histories'],'every sequence of state queries of every kind interleaved with reconfiguration',
 'Tests query one state, perturb it and compare with finite differences; answers that depend on the previous query look right when queries come in the tested order.',
 [PV+'SharedKinDynComputations.cpp'],
 [('robot state cache compared within a tolerance',PV+'SharedKinDynComputations.cpp')],
 ['quantities returned after each query'],
 [('cached robot state','the last state the dynamics engine was updated with',PV+'SharedKinDynComputations.cpp')])
p('C07','Shared symbolic quantities always refer to the last supplied robot state',
 'After the robot state for a time is supplied, every shared symbolic quantity (base pose, quaternion error, relative poses and rotations, adjoints, centre of mass, velocities and momenta) evaluates to the kinematics of exactly that state, whatever states were supplied before for the same or for other times. Two requests with the same arguments denote the same quantity and two requests with different arguments never get confused.',
 ['histories'],'every sequence of supplied (time, state) pairs, requests for quantities and evaluations',
 'Tests supply states in increasing order and evaluate each quantity right after creating it.',
 [PV+'ExpressionsServer.cpp',PV+'TransformExpression.cpp',PV+'RelativePositionExpression.cpp',PV+'RelativeQuaternionExpression.cpp',PV+'CoMInBaseExpression.cpp',PV+'MomentumInBaseExpression.cpp',PV+'AdjointTransformExpression.cpp',PV+'QuaternionExpressions.cpp',PV+'AbsoluteVelocityExpression.cpp'],
 [('shared variables updated when the supplied state differs',PV+'ExpressionsServer.cpp'),('maps from request arguments to quantities',PV+'ExpressionsServer.cpp')],
 ['evaluated quantities after each supplied state'])
p('C08','Each planner constraint measures its physical relation with its own bounds',
 'At every time, state and control each contact and posture constraint (friction cone, force control limits, planar and normal point velocity limits, the classical and dynamical complementarity forms, feet relative height, unit quaternion) returns exactly the value of the relation it is documented to impose on the contact point and foot it was built for, and its lower and upper bounds are the configured limits or tolerances. Parameters that make no sense are refused and leave the constraint unchanged.',
 ['inputs','configurations'],'every state, control, contact point, foot and parameter setting',
 'The tests only compare derivatives with finite differences of the same code; no test states what the value or bound must be.',
 [PV+f for f in ['ContactFrictionConstraint.cpp','ContactForceControlConstraints.cpp','PlanarVelocityControlConstraints.cpp','NormalVelocityControlConstraints.cpp','DynamicalComplementarityConstraint.cpp','ClassicalComplementarityConstraint.cpp','ClassicalPlanarComplementarityConstraint.cpp','FeetRelativeHeightConstraint.cpp','QuaternionNormConstraint.cpp']],
 [('evaluation and bound members of each constraint','src/private/*Constraint*.cpp')],
 ['evaluateConstraint(), getLowerBound(), getUpperBound()'])
p('C09','Each planner cost penalises exactly its documented quantity',
 'At every time, state and control each foot and force cost (mean force, force ratio, swing height, phantom forces, complementarity, feet distance, foot yaw, mean contact point position, centre of mass velocity) returns half the weighted square of its documented quantity for the foot and point it was built for, using the reference and weight that hold at that time. It is zero exactly when the quantity equals the reference.',
 ['inputs','configurations'],'every state, control, time, foot, contact point, weight and reference',
 'The tests only compare derivatives with finite differences of the same code; no test states what the value must be.',
 [PV+f for f in ['ForceMeanCost.cpp','ForceRatioCost.cpp','SwingCost.cpp','PhantomForcesCost.cpp','ComplementarityCost.cpp','FeetDistanceCost.cpp','FootYawCost.cpp','MeanPointPositionCost.cpp','CoMVelocityCost.cpp']],
 [('cost evaluation members','src/private/*Cost.cpp')],
 ['costEvaluation()'])
p('C10','First and second derivatives of all planner terms are exact',
 'For every contact, posture and force constraint and cost and for the system dynamics, the gradients and Jacobians with respect to state and control and the second derivatives (contracted with the multipliers, including the mixed state-control ones) are exactly those of the value it returns, at the same time, state and control, for every multiplier vector.',
 ['inputs'],'every state, control, multiplier vector, foot, contact point and parameter setting',
 'The tests check finite differences at a few random points, where entries that are wrong only at particular states, multipliers or activation regimes vanish or are not looked at.',
 ['src/private/*Constraint*.cpp','src/private/*Cost.cpp',PV+'DynamicalConstraints.cpp'],
 [('hand-written derivative members','src/private')],
 ['constraint Jacobian and Hessian members, cost gradient and Hessian members, dynamics derivative members'])
p('C11','Declared sparsity patterns cover every derivative entry that can be nonzero',
 'For every constraint and for the system dynamics, an entry of a first or second derivative that is nonzero at some time, state, control and multiplier belongs to the sparsity pattern declared for that derivative, and every declared entry lies inside the matrix. Declared patterns do not change over the life of the term.',
 ['inputs','configurations'],'every state, control and multiplier vector, for every foot and contact point',
 'One test looks at one random state per term; an undeclared entry that happens to be zero there is silently dropped by the optimizer later.',
 ['src/private/*Constraint*.cpp',PV+'DynamicalConstraints.cpp'],
 [('sparsity descriptors built in the constructors','src/private')],
 ['declared sparsity versus nonzero derivative entries'])
p('C12','Planner terms are pure: answers do not depend on earlier calls',
 'The value, derivatives and bounds a constraint, a cost or the system dynamics returns for given arguments are the same whatever was asked of it before, in whatever order, and at whatever other times, states and controls. Asking twice gives the same answer.',
 ['histories'],'every sequence of evaluations, derivative requests and argument changes on one object',
 'Tests call members in the one order evaluate-then-differentiate at the same point; members that forget to refresh cached arguments agree there.',
 ['src/private/*Constraint*.cpp','src/private/*Cost.cpp',PV+'DynamicalConstraints.cpp'],
 [('argument buffers refreshed at each call','src/private')],
 ['returned values along call sequences'])
p('C13','The system dynamics is the documented contact and momentum model',
 'At every state and control, the time derivative of each contact force, contact point, the centroidal momentum, the centre of mass, the base pose and the joints returned by the dynamics is the documented one: controlled forces with dissipation away from the ground, planar point velocities faded near the ground, momentum driven by gravity and by all contact forces with their moments about the centre of mass, centre of mass driven by momentum over mass, base and joints driven by their own controls. Entries of one foot or point never influence those of another except through the momentum.',
 ['inputs','configurations'],'every state, control and parameter setting, with planar velocity fading on or off',
 'The derivative test only checks self-consistency with finite differences; no test states what the dynamics must be.',
 [PV+'DynamicalConstraints.cpp'],
 [('dynamics evaluation',PV+'DynamicalConstraints.cpp')],['dynamics()'])
p('C14','Kinematic consistency terms vanish exactly on consistent motions',
 'For every robot configuration, the centre of mass, contact point position and centroidal momentum constraints return the difference between the planned quantity and the one computed from base pose, joints and their velocities, so they are zero exactly when plan and robot agree, and the lateral feet distance constraint returns the signed lateral offset between the feet. The frame orientation, frame velocity, posture and static torque terms likewise vanish exactly when their references are met.',
 ['inputs','configurations'],'every base pose, joint configuration, velocity, foot and contact point',
 'Tests only compare derivatives with finite differences of the same code at a random configuration.',
 [PV+f for f in ['CoMPositionConstraint.cpp','ContactPositionConsistencyConstraint.cpp','CentroidalMomentumConstraint.cpp','FeetLateralDistanceConstraint.cpp','FrameOrientationCost.cpp','FrameAngularVelocityCost.cpp','JointsVelocityForPosturalCost.cpp','StaticTorquesCost.cpp']],
 [('evaluations through the shared robot data','src/private')],['evaluateConstraint(), costEvaluation()'])
p('C15','Solver calls follow their life cycle and never return partial results',
 'Solving succeeds only when settings and an optimizer were supplied and the optimization succeeded (the zero state stands in for an initial state never supplied); otherwise it reports failure and leaves usable results untouched. Guesses are used for the first solve after they are set, later solves start from the previous solution, reconfiguring never silently keeps an old problem, and every call order gives either a clean refusal or a result.',
 ['histories','fault_sequences'],'every sequence of configuration, guess, initial state and solve calls, with the optimizer failing at any point',
 'The only tests of the solver need a commercial setup that is not part of the reliable suite and follow a single call order.',
 ['src/Solver.cpp'],[('configuration flags and guess handling','src/Solver.cpp')],
 ['return values and the optimization problems the optimizer is handed'])
p('C16','Variable bounds and target ranges follow the configured activation windows',
 'The lower and upper bounds handed to the optimizer for every state and control at every instant are the configured ones: joint, velocity, force, height and momentum limits always, and the centre of mass target box exactly inside its activation window and nowhere else. Variables without limits are unbounded, and no variable receives the limit of another.',
 ['configurations','inputs'],'every settings combination, horizon and instant',
 'No reliable test looks at the bounds of the assembled problem.',
 ['src/Solver.cpp','src/Settings.cpp'],[('time-varying bound objects','src/Solver.cpp')],
 ['variable bounds of the problem handed to the optimizer'])
p('C17','The assembled problem contains exactly the terms the settings ask for',
 'The problem handed to the optimizer contains each configured constraint and each active cost once per foot and contact point, with the configured overall weight, parameters and references of that very term, and does not contain a term that is switched off. Changing one weight or parameter changes only the contribution of its own term.',
 ['configurations'],'every combination of switches, weights and parameters in the settings',
 'No reliable test assembles the full problem; the weights and references are wired by hand for some thirty terms.',
 ['src/Solver.cpp','src/Settings.cpp'],[('per-term wiring','src/Solver.cpp')],
 ['cost and constraint values of the problem handed to the optimizer'])
p('C18','Planned states and controls keep their layout through the optimizer',
 'Every state and control in the returned plan carries the values the optimizer produced for that very foot, contact point, joint and instant, times are those of the discretisation shifted by the initial time, and the initial state is the one supplied. Initial guesses are laid out in the same way, so reading a solution back and supplying it as a guess reproduces it.',
 ['inputs','configurations'],'every number of contact points and joints, every horizon and every optimizer solution',
 'No reliable test reads a plan back.',
 ['src/Solver.cpp','src/State.cpp','src/Control.cpp'],[('copy between labelled optimizer variables and plan structures','src/Solver.cpp')],
 ['returned plan, guess handed to the optimizer'])
p('C19','Settings are accepted exactly when they are consistent',
 'A settings record is accepted exactly when all sizes, signs, frames, feet and time scales are present and consistent and every switched-on cost has the references, weights and frames it uses; an unacceptable record is refused whichever single field is wrong, and refusal leaves the previously accepted record in force. Reading settings back returns what was accepted. The default record is acceptable once it is completed with a robot and its feet.',
 ['configurations','histories'],'every single and combined invalid field, and every sequence of accepted and refused records',
 'No test supplies an invalid settings record.',
 ['src/Settings.cpp'],[('validation of the record','src/Settings.cpp')],['return value and read-back record'])
p('C20','The walking state machine emits references that match the measured phase',
 'For any sequence of measured states and elapsed times the walking reference advances one step at a time: a next step is planned only when the present one ends within the first part of the horizon and the measured feet centroid has come close to the target (or the step has lasted more than two step durations), and a planned step replaces the performed one only when it is due and the forward foot carries enough force (or time is running out). Each new target is the previous one plus the step increment, time ranges shift with the elapsed time and the published object stays the same between initialisations. Inconsistent parameters are refused and the old ones stay in force.',
 ['histories'],'every sequence of measured states',
 'No test drives the state machine.',
 ['src/Utilities.cpp'],[('state machine advance','src/Utilities.cpp')],['published references after each advance'])
p('C21','Position reference generators return the reference active at the query time',
 'At every time the desired position is that of the last listed entry whose activity range contains that time and zero when there is none; its weight grows, per axis, from one at the start of the range to the square of one plus the configured increase at its end, is one for entries active at an instant or at any time, and zero when no entry is active. Editing one entry changes only what is returned during its own range, and entries keep their order.',
 ['inputs','histories'],'every list of entries, every edit sequence and every query time',
 'No test queries the generators.',
 ['src/PositionReferenceGenerator.cpp'],[('lookup of the active entry','src/PositionReferenceGenerator.cpp')],['values returned by the generator at each time'])
p('C22','Foot corner forces reproduce the requested foot wrench',
 'For a rectangular foot of any valid size and a wrench that pushes on it, the forces distributed to the corners sum to the requested force and produce the requested moments, have non-negative normal components whenever the centre of pressure lies inside the foot, and each corner takes the middle of the range of normal shares that is feasible for it. Only the moment about the vertical may be lost, when a single corner carries the load. A wrench that does not push gives zero corner forces. Invalid foot sizes and use of an unset foot are refused.',
 ['inputs','configurations'],'every foot size, wrench and contact frame',
 'One test checks a handful of wrenches on one foot.',
 ['src/RectangularFoot.cpp'],[('convex-combination weights of the corners','src/RectangularFoot.cpp')],['corner positions, corner forces, ratios'])
p('C23','Plan data structures convert, compare and shift without losing entries',
 'Resizing, zeroing, checking sizes, copying, averaging contact positions, telling the forward foot, picking the foot with the least force and building translated guesses act on every entry of every foot and contact point and on nothing else. A container of contact points only ever refers to its own entries, and copies are independent of their originals.',
 ['inputs','histories'],'every number of points and joints and every sequence of these operations',
 'No test looks at these helpers.',
 ['src/State.cpp','src/Control.cpp','src/Utilities.cpp'],[('member-wise operations','src/State.cpp')],['structure contents after each operation'])
p('C24','Smooth activation functions equal their definition and derivatives',
 'The hyperbolic tangent and secant activations return the function of the scaled distance and exactly its first and second derivatives for every distance and scaling, stay within their limits, and a disabled activation is constant with zero derivatives.',
 ['inputs','configurations'],'every distance, scaling and disabling',
 'Used only indirectly, through derivative self-consistency of terms at random states.',
 [PV+'HyperbolicTangent.cpp',PV+'HyperbolicSecant.cpp',PV+'SmoothingFunction.cpp'],[('closed-form evaluation',PV+'HyperbolicTangent.cpp')],['eval, evalDerivative, evalSecondDerivative'])
p('C25','Default initial states are at rest, balanced and on the ground',
 'The default initial state made for given joints is at rest at time zero with the left sole at the origin: every contact point lies on its sole, the centre of mass and the base are those of the robot standing there, the contact forces are vertical and sum up to the weight under the gravity of the settings, the feet share it in inverse proportion to their lateral distance from the centre of mass (in any way when both are zero), and within each foot the points share it so that the foot carries it below the centre of mass. Putting the lowest contact point to zero only translates the base vertically (and the contact points and centre of mass with it) until that point lies on the ground. Invalid settings and joints of the wrong number are refused.',
 ['inputs','configurations','histories'],'every robot, settings, joint configuration, base pose and sequence of these calls',
 'No test calls these helpers; they depend on the kinematics of the whole robot.',
 ['src/Utilities.cpp','include/DynamicalPlanner/Utilities.h','src/RectangularFoot.cpp'],
 [('base pose from the left sole, forces from the lateral distances, search of the lowest contact point','src/Utilities.cpp')],
 ['FillDefaultInitialState, SetMinContactPointToZero and the State they return'])
p('C26','Expressions compiled at run time return the same values as the originals',
 'Compiling one expression, or a named collection of expressions together, into generated code at run time yields evaluators that return the same values as the original expressions for every assignment of the variables, before and after any number of reassignments: for quotients of products and quotients, nested signs, powers with any exponent, accessors of any size, and for names with characters that an identifier does not admit. Every member of a collection keeps its own name and value.',
 ['programs','histories'],'every expression over the algebra operators, every name and every history of variable assignments between evaluations',
 'Tests compile a few fixed expressions, where a compiler and cmake are there at run time, and compare them on one or two assignments.',
 [LV+'AutogeneratedHelper.h',LV+'CompiledEvaluable.h',LV+'MultipleCompiledExpressions.h',LV+'TreeExpander.h'],
 [('literal text of every operation, extraction of common parts',LV+'AutogeneratedHelper.h'),('loading and evaluation of the generated class',LV+'CompiledEvaluable.h')],
 ['value of compiled expressions versus value of originals'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
