import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'observe_at':observe} if observe else {}))))
I='include/hpp/constraints/'
p('C01','Index-interval arithmetic is exact set arithmetic',
 "Lists of index intervals denote sets of indices: normalising (sort, shrink), adding, subtracting, testing overlap, counting, converting from and to boolean masks, splitting and extracting must give exactly the set (or, where order is documented, the index sequence) that the same operation on plain sets of integers gives. A normalised list has sorted, disjoint, non-adjacent, non-empty intervals.",
 ['inputs'],"all lists of up to 3 intervals with arbitrary starts and lengths inside a small index range, and all boolean masks up to that range",
 "The tests use half a dozen hand-written interval lists; nesting, adjacency, emptiness and duplicate starts combine in far more ways than those.",
 ['src/matrix-view.cc',I+'matrix-view.hh'],[('BlockIndex static operations',"src/matrix-view.cc"),('MatrixBlocks/addRow/addCol/updateRows/updateIndices',I+'matrix-view.hh')])
p('C02','Block views read and write exactly the selected entries',
 "A block view of a matrix or vector selects rows and columns by interval lists: reading it yields the selected entries in order, writing to it changes exactly the selected entries and no others, and arithmetic between a view and a matrix (or two views) of matching shape gives the entry-wise result. Transposed, row-only, column-only and masked selections obey the same rule.",
 ['inputs'],"all real matrix contents and all interval selections up to the stated matrix and list sizes",
 "Tests compare a few fixed selections on random contents; they cannot exclude a wrong entry for another selection.",
 [I+'matrix-view.hh',I+'impl/matrix-view.hh',I+'impl/matrix-view-operation.hh'],[('MatrixBlockView / MatrixBlocks lview, rview',I+'matrix-view.hh'),('view (op) matrix assignment',I+'impl/matrix-view-operation.hh')])
p('C03','Implicit constraints: right-hand sides follow the comparison types',
 "The right-hand side an implicit constraint takes from a configuration is its function's value there on the components compared by equality and the neutral element on all others, and a given right-hand side is admissible exactly when it is neutral on all components not compared by equality. The size of the parameter, and which rows are active, follow the comparison types and the mask through every later change, and clearing the inactive rows of a vector or Jacobian zeroes exactly these. A copy of a constraint is equal to it and independent of it.",
 ['inputs','histories'],"all comparison vectors, masks, function values and right-hand sides within the stated dimensions",
 "Unit tests sample a few comparison vectors with fixed functions.",
 ['src/implicit.cc',I+'implicit.hh',I+'comparison-types.hh'],[('Implicit::rightHandSide, rightHandSideFromConfig, computeRightHandSide...','src/implicit.cc'),('ComparisonTypes_t',I+'comparison-types.hh')])
p('C04','A configuration is declared satisfying iff every active residual is within threshold',
 "The solver declares a configuration satisfied exactly when, for every constraint of every non-optional priority level, the residual - value minus right-hand side on the active rows, clipped by the inequality threshold for inferior and superior comparisons, zero on masked rows - has norm below the error threshold. The reported residual error is the stack of these residuals, level by level, and asking for one single constraint gives its own residual and verdict.",
 ['inputs','configurations'],"all function values, right-hand sides, thresholds, comparison types, masks and priorities within the stated sizes",
 "Tests evaluate a handful of configurations with one comparison pattern each.",
 ['src/solver/hierarchical-iterative.cc',I+'solver/hierarchical-iterative.hh'],[('computeValue/applyComparison/computeError','src/solver/hierarchical-iterative.cc'),('isSatisfied, isConstraintSatisfied','src/solver/hierarchical-iterative.cc')])
p('C05','Success of the iterative solver means the returned configuration satisfies',
 "When the hierarchical solver reports success, the residual of every constraint of every required level of the returned configuration does not exceed the error threshold; when this already holds for the initial configuration, success is reported and the configuration is returned unchanged. Whatever the status, it performs at most the configured number of iterations, and the iteration limit is reported only when they are all used.",
 ['inputs','histories'],"all residual trajectories (arbitrary function values at every evaluated configuration), arbitrary descent directions, up to the stated number of iterations, for every line search",
 "Tests run the solver on a few smooth functions from a few initial points; they do not reach arbitrary residual sequences.",
 [I+'solver/impl/hierarchical-iterative.hh','src/solver/hierarchical-iterative.cc'],[('solve loop and status',I+'solver/impl/hierarchical-iterative.hh')])
p('C06','Solving moves only free variables and respects the bounds',
 "Whatever the status it returns, the iterative solver never changes a configuration variable that is not free (without bounds, or from a configuration inside the bounds). If bounds are given and the initial configuration is inside them, every free variable of the result is inside its bounds. Saturating a configuration clamps each configuration variable to its bounds and reports exactly the degrees of freedom of which a configuration variable is at or beyond a bound.",
 ['inputs','histories'],"all initial configurations, bounds, free-variable selections and descent directions within the stated sizes and iteration counts",
 "Tests check a saturated solve on one robot with a few seeds.",
 ['src/solver/hierarchical-iterative.cc',I+'solver/hierarchical-iterative.hh'],[('integrate / freeVariables','src/solver/hierarchical-iterative.cc'),('saturation functors','src/solver/hierarchical-iterative.cc')])
p('C07','Right-hand sides written into a solver are the ones read back and used',
 "Giving the solver a right-hand side, as one stacked vector, per constraint, or from a configuration, and asking for it back returns the same values on equality components; each value reaches the residual of the constraint it was meant for and no other, for any number of constraints and priority levels. After setting the right-hand side from a configuration, the equality constraints are satisfied at that configuration.",
 ['inputs','histories'],"all right-hand sides and configurations, all assignments of up to 3 constraints to up to 3 priority levels, all comparison types",
 "Existing tests store right-hand sides with one priority level and do not check which residual moved.",
 ['src/solver/hierarchical-iterative.cc'],[('rightHandSide getters/setters, rightHandSideFromConfig','src/solver/hierarchical-iterative.cc')])
p('C08','Solver with explicit constraints: right-hand sides and satisfaction combine both parts',
 "For a solver that combines implicit and explicit constraints, the stacked right-hand side reads back as written with the implicit part first and the explicit part last, a per-constraint right-hand side reads back for either kind, and a configuration is satisfied iff both the implicit and the explicit part are. After setting the right-hand side from a configuration, that configuration is satisfied.",
 ['inputs','histories'],"all right-hand sides and configurations for systems mixing up to 2 explicit and up to 2 implicit constraints",
 "Tests cover two systems with fixed right-hand sides.",
 ['src/solver/by-substitution.cc',I+'solver/by-substitution.hh'],[('BySubstitution::rightHandSide*, isSatisfied','src/solver/by-substitution.cc')])
p('C09','Explicit constraints are accepted only if they stay solvable by substitution',
 "A set of explicit constraints accepts a new one only if none of its outputs is already an output or an input-dependent output that would create a cycle; a rejected addition leaves the set unchanged. At any time the input, output and free index sets partition the variables accordingly and an accepted set admits an evaluation order in which every input is available before it is used.",
 ['inputs','histories'],"all sequences of up to 3 additions of explicit functions with arbitrary input/output intervals over a small variable vector",
 "Tests add a handful of hand-picked functions in one or two orders.",
 ['src/explicit-constraint-set.cc',I+'explicit-constraint-set.hh'],[('ExplicitConstraintSet::add, computeOrder','src/explicit-constraint-set.cc')])
p('C10','Solving explicit constraints makes them satisfied and touches only outputs',
 "After solving a set of explicit constraints, every output equals its function of the final inputs composed with its right-hand side, whatever the order in which the constraints were added; every variable that is not an output is left unchanged, and solving again changes nothing.",
 ['inputs','histories'],"all configurations, function values and right-hand sides for acyclic sets of up to 3 functions in every insertion order",
 "Tests check one chain of affine functions for fixed values.",
 ['src/explicit-constraint-set.cc'],[('ExplicitConstraintSet::solve, computeFunction, isSatisfied','src/explicit-constraint-set.cc')])
p('C11','The Jacobian of an explicit constraint set is the derivative of its solution',
 "The Jacobian reported for a set of explicit constraints is the derivative of the solved configuration with respect to the variables that are not outputs, chained through functions whose inputs are outputs of others.",
 ['inputs'],"all coefficient values of the functions and all evaluation points for acyclic sets of up to 3 functions",
 "Tests compare against finite differences at one point with affine functions.",
 ['src/explicit-constraint-set.cc'],[('ExplicitConstraintSet::jacobian','src/explicit-constraint-set.cc')])
p('C12','Solving by substitution returns configurations consistent with explicit constraints',
 "A solver combining explicit and implicit constraints reports success only for configurations satisfying both kinds, and whatever the status the explicit outputs of the result are the functions of its inputs (unless one of these functions is not defined there). An initial configuration that satisfies the constraints once its explicit outputs are computed is a success. Optimizing the optional last level from a configuration well within the thresholds ends in a satisfying configuration whose last-level error has not increased.",
 ['inputs','histories'],"arbitrary implicit residual trajectories and descent directions up to the stated iterations; all initial configurations",
 "Tests run one solve per line search on a robot.",
 ['src/solver/by-substitution.cc',I+'solver/impl/by-substitution.hh'],[('BySubstitution::solve, impl_solve',I+'solver/impl/by-substitution.hh')])
p('C13','The reduced Jacobian chains implicit functions through explicit ones',
 "When explicit constraints are substituted, the Jacobian used to compute the descent direction is the derivative of the implicit residual with respect to the remaining free variables after substitution.",
 ['inputs'],"all Jacobian coefficients and points for mixed systems within the stated sizes",
 "Tests use one hand-made system.",
 ['src/solver/by-substitution.cc'],[('BySubstitution::updateJacobian','src/solver/by-substitution.cc')])
p('C14','Copying a solver gives an independent, equivalent solver',
 "A copied solver accepts and rejects the same configurations as the original and reports the same right-hand sides; changing the right-hand side, thresholds or constraints of one never changes the other. Merging solvers gives a solver that accepts what both accept and keeps the priorities, and neither extracting nor merging modifies the source.",
 ['inputs','histories'],"all right-hand sides and configurations, for systems within the stated sizes",
 "Tests copy solvers but do not check that later operations on one leave the other alone.",
 ['src/solver/hierarchical-iterative.cc','src/solver/by-substitution.cc'],[('copy constructors, merge, extract','src/solver/by-substitution.cc')])
p('C15','A locked joint fixes exactly its joint to the stored value',
 "A locked joint constraint built for a joint, a part of a joint or an extra degree of freedom has that joint's variables as only outputs, no input, and is satisfied exactly when these variables equal the stored value; its residual and explicit value depend on nothing else. Taking the right-hand side of the constraint from a configuration makes it accept the joint value of this configuration instead.",
 ['inputs'],"all configurations and stored values, for vector, rotation, planar and free-flyer joints and extra degrees of freedom",
 "Tests lock joints of one robot at one value.",
 ['src/locked-joint.cc',I+'locked-joint.hh'],[('LockedJoint','src/locked-joint.cc')])
p('C16','Relative-pose constraints agree between implicit and explicit form',
 "A relative pose constraint between two joints, used explicitly, sets the pose of the second joint's free-flyer such that the implicit form is satisfied for the same right-hand side; converting a right-hand side from implicit to explicit form and back gives it back. The explicit function's output configuration places the frame of joint 2 at the pose of the frame of joint 1.",
 ['inputs'],"all joint placements, frame placements and right-hand sides (exact real arithmetic)",
 "Tests sample random configurations of one robot.",
 ['src/explicit/relative-pose.cc','src/explicit/relative-transformation.cc','src/explicit/implicit-function.cc'],[('RelativePose, RelativeTransformation, ImplicitFunction','src/explicit')])
p('C17','Transformation functions return the documented pose difference',
 "Position, orientation, transformation and their relative versions return the components, selected by the mask, of the documented pose of frame 2 relative to frame 1 - translation expressed in frame 1, rotation as the logarithm or unit quaternion of the relative rotation - for any frames in any joints including the world.",
 ['inputs'],"all joint placements, frames and masks (exact real arithmetic)",
 "Tests sample random configurations of one robot.",
 ['src/generic-transformation.cc','src/generic-transformation/helper.hh'],[('GenericTransformation::impl_compute','src/generic-transformation.cc'),('compute<>::error','src/generic-transformation/helper.hh')])
p('C18','Jacobians of transformation functions are exact derivatives',
 "The Jacobian of every position, orientation, transformation and relative-transformation function is the derivative of its value along every velocity of the robot, for any frames in any joints and any mask.",
 ['inputs'],"all joint placements, joint Jacobians, frames and masks (exact real arithmetic)",
 "Tests compare to finite differences with loose tolerance at random configurations of one robot, and test-jacobians is not even built.",
 ['src/generic-transformation.cc','src/generic-transformation/helper.hh'],[('compute<>::jacobian','src/generic-transformation/helper.hh')])
p('C19','The explicit relative transformation has an exact Jacobian',
 "The Jacobian of the function giving the pose of a free-flyer from the pose of other joints is the derivative of that function along every velocity of its inputs.",
 ['inputs'],"all joint placements, joint Jacobians and frames (exact real arithmetic)",
 "Tests compare with finite differences at a few random configurations.",
 ['src/explicit/relative-transformation.cc'],[('RelativeTransformation::impl_jacobian','src/explicit/relative-transformation.cc')])
p('C20','Convex shapes answer geometric queries correctly',
 "For a convex polygon, the inside test holds exactly for points of the polygon, the distance of a point of its plane is minus the distance to the boundary inside and the distance to the polygon outside, the stored normals, edge directions, center and frame are the geometric ones, and reversing flips the normal and keeps the set of points.",
 ['inputs'],"all triangles and quadrangles of the stated families and all query points (exact real arithmetic)",
 "Tests query a few points of fixed triangles.",
 [I+'convex-shape.hh'],[('ConvexShape',I+'convex-shape.hh')])
p('C21','Contact constraints select the nearest pair and stack consistently',
 "The contact function selects the pair of object and floor shapes with the smallest documented distance and returns the documented components of their relative pose; the complement returns the remaining components with the documented offsets, and the combined function is their concatenation, so that pair and relative pose can be recovered from it.",
 ['inputs'],"all joint placements and shape placements for up to 2 floor and 2 object shapes (exact real arithmetic)",
 "Tests evaluate a few random configurations.",
 ['src/convex-shape-contact.cc'],[('ConvexShapeContact(Complement, Hold)','src/convex-shape-contact.cc')])
p('C22','Distance and center-of-mass functions: values and Jacobians agree',
 "The distance between points of bodies, the center of mass relative to a joint and the center of mass between feet return their documented value at the argument configuration, whatever was evaluated before, and their Jacobian is the derivative of that value.",
 ['inputs','histories'],"all joint placements, points, masks and joint Jacobians (exact real arithmetic); sequences of two evaluations at different configurations",
 "Tests compare values of one function at random configurations; Jacobian tests are not built.",
 ['src/distance-between-points-in-bodies.cc','src/relative-com.cc','src/com-between-feet.cc'],[('impl_compute/impl_jacobian','src')])
p('C23','Function combinators compute what their definition says',
 "Constant, identity, affine, stacked, differenced, restricted (to a part of the variables) and active-set functions return the value and the complete Jacobian their definition prescribes from their components, whatever the previous content of the output; entries for variables the function does not depend on are zero.",
 ['inputs','histories'],"all coefficient values, arguments and initial output contents within the stated sizes",
 "Tests use them as ingredients at fixed values.",
 ['src/differentiable-function-set.cc','src/function/difference.cc','src/function/of-parameter-subset.cc',I+'affine-function.hh',I+'active-set-differentiable-function.hh',I+'differentiable-function-set.hh'],[('impl_compute/impl_jacobian',I)])
p('C24','Symbolic expressions evaluate and differentiate exactly',
 "Expressions built from points, vectors, sums, differences, scalar, cross and rotation products and matrices of expressions return the value of the corresponding formula and its exact derivative, and a function built from an expression with a mask returns exactly the selected components.",
 ['inputs'],"all joint placements, joint Jacobians and coefficients (exact real arithmetic), expressions up to the stated depth",
 "Tests check six expressions numerically.",
 [I+'symbolic-calculus.hh',I+'symbolic-function.hh'],[('impl_value/impl_jacobian',I+'symbolic-calculus.hh')])
p('C25','Rotation and rigid-motion logarithms are exact inverses with exact Jacobians',
 "The logarithm of a rotation or rigid motion is the vector whose exponential gives it back, with norm of the rotation part at most pi, and its Jacobian is the derivative of the logarithm; conversion of a pose to a configuration stores its translation and a unit quaternion of its rotation.",
 ['inputs'],"all rotation axes and angles up to pi and all translations (exact real arithmetic, away from the documented small-angle approximations)",
 "Tests sample random rotations with a tolerance.",
 [I+'tools.hh'],[('logSO3, JlogSO3, logSE3, JlogSE3, se3ToConfig',I+'tools.hh')])
p('C26','Declared active parameters cover every actual dependency',
 "If a function declares a configuration (velocity) parameter inactive, its value does not depend on it and the corresponding Jacobian column is zero.",
 ['inputs','configurations'],"all values of active and inactive parameters for every function kind covered, on kinematic trees within the stated size",
 "Tests do not compare declared and actual dependencies.",
 ['src/generic-transformation.cc','src/generic-transformation/helper.hh','src/convex-shape-contact.cc','src/differentiable-function.cc'],[('setActiveParameters','src/generic-transformation/helper.hh')])
p('C27','Equality of functions and constraints is an equivalence that sees every parameter',
 "Comparing functions or constraints for equality is reflexive and symmetric, and two objects built with any differing parameter (frame, joint, mask, coefficient, interval, reference, shape) compare different while two built with the same parameters compare equal.",
 ['inputs'],"all parameter values within the stated sizes, for every function kind covered",
 "Tests compare a few hand-made pairs.",
 ['src/differentiable-function.cc','src/generic-transformation.cc','src/convex-shape-contact.cc',I+'affine-function.hh','src/implicit.cc'],[('isEqual / operator==','src')])
p('C28','Projectors and pseudo-inverse derived from a singular value decomposition are right',
 "Given any singular value decomposition, the helper functions return the pseudo-inverse and the orthogonal projectors onto kernel and image (of the matrix and of its pseudo-inverse) that this decomposition defines, for every rank.",
 ['inputs'],"all singular vectors and values of matrices within the stated sizes and all ranks",
 "One test on random matrices.",
 [I+'svd.hh'],[('pseudoInverse, projectorOnKernel, projectorOnSpan...',I+'svd.hh')])
p('C29','Saved and reloaded objects behave like the originals',
 "Serializing a function, constraint or solver and loading it back gives an object equal to the original, with the same parameters, right-hand side, comparison types, thresholds and verdicts.",
 ['inputs','histories'],"all numeric parameter values for every serializable kind covered, binary archive",
 "Tests round-trip a few objects and compare their text output.",
 ['src/implicit.cc','src/solver/hierarchical-iterative.cc','src/solver/by-substitution.cc','src/generic-transformation.cc','src/affine-function.cc'],[('serialize','src')])
p('C30','The configuration constraint measures the weighted distance to its goal',
 "The configuration constraint returns half the weighted squared distance between the argument and the goal, where the difference of rotations is their logarithm and weights are per degree of freedom, and its Jacobian is the derivative of that value.",
 ['inputs'],"all configurations, goals and weights over vector, circle, planar and spherical joints (exact real arithmetic)",
 "No test covers it.",
 ['src/configuration-constraint.cc'],[('ConfigurationConstraint','src/configuration-constraint.cc')])
p('C31','Line searches take admissible steps',
 "Every line search moves the configuration along the computed direction by a positive fraction of at most one of the full step, then saturates it; the sequence and error-based searches use their documented fractions. The backtracking search reports success only for a step with sufficient decrease of the squared residual, and otherwise leaves the result to its smallest fraction and reports failure. One step of the solver with explicit constraints is such a move followed by the explicit solution.",
 ['inputs','histories'],"all descent directions and residual sequences within the stated sizes",
 "Tests only check that solves usually converge.",
 [I+'solver/hierarchical-iterative.hh','src/solver/hierarchical-iterative.cc',I+'solver/impl/hierarchical-iterative.hh'],[('lineSearch functors','src/solver/hierarchical-iterative.cc')])
p('C32','Hierarchical descent: lower priorities never disturb higher ones',
 "The computed descent direction solves the first level in the least-squares sense with the smallest norm over the free variables, and each following level inside the kernel of the previous ones; levels without any active row and variables that are not free are ignored. When levels are solved one by one, a level is ignored as long as a previous one is not satisfied.",
 ['inputs'],"all Jacobians and residuals within the stated sizes",
 "Tests observe convergence only.",
 ['src/solver/hierarchical-iterative.cc'],[('computeDescentDirection','src/solver/hierarchical-iterative.cc')])
p('C33','Manipulability returns the documented determinant-based cost',
 "The manipulability function returns the non-negative cost derived from the logarithm of the product of singular values of the active Jacobian columns.",
 ['inputs'],"all Jacobians","Not tested.",
 ['src/manipulability.cc'],[('Manipulability','src/manipulability.cc')])
p('C34','Static stability functions vanish exactly on stable contacts',
 "The quasi-static stability functions are zero exactly when non-negative contact forces balance gravity.",
 ['inputs'],"all contact geometries","Tests sample random contacts.",
 ['src/static-stability.cc','src/qp-static-stability.cc'],[('StaticStability','src/static-stability.cc')])
p('C35','Constraint evaluation is safe from several threads',
 "Evaluating the same function object concurrently on different configurations gives each caller the value and Jacobian of its own argument.",
 ['schedules'],"all interleavings of two evaluations","Tests run one random schedule.",
 ['src/generic-transformation.cc','src/relative-com.cc'],[('DeviceSync','src')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
