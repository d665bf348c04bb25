#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p('C01', 'Link transforms implement the modified DH convention',
  'For every DH row (alpha, a, d, theta) the link transform, in both its symbolic and its numerical form, is Rot_x(alpha) Trans_x(a) Rot_z(theta) Trans_z(d): the modified (Craig) DH convention the documentation prescribes. It is always a rigid motion: the rotation block is orthonormal with determinant +1 and the last row is (0,0,0,1).',
  ['inputs'], 'all real alpha, a, d, theta (numbers, symbols, and multiples of pi/2 that simplify)',
  'Tests look at a few entries of one product for one 4-joint arm; a sign or factor wrong for other alpha never shows.',
  ['ikbtbasics/pykinsym.py'], [('Link_S, Link_N', 'ikbtbasics/pykinsym.py')],
  ['return value of the link transform functions'])

p('C02', 'Rotation, translation and inverse transform library is exact',
  'The elementary rotations about x, y and z (3x3 and 4x4, symbolic and numerical) are the right-handed rotations by the given angle, roll-pitch-yaw builds Rz(yaw) Ry(pitch) Rx(roll), and translation builders place exactly the given vector. For every rigid transform the library inverse is a true two-sided inverse. Symbolic and numerical variants agree for every argument.',
  ['inputs'], 'all angles, all translation vectors, all rigid 4x4 transforms',
  'No test calls any rotation builder, the RPY functions or the inverse directly; two numerical variants do not even run.',
  ['ikbtbasics/pykinsym.py'],
  [('RotX/Y/Z_S, _N, Rot*4, RPY3/RPY4, Trans4', 'ikbtbasics/pykinsym.py'), ('H_inv_S, H_inv_N', 'ikbtbasics/pykinsym.py')],
  ['return values of the library functions'])

p('C03', 'Forward kinematics is the ordered product of the link transforms',
  'For every six-row DH table, forward kinematics yields an overall end-effector transform equal, for all joint values and parameter values, to the ordered product of the six link transforms, and the numerical evaluation of it at a pose gives that value. Twist angles that are not multiples of 90 degrees may be replaced by named constants, but each such constant must be declared as a parameter whose stored value is the cosine/sine it stands for.',
  ['inputs', 'configurations'], 'all joint values and link parameters, over a family of DH tables (rotary/prismatic mixes, parallel/perpendicular/general twists)',
  'One test inspects four entries of a two-link product of one arm; no test checks the overall transform or the general-twist path.',
  ['ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py'],
  [('mechanism.forward_kinematics', 'ikbtbasics/kin_cl.py'), ('forward_kinematics_N', 'ikbtbasics/kin_cl.py')],
  ['overall transform, link transforms, parameter list and values after forward kinematics'])

p('C04', 'The Jacobian is the true velocity map of the arm',
  'For every arm (any mix of rotary and prismatic joints) the 6x6 Jacobian expressed in the end-effector frame maps joint rates to the linear and angular velocity of the end effector obtained by differentiating the forward kinematics: its upper half is the derivative of position and its lower half the angular velocity, both rotated into the end-effector frame.',
  ['inputs', 'configurations'], 'all joint positions, joint rates and link parameters, over a family of DH tables and all joint-type vectors',
  'The only Jacobian test is disabled ("reactivate this later"); none of the stable tests looks at a Jacobian entry.',
  ['ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py'],
  [('velocity propagation in mechanism.forward_kinematics', 'ikbtbasics/kin_cl.py'), ('ManipJacobian_S', 'ikbtbasics/pykinsym.py')],
  ['Jacobian and end-effector velocities after forward kinematics'])

p('C05', 'Inverse kinematics equations all hold at every reachable pose',
  'Every matrix equation handed to the inverse-kinematics solver is satisfied, in every entry, whenever the desired pose equals the arm\'s forward kinematics, for all joint values and parameters; and the first one is the pose equation itself so no constraint is lost. The set contains the equation obtained by moving each successive link transform to the desired-pose side, and the two forms that also move the last (and last two) link transforms across from the right.',
  ['inputs', 'configurations'], 'all joint values, parameters and poses, over a family of DH tables',
  'One test compares four entries of one of the eight equations for one arm.',
  ['ikbtbasics/kin_cl.py', 'ikbtfunctions/helperfunctions.py'],
  [('mechanism.get_mequation_set, matrix_equation', 'ikbtbasics/kin_cl.py'), ('ik_lhs', 'ikbtfunctions/helperfunctions.py')],
  ['the list of matrix equations and the flat equation list extracted from each'])

p('C06', 'Equations are sorted by number of unsolved unknowns, none lost',
  'Given any set of matrix equations, auxiliary equations and any solved/unsolved state of the unknowns, the scan places each equation of the matrix equations with exactly one unsolved unknown (an unknown occurring on both sides counted once) in the one-unknown list, each with two in the two-unknown list, and each with more in the three-or-more list; auxiliary equations with one or two unsolved unknowns are listed there too. No such equation is lost, none with a different count intrudes, no equation of the matrix equations appears twice, and each list is ordered by non-decreasing expression complexity. Re-scanning after some unknowns are solved gives the lists for the new state; the list-updating leaf does this for the robot on the blackboard.',
  ['inputs', 'histories'], 'all solved/unsolved assignments of the unknowns and all placements of unknowns in the equations, within the stated sizes',
  'Tests fix one equation set and one solved state.',
  ['ikbtbasics/ik_classes.py', 'ikbtfunctions/helperfunctions.py', 'ikbtleaves/updateL.py'],
  [('Robot.scan_for_equations, scan_Mequation, erank', 'ikbtbasics/ik_classes.py'), ('count_unknowns', 'ikbtfunctions/helperfunctions.py'), ('updateL.tick', 'ikbtleaves/updateL.py')],
  ['the three equation lists'])

p('C07', 'Sum-of-angles substitution preserves every equation',
  'When sums of joint angles are replaced by a new compound angle, every rewritten expression equals the original for all joint values once the compound angle is expanded by its defining equation. Each compound angle is introduced once, with an index naming exactly the joints in its sum, and its defining equation is recorded; no sine or cosine of a plain sum of two or three joint angles is left unreplaced. Sines and cosines of anything else (differences, multiples, angles plus a constant, sums of four or more angles) keep their meaning and do not make the substitution fail.',
  ['inputs', 'histories'], 'all joint values; expressions containing one or several two- and three-angle sums in any order, and any previously created compound angles',
  'Three tests fix one expression each; the result depended on iteration order before.',
  ['ikbtbasics/ik_classes.py'],
  [('sum_of_angles_sub, Robot.sum_of_angles_transform, get_variable_index', 'ikbtbasics/ik_classes.py')],
  ['rewritten expressions, unknown list, auxiliary equation list'])

p('C08', 'Algebraic solver is exact and declines what it cannot isolate',
  'When the algebraic solver claims an unknown, the expression it returns does not contain that unknown and equals it for every assignment of values that satisfies the equation it used (given a non-zero coefficient). It never claims an unknown that is inside a sine or cosine, appears non-linearly, or cancels out, and it does find an unknown that some single-unknown equation plainly determines linearly.',
  ['inputs'], 'all values of parameters and known quantities; equations linear or not in the unknown, unknown on either or both sides',
  'Tests fix one or two equations per shape and check printed forms or one numeric point.',
  ['ikbtleaves/algebra_solver.py'], [('linear_match, algebra_id, algebra_solve', 'ikbtleaves/algebra_solver.py')],
  ['unknown\'s solutions and readiness, behaviour tree status'])

p('C09', 'Sine-or-cosine solver returns both and only correct branches',
  'When an unknown is solved from an equation containing only its sine or only its cosine, every returned branch satisfies the source equation for all parameter values for which the inverse function argument is in range, and every angle satisfying the equation equals one of the returned branches modulo 2 pi. The returned expressions do not contain the unknown, and a shape that cannot be isolated is declined rather than mis-solved or ending in an error, while an equation plainly of the form coefficient times sine (or cosine) plus offset is solved.',
  ['inputs'], 'all parameter values in the solvable range; coefficients and offsets of any sign on either side of the equation',
  'Tests check a handful of numeric round trips.',
  ['ikbtleaves/sincos_solver.py'], [('sincos_id, sincos_solve', 'ikbtleaves/sincos_solver.py')],
  ['unknown\'s solutions, behaviour tree status'])

p('C10', 'A sin + B cos = C solver returns both and only correct branches',
  'When an unknown is solved from an equation A sin(u) + B cos(u) = C, each returned branch satisfies the equation for all A, B, C for which it is solvable, and every angle satisfying the equation equals one of the branches modulo 2 pi, including the C = 0 case. The equation may carry offsets on either side; the returned expressions do not contain the unknown; an equation plainly of this form is not declined.',
  ['inputs'], 'all parameter values with A^2+B^2 >= C^2 and (A,B) not both zero',
  'Tests check a few numeric round trips and printed forms.',
  ['ikbtleaves/sinANDcos_solver.py'], [('sinandcos_id, sinandcos_solve', 'ikbtleaves/sinANDcos_solver.py')],
  ['unknown\'s solutions, behaviour tree status'])

p('C11', 'Tangent solver returns the correct quadrant',
  'When an unknown is solved from a pair of equations giving its sine and its cosine up to coefficients, the true angle satisfying both equations equals the returned solution (or, where two candidates differing by the sign of a common factor are returned, the one whose stated sign assumption holds) for all non-degenerate parameter values. The returned expressions do not contain the unknown and pairs which do not have this shape are declined. A pair plainly of this shape is solved (a pair whose two right-hand constants are both zero may be declined).',
  ['inputs'], 'all parameter values with the needed coefficient non-zero, either sign',
  'Tests check one numeric point per branch.',
  ['ikbtleaves/tan_solver.py'], [('tan_id, tan_solve', 'ikbtleaves/tan_solver.py')],
  ['unknown\'s solutions and assumptions, behaviour tree status'])

p('C12', 'Two-equation solver solves the pair exactly',
  'When an unknown is solved from two simultaneous equations A sin(u) + B cos(u) = C and A cos(u) - B sin(u) = D (up to order and overall sign), the returned angle is the unique angle satisfying both, for all parameter values with A and B not both zero. Pairs that do not have this form are declined and the solution does not contain the unknown; a pair plainly of this form is solved (it may be declined when C and D are both zero).',
  ['inputs'], 'all parameter values; either order and sign of the second equation',
  'Tests check a few concrete pairs.',
  ['ikbtleaves/two_eqn_m7.py'], [('simu_id, canonical_second_eqn, simu_solver', 'ikbtleaves/two_eqn_m7.py')],
  ['unknown\'s solutions, behaviour tree status'])

p('C13', 'Equation transforms only add consequences of existing equations',
  'Every equation that the square-and-add transform or the matrix substitution transform produces holds at every joint configuration and parameter value at which the original equations hold (with compound angles expanded), the square-and-add transform takes its pair from the two-unknown equations and its new equation has exactly one unknown, and a matrix substitution never leaves an equation with more unknowns than before. Transforms never change the meaning of the equations already present.',
  ['inputs', 'histories'], 'all joint values and parameters; equation pairs from arms with planar sections and synthetic pairs with symbolic coefficients',
  'Tests check one stored example each.',
  ['ikbtleaves/x2y2_transform.py', 'ikbtleaves/sub_transform.py'],
  [('x2z2_transform', 'ikbtleaves/x2y2_transform.py'), ('sub_transform', 'ikbtleaves/sub_transform.py')],
  ['equation lists and auxiliary equations after the transform'])

p('C14', 'Solved unknowns are recorded consistently',
  'Each time an unknown is solved it gets the next solve-order number, its dependencies are exactly the unknowns appearing in its solutions, one distinct name per solution, and a version count equal to its number of solutions times the product of its dependencies\' solution counts; the dependency graph gains exactly one edge per dependency and so is acyclic. The record lists solved unknowns in solve order.',
  ['histories'], 'all solve histories within the bound: any number of solutions per unknown and any dependency pattern on earlier unknowns',
  'One test solves one or two unknowns by hand.',
  ['ikbtbasics/kin_cl.py', 'ikbtbasics/solutionGraphV3.py', 'ikbtfunctions/helperfunctions.py'],
  [('unknown.set_solved', 'ikbtbasics/kin_cl.py'), ('get_deps', 'ikbtfunctions/helperfunctions.py'), ('Node, Edge', 'ikbtbasics/solutionGraphV3.py')],
  ['solve order, dependencies, names, versions, edges'])

p('C15', 'Competing solver results are ranked correctly',
  'When both an arcsine/arccosine solution and an arctangent solution are available for an unknown, the one with fewer branches is adopted and on a tie the arctangent is preferred unless the arcsine/arccosine solution mentions fewer already solved unknowns; when only one is available it is adopted, and when none is the unknown is left unsolved. The adopted solutions, their count, source equation and method agree with each other, and the unknown is marked solved exactly once.',
  ['inputs', 'histories'], 'all combinations of availability, branch counts and variable counts for all unknowns on the board',
  'Tests fix three combinations.',
  ['ikbtleaves/rank_leaf.py'], [('rank.tick', 'ikbtleaves/rank_leaf.py')],
  ['adopted solutions and status'])

p('C16', 'Solution sets enumerate every consistent branch combination once',
  'The generated solution poses contain one pose per combination of branch choices of the solved unknowns, each combination exactly once. In every pose each unknown\'s equation is one of its solved branches with each unknown it depends on replaced by the value of that unknown in the same pose, and every name a pose refers to is defined by exactly one versioned equation, whose own names all belong to that same pose.',
  ['histories', 'configurations'], 'all solve orders, branch counts (one or two each, as the solvers produce) and dependency patterns within the bound',
  'No test calls the solution-set generation or the versioned-equation generation.',
  ['ikbtbasics/ik_classes.py'], [('Robot.create_solution_set, Robot.make_LHS_versions', 'ikbtbasics/ik_classes.py')],
  ['solution list, solution set, final equation matrix'])

p('C17', 'Generated Python code computes the derived solutions',
  'The Python file generated for a solved arm parses, defines its solver function under a valid name, uses only names that are defined before use, and returns, for every pose and every parameter value for which the formulas are defined, exactly one solution vector per derived pose, whose entries equal the derived symbolic solutions, with the joints in one fixed order that is the same for every pose. When the argument of an inverse sine or cosine is out of range it returns False instead of a wrong or partial answer, and it accepts exactly the 4x4 targets. A generated forward-kinematics file parses and evaluates exactly the derived transform.',
  ['inputs', 'programs'], 'all poses and parameter values in the domain of the formulas; robot names, solve orders, branch counts within the bound',
  'No stable test runs a generator, let alone the generated code.',
  ['ikbtfunctions/output_python.py', 'ikbtbasics/ik_classes.py'],
  [('output_python_code, output_FK_python_code', 'ikbtfunctions/output_python.py')], ['generated Python file'])

p('C18', 'Generated C++ code computes the derived solutions',
  'The C++ file generated for a solved arm is well formed and its assignment statements, read as real arithmetic, give every joint variable of every solution pose the value of the derived symbolic solution, with powers and divisions keeping their real-number meaning (no integer division), each pose stored with its joints in one fixed order. It only uses declared and initialised variables and stays inside its arrays, and its return code is 0 when the argument of an inverse sine or cosine is out of range and 1 otherwise.',
  ['inputs', 'programs'], 'all poses and parameter values in the domain of the formulas; powers, rational coefficients, inverse functions, robot shapes within the bound',
  'No stable test runs the C++ generator.',
  ['ikbtfunctions/output_cpp.py'], [('output_cpp_code, cpp_output', 'ikbtfunctions/output_cpp.py')], ['generated C++ file'])

p('C19', 'LaTeX rendering of equations keeps their meaning',
  'The LaTeX text produced for an equation denotes the same left and right side as the equation itself for all values of its symbols: angle names are rendered as theta with the full subscript, multi-digit subscripts stay together, and no factor, sign or argument is altered. The report for a solved arm shows every unknown in solve order with every one of its solutions, all versioned equations, the solution sets, and the arm\'s DH table, transform and Jacobian as derived.',
  ['inputs', 'programs'], 'all symbol values; equations built from the operators solutions use, nested within the bound',
  'One test compares two literal strings.',
  ['ikbtbasics/kin_cl.py', 'ikbtfunctions/helperfunctions.py', 'ikbtfunctions/output_latex.py'],
  [('kequation.LaTexOutput', 'ikbtbasics/kin_cl.py'), ('theta_expand', 'ikbtfunctions/helperfunctions.py'), ('output_latex_solution', 'ikbtfunctions/output_latex.py')], ['LaTeX text'])

p('C20', 'Behaviour-tree composites follow their documented semantics',
  'A sequence runs its children in order until one does not succeed and returns that status, or success if all succeed; a priority runs children in order until one does not fail and returns that status, or failure if all fail; an or-node runs every child and succeeds unless all fail. The memory variants additionally resume at the child that was running on the previous tick and start from the first child otherwise.',
  ['inputs', 'histories'], 'all child status sequences (success, failure, running, error) over several ticks, for any number of children within the bound, nested composites',
  'The stable tests contain no behaviour-tree test at all; the memory variants crash under Python 3.',
  ['b3/composites/sequence.py', 'b3/composites/priority.py', 'b3/composites/ornode.py', 'b3/composites/mempriority.py', 'b3/composites/memsequence.py'],
  [('tick of each composite', 'b3/composites')], ['returned status and which children were ticked'])

p('C21', 'Behaviour-tree decorators follow their documented semantics',
  'The inverter swaps success and failure and passes other states on; the limiter lets its child complete at most the given number of runs per opening and fails after; the time limiter fails when the elapsed time since opening exceeds the limit; the repeaters re-run the child until the stated stop condition, never more than the given number of times, and report the child\'s last status (with a limit of zero runs the result is unspecified); the wait action keeps running until its time has passed and then succeeds. A decorator without a child reports an error.',
  ['inputs', 'histories'], 'all child status sequences, all loop limits within the bound, all clock readings, across several ticks',
  'No stable test exercises any decorator.',
  ['b3/decorators/inverter.py', 'b3/decorators/limiter.py', 'b3/decorators/maxtime.py', 'b3/decorators/repeater.py', 'b3/decorators/repeatuntilfailure.py', 'b3/decorators/repeatuntilsuccess.py', 'b3/actions/wait.py'],
  [('open/tick of each decorator', 'b3/decorators')], ['returned status and number of child executions'])

p('C22', 'Behaviour-tree life cycle and accounting are exact',
  'Each execution of a node calls enter, open (only if the node is not already open), tick, close (only if the result is not running) and exit in that order, so that every open is matched by at most one close and a running node is not re-opened. Per-node tick and success counts, the total cost (every execution adds the node\'s own cost, the cost of a composite being the sum of the costs of the children it ran) and the success probability equal what the history of executions implies.',
  ['histories'], 'all status histories over several tree ticks within the bound, all integer costs, any set of nodes',
  'No stable test ticks a tree of running nodes or reads the counters.',
  ['b3/core/basenode.py', 'b3/core/behaviortree.py', 'b3/core/tick.py'],
  [('BaseNode._execute and callbacks', 'b3/core/basenode.py'), ('BehaviorTree.tick', 'b3/core/behaviortree.py'), ('Tick', 'b3/core/tick.py')], ['callback trace, counters'])

p('C23', 'Blackboard scopes are isolated and read back what was written',
  'A value written to the blackboard in a scope (global, per tree, per node within a tree) is what a later read in the same scope and key returns, until overwritten, and is invisible in every other scope and key. Incrementing an integer counter adds exactly the given amount in the given scope only.',
  ['histories'], 'all sequences of set, get and increment within the bound over several trees, nodes and keys, all values',
  'No stable test checks scoping.',
  ['b3/core/blackboard.py'], [('Blackboard.set/get/inc', 'b3/core/blackboard.py')], ['values returned by get'])

p('C24', 'Saved behaviour trees load back to the same tree',
  'Dumping a behaviour tree to its dictionary form and loading that form back gives a tree with the same root, node kinds, titles, properties, parameters, the same node settings (limits), tree title and properties, and the same children in the same order, so it behaves identically when ticked.',
  ['programs', 'histories'], 'all tree shapes within the bound, all child statuses',
  'No test uses dump or load.',
  ['b3/core/behaviortree.py'], [('BehaviorTree.dump, BehaviorTree.load', 'b3/core/behaviortree.py')], ['structure and status of the reloaded tree'])

p('C25', 'Work assignment is fair and completion is reported truthfully',
  'The work assigner always picks an unsolved unknown as current, cycling through the unknowns so that each unsolved unknown is picked once before any is picked again, and reports failure only when none is left. Completion detection reports success exactly when every unknown is solved (inverted when told to fail on completion).',
  ['histories', 'inputs'], 'all solved/unsolved patterns, all starting counters, over several ticks during which unknowns get solved',
  'No stable test ticks either leaf.',
  ['ikbtleaves/assigner_leaf.py', 'ikbtleaves/comp_detect.py'], [('assigner.tick', 'ikbtleaves/assigner_leaf.py'), ('comp_det.tick', 'ikbtleaves/comp_detect.py')], ['current unknown, status'])

p('C26', 'Equality and hashing of equations, unknowns, nodes and edges agree',
  'Two equations compare equal exactly when their left sides are the same and their right sides are the same; comparison is reflexive and symmetric, inequality is its negation, and equal objects (equations, unknowns, graph nodes, edges) have equal hashes, so sets and membership tests neither merge different items nor keep duplicates.',
  ['inputs'], 'all pairs of equations/unknowns/nodes/edges over the bounded expression family, all coefficient values',
  'One test checks one unknown against itself.',
  ['ikbtbasics/kin_cl.py', 'ikbtbasics/solutionGraphV3.py'], [('kequation.__eq__/__hash__, unknown.__eq__/__hash__', 'ikbtbasics/kin_cl.py'), ('Node, Edge', 'ikbtbasics/solutionGraphV3.py')], ['== and hash()'])

p('C27', 'Cached kinematics are equivalent to fresh ones and staleness is caught',
  'Loading an arm\'s kinematics from the cache gives the same equations, parameters and unknowns as computing them afresh, and a cache whose DH table differs in any entry from the requested one is rejected before it is used for solving, while an identical table is accepted. A cached request uses the numeric parameter values of that request, and solving an arm twice gives the same parameters and solutions.',
  ['inputs', 'histories'], 'all DH tables of the bounded size with all symbolic/numeric entry values; first-run and second-run histories',
  'No stable test compares a cached result with a fresh one or trips the staleness check.',
  ['ikbtbasics/ik_classes.py'], [('kinematics_pickle, check_the_pickle', 'ikbtbasics/ik_classes.py')], ['returned objects, rejection'])

p('C28', 'Every documented robot model is usable as documented',
  'Every robot name the program lists yields a model: a six-row DH table, a joint-type vector matching which DH column holds the joint variable, joint unknowns numbered 1..n in chain order and each occurring once in the table, every other symbol of the table declared as a constant parameter, and numeric values given for declared parameters only. Unknown names are rejected.',
  ['configurations'], 'all listed robot names; all DH rows',
  'Tests load no robot definition by name.',
  ['ikbtfunctions/ik_robots.py'], [('robot_params', 'ikbtfunctions/ik_robots.py')], ['returned model'])

p('C29', 'Solved joint values reproduce the pose end to end',
  'For an arm the solver reports as fully solved, at every non-degenerate pose reachable with some joint values, one of the generated solution poses consists of those same joint values (modulo 2 pi), and every generated pose satisfies, for a generic reachable target, the forward kinematics it was derived from. A run that cannot solve anything ends without an error.',
  ['inputs', 'configurations'], 'all joint values and link parameters of small arms (two to four moving joints, rotary and prismatic) and of the listed robots whose formulas the solver can decide, through the complete unmodified solving pipeline',
  'No stable test runs the whole pipeline.',
  ['ikSolver.py', 'ikbtleaves', 'ikbtbasics', 'b3'], [('behaviour tree of ikSolver', 'ikSolver.py')], ['final equation matrix'])

p('C30', 'Expression helpers answer exactly what they are asked',
  'Helpers that list or count unknowns of an expression report exactly the (unsolved) unknowns that occur in it, finding an unknown by symbol returns that unknown, angle wrapping returns an angle in [-pi, pi) congruent to its argument within its working range, the approximate-equality test is symmetric and accepts exactly differences below its tolerance, degrees convert to radians exactly to double precision, and the compact sine/cosine notation used for display denotes the same expression.',
  ['inputs'], 'all numeric arguments in range; all subsets of unknowns present/solved within the bound',
  'Tests check single examples of a few helpers and none of the numeric ones.',
  ['ikbtfunctions/helperfunctions.py', 'ikbtbasics/pykinsym.py'],
  [('count_unknowns, get_unknowns, get_variables, find_obj, get_deps', 'ikbtfunctions/helperfunctions.py'), ('wrap_angle_N, approx_N, deg', 'ikbtbasics/pykinsym.py')], ['return values'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
