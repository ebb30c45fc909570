"""Writes /verif/properties.jsonl (the text lives here so that it can be edited in one place)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=None)))


KIN, IKC = "ikbtbasics/kin_cl.py", "ikbtbasics/ik_classes.py"

prop("C01", "Symbolic forward kinematics equals the product of the DH link transforms",
     "For every serial arm of up to six joints given by a Denavit-Hartenberg table (revolute or prismatic joints, any twist angles), the computed base-to-tool transform and each link transform equal, at every joint configuration and every parameter value, the product of the standard (Craig) DH link matrices. Evaluating the arm numerically through the numeric forward-kinematics interface gives the same pose.",
     ["inputs", "configurations"], "all DH tables with up to 6 rows, all parameter values, all joint configurations",
     "The tests compare a handful of entries for the Puma; they fix one arm and one twist pattern.",
     [KIN, "ikbtfunctions/helperfunctions.py"], [("mechanism.forward_kinematics", KIN), ("mechanism.forward_kinematics_N", KIN)],
     ["T_06 / Ts of the mechanism after forward kinematics"])
prop("C02", "Initial inverse-kinematics equations hold at every true configuration",
     "The matrix equations set up for an arm, before and after products of sines and cosines of parallel joints are rewritten with sum-of-angle variables, are true element by element whenever the pose symbols take the pose of a configuration, the joint symbols its joint values, and each sum variable the sum of the joints in its defining equation. The set contains the direct pose equation and the equations in which the first one to five links, the first and the last link, or the first two and the last two links have been moved to the side of the pose, none of which loses the pose entries or joint variables.",
     ["inputs", "configurations"], "all arms; all configurations and parameter values",
     "Tests check the form of a few equations of one or two robots.",
     [KIN, IKC], [("mechanism.get_mequation_set", KIN), ("Robot.sum_of_angles_transform", IKC)], ["Robot construction", "sum-of-angles scan"])
prop("C03", "Equations derived during solving remain true",
     "Every equation that is created or rewritten while a robot is being solved (sum-of-squares equations, substitutions of already known expressions, refreshed equation lists, equations selected to solve an unknown) holds at every configuration of the arm, with the pose symbols taken from that configuration's true pose. Rewriting the matrix equations loses none of them: at a configuration they restrict the joints as much as before.",
     ["inputs", "histories"], "every equation appearing at any step of the solving history of any arm, at all configurations",
     "Tests look at single leaves with one hand-made equation; nothing checks the equations appearing in a whole solve.",
     ["ikbtleaves/x2y2_transform.py", "ikbtleaves/sub_transform.py", "ikbtleaves/updateL.py", "ikbtleaves/sum_id.py", IKC],
     [("x2z2_transform", "ikbtleaves/x2y2_transform.py"), ("sub_transform", "ikbtleaves/sub_transform.py")], ["after every tick of a transform leaf"])
prop("C04", "Equation lists are classified by the number of unsolved unknowns",
     "Whenever the equation lists are (re)built from the matrix equations, the one-unknown list holds exactly the equations with one unsolved unknown and the two-unknown list exactly those with two, the third list only equations with three or more (an unknown being counted once for each side of the equation it appears on), including the sum-of-angle definitions and added sum-of-squares equations for the first two lists; the lists handed to the solvers hold each of these also in the form 0 = difference, classified by the unsolved unknowns of the difference. No matrix element with an unsolved unknown is left out, none without one is included, equal elements are listed once, each list is ordered by increasing size (the difference forms may follow), and solved unknowns do not count.",
     ["inputs", "histories"], "every scan in every solving history, and arbitrary matrix equations and solved/unsolved states",
     "The tests assert list lengths for the Puma's first scan only.",
     [IKC, "ikbtleaves/updateL.py", "ikbtfunctions/helperfunctions.py"], [("Robot.scan_for_equations", IKC), ("Robot.scan_Mequation", IKC), ("erank", IKC)],
     ["return of each scan"])

LEAF = "For every one-unknown equation list offered to it, the {} solver either declines (reports failure and leaves the unknown unsolved) or produces solutions {}. A produced solution never contains the unknown itself or any unsolved unknown, and no input makes the solver raise."
for cid, name, extra, file, why in [
    ("C05", "linear (algebra)", "that satisfy the chosen equation identically; any equation linear in an unknown that does not also appear inside a sine or cosine is solved", "ikbtleaves/algebra_solver.py", "The tests use a few literal equations."),
    ("C06", "arcsine / arccosine", "that satisfy the chosen equation wherever they are real, and the two branches together include every real solution of A sin(u) + B = C or A cos(u) + B = C with nonzero A", "ikbtleaves/sincos_solver.py", "Tests use a few coefficient patterns; coefficients' signs, form and side are not varied."),
    ("C07", "sine-and-cosine", "that satisfy A sin(u) + B cos(u) = C wherever they are real, and the two branches together include every real solution of it", "ikbtleaves/sinANDcos_solver.py", "Tests use four numeric equations."),
    ("C08", "two-argument arctangent", "such that the true angle of every consistent pair A sin(u) + B = 0, C cos(u) + D = 0 is among them, with exactly one solution when the coefficients are known and two when an unsolved common factor cancels", "ikbtleaves/tan_solver.py", "Tests cover a few pairs with positive coefficients."),
    ("C09", "simultaneous-equation", "such that every angle satisfying both A sin(u) + B cos(u) = C and A cos(u) - B sin(u) = D is the (single) solution, whatever the order and overall sign of the two equations", "ikbtleaves/two_eqn_m7.py", "Tests cover a few hand-made pairs.")]:
    prop(cid, f"The {name} solver returns exactly the solutions", LEAF.format(name, extra), ["inputs"],
         "all equations/pairs with arbitrary coefficient expressions, signs, sides and distractor equations", why, [file],
         [(name, file)], ["the solver leaf ticked alone, and in every full solve"])
prop("C10", "The sum-of-squares transform is sound, and works for th_2 and th_3",
     "Offered equation lists, the sum-of-squares transform either fails without changing the equation set or adds one equation that holds wherever the two it combined hold and contains exactly one unsolved unknown, and notes itself in the method of that unknown and of no other. It finds such a pair (for the unknowns it is meant for) whenever squaring and adding two of the position equations leaves one unsolved unknown, and never raises or modifies the equations it was given.",
     ["inputs"], "all equation lists, orderings, solved states and signs",
     "Two tests with one fixture.", ["ikbtleaves/x2y2_transform.py"], [("x2z2_transform", "ikbtleaves/x2y2_transform.py")], ["the transform ticked alone"])
prop("C11", "Solve bookkeeping is consistent",
     "In every solve each unknown is solved at most once, with at least one solution, solve order numbers 1,2,3,... and a recorded method; its solutions contain only parameters, pose entries and unknowns solved before it. Recorded dependencies, dependency edges, solution counts and version counts (own solutions times those of its direct dependencies) agree with the solutions, and solution nodes are in solving order. What has nothing to record, or depends on something unsolved, is refused. The step that chooses the next unknown never picks a solved one while others are unsolved and reaches each of those in turn; completion is reported exactly when all are solved.",
     ["inputs", "histories"], "every solve of every arm", "Tests check single solved variables of single robots.",
     ["ikbtbasics/kin_cl.py", "ikbtleaves/assigner_leaf.py", "ikbtfunctions/helperfunctions.py"], [("unknown.set_solved", KIN), ("get_deps", "ikbtfunctions/helperfunctions.py")], ["each set_solved and the end of the solve"])
prop("C12", "Solved robots: the true configuration is always among the solutions",
     "For every arm the tool solves completely, evaluating the reported symbolic solutions (in solve order, all branches) at the pose of any non-singular configuration gives a solution vector equal to that configuration; every joint gets a solution, and so does every variable standing for a sum of joints. Arms which the tool solves at the pinned revision (all but four of the catalogue) stay solved.",
     ["inputs", "configurations"], "all arms solved, all regular configurations, all parameter values",
     "Tests compare the symbolic form of a few solutions; they never evaluate an end-to-end solution.",
     ["ikSolver.py", "ikbtleaves/", IKC], [("ikSolver", "ikSolver.py")], ["end of the run"])
prop("C13", "Solution vectors enumerate every branch combination exactly once",
     "The final list of solution vectors has one vector for each combination of the solved unknowns' alternative solutions, each combination exactly once. Each vector gives every solved unknown, in solving order, one of its solutions in which the unknowns it depends on are replaced by versions of them; the version used, its entry in the reported name table, and the vector's own entry for that unknown all stand for the same alternative (with the same alternatives of everything that one depends on). Every version name is defined once; when nothing is solved there are no vectors.",
     ["inputs"], "all dependency structures and solution counts", "Tests compare fixed outputs of one robot.",
     [IKC], [("Robot.create_solution_set", IKC), ("Robot.make_LHS_versions", IKC)], ["end of the run", "synthetic solved robots"])
prop("C14", "Generated Python IK code computes the symbolic solutions",
     "The Python file generated for a solved robot is importable, and its inverse-kinematics function returns, for a reachable pose, exactly the solution vectors obtained by evaluating the reported symbolic solutions with the robot's parameter values, leaving out those that do not exist (arguments out of range); it returns False when none exists. It never raises, and the vector equal to the configuration that produced a regular pose is included.",
     ["inputs", "programs"], "all solved robots; all poses, reachable or not", "Tests only check that the generator runs.",
     ["ikbtfunctions/output_python.py"], [("output_python_code", "ikbtfunctions/output_python.py")], ["the generated file, executed"])
prop("C15", "Generated C++ IK code is valid and computes the symbolic solutions",
     "The C++ file generated for a solved robot compiles, and with its placeholders for parameter values filled in, computes for every pose the solution vectors obtained by evaluating the reported symbolic solutions, marking those that do not exist as not-a-number, and reports whether at least one exists. It has no undefined behaviour and no out-of-bounds access for any pose.",
     ["inputs", "programs"], "all solved robots; all poses, reachable or not", "Tests only run the generator for one robot.",
     ["ikbtfunctions/output_cpp.py"], [("output_cpp_code", "ikbtfunctions/output_cpp.py")], ["the generated file, compiled with sanitizers and executed"])
prop("C16", "The LaTeX report is complete, faithful and well-formed",
     "For every run (including runs where nothing is solved) the generated LaTeX document has balanced braces, math delimiters and environments, and contains the DH parameters, the forward-kinematics matrix, the list of unknowns, the Jacobian, and, in solving order, every solved unknown with each of its solutions; its method and the edges of the solution graph, one equation for each entry of each solution vector, and the table of the vectors; no solution is shown for an unknown that was not solved. Every formula shown means the same as the result it reports. The same holds for the forward-kinematics report (DH parameters, forward kinematics, Jacobian).",
     ["inputs", "programs"], "all robots, solved, partly solved or unsolved", "Tests only run the generator.",
     ["ikbtfunctions/output_latex.py", "ikbtfunctions/graph2latex.py"], [("output_latex_solution", "ikbtfunctions/output_latex.py")], ["the generated .tex file"])
prop("C17", "The symbolic Jacobian is the derivative of the forward kinematics",
     "For every arm, each column of the Jacobian that belongs to a joint equals, at every configuration and parameter value, the angular and linear velocity of the tool frame (expressed in the tool frame) produced by unit rate of that joint.",
     ["inputs", "configurations"], "all arms and configurations", "Tests check a few symbolic entries of one robot.",
     [KIN], [("mechanism.forward_kinematics", KIN)], ["J66 after forward kinematics"])
prop("C18", "Behaviour-tree nodes follow their tick semantics",
     "For every tree built from the provided composites and decorators and every sequence of child results over successive ticks, each tick returns the status the node types specify and ticks exactly the children they specify, in order: sequences stop at the first non-success, priorities at the first non-failure, memory variants resume where they were, the or-node ticks every child and succeeds unless all fail, repeaters, inverters, limiters (counting within one opening) and time limits behave as documented. Open/close/enter/exit callbacks are paired accordingly.",
     ["programs", "histories"], "all trees and all child-status histories", "Tests exercise a few trees with fixed leaves.",
     ["b3/"], [("composites", "b3/composites"), ("decorators", "b3/decorators"), ("BaseNode._execute", "b3/core/basenode.py")], ["status and tick log of instrumented leaves"])
prop("C19", "Saved trees reload equivalently and blackboard scopes are isolated",
     "Dumping a behaviour tree and loading it gives a tree of the same shape (node types, child order, titles, descriptions, properties, numerical parameters of the nodes) which behaves the same for every child-status history. Values stored on a blackboard are returned exactly for the scope (global, tree, tree-and-node) they were stored in and never leak to another scope.",
     ["programs", "histories"], "all trees; all sequences of blackboard operations", "Untested.",
     ["b3/core/behaviortree.py", "b3/core/blackboard.py"], [("BehaviorTree.dump/load", "b3/core/behaviortree.py"), ("Blackboard", "b3/core/blackboard.py")], ["dump/load round trips", "blackboard get/set"])
prop("C20", "Stored forward kinematics never change the result",
     "A run that uses stored forward kinematics of a robot gives the same equations, parameters and solutions as a run that computes them, including after a change of numerical parameter values; stored data for a different DH table are refused rather than used. A run killed at any moment while storing them leaves a directory in which later runs still work, and runs at the same time in one directory do not disturb each other.",
     ["crash_points", "histories"], "all orders of runs, changed inputs between runs, all crash points while storing", "Tests delete or reuse the cache as it happens to be.",
     [IKC], [("kinematics_pickle", IKC), ("check_the_pickle", IKC)], ["two successive runs in one directory"])
prop("C21", "Sum-of-angle variables are unique and mean what their names say",
     "The sum-of-angles step introduces at most one variable for each sum of joints, with an index and a name composed of the indices of exactly the joints in its single defining equation, and never uses the name of a different sum; after it, no sine or cosine of a sum of two or three plain joint variables remains in the processed equations. Repeating the step adds nothing.",
     ["inputs"], "all expressions with sums of up to three joint angles, all orders of discovery", "Tests check three literal expressions.",
     [IKC], [("sum_of_angles_sub", IKC), ("Robot.sum_of_angles_transform", IKC)], ["variables and equations after the sum-of-angles step"])
prop("C22", "Every robot of the catalogue is well-formed",
     "Every robot name the catalogue announces can be obtained, and its definition is consistent: six DH rows, one joint-type entry per row agreeing with the unknown in that row, every symbol of the table is either an unknown or a listed constant with a numerical value, every unknown appears in exactly one row, with its row number as index. Asking for an unknown robot ends with a message listing the known ones.",
     ["configurations"], "all catalogue names", "Tests load a few robots.",
     ["ikbtfunctions/ik_robots.py"], [("robot_params", "ikbtfunctions/ik_robots.py")], ["return value of robot_params for every listed name"])
prop("C23", "Numeric and symbolic kinematics utilities are mutually inverse and correct",
     "The homogeneous-transform utilities agree with their definitions for every argument: rotations are orthonormal and right-handed, the transform inverse is a true inverse for every rigid transform, a roll-pitch-yaw rotation is the product of the three axis rotations, angle wrapping returns an equivalent angle within [-pi, pi], and numeric versions equal symbolic ones.",
     ["inputs"], "all angles, rotations and rigid transforms, including singular ones", "Untested.",
     ["ikbtbasics/pykinsym.py"], [("pykinsym", "ikbtbasics/pykinsym.py")], ["function results"])
prop("C24", "Equality and hashing of equations and unknowns are consistent",
     "Unknowns, equations, solution nodes and edges that compare equal have equal hashes and can be used interchangeably in sets and dictionaries; equality is reflexive, symmetric and transitive, comparing with None gives False, and copying or pickling an object gives an equal one (as far as sympy re-creates its expressions). Equations with the same sides are equal, equations with different values on a side are not.",
     ["inputs"], "all pairs and triples of objects", "One literal equality test.",
     [KIN, "ikbtbasics/solutionGraphV3.py"], [("__eq__/__hash__", KIN)], ["==, hash, set membership"])
prop("C25", "Results do not depend on hash seeds or on the number of runs",
     "Running the solver for the same robot in different processes (different string-hash seeds, different directories) gives the same solved unknowns in the same order, with the same solutions, the same set of solution vectors (their order is free), and the same equations in the generated code.",
     ["schedules", "configurations"], "all hash seeds and environments", "Tests run once with whatever seed.",
     ["ikSolver.py", IKC, "ikbtfunctions/helperfunctions.py"], [("set iteration", IKC)], ["records of runs under several seeds"])
prop("C26", "The ranking step keeps the better of the alternative solutions",
     "When both an arctangent and an arcsine/arccosine solution exist for an unknown, the one with fewer alternatives is kept, and with the same number the one depending on fewer unknowns, preferring the arctangent on a tie; the solution list, count, dependencies and equation (both equations for an arctangent) are then those of the kept one only, and the recorded method ends with it. When only one kind exists it is kept unchanged, and when none exists the unknown stays unsolved and nothing is recorded. The step reports success in all cases and leaves other unknowns alone.",
     ["inputs"], "all combinations of candidate solution lists", "Four literal cases.",
     ["ikbtleaves/rank_leaf.py"], [("rank", "ikbtleaves/rank_leaf.py")], ["unknown after the ranking step"])
prop("C27", "Every run terminates normally and reports honestly",
     "For every arm in the supported class (six DH rows, joint variables th_i/d_i) a run ends by itself after a bounded number of passes, without an exception, and produces its outputs, also when nothing or only part can be solved; unknowns it could not solve are never presented as solved, and no solution is presented for them.",
     ["inputs"], "all arms, including those without closed form", "Tests run solvable robots only.",
     ["ikSolver.py", "ikbtleaves/comp_detect.py", "ikbtleaves/assigner_leaf.py"], [("RepeatUntilSuccess limits", "ikSolver.py"), ("comp_det", "ikbtleaves/comp_detect.py")], ["exit of the run, number of passes, outputs"])
prop("C28", "Expression helper functions agree with their definitions",
     "The helper functions agree with their definitions for every expression: counting or listing unknowns sees exactly the unsolved unknowns that occur in it (each once, in the order of the given list), listing variables or ranking by variables sees the occurring ones whether solved or not, dependencies are exactly the occurring unknowns when all are solved and an error otherwise, finding an unknown by symbol returns that object or None, ordering equations by size is a stable permutation with non-decreasing operation counts, abbreviating sines and cosines for printing never changes the value, the pose matrix holds the pose symbols in their places, and no helper modifies its arguments.",
     ["inputs"], "all expressions over the kinematic symbols", "Tests contain few literal cases.",
     ["ikbtfunctions/helperfunctions.py", "ikbtbasics/kin_cl.py"], [("count_unknowns, get_variables, get_deps, find_obj, notation_squeeze, erank", "ikbtfunctions/helperfunctions.py")], ["function results"])
prop("C29", "Generated forward-kinematics code computes the arm's pose",
     "The Python forward-kinematics module generated for a robot executes without error, and the base-to-tool transform it computes is, for every joint configuration filled in, the pose given by the DH link product with the robot's parameter values. Parameters that have no value are left for the user to fill in.",
     ["inputs", "programs"], "all robots, all configurations", "Untested.",
     ["ikbtfunctions/output_python.py", "fkOnly.py"], [("FK code generation", "ikbtfunctions/output_python.py")], ["the generated file, executed"])
prop("C30", "Every real solution vector satisfies the equations it came from",
     "For every arm, in every real solution vector at the pose of a configuration, each unknown satisfies the equation (or pair of equations) recorded as the one it was solved from, as far as these have a solution there. For arms with six independent joints, every real solution vector reproduces the pose when put back into the forward kinematics.",
     ["inputs", "configurations"], "all arms; all their reachable poses; all parameter values", "No test evaluates forward kinematics of a solution.",
     ["ikSolver.py", "ikbtleaves/"], [("solver leaves", "ikbtleaves/")], ["end of the run"])
prop("C33", "The solver gives up only when nothing it can solve is left",
     "When a run ends with unknowns unsolved (and did not solve one in each of its ten passes), no equation is left that one of its solvers is for: among the matrix equations the run ends with (as rewritten by then) and the added equations none holds exactly one unsolved unknown and is, multiplied out, linear in it, or linear in its sine and/or cosine with known coefficients; and no two of them hold the sine and the cosine of one unsolved unknown times the same unsolved factor with all other terms known. Every unknown left unsolved has been offered to the solvers again after the last success.",
     ["inputs", "histories"], "all arms and solving histories", "The tests tick single leaves; none runs the assembled tree to its end.",
     ["ikSolver.py", "ikbtleaves/assigner_leaf.py", "ikbtleaves/updateL.py", "ikbtbasics/ik_classes.py"],
     [("solveRoutine / subtree / worktools", "ikSolver.py"), ("assigner", "ikbtleaves/assigner_leaf.py"), ("Robot.scan_for_equations", "ikbtbasics/ik_classes.py")], ["equations and unknowns at the end of each run, and the trace of ticks"])
prop("C31", "Behaviour-tree nodes account for their ticks, successes and costs",
     "For every tree and tick history each node's tick counter and success counter (also by the node's state) equal the numbers of its ticks and successful ticks since it was made or reset; its success probability and utility follow from these and its cost as defined (a tenth, or one half per state, when there are no trials). A sequence, priority or or-node costs the sum of the children it ticked last; the blackboard's total grows with every tick of a node by its cost, and the tree reports the number of nodes visited and the nodes left running by the last tick. With logging on, each success (and at level two each failure) is written to the log in order of completion. Every leaf sees the target, blackboard and tree of the tick; increments add to the value of exactly their scope.",
     ["histories"], "all trees, child results, costs and resets", "No unit test looks at the counters.",
     ["b3/core/", "b3/composites/"], [("BaseNode._tick, prob, get_Utility, p_reset", "b3/core/basenode.py"), ("Blackboard.inc", "b3/core/blackboard.py"), ("Cost", "b3/composites/sequence.py")], ["node attributes, blackboard and log after each tick"])
prop("C32", "Each trigonometric solver solves the equations of its own form",
     "Offered an equation list that holds an equation (or pair) of exactly its own form, each trigonometric solver solves the unknown with it, whatever the known coefficients (numbers, parameters, solved unknowns, sums and powers of these), their signs, the known left side, the order of the list and the equations it has to pass over (of other unknowns, of none, or of the forms left to the other solvers): A sin(u) + B = C or A cos(u) + B = C for the arcsine / arccosine solver; A sin(u) + B cos(u) = C, on either side, for the sine-and-cosine solver; A sin(u) = B together with C cos(u) = D, also when A and C are products holding the same unsolved factor, for the arctangent solver; A sin(u) + B cos(u) = C together with A cos(u) - B sin(u) = D, in either order and with either overall sign, for the simultaneous-equation solver.",
     ["inputs"], "all coefficients, sides, orders and distractor equations", "Each solver's test offers one fixed list.",
     ["ikbtleaves/sincos_solver.py", "ikbtleaves/sinANDcos_solver.py", "ikbtleaves/tan_solver.py", "ikbtleaves/two_eqn_m7.py"],
     [("sincos_id / sincos_solve", "ikbtleaves/sincos_solver.py"), ("tan_id / tan_solve", "ikbtleaves/tan_solver.py"), ("simu_id", "ikbtleaves/two_eqn_m7.py")], ["the solver leaf ticked alone"])
prop("C35", "What was tried before, and in which order, never makes a result wrong",
     "In whatever order the unsolved unknowns are offered to the solvers, a run ends normally, each unknown is solved from unknowns solved before it only, with consecutive order numbers, and at a configuration of the arm the true value of each solved unknown is among its solutions (the unknowns these depend on having their true values), unless the equation it was solved from holds for every value of it. Likewise, when the solvers are offered one unknown repeatedly with different equation lists (all true at one configuration), whatever they identified or declined before, no offer makes them raise or leaves the unknown half solved, and the true value is among the solutions in the end.",
     ["schedules", "histories"], "all arms, orders of offering and histories of offers", "Tests tick each solver once, on a fresh unknown; full runs use one order.",
     ["ikbtleaves/", "ikSolver.py", "ikbtbasics/kin_cl.py"], [("solver leaves (flags kept on the unknown)", "ikbtleaves/"), ("unknown.set_solved", "ikbtbasics/kin_cl.py")], ["after each run; after each offer"])
prop("C34", "The substitution transform rewrites what it can and keeps it true",
     "Offered any matrix equations, one step of the substitution transform changes only elements of the first one's right side, each only by putting the left-side entry (or its negative) of another element in place of that element (or its negative) where it occurs, so that the equation stays true and holds fewer unsolved unknowns. An element which holds exactly one other such element (itself with nothing to replace) is rewritten; an element which holds none is left alone when nothing else is rewritten. When anything was rewritten, the equation lists on the blackboard are those of the rewritten equations. The step always reports success.",
     ["inputs"], "all matrix equations and solved states", "Its test offers two fixed matrices.",
     ["ikbtleaves/sub_transform.py", "ikbtbasics/ik_classes.py"], [("sub_transform.tick", "ikbtleaves/sub_transform.py"), ("Robot.scan_for_equations", "ikbtbasics/ik_classes.py")], ["the transform leaf ticked alone"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["title"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
