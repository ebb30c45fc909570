From a1ffa7624d0776c1d4e77f528e629d7ab6b6f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 01/26] fix: make every robot named in the catalogue obtainable

'Issue4' 'DZhang' lacked a comma, so the documented DZhang robot was refused,
and 'Chair6DOF' was listed without a definition (UnboundLocalError).
---
 ikbtfunctions/ik_robots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 33ace9c..306fbb2 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -45,7 +45,7 @@ def robot_params(name):
             'MiniDD', 
             'Olson13',
             'Stanford', 
-            'Chair6DOF',  # below not solvable yet
+            # below not solvable yet
             'Khat6DOF',    
             'Craig417', 
             'KawasakiRS05L',
@@ -53,7 +53,7 @@ def robot_params(name):
             'Khat6DOF',
             'Raven-II',
             'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13', 'Mackler13',
-            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4'
+            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4',
             'DZhang',
             'JennyGuoSp24']
     
-- 
2.43.0


From b902bee7980f68ce62ebfc5c64cb55fec49f4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 02/26] fix: MiniDD joint-type vector needs one entry per DH
 row

The forward kinematics reads vv[0..5]; five entries raised IndexError.
---
 ikbtfunctions/ik_robots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 306fbb2..948091b 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -366,7 +366,7 @@ def robot_params(name):
             [ -sp.pi/2 ,     0  ,   0   , th_5  ],
             [   0      ,     0  ,   0   ,   0   ]     
             ])
-        vv = [0,1,1,1,1]
+        vv = [0,1,1,1,1,0]
 
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5) ]
 
-- 
2.43.0


From 2d4dae2b413f81c7a42a12316d8ca4384eba3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 03/26] fix: assigner hands out an already solved unknown when
 it wraps around

After the last unknown the scan restarted at unknowns[0] whether or not it was
solved; that unknown was then solved a second time (extra solutions, solution
order and node list corrupted, e.g. ICP5p5_A21 and Parkman13).
---
 ikbtleaves/assigner_leaf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ikbtleaves/assigner_leaf.py b/ikbtleaves/assigner_leaf.py
index a4d478c..9a17e30 100644
--- a/ikbtleaves/assigner_leaf.py
+++ b/ikbtleaves/assigner_leaf.py
@@ -48,8 +48,14 @@ class assigner(b3.Action):
                 tick.blackboard.set("curr_unk", curr)
                 return b3.SUCCESS
                 
-        if counter >= len(unknowns):
-            counter = 0
+        # wrap around: go back to the first unknown which is still unsolved
+        counter = 0
+        for i, curr in enumerate(unknowns):
+            if not curr.solved:
+                print("\n\nAssigner: variable on blackboard: %s"%curr.symbol)
+                tick.blackboard.set("counter", i + 1)
+                tick.blackboard.set("curr_unk", curr)
+                return b3.SUCCESS
         tick.blackboard.set("counter", counter)
         tick.blackboard.set("curr_unk", unknowns[counter])
         return b3.SUCCESS
-- 
2.43.0


From d2d1257af6ce7fe06d3af1b51301d100f7891f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 04/26] fix: solution vectors must enumerate every branch
 exactly once

make_LHS_versions used the number of solutions of the last column for every
column (lost branches or IndexError), the first solved unknown kept its
'solution' name which the generated code never defines, three or more
solutions were replicated the wrong number of times, a second call doubled the
rows, and a run which solved nothing raised IndexError.
---
 ikbtbasics/ik_classes.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index fcf3dfe..7de98df 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -198,7 +198,11 @@ class Robot:
     #
     # class Robot
     def make_LHS_versions(self):
+        self.FinalEqnMatrix = []
+        self.nversions = 0
         nvers = len(self.solListMatrix)  # n versions
+        if nvers == 0:   # nothing was solved
+            return
         nunks = len(self.solListMatrix[0])  # n solved unknowns (cols)
         for row in range(nvers): # go through versions
             # get subs dict for this row
@@ -207,7 +211,6 @@ class Robot:
                 unk = n.unknown.name
                 subdict[unk] = self.solListMatrix[row][col]
 
-            nsols = self.solution_nodes[col].unknown.nsolutions
             #LHS: variable version #
             eqns_row = []
             for col in range(nunks): # go through unks in solution order
@@ -218,7 +221,7 @@ class Robot:
                 LHS =  sp.var(self.solution_nodes[col].name + 'v' + str(row+1)) #versions begin w/ 1
                 #LHS = theta_expand(LHS)
                 #print('\n\n   make_LHS_versions:         LHS: ', LHS , '\n\n')
-                thisSol = self.solution_nodes[col].unknown.solutions[row%nsols]
+                thisSol = self.solution_nodes[col].unknown.solutions[self.verListMatrix[row][col]]
                 RHS = thisSol.subs(subdict) # substitute versions for this row
                 thiseqn = kc.kequation(LHS,RHS)
                 eqns_row.append(thiseqn)
@@ -238,39 +241,36 @@ class Robot:
     def create_solution_set(self):
         # go through nodes in solution order
         solListMatrix = []  # a matrix, each row is a set of versions forming a solution
-        verListMatrix = []
+        verListMatrix = []  # same shape: index of the solution which each version stands for
         for node in self.solution_nodes:
             u = node.unknown
-            u_nvers = u.nversions
             u_nsols = u.nsolutions
             n_rows_solnM = len(solListMatrix)
 
-            # if this unk has multiple solutions, multiply rows (versions)
-            if u_nsols > 1: # if current nsol > 1
-                for i in range(u_nsols-1): # duplicate rows if needed to accomodate nsols of this unk
-                    solListMatrix += copy.deepcopy(solListMatrix)[::-1]
-                    verListMatrix += copy.deepcopy(verListMatrix)[::-1]
-
             if n_rows_solnM > 0:
+                # if this unk has multiple solutions, multiply rows (versions)
+                solListMatrix = [copy.copy(r) for i in range(u_nsols) for r in solListMatrix]
+                verListMatrix = [copy.copy(r) for i in range(u_nsols) for r in verListMatrix]
+
                 # add this node's solutions to form a new column
                 for i in range(len(solListMatrix)):  # go through each row and add next unk.
-                    rs = solListMatrix[i]
                     # LHS version names (version names start w/ 1)
                     u.LHSversionNames.append(u.name + 'v' + str(i+1)) # not modded by nsolutions.  For final LHS of eqn
-
-                    rs.append(u.LHSversionNames[i])           # version-based version names
+                    solListMatrix[i].append(u.LHSversionNames[i])           # version-based version names
+                    # each of the copies of a row gets a different solution
+                    verListMatrix[i].append((i%n_rows_solnM + i//n_rows_solnM) % u_nsols)
 
             else: # first time through
-                #print('first solved unk:', u.details())
-                for vn in u.versionNames:  #start new row for all solns of first solved unk.
-                    solListMatrix.append([vn])
-                    #solListMatrix.append([u.name+'v'+'1'])
-                    #print('create_solution_sets: creating ', u, solListMatrix)
+                for i in range(u_nsols):  #start new row for all solns of first solved unk.
+                    u.LHSversionNames.append(u.name + 'v' + str(i+1))
+                    solListMatrix.append([u.LHSversionNames[i]])
+                    verListMatrix.append([i])
             #print('---')
             #print(solListMatrix)
         print('====== SOLUTION LIST COMPLETED: ================')
 
         self.solListMatrix = solListMatrix  # soltions in list-of-lists form (nversions rows by nunknowns colums)
+        self.verListMatrix = verListMatrix  # solution indices, in the same form
         self.solutionSet = set()            # solutions as a set of tuples (v2 output compatibility)
 
         for row in solListMatrix:
-- 
2.43.0


From 99485f753b747c2945770a66a917626e980c1525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 05/26] fix: Mackler13 parameter list lacks h, Sims11
 joint-type vector has an extra entry

The generated Python code for Mackler13 used the undefined name h.
---
 ikbtfunctions/ik_robots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 948091b..2db4fbd 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -428,7 +428,7 @@ def robot_params(name):
             [0.,        0.,         0.,         0.]
             ])
             
-        vv = [0, 0, 1, 1, 1, 1, 1]
+        vv = [0, 0, 1, 1, 1, 1]
         variables = [unknown(d_1), unknown(d_2), unknown(th_3), unknown(th_4), unknown(th_5)]
         params = [l_1, l_2, l_3]
         pvals = {l_1: 5, l_2:2, l_3:4}
@@ -481,8 +481,8 @@ def robot_params(name):
         sp.var('l_3')
         vv = [0, 1, 1, 1, 1, 0]
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5)]
-        params = [l_1, l_2, l_3]
-        pvals = {l_1:2, l_2:2, l_3: 4}
+        params = [h, l_1, l_2, l_3]
+        pvals = {h:1, l_1:2, l_2:2, l_3: 4}
 
     if(name == 'Minder13'):
         # Minder 2013sp
-- 
2.43.0


From f4155d9697e51c2ba34af085c61eaa7ee803ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 06/26] fix: LaTeX report crashes with IndexError when no
 unknown was solved

---
 ikbtfunctions/output_latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/output_latex.py b/ikbtfunctions/output_latex.py
index 88f7781..88e0e74 100644
--- a/ikbtfunctions/output_latex.py
+++ b/ikbtfunctions/output_latex.py
@@ -322,7 +322,7 @@ The following are the sets of joint solutions (poses) for this manipulator:
 
 
     ####################  Solution sets Table form
-    ncols = len(list(Robot.solutionSet)[0])
+    ncols = max([1] + [len(s) for s in Robot.solutionSet])  # (there may be no solutions)
     colstr = '|' + 'l|'*ncols
     tablestr = r'\section{Solution Set v3} \begin{tabular}{' + colstr + r'}\hline' + eol
     for s in Robot.solutionSet:
-- 
2.43.0


From 7fb9145e7bfdc4e710c62516515626e754f07b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 07/26] fix: generated Python IK code is not valid Python and
 loses solutions

Python 2 print statements, a broken message string, parameters at column 0 inside
the function and a function name with a backslash made the file a syntax error;
solutions of the sinANDcos / simultaneous / x2z2 methods were never emitted;
asin solutions were emitted twice, with their argument found by a greedy regex;
and one non-existing branch made a reachable pose unsolvable (or raised a domain
error).  Branches which do not exist for a pose now evaluate to nan and are
dropped from the result.
---
 ikbtfunctions/output_python.py | 83 ++++++++++++----------------------
 1 file changed, 29 insertions(+), 54 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 8853fbf..c19b938 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -167,18 +167,24 @@ def output_python_code(Robot, groups):
 #  Python inverse kinematic equations for **Robot**
 
 import numpy as np
-from math import sqrt
+import math
 from math import atan2
 from math import cos
 from math import sin
-from math import acos
-from math import asin
 
 pi = np.pi
 
+# a branch of the solution which does not exist for the target pose evaluates to nan
+def sqrt(x):
+    return math.sqrt(x) if x >= 0 else math.nan
+
+def asin(x):
+    return math.asin(x) if abs(x) <= 1 else math.nan
+
+def acos(x):
+    return math.acos(x) if abs(x) <= 1 else math.nan
+
 '''
-    fixed_name = Robot.name.replace(r'_', r'\_')  # this is for LaTex output
-    fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
 
     DirName = 'CodeGen/Python/'
@@ -188,15 +194,13 @@ pi = np.pi
     importString = importString.replace('**Robot**', Robot.name)
     print(importString, file=f)
 
-    # parameter Declarations (a_3, d_5, etc).
+    # parameter Declarations (a_3, d_5, etc).   (they go inside the function body)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
-            val = str(Robot.Mech.pvals[p])
-            tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
-            tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
+            tmp += '    ' + str(p) + ' = ' + str(Robot.Mech.pvals[p]) + '\n'
+        else:                      # no stored numerical value
+            tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
 
@@ -206,7 +210,7 @@ pi = np.pi
 
     indent = '    ' # 4 spaces
 
-    funcname = 'ikin_'+fixed_name 
+    funcname = 'ikin_' + re.sub(r'\W', '_', orig_name)   # must be a python identifier
     print('''
 # Auto Generated Code to solve the unknowns
 #        parameter:  T   4x4 numerical target for T06
@@ -214,7 +218,7 @@ pi = np.pi
 ''', file=f)
     print('def', funcname +'(T):', file=f) # no indent
     print(indent+'if(T.shape != (4,4)):', file=f)
-    print(indent*2 + 'print ( "bad input to "+funcname'+')', file=f)
+    print(indent*2 + 'print ( "bad input to ' + funcname + '")', file=f)
     print(indent*2 + 'quit()', file=f)
     print('''#define the input vars 
     r_11 = T[0,0]
@@ -240,24 +244,6 @@ pi = np.pi
     print(par_decl_str, file=f)
 
 
-    print(indent + 'print ( " Caution - this code has no solution checking.")', file=f)
-    print(indent + 'print ("in case of domain errors, change the test position / orientation ")', file=f)
-    print(indent + 'print ( " to a pose reachable by your specific robot")', file=f)
-    print(indent + '', file=f)
-    print(indent + 'solvable_pose = True', file=f)
-    print(indent + '''
- 
-#############################################################
-#
-# Future reachable pose checking code (autogenerated) will go here
-#
-#    This code will check asin / acos args etc to determine
-#
-#        solvable_pose = True/False
-#
-#############################################################
- ''', file=f) 
- 
     for node in nlist:  # for each solved var
         print('\n', file=f)
         print(indent + '#Variable: ', str(node.symbol), file=f)
@@ -268,22 +254,7 @@ pi = np.pi
             # get the solution equation version
             solEqnVer = Robot.FinalEqnMatrix[rowindex][colindex]
             print('Python Output: Solution Equation Version: ', solEqnVer)
-            if re.search('asin', str(solEqnVer.RHS)) or re.search('acos', str(solEqnVer.RHS)):
-                print ('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                print(indent + 'if (solvable_pose and abs', tmp.group(0), ' > 1):', file=f)
-                print(indent*2 + 'solvable_pose = False', file=f)
-                print(indent + 'else:', file=f)
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent*2 + tmp, file=f)
-            if re.search('atan', str(solEqnVer.RHS)):
-                print('  Found atan2 solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent + tmp, file=f)
-            if node.solvemethod == 'algebra':
-                print('  Found algebra solution ... ' , solEqnVer.LHS , ' = ', solEqnVer.RHS)
-                print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
+            print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
 
     print('''
 ##################################
@@ -323,8 +294,9 @@ pi = np.pi
         print('] )', file=f)
 
 
-    # we are done.   Return
-    print(indent + 'if(solvable_pose):', file=f)
+    # we are done.   Return the solutions which exist for this pose
+    print(indent + 'solution_list = [s for s in solution_list if not any(math.isnan(v) for v in s)]', file=f)
+    print(indent + 'if(solution_list):', file=f)
     print(indent*2 + 'return(solution_list)', file=f)
     print(indent + 'else: ', file=f)
     print(indent*2 + 'return(False)', file=f)
@@ -379,12 +351,15 @@ if __name__ == "__main__":
 
     list = ''' + funcname + '''(T1)
 
+    if list is False:
+        print('Pose is not reachable')
+        list = []
     i = 0
     for sol in list:
-        print ''
-        print 'Solution ', i
+        print('')
+        print('Solution ', i)
         i+=1
-        print sol
+        print(sol)
 
 
     ''', file=f)
-- 
2.43.0


From 5417615fb7ce42330fb5477c8c27b2479003280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 08/26] fix: generated C++ IK code does not compile and
 overruns the solution list

'\\' is not a comment, arcsin()/arccos() are not C++, statements lacked ';', only
some of the assigned variables were declared, ** was only partly translated, both
branches of an asin/acos solution were the same, sinANDcos solutions were never
emitted, and robots with more than 6 solved unknowns wrote outside of the rows of
solution_list[64][6].
---
 ikbtfunctions/output_cpp.py | 78 ++++++++++---------------------------
 1 file changed, 20 insertions(+), 58 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 771d17b..1095681 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -68,11 +68,17 @@ def output_cpp_code(Robot, solution_groups):
     c.level = 0
     c.indent = '    '
 
+    # dimensions of the solution list:  one row per solution, one column per unknown
+    #   (there can be more than 6 unknowns because of sums of angles)
+    dims = '[' + str(max([64, len(solution_groups)])) + ']'
+    dims += '[' + str(max([6] + [len(g) for g in solution_groups])) + ']'
+
     c.line('''//
 //  C++ inverse kinematic equations for ''' + fixed_name + '''
 
 
 #include <math.h>
+#include <cmath>
 #include <stdio.h>
 #include <iostream>
 
@@ -80,7 +86,8 @@ double pi = 3.1415926;
 
 // ikin_Wrists modifies solution_list in-place and
 // returns 1 for valid solutions and 0 for no solutions
-int ikin(double T[4][4], double solution_list[64][6]);
+// (a row which contains nan is a branch which does not exist for this pose)
+int ikin(double T[4][4], double solution_list''' + dims + ''');
 
 ''')
 
@@ -92,18 +99,18 @@ int ikin(double T[4][4], double solution_list[64][6]);
     #solution_groups = mtch.matching_func(Robot.notation_collections, Robot.solution_nodes)
     for s in solution_groups:
         sol_vars.update(s)
+    for row in Robot.FinalEqnMatrix:  # every version is assigned to
+        sol_vars.update([str(eqn.LHS) for eqn in row])
 
     #  Variable Declarations
-    tmp = 'double'
-    for v in sol_vars:
-        tmp += ' ' + str(v) + ','
-
-    var_decl_str = tmp[:-1] + ';'   # drop trailing comma and end the line
+    var_decl_str = ''
+    for v in sorted(sol_vars):
+        var_decl_str += 'double ' + str(v) + ' = 0;\n'
 
     # parameter Declarations
     tmp = '\n'
     for p in Robot.params:   # other DH dimensional params (l_3 etc)
-        tmp += 'double '+str(p) + ' = XXXXX ; \\ deliberate undeclared error!  USER needs to give numerical value\n'
+        tmp += 'double '+str(p) + ' = XXXXX ; // deliberate undeclared error!  USER needs to give numerical value\n'
     par_decl_str = tmp
 
     nlist = Robot.solution_nodes
@@ -114,7 +121,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     c.line('int main()')
     c.push()
     c.line('double T[4][4] = { {1,0,0,0},{0,1,0,0},{0,0,1,0},{0,0,0,1}, };' )
-    c.line('double sol_list[64][6] = {0};  // list of solutions')
+    c.line('double sol_list' + dims + ' = {0};  // list of solutions')
     c.line('if('+funcname+'(T, sol_list))')
     c.push()
     c.line('std::cout << sol_list;')
@@ -129,7 +136,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # ik function
     c.line('\n// Code to solve the unknowns ')
     c.line('\n\n// Declarations')
-    c.line('int ' + funcname + '(double T[4][4], double solution_list[64][6] )')  # no indent
+    c.line('int ' + funcname + '(double T[4][4], double solution_list' + dims + ' )')  # no indent
     c.push()
     c.line('''\n//define the input vars
 double r_11 = T[0][0];
@@ -145,8 +152,6 @@ double Px = T[0][3];
 double Py = T[1][3];
 double Pz = T[2][3];
 
-double argument;
-
 //
 // Caution:    Generated code is not yet validated
 //
@@ -154,7 +159,7 @@ double argument;
 int True = 1;
 int False = 0;
 ''')
-    c.line('int solvable_pose = True;')
+    c.line('int solvable_pose = False;')
     c.line('// declare variables in solutions')
     c.line(var_decl_str)
     c.line('')
@@ -177,18 +182,7 @@ int False = 0;
             print('Cpp Output Gen: Solution Equation Version: ', solEqnVer)
             c.line('\n// solution '+str(solno))
             solno += 1
-            solrhs = str(solEqnVer.RHS)
-            # detect arcsin() or arccos()
-            #
-            #  BH   21-Sept
-            #  This code needs a serious refactor.  When solution is for example:
-            #    th5_ijk = arcsin(x) + atan2(y1,x1)
-            #       (here 'x' is a complicated expression)
-            #  then it is important that the generated code will test  -1 < x < +1
-            #  if this test fails the pose is unreachable and arcsin fails.
-            #
-            #
-            trig = False
+            solrhs = sp.ccode(solEqnVer.RHS)   # valid C++ (pow() instead of ** etc.)
             print('\n\nCpp Output Gen: Studying node: ', node.symbol, ' solution ', solno)
             print('solvemethod: ', node.solvemethod)
             print(' LHS: ', str(solEqnVer.LHS))
@@ -199,40 +193,7 @@ int False = 0;
             c.line('// solvemethod: ' + node.solvemethod )
             c.line('//    argument: ' + str(node.argument )  )
 
-            if(node.solvemethod == 'arcsin' or node.solvemethod == 'arccos'):
-               trig = True
-
-            if(trig):
-               print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-               c.line('// Arcsin() or Arccos() based solution:')
-               c.line('argument = ' + str(node.argument))
-               c.line('if (solvable_pose && fabs(argument) > 1)')
-               c.push()
-               c.line('solvable_pose = False; ')
-               c.pop()
-               c.line('else if (solvable_pose)')
-               c.push()        #  bugus    (here)
-               c.line(str(solEqnVer.LHS) + ' = '+node.solvemethod+'(argument);' )
-               c.pop()
-
-            if ((not trig) and 'atan2(y,x)' in node.solvemethod):
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'algebra' in node.solvemethod:
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'x2z2' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
-            if 'simultaneous eqn' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
+            c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
 
     c.line('''
 //##################################
@@ -269,6 +230,7 @@ int False = 0;
         for v in g:
             c.line('solution_list['+ str(i) + '][' + str(j) + '] = ' + v + ';')
             j += 1
+        c.line('if (!std::isnan(' + ' + '.join(g) + ')) solvable_pose = True;')
         j=0
         i+= 1
 
-- 
2.43.0


From 702c05bc73849f942e6d9c16a0f49de0cdabf3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 09/26] fix: MemPriority and MemSequence use xrange, which
 Python 3 does not have

---
 b3/composites/mempriority.py | 2 +-
 b3/composites/memsequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/composites/mempriority.py b/b3/composites/mempriority.py
index 1e3a593..17c9c36 100644
--- a/b3/composites/mempriority.py
+++ b/b3/composites/mempriority.py
@@ -12,7 +12,7 @@ class MemPriority(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
diff --git a/b3/composites/memsequence.py b/b3/composites/memsequence.py
index 62d6bbf..3fae91e 100644
--- a/b3/composites/memsequence.py
+++ b/b3/composites/memsequence.py
@@ -12,7 +12,7 @@ class MemSequence(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
-- 
2.43.0


From 5281bf5d04c8ed4448542639698c599051762526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 10/26] fix: RepeatUntilSuccess/RepeatUntilFailure raise
 UnboundLocalError when no loop is allowed

---
 b3/decorators/repeatuntilfailure.py | 2 ++
 b3/decorators/repeatuntilsuccess.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 64611a7..0e09cee 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -16,6 +16,8 @@ class RepeatUntilFailure(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index 7744859..da3fbd4 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -16,6 +16,8 @@ class RepeatUntilSuccess(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
-- 
2.43.0


From 620502dfa9f7cff201ff50bc845ca06d27d408e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 11/26] fix: BehaviorTree.dump reverses the children of
 composites, load misspells AttributeError

---
 b3/core/behaviortree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 5acc15b..6cfd257 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -33,7 +33,7 @@ class BehaviorTree(object):
                 cls = getattr(b3, spec['name'])
 
             else:
-                raise AttibuteError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
+                raise AttributeError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
 
             node = cls()
             node.id = spec['id'] or node.id
@@ -93,7 +93,7 @@ class BehaviorTree(object):
 
             if node.category == b3.COMPOSITE and hasattr(node, 'children'):
                 children = []
-                for c in reversed(node.children):
+                for c in node.children:
                     children.append(c.id)
                     stack.append(c)
                 spec['children'] = children
-- 
2.43.0


From 8b216a6b86da80784a709cce0b1f398839b2e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 12/26] fix: numeric kinematics utilities RPY4_N and H_inv_N
 raise, wrap_angle_N handles one turn only

---
 ikbtbasics/pykinsym.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 43d12db..f2b99cb 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -59,11 +59,7 @@ def approx_N(a,b,verbose):
 
 # move angles into the range -pi to +pi
 def wrap_angle_N(t):
-  if(t < -np.pi):
-    t = t + 2*np.pi
-  elif(t >= np.pi):
-    t = t - 2*np.pi
-  return(t)
+  return((t + np.pi) % (2*np.pi) - np.pi)   # any number of turns
 
 #  check a matrix to make sure all its elements were properly converted to numerical form
 #   (if they were not, very cryptic error messages result)
@@ -326,20 +322,20 @@ def RPY3_N(r,p,y):
 
 def RPY4_N(r,p,y):
    R = RPY3_N(r,p,y)
-   #T = np.matrix(np.zeros(16).reshape(4,4))
-   T = np.matrix(np.zeros(4))
+   T = np.matrix(np.zeros((4,4)))
    for i in range(0,3):
      for j in range(0,3):
        T[i,j] = R[i,j]
    T[3,3] = 1.0
    return T
 
-#   Get the inverse of a symbolic 4x4 Homogeneous transform
+#   Get the inverse of a numerical 4x4 Homogeneous transform
 def H_inv_N(T):
+  T = np.matrix(T)
   R = T[0:3,0:3].T
-  P = -R*T[0:3,3]
-  T1 = R.row_join(P)
-  T1 = T1.col_join(sp.Matrix([0,0,0,1]).T)
+  T1 = np.matrix(np.eye(4))
+  T1[0:3,0:3] = R
+  T1[0:3,3] = -R*T[0:3,3]
   return T1
 
 
-- 
2.43.0


From b02263db0be424d7c567bd7a12fbc349f908cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 13/26] fix: generated FK code does not declare joint variables
 without a subscript (Wrist)

---
 ikbtfunctions/output_python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index c19b938..9f4652c 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -124,6 +124,8 @@ pi = np.pi
                 print(indent + soa[:-1], file=f)
             else:
                 print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
+        else:   # variable without a subscript
+            print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
 
     funcname = 'Fkin_'+orig_name
     print('''
-- 
2.43.0


From 5aabcff269adf5d3fbfed3f05563524c763b9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 14/26] fix: runs from stored forward kinematics lose the FK
 parameters and ignore new values

The second run of a robot with odd link twists (e.g. Craig417) generated Python
code which uses ca2/sa2 without defining them, and changed numerical parameter
values were ignored until the pickle was deleted.
---
 ikbtbasics/ik_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 7de98df..e1db369 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -85,6 +85,9 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
             [m, R, unknowns]  = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
+        # numerical values may have been changed, FK may have added parameters (e.g. ca2, sa2)
+        m.pvals.update(pvals)
+        constants.extend([p for p in m.params if p not in constants])
     else:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
-- 
2.43.0


From 59d4ffe4591a72aa1c1efba5e4c698807c6ef7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 15/26] fix: a run interrupted while storing forward kinematics
 breaks all later runs

---
 ikbtbasics/ik_classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index e1db369..97bae45 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -111,8 +111,11 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
         #R.generate_solution_nodes(unks) # generate solution nodes
 
         print(' Storing kinematics pickle for '+rname + '('+name+')')
-        with open(name,'wb') as pf:
+        # a run which is interrupted while writing must not leave a partial pickle
+        tmpname = name + '.tmp' + str(os.getpid())
+        with open(tmpname,'wb') as pf:
             pickle.dump( [m, R, unks], pf, protocol=pprotocol)
+        os.replace(tmpname, name)
         unknowns = unks    # be sure to return updated unknown list (including SOAs)
 
     return [m,R,unknowns]
-- 
2.43.0


From 767663000ac5d351b2ab8fb0d549eaeda9815aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 16/26] fix: robots with anti-parallel axes abort with
 AssertionError/NameError in the sum-of-angles code

sum_id calls find_xy, which no longer exists; sum_of_angles_sub carried
found2/found3 over from the previous match and took differences of joint
variables for sums; sum_of_angles_transform recorded new variables twice.
---
 ikbtbasics/ik_classes.py | 16 +++++++---------
 ikbtleaves/sum_id.py     | 38 +++++++-------------------------------
 2 files changed, 14 insertions(+), 40 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 97bae45..892f201 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -398,13 +398,9 @@ class Robot:
 
                     # simplify LHS
 
+                    # (sum_of_angles_sub itself records new variables and equations)
                     lhs, newj, newe = sum_of_angles_sub(self, lhs, variables)
 
-                    if newj:
-                        variables.append(newj)
-                    if newe:
-                        self.kequation_aux_list.append(newe)
-
                     # simplify RHS
                     rhs, newj, newe= sum_of_angles_sub(self, rhs, variables)
 
@@ -469,10 +465,12 @@ def sum_of_angles_sub(R, expr, variables):
             else:
                 varlist.append(d[k1])
         #print 'varlist: ', varlist
-        if len(varlist) == 2:
-            found2 = True
-        if len(varlist) == 3:
-            found3 = True
+        found2 = len(varlist) == 2
+        found3 = len(varlist) == 3
+        # only sums of joint variables: differences (anti-parallel axes) stay as they are
+        symbols = [v.symbol for v in variables]
+        if not all(v in symbols for v in varlist):
+            continue
 
         newjoint = None
         tmpeqn = None
diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index cd88b98..b8dbee0 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -91,37 +91,13 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                             
                         if found:
                             print('- - - - - - - - >>>> test: found:', expr)
-                            success_flag = True
-                            th_xy = find_xy(d[thx], d[thy])
-                            #if not exists in the unknown list (this requires proper hashing), create variable
-                            if th_xy not in unkn_sums_sym:
-                                print("found NEW 'joint' (updated) (sumofangle) variable: ")
-                                print(th_xy)
-                                #  try moving soa equation to Tm.auxeqns
-                                unkn_sums_sym.add(th_xy) #add into the joint variable set
-                                newjoint = unknown(th_xy)
-                                # extract subscripts from SOA variables to get combined variable
-                                #   ([3:] eliminates 'th_' from string name)
-                                #print('test: .n ',str(d[thx])[3:], str(d[thy])[3:])
-                                newjoint.n = int(str(d[thx])[3:]+str(d[thy])[3:]) # store new subscript
-                                #newjoint.joint_eq = d[thx] + d[sgn] * d[thy]
-                                alreadyThere = False
-                                for u in unknowns:
-                                    if u.n == newjoint.n:
-                                        print('>>> Skipping a duplicate variable: Th', newjoint.n)
-                                        alreadyThere=True
-                                if not alreadyThere:
-                                    print('>>>>     appending variable to unknowns: ', newjoint)
-                                    unknowns.append(newjoint) #add it to unknowns list
-                                tmpeqn = kequation(th_xy, d[thx] + d[sgn] * d[thy])
-                                print('sumofanglesT: appending ', tmpeqn)
-                                # store the SOA aux equation 
-                                R.kequation_aux_list.append(tmpeqn)
-                                print(d[thx] + d[sgn]*d[thy])
-                                #substitute all thx +/- thy expression with th_xy
-                                matr_equ.Ts = matr_equ.Ts.subs(d[thx] + d[sgn] * d[thy], th_xy)
-                                matr_equ.Td = matr_equ.Td.subs(d[thx] + d[sgn] * d[thy], th_xy) 
-        
+                            # creates th_xy and its equation if they do not exist yet;
+                            # differences th_x - th_y have no variable and stay as they are
+                            newexpr, newj, newe = sum_of_angles_sub(R, expr, unknowns)
+                            if newexpr != expr:
+                                success_flag = True
+                                matr_equ.Ts = matr_equ.Ts.subs(expr, newexpr)
+                                matr_equ.Td = matr_equ.Td.subs(expr, newexpr)
         tick.blackboard.set('Robot', R)
 
         ##############   DEBUG
-- 
2.43.0


From 9d2977467f4d16191b456d64dfe3b308d656c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 17/26] fix: sincos solver aborts the whole solve when an
 equation still holds the unknown in a difference of angles

---
 ikbtleaves/sincos_solver.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index 6619c03..a27cc85 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -213,8 +213,9 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 # a solution that still contains its own unknown is not a
                 # solution; this guard is the analogue of the one commented
                 # out in sinANDcos_solver.
-                assert(not targument.has(u.symbol)), \
-                    'sincos_solve (arcsin): solution contains itself: ' + str(targument)
+                if targument.has(u.symbol):   # e.g. it still has cos(th_1 - th_2)
+                    print('sincos_solve (arcsin): solution would contain itself')
+                    return b3.FAILURE
                 sol1 = sp.asin( targument  )
                 sol2 = sp.pi - sp.asin( targument  )  
                 u.argument = targument
@@ -244,8 +245,9 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                         B = 0
                             
                     targument = (u.eqntosolve.LHS-B)/A
-                    assert(not targument.has(u.symbol)), \
-                        'sincos_solve (arccos): solution contains itself: ' + str(targument)
+                    if targument.has(u.symbol):   # e.g. it still has cos(th_1 - th_2)
+                        print('sincos_solve (arccos): solution would contain itself')
+                        return b3.FAILURE
                     sol1 =   sp.acos( targument  )
                     sol2 = - sp.acos( targument  )  
                     u.argument = targument
-- 
2.43.0


From 9e144c282439b906565eeff23f4946c9792d0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 18/26] fix: two-equation and sinANDcos solvers accept
 equations that hold the unknown elsewhere

The atan2 solution then contained the unknown it was meant to solve.
---
 ikbtleaves/sinANDcos_solver.py |  2 +-
 ikbtleaves/two_eqn_m7.py       | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 2a7b134..b25faeb 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -132,7 +132,7 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Sin AND Cos identifying: ', es)
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
-                  if not d[Cw].has(u.symbol):
+                  if not (d[Aw].has(u.symbol) or d[Bw].has(u.symbol) or d[Cw].has(u.symbol)):
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
                       u.solvemethod += 'sinANDcos'
diff --git a/ikbtleaves/two_eqn_m7.py b/ikbtleaves/two_eqn_m7.py
index 69306c6..9213611 100644
--- a/ikbtleaves/two_eqn_m7.py
+++ b/ikbtleaves/two_eqn_m7.py
@@ -62,10 +62,18 @@ def canonical_second_eqn(u, e1, e2):
     a2 = e2.coeff(sp.cos(u))
     b2 = -e2.coeff(sp.sin(u))
     if a2 == A and b2 == B:
-        return e2
-    if a2 == -A and b2 == -B:
-        return -e2
-    return None
+        second = e2
+    elif a2 == -A and b2 == -B:
+        second = -e2
+    else:
+        return None
+    # u must not occur anywhere else, e.g. in cos(u - th_2): the atan2 would
+    # contain the unknown it is supposed to solve.
+    C = (A*sp.sin(u) + B*sp.cos(u) - e1).expand()
+    D = (A*sp.cos(u) - B*sp.sin(u) - second).expand()
+    if any(x.has(u) for x in (A, B, C, D)):
+        return None
+    return second
 
 
 class simu_id(b3.Action):
-- 
2.43.0


From 187cb732cc71f1924ce9911b45c2c2493867a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 19/26] fix: trees with decorators cannot be loaded, and the
 parameters of nodes are not saved

---
 b3/core/behaviortree.py             | 6 ++++++
 b3/decorators/limiter.py            | 2 +-
 b3/decorators/maxtime.py            | 2 +-
 b3/decorators/repeater.py           | 2 +-
 b3/decorators/repeatuntilfailure.py | 2 +-
 b3/decorators/repeatuntilsuccess.py | 2 +-
 6 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 6cfd257..2a0b8c8 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -4,6 +4,9 @@ import itertools
 
 __all__ = ['BehaviorTree']
 
+# node parameters which are saved and loaded with a tree
+NODE_PARAMETERS = ['max_loop', 'max_time', 'end_time']
+
 class BehaviorTree(object):
     def __init__(self):
         self.id = str(uuid.uuid1())
@@ -40,6 +43,8 @@ class BehaviorTree(object):
             node.title = spec['title'] or node.title
             node.description = spec['description'] or node.description
             node.properties = spec['properties'] or node.properties
+            for p, value in spec.get('parameters', {}).items():
+                setattr(node, p, value)
             nodes[key] = node
 
         for key in data['nodes']:
@@ -80,6 +85,7 @@ class BehaviorTree(object):
             spec['title'] = node.title
             spec['description'] = node.description
             spec['properties'] = node.properties
+            spec['parameters'] = {p: getattr(node, p) for p in NODE_PARAMETERS if hasattr(node, p)}
 
             name = node.__class__.__name__
             if not hasattr(b3, name) and name not in custom_names:
diff --git a/b3/decorators/limiter.py b/b3/decorators/limiter.py
index 73e5e3c..8ff7c97 100644
--- a/b3/decorators/limiter.py
+++ b/b3/decorators/limiter.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['Limiter']
 
 class Limiter(b3.Decorator):
-    def __init__(self, child, max_loop):
+    def __init__(self, child=None, max_loop=0):
         super(Limiter, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/maxtime.py b/b3/decorators/maxtime.py
index b06a3ef..e8c4f49 100644
--- a/b3/decorators/maxtime.py
+++ b/b3/decorators/maxtime.py
@@ -4,7 +4,7 @@ import time
 __all__ = ['MaxTime']
 
 class MaxTime(b3.Decorator):
-    def __init__(self, child, max_time=0):
+    def __init__(self, child=None, max_time=0):
         super(MaxTime, self).__init__(child)
 
         self.max_time = max_time
diff --git a/b3/decorators/repeater.py b/b3/decorators/repeater.py
index 8de066f..ab97811 100644
--- a/b3/decorators/repeater.py
+++ b/b3/decorators/repeater.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['Repeater']
 
 class Repeater(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(Repeater, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 0e09cee..0cc3c7d 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['RepeatUntilFailure']
 
 class RepeatUntilFailure(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(RepeatUntilFailure, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index da3fbd4..4cb7e12 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['RepeatUntilSuccess']
 
 class RepeatUntilSuccess(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(RepeatUntilSuccess, self).__init__(child)
 
         self.max_loop = max_loop
-- 
2.43.0


From a86f33b06c6dedf056b0b6c955ac9633569bf26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 20/26] fix: the degree conversion constant has a wrong digit

---
 ikbtbasics/pykinsym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index f2b99cb..da1fd3a 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -26,7 +26,7 @@ import sys
 #
 
 #  Constants
-deg = 6.28317531/360.0
+deg = 2.0*np.pi/360.0
 rad2deg = 1.0/deg
 
 
-- 
2.43.0


From 06dc51699d80ed0db27aa739db4f75b7157602d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 21/26] fix: equal equations written differently (1.0*x, x) had
 different hashes

---
 ikbtbasics/kin_cl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index c50541b..1cf0618 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -70,7 +70,8 @@ class kequation:
         else:
             return False
     def __hash__(self):
-        return hash(str(self.LHS) + str(self.RHS))
+        # equal equations can be written differently (1.0*x and x), so hash only what that does not change
+        return hash(tuple(tuple(sorted(str(s) for s in sp.sympify(side).free_symbols)) for side in (self.LHS, self.RHS)))
 
     def LaTexOutput(self, align=False):
         tab = ' '
-- 
2.43.0


From f38fb43d5f3a4036d1008ef0554d53dbea3977e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 22/26] fix: comparing a solution-graph edge with None raises
 AttributeError

---
 ikbtbasics/solutionGraphV3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ikbtbasics/solutionGraphV3.py b/ikbtbasics/solutionGraphV3.py
index 4066bed..b0555db 100644
--- a/ikbtbasics/solutionGraphV3.py
+++ b/ikbtbasics/solutionGraphV3.py
@@ -72,6 +72,8 @@ class Edge: # from unk --->  dependency
         return   'Edge:' +  str(self.StartNode) + " depends on: " + str(self.dependsOn) + f'  ({self.StartNode}-->{self.dependsOn})'
 
     def __eq__(self, other):
+        if other is None:
+            return False
         return self.StartNode == other.StartNode and self.dependsOn == other.dependsOn and self.mult == other.mult
 
     def __hash__(self):
-- 
2.43.0


From e4fbdd9552890d08a2da46c9845fb239f5bec785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 23/26] fix: sinANDcos solver aborts the whole solve when the
 unknown cancels out of an equation

---
 ikbtleaves/sinANDcos_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index b25faeb..a4f47c5 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -132,6 +132,9 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Sin AND Cos identifying: ', es)
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
+                  if d[Aw] == 0 and d[Bw] == 0:   # the unknown cancels out of this equation
+                      continue
+
                   if not (d[Aw].has(u.symbol) or d[Bw].has(u.symbol) or d[Cw].has(u.symbol)):
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
-- 
2.43.0


From c789fc8a1e34a54cf834dc91bc219955988913b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 24/26] fix: FK code generation raises KeyError when only some
 parameters have numerical values

---
 ikbtfunctions/output_python.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 9f4652c..d57eaad 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -90,12 +90,11 @@ pi = np.pi
 
     print('#\n#      Robot Parameters \n#',file=f)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
-- 
2.43.0


From e0e24f107cefda27a7f030b538a48b1e0e05a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 25/26] fix: runs started at the same time in a new directory
 do not fail when another one makes fk_eqns/ or logs/

---
 ikSolver.py              | 2 +-
 ikbtbasics/ik_classes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikSolver.py b/ikSolver.py
index 867102a..ff56f49 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -245,7 +245,7 @@ ikbt.root = topnode
 logdir = 'logs/'
 
 if not os.path.isdir(logdir):  # if this doesn't exist, create it.
-    os.mkdir(logdir)
+    os.makedirs(logdir, exist_ok=True)  # (another run may just have done so)
 
 #
 #     Logging setup    ###   Enable these for future debugging
diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 892f201..42884b3 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -73,7 +73,7 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
 
     if not os.path.isdir(pickle_dir):  # if this doesn't exist, create it.
         print('Creating a new pickle directory: ./'+pickle_dir)
-        os.mkdir(pickle_dir)
+        os.makedirs(pickle_dir, exist_ok=True)  # (another run may just have done so)
 
     name = pickle_dir + rname + '_pickle.p'
 
-- 
2.43.0


From 1521c16e52326805a717016de6983198b138ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 26/26] fix: a run from stored kinematics does not keep
 parameter values which are no longer given

---
 ikbtbasics/ik_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 42884b3..29fd3f0 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -86,8 +86,10 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
         # numerical values may have been changed, FK may have added parameters (e.g. ca2, sa2)
+        added = [p for p in m.params if p not in constants]
+        m.pvals = {p: m.pvals[p] for p in added if p in m.pvals}
         m.pvals.update(pvals)
-        constants.extend([p for p in m.params if p not in constants])
+        constants.extend(added)
     else:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
-- 
2.43.0

