From 3d8a14c820cb37bccf7d787d86364001c4602bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 01/38] fix: RPY4_N builds a 4x4 matrix (it indexed a 1x4 one
 and always raised)

---
 ikbtbasics/pykinsym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 43d12db..6d15090 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -327,7 +327,7 @@ def RPY3_N(r,p,y):
 def RPY4_N(r,p,y):
    R = RPY3_N(r,p,y)
    #T = np.matrix(np.zeros(16).reshape(4,4))
-   T = np.matrix(np.zeros(4))
+   T = np.matrix(np.zeros((4,4)))
    for i in range(0,3):
      for j in range(0,3):
        T[i,j] = R[i,j]
-- 
2.43.0


From 82e94623943687acbf93d700f92f8a97b92f0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/38] fix: H_inv_N uses numpy joins (row_join does not exist
 on numpy matrices)

---
 ikbtbasics/pykinsym.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 6d15090..28c262f 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -337,9 +337,8 @@ def RPY4_N(r,p,y):
 #   Get the inverse of a symbolic 4x4 Homogeneous transform
 def H_inv_N(T):
   R = T[0:3,0:3].T
-  P = -R*T[0:3,3]
-  T1 = R.row_join(P)
-  T1 = T1.col_join(sp.Matrix([0,0,0,1]).T)
+  P = -np.dot(R, T[0:3,3:4])
+  T1 = np.vstack((np.hstack((R, P)), [[0,0,0,1]]))
   return T1
 
 
-- 
2.43.0


From 200d25d85242dee792df5d0847298bb8e9bd736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/38] fix: degree constant was 6.28317531/360 (2*pi is
 6.28318531)

---
 ikbtbasics/pykinsym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 28c262f..4d5fc73 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -26,7 +26,7 @@ import sys
 #
 
 #  Constants
-deg = 6.28317531/360.0
+deg = 2.0*np.pi/360.0
 rad2deg = 1.0/deg
 
 
-- 
2.43.0


From c2782f59fa1c7378482f39ac22eea9d765ce73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 04/38] fix: robot DZhang could not be selected (missing comma
 joined two names)

---
 ikbtfunctions/ik_robots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 33ace9c..925c284 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -53,7 +53,7 @@ def robot_params(name):
             'Khat6DOF',
             'Raven-II',
             'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13', 'Mackler13',
-            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4'
+            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4',
             'DZhang',
             'JennyGuoSp24']
     
-- 
2.43.0


From a8f94198743f376fa4e5dbab7ad5f5cf1992d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 05/38] fix: Chair6DOF was listed as a robot but is not defined
 anywhere

---
 ikbtfunctions/ik_robots.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 925c284..a37ce95 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -45,8 +45,7 @@ def robot_params(name):
             'MiniDD', 
             'Olson13',
             'Stanford', 
-            'Chair6DOF',  # below not solvable yet
-            'Khat6DOF',    
+            'Khat6DOF',    # below not solvable yet
             'Craig417', 
             'KawasakiRS05L',
             'KawasakiRS007L',
-- 
2.43.0


From bdc9b4505ef590e8ac654e713ad9efb63c984e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 06/38] fix: MiniDD joint type vector had only five entries
 (forward kinematics raised IndexError)

---
 ikbtfunctions/ik_robots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index a37ce95..7bdc938 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -365,7 +365,7 @@ def robot_params(name):
             [ -sp.pi/2 ,     0  ,   0   , th_5  ],
             [   0      ,     0  ,   0   ,   0   ]     
             ])
-        vv = [0,1,1,1,1]
+        vv = [0,1,1,1,1,1]
 
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5) ]
 
-- 
2.43.0


From b9b39b7c9ca43f4d8b3b69fa01da431a7cf803ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 07/38] fix: Sims11 joint type vector had seven entries for six
 rows

---
 ikbtfunctions/ik_robots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 7bdc938..c7233fa 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -427,7 +427,7 @@ def robot_params(name):
             [0.,        0.,         0.,         0.]
             ])
             
-        vv = [0, 0, 1, 1, 1, 1, 1]
+        vv = [0, 0, 1, 1, 1, 1]
         variables = [unknown(d_1), unknown(d_2), unknown(th_3), unknown(th_4), unknown(th_5)]
         params = [l_1, l_2, l_3]
         pvals = {l_1: 5, l_2:2, l_3:4}
-- 
2.43.0


From 7eea817cedd2b8bb67a40117d2d474dfb2fa8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 08/38] fix: Mackler13 uses link offset h but did not declare
 it as a parameter

---
 ikbtfunctions/ik_robots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index c7233fa..231dd39 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -480,8 +480,8 @@ def robot_params(name):
         sp.var('l_3')
         vv = [0, 1, 1, 1, 1, 0]
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5)]
-        params = [l_1, l_2, l_3]
-        pvals = {l_1:2, l_2:2, l_3: 4}
+        params = [h, l_1, l_2, l_3]
+        pvals = {h:1, l_1:2, l_2:2, l_3: 4}
 
     if(name == 'Minder13'):
         # Minder 2013sp
-- 
2.43.0


From 5e5ad8e8c108ec173dc72dd481561dbdeeb9b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 09/38] fix: MemSequence and MemPriority used xrange (NameError
 on Python 3)

---
 b3/composites/mempriority.py | 2 +-
 b3/composites/memsequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/composites/mempriority.py b/b3/composites/mempriority.py
index 1e3a593..17c9c36 100644
--- a/b3/composites/mempriority.py
+++ b/b3/composites/mempriority.py
@@ -12,7 +12,7 @@ class MemPriority(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
diff --git a/b3/composites/memsequence.py b/b3/composites/memsequence.py
index 62d6bbf..3fae91e 100644
--- a/b3/composites/memsequence.py
+++ b/b3/composites/memsequence.py
@@ -12,7 +12,7 @@ class MemSequence(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
-- 
2.43.0


From 583553edd39681ab4c726afdcb213000a3936708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 10/38] fix: BehaviorTree.dump wrote children in reverse order,
 so a loaded tree ran them backwards

---
 b3/core/behaviortree.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 5acc15b..ea3134b 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -92,11 +92,9 @@ class BehaviorTree(object):
                 data['custom_nodes'].append(subdata)
 
             if node.category == b3.COMPOSITE and hasattr(node, 'children'):
-                children = []
                 for c in reversed(node.children):
-                    children.append(c.id)
                     stack.append(c)
-                spec['children'] = children
+                spec['children'] = [c.id for c in node.children]
             elif node.category == b3.DECORATOR and hasattr(node, 'child'):
                 stack.append(node.child)
                 spec['child'] = node.child.id
-- 
2.43.0


From 373f2a0025ae39517009c319b27aee74b25a2887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 11/38] fix: BehaviorTree.load raised NameError (misspelt
 AttributeError) for an unknown node name

---
 b3/core/behaviortree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index ea3134b..9481cf5 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -33,7 +33,7 @@ class BehaviorTree(object):
                 cls = getattr(b3, spec['name'])
 
             else:
-                raise AttibuteError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
+                raise AttributeError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
 
             node = cls()
             node.id = spec['id'] or node.id
-- 
2.43.0


From 791cacede907a7ab70d08e5b492fdca2f10dad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 12/38] fix: RepeatUntilFailure/Success with max_loop 0 raised
 UnboundLocalError

---
 b3/decorators/repeatuntilfailure.py | 2 ++
 b3/decorators/repeatuntilsuccess.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 64611a7..0e09cee 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -16,6 +16,8 @@ class RepeatUntilFailure(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index 7744859..da3fbd4 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -16,6 +16,8 @@ class RepeatUntilSuccess(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
-- 
2.43.0


From 213935c90afe17c2703afbeb739932492b75a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 13/38] fix: BehaviorTree.dump failed on a decorator without a
 child

---
 b3/core/behaviortree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 9481cf5..70895fe 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -95,7 +95,7 @@ class BehaviorTree(object):
                 for c in reversed(node.children):
                     stack.append(c)
                 spec['children'] = [c.id for c in node.children]
-            elif node.category == b3.DECORATOR and hasattr(node, 'child'):
+            elif node.category == b3.DECORATOR and node.child:
                 stack.append(node.child)
                 spec['child'] = node.child.id
 
-- 
2.43.0


From 96cb75c4c106c4bf629e236b916b20b7df08a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 14/38] fix: saved trees lost the settings of Limiter, MaxTime,
 Repeater, RepeatUntil* and Wait nodes, and loading the decorators raised
 TypeError

---
 b3/core/behaviortree.py             | 10 ++++++++++
 b3/decorators/limiter.py            |  2 +-
 b3/decorators/maxtime.py            |  2 +-
 b3/decorators/repeater.py           |  2 +-
 b3/decorators/repeatuntilfailure.py |  2 +-
 b3/decorators/repeatuntilsuccess.py |  2 +-
 6 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 70895fe..23b41dd 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -40,6 +40,10 @@ class BehaviorTree(object):
             node.title = spec['title'] or node.title
             node.description = spec['description'] or node.description
             node.properties = spec['properties'] or node.properties
+            node.parameters = dict(spec.get('parameters') or node.parameters)
+            for k in ('max_loop', 'max_time', 'end_time'):
+                if hasattr(node, k) and k in node.parameters:
+                    setattr(node, k, node.parameters.pop(k))
             nodes[key] = node
 
         for key in data['nodes']:
@@ -80,6 +84,12 @@ class BehaviorTree(object):
             spec['title'] = node.title
             spec['description'] = node.description
             spec['properties'] = node.properties
+            spec['parameters'] = dict(node.parameters)
+
+            # settings given to the constructor (Limiter, MaxTime, Repeat*, Wait)
+            for k in ('max_loop', 'max_time', 'end_time'):
+                if hasattr(node, k):
+                    spec['parameters'][k] = getattr(node, k)
 
             name = node.__class__.__name__
             if not hasattr(b3, name) and name not in custom_names:
diff --git a/b3/decorators/limiter.py b/b3/decorators/limiter.py
index 73e5e3c..8ff7c97 100644
--- a/b3/decorators/limiter.py
+++ b/b3/decorators/limiter.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['Limiter']
 
 class Limiter(b3.Decorator):
-    def __init__(self, child, max_loop):
+    def __init__(self, child=None, max_loop=0):
         super(Limiter, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/maxtime.py b/b3/decorators/maxtime.py
index b06a3ef..e8c4f49 100644
--- a/b3/decorators/maxtime.py
+++ b/b3/decorators/maxtime.py
@@ -4,7 +4,7 @@ import time
 __all__ = ['MaxTime']
 
 class MaxTime(b3.Decorator):
-    def __init__(self, child, max_time=0):
+    def __init__(self, child=None, max_time=0):
         super(MaxTime, self).__init__(child)
 
         self.max_time = max_time
diff --git a/b3/decorators/repeater.py b/b3/decorators/repeater.py
index 8de066f..ab97811 100644
--- a/b3/decorators/repeater.py
+++ b/b3/decorators/repeater.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['Repeater']
 
 class Repeater(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(Repeater, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 0e09cee..0cc3c7d 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['RepeatUntilFailure']
 
 class RepeatUntilFailure(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(RepeatUntilFailure, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index da3fbd4..4cb7e12 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['RepeatUntilSuccess']
 
 class RepeatUntilSuccess(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(RepeatUntilSuccess, self).__init__(child)
 
         self.max_loop = max_loop
-- 
2.43.0


From 278a988ad54d8c50df5e447108eab14e5c86e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 15/38] fix: assigner could put a solved unknown on the
 blackboard and offered the first unknown twice after wrapping round

---
 ikbtleaves/assigner_leaf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ikbtleaves/assigner_leaf.py b/ikbtleaves/assigner_leaf.py
index a4d478c..b66e10a 100644
--- a/ikbtleaves/assigner_leaf.py
+++ b/ikbtleaves/assigner_leaf.py
@@ -48,9 +48,13 @@ class assigner(b3.Action):
                 tick.blackboard.set("curr_unk", curr)
                 return b3.SUCCESS
                 
-        if counter >= len(unknowns):
-            counter = 0
-        tick.blackboard.set("counter", counter)
+        # end of the list: start again with the first unsolved unknown
+        counter = 0
+        for i, curr in enumerate(unknowns):
+            if not curr.solved:
+                counter = i
+                break
+        tick.blackboard.set("counter", counter + 1)
         tick.blackboard.set("curr_unk", unknowns[counter])
         return b3.SUCCESS
             #print "current location is %d"%counter
-- 
2.43.0


From 8bb2de30230d2a23ef87652fda8fbe4502ec9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 16/38] fix: equation equality was neither reflexive nor
 symmetric for unexpanded terms and disagreed with its hash

---
 ikbtbasics/kin_cl.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index c50541b..a2410c8 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -60,17 +60,14 @@ class kequation:
     def __eq__(self,other):
         if other is None:
             return False
-        if (self.LHS - other.LHS ==0 and self.RHS - other.RHS ==0):
-            return True
-        else:
-            return False
+        return bool(self.LHS == other.LHS and self.RHS == other.RHS)
     def __ne__(self,other):
         if not self.__eq__(other):
             return True
         else:
             return False
     def __hash__(self):
-        return hash(str(self.LHS) + str(self.RHS))
+        return hash((self.LHS, self.RHS))
 
     def LaTexOutput(self, align=False):
         tab = ' '
-- 
2.43.0


From c4f22bf8d8d37e49ca31474ceab4b55cacbce91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 17/38] fix: versioned equations of every unknown used the
 branch count of the last unknown solved

---
 ikbtbasics/ik_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index fcf3dfe..296dcd7 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -207,10 +207,10 @@ class Robot:
                 unk = n.unknown.name
                 subdict[unk] = self.solListMatrix[row][col]
 
-            nsols = self.solution_nodes[col].unknown.nsolutions
             #LHS: variable version #
             eqns_row = []
             for col in range(nunks): # go through unks in solution order
+                nsols = self.solution_nodes[col].unknown.nsolutions
                 #make an equation
             #tmp = '$' + sp.latex(node.symbol) + '$'
             #tmp = theta_expand(tmp)
-- 
2.43.0


From 31b7746e33cc16b8c3ebf81e5462e18d241a32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 18/38] fix: solution poses named the first solved unknown's
 branches th_1s1, th_1s2, which no versioned equation defines

---
 ikbtbasics/ik_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 296dcd7..d41bb7f 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -262,8 +262,9 @@ class Robot:
 
             else: # first time through
                 #print('first solved unk:', u.details())
-                for vn in u.versionNames:  #start new row for all solns of first solved unk.
-                    solListMatrix.append([vn])
+                for i in range(u_nsols):  #start new row for all solns of first solved unk.
+                    u.LHSversionNames.append(u.name + 'v' + str(i+1))
+                    solListMatrix.append([u.LHSversionNames[i]])
                     #solListMatrix.append([u.name+'v'+'1'])
                     #print('create_solution_sets: creating ', u, solListMatrix)
             #print('---')
-- 
2.43.0


From 6fb960d93efabd602603786620c34caa4ac60180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 19/38] fix: rank left the equations of the solver that
 declined on an unknown solved by the other one

---
 ikbtleaves/rank_leaf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ikbtleaves/rank_leaf.py b/ikbtleaves/rank_leaf.py
index 70bbe36..86681c0 100644
--- a/ikbtleaves/rank_leaf.py
+++ b/ikbtleaves/rank_leaf.py
@@ -94,7 +94,13 @@ class rank(b3.Action):
 
         elif n_sc > 0 or n_tan > 0:
             #  exactly one solver produced an answer; u.solutions already holds
-            #  it, so there is nothing to choose between
+            #  it, so there is nothing to choose between.  The ID of the solver
+            #  that declined may have overwritten the equations, though.
+            if n_sc > 0:
+                u.eqntosolve = u.sincos_eqnlist[0]
+            else:
+                u.eqntosolve = u.tan_eqnlist[0]
+                u.secondeqn = u.tan_eqnlist[1]
             u.set_solved(R, unknowns)
 
         #  else: an ID fired but no solver produced anything.  Do NOT call
-- 
2.43.0


From f5be60cf23679eb41d4720eda77ed885189e56de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 20/38] fix: sincos solver aborted on an unknown on the left
 hand side or one it cannot isolate

---
 ikbtleaves/sincos_solver.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index 6619c03..ef88744 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -179,7 +179,15 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
 
             # parse the equation RHS 
             terms = [sp.sin(u.symbol), sp.cos(u.symbol)]
-            rhs = sp.collect(u.eqntosolve.RHS, terms)
+            #  (bring the unknown to the RHS first if it appears on the LHS)
+            lhs = u.eqntosolve.LHS
+            rhs = u.eqntosolve.RHS
+            if lhs.has(u.symbol):
+                if rhs.has(u.symbol):
+                    lhs, rhs = sp.S.Zero, rhs - lhs
+                else:
+                    lhs, rhs = rhs, lhs
+            rhs = sp.collect(rhs, terms)
             # Exclude sin/cos of this unknown from the Wilds.  'Aw*sin(u)+Bw'
             # is otherwise ambiguous -- it matches anything via
             # Aw = (expr-Bw)/sin(u) -- and sympy returns exactly that for a
@@ -209,12 +217,13 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 else:
                     B = 0
                     
-                targument = (u.eqntosolve.LHS-B)/A
+                targument = (lhs-B)/A
                 # a solution that still contains its own unknown is not a
                 # solution; this guard is the analogue of the one commented
                 # out in sinANDcos_solver.
-                assert(not targument.has(u.symbol)), \
-                    'sincos_solve (arcsin): solution contains itself: ' + str(targument)
+                if targument.has(u.symbol):
+                    print('sincos_solve (arcsin): cannot isolate the unknown, declining: ' + str(targument))
+                    return b3.FAILURE
                 sol1 = sp.asin( targument  )
                 sol2 = sp.pi - sp.asin( targument  )  
                 u.argument = targument
@@ -243,9 +252,10 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                     else:
                         B = 0
                             
-                    targument = (u.eqntosolve.LHS-B)/A
-                    assert(not targument.has(u.symbol)), \
-                        'sincos_solve (arccos): solution contains itself: ' + str(targument)
+                    targument = (lhs-B)/A
+                    if targument.has(u.symbol):
+                        print('sincos_solve (arccos): cannot isolate the unknown, declining: ' + str(targument))
+                        return b3.FAILURE
                     sol1 =   sp.acos( targument  )
                     sol2 = - sp.acos( targument  )  
                     u.argument = targument
-- 
2.43.0


From a374a3483d9b79278bd1ff2b897cfb414c09f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 21/38] fix: sinANDcos solver accepted equations whose
 coefficients contain the unknown or vanish

---
 ikbtleaves/sinANDcos_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 2a7b134..3ced4ce 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -132,7 +132,9 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Sin AND Cos identifying: ', es)
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
-                  if not d[Cw].has(u.symbol):
+                  # A, B and C must be free of the unknown, and A, B not both zero
+                  if not (d[Aw].has(u.symbol) or d[Bw].has(u.symbol) or d[Cw].has(u.symbol)) \
+                     and (d[Aw]*d[Aw] + d[Bw]*d[Bw] != 0):
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
                       u.solvemethod += 'sinANDcos'
-- 
2.43.0


From adb6a42a793dd3e6483bd3a875da5c53bfb61fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 22/38] fix: two-equation solver accepted pairs whose remaining
 terms contain the unknown

---
 ikbtleaves/two_eqn_m7.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ikbtleaves/two_eqn_m7.py b/ikbtleaves/two_eqn_m7.py
index 69306c6..61d84cd 100644
--- a/ikbtleaves/two_eqn_m7.py
+++ b/ikbtleaves/two_eqn_m7.py
@@ -61,6 +61,11 @@ def canonical_second_eqn(u, e1, e2):
         return None
     a2 = e2.coeff(sp.cos(u))
     b2 = -e2.coeff(sp.sin(u))
+    # A, B, C and D must be free of u, otherwise the solution contains itself
+    C = (A*sp.sin(u) + B*sp.cos(u) - e1).expand()
+    D = (a2*sp.cos(u) - b2*sp.sin(u) - e2).expand()
+    if A.has(u) or B.has(u) or C.has(u) or D.has(u):
+        return None
     if a2 == A and b2 == B:
         return e2
     if a2 == -A and b2 == -B:
-- 
2.43.0


From 660ad4e2b98bc6545d7b6176f0bd7d3d3bd31207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 23/38] fix: tan solver returned nan (atan2(0,0)) for a pair
 with both constant terms zero

---
 ikbtleaves/tan_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index 177257d..2730777 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -169,6 +169,8 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                             print('   sin: ', estst, ' -> ', d1)
                             print('   cos: ', ectst, ' -> ', d2)
                         continue
+                    if d1[Bwx] == 0 and d2[Dwx] == 0:
+                        continue   # atan2(0,0): this pair says nothing about u
                     co = d1[Awx]/d2[Cwx]   # take ratio
                     # it's not solvable if (simplified) coefficient contains unknowns, or other parts have unknowns
                 
-- 
2.43.0


From 44d37e0f95c906897defe4f799d77d52879b9f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 24/38] fix: an unknown on both sides of an equation was
 counted twice

---
 ikbtbasics/ik_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index d41bb7f..d054804 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -301,7 +301,7 @@ class Robot:
                 for j in range(0,4):
                     lh1x1 = lhs[i,j]
                     rh1x1 = rhs[i,j]
-                    n = count_unknowns(variables, lh1x1) + count_unknowns(variables, rh1x1)
+                    n = count_unknowns(variables, sp.Tuple(lh1x1, rh1x1))  # an unknown on both sides is one unknown
                     e1 = kc.kequation(lh1x1, rh1x1)
                     if(n==1):
                         flag = False
@@ -321,7 +321,7 @@ class Robot:
         for e in self.kequation_aux_list:
             lhs = e.LHS
             rhs = e.RHS
-            n = count_unknowns(variables, lhs) + count_unknowns(variables, rhs)
+            n = count_unknowns(variables, sp.Tuple(lhs, rhs))
             if(n==1):
                 self.l1.append(kc.kequation(lhs, rhs))  # change from 0, rhs-lhs !!  ************
             if(n==2):
@@ -345,7 +345,7 @@ class Robot:
         for eqn in Meqn.get_kequation_list():
             lh1x1 = eqn.LHS  #4x4 matrix
             rh1x1 = eqn.RHS  #4x4 matrix
-            n = count_unknowns(variables, lh1x1) + count_unknowns(variables, rh1x1)
+            n = count_unknowns(variables, sp.Tuple(lh1x1, rh1x1))  # an unknown on both sides is one unknown
             e1 = eqn
             if(n==1):
                 if e1 not in self.l1:
-- 
2.43.0


From 356c0b8be6623a70a1ef2e6ad09d86c07ed9de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 25/38] fix: sum-of-angles substitution failed on differences
 of angles and listed compound angles of a left hand side twice

---
 ikbtbasics/ik_classes.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index d054804..e679436 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -393,13 +393,9 @@ class Robot:
 
                     # simplify LHS
 
+                    # (sum_of_angles_sub adds the new unknown and equation to the lists)
                     lhs, newj, newe = sum_of_angles_sub(self, lhs, variables)
 
-                    if newj:
-                        variables.append(newj)
-                    if newe:
-                        self.kequation_aux_list.append(newe)
-
                     # simplify RHS
                     rhs, newj, newe= sum_of_angles_sub(self, rhs, variables)
 
@@ -464,10 +460,11 @@ def sum_of_angles_sub(R, expr, variables):
             else:
                 varlist.append(d[k1])
         #print 'varlist: ', varlist
-        if len(varlist) == 2:
-            found2 = True
-        if len(varlist) == 3:
-            found3 = True
+        # only a plain sum of two or three joint variables is a SOA (a difference
+        #  or a multiple such as th_2-th_3 or 2*th_2 has no index to name it)
+        plain = all(any(v.symbol == v1 for v in variables) for v1 in varlist)
+        found2 = plain and len(varlist) == 2
+        found3 = plain and len(varlist) == 3
 
         newjoint = None
         tmpeqn = None
-- 
2.43.0


From c0e4c6abbc5c37ebb004e8d34a02b9d6395a5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 26/38] fix: a cached run lost the sin/cos(alpha) constants
 from the robot's parameters

---
 fkOnly.py   | 2 +-
 ikSolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fkOnly.py b/fkOnly.py
index de7e3e1..44725a9 100644
--- a/fkOnly.py
+++ b/fkOnly.py
@@ -113,7 +113,7 @@ testing = False
 print('GOT HERE (after FK): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params   # includes the sin/cos(alpha) constants found by forward_kinematics()
 R.variables = unknowns
 
 ##   check the pickle in case DH params were changed
diff --git a/ikSolver.py b/ikSolver.py
index 867102a..701a52e 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -110,7 +110,7 @@ print('Solver:  unknowns:', unknowns)
 print('GOT HERE (Fk completed): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params   # includes the sin/cos(alpha) constants found by forward_kinematics()
 
 ##   check the pickle in case DH params were changed
 dhp = M.DH
-- 
2.43.0


From c9b764ba557b913b14377cbf5b0d7d4ba14db97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 27/38] fix: a cached run used the numerical parameter values
 of the first run

---
 ikbtbasics/ik_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index e679436..c7e2083 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -85,6 +85,7 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
             [m, R, unknowns]  = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
+            m.pvals.update(pvals)   # numerical values may have been edited since
     else:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
-- 
2.43.0


From 5b0531843b9964d4a45e17516d7dc1689237e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:07 +0000
Subject: [PATCH 28/38] fix: Python generators raised KeyError when only some
 parameters have numerical values

---
 ikbtfunctions/output_python.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 8853fbf..4b16e3a 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -90,12 +90,11 @@ pi = np.pi
 
     print('#\n#      Robot Parameters \n#',file=f)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
@@ -190,12 +189,11 @@ pi = np.pi
 
     # parameter Declarations (a_3, d_5, etc).
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
-- 
2.43.0


From 77b99729e1c237ae5f741462e773751051d18a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:07 +0000
Subject: [PATCH 29/38] fix: generated Python solver was not valid Python 3
 (indentation, function name, print statements)

---
 ikbtfunctions/output_python.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 4b16e3a..55dfc85 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -176,8 +176,6 @@ from math import asin
 pi = np.pi
 
 '''
-    fixed_name = Robot.name.replace(r'_', r'\_')  # this is for LaTex output
-    fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
 
     DirName = 'CodeGen/Python/'
@@ -187,14 +185,16 @@ pi = np.pi
     importString = importString.replace('**Robot**', Robot.name)
     print(importString, file=f)
 
+    indent = '    ' # 4 spaces
+
     # parameter Declarations (a_3, d_5, etc).
     tmp = '\n'
     for p in Robot.params:
         if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
-            tmp += str(p) + ' = ' + val + '\n'
+            tmp += indent + str(p) + ' = ' + val + '\n'
         else:                      # no stored numerical value
-            tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
+            tmp += indent + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
 
@@ -202,9 +202,7 @@ pi = np.pi
     #nlist.sort( ) # sort by solution order
 
 
-    indent = '    ' # 4 spaces
-
-    funcname = 'ikin_'+fixed_name 
+    funcname = 'ikin_' + re.sub(r'\W', '_', orig_name)  # a valid identifier
     print('''
 # Auto Generated Code to solve the unknowns
 #        parameter:  T   4x4 numerical target for T06
@@ -212,7 +210,7 @@ pi = np.pi
 ''', file=f)
     print('def', funcname +'(T):', file=f) # no indent
     print(indent+'if(T.shape != (4,4)):', file=f)
-    print(indent*2 + 'print ( "bad input to "+funcname'+')', file=f)
+    print(indent*2 + 'print ( "bad input to '+funcname+'")', file=f)
     print(indent*2 + 'quit()', file=f)
     print('''#define the input vars 
     r_11 = T[0,0]
@@ -379,10 +377,10 @@ if __name__ == "__main__":
 
     i = 0
     for sol in list:
-        print ''
-        print 'Solution ', i
+        print('')
+        print('Solution ', i)
         i+=1
-        print sol
+        print(sol)
 
 
     ''', file=f)
-- 
2.43.0


From e9cff4e7da7bf06e7e53f222c7d4310d09610f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:07 +0000
Subject: [PATCH 30/38] fix: generated Python solver tested a malformed
 asin/acos argument and left out or repeated solutions

---
 ikbtfunctions/output_python.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 55dfc85..e505497 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -264,22 +264,12 @@ pi = np.pi
             # get the solution equation version
             solEqnVer = Robot.FinalEqnMatrix[rowindex][colindex]
             print('Python Output: Solution Equation Version: ', solEqnVer)
-            if re.search('asin', str(solEqnVer.RHS)) or re.search('acos', str(solEqnVer.RHS)):
-                print ('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                print(indent + 'if (solvable_pose and abs', tmp.group(0), ' > 1):', file=f)
-                print(indent*2 + 'solvable_pose = False', file=f)
-                print(indent + 'else:', file=f)
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent*2 + tmp, file=f)
-            if re.search('atan', str(solEqnVer.RHS)):
-                print('  Found atan2 solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent + tmp, file=f)
-            if node.solvemethod == 'algebra':
-                print('  Found algebra solution ... ' , solEqnVer.LHS , ' = ', solEqnVer.RHS)
-                print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
+            rhs = solEqnVer.RHS
+            for fcn in sorted(rhs.atoms(sp.asin, sp.acos), key=str):
+                print ('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ', rhs)
+                print(indent + 'if (abs(' + str(fcn.args[0]) + ') > 1):', file=f)
+                print(indent*2 + 'return(False)   # pose is not reachable', file=f)
+            print(indent + str(solEqnVer.LHS) + ' = ' + str(rhs), file=f)
 
     print('''
 ##################################
-- 
2.43.0


From dbcea34a39e788a02dc2541ead6b69eb986a003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 31/38] fix: generated C++ solver was not valid C++ (**,
 comments, missing semicolon, arcsin), divided integers and left out or mixed
 up solutions

---
 ikbtfunctions/output_cpp.py | 56 ++++++++-----------------------------
 1 file changed, 12 insertions(+), 44 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 771d17b..59e5699 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -53,6 +53,10 @@ class cpp_output:
         print(self.indent*self.level + '}', file=self.f)
         self.level -= 1
 
+# C++ text of a sympy expression (pow() instead of **, no integer division)
+def cpp_expr(e):
+    return sp.ccode(sp.sympify(e).subs(sp.pi, sp.Symbol('pi')))
+
 def output_cpp_code(Robot, solution_groups):
 
     fixed_name = Robot.name.replace(r'_', r'\_')  # this is for LaTex output
@@ -76,7 +80,7 @@ def output_cpp_code(Robot, solution_groups):
 #include <stdio.h>
 #include <iostream>
 
-double pi = 3.1415926;
+double pi = 3.14159265358979323846;
 
 // ikin_Wrists modifies solution_list in-place and
 // returns 1 for valid solutions and 0 for no solutions
@@ -103,7 +107,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # parameter Declarations
     tmp = '\n'
     for p in Robot.params:   # other DH dimensional params (l_3 etc)
-        tmp += 'double '+str(p) + ' = XXXXX ; \\ deliberate undeclared error!  USER needs to give numerical value\n'
+        tmp += 'double '+str(p) + ' = XXXXX ; // deliberate undeclared error!  USER needs to give numerical value\n'
     par_decl_str = tmp
 
     nlist = Robot.solution_nodes
@@ -177,18 +181,7 @@ int False = 0;
             print('Cpp Output Gen: Solution Equation Version: ', solEqnVer)
             c.line('\n// solution '+str(solno))
             solno += 1
-            solrhs = str(solEqnVer.RHS)
-            # detect arcsin() or arccos()
-            #
-            #  BH   21-Sept
-            #  This code needs a serious refactor.  When solution is for example:
-            #    th5_ijk = arcsin(x) + atan2(y1,x1)
-            #       (here 'x' is a complicated expression)
-            #  then it is important that the generated code will test  -1 < x < +1
-            #  if this test fails the pose is unreachable and arcsin fails.
-            #
-            #
-            trig = False
+            solrhs = cpp_expr(solEqnVer.RHS)
             print('\n\nCpp Output Gen: Studying node: ', node.symbol, ' solution ', solno)
             print('solvemethod: ', node.solvemethod)
             print(' LHS: ', str(solEqnVer.LHS))
@@ -199,40 +192,15 @@ int False = 0;
             c.line('// solvemethod: ' + node.solvemethod )
             c.line('//    argument: ' + str(node.argument )  )
 
-            if(node.solvemethod == 'arcsin' or node.solvemethod == 'arccos'):
-               trig = True
-
-            if(trig):
+            # if an asin/acos argument is out of range, the pose is unreachable
+            for fcn in sorted(solEqnVer.RHS.atoms(sp.asin, sp.acos), key=str):
                print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-               c.line('// Arcsin() or Arccos() based solution:')
-               c.line('argument = ' + str(node.argument))
-               c.line('if (solvable_pose && fabs(argument) > 1)')
+               c.line('argument = ' + cpp_expr(fcn.args[0]) + ';')
+               c.line('if (fabs(argument) > 1)')
                c.push()
                c.line('solvable_pose = False; ')
                c.pop()
-               c.line('else if (solvable_pose)')
-               c.push()        #  bugus    (here)
-               c.line(str(solEqnVer.LHS) + ' = '+node.solvemethod+'(argument);' )
-               c.pop()
-
-            if ((not trig) and 'atan2(y,x)' in node.solvemethod):
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'algebra' in node.solvemethod:
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'x2z2' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
-            if 'simultaneous eqn' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
+            c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
 
     c.line('''
 //##################################
-- 
2.43.0


From 12d27d6d492d54eb39e2433b7a6fab4daea93560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 32/38] fix: generated C++ solver overran its solution array
 with more than six solved unknowns or 64 solutions

---
 ikbtfunctions/output_cpp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 59e5699..e67a814 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -63,6 +63,11 @@ def output_cpp_code(Robot, solution_groups):
     fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
 
+    # one row for each solution, one column for each solved unknown
+    nrows = max([64, len(solution_groups)])
+    ncols = max([6] + [len(g) for g in solution_groups])
+    dims = '[' + str(nrows) + '][' + str(ncols) + ']'
+
     c = cpp_output()
 
     DirName = 'CodeGen/Cpp/'
@@ -84,7 +89,7 @@ double pi = 3.14159265358979323846;
 
 // ikin_Wrists modifies solution_list in-place and
 // returns 1 for valid solutions and 0 for no solutions
-int ikin(double T[4][4], double solution_list[64][6]);
+int ikin(double T[4][4], double solution_list''' + dims + ''');
 
 ''')
 
@@ -118,7 +123,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     c.line('int main()')
     c.push()
     c.line('double T[4][4] = { {1,0,0,0},{0,1,0,0},{0,0,1,0},{0,0,0,1}, };' )
-    c.line('double sol_list[64][6] = {0};  // list of solutions')
+    c.line('double sol_list' + dims + ' = {0};  // list of solutions')
     c.line('if('+funcname+'(T, sol_list))')
     c.push()
     c.line('std::cout << sol_list;')
@@ -133,7 +138,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # ik function
     c.line('\n// Code to solve the unknowns ')
     c.line('\n\n// Declarations')
-    c.line('int ' + funcname + '(double T[4][4], double solution_list[64][6] )')  # no indent
+    c.line('int ' + funcname + '(double T[4][4], double solution_list' + dims + ' )')  # no indent
     c.push()
     c.line('''\n//define the input vars
 double r_11 = T[0][0];
-- 
2.43.0


From e4f01fa7e9c836f0f1f75332b53a99cb8a26a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 33/38] fix: sum_id called an undefined function on differences
 of angles, so arms with antiparallel joint axes crashed the solver

---
 ikbtleaves/sum_id.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index cd88b98..f2a4f9a 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -72,27 +72,22 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                         
                         #print 'sum_of_angles_ID: ', expr 
                     
-                        sub_sin = expr.find(sp.sin(thx + sgn * thy)) #returns a subset of expressions with the query pattern, this finds sin(thx) too
-                        sub_cos = expr.find(sp.cos(thx + sgn * thy))
-                            
+                        # only a plain sum of two joint variables can be named by
+                        #  its joints (a difference or a multiple can not)
+                        joints = [u.symbol for u in unknowns if str(u.symbol).startswith('th_')]
                         found = False
-                        while len(sub_sin) > 0 and not found:
-                            sin_expr = sub_sin.pop()
-                            d = sin_expr.match(sp.sin(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0: #has to be joint variable
+                        for trig in sorted(expr.atoms(sp.sin, sp.cos), key=str):
+                            terms = sp.Add.make_args(trig.args[0])
+                            if len(terms) == 2 and all(t in joints for t in terms):
                                 found = True
+                                d = dict(zip([thx, thy], sorted(terms, key=str)))
+                                d[sgn] = 1
+                                break
 
-                            
-                        while len(sub_cos) > 0 and not found:
-                            cos_expr = sub_cos.pop()
-                            d = cos_expr.match(sp.cos(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0:
-                                found = True
-                            
                         if found:
                             print('- - - - - - - - >>>> test: found:', expr)
                             success_flag = True
-                            th_xy = find_xy(d[thx], d[thy])
+                            th_xy = sp.Symbol('th_' + str(d[thx])[3:] + str(d[thy])[3:])
                             #if not exists in the unknown list (this requires proper hashing), create variable
                             if th_xy not in unkn_sums_sym:
                                 print("found NEW 'joint' (updated) (sumofangle) variable: ")
@@ -113,10 +108,10 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                                 if not alreadyThere:
                                     print('>>>>     appending variable to unknowns: ', newjoint)
                                     unknowns.append(newjoint) #add it to unknowns list
-                                tmpeqn = kequation(th_xy, d[thx] + d[sgn] * d[thy])
-                                print('sumofanglesT: appending ', tmpeqn)
-                                # store the SOA aux equation 
-                                R.kequation_aux_list.append(tmpeqn)
+                                    tmpeqn = kequation(th_xy, d[thx] + d[sgn] * d[thy])
+                                    print('sumofanglesT: appending ', tmpeqn)
+                                    # store the SOA aux equation 
+                                    R.kequation_aux_list.append(tmpeqn)
                                 print(d[thx] + d[sgn]*d[thy])
                                 #substitute all thx +/- thy expression with th_xy
                                 matr_equ.Ts = matr_equ.Ts.subs(d[thx] + d[sgn] * d[thy], th_xy)
-- 
2.43.0


From 05a5fba31c7e0ec508f0758722a1942a508d947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 34/38] fix: generated C++ used undeclared version variables
 when a later unknown has more versions than an earlier one

---
 ikbtfunctions/output_cpp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index e67a814..c42bbdd 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -101,10 +101,13 @@ int ikin(double T[4][4], double solution_list''' + dims + ''');
     #solution_groups = mtch.matching_func(Robot.notation_collections, Robot.solution_nodes)
     for s in solution_groups:
         sol_vars.update(s)
+    # (later unknowns' versions outnumber those an earlier unknown has in the sets)
+    for row in Robot.FinalEqnMatrix:
+        sol_vars.update([str(e.LHS) for e in row])
 
     #  Variable Declarations
     tmp = 'double'
-    for v in sol_vars:
+    for v in sorted(sol_vars):
         tmp += ' ' + str(v) + ','
 
     var_decl_str = tmp[:-1] + ';'   # drop trailing comma and end the line
-- 
2.43.0


From 666ed83c6f52aba4583d3a1dde8236d686967ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 35/38] fix: pose entries the arm keeps constant were treated
 as free, so planar arms got degenerate 0 = 0*x equations and no usable
 solution

---
 ikbtbasics/ik_classes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index c7e2083..f70dab9 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -192,6 +192,17 @@ class Robot:
             #
             #  build up the equations to solve:
             self.mequation_list = Mech.get_mequation_set()  # all the Matrix FK equations
+            # pose entries which this mechanism can not change (for example r_13 = 0
+            #    for a planar arm) are known: an equation such as
+            #    0 = r_13*cos(th_1) + r_23*sin(th_1) can not be solved for th_1
+            fixed = {}
+            for lhs, rhs in zip(ik_lhs(), Mech.T_06):
+                if lhs.is_Symbol and rhs.free_symbols <= set(Mech.params):
+                    fixed[lhs] = rhs
+            if fixed:
+                for m in self.mequation_list:
+                    m.Td = m.Td.subs(fixed)
+                    m.Ts = m.Ts.subs(fixed)
             print('ik_classes: length Robot.mequation_list: ', len(self.mequation_list))
 
     #   *********  new fcn for final soln versions
-- 
2.43.0


From 33b8fb9204bbc578bf0dddee63224fc5e0a68d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:20 +0000
Subject: [PATCH 36/38] fix: atan2, arcsin and arccos solutions were built on
 equations whose coefficient vanishes at every reachable pose (0/0 for arms
 with less than 6 DOF)

---
 ikbtbasics/ik_classes.py    | 19 +++++++++++++++++++
 ikbtleaves/sincos_solver.py |  7 +++++++
 ikbtleaves/tan_solver.py    |  4 ++++
 3 files changed, 30 insertions(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index f70dab9..0375d56 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -205,6 +205,25 @@ class Robot:
                     m.Ts = m.Ts.subs(fixed)
             print('ik_classes: length Robot.mequation_list: ', len(self.mequation_list))
 
+    #
+    # class Robot
+    def always_zero(self, expr):
+        '''Is this expression zero at every pose which the arm can reach?'''
+        expr = sp.sympify(expr)
+        if expr.is_number or getattr(self, 'Mech', None) is None:
+            return expr == 0
+        for e in self.kequation_aux_list:      # sums of angles
+            expr = expr.subs(e.LHS, e.RHS)
+        pose = [(l, r) for l, r in zip(ik_lhs(), self.Mech.T_06) if l.is_Symbol]
+        expr = expr.subs(pose)
+        # evaluate at some arbitrary joint values
+        syms = sorted(expr.free_symbols, key=str)
+        for k in range(1, 4):
+            val = expr.subs([(s, 0.37*k + 0.73*i) for i, s in enumerate(syms)]).evalf()
+            if not abs(val) < 1e-9:
+                return False
+        return True
+
     #   *********  new fcn for final soln versions
     #  generate the final list of versions for this unknown
     #
diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index ef88744..7af7765 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -125,6 +125,13 @@ class sincos_id(b3.Action):    # action leaf for sincosid
                 if (e.RHS.has(sp.sin(u.symbol)) or e.LHS.has(sp.sin(u.symbol)) ) \
                     and (e.RHS.has(sp.cos(u.symbol)) or e.LHS.has(sp.cos(u.symbol))):
                     continue   # this shouldbe caught by another ID
+                # an equation the unknown drops out of at every pose which the
+                #  arm can reach does not determine it
+                es = (e.RHS - e.LHS).expand()
+                if R is not None and any(
+                        es.coeff(f(u.symbol)) != 0 and R.always_zero(es.coeff(f(u.symbol)))
+                        for f in (sp.sin, sp.cos)):
+                    continue
                 if e.RHS.has(sp.sin(u.symbol)) or e.LHS.has(sp.sin(u.symbol)):   # we found  X = Asin(x)
                     if(self.BHdebug):
                         print('I found an sin() equation to ID: ', e)
diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index 2730777..87f625a 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -183,6 +183,10 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                     too_many_unknowns = False
                     if count_unknowns(unknowns, co) > 0 or count_unknowns(unknowns, d1[Bwx]) >0 or count_unknowns(unknowns, d2[Dwx]) > 0:
                         too_many_unknowns = True
+                    # nor if a coefficient vanishes at every pose the arm can reach,
+                    #  e.g. r_13*cos(th_1) + r_23*sin(th_1) of an arm with less than 6 DOF
+                    elif R is not None and (R.always_zero(d1[Awx]) or R.always_zero(d2[Cwx])):
+                        continue
 
 
                     # a good match / solution candidate
-- 
2.43.0


From 0fba968bade88e9e6fd30688b3bb92c84b238c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:20 +0000
Subject: [PATCH 37/38] fix: ikSolver crashed with IndexError in the output
 stage when no joint could be solved

---
 ikSolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ikSolver.py b/ikSolver.py
index 701a52e..60cb118 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -405,6 +405,9 @@ if VERSION02:
 #
 R.create_solution_set()
 
+if len(R.solutionSet) == 0:
+    print("\n\n       I'm sorry, no solutions were found \n\n")
+    quit()
 
 ol.output_latex_solution(R,unks, R.solutionSet)  # calling args could be optimized for V3
 op.output_python_code(R, R.solutionSet)
-- 
2.43.0


From e9f894e75e9c90e14dedbf2f96042211ceef9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:10 +0000
Subject: [PATCH 38/38] fix: forward kinematics code left joint variables
 without a subscript (Wrist) undefined

---
 ikbtfunctions/output_python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index e505497..2804d69 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -123,6 +123,8 @@ pi = np.pi
                 print(indent + soa[:-1], file=f)
             else:
                 print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
+        else:      # name without a subscript (e.g. A, B, C of the Wrist)
+            print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
 
     funcname = 'Fkin_'+orig_name
     print('''
-- 
2.43.0

