From 511b3b07d4f3c1ceb376dc8a2593c98efc33b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 1/3] fix: mprint_as_array no longer overwrites the matrix of
 the caller

With use_cse=True the reduced expressions were stored in the given matrix.
---
 meshless/dev/sympytools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index a94f224..8173888 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -264,6 +264,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
     ls = []
     if use_cse:
         subs, m_list = sympy.cse(m)
+        m = m.copy()
         for i, v in enumerate(m_list):
             m[i] = v
     if sufix is None:
-- 
2.43.0


From 6e5b68cf76832e38ebfaecf8eed68dce1628fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:17 +0000
Subject: [PATCH 2/3] fix: mprint_as_sparse selects the upper triangle of the
 whole matrix

With is_symmetric and dofpernode the indices within the node block were
compared, which printed entries below the diagonal and left out others.
---
 meshless/dev/sympytools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 8173888..f760d87 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -91,15 +91,14 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
 
     num = 0
     for (i, j), v in np.ndenumerate(m):
+        if is_symmetric and i > j:
+            continue
         if dofpernode:
             nindi = (i // dofpernode) + 1
             nindj = (j // dofpernode) + 1
             i = i % dofpernode
             j = j % dofpernode
         if v:
-            if is_symmetric and i > j:
-                continue
-
             if subs:
                 v = v.subs(subs)
             num += 1
-- 
2.43.0


From 8284b485f1cbcda7826e67d1149eaa42d48e13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 3/3] fix: mprint_as_array expands powers of several digits

The powers were replaced in order of occurrence, so that x**2 was also
replaced inside of x**20.  pow2mul replaces longer powers first.
---
 meshless/dev/sympytools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index f760d87..0505be2 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -300,10 +300,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mul(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0

